package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopData lists the natural loops of a function.
type loopData struct {
	heads map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func (e *Eng) loopsOf(fn *ssa.Function) *loopData {
	if d := e.loopInfo[fn]; d != nil {
		return d
	}
	d := &loopData{heads: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := d.heads[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				d.heads[h] = body
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	e.loopInfo[fn] = d
	return d
}

const (
	maxUnroll     = 300
	maxUnrollFork = 64
	maxRounds     = 14
	maxParts      = 40
)

type loopInst struct {
	seq     int64 // symbols with I >= seq were made inside the loop
	objSeq0 int
	entry   arrival
	objIDs  map[string]int
	famIDs  map[string]int
	bools   map[string]map[*T]bool
	tmpl    map[string]*tmplState
	prop    map[string]*T // proposed closed forms, by leaf
	noProp  map[string]bool
	name    string
}

type tmplState struct {
	set  IntSet
	grew int
}

type head struct {
	arr    arrival
	sig    string
	leaves map[string]*T
	desc   map[string]string
	phis   map[*T]*T // int φ -> nothing (membership)
	via    string    // the partition whose path leads here exactly, if any
}

// loop analyses the loop with the given head from one entry state.
func (e *Eng) loop(fr *Frame, hd *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State) []exit {
	e.Stats.Loops[fmt.Sprintf("%s#%d", fr.fn, hd.Index)] = true
	outer := fr.loops
	f0 := len(e.Findings)

	run := func(a arrival) (backs []arrival, exits []edgeExit, rets []exit) {
		lc := &loopCtx{head: hd, blocks: body}
		nf := a.fr.clone()
		nf.loops = append(outer[:len(outer):len(outer)], lc)
		nf.iterConst, nf.iterOpen = false, false
		rets = e.execFrom(nf, hd, 0, a.st.Clone())
		return lc.backs, lc.exits, rets
	}
	finish := func(exits []edgeExit, rets []exit) []exit {
		for _, x := range exits {
			nf := x.fr.clone()
			nf.loops = outer
			rets = append(rets, e.goTo(nf, x.from, x.to, x.st)...)
		}
		return rets
	}

	dec := e.decided[hd]
	if dec == nil {
		dec = deciding(hd, body)
		e.decided[hd] = dec
	}

	// 1. loops whose exit test is constant are unrolled
	{
		cur := []arrival{{fr, st}}
		var allX []edgeExit
		var allR []exit
		ok := true
		bound, deep, ways, way0 := e.D.Bound, false, lines{}, uint64(0)
		ways2 := map[*State]*hist{}
		// around drops the iterations that bring a state back and would go on
		// for ever
		around := func(a arrival, backs []arrival) []arrival {
			if e.D.Bound == 0 {
				return backs
			}
			h := &hist{a, ways2[a.st]}
			var r []arrival
			for _, y := range backs {
				if repeats(hd, dec, h, y) || e.D.Hunt && e.recurs(hd, dec, a, y, func(a arrival) []arrival { b, _, _ := run(a); return b }) {
					e.ReportProp(y.st, "C36", endless, blockPos(hd), "an iteration of this loop leads back to the state it began with")
					continue
				}
				ways2[y.st] = h
				r = append(r, y)
			}
			return r
		}
		if d := e.D.Deep[loopName(fr.fn, hd)]; d > bound && bound > 0 {
			bound, deep = d, true
		}
		for n := 0; len(cur) > 0; n++ {
			if n > maxUnroll && !deep || len(cur) > maxUnrollFork && e.D.Bound == 0 {
				ok = false
				break
			}
			if e.Debug {
				fmt.Printf("UNROLL %s.%d n=%d width=%d depth=%d\n", shortFn(fr.fn), hd.Index, n, len(cur), len(outer))
			}
			var next []arrival
			for _, a := range cur {
				before := a.st.Way
				if deep {
					if n == 0 {
						way0 = a.st.Way
					}
					a.st.Way = 0
				}
				b, x, r := run(a)
				b = around(a, b)
				if deep {
					a.st.Way = before
					if n < bound {
						next = append(next, ways.follow(a.st, b, e.D.Width, func(a arrival) int {
							f0, way := len(e.Findings), a.st.Way
							b, _, _ := run(a)
							e.Findings, a.st.Way = e.Findings[:f0], way
							return len(b)
						})...)
					}
					if bound > manyIterations && n > 8 && n < bound-8 {
						// a number in the loop matters when it is reached
						continue
					}
					for _, y := range x {
						y.st.turn(way0)
						y.st.turn(uint64(n))
					}
					for _, y := range r {
						y.St.turn(way0)
						y.St.turn(uint64(n))
					}
					allX = append(allX, x...)
					allR = append(allR, r...)
					continue
				}
				for _, y := range b {
					if !y.fr.iterConst {
						if e.D.Bound > 0 {
							// only the first iterations are followed
							if n < bound && len(next) < maxUnrollFork {
								next = append(next, y)
							}
							continue
						}
						ok = false
					}
				}
				if !ok {
					break
				}
				if e.D.Bound == 0 {
					next = append(next, b...)
				} else {
					for _, y := range b {
						if y.fr.iterConst && (!y.fr.iterOpen || n < manyOpen) {
							next = append(next, y)
						}
					}
				}
				allX = append(allX, x...)
				allR = append(allR, r...)
			}
			if !ok {
				break
			}
			cur = next
		}
		if ok || e.D.Bound > 0 {
			return finish(allX, allR)
		}
	}
	e.Findings = e.Findings[:f0]

	// 2. fixpoint
	symSeq++
	li := &loopInst{seq: int64(symSeq), objSeq0: objSeq, entry: arrival{fr, st}, objIDs: map[string]int{}, famIDs: map[string]int{},
		tmpl: map[string]*tmplState{}, prop: map[string]*T{}, noProp: map[string]bool{}, name: loopName(fr.fn, hd)}
	e.loopNames[li.seq] = li.name
	if _, ok := e.LoopConst[li.name]; !ok {
		e.LoopConst[li.name] = e.loopConst(fr.fn, body)
	}
	ek := e.partKey(li, hd, li.entry)
	if e.D.Peel {
		ek += "#first"
	}
	heads := map[string]*head{ek: {arr: li.entry, leaves: map[string]*T{}}}
	for round := 0; ; round++ {
		e.Stats.Rounds++
		if round > maxRounds {
			e.GiveUp("no loop invariant found for the loop at %s", e.PosStr(blockPos(hd)))
		}
		e.Findings = e.Findings[:f0]
		var exits []edgeExit
		var rets []exit
		groups := map[string][]arrival{ek: {li.entry}}
		from := map[string][]string{ek: {"<entry>"}}
		step := map[string][]string{ek: {""}}
		var keys []string
		for k := range heads {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var edges []backEdge
		for _, k := range keys {
			seq := int64(symSeq)
			b, x, r := run(heads[k].arr)
			var split []arrival
			for _, y := range b {
				split = append(split, settleBools(hd, y)...)
			}
			for _, y := range split {
				nk := e.partKey(li, hd, y)
				edges = append(edges, backEdge{k, nk, heads[k].arr, y, dependsOnCaller(hd, dec, heads[k].arr, y, seq)})
				groups[nk] = append(groups[nk], y)
				o := k
				if v := heads[k].via; v != "" {
					o = v
				}
				from[nk] = append(from[nk], o)
				step[nk] = append(step[nk], k)
			}
			exits = append(exits, x...)
			rets = append(rets, r...)
		}
		if len(groups) > maxParts {
			e.GiveUp("too many partitions at the loop %s", e.PosStr(blockPos(hd)))
		}
		var gk []string
		for k := range groups {
			gk = append(gk, k)
		}
		sort.Strings(gk)
		next := map[string]*head{}
		stable := len(groups) == len(heads)
		for _, k := range gk {
			var h *head
			if src := step[k][0]; len(groups[k]) == 1 && k != ek && src != k && heads[src].via == "" {
				// reached along a single path from another partition: the
				// state of that path describes it exactly
				fr := groups[k][0].fr.clone()
				fr.iterConst, fr.iterOpen = false, false
				h = &head{arr: arrival{fr, groups[k][0].st}, leaves: map[string]*T{}, via: src, sig: "via:" + src + heads[src].sig}
			} else {
				h = e.join(li, hd, k, groups[k], from[k], heads[k])
			}
			next[k] = h
			if heads[k] == nil || heads[k].sig != h.sig {
				stable = false
				if e.Debug && heads[k] != nil {
					fmt.Printf("LOOP %s round %d part %q\n", li.name, round, k)
					for p, v := range h.leaves {
						if heads[k].leaves[p] != v {
							fmt.Printf("   %s: %v -> %v\n", p, heads[k].leaves[p], v)
						}
					}
					for p, v := range h.desc {
						if heads[k].desc[p] != v {
							fmt.Printf("   %s: %v -> %v\n", p, heads[k].desc[p], v)
						}
					}
				}
			}
		}
		if stable {
			if x := e.ends(li, hd, edges); x != nil {
				e.ReportProp(x.y.st, "C36", endless, blockPos(hd), "nothing shows that this loop comes to an end")
				e.Findings[len(e.Findings)-1].Soft = true
			} else {
				e.Stats.Ended++
			}
			return finish(exits, rets)
		}
		heads = next
	}
}

func loopName(fn *ssa.Function, hd *ssa.BasicBlock) string {
	return fmt.Sprintf("%s.%d", shortFn(fn), hd.Index)
}

// LargeConst bounds the numbers that count in LoopConst when they are used
// in the loop itself, SmallConst those that may be used anywhere in its
// function.
const (
	SmallConst = 140
	LargeConst = 1100
)

// manyIterations is a number of iterations after which ways out of a loop are
// only followed near its end in confirming runs.
const manyIterations = 140

// manyOpen is a number of iterations after which a confirming run leaves a
// loop alone if only some of its exit tests are constant.
const manyOpen = 40

// loopConst is the largest number, within these bounds, that a loop or a
// function it calls uses as an operand.
func (e *Eng) loopConst(fn *ssa.Function, body map[*ssa.BasicBlock]bool) int {
	r := 0
	for _, b := range fn.Blocks {
		lim := SmallConst
		if body == nil || body[b] {
			lim = LargeConst
		}
		for _, in := range b.Instrs {
			var buf [8]*ssa.Value
			for _, o := range in.Operands(buf[:0]) {
				c, ok := (*o).(*ssa.Const)
				if !ok || c.Value == nil {
					continue
				}
				if t, ok := c.Type().Underlying().(*types.Basic); !ok || t.Kind() != types.Int && t.Kind() != types.Int64 {
					continue
				}
				if k := c.Int64(); k <= int64(lim) {
					r = max(r, int(k))
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && body != nil && lim == LargeConst {
				if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && e.InModule(f.Pkg.Pkg) {
					r = max(r, e.loopConst(f, nil))
				}
			}
		}
	}
	return r
}

// follow takes the first iterations of a loop along a few lines, each of
// which takes the same way through the loop as long as it can, and otherwise
// one that leads on.
func (lines lines) follow(from *State, backs []arrival, width int, ahead func(arrival) int) []arrival {
	if len(backs) == 0 {
		return nil
	}
	nth := map[uint64]int{}
	for _, b := range backs {
		n := nth[b.st.Way]
		nth[b.st.Way]++
		b.st.turn(uint64(n))
	}
	if lines == nil {
		return nil
	}
	want, ok := lines[from]
	switch {
	case !ok && len(lines) == 0: // the first iteration: one line for every way
		for i, b := range backs {
			if i < width {
				lines[b.st] = [2]uint64{b.st.Way, b.st.Way}
			}
		}
	case !ok: // a branch of a line, of which only the way out is of interest
		return nil
	default:
		pick := -1
		for _, w := range want {
			for i, b := range backs {
				if pick < 0 && b.st.Way == w {
					pick = i
				}
			}
		}
		if pick < 0 {
			pick = 0
			if len(backs) > 1 {
				best := 0
				for i := range backs[:min(len(backs), 8)] {
					if n := ahead(backs[i]); n > best {
						pick, best = i, n
					}
				}
			}
			want[1] = backs[pick].st.Way
		}
		p := backs[pick]
		lines[p.st] = want
		r := []arrival{p}
		for _, b := range backs {
			if b.st != p.st && len(r) < 1+width/3 {
				r = append(r, b)
			}
		}
		return r
	}
	return backs
}

// lines are the states that are followed, with the way of their first and of
// their latest new iteration.
type lines map[*State][2]uint64

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func headPhis(hd *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range hd.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

// settleBools splits an arrival by the truth values it carries into the next
// iteration, so that every one of them is a constant.
func settleBools(hd *ssa.BasicBlock, a arrival) []arrival {
	out := []arrival{a}
	for _, p := range headPhis(hd) {
		var next []arrival
		for _, a := range out {
			v := a.fr.env[p]
			if v == nil || v.Sort != SBool || v.Op == "bool" || v.Op == "sym" {
				next = append(next, a)
				continue
			}
			y, n := Fork(a.st.Clone(), v)
			for i, s := range []*State{y, n} {
				if s != nil {
					fr := a.fr
					if y != nil && n != nil {
						fr = fr.clone()
					}
					fr.env[p] = Bool(i == 0)
					next = append(next, arrival{fr, s})
				}
			}
		}
		out = next
	}
	for _, a := range out {
		for id, o := range a.st.heap {
			if o.Kind == 'c' && o.Val != nil && o.Val.Sort == SBool && o.Val.Op != "bool" {
				if k, ok := a.st.F.Decide(o.Val); ok {
					c := *o
					c.Val = Bool(k)
					a.st.heap[id] = &c
				}
			}
		}
	}
	return out
}

// partKey is the partition of an arrival.
func (e *Eng) partKey(li *loopInst, hd *ssa.BasicBlock, a arrival) string {
	var b strings.Builder
	var walk func(v *T, d int)
	walk = func(v *T, d int) {
		if v == nil || d > 3 {
			return
		}
		switch v.Sort {
		case SBool:
			if v.Op == "bool" {
				fmt.Fprintf(&b, "%d", v.I)
			} else {
				b.WriteByte('.')
			}
			return
		case SInt:
			return
		case SIface, SPtr, SFunc, SSlice:
			if k, ok := a.st.F.Decide(Eq(v, Nil(v.Typ))); ok {
				if k {
					b.WriteByte('n')
				} else {
					b.WriteByte('v')
				}
			} else {
				b.WriteByte('.')
			}
		}
		if v.Op == "struct" {
			st := v.Typ.Underlying().(*types.Struct)
			for i, f := range v.A {
				if f.Sort == SInt {
					if _, named := st.Field(i).Type().(*types.Named); named && f.Op == "int" {
						fmt.Fprintf(&b, "=%d", f.I)
					}
					continue
				}
				walk(f, d+1)
			}
		}
	}
	for _, p := range headPhis(hd) {
		v := a.fr.env[p]
		if v.Sort == SInt {
			if _, named := p.Type().(*types.Named); named && v.Op == "int" {
				fmt.Fprintf(&b, "%s=%d;", p.Name(), v.I)
			}
			continue
		}
		b.WriteString(p.Name())
		walk(v, 0)
		b.WriteByte(';')
	}
	ent := li.entry.st
	for _, id := range sortedInts(ent.heap) {
		o := a.st.heap[id]
		if o == nil || o == ent.heap[id] {
			o = ent.heap[id]
		}
		if o.Kind == 'c' {
			if o.Val.Sort == SBool || o.Val.Sort == SIface || o.Val.Sort == SSlice || o.Val.Sort == SFunc || o.Val.Op == "struct" {
				fmt.Fprintf(&b, "o%d", id)
				walk(o.Val, 0)
				b.WriteByte(';')
			}
		}
	}
	var gs []string
	for g := range a.st.ghost {
		if e.D.Part != nil && e.D.Part(g) {
			gs = append(gs, g)
		}
	}
	sort.Strings(gs)
	for _, g := range gs {
		fmt.Fprintf(&b, "%s=%s;", g, a.st.ghost[g])
	}
	return b.String()
}

type intClass struct {
	vec []*T
	phi *T
}

type joiner struct {
	e      *Eng
	li     *loopInst
	key    string
	from   []string // the partitions the arrivals come from
	arr    []arrival
	ints   []*intClass
	seqs   map[string]*T
	opq    map[string]*T
	objs   map[string]int
	st     *State // the head state being built
	leaves map[string]*T
	desc   map[string]string
	late   []func()
	// values of the sequence leaves on every arrival
	seqVecs map[string][]*T
	split   func(path string, vec []*T) *T
}

func (e *Eng) join(li *loopInst, hd *ssa.BasicBlock, key string, arr []arrival, from []string, prev *head) *head {
	ent := li.entry
	// materialise ambient objects everywhere
	for _, a := range arr {
		for _, id := range sortedInts(a.st.heap) {
			if ent.st.heap[id] != nil || !e.ambient(li, id) {
				continue
			}
			e.materialise(ent.st, id)
		}
	}
	cp := make([]arrival, len(arr))
	for i, a := range arr {
		cp[i] = arrival{a.fr, a.st.Clone()}
		for _, id := range sortedInts(ent.st.heap) {
			if cp[i].st.heap[id] == nil {
				cp[i].st.heap[id] = ent.st.heap[id]
			}
		}
		if len(a.fr.defers) != len(ent.fr.defers) {
			e.GiveUp("defer in a loop")
		}
	}
	j := &joiner{e: e, li: li, key: key, from: from, arr: cp, seqs: map[string]*T{}, opq: map[string]*T{}, objs: map[string]int{},
		leaves: map[string]*T{}, desc: map[string]string{}, seqVecs: map[string][]*T{}}
	j.st = &State{heap: map[int]*Obj{}, F: ent.st.F.clone(), ghost: map[string]*T{}, Tr: ent.st.Tr}
	for _, a := range arr {
		j.st.Calls = max(j.st.Calls, a.st.Calls)
	}
	if prev != nil || len(arr) > 1 {
		j.st.Note("%s: after any number of iterations", e.PosStr(blockPos(hd)))
	}
	nf := ent.fr.clone()
	nf.iterConst, nf.iterOpen = false, false
	for _, p := range headPhis(hd) {
		vec := make([]*T, len(cp))
		for i, a := range cp {
			vec[i] = a.fr.env[p]
		}
		nf.env[p] = j.val("r:"+p.Name(), vec, p.Type())
	}
	names := map[string]bool{}
	for _, a := range cp {
		for g := range a.st.ghost {
			names[g] = true
		}
	}
	var gs []string
	for g := range names {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		vec := make([]*T, len(cp))
		miss := false
		for i, a := range cp {
			vec[i] = a.st.ghost[g]
			if vec[i] == nil {
				miss = true
			}
		}
		if miss {
			continue
		}
		j.st.ghost[g] = j.val("g:"+g, vec, nil)
	}
	for _, id := range sortedInts(ent.st.heap) {
		same := true
		for _, a := range cp {
			if a.st.heap[id] != ent.st.heap[id] {
				same = false
			}
		}
		if same {
			j.st.heap[id] = ent.st.heap[id]
			continue
		}
		ids := make([]int, len(cp))
		for i := range ids {
			ids[i] = id
		}
		j.st.heap[id] = j.objContent(fmt.Sprintf("o:%d", id), ids)
	}
	for k := 0; k < len(j.late); k++ {
		j.late[k]()
	}
	j.intFacts()
	j.entryFacts()
	j.propose(prev)

	h := &head{arr: arrival{nf, j.st}, leaves: j.leaves, desc: j.desc}
	var b strings.Builder
	var ks []string
	for k := range j.leaves {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%d;", k, j.leaves[k].id)
	}
	ks = ks[:0]
	for k := range j.desc {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%s:%s;", k, j.desc[k])
	}
	h.sig = b.String()
	return h
}

// ambient objects exist independently of the path.
func (e *Eng) ambient(li *loopInst, id int) bool {
	if e.globObj[id] != nil || e.baseHeap[id] != nil {
		return true
	}
	if t := lazyRev[id]; t != nil && li.entryLevel(t) {
		return true
	}
	return false
}

func (e *Eng) materialise(st *State, id int) {
	if t := lazyRev[id]; t != nil {
		if t.Sort == SSlice {
			st.ResolveSlice(t)
		} else {
			e.needPtr(st, t, 0)
		}
		if st.heap[id] == nil {
			e.GiveUp("cannot materialise %s", t)
		}
		return
	}
	e.obj(st, id)
}

// entryLevel reports that a term only mentions things that exist before the
// loop.
func (li *loopInst) entryLevel(t *T) bool {
	return !MentionsAny(t, func(x *T) bool {
		switch x.Op {
		case "sym":
			return x.I >= li.seq
		case "ptr", "slice":
			id := int(x.I)
			if id > li.objSeq0 && li.entry.st.heap[id] == nil {
				return true
			}
		}
		return false
	})
}

func (j *joiner) rec(path string, t *T) *T {
	j.leaves[path] = t
	return t
}

func (j *joiner) phi(path string, s Sort, typ types.Type) *T {
	return mk("sym", fmt.Sprintf("φ%d[%s|%s]", j.li.seq, j.key, path), j.li.seq, s, typ, nil, nil)
}

func vecKey(vec []*T) string {
	var b strings.Builder
	for _, v := range vec {
		fmt.Fprintf(&b, "%d,", v.id)
	}
	return b.String()
}

func allSame2(vec []int) bool {
	for _, v := range vec[1:] {
		if v != vec[0] {
			return false
		}
	}
	return true
}

func allSame(vec []*T) bool {
	for _, v := range vec[1:] {
		if v != vec[0] {
			return false
		}
	}
	return true
}

// val joins one value.
func (j *joiner) val(path string, vec []*T, typ types.Type) *T {
	if allSame(vec) && j.li.entryLevel(vec[0]) {
		return j.rec(path, vec[0])
	}
	if len(path) > 400 {
		j.e.GiveUp("value too deep to join: %s", path[:40])
	}
	srt := vec[0].Sort
	for _, v := range vec {
		if v.Sort != srt {
			j.e.GiveUp("join of %s and %s", vec[0], v)
		}
	}
	if typ == nil {
		for _, v := range vec {
			if v.Typ != nil {
				typ = v.Typ
			}
		}
	}
	switch srt {
	case SInt:
		return j.int(path, vec, typ)
	case SSeq:
		return j.seq(path, vec)
	case SStr:
		return j.str(path, vec)
	case SSlice:
		return j.slice(path, vec, typ)
	case STuple:
		n := -1
		for _, v := range vec {
			if v.Op == "tuple" {
				n = len(v.A)
			}
		}
		if n >= 0 {
			f := make([]*T, n)
			for i := range f {
				f[i] = j.val(fmt.Sprintf("%s.%d", path, i), sels(vec, i), nil)
			}
			return Tuple(f...)
		}
	case SStruct:
		exp := false
		for _, v := range vec {
			if v.Op == "struct" {
				exp = true
				typ = v.Typ
			}
		}
		if exp {
			st := typ.Underlying().(*types.Struct)
			f := make([]*T, st.NumFields())
			for i := range f {
				f[i] = j.val(fmt.Sprintf("%s.%d", path, i), sels(vec, i), st.Field(i).Type())
			}
			return Struct(typ, f)
		}
	case SIface:
		ok := true
		for _, v := range vec {
			if v.Op != "iface" || TypeStr(v.Typ) != TypeStr(vec[0].Typ) {
				ok = false
			}
		}
		if ok {
			return Iface(vec[0].Typ, j.val(path+".i", sels1(vec, 0), vec[0].Typ))
		}
	case SFunc:
		ok := true
		for _, v := range vec {
			if v.Op != "clos" || v.S != vec[0].S {
				ok = false
			}
		}
		if ok {
			f := make([]*T, len(vec[0].A))
			for i := range f {
				f[i] = j.val(fmt.Sprintf("%s.b%d", path, i), sels1(vec, i), nil)
			}
			return mk("clos", vec[0].S, 0, SFunc, vec[0].Typ, f, nil)
		}
	case SPtr:
		for i, v := range vec {
			if v.Op != "ptr" {
				vec[i] = j.arr[i].st.F.find(v)
			}
			if vec[i].Op != "ptr" || len(vec[i].A) != len(vec[0].A) {
				j.e.GiveUp("join of pointers %s and %s", vec[0], vec[i])
			}
		}
		ids := make([]int, len(vec))
		for i, v := range vec {
			ids[i] = int(v.I)
		}
		id := j.obj(path, ids)
		var st []*T
		for k := range vec[0].A {
			ss := sels1(vec, k)
			if allSame(ss) && j.li.entryLevel(ss[0]) {
				st = append(st, ss[0])
				continue
			}
			for _, s := range ss {
				if s.Op != "i" {
					j.e.GiveUp("join of pointers %s", vec[0])
				}
			}
			st = append(st, idxStep(j.int(fmt.Sprintf("%s.x%d", path, k), sels1(ss, 0), nil)))
		}
		return j.rec(path, PtrTo(id, st...))
	}
	if vec[0].Op == "arr" {
		return mk("arr", "", 0, SOther, typ, []*T{j.seq(path+".a", sels1(vec, 0))}, nil)
	}
	return j.opaque(path, vec, typ)
}

func (j *joiner) opaque(path string, vec []*T, typ types.Type) *T {
	k := fmt.Sprint(vec[0].Sort) + vecKey(vec)
	if t := j.opq[k]; t != nil {
		return j.rec(path, t)
	}
	t := j.phi(path, vec[0].Sort, typ)
	j.opq[k] = t
	switch vec[0].Sort {
	case SIface, SFunc:
		nn := true
		for i, v := range vec {
			b, ok := j.arr[i].st.F.Decide(Eq(v, Nil(v.Typ)))
			if !ok || b {
				nn = false
			}
		}
		if nn {
			j.st.F.Assume(Eq(t, Nil(t.Typ)), false)
			j.desc[path+".nn"] = "non-nil"
		}
	}
	return j.rec(path, t)
}

func sels(vec []*T, i int) []*T {
	r := make([]*T, len(vec))
	for k, v := range vec {
		r[k] = Sel(v, i)
	}
	return r
}

func sels1(vec []*T, i int) []*T {
	r := make([]*T, len(vec))
	for k, v := range vec {
		r[k] = v.A[i]
	}
	return r
}

// int joins integers: locations whose difference (or sum) is the same on
// every arrival share a representative.
func (j *joiner) int(path string, vec []*T, typ types.Type) *T {
	if allSame(vec) && j.li.entryLevel(vec[0]) {
		return j.rec(path, vec[0])
	}
	try := func(sem bool) *T {
		for _, c := range j.ints {
			for _, sg := range []int64{1, -1} {
				d0 := lin2(1, vec[0], -sg, c.vec[0], 0)
				if !j.li.entryLevel(d0) {
					continue
				}
				ok := true
				for i := 1; i < len(vec) && ok; i++ {
					d := lin2(1, vec[i], -sg, c.vec[i], 0)
					if d != d0 {
						if !sem || !j.arr[i].st.F.Same(d, d0) {
							ok = false
						}
					}
				}
				if ok {
					return lin2(1, d0, sg, c.phi, 0)
				}
			}
		}
		return nil
	}
	// a constant under the facts of every arrival
	if j.li.entryLevel(vec[0]) {
		ok := true
		for i := 1; i < len(vec) && ok; i++ {
			ok = j.arr[i].st.F.Same(vec[i], vec[0])
		}
		if ok {
			return j.rec(path, vec[0])
		}
	}
	if t := try(false); t != nil {
		return j.rec(path, t)
	}
	if t := try(true); t != nil {
		return j.rec(path, t)
	}
	c := &intClass{vec: vec, phi: j.phi(path, SInt, typ)}
	j.ints = append(j.ints, c)
	return j.rec(path, c.phi)
}

func (j *joiner) str(path string, vec []*T) *T {
	// substrings of one string
	sub := true
	for _, v := range vec {
		if v.Op != "substr" || v.A[0] != vec[0].A[0] || !j.li.entryLevel(v.A[0]) {
			sub = false
		}
	}
	if sub {
		return j.rec(path, Substr(vec[0].A[0], j.int(path+".lo", sels1(vec, 1), nil), j.int(path+".hi", sels1(vec, 2), nil)))
	}
	q := make([]*T, len(vec))
	for i, v := range vec {
		q[i] = strSeq(v)
	}
	pre := false
	for _, v := range vec {
		pre = pre || v.Op == "join" || v.Op == "str" && v.S == ""
	}
	for _, s := range q {
		if len(s.A) > 0 && len(q[0].A) > 0 && s.A[0] != q[0].A[0] && (s.A[0].Op == "elem") == (q[0].A[0].Op == "elem") {
			pre = false
		}
	}
	if len(q[0].A) > 0 {
		for _, s := range q {
			if len(s.A) == 0 {
				pre = false
			}
		}
	}
	if pre {
		return j.rec(path, Join(j.seq(path+".s", q)))
	}
	return j.opaque(path, vec, types.Typ[types.String])
}

func strSeq(v *T) *T {
	if v.Op == "join" {
		return v.A[0]
	}
	if v.Op == "str" && v.S == "" {
		return rawSeq(nil)
	}
	return rawSeq([]*T{Elem(v)})
}

func (j *joiner) slice(path string, vec []*T, typ types.Type) *T {
	r := make([]*T, len(vec))
	nils := 0
	for i, v := range vec {
		r[i] = j.arr[i].st.ResolveSlice(v)
		if r[i].Op == "nil" {
			nils++
		}
	}
	if nils == len(vec) {
		return j.rec(path, Nil(typ))
	}
	if nils > 0 {
		j.e.GiveUp("join of nil and non-nil slices")
	}
	ids := make([]int, len(r))
	for i, v := range r {
		ids[i] = int(v.I)
	}
	offs, lens := sels1(r, 0), sels1(r, 1)
	j.split = nil
	if !allSame(offs) && !allSame2(ids) {
		j.split = func(path string, vec []*T) *T {
			a, b, c := make([]*T, len(vec)), make([]*T, len(vec)), make([]*T, len(vec))
			for i, v := range vec {
				st := j.arr[i].st
				end := Add(offs[i], lens[i])
				a[i] = st.SubSeq(v, Int(0), offs[i])
				b[i] = st.SubSeq(v, offs[i], end)
				c[i] = st.SubSeq(v, end, SeqLen(v))
			}
			return NewSeq([]*T{j.seq(path+".a", a), j.seq(path+".b", b), j.seq(path+".c", c)})
		}
	}
	id := j.obj(path, ids)
	j.split = nil
	return j.rec(path, SliceV(id, j.int(path+".off", sels1(r, 0), nil), j.int(path+".len", sels1(r, 1), nil), j.int(path+".cap", sels1(r, 2), nil), typ))
}

// obj joins object identities.
func (j *joiner) obj(path string, ids []int) int {
	same := true
	for _, id := range ids[1:] {
		if id != ids[0] {
			same = false
		}
	}
	if same && j.li.entry.st.heap[ids[0]] != nil {
		return ids[0]
	}
	k := fmt.Sprint(ids)
	if id, ok := j.objs[k]; ok {
		return id
	}
	ok := j.key + "|" + path
	id := j.li.objIDs[ok]
	if id == 0 {
		objSeq++
		id = objSeq
		j.li.objIDs[ok] = id
	}
	j.objs[k] = id
	j.desc["obj:"+path] = fmt.Sprint(id)
	j.st.heap[id] = &Obj{Kind: '?'}
	j.st.heap[id] = j.objContent("p:"+path, ids)
	return id
}

func (j *joiner) objContent(path string, ids []int) *Obj {
	os := make([]*Obj, len(ids))
	for i, id := range ids {
		os[i] = j.arr[i].st.heap[id]
		if os[i] == nil {
			os[i] = j.e.obj(j.arr[i].st, id)
		}
		if os[i] == nil || os[i].Kind != os[0].Kind {
			j.e.GiveUp("join of different objects")
		}
	}
	n := *os[0]
	switch n.Kind {
	case 'a':
		vec := make([]*T, len(os))
		pv := make([]*T, len(os))
		fams := map[int]bool{}
		for i, o := range os {
			vec[i] = o.Seq
			pv[i] = o.Prot
			fams[o.Fam] = true
		}
		if f := j.split; f != nil {
			j.split = nil
			n.Seq = f(path, vec)
		} else {
			n.Seq = j.seq(path+".seq", vec)
		}
		n.Prot = j.int(path+".prot", pv, nil)
		if len(fams) > 1 {
			fk := j.key + "|" + path
			f := j.li.famIDs[fk]
			if f == 0 {
				f = NewFam()
				j.li.famIDs[fk] = f
				famAlias[f] = map[int]bool{}
			}
			for x := range fams {
				famAlias[f][x] = true
				for y := range famAlias[x] {
					famAlias[f][y] = true
				}
			}
			n.Fam = f
		}
		j.desc[path+".fam"] = fmt.Sprint(n.Fam)
		for _, o := range os {
			if o.Label != n.Label {
				n.Label = "merged"
			}
		}
	case 'c', 'b', 'i':
		vec := make([]*T, len(os))
		for i, o := range os {
			vec[i] = o.Val
		}
		n.Val = j.val(path, vec, n.Typ)
	case 'm':
		for _, o := range os {
			if o.Val != os[0].Val {
				j.e.GiveUp("map changed in a loop")
			}
		}
	default:
		j.e.GiveUp("join of %c objects", n.Kind)
	}
	return &n
}

// seq joins sequences.
func (j *joiner) seq(path string, vec []*T) *T {
	if allSame(vec) && j.li.entryLevel(vec[0]) {
		return j.rec(path, vec[0])
	}
	j.seqVecs[path] = vec
	vk := vecKey(vec)
	if t := j.seqs[vk]; t != nil {
		return j.rec(path, t)
	}
	// segment lists, kept mutable
	g := make([][]*T, len(vec))
	for i, v := range vec {
		g[i] = append([]*T(nil), j.arr[i].st.F.tidy(v)...)
	}
	var pre, suf []*T
	n := 0
	intAt := func(tag string, iv []*T) *T {
		n++
		return j.int(fmt.Sprintf("%s.%s%d", path, tag, n), iv, nil)
	}
	// common prefix
	for {
		ok := len(g[0]) > 0
		for _, s := range g {
			if len(s) == 0 || s[0] != g[0][0] {
				ok = false
				break
			}
		}
		if !ok || !j.li.entryLevel(g[0][0]) {
			break
		}
		pre = append(pre, g[0][0])
		for i := range g {
			g[i] = g[i][1:]
		}
	}
	// common suffix
	for {
		ok := len(g[0]) > 0
		for _, s := range g {
			if len(s) == 0 || s[len(s)-1] != g[0][len(g[0])-1] {
				ok = false
				break
			}
		}
		if !ok || !j.li.entryLevel(g[0][len(g[0])-1]) {
			break
		}
		suf = append([]*T{g[0][len(g[0])-1]}, suf...)
		for i := range g {
			g[i] = g[i][:len(g[i])-1]
		}
	}
	allEmpty := func() bool {
		for _, s := range g {
			if len(s) > 0 {
				return false
			}
		}
		return true
	}
	body := func(s *T) *T {
		if s.Op == "sub" {
			return s.A[0]
		}
		if s.Op == "comp" {
			return s.A[2]
		}
		return nil
	}
	bnd := func(s *T) (lo, hi *T) {
		if s.Op == "sub" {
			return s.A[1], s.A[2]
		}
		return s.A[0], s.A[1]
	}
	build := func(s, lo, hi *T) *T {
		if s.Op == "sub" {
			return SubSeg(s.A[0], lo, hi)
		}
		return CompSeg(lo, hi, s.A[2])
	}
	// shrinking suffix: same body and upper bound
	if !allEmpty() {
		var ref *T
		ok := true
		for _, s := range g {
			if len(s) == 0 {
				ok = false
				break
			}
			l := s[len(s)-1]
			if body(l) == nil || !j.li.entryLevel(body(l)) {
				ok = false
				break
			}
			_, hi := bnd(l)
			if ref == nil {
				if !j.li.entryLevel(hi) {
					ok = false
					break
				}
				ref = l
			} else {
				_, rh := bnd(ref)
				if l.Op != ref.Op || body(l) != body(ref) || hi != rh {
					ok = false
					break
				}
			}
		}
		if ok && ref != nil {
			// only if at least one arrival keeps something in front of it or
			// the lower bounds differ
			los := make([]*T, len(g))
			for i, s := range g {
				los[i], _ = bnd(s[len(s)-1])
			}
			_, rh := bnd(ref)
			if !allSame(los) {
				suf = append([]*T{build(ref, intAt("lo", los), rh)}, suf...)
				for i := range g {
					g[i] = g[i][:len(g[i])-1]
				}
			}
		}
	}
	// growing prefix: same body and lower bound, empties are [lo,lo)
	for !allEmpty() {
		// a single element is a segment of length one
		for _, s := range g {
			if len(s) == 0 || s[0].Op != "comp" || !j.li.entryLevel(s[0].A[2]) {
				continue
			}
			c := s[0]
			for _, t := range g {
				if len(t) > 0 && t[0].Op == "elem" && Subst(c.A[2], Kappa, c.A[0]) == t[0].A[0] {
					t[0] = CompSeg(c.A[0], AddK(c.A[0], 1), c.A[2])
				}
			}
			break
		}
		var ref *T
		ok := true
		for _, s := range g {
			if len(s) == 0 {
				continue
			}
			l := s[0]
			if body(l) == nil || !j.li.entryLevel(body(l)) {
				ok = false
				break
			}
			lo, _ := bnd(l)
			if ref == nil {
				if !j.li.entryLevel(lo) {
					ok = false
					break
				}
				ref = l
			} else {
				rl, _ := bnd(ref)
				if l.Op != ref.Op || body(l) != body(ref) || lo != rl {
					ok = false
					break
				}
			}
		}
		if !ok || ref == nil {
			break
		}
		rl, _ := bnd(ref)
		his := make([]*T, len(g))
		for i, s := range g {
			if len(s) == 0 {
				his[i] = rl
			} else {
				_, his[i] = bnd(s[0])
			}
		}
		pre = append(pre, build(ref, rl, intAt("hi", his)))
		for i := range g {
			if len(g[i]) > 0 {
				g[i] = g[i][1:]
			}
		}
	}
	// growing suffix: same body and upper bound, empties are [hi,hi)
	if !allEmpty() {
		for _, s := range g {
			// a single element in front of the suffix belongs to it
			if n := len(s); n >= 2 && s[n-1].Op == "comp" && s[n-2].Op == "elem" {
				c := s[n-1]
				lo := AddK(c.A[0], -1)
				if Subst(c.A[2], Kappa, lo) == s[n-2].A[0] {
					s[n-2], s[n-1] = CompSeg(lo, c.A[1], c.A[2]), nil
				}
			}
		}
		for i, s := range g {
			if n := len(s); n > 0 && s[n-1] == nil {
				g[i] = s[:n-1]
			}
		}
		var ref *T
		ok := true
		for _, s := range g {
			if len(s) == 0 {
				continue
			}
			l := s[len(s)-1]
			if body(l) == nil || !j.li.entryLevel(body(l)) {
				ok = false
				break
			}
			_, hi := bnd(l)
			if !j.li.entryLevel(hi) {
				ok = false
				break
			}
			if ref == nil {
				ref = l
				continue
			}
			_, rh := bnd(ref)
			if l.Op != ref.Op || body(l) != body(ref) || hi != rh {
				ok = false
				break
			}
		}
		if ok && ref != nil {
			_, rh := bnd(ref)
			los := make([]*T, len(g))
			for i, s := range g {
				los[i] = rh
				if len(s) > 0 {
					los[i], _ = bnd(s[len(s)-1])
				}
			}
			suf = append([]*T{build(ref, intAt("lo", los), rh)}, suf...)
			for i := range g {
				if n := len(g[i]); n > 0 {
					g[i] = g[i][:n-1]
				}
			}
		}
	}
	var mid []*T
	if !allEmpty() {
		// aligned single elements
		one := true
		for _, s := range g {
			if len(s) != 1 || s[0].Op != "elem" {
				one = false
			}
		}
		if one {
			ev := make([]*T, len(g))
			for i, s := range g {
				ev[i] = s[0].A[0]
			}
			if sameSort(ev) {
				mid = []*T{Elem(j.val(path+".e", ev, nil))}
			}
		}
		if mid == nil {
			rest := make([]*T, len(g))
			lens := make([]*T, len(g))
			for i, s := range g {
				rest[i] = rawSeq(s)
				lens[i] = SeqLen(rest[i])
			}
			rk := "rest" + vecKey(rest)
			t := j.seqs[rk]
			if t == nil {
				b := j.phi(path, SSeq, nil)
				ln := intAt("n", lens)
				j.late = append(j.late, func() { j.st.F.Assume(Eq(SeqLenBase(b), ln), true) })
				t = NewSeq([]*T{SubSeg(b, Int(0), ln)})
				j.seqs[rk] = t
			}
			mid = []*T{t}
		}
	}
	r := NewSeq(append(append(append([]*T{}, pre...), mid...), suf...))
	if p := j.li.prop[j.key+"|"+path]; p != nil {
		if p == r {
			// verified on this round
		} else if j.desc["usedprop:"+path] == "" && !j.li.noProp[j.key+"|"+path+"|tried"] {
			// use the proposal as the next head
			j.li.noProp[j.key+"|"+path+"|tried"] = true
			r = p
		} else {
			delete(j.li.prop, j.key+"|"+path)
			j.li.noProp[j.key+"|"+path] = true
		}
	}
	j.seqs[vk] = r
	return j.rec(path, r)
}

func sameSort(v []*T) bool {
	for _, x := range v {
		if x.Sort != v[0].Sort {
			return false
		}
	}
	return true
}

// intFacts bounds the integer representatives.
func (j *joiner) intFacts() {
	if len(j.ints) == 0 {
		return
	}
	base := map[*T]bool{}
	add := func(t *T) {
		at, _, _ := linOf(t)
		for _, a := range at {
			if j.li.entryLevel(a) {
				base[a] = true
			}
		}
	}
	for f := range j.li.entry.st.F.lin {
		add(f)
	}
	for _, c := range j.ints {
		for _, v := range c.vec {
			add(v)
		}
	}
	for _, w := range j.e.D.Watch {
		add(w)
	}
	var bs []*T
	for a := range base {
		bs = append(bs, a)
	}
	sort.Slice(bs, func(i, k int) bool { return bs[i].id < bs[k].id })
	if len(bs) > 60 {
		bs = bs[:60]
	}
	for x, c := range j.ints {
		c := c
		j.apply(c.phi.S, c.phi, func(i int) *T { return c.vec[i] })
		for _, d := range j.ints[:x] {
			d := d
			j.apply(c.phi.S+" - "+d.phi.S, Sub(c.phi, d.phi), func(i int) *T { return Sub(c.vec[i], d.vec[i]) })
		}
		for _, b := range bs {
			b := b
			j.apply(fmt.Sprintf("%s - %d", c.phi.S, b.id), Sub(c.phi, b), func(i int) *T { return Sub(c.vec[i], b) })
		}
	}
}

// apply maintains an interval template.
func (j *joiner) apply(name string, form *T, vals func(i int) *T) {
	set := SetEmpty
	for i, a := range j.arr {
		set = set.Union(a.st.F.BoundsOf(vals(i)))
		if set.IsAll() {
			break
		}
	}
	key := j.key + "|" + name
	t := j.li.tmpl[key]
	if t == nil {
		t = &tmplState{set: set}
		j.li.tmpl[key] = t
	} else if !set.SubsetOf(t.set) {
		t.grew++
		u := set.Union(t.set)
		lo, hi := u.Min(), u.Max()
		if !t.set.Empty() && t.grew > 1 {
			if lo < t.set.Min() {
				lo = NegInf
			}
			if hi > t.set.Max() {
				hi = PosInf
			}
		}
		if t.grew > 4 {
			lo, hi = NegInf, PosInf
		}
		if t.grew > 1 || len(u) > 4 {
			u = Range(lo, hi)
		}
		t.set = u
	}
	if !t.set.IsAll() {
		j.desc["t:"+name] = t.set.String()
		j.st.F.Assume(In(form, t.set), true)
	}
}

// entryFacts keeps what every arrival knows about things that exist before
// the loop.
func (j *joiner) entryFacts() {
	forms := map[*T]bool{}
	for _, a := range j.arr {
		for f := range a.st.F.lin {
			if j.li.entryLevel(f) {
				forms[f] = true
			}
		}
	}
	var fs []*T
	for f := range forms {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, k int) bool { return fs[i].id < fs[k].id })
	for _, f := range fs {
		f := f
		j.apply(fmt.Sprintf("e:%d", f.id), f, func(int) *T { return f })
	}
	// boolean facts: a set that only shrinks
	key := j.key
	old, seen := j.li.bools[key]
	cand := map[*T]bool{}
	for i, a := range j.arr {
		if i == 0 {
			for b, v := range a.st.F.boo {
				if j.li.entryLevel(b) {
					cand[b] = v
				}
			}
			continue
		}
		for b, v := range cand {
			if w, ok := a.st.F.Decide(b); !ok || w != v {
				delete(cand, b)
			}
		}
	}
	if seen {
		for b := range cand {
			if v, ok := old[b]; !ok || v != cand[b] {
				delete(cand, b)
			}
		}
	}
	if j.li.bools == nil {
		j.li.bools = map[string]map[*T]bool{}
	}
	j.li.bools[key] = cand
	var bs []*T
	for b := range cand {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, k int) bool { return bs[i].id < bs[k].id })
	for _, b := range bs {
		if v, ok := j.st.F.Decide(b); ok && v == cand[b] {
			continue
		}
		j.desc[fmt.Sprintf("b:%d", b.id)] = fmt.Sprint(cand[b])
		j.st.F.Assume(b, cand[b])
	}
}

// propose looks for closed forms of sequences built by the loop.
func (j *joiner) propose(prev *head) {
	if prev == nil {
		return
	}
	var paths []string
	for p, v := range j.leaves {
		if v.Sort == SSeq {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		pk := j.key + "|" + p
		if j.li.prop[pk] != nil || j.li.noProp[pk] {
			continue
		}
		h := prev.leaves[p]
		if h == nil || len(h.A) == 0 {
			continue
		}
		if t := j.closedForm(p, h); t != nil {
			j.li.prop[pk] = t
		}
	}
}

// leafVec recomputes the value of a sequence leaf on every arrival.
func (j *joiner) closedForm(path string, h *T) *T {
	// the tail symbol
	ti := -1
	for i, s := range h.A {
		if s.Op == "sub" && s.A[0].Op == "sym" && s.A[0].I == j.li.seq {
			if ti >= 0 {
				return nil
			}
			ti = i
		}
	}
	if ti < 0 {
		return nil
	}
	vec := j.seqVec(path)
	if vec == nil {
		return nil
	}
	if t := j.closedDown(h, ti, vec); t != nil {
		return t
	}
	var entry *T
	var elem, idx *T // element stored, index (nil for append)
	mid := false
	for i, v := range vec {
		if j.arr[i].st == nil {
			return nil
		}
		if j.isEntry(i) {
			if entry != nil && entry != v {
				return nil
			}
			entry = v
			continue
		}
		var e, x *T
		if ti == len(h.A)-1 && len(v.A) > len(h.A)-1 {
			e = appended(h, v)
		} else if len(v.A) == len(h.A)+1 {
			// the tail grows in front of a shrinking rest
			ok := true
			for k := 0; k <= ti; k++ {
				ok = ok && v.A[k] == h.A[k]
			}
			for k := ti + 1; k < len(h.A); k++ {
				ok = ok && v.A[k+1].Op == h.A[k].Op
			}
			if ok {
				e = elemOf(v.A[ti+1])
				mid = e != nil
			}
		}
		if e == nil {
			e, x = stored(h, v, ti)
		}
		if e == nil {
			return nil
		}
		if elem == nil {
			elem, idx = e, x
		} else if elem != e || idx != x {
			return nil
		}
	}
	if entry == nil || elem == nil {
		return nil
	}
	// the counter
	var cnt *intClass
	for _, c := range j.ints {
		if idx != nil && !Mentions(idx, c.phi) {
			continue
		}
		if idx == nil && MentionsAny(elem, func(t *T) bool { return t.Op == "sym" && t.I == j.li.seq }) && !Mentions(elem, c.phi) {
			continue
		}
		ok := true
		for i, v := range c.vec {
			if j.isEntry(i) {
				ok = ok && j.li.entryLevel(v)
			} else {
				ok = ok && Sub(v, c.phi) == Int(1)
			}
		}
		if ok {
			cnt = c
			break
		}
	}
	if cnt == nil {
		return nil
	}
	var c0 *T
	for i, v := range cnt.vec {
		if j.isEntry(i) {
			if c0 != nil && c0 != v {
				return nil
			}
			c0 = v
		}
	}
	k := Int(0)
	if idx == nil && c0.isInt() {
		k = Int(-c0.I)
	}
	if idx != nil {
		k = Sub(idx, cnt.phi)
		if !k.isInt() {
			return nil
		}
	}
	if MentionsAny(elem, func(t *T) bool { return t.Op == "comp" }) {
		return nil
	}
	body := Subst(elem, cnt.phi, Sub(Kappa, k))
	if !j.li.entryLevel(body) {
		return nil
	}
	comp := CompSeg(Add(c0, k), Add(cnt.phi, k), body)
	if mid {
		return NewSeq(append(append(append([]*T{}, h.A[:ti]...), comp), h.A[ti+1:]...))
	}
	if idx == nil {
		return NewSeq([]*T{entry, comp})
	}
	tmp := j.st.Clone()
	a := tmp.SubSeq(entry, Int(0), Add(c0, k))
	z := tmp.SubSeq(entry, Add(cnt.phi, k), SeqLen(entry))
	r := NewSeq([]*T{a, comp, z})
	if MentionsAny(r, func(t *T) bool { return t.Op == "app" && t.S == "opaqueseq" }) {
		return nil
	}
	return r
}

// closedDown is the closed form of a sequence filled from its end: every
// iteration puts one more element in front of the tail h[ti].
func (j *joiner) closedDown(h *T, ti int, vec []*T) *T {
	if ti != len(h.A)-1 {
		return nil
	}
	var elem *T
	for i, v := range vec {
		if j.isEntry(i) {
			continue
		}
		if len(v.A) < 2 || v.A[len(v.A)-1] != h.A[ti] {
			return nil
		}
		e := elemOf(v.A[len(v.A)-2])
		if e == nil || elem != nil && e != elem || SeqLen(v) != SeqLen(h) {
			return nil
		}
		elem = e
	}
	if elem == nil {
		return nil
	}
	pos := AddK(SeqLen(rawSeq(h.A[:ti])), -1) // of the element
	for _, c := range j.ints {
		ok := true
		var c0 *T
		for i, v := range c.vec {
			if j.isEntry(i) {
				ok = ok && j.li.entryLevel(v) && (c0 == nil || c0 == v)
				c0 = v
			} else {
				ok = ok && Sub(v, c.phi) == Int(-1)
			}
		}
		if !ok || c0 == nil {
			continue
		}
		s := Sub(pos, c.phi)
		body := Subst(elem, c.phi, Sub(Kappa, s))
		if !j.li.entryLevel(s) || !j.li.entryLevel(body) || MentionsAny(elem, func(t *T) bool { return t.Op == "comp" }) {
			continue
		}
		return NewSeq(append(append([]*T{}, h.A[:ti]...), CompSeg(AddK(Add(c.phi, s), 1), AddK(Add(c0, s), 1), body)))
	}
	return nil
}

func (j *joiner) isEntry(i int) bool {
	return j.from[i] != j.key
}

// seqVec finds the value of the leaf on every arrival.
func (j *joiner) seqVec(path string) []*T {
	return j.seqVecs[path]
}

// appended returns e when v = h ++ <e>.
func appended(h, v *T) *T {
	for i := range h.A {
		if i >= len(v.A) || v.A[i] != h.A[i] {
			return nil
		}
	}
	if len(v.A) != len(h.A)+1 {
		return nil
	}
	return elemOf(v.A[len(h.A)])
}

func elemOf(s *T) *T {
	if s.Op == "elem" {
		return s.A[0]
	}
	if s.Op == "sub" && Sub(s.A[2], s.A[1]) == Int(1) {
		var et types.Type
		if s.A[0].Typ != nil {
			et = s.A[0].Typ
		}
		return At(s.A[0], s.A[1], et)
	}
	return nil
}

// stored returns the element and index when v is h with one element of the
// tail replaced.
func stored(h, v *T, ti int) (e, idx *T) {
	s := h.A[ti]
	if len(v.A) < len(h.A) {
		return nil, nil
	}
	for i := 0; i < ti; i++ {
		if v.A[i] != h.A[i] {
			return nil, nil
		}
	}
	after := h.A[ti+1:]
	rest := v.A[ti:]
	if len(rest) < len(after) {
		return nil, nil
	}
	for i := range after {
		if rest[len(rest)-len(after)+i] != after[i] {
			return nil, nil
		}
	}
	rest = rest[:len(rest)-len(after)]
	pos := s.A[1]
	off := SeqLen(rawSeq(h.A[:ti]))
	for _, r := range rest {
		if r.Op == "sub" && r.A[0] == s.A[0] {
			if e == nil {
				if r.A[1] != pos {
					return nil, nil
				}
				pos = r.A[2]
			} else {
				if r.A[1] != AddK(pos, 1) || r.A[2] != s.A[2] {
					return nil, nil
				}
			}
			continue
		}
		if e != nil {
			return nil, nil
		}
		e = elemOf(r)
		if e == nil {
			return nil, nil
		}
	}
	return e, Add(off, Sub(pos, s.A[1]))
}
