package ai

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The loops of the module have to come to an end.  For the abstract states of
// a loop this is shown by ranking functions: numbers that only grow (or only
// shrink) from one iteration to the next and cannot pass a bound that was
// known before the loop began.  Iterations that hand a result of one of the
// caller's functions to the next iteration depend on what the caller does and
// are not counted.

const endless = "loop without end"

// backEdge is a path from the head of a loop back to it.
type backEdge struct {
	from, to string
	head     arrival // the state at the head
	y        arrival // the state at the end of the iteration
	free     bool    // depends on the caller's functions
}

// deciding are the values at the head of a loop that what happens in the loop
// depends on.
func deciding(hd *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) map[*ssa.Phi]bool {
	r := map[*ssa.Phi]bool{}
	for _, p := range headPhis(hd) {
		seen := map[ssa.Value]bool{}
		var reach func(v ssa.Value) bool
		reach = func(v ssa.Value) bool {
			if seen[v] || v.Referrers() == nil {
				return false
			}
			seen[v] = true
			for _, in := range *v.Referrers() {
				if !body[in.Block()] {
					continue
				}
				switch x := in.(type) {
				case *ssa.DebugRef:
				case *ssa.Phi:
					if x.Block() == hd && x != p {
						// it decides what another value at the head becomes
						if reach(x) {
							return true
						}
						continue
					}
					if reach(x) {
						return true
					}
				case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.Extract, *ssa.Field:
					if u, ok := x.(*ssa.UnOp); ok && u.Op.String() == "*" {
						return true
					}
					if b, ok := x.(*ssa.BinOp); ok && (b.Op.String() == "/" || b.Op.String() == "%") {
						return true
					}
					if reach(x.(ssa.Value)) {
						return true
					}
				default:
					return true
				}
			}
			return false
		}
		r[p] = reach(p)
	}
	return r
}

func hasNext(hd *ssa.BasicBlock) bool {
	for _, in := range hd.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

// dependsOnCaller reports that a value handed to the next iteration comes
// from a call of one of the caller's functions in this one.
func dependsOnCaller(hd *ssa.BasicBlock, dec map[*ssa.Phi]bool, h, y arrival, seq int64) bool {
	if h.st.Calls == y.st.Calls {
		return false
	}
	fresh := func(t *T) bool {
		return MentionsAny(t, func(x *T) bool {
			switch x.Op {
			case "sym":
				return x.I > seq
			case "app":
				return x.S == "call" || strings.HasPrefix(x.S, "call#") || strings.HasPrefix(x.S, "inv:")
			}
			return false
		})
	}
	for _, p := range headPhis(hd) {
		v := y.fr.env[p]
		if !dec[p] || v == h.fr.env[p] {
			continue
		}
		if fresh(v) || (v.Op == "slice" || v.Op == "ptr") && h.st.heap[int(v.I)] == nil {
			return true
		}
	}
	for id, o := range y.st.heap {
		if b := h.st.heap[id]; b != nil && b != o && o.Kind == 'c' && fresh(o.Val) {
			return true
		}
	}
	return false
}

// measures are the numbers that may rank the states of a loop.
func (e *Eng) measures(li *loopInst, hd *ssa.BasicBlock, a arrival) map[string]*T {
	r := map[string]*T{}
	var walk func(p string, v *T, d int)
	walk = func(p string, v *T, d int) {
		if v == nil || d > 3 {
			return
		}
		switch v.Sort {
		case SInt:
			r[p] = v
		case SStr:
			r["len "+p] = StrLen(v)
		case SSlice:
			switch v.Op {
			case "slice":
				r["len "+p] = v.A[1]
			case "nil":
				r["len "+p] = Int(0)
			}
		}
		if v.Op == "struct" {
			for i, f := range v.A {
				walk(p+"."+string(rune('a'+i%26)), f, d+1)
			}
		}
	}
	for _, p := range headPhis(hd) {
		walk("r:"+p.Name(), a.fr.env[p], 0)
	}
	for id := range li.entry.st.heap {
		if o := a.st.heap[id]; o != nil && o.Kind == 'c' {
			walk("o:"+itoa(id), o.Val, 0)
		}
	}
	for g, v := range a.st.ghost {
		if v != nil && v.Sort == SInt {
			r["g:"+g] = v
		}
	}
	return r
}

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	s := ""
	for {
		s = string(rune('0'+i%10)) + s
		if i /= 10; i == 0 {
			return s
		}
	}
}

// limited reports that t has an upper (or lower) bound made of what was known
// before the loop.
func (f *Facts) limited(t *T, upper bool, entry func(*T) bool) bool {
	const far = 1 << 40
	rows := f.rowsFor(t)
	memo := map[*T]int{} // in progress
	var atom func(a *T, up bool, d int) bool
	atom = func(a *T, up bool, d int) bool {
		if entry(a) {
			return true
		}
		if d > 4 || memo[a] > 0 {
			return false
		}
		memo[a]++
		defer func() { memo[a]-- }()
		for _, r := range rows {
			c := r.co[a]
			if c == 0 || (c > 0) != up || r.k < -far || r.k > far {
				continue
			}
			ok := true
			for x, k := range r.co {
				// c·a <= -k0 - Σ k·x
				if x != a && k != 0 && !atom(x, k < 0, d+1) {
					ok = false
					break
				}
			}
			if ok {
				return true
			}
		}
		return false
	}
	at, co, _ := linOf(t)
	for i, a := range at {
		if !atom(a, upper == (co[i] > 0), 0) {
			return false
		}
	}
	return true
}

// ends shows that a loop comes to an end.  It returns a path back to the head
// for which this cannot be shown.
func (e *Eng) ends(li *loopInst, hd *ssa.BasicBlock, edges []backEdge) *backEdge {
	if hasNext(hd) {
		return nil
	}
	type node struct{ old, new map[string]*T }
	vals := make([]node, len(edges))
	var live []int
	for i, x := range edges {
		if x.free {
			continue
		}
		vals[i] = node{e.measures(li, hd, x.head), e.measures(li, hd, x.y)}
		live = append(live, i)
	}
	return e.rank(li, edges, live, func(i int) (map[string]*T, map[string]*T) { return vals[i].old, vals[i].new })
}

func (e *Eng) rank(li *loopInst, edges []backEdge, live []int, vals func(int) (map[string]*T, map[string]*T)) *backEdge {
	for _, scc := range components(edges, live) {
		if len(scc) == 0 {
			continue
		}
		names := map[string]bool{}
		for n, i := range scc {
			old, new := vals(i)
			for p := range old {
				if new[p] != nil && n == 0 {
					names[p] = true
				}
			}
			for p := range names {
				if old[p] == nil || new[p] == nil {
					delete(names, p)
				}
			}
		}
		var ps []string
		for p := range names {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		done := false
		for _, p := range ps {
			for _, up := range []bool{true, false} {
				var rest []int
				ok := true
				for _, i := range scc {
					old, new := vals(i)
					f := edges[i].y.st.F
					d := Sub(new[p], old[p])
					if !up {
						d = Sub(old[p], new[p])
					}
					if k, known := f.Decide(Le(Int(0), d)); !known || !k {
						ok = false
						break
					}
					if k, known := f.Decide(Le(Int(1), d)); known && k && f.limited(old[p], up, li.entryLevel) {
						continue
					}
					rest = append(rest, i)
				}
				if !ok || len(rest) == len(scc) {
					continue
				}
				if len(rest) > 0 {
					if bad := e.rank(li, edges, rest, vals); bad != nil {
						return bad
					}
				}
				done = true
				break
			}
			if done {
				break
			}
		}
		if !done {
			return &edges[scc[0]]
		}
	}
	return nil
}

// components are the edges of each strongly connected part of the graph.
func components(edges []backEdge, live []int) [][]int {
	succ := map[string]map[string]bool{}
	for _, i := range live {
		x := edges[i]
		if succ[x.from] == nil {
			succ[x.from] = map[string]bool{}
		}
		succ[x.from][x.to] = true
	}
	reach := func(a, b string) bool {
		seen := map[string]bool{}
		work := []string{a}
		for len(work) > 0 {
			n := work[len(work)-1]
			work = work[:len(work)-1]
			for m := range succ[n] {
				if m == b {
					return true
				}
				if !seen[m] {
					seen[m] = true
					work = append(work, m)
				}
			}
		}
		return false
	}
	var r [][]int
	placed := map[int]bool{}
	for _, i := range live {
		if placed[i] {
			continue
		}
		x := edges[i]
		if x.from != x.to && !reach(x.to, x.from) {
			placed[i] = true
			continue
		}
		var c []int
		for _, j := range live {
			y := edges[j]
			if !placed[j] && (y.from == x.from || reach(x.from, y.from)) && (y.to == x.from || reach(y.to, x.from)) {
				placed[j] = true
				c = append(c, j)
			}
		}
		r = append(r, c)
	}
	return r
}

// hist are the states at the head of a loop on the way to one of them.
type hist struct {
	a    arrival
	prev *hist
}

// repeats reports that the head of a loop is reached in a state it was in
// before, so that everything can happen again for ever.
func repeats(hd *ssa.BasicBlock, dec map[*ssa.Phi]bool, h *hist, y arrival) bool {
	if hasNext(hd) {
		return false
	}
	for n := 0; h != nil && n < 4; h, n = h.prev, n+1 {
		same := true
		for _, p := range headPhis(hd) {
			if dec[p] && !y.st.F.Same(h.a.fr.env[p], y.fr.env[p]) {
				same = false
				break
			}
		}
		for id, o := range h.a.st.heap {
			if !same {
				break
			}
			if b := y.st.heap[id]; b != o {
				same = b != nil && b.Kind == o.Kind && sameObj(y.st.F, o, b)
			}
		}
		if same {
			return true
		}
	}
	return false
}

func sameObj(f *Facts, a, b *Obj) bool {
	switch a.Kind {
	case 'c':
		return a.Val != nil && b.Val != nil && f.Same(a.Val, b.Val)
	case 'a':
		return a.Seq != nil && b.Seq != nil && f.Same(a.Seq, b.Seq)
	}
	return false
}

// recurs reports that an iteration that started in h and ended in y can be
// repeated for ever although numbers change: from the state y with any
// greater (or smaller) numbers in their place an iteration leads back to such
// a state, and nothing on its way depends on the numbers.
func (e *Eng) recurs(hd *ssa.BasicBlock, dec map[*ssa.Phi]bool, h, y arrival, run func(arrival) []arrival) bool {
	if hasNext(hd) {
		return false
	}
	fr, st := y.fr.clone(), y.st.Clone()
	limit := map[*T]*T{} // a bound that what takes the place of a number keeps to
	up := map[*T]bool{}
	ok := true
	var gen func(a, b *T) *T
	gen = func(a, b *T) *T {
		if a == nil || b == nil {
			ok = ok && a == b
			return b
		}
		if st.F.Same(a, b) {
			return b
		}
		if a.Sort == SInt && b.Sort == SInt {
			k := Fresh("any", SInt, b.Typ)
			if v, known := st.F.Decide(Lt(a, b)); known && v {
				up[k] = true
				st.F.Assume(Le(b, k), true)
			} else if v, known := st.F.Decide(Lt(b, a)); known && v {
				st.F.Assume(Le(k, b), true)
			} else {
				ok = false
			}
			limit[k] = b
			return k
		}
		if a.Op == "struct" && b.Op == "struct" && len(a.A) == len(b.A) {
			f := make([]*T, len(a.A))
			for i := range f {
				f[i] = gen(a.A[i], b.A[i])
			}
			return Struct(b.Typ, f)
		}
		ok = false
		return b
	}
	for _, p := range headPhis(hd) {
		if v := gen(h.fr.env[p], y.fr.env[p]); dec[p] {
			fr.env[p] = v
		} else {
			ok = true
		}
		if !ok {
			return false
		}
	}
	ids := sortedInts(h.st.heap)
	for _, id := range ids {
		o, b := h.st.heap[id], y.st.heap[id]
		if o == b || b != nil && o.Kind == b.Kind && sameObj(st.F, o, b) {
			continue
		}
		if b == nil || o.Kind != 'c' || b.Kind != 'c' || o.Val == nil || b.Val == nil {
			return false
		}
		c := *b
		c.Val = gen(o.Val, b.Val)
		if !ok {
			return false
		}
		st.heap[id] = &c
	}
	if len(limit) == 0 {
		return false
	}
	var fits func(f *Facts, g, z *T) bool
	fits = func(f *Facts, g, z *T) bool {
		if b := limit[g]; b != nil {
			q := Le(b, z)
			if !up[g] {
				q = Le(z, b)
			}
			v, known := f.Decide(q)
			return known && v
		}
		if f.Same(g, z) {
			return true
		}
		if g.Op == "struct" && z.Op == "struct" && len(g.A) == len(z.A) {
			for i := range g.A {
				if !fits(f, g.A[i], z.A[i]) {
					return false
				}
			}
			return true
		}
		return false
	}
	free := func(f *Facts) bool { // no constraint on the numbers was added
		about := func(t *T) bool { return MentionsAny(t, func(x *T) bool { return limit[x] != nil }) }
		for t, s := range f.lin {
			if about(t) {
				if b, ok := st.F.lin[t]; !ok || !b.Equal(s) {
					return false
				}
			}
		}
		for t := range f.boo {
			if about(t) {
				return false
			}
		}
		for _, p := range f.eqs {
			if about(p[0]) || about(p[1]) {
				return false
			}
		}
		return true
	}
	f0 := len(e.Findings)
	backs := run(arrival{fr, st})
	e.Findings = e.Findings[:f0]
	for _, z := range backs {
		good := free(z.st.F)
		for _, p := range headPhis(hd) {
			good = good && (!dec[p] || fits(z.st.F, fr.env[p], z.fr.env[p]))
		}
		for _, id := range ids {
			if !good {
				break
			}
			a, b := st.heap[id], z.st.heap[id]
			if a != b {
				good = b != nil && a.Kind == b.Kind && (sameObj(z.st.F, a, b) || a.Kind == 'c' && b.Kind == 'c' && fits(z.st.F, a.Val, b.Val))
			}
		}
		if good {
			return true
		}
	}
	return false
}

// callRec is what a call of a function that may be recursive depends on.
type callRec struct {
	args, bind []*T
	heap       map[int]*Obj
}

func (a callRec) same(b callRec, f *Facts) bool {
	if a.heap == nil || len(a.args) != len(b.args) || len(a.bind) != len(b.bind) {
		return false
	}
	for i := range a.args {
		if !f.Same(a.args[i], b.args[i]) {
			return false
		}
	}
	for i := range a.bind {
		if !f.Same(a.bind[i], b.bind[i]) {
			return false
		}
	}
	for id, o := range a.heap {
		if b := b.heap[id]; b != o && (b == nil || b.Kind != o.Kind || !sameObj(f, o, b)) {
			return false
		}
	}
	return true
}
