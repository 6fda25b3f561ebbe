package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/analyzer/ai"
)

// This file decides grammars without recursion exactly. A grammar term
// (a parsing expression with ordered choice and greedy repetition) and a
// documented syntax (a regular expression whose longest match counts) are
// compared on all source texts: both are turned into automata that read the
// text from its end to its start, and the product is explored.

// peg is a parsing expression.
type peg struct {
	op       string // eps fail char seq alt rep not and ins erase
	set      ai.IntSet
	kids     []*peg
	min, max int64
	out      string
	trans    *transInfo // for op "trans": not yet classified
}

type transInfo struct {
	list []*ai.T // the transformers
}

func pEps() *peg             { return &peg{op: "eps"} }
func pFail() *peg            { return &peg{op: "fail"} }
func pChar(s ai.IntSet) *peg { return &peg{op: "char", set: s} }
func pSeq(k ...*peg) *peg    { return &peg{op: "seq", kids: k} }
func pAlt(k ...*peg) *peg    { return &peg{op: "alt", kids: k} }
func pNot(k *peg) *peg       { return &peg{op: "not", kids: []*peg{k}} }
func pAnd(k *peg) *peg       { return &peg{op: "not", kids: []*peg{pNot(k)}} }
func pIns(s string) *peg     { return &peg{op: "ins", out: s} }
func pErase(k *peg) *peg     { return &peg{op: "erase", kids: []*peg{k}} }

// pLeaf is a part that yields one token.
func pLeaf(k ...*peg) *peg         { return &peg{op: "leaf", kids: k} }
func pAny() *peg                   { return pChar(ai.Range(0, 0x10ffff)) }
func pRep(a, b int64, k *peg) *peg { return &peg{op: "rep", min: a, max: b, kids: []*peg{k}} }
func pText(s string, fold bool) *peg {
	r := pSeq()
	for _, c := range s {
		x := ai.Single(int64(c))
		if fold {
			x = foldSet(c)
		}
		r.kids = append(r.kids, pChar(x))
	}
	return r
}

func foldSet(c rune) ai.IntSet {
	s := ai.SetEmpty
	for r := rune(0); r <= 0x10ffff; r++ {
		if r == c || strings.EqualFold(string(r), string(c)) {
			s = s.Union(ai.Single(int64(r)))
		}
	}
	return s
}

// rx is a regular expression with output.
type rx struct {
	op    string // char seq alt star ins
	set   ai.IntSet
	erase bool
	kids  []*rx
	out   string
}

func xSet(ps ...int64) *rx { return &rx{op: "char", set: rng(ps...)} }
func xOf(s ai.IntSet) *rx  { return &rx{op: "char", set: s} }
func xCh(s string) *rx {
	r := xSeq()
	for _, c := range s {
		r.kids = append(r.kids, xSet(int64(c), int64(c)))
	}
	return r
}
func xDrop(c rune) *rx  { return &rx{op: "char", set: rng(int64(c), int64(c)), erase: true} }
func xSeq(k ...*rx) *rx { return &rx{op: "seq", kids: k} }
func xAlt(k ...*rx) *rx { return &rx{op: "alt", kids: k} }
func xOpt(k *rx) *rx    { return xAlt(k, xSeq()) }
func xStar(k *rx) *rx   { return &rx{op: "star", kids: []*rx{k}} }
func xIns(s string) *rx { return &rx{op: "ins", out: s} }
func xPlus(k *rx) *rx   { return xSeq(k, xStar(k)) }
func xRep(n int, k *rx) *rx {
	r := xSeq()
	for i := 0; i < n; i++ {
		r.kids = append(r.kids, k)
	}
	return r
}

// letter is one symbol of an annotated text.
type letter struct {
	class int  // character class, -1 for an insertion
	erase bool // the character is not part of the value
	out   byte // the inserted byte
}

// pnode is a position in a grammar together with what follows.
type pnode struct {
	op      string // true accept char ins cond fail
	set     ai.IntSet
	classes []bool
	erase   bool
	out     byte
	k       int
	test    int
	yes, no int
	plain   bool
}

type pegAut struct {
	nodes  []pnode
	flags  bool
	memo   map[string]int
	plains map[*peg]int
	err    string
}

func (a *pegAut) add(n pnode) int {
	a.nodes = append(a.nodes, n)
	if len(a.nodes) > 20000 {
		a.err = "the grammar is too large"
		return 0
	}
	return len(a.nodes) - 1
}

// succ is the node that holds where e matches, whatever follows.
func (a *pegAut) succ(e *peg) int {
	if n, ok := a.plains[e]; ok {
		return n
	}
	n := a.compile(e, 0, true, false)
	a.plains[e] = n
	return n
}

// compile builds the node for e followed by k. Node 0 is "true".
func (a *pegAut) compile(e *peg, k int, plain, erase bool) int {
	if a.err != "" {
		return 0
	}
	switch e.op {
	case "eps":
		return k
	case "fail":
		return a.add(pnode{op: "fail", plain: plain})
	case "char":
		return a.add(pnode{op: "char", set: e.set, erase: erase, k: k, plain: plain})
	case "seq", "leaf":
		for i := len(e.kids) - 1; i >= 0; i-- {
			k = a.compile(e.kids[i], k, plain, erase)
		}
		return k
	case "alt":
		n := a.add(pnode{op: "fail", plain: plain})
		for i := len(e.kids) - 1; i >= 0; i-- {
			n = a.add(pnode{op: "cond", test: a.succ(e.kids[i]), yes: a.compile(e.kids[i], k, plain, erase), no: n, plain: plain})
		}
		return n
	case "rep":
		if e.min > 64 || e.max > 64 {
			a.err = "a repetition with large bounds"
			return 0
		}
		test := a.succ(e.kids[0])
		if e.max < 0 {
			loop := a.add(pnode{op: "cond", test: test, no: k, plain: plain})
			a.nodes[loop].yes = a.compile(e.kids[0], loop, plain, erase)
			k = loop
		} else {
			end := k
			for i := e.max; i > e.min; i-- {
				k = a.add(pnode{op: "cond", test: test, yes: a.compile(e.kids[0], k, plain, erase), no: end, plain: plain})
			}
		}
		for i := int64(0); i < e.min; i++ {
			k = a.compile(e.kids[0], k, plain, erase)
		}
		return k
	case "not":
		f := a.add(pnode{op: "fail", plain: plain})
		return a.add(pnode{op: "cond", test: a.succ(e.kids[0]), yes: f, no: k, plain: plain})
	case "ins":
		if plain || erase || !a.flags {
			return k
		}
		for i := len(e.out) - 1; i >= 0; i-- {
			k = a.add(pnode{op: "ins", out: e.out[i], k: k})
		}
		return k
	case "erase":
		return a.compile(e.kids[0], k, plain, true)
	}
	a.err = "a parser of kind " + e.op
	return 0
}

// nfa of a documented syntax.
type edge struct {
	set     ai.IntSet
	classes []bool
	erase   bool
	ins     bool
	out     byte
	to      int
}

type nfa struct {
	eps   [][]int
	edges [][]edge
	start int
	acc   int
}

func (n *nfa) node() int {
	n.eps = append(n.eps, nil)
	n.edges = append(n.edges, nil)
	return len(n.eps) - 1
}

func (n *nfa) build(r *rx, from int, flags bool) int {
	switch r.op {
	case "char":
		to := n.node()
		n.edges[from] = append(n.edges[from], edge{set: r.set, erase: r.erase, to: to})
		return to
	case "ins":
		if !flags {
			return from
		}
		for i := 0; i < len(r.out); i++ {
			to := n.node()
			n.edges[from] = append(n.edges[from], edge{ins: true, out: r.out[i], to: to})
			from = to
		}
		return from
	case "seq":
		for _, k := range r.kids {
			from = n.build(k, from, flags)
		}
		return from
	case "alt":
		to := n.node()
		for _, k := range r.kids {
			s := n.node()
			n.eps[from] = append(n.eps[from], s)
			e := n.build(k, s, flags)
			n.eps[e] = append(n.eps[e], to)
		}
		return to
	case "star":
		l := n.node()
		n.eps[from] = append(n.eps[from], l)
		s := n.node()
		n.eps[l] = append(n.eps[l], s)
		e := n.build(r.kids[0], s, flags)
		n.eps[e] = append(n.eps[e], l)
		to := n.node()
		n.eps[l] = append(n.eps[l], to)
		return to
	}
	panic("regular expression " + r.op)
}

// classesOf partitions the characters by membership in the given sets.
func classesOf(sets []ai.IntSet) []ai.IntSet {
	cls := []ai.IntSet{ai.Range(0, 0x10ffff)}
	for _, s := range sets {
		var next []ai.IntSet
		for _, c := range cls {
			if x := c.Intersect(s); !x.Empty() {
				next = append(next, x)
			}
			if x := c.Minus(s); !x.Empty() {
				next = append(next, x)
			}
		}
		cls = next
	}
	return cls
}

func sample(s ai.IntSet) rune {
	for _, r := range "0157aFz_-+.:TZe \n" {
		if s.Has(int64(r)) {
			return r
		}
	}
	for r := int64(0x21); r < 0x7f; r++ {
		if s.Has(r) {
			return rune(r)
		}
	}
	for r := int64(0xa1); r < 0x3000; r++ {
		if s.Has(r) {
			return rune(r)
		}
	}
	return rune(s.Min())
}

// diff is a text on which a grammar and its documented syntax differ.
type diff struct {
	text, value string // the text up to the end of the match, and the value
	rest        string
	parser      bool // the parser accepts it (else only the documentation)
	values      bool // the lengths agree and the values differ
	loop        bool // the parser never ends
}

type cmpStats struct {
	classes, states, transitions, nodes int
}

// compare decides whether the grammar matches exactly the longest prefix of
// the documented syntax, with its value.
func compare(g *peg, doc *rx) (*diff, cmpStats, string) {
	var total cmpStats
	for _, flags := range []bool{false, true} {
		d, s, err := compare1(g, doc, flags)
		total.classes = s.classes
		total.states += s.states
		total.transitions += s.transitions
		total.nodes += s.nodes
		if d != nil || err != "" {
			if d != nil {
				d.values = flags
			}
			return d, total, err
		}
	}
	return nil, total, ""
}

type explored struct {
	from   int
	l      letter
	marker bool
}

func compare1(g *peg, doc *rx, flags bool) (*diff, cmpStats, string) {
	a := &pegAut{flags: flags, plains: map[*peg]int{}}
	a.add(pnode{op: "true", plain: true})
	acc := a.add(pnode{op: "accept"})
	root := a.compile(g, acc, false, false)
	st := cmpStats{nodes: len(a.nodes)}
	if a.err != "" {
		return nil, st, a.err
	}
	n := &nfa{}
	n.start = n.node()
	n.acc = n.build(doc, n.start, flags)

	var sets []ai.IntSet
	for _, x := range a.nodes {
		if x.op == "char" {
			sets = append(sets, x.set)
		}
	}
	outs := map[byte]bool{}
	for _, x := range a.nodes {
		if x.op == "ins" {
			outs[x.out] = true
		}
	}
	for _, es := range n.edges {
		for _, e := range es {
			if e.ins {
				outs[e.out] = true
			} else {
				sets = append(sets, e.set)
			}
		}
	}
	cls := classesOf(sets)
	st.classes = len(cls)
	member := func(s ai.IntSet) []bool {
		r := make([]bool, len(cls))
		for i, c := range cls {
			r[i] = !c.Intersect(s).Empty()
		}
		return r
	}
	for i := range a.nodes {
		if a.nodes[i].op == "char" {
			a.nodes[i].classes = member(a.nodes[i].set)
		}
	}
	for _, es := range n.edges {
		for i := range es {
			if !es[i].ins {
				es[i].classes = member(es[i].set)
			}
		}
	}
	var letters []letter
	for c := range cls {
		letters = append(letters, letter{class: c})
		if flags {
			letters = append(letters, letter{class: c, erase: true})
		}
	}
	var ob []int
	for b := range outs {
		ob = append(ob, int(b))
	}
	sort.Ints(ob)
	for _, b := range ob {
		letters = append(letters, letter{class: -1, out: byte(b)})
	}

	// reverse order of the ε-closure: propagate until stable
	closure := func(v []bool) {
		for again := true; again; {
			again = false
			for q := len(n.eps) - 1; q >= 0; q-- {
				if v[q] {
					continue
				}
				for _, t := range n.eps[q] {
					if v[t] {
						v[q] = true
						again = true
						break
					}
				}
			}
		}
	}
	const (
		no = iota
		yes
		loop
	)
	// state: values of the nodes | spec before the marker: any, later; after: exact, later
	np, ns := len(a.nodes), len(n.eps)
	type vec struct {
		node []byte
		x, y []bool // right of the marker: any, beyond; left of it: exact, beyond
		left bool
	}
	key := func(v vec) string {
		b := make([]byte, 0, np+2*ns+1)
		for i, x := range v.node {
			if !v.left && !a.nodes[i].plain {
				x = no
			}
			b = append(b, '0'+x)
		}
		for _, s := range [][]bool{v.x, v.y} {
			for _, x := range s {
				if x {
					b = append(b, '1')
				} else {
					b = append(b, '0')
				}
			}
		}
		if v.left {
			b = append(b, 'L')
		}
		return string(b)
	}
	// eval computes the nodes at a position from those behind the letter
	var eval func(cur []byte, done []byte, i int, next []byte, l *letter, mark bool) byte
	eval = func(cur, done []byte, i int, next []byte, l *letter, mark bool) byte {
		if done[i] == 2 {
			return cur[i]
		}
		if done[i] == 1 {
			return loop
		}
		done[i] = 1
		var r byte = no
		x := &a.nodes[i]
		switch x.op {
		case "true":
			r = yes
		case "accept":
			if mark {
				r = yes
			}
		case "char":
			if l != nil && l.class >= 0 && x.classes[l.class] && (x.plain || !flags || x.erase == l.erase) {
				r = next[x.k]
			}
		case "ins":
			if l != nil && l.class < 0 && l.out == x.out {
				r = next[x.k]
			}
		case "cond":
			switch eval(cur, done, x.test, next, l, mark) {
			case yes:
				r = eval(cur, done, x.yes, next, l, mark)
			case no:
				r = eval(cur, done, x.no, next, l, mark)
			default:
				r = loop
			}
		}
		cur[i], done[i] = r, 2
		return r
	}
	step := func(v vec, l letter) vec {
		w := vec{node: make([]byte, np), x: make([]bool, ns), y: make([]bool, ns), left: v.left}
		done := make([]byte, np)
		for i := range a.nodes {
			if !v.left && !a.nodes[i].plain {
				continue
			}
			if l.class < 0 && a.nodes[i].plain {
				// an insertion is no part of the text
				w.node[i] = v.node[i]
				done[i] = 2
			}
		}
		for i := range a.nodes {
			if !v.left && !a.nodes[i].plain {
				continue
			}
			w.node[i] = eval(w.node, done, i, v.node, &l, false)
		}
		for q := range n.edges {
			for _, e := range n.edges[q] {
				if e.ins {
					// plain: skipped
					if !v.left || l.class >= 0 {
						continue
					}
					if e.out == l.out && v.x[e.to] {
						w.x[q] = true
					}
					continue
				}
				if l.class < 0 || !e.classes[l.class] {
					continue
				}
				if v.left {
					if (!flags || e.erase == l.erase) && v.x[e.to] {
						w.x[q] = true
					}
					if v.y[e.to] {
						w.y[q] = true
					}
				} else if v.x[e.to] {
					w.x[q], w.y[q] = true, true
				}
			}
		}
		// insertions take no text for what lies beyond the marker
		if l.class < 0 {
			copy(w.y, v.y)
		}
		insSkip := func(s []bool) {
			for again := true; again; {
				closure(s)
				again = false
				for q := range n.edges {
					for _, e := range n.edges[q] {
						if e.ins && s[e.to] && !s[q] {
							s[q] = true
							again = true
						}
					}
				}
			}
		}
		if !v.left {
			w.x[n.acc] = true
			insSkip(w.x)
			insSkip(w.y)
		} else {
			closure(w.x)
			insSkip(w.y)
		}
		return w
	}
	place := func(v vec) vec {
		w := vec{node: make([]byte, np), x: make([]bool, ns), y: append([]bool(nil), v.y...), left: true}
		done := make([]byte, np)
		for i := range a.nodes {
			if a.nodes[i].plain {
				w.node[i], done[i] = v.node[i], 2
			}
		}
		// the text behind the marker cannot be part of the match
		for i := range a.nodes {
			w.node[i] = eval(w.node, done, i, nil, nil, true)
		}
		w.x[n.acc] = true
		closure(w.x)
		return w
	}
	// at the end of the source
	end := vec{node: make([]byte, np), x: make([]bool, ns), y: make([]bool, ns)}
	{
		done := make([]byte, np)
		for i := range a.nodes {
			if a.nodes[i].plain {
				end.node[i] = eval(end.node, done, i, nil, nil, false)
			}
		}
		end.x[n.acc] = true
		for again := true; again; {
			closure(end.x)
			again = false
			for q := range n.edges {
				for _, e := range n.edges[q] {
					if e.ins && end.x[e.to] && !end.x[q] {
						end.x[q], again = true, true
					}
				}
			}
		}
	}
	vecs := []vec{end}
	back := []explored{{from: -1}}
	seen := map[string]int{key(end): 0}
	push := func(w vec, e explored) {
		k := key(w)
		if _, ok := seen[k]; !ok {
			seen[k] = len(vecs)
			vecs = append(vecs, w)
			back = append(back, e)
		}
	}
	report := func(i int) *diff {
		d := &diff{}
		behind := false
		for j := i; j > 0; j = back[j].from {
			e := back[j]
			if e.marker {
				behind = true
				continue
			}
			if e.l.class < 0 {
				d.value += string(rune(e.l.out))
				continue
			}
			c := string(sample(cls[e.l.class]))
			if behind {
				d.rest += c
			} else {
				d.text += c
				if !e.l.erase {
					d.value += c
				}
			}
		}
		return d
	}
	for i := 0; i < len(vecs); i++ {
		v := vecs[i]
		if len(vecs) > 400000 {
			return nil, st, "too many states"
		}
		if !v.left {
			push(place(v), explored{i, letter{}, true})
		} else {
			got := v.node[root]
			want := v.x[n.start] && !v.y[n.start]
			st.states = len(vecs)
			if got == loop {
				d := report(i)
				d.loop = true
				return d, st, ""
			}
			if got == yes && !want || !flags && got == no && want {
				d := report(i)
				d.parser = got == yes
				return d, st, ""
			}
		}
		for _, l := range letters {
			if !v.left && (l.class < 0 || l.erase) {
				continue
			}
			st.transitions++
			push(step(v, l), explored{i, l, false})
		}
	}
	st.states = len(vecs)
	return nil, st, ""
}

func (d *diff) String() string {
	src := fmt.Sprintf("%q", d.text+d.rest)
	switch {
	case d.loop:
		return fmt.Sprintf("on the text %s the parser repeats a part that matches without consuming anything", src)
	case d.values:
		return fmt.Sprintf("on the text %s the parser matches %q and yields %q, which is not the documented value", src, d.text, d.value)
	case d.parser:
		return fmt.Sprintf("on the text %s the parser matches %q, which is not the longest prefix of the documented syntax", src, d.text)
	}
	return fmt.Sprintf("on the text %s the parser does not match %q, the longest prefix of the documented syntax", src, d.text)
}
