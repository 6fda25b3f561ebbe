package ai

import (
	"fmt"
	"go/types"
)

// Obj is an abstract heap object.  Objects are immutable; the heap maps an
// identity to its current content.
type Obj struct {
	Kind  byte // 'c' cell, 'a' array, 'b' string builder, 'i' iterator, 'x' opaque
	Val   *T   // cell content, builder content (seq)
	Seq   *T   // array content
	Fam   int  // backing array family (arrays that may share storage)
	Prot  *T   // writes below this index are visible to other holders
	Label string
	Elem  types.Type
	Typ   types.Type
	Site  string
}

// Trace is the path of branch decisions that lead to a state.
type Trace struct {
	Prev *Trace
	Msg  string
}

// State is an abstract state.
type State struct {
	heap  map[int]*Obj
	F     *Facts
	ghost map[string]*T
	Tr    *Trace
	Calls int    // calls of functions the caller supplies
	Way   uint64 // a digest of the decisions taken since the head of a loop followed deeply
}

// turn adds a decision to the digest.
func (s *State) turn(x uint64) { s.Way = (s.Way ^ x) * 1099511628211 }

// NewState makes an empty state.
func NewState() *State {
	return &State{heap: map[int]*Obj{}, F: newFacts(), ghost: map[string]*T{"sync": Int(0), "synced": Bool(false), "blocked": Bool(false)}}
}

// Clone forks a state.
func (s *State) Clone() *State {
	n := &State{heap: make(map[int]*Obj, len(s.heap)+4), F: s.F.clone(), ghost: make(map[string]*T, len(s.ghost)), Tr: s.Tr, Way: s.Way, Calls: s.Calls}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

// G reads a ghost variable.
func (s *State) G(k string) *T { return s.ghost[k] }

// SetG writes a ghost variable.
func (s *State) SetG(k string, v *T) { s.ghost[k] = v }

// Note appends to the trace.
func (s *State) Note(f string, a ...interface{}) {
	s.Tr = &Trace{s.Tr, fmt.Sprintf(f, a...)}
	for i := 0; i < len(f); i++ {
		s.turn(uint64(f[i]))
	}
}

// Path renders the trace.
func (s *State) Path(max int) []string {
	var r []string
	for t := s.Tr; t != nil; t = t.Prev {
		r = append(r, t.Msg)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	if len(r) > max {
		r = append(append([]string{}, r[:max/2]...), append([]string{"..."}, r[len(r)-max/2:]...)...)
	}
	return r
}

var objSeq int
var famSeq int

// NewObj allocates.
func (s *State) NewObj(o *Obj) int {
	objSeq++
	s.heap[objSeq] = o
	return objSeq
}

// NewFam makes a new backing array family.
func NewFam() int { famSeq++; return famSeq }

// Obj returns the object of an identity.
func (s *State) Obj(id int) *Obj { return s.heap[id] }

// PtrTo makes a pointer to an object.
func PtrTo(id int, path ...*T) *T {
	return mk("ptr", "", int64(id), SPtr, nil, append([]*T(nil), path...), nil)
}

func fldStep(i int) *T { return mk("f", "", int64(i), SOther, nil, nil, nil) }
func idxStep(i *T) *T  { return mk("i", "", 0, SOther, nil, []*T{i}, nil) }

// SliceV makes a slice value.
func SliceV(obj int, off, ln, cp *T, typ types.Type) *T {
	return mk("slice", "", int64(obj), SSlice, typ, []*T{off, ln, cp}, nil)
}

// NewSlice allocates a backing array with the given content and returns a
// slice of all of it.
func (s *State) NewSlice(content *T, elem types.Type, label string, prot bool, typ types.Type) *T {
	n := SeqLen(content)
	p := Int(0)
	cp := n
	if prot {
		p = n
		cp = Fresh("cap", SInt, nil)
		s.F.Assume(Le(n, cp), true)
	}
	id := s.NewObj(&Obj{Kind: 'a', Seq: content, Fam: NewFam(), Prot: p, Label: label, Elem: elem})
	return SliceV(id, Int(0), n, cp, typ)
}

// SymSlice makes a slice with unknown content named name.
func (s *State) SymSlice(name string, elem types.Type, typ types.Type) *T {
	b := Sym(name, SSeq, elem)
	return s.NewSlice(SeqOf(b), elem, name, true, typ)
}

var lazyObj = map[*T]int{}

// lazyRev maps lazily materialised objects to the term they stand for.
var lazyRev = map[int]*T{}

// famAlias lists the families a merged family may share storage with.
var famAlias = map[int]map[int]bool{}

func famOverlap(a, b int) bool {
	return a == b || famAlias[a][b] || famAlias[b][a]
}

// Resolve turns an opaque slice term into a slice value.
func (s *State) ResolveSlice(v *T) *T {
	if v.Op == "slice" || v.Op == "nil" {
		return v
	}
	if r := s.F.find(v); r != v {
		return s.ResolveSlice(r)
	}
	var elem types.Type
	if v.Typ != nil {
		if st, ok := v.Typ.Underlying().(*types.Slice); ok {
			elem = st.Elem()
		}
	}
	id, ok := lazyObj[v]
	if !ok {
		objSeq++
		id = objSeq
		lazyObj[v] = id
		lazyRev[id] = v
	}
	b := App("seqof", SSeq, elem, v)
	ln := App("len", SInt, nil, b)
	if s.heap[id] == nil {
		s.heap[id] = &Obj{Kind: 'a', Seq: SeqOf(b), Fam: -id, Prot: ln, Label: "opaque " + v.String(), Elem: elem}
	}
	if SliceAxiom != nil {
		SliceAxiom(s, v, ln)
	}
	return SliceV(id, Int(0), ln, App("cap", SInt, nil, v), v.Typ)
}

// SliceAxiom may assume facts about the length of an unknown slice.
var SliceAxiom func(s *State, v, ln *T)

// SliceLen is len(v).
func (s *State) SliceLen(v *T) *T {
	if v.Op == "nil" {
		return Int(0)
	}
	v = s.ResolveSlice(v)
	if v.Op == "nil" {
		return Int(0)
	}
	return v.A[1]
}

// ambientObj fetches an object that exists independently of the state.
var ambientObj func(s *State, id int) *Obj

// Content is the sequence of elements of a slice value.
func (s *State) Content(v *T) *T {
	v = s.ResolveSlice(v)
	if v.Op == "nil" {
		return rawSeq(nil)
	}
	o := s.heap[int(v.I)]
	if o == nil && ambientObj != nil {
		o = ambientObj(s, int(v.I))
	}
	return s.SubSeq(o.Seq, v.A[0], Add(v.A[0], v.A[1]))
}

// SubSeq is q[lo:hi]; positions that cannot be located make the result
// opaque.
func (s *State) SubSeq(q, lo, hi *T) *T {
	if lo.isInt() && lo.I == 0 && hi == SeqLen(q) {
		return q
	}
	_, t, ok := s.split(q, lo)
	if ok {
		h, _, ok2 := s.split(t, Sub(hi, lo))
		if ok2 {
			return h
		}
	}
	return NewSeq([]*T{SubSeg(App("opaqueseq", SSeq, nil, q), lo, hi)})
}

// split cuts q at index n.
func (s *State) split(q, n *T) (*T, *T, bool) {
	rest := n
	for i, g := range q.A {
		if rest.isInt() && rest.I == 0 {
			return NewSeq(q.A[:i]), NewSeq(q.A[i:]), true
		}
		l := segLen(g)
		if rest == l {
			return NewSeq(q.A[:i+1]), NewSeq(q.A[i+1:]), true
		}
		d := s.F.BoundsOf(Sub(rest, l))
		if d.Empty() || d.Min() >= 0 {
			rest = Sub(rest, l)
			continue
		}
		if v, ok := s.F.BoundsOf(rest).IsSingle(); ok && v == 0 {
			return NewSeq(q.A[:i]), NewSeq(q.A[i:]), true
		}
		if d.Max() <= 0 {
			if g.Op == "elem" {
				return nil, nil, false
			}
			a, b := splitSeg(g, rest)
			return NewSeq(append(append([]*T{}, q.A[:i]...), a)), NewSeq(append([]*T{b}, q.A[i+1:]...)), true
		}
		return nil, nil, false
	}
	return q, rawSeq(nil), true
}

// clobber models a write through one header of a backing array family: what
// other headers see where the content is written is lost, unless it is what
// they see there anyway.
func (s *State) clobber(fam int, except int, from, content *T) {
	ln := SeqLen(content)
	for id, o := range s.heap {
		if id == except || o.Kind != 'a' || !famOverlap(o.Fam, fam) {
			continue
		}
		n := SeqLen(o.Seq)
		if d := s.F.BoundsOf(Sub(n, from)); d.Empty() || d.Max() <= 0 {
			continue
		}
		h, t, ok := s.split(o.Seq, from)
		c := *o
		b := Fresh("clobbered", SSeq, o.Elem)
		if !ok {
			c.Seq = SeqOf(b)
			s.F.Assume(Eq(SeqLenBase(b), n), true)
		} else {
			w, rest, ok := s.split(t, ln)
			if !ok {
				w, rest = t, rawSeq(nil)
			} else if w == content || sameElem(w, content) {
				continue
			}
			c.Seq = NewSeq([]*T{h, SubSeg(b, Int(0), SeqLen(w)), rest})
		}
		s.heap[id] = &c
	}
}

// sameElem reports whether two sequences are the same one element.
func sameElem(a, b *T) bool {
	one := func(q *T) *T {
		if q.Op != "seq" || len(q.A) != 1 {
			return nil
		}
		switch g := q.A[0]; g.Op {
		case "elem":
			return g.A[0]
		case "sub":
			if Sub(g.A[2], g.A[1]) == Int(1) {
				return At(g.A[0], g.A[1], nil)
			}
		}
		return nil
	}
	x, y := one(a), one(b)
	if x == nil || y == nil {
		return false
	}
	if x.Op == "at" && y.Op == "at" {
		return x.A[0] == y.A[0] && x.A[1] == y.A[1]
	}
	return x == y
}

// zero value
func Zero(t types.Type) *T {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsFloat != 0:
			return mk("float", "0", 0, SOther, t, nil, nil)
		}
	case *types.Struct:
		f := make([]*T, u.NumFields())
		for i := range f {
			f[i] = Zero(u.Field(i).Type())
		}
		return Struct(t, f)
	case *types.Slice, *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return Nil(t)
	case *types.Array:
		return mk("arr", "", 0, SOther, t, []*T{zeroSeq(u)}, nil)
	}
	return mk("zero", "", 0, SortOf(t), t, nil, nil)
}

func zeroSeq(u *types.Array) *T {
	if u.Len() <= 64 {
		var g []*T
		for i := int64(0); i < u.Len(); i++ {
			g = append(g, Elem(Zero(u.Elem())))
		}
		return rawSeq(g)
	}
	return NewSeq([]*T{CompSeg(Int(0), Int(u.Len()), Zero(u.Elem()))})
}

// BaseOf returns the base of a sequence that is a whole base.
func BaseOf(q *T) *T {
	if len(q.A) == 1 && q.A[0].Op == "sub" {
		return q.A[0].A[0]
	}
	return nil
}
