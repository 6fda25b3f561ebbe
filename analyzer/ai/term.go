package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Sort classifies terms.
type Sort uint8

// Sorts.
const (
	SOther Sort = iota
	SInt
	SBool
	SStr
	SSeq
	SSlice
	SStruct
	SIface
	SPtr
	SFunc
	STuple
)

// T is a hash consed term: the values of the abstract domain.
type T struct {
	id   int
	Op   string
	S    string
	I    int64
	A    []*T
	C    []int64
	Sort Sort
	Typ  types.Type
	size int // nodes, as a tree
}

// maxPrinted is the size of terms that are printed in full.
const maxPrinted = 2000

var termTab = map[string]*T{}
var termSeq int

// TypeStr is the canonical name of a type.
func TypeStr(t types.Type) string {
	if t == nil {
		return ""
	}
	t = types.Unalias(t)
	switch x := t.(type) {
	case *types.Basic:
		if x.Kind() < types.UntypedBool {
			return types.Typ[x.Kind()].Name() // byte and rune are aliases
		}
	case *types.Slice:
		return "[]" + TypeStr(x.Elem())
	case *types.Pointer:
		return "*" + TypeStr(x.Elem())
	}
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() })
}

func mk(op, s string, i int64, srt Sort, typ types.Type, args []*T, coef []int64) *T {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(s)
	b.WriteByte(0)
	b.WriteString(strconv.FormatInt(i, 36))
	b.WriteByte(byte('a' + srt))
	for k, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if coef != nil {
			b.WriteByte('*')
			b.WriteString(strconv.FormatInt(coef[k], 10))
		}
	}
	if op == "sym" || op == "struct" || op == "iface" || op == "nil" || op == "zero" || op == "ptrfld" {
		b.WriteByte(0)
		b.WriteString(TypeStr(typ))
	}
	key := b.String()
	if t := termTab[key]; t != nil {
		return t
	}
	termSeq++
	t := &T{id: termSeq, Op: op, S: s, I: i, A: args, C: coef, Sort: srt, Typ: typ, size: 1}
	for _, a := range args {
		if t.size += a.size; t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	termTab[key] = t
	return t
}

// SortOf maps a Go type to a sort.
func SortOf(t types.Type) Sort {
	if t == nil {
		return SOther
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		}
	case *types.Slice:
		return SSlice
	case *types.Struct:
		return SStruct
	case *types.Interface:
		return SIface
	case *types.Pointer:
		return SPtr
	case *types.Signature:
		return SFunc
	case *types.Tuple:
		return STuple
	}
	return SOther
}

// typeRange is the value range of an integer type (the range of int and
// int64 is treated as unbounded).
func typeRange(t types.Type) IntSet {
	if t == nil {
		return SetAll
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return SetAll
	}
	switch b.Kind() {
	case types.Uint8:
		return Range(0, 255)
	case types.Int8:
		return Range(-128, 127)
	case types.Uint16:
		return Range(0, 65535)
	case types.Int16:
		return Range(-32768, 32767)
	case types.Uint32:
		return Range(0, 1<<32-1)
	case types.Int32, types.UntypedRune:
		return Range(-1<<31, 1<<31-1)
	case types.Uint, types.Uint64, types.Uintptr:
		return Range(0, PosInf)
	}
	return SetAll
}

// ---- constructors

// Int is an integer constant.
func Int(k int64) *T { return mk("int", "", k, SInt, nil, nil, nil) }

// Bool is a boolean constant.
func Bool(b bool) *T {
	k := int64(0)
	if b {
		k = 1
	}
	return mk("bool", "", k, SBool, nil, nil, nil)
}

// Constants.
var (
	True  = Bool(true)
	False = Bool(false)
	// Kappa is the bound variable of comprehensions.
	Kappa = Sym("κ", SInt, nil)
)

// Str is a string constant.
func Str(s string) *T { return mk("str", s, 0, SStr, nil, nil, nil) }

// Sym is a symbolic value.
func Sym(name string, s Sort, typ types.Type) *T { return mk("sym", name, 0, s, typ, nil, nil) }

var symSeq int

// Fresh makes a new symbol.
func Fresh(prefix string, s Sort, typ types.Type) *T {
	symSeq++
	return mk("sym", fmt.Sprintf("%s#%d", prefix, symSeq), int64(symSeq), s, typ, nil, nil)
}

// FreshT makes a new symbol of a Go type.
func FreshT(prefix string, typ types.Type) *T { return Fresh(prefix, SortOf(typ), typ) }

// App is an uninterpreted application.
func App(f string, s Sort, typ types.Type, args ...*T) *T {
	return mk("app", f, 0, s, typ, args, nil)
}

// Nil is the nil of a type.
func Nil(typ types.Type) *T { return mk("nil", "", 0, SortOf(typ), nil, nil, nil) }

func (t *T) isInt() bool { return t.Op == "int" }

// IsConst reports a literal.
func (t *T) IsConst() bool {
	return t.Op == "int" || t.Op == "bool" || t.Op == "str" || t.Op == "nil" || t.Op == "float"
}

func linOf(t *T) (at []*T, co []int64, k int64) {
	switch t.Op {
	case "int":
		return nil, nil, t.I
	case "lin":
		return t.A, t.C, t.I
	}
	return []*T{t}, []int64{1}, 0
}

func mkLin(m map[*T]int64, k int64) *T {
	var at []*T
	for a, c := range m {
		if c != 0 {
			at = append(at, a)
		}
	}
	if len(at) == 0 {
		return Int(k)
	}
	sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
	co := make([]int64, len(at))
	for i, a := range at {
		co[i] = m[a]
	}
	if len(at) == 1 && co[0] == 1 && k == 0 {
		return at[0]
	}
	return mk("lin", "", k, SInt, nil, at, co)
}

// AddK computes x*a + y*b + k.
func lin2(x int64, a *T, y int64, b *T, k int64) *T {
	m := map[*T]int64{}
	if x != 0 {
		at, co, c := linOf(a)
		for i := range at {
			m[at[i]] += x * co[i]
		}
		k += x * c
	}
	if y != 0 {
		at, co, c := linOf(b)
		for i := range at {
			m[at[i]] += y * co[i]
		}
		k += y * c
	}
	return mkLin(m, k)
}

// Add is a+b.
func Add(a, b *T) *T { return lin2(1, a, 1, b, 0) }

// Sub is a-b.
func Sub(a, b *T) *T { return lin2(1, a, -1, b, 0) }

// AddK is a+k.
func AddK(a *T, k int64) *T { return lin2(1, a, 0, nil, k) }

// MulK is k*a.
func MulK(a *T, k int64) *T { return lin2(k, a, 0, nil, 0) }

// canonForm splits a linear term into (sign*scale)*form + k with the form
// having no constant, gcd 1 and positive leading coefficient.
func canonForm(t *T) (form *T, scale int64, k int64) {
	at, co, k := linOf(t)
	if len(at) == 0 {
		return nil, 0, k
	}
	g := int64(0)
	for _, c := range co {
		g = gcd(g, abs64(c))
	}
	if co[0] < 0 {
		g = -g
	}
	m := map[*T]int64{}
	for i := range at {
		m[at[i]] = co[i] / g
	}
	return mkLin(m, 0), g, k
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// InSet is the atom "form(t) in set".  S encodes the set; the set is kept in
// setTab.
var setTab = map[string]IntSet{}

// In is the boolean term t ∈ s.
func In(t *T, s IntSet) *T {
	f, sc, k := canonForm(t)
	if f == nil {
		return Bool(s.Has(k))
	}
	s = s.Shift(-k)
	if sc < 0 {
		s = s.Neg()
		sc = -sc
	}
	s = s.DivExact(sc)
	if s.Empty() {
		return False
	}
	if s.IsAll() {
		return True
	}
	key := s.String()
	setTab[key] = s
	return mk("in", key, 0, SBool, nil, []*T{f}, nil)
}

// Le is a<=b.
func Le(a, b *T) *T { return In(Sub(a, b), Range(NegInf, 0)) }

// Lt is a<b.
func Lt(a, b *T) *T { return In(Sub(a, b), Range(NegInf, -1)) }

// Not is negation.
func Not(b *T) *T {
	switch b.Op {
	case "bool":
		return Bool(b.I == 0)
	case "not":
		return b.A[0]
	case "in":
		return In(b.A[0], setTab[b.S].Complement())
	}
	return mk("not", "", 0, SBool, nil, []*T{b}, nil)
}

// Eq is equality of two values.
func Eq(a, b *T) *T {
	if a == b && a.Sort != SOther {
		return True
	}
	if a == b && a.Op != "float" {
		// floats: NaN; treated as reflexive except explicit handling
		return True
	}
	if a.Sort == SInt && b.Sort == SInt {
		return In(Sub(a, b), Single(0))
	}
	if a.Sort == SBool && b.Sort == SBool {
		if a.Op == "bool" {
			a, b = b, a
		}
		if b.Op == "bool" {
			if b.I == 1 {
				return a
			}
			return Not(a)
		}
	}
	if a.Op == "str" && b.Op == "str" {
		return Bool(a.S == b.S)
	}
	if a.Op == "str" && b.Op != "str" {
		a, b = b, a
	}
	if b.Op == "str" && b.S == "" && a.Sort == SStr {
		return Eq(StrLen(a), Int(0))
	}
	if a.Op == "substr" && b.Op == "str" && len(b.S) == 1 && Sub(a.A[2], a.A[1]) == Int(1) {
		return Eq(StrAt(a.A[0], a.A[1]), Int(int64(b.S[0])))
	}
	if a.Op == "nil" {
		a, b = b, a
	}
	if b.Op == "nil" {
		switch a.Op {
		case "nil":
			return True
		case "iface", "clos", "ptr", "slice":
			return False
		}
		return mk("isnil", "", 0, SBool, nil, []*T{a}, nil)
	}
	if a.Op == "iface" && b.Op == "iface" {
		if TypeStr(a.Typ) != TypeStr(b.Typ) {
			return False
		}
		return Eq(a.A[0], b.A[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", 0, SBool, nil, []*T{a, b}, nil)
}

// Struct builds a struct value (with eta reduction).
func Struct(typ types.Type, f []*T) *T {
	if len(f) > 0 && f[0].Op == "sel" && f[0].I == 0 {
		x := f[0].A[0]
		if TypeStr(x.Typ) == TypeStr(typ) {
			ok := true
			for i, y := range f {
				if y.Op != "sel" || y.I != int64(i) || y.A[0] != x {
					ok = false
					break
				}
			}
			if ok {
				return x
			}
		}
	}
	cp := append([]*T(nil), f...)
	return mk("struct", "", 0, SStruct, typ, cp, nil)
}

// Sel selects field i of a struct value.
func Sel(x *T, i int) *T {
	if x.Op == "struct" || x.Op == "tuple" {
		return x.A[i]
	}
	var ft types.Type
	if x.Typ != nil {
		if st, ok := x.Typ.Underlying().(*types.Struct); ok && i < st.NumFields() {
			ft = st.Field(i).Type()
		}
		if tt, ok := x.Typ.(*types.Tuple); ok {
			ft = tt.At(i).Type()
		}
	}
	return mk("sel", "", int64(i), SortOf(ft), ft, []*T{x}, nil)
}

// With returns the struct x with field i replaced.
func With(x *T, i int, v *T) *T {
	st := x.Typ.Underlying().(*types.Struct)
	f := make([]*T, st.NumFields())
	for k := range f {
		if k == i {
			f[k] = v
		} else {
			f[k] = Sel(x, k)
		}
	}
	return Struct(x.Typ, f)
}

// Tuple builds a tuple.
func Tuple(f ...*T) *T { return mk("tuple", "", 0, STuple, nil, append([]*T(nil), f...), nil) }

// Iface boxes a value with its dynamic type.
func Iface(typ types.Type, v *T) *T { return mk("iface", "", 0, SIface, typ, []*T{v}, nil) }

// ---- strings

// StrLen is len(s).
func StrLen(s *T) *T {
	switch s.Op {
	case "str":
		return Int(int64(len(s.S)))
	case "substr":
		return Sub(s.A[2], s.A[1])
	case "join":
		r := Int(0)
		for _, g := range s.A[0].A {
			switch {
			case g.Op == "elem":
				r = Add(r, StrLen(g.A[0]))
			case g.Op == "comp" && g.A[2].Op == "str":
				r = Add(r, MulK(Sub(g.A[1], g.A[0]), int64(len(g.A[2].S))))
			case len(s.A[0].A) == 1:
				return App("len", SInt, nil, s)
			default:
				r = Add(r, StrLen(Join(rawSeq([]*T{g}))))
			}
		}
		return r
	}
	return App("len", SInt, nil, s)
}

// Substr is s[lo:hi].
func Substr(s, lo, hi *T) *T {
	if s.Op == "substr" {
		return Substr(s.A[0], Add(s.A[1], lo), Add(s.A[1], hi))
	}
	if lo == hi {
		return Str("")
	}
	if lo.isInt() && lo.I == 0 && hi == StrLen(s) {
		return s
	}
	if s.Op == "str" && lo.isInt() && hi.isInt() && 0 <= lo.I && lo.I <= hi.I && hi.I <= int64(len(s.S)) {
		return Str(s.S[lo.I:hi.I])
	}
	if s.Op == "join" && lo.isInt() && hi.isInt() && 0 <= lo.I && lo.I <= hi.I {
		if r := cutJoin(s, lo.I, hi.I); r != nil {
			return r
		}
	}
	return mk("substr", "", 0, SStr, types.Typ[types.String], []*T{s, lo, hi}, nil)
}

// cutJoin is a part of a concatenation of texts of known lengths (nil: their
// lengths are not known as far as needed).
func cutJoin(s *T, lo, hi int64) *T {
	var out []*T
	var at int64
	for _, g := range s.A[0].A {
		if at >= hi {
			break
		}
		if g.Op != "elem" {
			return nil
		}
		n := StrLen(g.A[0])
		if !n.isInt() {
			return nil
		}
		a, b := lo-at, hi-at
		if a < 0 {
			a = 0
		}
		if b > n.I {
			b = n.I
		}
		if a < b {
			out = append(out, Substr(g.A[0], Int(a), Int(b)))
		}
		at += n.I
	}
	if at < hi {
		return nil
	}
	return Concat(out...)
}

// StrAt is the byte s[i].
func StrAt(s, i *T) *T {
	if s.Op == "substr" {
		return StrAt(s.A[0], Add(s.A[1], i))
	}
	if s.Op == "str" && i.isInt() && 0 <= i.I && i.I < int64(len(s.S)) {
		return Int(int64(s.S[i.I]))
	}
	return App("byte", SInt, types.Typ[types.Uint8], s, i)
}

// Join is the concatenation of a sequence of strings.
func Join(q *T) *T {
	var out []*T
	for _, g := range q.A {
		if g.Op == "elem" {
			x := g.A[0]
			if x.Op == "join" {
				out = append(out, x.A[0].A...)
				continue
			}
			if x.Op == "str" && x.S == "" {
				continue
			}
		}
		out = append(out, g)
	}
	var m []*T
	for _, g := range out {
		if n := len(m); n > 0 && g.Op == "elem" && m[n-1].Op == "elem" {
			a, b := m[n-1].A[0], g.A[0]
			if a.Op == "str" && b.Op == "str" {
				m[n-1] = Elem(Str(a.S + b.S))
				continue
			}
			if a.Op == "substr" && b.Op == "substr" && a.A[0] == b.A[0] && a.A[2] == b.A[1] {
				m[n-1] = Elem(Substr(a.A[0], a.A[1], b.A[2]))
				continue
			}
		}
		m = pushSeg(m, g)
	}
	if len(m) == 0 {
		return Str("")
	}
	if len(m) == 1 && m[0].Op == "elem" {
		return m[0].A[0]
	}
	if len(m) == 1 && m[0].Op == "sub" && Sub(m[0].A[2], m[0].A[1]) == Int(1) {
		return At(m[0].A[0], m[0].A[1], types.Typ[types.String])
	}
	return mk("join", "", 0, SStr, types.Typ[types.String], []*T{rawSeq(m)}, nil)
}

// Concat concatenates strings.
func Concat(ss ...*T) *T {
	var g []*T
	for _, s := range ss {
		g = append(g, Elem(s))
	}
	return Join(rawSeq(g))
}

// ---- sequences

func rawSeq(g []*T) *T { return mk("seq", "", 0, SSeq, nil, append([]*T(nil), g...), nil) }

// Elem is a one element segment.
func Elem(x *T) *T { return mk("elem", "", 0, SSeq, nil, []*T{x}, nil) }

// SubSeg is the segment base[lo:hi].
func SubSeg(base, lo, hi *T) *T { return mk("sub", "", 0, SSeq, nil, []*T{base, lo, hi}, nil) }

// CompSeg is the comprehension [body(k) | lo<=k<hi].
func CompSeg(lo, hi, body *T) *T { return mk("comp", "", 0, SSeq, nil, []*T{lo, hi, body}, nil) }

// SeqLenBase is the length of a base sequence.
func SeqLenBase(b *T) *T {
	if b.Op == "app" && b.S == "bytes" {
		return StrLen(b.A[0])
	}
	return App("len", SInt, nil, b)
}

// SeqOf wraps a base sequence symbol as a sequence.
func SeqOf(b *T) *T { return NewSeq([]*T{SubSeg(b, Int(0), SeqLenBase(b))}) }

// At is element i of a base sequence. elemTyp gives the Go type.
func At(b, i *T, elem types.Type) *T {
	if b.Op == "app" && b.S == "bytes" {
		return StrAt(b.A[0], i)
	}
	return App("at", SortOf(elem), elem, b, i)
}

func segLen(g *T) *T {
	switch g.Op {
	case "elem":
		return Int(1)
	case "sub":
		return Sub(g.A[2], g.A[1])
	case "comp":
		return Sub(g.A[1], g.A[0])
	}
	panic("segLen " + g.Op)
}

// SeqLen is the length of a sequence.
func SeqLen(q *T) *T {
	r := Int(0)
	for _, g := range q.A {
		r = Add(r, segLen(g))
	}
	return r
}

// NewSeq normalises a list of segments.
func NewSeq(g []*T) *T {
	var out []*T
	for _, s := range g {
		if s.Op == "seq" {
			for _, x := range s.A {
				out = pushSeg(out, x)
			}
			continue
		}
		out = pushSeg(out, s)
	}
	return rawSeq(out)
}

func pushSeg(out []*T, s *T) []*T {
	switch s.Op {
	case "elem":
		if x := s.A[0]; x.Op == "app" && x.S == "at" {
			s = SubSeg(x.A[0], x.A[1], AddK(x.A[1], 1))
		}
	case "sub":
		if s.A[1] == s.A[2] {
			return out
		}
	case "comp":
		if s.A[0] == s.A[1] {
			return out
		}
		if lo := s.A[0]; lo.isInt() && lo.I < 0 {
			s = CompSeg(Int(0), AddK(s.A[1], -lo.I), Subst(s.A[2], Kappa, AddK(Kappa, lo.I)))
		}
		if b := s.A[2]; b.Op == "app" && b.S == "at" && b.A[1] == Kappa && !Mentions(b.A[0], Kappa) {
			s = SubSeg(b.A[0], s.A[0], s.A[1])
		}
	}
	n := len(out)
	if n > 0 {
		p := out[n-1]
		switch {
		case p.Op == "sub" && s.Op == "sub" && p.A[0] == s.A[0] && p.A[2] == s.A[1]:
			out[n-1] = SubSeg(p.A[0], p.A[1], s.A[2])
			if p.A[1] == s.A[2] {
				return out[:n-1]
			}
			return out
		case p.Op == "sub" && s.Op == "elem" && p.A[0].Op == "app" && p.A[0].S == "bytes" && s.A[0] == At(p.A[0], p.A[2], nil):
			out[n-1] = SubSeg(p.A[0], p.A[1], AddK(p.A[2], 1))
			return out
		case p.Op == "elem" && s.Op == "sub" && s.A[0].Op == "app" && s.A[0].S == "bytes" && p.A[0] == At(s.A[0], AddK(s.A[1], -1), nil):
			return pushSeg(out[:n-1], SubSeg(s.A[0], AddK(s.A[1], -1), s.A[2]))
		case p.Op == "comp" && s.Op == "comp" && p.A[2] == s.A[2] && p.A[1] == s.A[0]:
			out[n-1] = CompSeg(p.A[0], s.A[1], p.A[2])
			return out
		case p.Op == "comp" && s.Op == "elem" && Subst(p.A[2], Kappa, p.A[1]) == s.A[0]:
			out[n-1] = CompSeg(p.A[0], AddK(p.A[1], 1), p.A[2])
			return out
		case p.Op == "elem" && s.Op == "comp" && Subst(s.A[2], Kappa, AddK(s.A[0], -1)) == p.A[0]:
			return pushSeg(out[:n-1], CompSeg(AddK(s.A[0], -1), s.A[1], s.A[2]))
		}
	}
	return append(out, s)
}

// ---- traversal

var mentCache = map[[2]int]bool{}

// Mentions reports whether x occurs in t.
func Mentions(t, x *T) bool {
	if t == x {
		return true
	}
	if len(t.A) == 0 {
		return false
	}
	k := [2]int{t.id, x.id}
	if v, ok := mentCache[k]; ok {
		return v
	}
	r := false
	for _, a := range t.A {
		if Mentions(a, x) {
			r = true
			break
		}
	}
	mentCache[k] = r
	return r
}

// MentionsAny reports whether a symbol satisfying p occurs in t.
func MentionsAny(t *T, p func(*T) bool) bool {
	seen := map[*T]bool{}
	var f func(*T) bool
	f = func(t *T) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if p(t) {
			return true
		}
		for _, a := range t.A {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// Subst replaces x by v in t.
func Subst(t, x, v *T) *T { return SubstMap(t, map[*T]*T{x: v}) }

// SubstMap replaces terms simultaneously.
func SubstMap(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	var f func(*T) *T
	f = func(t *T) *T {
		if v, ok := m[t]; ok {
			return v
		}
		if len(t.A) == 0 {
			return t
		}
		if v, ok := memo[t]; ok {
			return v
		}
		args := make([]*T, len(t.A))
		ch := false
		for i, a := range t.A {
			args[i] = f(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *T, a []*T) *T {
	switch t.Op {
	case "lin":
		r := Int(t.I)
		for i := range a {
			r = lin2(1, r, t.C[i], a[i], 0)
		}
		return r
	case "in":
		return In(a[0], setTab[t.S])
	case "not":
		return Not(a[0])
	case "eq":
		return Eq(a[0], a[1])
	case "isnil":
		return Eq(a[0], mk("nil", "", 0, a[0].Sort, nil, nil, nil))
	case "struct":
		return Struct(t.Typ, a)
	case "sel":
		return Sel(a[0], int(t.I))
	case "iface":
		return Iface(t.Typ, a[0])
	case "substr":
		return Substr(a[0], a[1], a[2])
	case "join":
		return Join(a[0])
	case "seq":
		return NewSeq(a)
	case "app":
		switch t.S {
		case "len":
			if a[0].Sort == SStr {
				return StrLen(a[0])
			}
		case "byte":
			return StrAt(a[0], a[1])
		}
	}
	return mk(t.Op, t.S, t.I, t.Sort, t.Typ, a, t.C)
}

// ---- printing

func (t *T) String() string {
	if t.size > maxPrinted {
		return t.Op + "…" + strconv.Itoa(t.id)
	}
	switch t.Op {
	case "int":
		return fmt.Sprint(t.I)
	case "bool":
		return fmt.Sprint(t.I == 1)
	case "str":
		return strconv.Quote(t.S)
	case "float":
		return t.S
	case "sym":
		return t.S
	case "nil":
		return "nil"
	case "lin":
		var b strings.Builder
		for i, a := range t.A {
			c := t.C[i]
			switch {
			case c == 1 && i == 0:
			case c == 1:
				b.WriteString("+")
			case c == -1:
				b.WriteString("-")
			default:
				fmt.Fprintf(&b, "%+d*", c)
			}
			b.WriteString(a.String())
		}
		if t.I != 0 {
			fmt.Fprintf(&b, "%+d", t.I)
		}
		return b.String()
	case "in":
		return t.A[0].String() + "∈" + t.S
	case "app":
		return t.S + args(t.A)
	case "struct":
		return "{" + strings.Trim(args(t.A), "()") + "}"
	case "sel":
		n := fmt.Sprint(t.I)
		if t.A[0].Typ != nil {
			if st, ok := t.A[0].Typ.Underlying().(*types.Struct); ok {
				n = st.Field(int(t.I)).Name()
			}
		}
		return t.A[0].String() + "." + n
	case "iface":
		return "any<" + shortType(t.Typ) + ">" + args(t.A)
	case "sub":
		return t.A[0].String() + "[" + t.A[1].String() + ":" + t.A[2].String() + "]"
	case "comp":
		return "[" + t.A[2].String() + " | " + t.A[0].String() + "<=κ<" + t.A[1].String() + "]"
	case "elem":
		return "<" + t.A[0].String() + ">"
	case "seq":
		var p []string
		for _, a := range t.A {
			p = append(p, a.String())
		}
		return "[" + strings.Join(p, " ++ ") + "]"
	case "slice", "ptr":
		return fmt.Sprintf("%s@%d%s", t.Op, t.I, args(t.A))
	case "clos":
		return "func " + t.S + args(t.A)
	}
	s := t.Op
	if t.S != "" {
		s += ":" + t.S
	}
	return s + args(t.A)
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func args(a []*T) string {
	if len(a) == 0 {
		return ""
	}
	var p []string
	for _, x := range a {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, ",") + ")"
}

// Before orders terms.
func Before(a, b *T) bool { return a.id < b.id }
