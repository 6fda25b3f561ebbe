package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// RuneSet is the set of a predicate on code points.
func RuneSet(f func(rune) bool) IntSet {
	var s IntSet
	for r := rune(0); r <= 0x10ffff; r++ {
		if f(r) {
			if n := len(s); n > 0 && s[n-1].Hi == int64(r)-1 {
				s[n-1].Hi = int64(r)
			} else {
				s = append(s, Iv{int64(r), int64(r)})
			}
		}
	}
	return s
}

var tableCache = map[string]IntSet{}

// UnicodeTable is the set of a range table of package unicode.
func UnicodeTable(name string) (IntSet, bool) {
	if s, ok := tableCache[name]; ok {
		return s, true
	}
	alias := map[string]string{"Letter": "L", "Upper": "Lu", "Lower": "Ll", "Title": "Lt", "Mark": "M", "Number": "N", "Digit": "Nd",
		"Punct": "P", "Symbol": "S", "Space": "Z", "Other": "C"}
	n := name
	if a := alias[n]; a != "" {
		n = a
	}
	t := unicode.Categories[n]
	if t == nil {
		t = unicode.Properties[n]
	}
	if t == nil {
		t = unicode.Scripts[n]
	}
	if t == nil {
		return nil, false
	}
	var s IntSet
	add := func(lo, hi, st int64) {
		if st == 1 {
			s = append(s, Iv{lo, hi})
			return
		}
		for x := lo; x <= hi; x += st {
			s = append(s, Iv{x, x})
		}
	}
	for _, r := range t.R16 {
		add(int64(r.Lo), int64(r.Hi), int64(r.Stride))
	}
	for _, r := range t.R32 {
		add(int64(r.Lo), int64(r.Hi), int64(r.Stride))
	}
	var u IntSet
	for _, v := range s {
		if k := len(u); k > 0 && v.Lo <= u[k-1].Hi+1 {
			if v.Hi > u[k-1].Hi {
				u[k-1].Hi = v.Hi
			}
		} else {
			u = append(u, v)
		}
	}
	tableCache[name] = u
	return u, true
}

var predCache = map[string]IntSet{}

func cachedSet(name string, f func(rune) bool) IntSet {
	if s, ok := predCache[name]; ok {
		return s
	}
	s := RuneSet(f)
	predCache[name] = s
	return s
}

var unicodePreds = map[string]func(rune) bool{
	"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsNumber": unicode.IsNumber, "IsSpace": unicode.IsSpace,
	"IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsTitle": unicode.IsTitle, "IsPunct": unicode.IsPunct,
	"IsSymbol": unicode.IsSymbol, "IsMark": unicode.IsMark, "IsControl": unicode.IsControl, "IsGraphic": unicode.IsGraphic,
	"IsPrint": unicode.IsPrint,
}

// runesOf is the set of runes of a string.
func runesOf(s string) IntSet {
	var u IntSet
	for _, r := range s {
		u = u.Union(Single(int64(r)))
	}
	return u
}

// setStr is a canonical string of a (small) rune set.
func setTerm(s IntSet) *T { return Str("set" + s.String()) }

// RuneAt is the decoded rune and its width at an offset.
func RuneAt(s, off *T) (r, w *T) {
	return App("rune", SInt, types.Typ[types.Int32], s, off), App("rw", SInt, nil, s, off)
}

// LastRune is the last decoded rune of s[:hi].
func LastRune(s *T) (r, w *T) {
	return App("lastrune", SInt, types.Typ[types.Int32], s), App("lastrw", SInt, nil, s)
}

func runeFacts(f *Facts, r, w, b, n *T) {
	f.Assume(In(r, Range(0, 0x10ffff)), true)
	f.Assume(Le(Int(1), w), true)
	f.Assume(Le(w, Int(4)), true)
	f.Assume(Le(w, n), true)
	if v, ok := f.Decide(Lt(b, Int(0x80))); ok {
		if v {
			f.Assume(Eq(r, b), true)
			f.Assume(Eq(w, Int(1)), true)
		} else {
			f.Assume(Le(Int(0x80), r), true)
		}
	}
	if v, ok := f.Decide(Lt(r, Int(0x80))); ok && v {
		f.Assume(Eq(r, b), true)
		f.Assume(Eq(w, Int(1)), true)
	}
}

func (e *Eng) decodeFirst(st *State, s *T) []Outcome {
	n := StrLen(s)
	em, ne := Fork(st, Le(n, Int(0)))
	var outs []Outcome
	if em != nil {
		outs = append(outs, Outcome{Tuple(Int(utf8.RuneError), Int(0)), nil, em})
	}
	if ne != nil {
		base, off := s, Int(0)
		if s.Op == "substr" {
			if ne.F.Same(s.A[2], StrLen(s.A[0])) {
				base, off = s.A[0], s.A[1]
			}
		}
		if s.Op == "str" {
			r, w := utf8.DecodeRuneInString(s.S)
			outs = append(outs, Outcome{Tuple(Int(int64(r)), Int(int64(w))), nil, ne})
			return outs
		}
		r, w := RuneAt(base, off)
		runeFacts(ne.F, r, w, StrAt(base, off), n)
		outs = append(outs, Outcome{Tuple(r, w), nil, ne})
	}
	return outs
}

func (e *Eng) decodeLast(st *State, s *T) []Outcome {
	n := StrLen(s)
	em, ne := Fork(st, Le(n, Int(0)))
	var outs []Outcome
	if em != nil {
		outs = append(outs, Outcome{Tuple(Int(utf8.RuneError), Int(0)), nil, em})
	}
	if ne != nil {
		if s.Op == "str" {
			r, w := utf8.DecodeLastRuneInString(s.S)
			outs = append(outs, Outcome{Tuple(Int(int64(r)), Int(int64(w))), nil, ne})
			return outs
		}
		if s.Op == "substr" && ne.F.Same(s.A[1], Int(0)) {
			s = Substr(s.A[0], Int(0), s.A[2])
		}
		r, w := LastRune(s)
		runeFacts(ne.F, r, w, StrAt(s, AddK(n, -1)), n)
		outs = append(outs, Outcome{Tuple(r, w), nil, ne})
	}
	return outs
}

// PredSet evaluates a predicate on runes to the set of runes it accepts.
func (e *Eng) PredSet(st *State, fn *T) (IntSet, bool) {
	r := Fresh("prune", SInt, types.Typ[types.Int32])
	s := st.Clone()
	s.F.Assume(In(r, Range(0, 0x10ffff)), true)
	yes, no := SetEmpty, SetEmpty
	for _, o := range e.CallValue(fn, []*T{r}, nil, s, token.NoPos) {
		if o.Panic != nil || o.Val == nil || o.Val.Sort != SBool {
			return nil, false
		}
		y, n := Fork(o.St, o.Val)
		if y != nil {
			yes = yes.Union(y.F.BoundsOf(r))
		}
		if n != nil {
			no = no.Union(n.F.BoundsOf(r))
		}
	}
	if !yes.Intersect(no).Empty() {
		return nil, false
	}
	return yes, true
}

func trimL(s *T, set *T) *T {
	if s.Op == "str" && set.Op == "str" {
		if ss, ok := setTab2[set.S]; ok {
			return Str(strings.TrimLeftFunc(s.S, func(r rune) bool { return ss.Has(int64(r)) }))
		}
	}
	if s.Op == "app" && s.S == "TrimL" && s.A[1] == set {
		return s
	}
	return App("TrimL", SStr, types.Typ[types.String], s, set)
}

func trimR(s *T, set *T) *T {
	if s.Op == "str" && set.Op == "str" {
		if ss, ok := setTab2[set.S]; ok {
			return Str(strings.TrimRightFunc(s.S, func(r rune) bool { return ss.Has(int64(r)) }))
		}
	}
	if s.Op == "app" && s.S == "TrimR" && s.A[1] == set {
		return s
	}
	if s.Op == "app" && s.S == "TrimL" && s.A[1] == set {
		return trimL(trimR(s.A[0], set), set)
	}
	return App("TrimR", SStr, types.Typ[types.String], s, set)
}

var setTab2 = map[string]IntSet{}

// TrimTerm builds the canonical trim term.
func TrimTerm(kind string, s *T, set IntSet) *T {
	k := setTerm(set)
	setTab2[k.S] = set
	switch kind {
	case "L":
		return trimL(s, k)
	case "R":
		return trimR(s, k)
	}
	return trimL(trimR(s, k), k)
}

// ErrTerm is a fresh non-nil error.
func ErrTerm(st *State, name string, a ...*T) *T {
	symSeq++
	t := mk("sym", "err:"+name, int64(symSeq), SIface, types.Universe.Lookup("error").Type(), append([]*T(nil), a...), nil)
	st.F.Assume(Eq(t, Nil(t.Typ)), false)
	return t
}

// Model gives the effect of calls into the standard library.
func (e *Eng) model(fn *ssa.Function, a []*T, st *State, pos token.Pos) ([]Outcome, bool) {
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if pkg == "" || e.InModule(fnPkg(fn)) {
		return nil, false
	}
	name := fn.Name()
	if name == "init" {
		return one(nil, st), true
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			name = n.Obj().Name() + "." + name
		}
	}
	e.Stats.Assumed["model of "+pkg+"."+name] = true
	if f := e.D.OnSync; f != nil && (pkg == "sync" || pkg == "sync/atomic") {
		var outs []Outcome
		for _, s := range f(e, st, pos) {
			r, ok := e.modelIn(pkg, name, fn, a, s, pos)
			if !ok {
				return nil, false
			}
			outs = append(outs, r...)
		}
		return outs, true
	}
	return e.modelIn(pkg, name, fn, a, st, pos)
}

func (e *Eng) modelIn(pkg, name string, fn *ssa.Function, a []*T, st *State, pos token.Pos) ([]Outcome, bool) {
	switch pkg {
	case "unicode/utf8":
		switch name {
		case "DecodeRuneInString":
			return e.decodeFirst(st, a[0]), true
		case "DecodeLastRuneInString":
			return e.decodeLast(st, a[0]), true
		case "RuneLen":
			if a[0].isInt() {
				return one(Int(int64(utf8.RuneLen(rune(a[0].I)))), st), true
			}
			return one(Pointwise("RuneLen", func(c int64) (int64, bool) {
				if int64(rune(c)) != c {
					return 0, false
				}
				return int64(utf8.RuneLen(rune(c))), true
			}, types.Typ[types.Int], a[0]), st), true
		case "RuneStart":
			// b&0xC0 != 0x80
			return one(Not(In(a[0], Range(0x80, 0xbf))), st), true
		case "RuneCountInString", "ValidString", "ValidRune", "FullRuneInString":
			if name == "RuneCountInString" {
				r := App("runecount", SInt, nil, a[0])
				st.F.Assume(Le(Int(0), r), true)
				st.F.Assume(Le(r, StrLen(a[0])), true)
				return one(r, st), true
			}
		}
	case "unicode":
		if name == "Is" || name == "In" || name == "IsOneOf" {
			r, tabs := a[0], a[1:]
			if name == "Is" {
				r, tabs = a[1], a[:1]
			} else if len(a) == 2 && a[1].Sort == SSlice {
				if name == "IsOneOf" {
					r, tabs = a[1], nil
				}
				c := st.Content(a[1])
				tabs = nil
				for _, g := range c.A {
					if g.Op != "elem" {
						return nil, false
					}
					tabs = append(tabs, g.A[0])
				}
			}
			u := SetEmpty
			for _, t := range tabs {
				n := ""
				if t.Op == "sym" && strings.HasPrefix(t.S, "global:unicode.") {
					n = t.S[len("global:unicode."):]
				}
				s, ok := UnicodeTable(n)
				if !ok {
					return nil, false
				}
				u = u.Union(s)
			}
			return one(In(r, u), st), true
		}
		if f := pwUnicode[name]; f != nil {
			return one(Pointwise("unicode."+name, func(x int64) (int64, bool) { return int64(f(rune(x))), true }, types.Typ[types.Int32], a[0]), st), true
		}
		if p := unicodePreds[name]; p != nil {
			return one(In(a[0], cachedSet(name, p)), st), true
		}
	case "strings", "bytes":
		return e.modelStrings(fn, name, a, st, pos)
	case "reflect":
		if name == "DeepEqual" {
			return one(DeepEq(a[0], a[1]), st), true
		}
	case "errors":
		if name == "New" {
			return one(ErrTerm(st, "errors.New", a...), st), true
		}
	case "fmt":
		switch name {
		case "Errorf":
			b := e.purify(st, a)
			if m := plainFormat(st, b); m != nil {
				return one(ErrTerm(st, "fmt.Errorf", m), st), true
			}
			if st.F.find(a[0]).Op != "str" && len(b) == 2 && b[1].Op != "app" {
				return one(ErrTerm(st, "fmt.Errorf", App("fmt.Sprintf", SStr, types.Typ[types.String], b...)), st), true
			}
			return one(ErrTerm(st, "fmt.Errorf"), st), true
		case "Sprintf", "Sprint", "Sprintln":
			if name == "Sprintf" {
				if m := plainFormat(st, e.purify(st, a)); m != nil {
					return one(m, st), true
				}
			}
			return one(App("fmt."+name, SStr, types.Typ[types.String], e.purify(st, a)...), st), true
		}
	case "strconv":
		if name == "Atoi" {
			return one(Tuple(App("ext:strconv.Atoi#0", SInt, types.Typ[types.Int], a[0]),
				App("ext:strconv.Atoi#1", SIface, types.Universe.Lookup("error").Type(), a[0])), st), true
		}
	case "sync":
		switch name {
		case "Once.Do":
			return e.onceDo(st, a[0], a[1], pos), true
		case "Mutex.Lock", "RWMutex.Lock":
			if st.G("blocked") == True {
				return nil, true
			}
			st.SetG("sync", AddK(st.G("sync"), 1))
			st.SetG("synced", Bool(true))
			return one(nil, st), true
		case "RWMutex.RLock":
			if st.G("blocked") == True {
				return nil, true
			}
			st.SetG("synced", Bool(true))
			return one(nil, st), true
		case "Mutex.Unlock", "RWMutex.Unlock":
			st.SetG("sync", AddK(st.G("sync"), -1))
			return one(nil, st), true
		case "RWMutex.RUnlock":
			return one(nil, st), true
		case "Pool.Get":
			return e.poolGet(st, a[0], pos), true
		case "Pool.Put":
			e.poolPut(st, a[0], a[1], pos)
			return one(nil, st), true
		case "Map.Store", "Map.LoadOrStore", "Map.Swap", "Map.CompareAndSwap", "Map.Delete", "Map.LoadAndDelete":
			p := e.needPtr(st, a[0], pos)
			if o := e.obj(st, int(p.I)); o != nil && e.D.OnStoreCell != nil {
				e.D.OnStoreCell(e, st, int(p.I), o, nil, pos)
			}
			fallthrough
		case "Map.Load":
			st.SetG("synced", Bool(true))
			r := fn.Signature.Results()
			v := make([]*T, r.Len())
			for i := range v {
				v[i] = FreshT("syncmap", r.At(i).Type())
			}
			switch len(v) {
			case 0:
				return one(nil, st), true
			case 1:
				return one(v[0], st), true
			}
			return one(Tuple(v...), st), true
		}
	case "sync/atomic":
		return e.modelAtomic(fn, name, a, st, pos)
	case "sort":
		switch name {
		case "Search":
			return e.sortSearch(st, a[0], a[1], pos), true
		case "Slice", "SliceStable":
			return e.sortSlice(st, a[0], a[1], pos), true
		}
	}
	return nil, false
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

var onceDone = mk("oncedone", "", 0, SStruct, nil, nil, nil)

func (e *Eng) onceDo(st *State, p, f *T, pos token.Pos) []Outcome {
	p = e.needPtr(st, p, pos)
	o := e.obj(st, int(p.I))
	if o == nil || o.Kind != 'c' || len(p.A) > 0 {
		e.GiveUp("sync.Once inside a structure")
	}
	if o.Val != onceDone && st.G("blocked") == True {
		return nil
	}
	if o.Val == onceDone {
		st.SetG("synced", Bool(true))
		return one(nil, st)
	}
	c := *o
	c.Val = onceDone
	var outs []Outcome
	d := App("once-done", SBool, nil, o.Val)
	y, n := st, (*State)(nil)
	if o.Val.Op == "sym" || o.Val.Op == "app" {
		y, n = Fork(st, d)
	} else {
		y, n = nil, st
	}
	if y != nil {
		y.heap[int(p.I)] = &c
		y.SetG("synced", Bool(true))
		outs = append(outs, Outcome{nil, nil, y})
	}
	if n != nil {
		n.SetG("sync", AddK(n.G("sync"), 1))
		n.SetG("synced", Bool(true))
		for _, r := range e.CallValue(f, nil, nil, n, pos) {
			if r.Panic == nil {
				r.Val = nil
			}
			r.St.heap[int(p.I)] = &c
			r.St.SetG("sync", AddK(r.St.G("sync"), -1))
			outs = append(outs, r)
		}
	}
	return outs
}

// plainFormat is the text of a constant format that only inserts strings and
// the texts of errors.
func plainFormat(st *State, a []*T) *T {
	f := st.F.find(a[0])
	if f.Op != "str" || len(a) != 2 {
		return nil
	}
	var rest, parts []*T
	switch a[1].Op {
	case "seq":
		rest = a[1].A
	case "nil":
	default:
		return nil
	}
	t := f.S
	for t != "" {
		i := strings.IndexByte(t, '%')
		if i < 0 {
			i = len(t)
		}
		parts = append(parts, Str(t[:i]))
		t = t[i:]
		switch {
		case t == "":
		case strings.HasPrefix(t, "%%"):
			parts = append(parts, Str("%"))
			t = t[2:]
		case strings.HasPrefix(t, "%s"), strings.HasPrefix(t, "%v"), strings.HasPrefix(t, "%w"):
			if len(rest) == 0 || rest[0].Op != "elem" {
				return nil
			}
			x := st.F.find(rest[0].A[0])
			switch {
			case x.Op == "iface" && types.Identical(x.Typ, types.Typ[types.String]) && t[1] != 'w':
				parts = append(parts, x.A[0])
			case x.Op == "sym" && strings.HasPrefix(x.S, "err:") && len(x.A) > 0:
				parts = append(parts, x.A[0])
			default:
				return nil
			}
			rest, t = rest[1:], t[2:]
		default:
			return nil
		}
	}
	if len(rest) > 0 {
		return nil
	}
	return Concat(parts...)
}

// small forks on a length, which must be bounded in this analysis.
func (e *Eng) small(st *State, n *T, what string, f func(st *State, n int) []Outcome) (r []Outcome) {
	if m := st.F.find(n); m.isInt() && m.I <= 8 {
		return f(st, int(max(m.I, 0)))
	}
	if e.D.Bound == 0 {
		e.GiveUp("%s of a list of unknown length", what)
	}
	for k := 0; st != nil && k <= e.D.Bound+1; k++ {
		var y *State
		if y, st = Fork(st, Eq(n, Int(int64(k)))); y != nil {
			r = append(r, f(y, k)...)
		}
	}
	return r
}

// forkCall calls a function that returns a truth value.
func (e *Eng) forkCall(st *State, f *T, args []*T, pos token.Pos, then func(st *State, v bool) []Outcome) (r []Outcome) {
	for _, o := range e.CallValue(f, args, nil, st, pos) {
		if o.Panic != nil {
			r = append(r, o)
			continue
		}
		y, n := Fork(o.St, o.Val)
		if y != nil {
			r = append(r, then(y, true)...)
		}
		if n != nil {
			r = append(r, then(n, false)...)
		}
	}
	return r
}

// sortSearch is the binary search of the standard library.
func (e *Eng) sortSearch(st *State, n, f *T, pos token.Pos) []Outcome {
	var search func(st *State, i, j int) []Outcome
	search = func(st *State, i, j int) []Outcome {
		if i >= j {
			return one(Int(int64(i)), st)
		}
		h := (i + j) / 2
		return e.forkCall(st, f, []*T{Int(int64(h))}, pos, func(st *State, v bool) []Outcome {
			if !v {
				return search(st, h+1, j)
			}
			return search(st, i, h)
		})
	}
	return e.small(st, n, "sort.Search", func(st *State, n int) []Outcome { return search(st, 0, n) })
}

// sortSlice is an insertion sort, as the standard library sorts short lists.
func (e *Eng) sortSlice(st *State, x, less *T, pos token.Pos) []Outcome {
	x = st.F.find(x)
	if x.Op == "iface" {
		x = x.A[0]
	}
	v := st.ResolveSlice(x)
	if v.Op == "nil" {
		return one(nil, st)
	}
	o := (*Obj)(nil)
	if v.Op == "slice" {
		o = e.obj(st, int(v.I))
	}
	if o == nil {
		e.GiveUp("sort of an unknown list")
	}
	e.checkProt(st, o, v.A[0], v.A[1], pos, "sort")
	at := func(st *State, i int) *T {
		r := e.Load(st, PtrTo(int(v.I), idxStep(Add(v.A[0], Int(int64(i))))), pos)
		if len(r) != 1 {
			e.GiveUp("sort of a list with unknown elements")
		}
		return r[0].Val
	}
	return e.small(st, v.A[1], "sort", func(st *State, n int) []Outcome {
		var insert func(st *State, i, j int) []Outcome
		insert = func(st *State, i, j int) []Outcome {
			switch {
			case i >= n:
				return one(nil, st)
			case j == 0:
				return insert(st, i+1, i+1)
			}
			return e.forkCall(st, less, []*T{Int(int64(j)), Int(int64(j - 1))}, pos, func(st *State, v1 bool) []Outcome {
				if !v1 {
					return insert(st, i+1, i+1)
				}
				a, b := at(st, j), at(st, j-1)
				e.StoreAt(st, v, Int(int64(j)), b, pos)
				e.StoreAt(st, v, Int(int64(j-1)), a, pos)
				return insert(st, i, j-1)
			})
		}
		return insert(st, 1, 1)
	})
}

// poolName names a pool across analyses.
func (e *Eng) poolName(p *T, o *Obj) string {
	if g := e.globObj[int(p.I)]; g != nil {
		return g.String()
	}
	return fmt.Sprint(o.Label, o.Site, len(p.A))
}

// poolGet is a fresh object, or one that was put into the pool before.
func (e *Eng) poolGet(st *State, p *T, pos token.Pos) []Outcome {
	p = e.needPtr(st, p, pos)
	o := e.obj(st, int(p.I))
	t := o.Typ
	for _, s := range p.A {
		if s.Op != "f" {
			e.GiveUp("pool in a list")
		}
		t = t.Underlying().(*types.Struct).Field(int(s.I)).Type()
	}
	f := -1
	if sys, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < sys.NumFields(); i++ {
			if sys.Field(i).Name() == "New" {
				f = i
			}
		}
	}
	if f < 0 {
		e.GiveUp("unknown pool")
	}
	h := e.D.OnLoadCell
	e.D.OnLoadCell = nil
	fn := e.Load(st, PtrTo(int(p.I), append(append([]*T{}, p.A...), fldStep(f))...), pos)
	e.D.OnLoadCell = h
	if len(fn) != 1 || fn[0].Val.Op != "clos" {
		e.GiveUp("pool without a function")
	}
	outs := e.CallValue(fn[0].Val, nil, nil, fn[0].St, pos)
	if e.pools[e.poolName(p, o)] {
		for i := range outs {
			if outs[i].Panic == nil {
				outs[i].Val = e.pooled(outs[i].St, outs[i].Val, true)
			}
		}
	}
	return outs
}

// poolPut gives an object away: whatever it holds may change at any time.
func (e *Eng) poolPut(st *State, p, x *T, pos token.Pos) {
	p = e.needPtr(st, p, pos)
	n := e.poolName(p, e.obj(st, int(p.I)))
	if !e.pools[n] && !e.cleared(st, x) {
		if e.pools == nil {
			e.pools = map[string]bool{}
		}
		e.pools[n] = true
		e.Again = true
	}
	e.pooled(st, x, false)
}

// cleared reports whether an object holds nothing, as a fresh one.
func (e *Eng) cleared(st *State, x *T) bool {
	if x.Op == "iface" {
		x = x.A[0]
	}
	switch x.Op {
	case "ptr":
		o := e.obj(st, int(x.I))
		if o != nil && o.Kind == 'b' && len(x.A) == 0 {
			return len(o.Val.A) == 0
		}
		if o != nil && o.Kind == 'c' && len(x.A) == 0 {
			return e.cleared(st, o.Val)
		}
		return false
	}
	if x.Sort == SSlice {
		if v, ok := st.F.Decide(Eq(SeqLen(st.Content(x)), Int(0))); ok && v {
			return true
		}
	}
	return false
}

// pooled makes the content of an object unknown: that of a list itself for
// one that comes out of a pool, the storage only for one that goes into it.
func (e *Eng) pooled(st *State, x *T, get bool) *T {
	if x.Op == "iface" {
		return Iface(x.Typ, e.pooled(st, x.A[0], get))
	}
	if x.Op == "ptr" && len(x.A) == 0 {
		if o := e.obj(st, int(x.I)); o != nil {
			c := *o
			switch {
			case o.Kind == 'b':
				c.Val = strSeq(Fresh("pooled", SStr, types.Typ[types.String]))
				st.heap[int(x.I)] = &c
				return x
			case o.Kind == 'c' && o.Val.Sort == SSlice:
				c.Val = e.pooled(st, o.Val, get)
				st.heap[int(x.I)] = &c
				return x
			}
		}
	}
	if x.Sort == SSlice {
		v := st.ResolveSlice(x)
		if v.Op == "nil" {
			return x
		}
		if !get {
			e.havocSlice(st, v)
			return x
		}
		elem := x.Typ.Underlying().(*types.Slice).Elem()
		return st.NewSlice(SeqOf(Fresh("pooled", SSeq, elem)), elem, "", false, x.Typ)
	}
	e.GiveUp("a pool of %s", x)
	return nil
}

// havocSlice makes the content of a list unknown.
func (e *Eng) havocSlice(st *State, v *T) {
	o := e.obj(st, int(v.I))
	c := *o
	b := Fresh("changed", SSeq, o.Elem)
	n := SeqLen(o.Seq)
	st.F.Assume(Eq(SeqLen(SeqOf(b)), n), true)
	c.Seq = SeqOf(b)
	st.heap[int(v.I)] = &c
}

// modelAtomic is a load or a store, or both.
func (e *Eng) modelAtomic(fn *ssa.Function, name string, a []*T, st *State, pos token.Pos) ([]Outcome, bool) {
	p := e.needPtr(st, a[0], pos)
	bool1 := false
	if i := strings.Index(name, "."); i >= 0 {
		sys, ok := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		bool1 = name[:i] == "Bool"
		name = name[i+1:]
		f := -1
		for k := 0; k < sys.NumFields(); k++ {
			if sys.Field(k).Name() == "v" {
				f = k
			}
		}
		if f < 0 {
			return nil, false
		}
		p = PtrTo(int(p.I), append(append([]*T{}, p.A...), fldStep(f))...)
	}
	enc := func(st *State, b *T, f func(*State, *T) []Outcome) (r []Outcome) {
		if !bool1 {
			return f(st, b)
		}
		y, n := Fork(st, b)
		if y != nil {
			r = append(r, f(y, Int(1))...)
		}
		if n != nil {
			r = append(r, f(n, Int(0))...)
		}
		return r
	}
	dec := func(v *T) *T {
		if bool1 {
			return Not(Eq(v, Int(0)))
		}
		return v
	}
	store := func(st *State, v, res *T, self bool) (r []Outcome) {
		st.SetG("sync", AddK(st.G("sync"), 1))
		e.SelfStore = self
		for _, s := range e.store(st, p, v, pos) {
			s.SetG("sync", AddK(s.G("sync"), -1))
			r = append(r, Outcome{res, nil, s})
		}
		e.SelfStore = false
		return r
	}
	st.SetG("synced", Bool(true))
	switch {
	case strings.HasPrefix(name, "Load"):
		outs := e.Load(st, p, pos)
		for i := range outs {
			outs[i].Val = dec(outs[i].Val)
		}
		return outs, true
	case strings.HasPrefix(name, "Store"):
		return enc(st, a[1], func(s *State, v *T) []Outcome { return store(s, v, nil, false) }), true
	case strings.HasPrefix(name, "Swap"):
		var r []Outcome
		for _, o := range e.Load(st, p, pos) {
			r = append(r, enc(o.St, a[1], func(s *State, v *T) []Outcome { return store(s, v, dec(o.Val), false) })...)
		}
		return r, true
	case strings.HasPrefix(name, "Add"):
		var r []Outcome
		for _, o := range e.Load(st, p, pos) {
			v := e.arith(o.St, Add(o.Val, a[1]), fn.Signature.Results().At(0).Type(), "+", o.Val, a[1])
			r = append(r, store(o.St, v, v, true)...)
		}
		return r, true
	case strings.HasPrefix(name, "CompareAndSwap"):
		var r []Outcome
		for _, o := range e.Load(st, p, pos) {
			r = append(r, enc(o.St, a[1], func(s *State, old *T) []Outcome {
				return enc(s, a[2], func(s *State, v *T) (r []Outcome) {
					y, n := Fork(s, e.eqVal(s, o.Val, old))
					if y != nil {
						r = append(r, store(y, v, Bool(true), false)...)
					}
					if n != nil {
						r = append(r, Outcome{Bool(false), nil, n})
					}
					return r
				})
			})...)
		}
		return r, true
	}
	return nil, false
}

func (e *Eng) modelStrings(fn *ssa.Function, name string, a []*T, st *State, pos token.Pos) ([]Outcome, bool) {
	str := types.Typ[types.String]
	if strings.HasPrefix(name, "Builder.") || strings.HasPrefix(name, "Buffer.") {
		p := e.needPtr(st, a[0], pos)
		o := e.obj(st, int(p.I))
		if o == nil || o.Kind != 'b' {
			e.GiveUp("string builder of unknown origin at %s", e.PosStr(pos))
		}
		add := func(v *T) {
			c := *o
			c.Val = strSeq(Join(NewSeq([]*T{o.Val, Elem(v)})))
			st.heap[int(p.I)] = &c
		}
		nilErr := Nil(types.Universe.Lookup("error").Type())
		switch name[strings.Index(name, ".")+1:] {
		case "WriteString":
			add(a[1])
			return one(Tuple(StrLen(a[1]), nilErr), st), true
		case "WriteByte":
			if a[1].isInt() && a[1].I < 128 {
				add(Str(string(rune(a[1].I))))
			} else {
				add(App("bytestr", SStr, str, a[1]))
			}
			return one(nilErr, st), true
		case "WriteRune":
			var s *T
			for _, r := range e.convert(st, a[1], types.Typ[types.Int32], str) {
				s = r.Val
			}
			add(s)
			return one(Tuple(Fresh("n", SInt, nil), nilErr), st), true
		case "String":
			return one(Join(o.Val), st), true
		case "Len":
			return one(StrLen(Join(o.Val)), st), true
		case "Grow":
			return one(nil, st), true
		case "Reset":
			c := *o
			c.Val = rawSeq(nil)
			st.heap[int(p.I)] = &c
			return one(nil, st), true
		}
		e.GiveUp("builder method %s", name)
	}
	cut := func(t *T) (IntSet, bool) {
		if t.Op != "str" {
			return nil, false
		}
		return runesOf(t.S), true
	}
	switch name {
	case "EqualFold":
		x, y := a[0], a[1]
		if x.Op == "str" && y.Op == "str" {
			return one(Bool(strings.EqualFold(x.S, y.S)), st), true
		}
		if x.id > y.id {
			x, y = y, x
		}
		return one(App("EqualFold", SBool, nil, x, y), st), true
	case "Clone":
		if a[0].Sort == SStr {
			return one(a[0], st), true
		}
	case "Compare":
		if a[0].Sort == SStr {
			y, n := Fork(st, Eq(a[0], a[1]))
			var outs []Outcome
			if y != nil {
				outs = append(outs, Outcome{Int(0), nil, y})
			}
			if n != nil {
				l, g := Fork(n, App("strless", SBool, nil, a[0], a[1]))
				if l != nil {
					outs = append(outs, Outcome{Int(-1), nil, l})
				}
				if g != nil {
					outs = append(outs, Outcome{Int(1), nil, g})
				}
			}
			return outs, true
		}
	case "HasPrefix", "HasSuffix":
		y, n := Fork(st, Le(StrLen(a[1]), StrLen(a[0])))
		var outs []Outcome
		if y != nil {
			lo, hi := Int(0), StrLen(a[1])
			if name == "HasSuffix" {
				lo, hi = Sub(StrLen(a[0]), StrLen(a[1])), StrLen(a[0])
			}
			outs = append(outs, Outcome{Eq(Substr(a[0], lo, hi), a[1]), nil, y})
		}
		if n != nil {
			outs = append(outs, Outcome{False, nil, n})
		}
		return outs, true
	case "ContainsRune":
		if s, ok := cut(a[0]); ok {
			return one(In(a[1], s), st), true
		}
	case "IndexRune", "IndexByte":
		if s, ok := cut(a[0]); ok {
			if name == "IndexByte" {
				s = SetEmpty
				for i := 0; i < len(a[0].S); i++ {
					s = s.Union(Single(int64(a[0].S[i])))
				}
			}
			r := App(name, SInt, nil, a...)
			y, n := Fork(st, In(a[1], s))
			var outs []Outcome
			if y != nil {
				y.F.Assume(Le(Int(0), r), true)
				y.F.Assume(Lt(r, StrLen(a[0])), true)
				outs = append(outs, Outcome{r, nil, y})
			}
			if n != nil {
				outs = append(outs, Outcome{Int(-1), nil, n})
			}
			return outs, true
		}
		fallthrough
	case "Index", "LastIndex", "LastIndexByte", "IndexAny", "LastIndexAny":
		r := App(name, SInt, nil, a...)
		st.F.Assume(Le(Int(-1), r), true)
		st.F.Assume(Le(r, StrLen(a[0])), true)
		if name == "Index" || name == "LastIndex" {
			// a match fits into the string
			y, n := Fork(st, Le(Int(0), r))
			var outs []Outcome
			if y != nil {
				y.F.Assume(Le(Add(r, StrLen(a[1])), StrLen(a[0])), true)
				if name == "Index" { // at the start exactly if it is a prefix
					head := Eq(Substr(a[0], Int(0), StrLen(a[1])), a[1])
					p, q := Fork(y, Eq(r, Int(0)))
					if p != nil && p.F.Assume(head, true) {
						outs = append(outs, Outcome{r, nil, p})
					}
					if y = nil; q != nil && q.F.Assume(head, false) {
						outs = append(outs, Outcome{r, nil, q})
					}
				} else {
					outs = append(outs, Outcome{r, nil, y})
				}
			}
			if n != nil {
				n.F.Assume(Eq(App("Contains", SBool, nil, a[0], a[1]), False), true)
				if v, ok := n.F.Decide(Le(StrLen(a[1]), StrLen(a[0]))); ok && v && name == "Index" {
					n.F.Assume(Eq(Substr(a[0], Int(0), StrLen(a[1])), a[1]), false)
				}
				outs = append(outs, Outcome{r, nil, n})
			}
			return outs, true
		}
		if name == "IndexByte" || name == "IndexRune" || name == "LastIndexByte" {
			y, n := Fork(st, Le(Int(0), r))
			var outs []Outcome
			if y != nil {
				y.F.Assume(Lt(r, StrLen(a[0])), true)
				outs = append(outs, Outcome{r, nil, y})
			}
			if n != nil {
				outs = append(outs, Outcome{r, nil, n})
			}
			return outs, true
		}
		return one(r, st), true
	case "Contains":
		if a[0].Op == "str" && a[1].Op == "str" {
			return one(Bool(strings.Contains(a[0].S, a[1].S)), st), true
		}
		return one(App("Contains", SBool, nil, a...), st), true
	case "Trim", "TrimLeft", "TrimRight":
		if s, ok := cut(a[1]); ok {
			k := map[string]string{"Trim": "B", "TrimLeft": "L", "TrimRight": "R"}[name]
			return one(TrimTerm(k, a[0], s), st), true
		}
	case "TrimSpace":
		return one(TrimTerm("B", a[0], cachedSet("IsSpace", unicode.IsSpace)), st), true
	case "TrimFunc", "TrimLeftFunc", "TrimRightFunc":
		if s, ok := e.PredSet(st, a[1]); ok {
			k := map[string]string{"TrimFunc": "B", "TrimLeftFunc": "L", "TrimRightFunc": "R"}[name]
			return one(TrimTerm(k, a[0], s), st), true
		}
	case "TrimPrefix", "TrimSuffix", "CutPrefix", "CutSuffix":
		y, n := Fork(st, Le(StrLen(a[1]), StrLen(a[0])))
		var outs []Outcome
		res := func(s *T, ok bool) *T {
			if name[0] == 'C' {
				return Tuple(s, Bool(ok))
			}
			return s
		}
		if y != nil {
			l := StrLen(a[1])
			lo, hi, rlo, rhi := Int(0), l, l, StrLen(a[0])
			if strings.HasSuffix(name, "Suffix") {
				lo, hi, rlo, rhi = Sub(StrLen(a[0]), l), StrLen(a[0]), Int(0), Sub(StrLen(a[0]), l)
			}
			p, q := Fork(y, Eq(Substr(a[0], lo, hi), a[1]))
			if p != nil {
				outs = append(outs, Outcome{res(Substr(a[0], rlo, rhi), true), nil, p})
			}
			if q != nil {
				outs = append(outs, Outcome{res(a[0], false), nil, q})
			}
		}
		if n != nil {
			outs = append(outs, Outcome{res(a[0], false), nil, n})
		}
		return outs, true
	case "Repeat":
		e.Oblige(st, "panic:repeat", Le(Int(0), a[1]), pos, "strings.Repeat with a negative count %s", a[1])
		if a[0].Op == "str" && a[1].isInt() && a[1].I >= 0 && a[1].I < 1000 {
			return one(Str(strings.Repeat(a[0].S, int(a[1].I))), st), true
		}
		return one(App("Repeat", SStr, str, a...), st), true
	case "ReplaceAll":
		return one(App("Replace", SStr, str, a[0], a[1], a[2], Int(-1)), st), true
	case "Replace":
		return one(App("Replace", SStr, str, a...), st), true
	case "Join":
		if a[1].Op == "str" && a[1].S == "" && a[0].Sort == SSlice {
			return one(Join(st.Content(a[0])), st), true
		}
	}
	return nil, false
}

// InitPackages evaluates the package initialisers of the module and keeps the
// values of the globals that nothing else writes.
func (e *Eng) InitPackages(pkgs []*ssa.Package, mutable map[*ssa.Global]bool) string {
	return e.Run(func() {
		for _, p := range pkgs {
			e.inited[p] = true
		}
		st := NewState()
		for _, p := range pkgs {
			if f := p.Func("init"); f != nil {
				outs := e.Call(f, nil, nil, st, token.NoPos)
				if len(outs) != 1 || outs[0].Panic != nil {
					e.GiveUp("package initialiser of %s: %d outcomes %v", p.Pkg.Path(), len(outs), outs[1].St.Path(10))
				}
				st = outs[0].St
			}
		}
		for id, o := range st.heap {
			if g := e.globObj[id]; g != nil && mutable[g] {
				continue
			}
			if o.Kind == 'a' {
				c := *o
				c.Prot = SeqLen(o.Seq)
				if c.Label == "" || c.Label == "fresh" {
					c.Label = "a package level table"
				}
				o = &c
			}
			e.baseHeap[id] = o
		}
	})
}

// SortedKeys returns sorted keys.
func SortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// FoldEq is equality under simple case folding.
func FoldEq(x, y *T) *T {
	if x.id > y.id {
		x, y = y, x
	}
	return App("EqualFold", SBool, nil, x, y)
}

// Find resolves a value under the facts of the state.
func (s *State) Find(t *T) *T { return s.F.find(t) }

// DeepEq is reflect.DeepEqual of two interface values.
func DeepEq(a, b *T) *T {
	if a == b {
		return True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("DeepEqual", SBool, nil, a, b)
}
