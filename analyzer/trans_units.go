package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// tin is a symbolic transformer input: any context, any list of ASTs with any
// spare capacity.
type tin struct {
	In   *In
	St   *ai.State
	Asts *ai.T // the slice
	Base *ai.T // its elements
	A    *ai.T // its content
	N    *ai.T // its length
}

func (u *U) transIn(object bool) *tin {
	l := u.L
	t := &tin{St: ai.NewState()}
	t.In = u.input(t.St, object)
	t.Asts = t.St.SymSlice("asts", l.Ast, l.AstSlice)
	t.A = t.St.Content(t.Asts)
	t.Base = ai.BaseOf(t.A)
	t.N = ai.SeqLen(t.A)
	t.St.F.Assume(ai.Le(ai.Int(0), t.N), true)
	// the spare capacity belongs to earlier parser states too
	t.St.Obj(int(t.Asts.I)).Prot = t.Asts.A[2]
	return t
}

func (t *tin) at(u *U, i *ai.T) *ai.T { return ai.At(t.Base, i, u.L.Ast) }

// tout is a decoded result of a transformer.
type tout struct {
	St     *ai.State
	List   *ai.T // content
	Slice  *ai.T
	Err    *ai.T
	ErrNil bool
}

// transDriver checks panics as violations of props.
func (u *U) transDriver() *ai.Driver {
	d := u.driver()
	d.TypeAxiom = u.tagAxiom
	return d
}

// goType is the Go type a type tag stands for (nil: no constraint).
func (l *Lay) goType(tag string) types.Type {
	switch tag {
	case "Rune":
		return types.Typ[types.Int32]
	case "Int":
		return types.Typ[types.Int64]
	case "Uint":
		return types.Typ[types.Uint64]
	case "Float":
		return types.Typ[types.Float64]
	case "Bool":
		return types.Typ[types.Bool]
	case "String":
		return types.Typ[types.String]
	case "ListOfAst":
		return l.AstSlice
	case "AstCons":
		o := l.Ast.Obj().Pkg().Scope().Lookup("AstCons")
		if o != nil {
			return o.Type()
		}
	}
	return nil
}

// tagAxiom: the type tag of an AST names the type of its value (C19).
func (u *U) tagAxiom(e *ai.Eng, st *ai.State, x *ai.T, t types.Type) bool {
	p := fieldPath(u.L.Ast, "Value")
	if x.Op != "sel" || len(p) != 1 || x.I != int64(p[0]) || x.A[0].Typ == nil || ai.TypeStr(x.A[0].Typ) != ai.TypeStr(u.L.Ast) {
		return false
	}
	tag := u.L.a(x.A[0], "Type")
	for n, k := range u.L.AstT {
		g := u.L.goType(n)
		if g != nil && ai.TypeStr(g) == ai.TypeStr(t) && holds(st, ai.Eq(tag, ai.Int(k))) {
			return true
		}
	}
	return false
}

// transform applies a transformer value.
func (u *U) transform(tv *ai.T, t *tin, st *ai.State) []tout {
	u.mark = ai.ObjMark()
	var r []tout
	for _, o := range u.E.CallValue(tv, []*ai.T{t.In.Ctx, t.Asts}, nil, st, token.NoPos) {
		u.Outcomes++
		if o.Panic != nil {
			u.panics(o)
			continue
		}
		if o.Val == nil || o.Val.Op != "tuple" || len(o.Val.A) != 2 {
			u.E.GiveUp("unexpected transformer result")
		}
		sl, err := o.Val.A[0], o.Val.A[1]
		y, n := ai.Fork(o.St, ai.Eq(err, ai.Nil(u.L.Err)))
		if y != nil {
			r = append(r, tout{y, y.Content(sl), sl, err, true})
		}
		if n != nil {
			r = append(r, tout{n, n.Content(sl), sl, err, false})
		}
	}
	// whatever the transformer returned, its input is as before
	for _, o := range r {
		u.need(same(o.St, o.St.Content(t.Asts), t.A), "C16", "input of a transformer changed", o.St, "the ASTs handed to the transformer become %s", o.St.Content(t.Asts))
	}
	return r
}

// wantList compares the result with the documented list.
func (u *U) wantList(o tout, prop, name string, want ...*ai.T) {
	w := ai.NewSeq(want)
	u.need(same(o.St, o.List, w), prop, "list of the result", o.St, "%s returns %s, not %s", name, o.List, w)
}

// tagged compares type tags with values.
func (u *U) tagged(o tout, name string) {
	for _, g := range o.List.A {
		if g.Op != "elem" {
			continue
		}
		u.taggedAst(o.St, g.A[0], name)
	}
}

func (u *U) taggedAst(st *ai.State, a *ai.T, name string) {
	l := u.L
	v := st.Find(l.a(a, "Value"))
	ty := l.a(a, "Type")
	if v.Op != "iface" {
		for n, k := range l.AstT {
			if g := l.goType(n); g != nil && holds(st, ai.Eq(ty, ai.Int(k))) {
				u.need(!decidedFalse(st, ai.TypeIs(v, g)), "C19", "type tag of the result", st, "%s returns a value that is no %s under the type tag %s", name, shortTypeStr(g), n)
			}
		}
		return
	}
	ok := false
	for n, k := range l.AstT {
		if !holds(st, ai.Eq(ty, ai.Int(k))) {
			continue
		}
		switch n {
		case "Any", "ListOfAny", "Function":
			ok = n == "Any" || v.Typ != nil && !isBasic(v.Typ)
		case "Nil":
		default:
			g := l.goType(n)
			ok = g != nil && ai.TypeStr(g) == ai.TypeStr(v.Typ)
		}
	}
	u.need(ok, "C19", "type tag of the result", st, "%s returns a value of type %s under the type tag %s", name, shortTypeStr(v.Typ), ty)
}

func shortTypeStr(t types.Type) string {
	if t == nil {
		return "unknown"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// tagStaysWithValue: the first entry has both the tag and the value that were
// given, or both those it had, so that a pair that agrees stays together.
func (u *U) tagStaysWithValue(name string, t *tin, o tout, tag, val string) {
	l, st := u.L, o.St
	if holds(st, ai.Eq(t.N, ai.Int(0))) || holds(st, ai.Eq(ai.SeqLen(o.List), ai.Int(0))) {
		return
	}
	fn := u.fn(basePkg, name)
	gt := ai.Sym(tag, ai.SortOf(fn.Params[0].Type()), fn.Params[0].Type())
	gv := ai.Sym(val, ai.SortOf(fn.Params[1].Type()), fn.Params[1].Type())
	old := t.at(u, ai.Int(0))
	for _, g := range u.E.AtSeq(st, o.List, ai.Int(0), l.Ast) {
		ty, v := l.a(g.Val, "Type"), l.a(g.Val, "Value")
		ok := same(g.St, ty, gt) && same(g.St, v, gv) || same(g.St, ty, l.a(old, "Type")) && same(g.St, v, l.a(old, "Value"))
		u.need(ok, "C19", "type tag of the result", g.St, "%s gives the entry the type tag %s and the value %s", name, ty, v)
	}
}

func isBasic(t types.Type) bool { _, ok := t.Underlying().(*types.Basic); return ok }

// plainTrans is a transformer that is a function of the library.
func (u *U) plainTrans(fn *ssa.Function) *ai.T { return u.E.Clos(fn) }

// simpleTrans analyses a transformer whose result list is a function of the
// input list.
func (u *U) simpleTrans(name string, mk func(st *ai.State, fn *ssa.Function) (*ai.State, *ai.T), want func(t *tin, st *ai.State) []*ai.T, also ...func(t *tin, o tout)) {
	fn := u.fn(basePkg, name)
	u.run("base."+name, fn.Pos(), func() {
		u.transDriver()
		t := u.transIn(false)
		st, tv := t.St, u.plainTrans(fn)
		if mk != nil {
			st, tv = mk(t.St, fn)
		}
		for _, o := range u.transform(tv, t, st) {
			if !u.need(o.ErrNil, "C17", "unexpected error", o.St, "%s reports an error", name) {
				continue
			}
			for _, c := range forkBy(o.St, ai.Eq(t.N, ai.Int(0)), ai.Eq(t.N, ai.Int(1))) {
				o := o
				o.St = c.st
				o.List = o.St.Content(o.Slice)
				u.wantList(o, "C17", name, want(t, o.St)...)
				for _, f := range also {
					f(t, o)
				}
			}
		}
	})
}

// rest is the input list from index i on.
func (t *tin) rest(st *ai.State, i *ai.T) *ai.T { return st.SubSeq(t.A, i, t.N) }

var transProps = []string{"C13", "C15", "C16", "C17"}

func init() {
	register("base.Erase", transProps, func(u *U) {
		u.simpleTrans("Erase", nil, func(t *tin, st *ai.State) []*ai.T { return nil })
	})
	register("base.TransformError", []string{"C03", "C15", "C16", "C17"}, func(u *U) {
		fn := u.fn(basePkg, "TransformError")
		u.run("base.TransformError", fn.Pos(), func() {
			u.transDriver()
			t := u.transIn(false)
			msg := ai.Sym("arg:s", ai.SStr, u.L.Str)
			st, tv := u.ctor1(t.St, fn, msg)
			for _, o := range u.transform(tv, t, st) {
				if !u.need(!o.ErrNil, "C17", "error expected", o.St, "TransformError reports no error") {
					continue
				}
				if e := o.St.Find(o.Err); e.Op == "sym" && len(e.A) > 0 {
					u.need(same(o.St, e.A[0], msg), "C17", "message of the error", o.St, "TransformError reports %s, not the given message", e.A[0])
				}
			}
		})
	})
	register("base.GroupingTransform", append([]string{"C08", "C19", "C20"}, transProps...), func(u *U) {
		fn := u.fn(basePkg, "GroupingTransform")
		class := u.class(basePkg, "Group")
		u.run("base.GroupingTransform", fn.Pos(), func() {
			u.transDriver()
			t := u.transIn(false)
			for _, o := range u.transform(u.plainTrans(fn), t, t.St) {
				l, st := u.L, o.St
				if !u.need(o.ErrNil, "C17", "unexpected error", st, "GroupingTransform reports an error") {
					continue
				}
				if !u.need(same(st, ai.SeqLen(o.List), ai.Int(1)), "C17", "one group", st, "GroupingTransform returns %s entries", ai.SeqLen(o.List)) {
					continue
				}
				g := u.E.AtSeq(st, o.List, ai.Int(0), l.Ast)[0].Val
				u.need(same(st, l.a(g, "ClassName"), ai.Str(class)), "C20", "class name of the group", st, "a group is labelled %s", l.a(g, "ClassName"))
				u.need(same(st, l.a(g, "Type"), ai.Int(l.AstT["ListOfAst"])), "C19", "type tag of the group", st, "a group has the type tag %s", l.a(g, "Type"))
				u.need(same(st, l.a(g, "OpCode"), ai.Int(0)), "C17", "opcode of the group", st, "a group has the opcode %s", l.a(g, "OpCode"))
				v := st.Find(l.a(g, "Value"))
				if !u.need(v.Op == "iface" && ai.TypeStr(v.Typ) == ai.TypeStr(l.AstSlice), "C17", "value of the group", st, "the value of a group is %s", v) {
					continue
				}
				for _, p := range []string{"C17", "C08"} {
					u.need(same(st, st.Content(v.A[0]), t.A), p, "content of the group", st, "a group holds %s, not %s", st.Content(v.A[0]), t.A)
				}
				if w := st.ResolveSlice(v.A[0]); w.Op == "slice" && !holds(st, ai.Le(t.N, ai.Int(0))) {
					u.need(st.Obj(int(w.I)).Fam != st.Obj(int(t.Asts.I)).Fam, "C08", "group shares storage", st, "the list of a group shares its storage with the AST stack, which the combinator overwrites with the group itself")
				}
			}
		})
	})
	register("base.ToSlice", append([]string{"C19"}, transProps...), func(u *U) { u.toSlice() })
	args := func(u *U, names ...string) func(st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) {
		return func(st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) {
			var a []*ai.T
			for i, p := range fn.Params {
				a = append(a, ai.Sym("arg:"+names[i], ai.SortOf(p.Type()), p.Type()))
			}
			return u.ctor1(st, fn, a...)
		}
	}
	// setters change the listed fields of the first entry
	setter := func(name string, fields ...string) {
		props := transProps
		if name == "SetValue" {
			props = append([]string{"C19"}, transProps...)
		}
		register("base."+name, props, func(u *U) {
			var also []func(t *tin, o tout)
			if name == "SetValue" {
				also = append(also, func(t *tin, o tout) { u.tagStaysWithValue(name, t, o, "arg:Type", "arg:Value") })
			}
			u.simpleTrans(name, args(u, fields...), func(t *tin, st *ai.State) []*ai.T {
				if holds(st, ai.Eq(t.N, ai.Int(0))) {
					return nil
				}
				fn := u.fn(basePkg, name)
				x := t.at(u, ai.Int(0))
				for i, f := range fields {
					p := fn.Params[i]
					x = u.L.aw(x, f, ai.Sym("arg:"+f, ai.SortOf(p.Type()), p.Type()))
				}
				return append([]*ai.T{ai.Elem(x)}, t.rest(st, ai.Int(1)).A...)
			}, also...)
		})
	}
	setter("SetOpCodeAndClassName", "OpCode", "ClassName")
	setter("SetOpCode", "OpCode")
	setter("ChangeClassName", "ClassName")
	setter("SetValue", "Type", "Value")
	ext := func(name string, front bool) {
		register("base."+name, transProps, func(u *U) {
			u.simpleTrans(name, args(u, "ast"), func(t *tin, st *ai.State) []*ai.T {
				fn := u.fn(basePkg, name)
				x := ai.Sym("arg:ast", ai.SortOf(fn.Params[0].Type()), fn.Params[0].Type())
				if !holds(st, ai.Eq(t.N, ai.Int(0))) {
					i := ai.Int(0)
					if !front {
						i = ai.AddK(t.N, -1)
					}
					x = u.L.aw(x, "SourcePosition", u.L.a(t.at(u, i), "SourcePosition"))
				}
				if front {
					return append([]*ai.T{ai.Elem(x)}, t.A.A...)
				}
				return append(append([]*ai.T{}, t.A.A...), ai.Elem(x))
			})
		})
	}
	ext("Prepend", true)
	ext("Push", false)
	register("base.Pop", transProps, func(u *U) {
		u.simpleTrans("Pop", nil, func(t *tin, st *ai.State) []*ai.T {
			if holds(st, ai.Eq(t.N, ai.Int(0))) {
				return nil
			}
			return st.SubSeq(t.A, ai.Int(0), ai.AddK(t.N, -1)).A
		})
	})
	register("base.Exchange", transProps, func(u *U) {
		u.simpleTrans("Exchange", nil, func(t *tin, st *ai.State) []*ai.T {
			if holds(st, ai.Le(t.N, ai.Int(1))) {
				return t.A.A
			}
			return append(append([]*ai.T{}, st.SubSeq(t.A, ai.Int(0), ai.AddK(t.N, -2)).A...),
				ai.Elem(t.at(u, ai.AddK(t.N, -1))), ai.Elem(t.at(u, ai.AddK(t.N, -2))))
		})
	})
	register("base.Roll", transProps, func(u *U) { u.roll() })
}

func (u *U) toSlice() {
	fn := u.fn(basePkg, "ToSlice")
	u.run("base.ToSlice", fn.Pos(), func() {
		d := u.transDriver()
		u.sliceLike(d)
		t := u.transIn(true)
		src := t.In.Src
		prev := d.OnInvoke
		d.OnInvoke = func(e *ai.Eng, st *ai.State, m *types.Func, recv *ai.T, args []*ai.T, pos token.Pos) ([]ai.Outcome, bool) {
			if m.Name() == "Make" && !u.need(same(st, recv, src), "C17", "type of the new slice", st, "ToSlice creates its result from %s, not from the source", recv) {
				return nil, true
			}
			return prev(e, st, m, recv, args, pos)
		}
		for _, o := range u.transform(u.plainTrans(fn), t, t.St) {
			if !u.need(o.ErrNil, "C17", "unexpected error", o.St, "ToSlice reports an error") {
				continue
			}
			for _, c := range forkBy(o.St, ai.Eq(t.N, ai.Int(0)), ai.Eq(t.N, ai.Int(1))) {
				l, st := u.L, c.st
				list := st.Content(o.Slice)
				if !u.need(same(st, ai.SeqLen(list), ai.Int(1)), "C17", "one entry", st, "ToSlice returns %s entries", ai.SeqLen(list)) {
					continue
				}
				g := u.E.AtSeq(st, list, ai.Int(0), l.Ast)[0].Val
				u.need(same(st, l.a(g, "Type"), ai.Int(l.AstT["ListOfAny"])), "C19", "type tag of the slice", st, "the slice has the type tag %s", l.a(g, "Type"))
				u.need(same(st, l.a(g, "Type"), ai.Int(l.AstT["ListOfAny"])), "C17", "type tag of the slice", st, "the slice has the type tag %s", l.a(g, "Type"))
				v := st.Find(l.a(g, "Value"))
				made := u.made[v]
				if !u.need(made != nil, "C17", "value of the slice", st, "the value of ToSlice is %s, not a slice made for it", v) {
					continue
				}
				want := ai.NewSeq([]*ai.T{ai.CompSeg(ai.Int(0), t.N, l.a(t.at(u, ai.Kappa), "Value"))})
				if c.v[1] {
					want = ai.NewSeq([]*ai.T{ai.Elem(l.a(t.at(u, ai.Int(0)), "Value"))})
				}
				u.need(same(st, u.slLen(st, v), t.N), "C17", "length of the slice", st, "ToSlice makes a slice of the length %s for %s values", u.slLen(st, v), t.N)
				if !c.v[0] {
					u.need(same(st, st.Content(made), want), "C17", "elements of the slice", st, "ToSlice returns the values %s, not %s", st.Content(made), want)
					for _, f := range []string{"ClassName", "Position", "Length"} {
						u.need(same(st, l.a(g, f), l.a(t.at(u, ai.Int(0)), f)), "C17", "label of the slice", st, "the field %s of the result is %s, not that of the first entry", f, l.a(g, f))
					}
				}
			}
		}
	})
}

// roll: a rotation to the left by n, to the right for a negative n.
func (u *U) roll() {
	fn := u.fn(basePkg, "Roll")
	u.run("base.Roll", fn.Pos(), func() {
		u.transDriver()
		t := u.transIn(false)
		n := ai.Sym("arg:n", ai.SInt, types.Typ[types.Int])
		st, tv := u.ctor1(t.St, fn, n)
		for _, o := range u.transform(tv, t, st) {
			if !u.need(o.ErrNil, "C17", "unexpected error", o.St, "Roll reports an error") {
				continue
			}
			for _, c := range forkBy(o.St, ai.Eq(t.N, ai.Int(0))) {
				o := o
				o.St = c.st
				o.List = o.St.Content(o.Slice)
				if c.v[0] {
					u.wantList(o, "C17", "Roll")
					continue
				}
				r := ai.App("rem", ai.SInt, types.Typ[types.Int], n, t.N)
				o.St.F.Assume(ai.Lt(r, t.N), true)
				o.St.F.Assume(ai.Lt(ai.MulK(t.N, -1), r), true)
				for _, d := range forkBy(o.St, ai.Lt(r, ai.Int(0)), ai.Eq(r, ai.Int(0))) {
					o.St = d.st
					m := r
					if d.v[0] {
						m = ai.Add(r, t.N)
					}
					o.List = o.St.Content(o.Slice)
					a, b := d.st.SubSeq(t.A, m, t.N), d.st.SubSeq(t.A, ai.Int(0), m)
					u.wantList(o, "C17", "Roll", append(append([]*ai.T{}, a.A...), b.A...)...)
				}
			}
		}
	})
}
