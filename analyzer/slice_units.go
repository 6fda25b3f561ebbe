package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// astSliceMethod analyses a method of AstSlice on an arbitrary list.
func (u *U) astSliceMethod(name string, check func(fn *ssa.Function)) {
	fn := u.method("AstSlice", name)
	u.panicTo = []string{"C27"}
	u.run("base.AstSlice."+name, fn.Pos(), func() { check(fn) })
	u.panicTo = nil
}

type listIn struct {
	st   *ai.State
	v    *ai.T // the slice
	q    *ai.T // its content
	n    *ai.T // its length
	base *ai.T
}

func (u *U) listIn() *listIn {
	d := u.driver()
	d.OnWrite, d.OnStoreCell, d.OnLoadCell = nil, nil, nil
	d.TypeAxiom = u.tagAxiom
	x := &listIn{st: ai.NewState()}
	x.v = x.st.SymSlice("list", u.L.Ast, u.L.AstSlice)
	x.q = x.st.Content(x.v)
	x.base = ai.BaseOf(x.q)
	x.n = ai.SeqLen(x.q)
	x.st.F.Assume(ai.Le(ai.Int(0), x.n), true)
	return x
}

func (u *U) results(prop, name string, outs []ai.Outcome) []ai.Outcome {
	var r []ai.Outcome
	for _, o := range outs {
		u.Outcomes++
		if u.need(o.Panic == nil, prop, "panic", o.St, "%s panics with %s", name, o.Panic) {
			r = append(r, o)
		}
	}
	return r
}

// asList unpacks a slice-like value that is an AST list.
func (u *U) asList(st *ai.State, v *ai.T) *ai.T {
	v = st.Find(v)
	if v.Op == "iface" && ai.TypeStr(v.Typ) == ai.TypeStr(u.L.AstSlice) {
		v = st.ResolveSlice(v.A[0])
		if v.Op == "slice" || v.Op == "nil" {
			return v
		}
	}
	return nil
}

func (u *U) unchanged(st *ai.State, x *listIn, name string) {
	u.need(same(st, st.Content(x.v), x.q), "C27", "list changed", st, "%s changes the list to %s", name, st.Content(x.v))
}

func init() {
	register("base.AstSlice", []string{"C27"}, func(u *U) {
		l := u.L
		num := func(st *ai.State, n string) *ai.T { return ai.Sym("arg:"+n, ai.SInt, types.Typ[types.Int]) }
		u.astSliceMethod("Len", func(fn *ssa.Function) {
			x := u.listIn()
			for _, o := range u.results("C27", "Len", u.E.CallFn(fn, []*ai.T{x.v}, x.st, token.NoPos)) {
				u.need(same(o.St, o.Val, x.n), "C27", "length", o.St, "Len returns %s, not %s", o.Val, x.n)
				u.unchanged(o.St, x, "Len")
			}
		})
		u.astSliceMethod("Get", func(fn *ssa.Function) {
			x := u.listIn()
			i := num(x.st, "i")
			x.st.F.Assume(ai.Le(ai.Int(0), i), true)
			x.st.F.Assume(ai.Lt(i, x.n), true)
			for _, o := range u.results("C27", "Get", u.E.CallFn(fn, []*ai.T{x.v, i}, x.st, token.NoPos)) {
				v := o.St.Find(o.Val)
				u.need(v.Op == "iface" && same(o.St, v.A[0], ai.At(x.base, i, l.Ast)), "C27", "element", o.St, "Get(i) returns %s, not element i", v)
				u.unchanged(o.St, x, "Get")
			}
		})
		u.astSliceMethod("Set", func(fn *ssa.Function) {
			x := u.listIn()
			i := num(x.st, "i")
			x.st.F.Assume(ai.Le(ai.Int(0), i), true)
			x.st.F.Assume(ai.Lt(i, x.n), true)
			a := ai.Sym("arg:v", ai.SortOf(l.Ast), l.Ast)
			for _, o := range u.results("C27", "Set", u.E.CallFn(fn, []*ai.T{x.v, i, ai.Iface(l.Ast, a)}, x.st, token.NoPos)) {
				k := ai.Sym("K", ai.SInt, nil)
				o.St.F.Assume(ai.Le(ai.Int(0), k), true)
				o.St.F.Assume(ai.Lt(k, x.n), true)
				q := o.St.Content(x.v)
				u.need(same(o.St, ai.SeqLen(q), x.n), "C27", "update", o.St, "Set changes the length to %s", ai.SeqLen(q))
				for _, c := range forkBy(o.St, ai.Eq(k, i)) {
					want := ai.At(x.base, k, l.Ast)
					if c.v[0] {
						want = a
					}
					for _, g := range u.E.AtSeq(c.st, q, k, l.Ast) {
						u.need(same(g.St, g.Val, want), "C27", "update", g.St, "after Set(i, v) the element %s is %s, not %s", k, g.Val, want)
					}
				}
			}
		})
		bounds := func(x *listIn) (a, b *ai.T) {
			a, b = num(x.st, "start"), num(x.st, "end")
			x.st.F.Assume(ai.Le(ai.Int(0), a), true)
			x.st.F.Assume(ai.Le(a, b), true)
			x.st.F.Assume(ai.Le(b, x.n), true)
			return
		}
		for _, shares := range []bool{true, false} {
			name := "Copy"
			if shares {
				name = "Reslice"
			}
			shares := shares
			u.astSliceMethod(name, func(fn *ssa.Function) {
				x := u.listIn()
				a, b := bounds(x)
				for _, o := range u.results("C27", name, u.E.CallFn(fn, []*ai.T{x.v, a, b}, x.st, token.NoPos)) {
					r := u.asList(o.St, o.Val)
					if !u.need(r != nil, "C27", "type of the part", o.St, "%s returns %s, not a list of ASTs", name, o.Val) {
						continue
					}
					u.unchanged(o.St, x, name)
					want := o.St.SubSeq(x.q, a, b)
					for _, c := range forkBy(o.St, ai.Eq(a, b)) {
						got := c.st.Content(r)
						if c.v[0] {
							u.need(same(c.st, ai.SeqLen(got), ai.Int(0)), "C27", "part of the list", c.st, "%s(a, a) returns %s", name, got)
							continue
						}
						u.need(same(c.st, got, want), "C27", "part of the list", c.st, "%s(a, b) returns %s, not %s", name, got, want)
						stored := r.Op == "slice" && r.I == x.v.I
						if shares {
							u.need(stored, "C27", "re-slicing copies", c.st, "Reslice returns a list with storage of its own, so updates through it are lost")
						} else {
							u.need(!stored, "C27", "copy shares storage", c.st, "Copy returns a list that shares its storage with the original")
						}
					}
				}
			})
		}
		u.astSliceMethod("Make", func(fn *ssa.Function) {
			x := u.listIn()
			n, c := num(x.st, "len"), num(x.st, "cap")
			x.st.F.Assume(ai.Le(ai.Int(0), n), true)
			x.st.F.Assume(ai.Le(n, c), true)
			for _, o := range u.results("C27", "Make", u.E.CallFn(fn, []*ai.T{x.v, n, c}, x.st, token.NoPos)) {
				r := u.asList(o.St, o.Val)
				if !u.need(r != nil, "C27", "type of a new list", o.St, "Make returns %s, not a list of ASTs", o.Val) {
					continue
				}
				u.unchanged(o.St, x, "Make")
				got := o.St.Content(r)
				if !u.need(same(o.St, ai.SeqLen(got), n), "C27", "length of a new list", o.St, "Make(n, c) returns a list of length %s", ai.SeqLen(got)) {
					continue
				}
				if r.Op == "slice" {
					u.need(r.I != x.v.I, "C27", "new list shares storage", o.St, "Make returns a part of the original list")
					for _, k := range forkBy(o.St, ai.Lt(n, c)) {
						u.need(!decidedFalse(k.st, ai.Le(c, r.A[2])), "C27", "capacity of a new list", k.st, "Make(n, c) returns a list of capacity %s", r.A[2])
					}
				}
				for _, k := range forkBy(o.St, ai.Lt(ai.Int(0), n)) {
					if !k.v[0] {
						continue
					}
					i := ai.Sym("K", ai.SInt, nil)
					k.st.F.Assume(ai.Le(ai.Int(0), i), true)
					k.st.F.Assume(ai.Lt(i, n), true)
					for _, g := range u.E.AtSeq(k.st, got, i, l.Ast) {
						u.need(same(g.St, l.a(g.Val, "Value"), ai.Nil(l.Any)) && same(g.St, l.a(g.Val, "ClassName"), ai.Str("")) && same(g.St, l.a(g.Val, "Type"), ai.Int(l.AstT["Nil"])),
							"C27", "entries of a new list", g.St, "the entries of a new list are %s", g.Val)
					}
				}
			}
		})
		u.itemEquals()
	})
}

// itemEquals: class name, type and value are equal, children recursively.
func (u *U) itemEquals() {
	l := u.L
	rel := func(a, b *ai.T) *ai.T {
		return ai.App("asteq", ai.SBool, types.Typ[types.Bool], a, b)
	}
	// the relation is symmetric: the comparison a path has made counts
	sym := func(st *ai.State, a, b *ai.T) *ai.T {
		if _, ok := decide(st, rel(b, a)); ok {
			return rel(b, a)
		}
		return rel(a, b)
	}
	consT := l.goType("AstCons")
	consN, ok := consT.(*types.Named)
	if !ok {
		panic(missing{"type AstCons"})
	}
	for _, forced := range []bool{false, true} {
		forced := forced
		u.astSliceMethod("ItemEquals", func(fn *ssa.Function) {
			x := u.listIn()
			d := u.E.D
			a, b := ai.Sym("a", ai.SortOf(l.Ast), l.Ast), ai.Sym("b", ai.SortOf(l.Ast), l.Ast)
			d.OnStatic = func(e *ai.Eng, st *ai.State, f *ssa.Function, args []*ai.T, pos token.Pos) ([]ai.Outcome, bool) {
				if f.Pkg == nil || !e.InModule(f.Pkg.Pkg) || len(args) < 2 || f.Signature.Results().Len() != 1 {
					return nil, false
				}
				if t, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || t.Kind() != types.Bool {
					return nil, false
				}
				var p [2]*ai.T
				for i := range p {
					p[i] = st.Find(args[len(args)-2+i])
					if p[i].Op == "iface" && ai.TypeStr(p[i].Typ) == ai.TypeStr(l.Ast) {
						p[i] = p[i].A[0]
					}
					if p[i].Op == "ptr" {
						for _, o := range e.Load(st, p[i], pos) {
							p[i] = o.Val
						}
					}
					if p[i].Typ == nil || ai.TypeStr(p[i].Typ) != ai.TypeStr(l.Ast) || p[i] == a || p[i] == b {
						return nil, false
					}
				}
				// a comparison of children: by induction what this unit shows
				return []ai.Outcome{{Val: rel(p[0], p[1]), St: st}}, true
			}
			va, vb := l.a(a, "Value"), l.a(b, "Value")
			list := ai.Int(l.AstT["ListOfAst"])
			la, lb := x.st.Content(ai.As(va, l.AstSlice)), x.st.Content(ai.As(vb, l.AstSlice))
			ba, bb := ai.BaseOf(la), ai.BaseOf(lb)
			k := ai.Sym("K", ai.SInt, nil)
			if forced {
				d.Watch[ba] = k
				f := x.st.F
				for _, c := range []*ai.T{ai.Le(ai.Int(0), k), ai.Lt(k, ai.SeqLen(la)), ai.Eq(ai.SeqLen(la), ai.SeqLen(lb)),
					ai.Eq(l.a(a, "Type"), list), ai.Eq(l.a(b, "Type"), list), ai.Eq(l.a(a, "ClassName"), l.a(b, "ClassName"))} {
					if !f.Assume(c, true) {
						return
					}
				}
				f.Assume(rel(ai.At(ba, k, l.Ast), ai.At(bb, k, l.Ast)), false)
				f.Assume(rel(ai.At(bb, k, l.Ast), ai.At(ba, k, l.Ast)), false)
				x.st.Note("the elements K differ")
			}
			for _, o := range u.results("C27", "ItemEquals", u.E.CallFn(fn, []*ai.T{x.v, ai.Iface(l.Ast, a), ai.Iface(l.Ast, b)}, x.st, token.NoPos)) {
				u.unchanged(o.St, x, "ItemEquals")
				for _, c := range forkBy(o.St, o.Val) {
					got := c.v[0]
					if forced {
						u.need(!got, "C27", "equality of lists", c.st, "two lists are equal although their elements K differ")
						continue
					}
					cons := ai.Int(l.AstT["AstCons"])
					for _, e := range forkBy(c.st, ai.Eq(l.a(a, "ClassName"), l.a(b, "ClassName")), ai.Eq(l.a(a, "Type"), l.a(b, "Type")),
						ai.Eq(l.a(a, "Type"), cons), ai.Eq(l.a(a, "Type"), list)) {
						switch {
						case !e.v[0]:
							u.need(!got, "C27", "equality", e.st, "two ASTs with different class names are equal")
						case !e.v[1]:
							u.need(!got, "C27", "equality", e.st, "two ASTs with different types are equal")
						case e.v[2]:
							f := func(v *ai.T, n string) *ai.T { return F(ai.As(v, consT), consN, n) }
							for _, g := range forkBy(e.st, sym(e.st, f(va, "Car"), f(vb, "Car")), sym(e.st, f(va, "Cdr"), f(vb, "Cdr"))) {
								u.need(got == (g.v[0] && g.v[1]), "C27", "equality of cons cells", g.st, "two cons cells with %s first and %s second parts are %s", eqs(g.v[0]), eqs(g.v[1]), eqs(got))
							}
						case e.v[3]:
							for _, g := range forkBy(e.st, ai.Eq(ai.SeqLen(la), ai.SeqLen(lb))) {
								if !g.v[0] {
									u.need(!got, "C27", "equality of lists", g.st, "two lists of different lengths are equal")
									continue
								}
								if got {
									continue // the forced run covers this
								}
								wit := false
								for _, y := range g.st.F.Elements(ba) {
									if i := y.A[1]; i != ai.Kappa && holds(g.st, ai.Le(ai.Int(0), i)) && holds(g.st, ai.Lt(i, ai.SeqLen(la))) &&
										decidedFalse(g.st, sym(g.st, y, ai.At(bb, i, l.Ast))) {
										wit = true
									}
								}
								u.need(wit, "C27", "equality of lists", g.st, "two lists of the same length differ although no elements are known to differ")
							}
						default:
							var eq *ai.T = ai.DeepEq(va, vb)
							for _, n := range []string{"String", "Rune", "Int", "Uint", "Bool"} {
								if holds(e.st, ai.Eq(l.a(a, "Type"), ai.Int(l.AstT[n]))) {
									t := l.goType(n)
									simple := ai.Eq(ai.As(va, t), ai.As(vb, t))
									if v, ok := decide(e.st, simple); ok {
										eq = ai.Bool(v)
									}
								}
							}
							for _, g := range forkBy(e.st, eq) {
								u.need(got == g.v[0], "C27", "equality of values", g.st, "two ASTs with %s values are %s", eqs(g.v[0]), eqs(got))
							}
						}
					}
				}
			}
		})
	}
}

func eqs(b bool) string {
	if b {
		return "equal"
	}
	return "different"
}
