package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// method finds a method that must exist.
func (u *U) method(typ, name string) *ssa.Function {
	f := u.W.Method(basePkg, typ, name)
	if f == nil {
		panic(missing{"method " + typ + "." + name})
	}
	return f
}

// record adds an effect to the history of a state.
func record(st *ai.State, name string, args ...*ai.T) {
	e := ai.Elem(ai.App(name, ai.SOther, nil, args...))
	h := st.G("history")
	if h == nil {
		h = ai.NewSeq(nil)
	}
	st.SetG("history", ai.NewSeq(append(append([]*ai.T{}, h.A...), e)))
}

func history(st *ai.State) []*ai.T {
	if h := st.G("history"); h != nil {
		return h.A
	}
	return nil
}

// constants lists the string constants of a package.
func (w *World) constants(pkg string) (r [][2]string, pos map[string]token.Pos) {
	pos = map[string]token.Pos{}
	p := w.SSA[w.Module+"/"+pkg]
	if p == nil {
		panic(missing{"package " + pkg})
	}
	for n, m := range p.Members {
		if c, ok := m.(*ssa.NamedConst); ok && c.Value.Value != nil && c.Value.Value.Kind() == constant.String {
			r = append(r, [2]string{n, constant.StringVal(c.Value.Value)})
			pos[n] = c.Pos()
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i][0] < r[j][0] })
	return r, pos
}

// named checks the text of every value of an enumeration.
func (u *U) named(typ string, names []string, prefix string) {
	fn := u.method(typ, "String")
	u.run("base."+typ+".String", fn.Pos(), func() {
		u.driver()
		st := ai.NewState()
		t := u.W.Named(basePkg, typ)
		x := ai.Sym("value", ai.SInt, t)
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			st.F.Assume(ai.Le(ai.Int(0), x), true)
		}
		for _, o := range u.E.CallFn(fn, []*ai.T{x}, st, token.NoPos) {
			u.Outcomes++
			if o.Panic != nil {
				u.panics(o)
				continue
			}
			rest := o.St
			for _, n := range names {
				k, ok := u.W.Const(basePkg, prefix+n)
				if !ok {
					panic(missing{prefix + n})
				}
				if rest == nil {
					break
				}
				var y *ai.State
				y, rest = ai.Fork(rest, ai.Eq(x, ai.Int(k)))
				if y != nil {
					u.need(same(y, o.Val, ai.Str(n)), "C32", "name of "+prefix+n, y, "the value %s%s is printed as %s", prefix, n, o.Val)
				}
			}
			if rest != nil {
				u.need(same(rest, o.Val, ai.Str("Unknown")), "C32", "name of other values", rest, "a value without a name is printed as %s", o.Val)
			}
		}
	})
}

// newContext checks a context constructor.
func (u *U) newContext(pkg, name, field string, tag bool) {
	fn := u.fn(pkg, name)
	u.run(pkg+"."+name, fn.Pos(), func() {
		u.driver()
		l := u.L
		st := ai.NewState()
		src := ai.Sym("arg:source", ai.SStr, l.Str)
		if field == "Slice" {
			src = ai.Sym("arg:source", ai.SIface, l.SliceLike)
		}
		args := []*ai.T{src}
		tv := ai.Nil(l.Any)
		if tag {
			tv = ai.Sym("arg:tag", ai.SIface, l.Any)
			args = append(args, tv)
		}
		mark := ai.ObjMark()
		for _, o := range u.E.CallFn(fn, args, st, token.NoPos) {
			u.Outcomes++
			if o.Panic != nil {
				u.panics(o)
				continue
			}
			if !u.need(o.Val != nil && o.Val.Op == "ptr", "C34", "no context", o.St, "%s returns %s", name, o.Val) {
				continue
			}
			for _, c := range u.E.Load(o.St, o.Val, token.NoPos) {
				st, ctx := c.St, c.Val
				u.need(same(st, l.c(ctx, field), src), "C34", "source of a new context", st, "%s holds the source %s, not the given one", name, l.c(ctx, field))
				other := "Str"
				if field == "Str" {
					other = "Slice"
					u.need(same(st, l.c(ctx, other), ai.Nil(l.SliceLike)), "C34", "source of a new context", st, "%s sets a slice source too", name)
				} else {
					u.need(same(st, l.c(ctx, other), ai.Str("")), "C34", "source of a new context", st, "%s sets a text source too", name)
				}
				for _, f := range []string{"Position", "Length", "Quantity"} {
					u.need(same(st, l.c(ctx, f), ai.Int(0)), "C34", f+" of a new context", st, "%s starts with %s = %s", name, f, l.c(ctx, f))
				}
				u.need(same(st, l.c(ctx, "MatchStatus"), status(sMatched)), "C34", "status of a new context", st, "%s starts with the match status %s", name, l.c(ctx, "MatchStatus"))
				u.need(same(st, l.c(ctx, "ClassName"), ai.Str("")), "C34", "class name of a new context", st, "%s starts with the class name %s", name, l.c(ctx, "ClassName"))
				u.need(same(st, l.c(ctx, "Tag"), tv), "C34", "tag of a new context", st, "%s carries the tag %s, not %s", name, l.c(ctx, "Tag"), tv)
				n := ai.SeqLen(st.Content(l.c(ctx, "AstStack")))
				u.need(same(st, n, ai.Int(0)), "C34", "stack of a new context", st, "%s starts with %s entries on the stack", name, n)
				if s := st.ResolveSlice(l.c(ctx, "AstStack")); s.Op == "slice" {
					u.need(int(s.I) > mark, "C34", "stack shared", st, "the stacks of all contexts made by %s share their storage", name)
					u.need(int(s.I) > mark, "C15", "stack shared", st, "the stacks of all contexts made by %s share their storage", name)
				}
			}
		}
	})
}

// box is the value of a Box implementation under analysis, with the
// reflect.Value it stands for.
type boxImpl struct {
	typ    string
	ptr    bool   // methods have pointer receivers
	mapped bool   // a map entry
	init   string // name of the flag that tells whether it has been set
}

var boxKinds = []string{"Any", "Int", "Uint", "Float", "Bool", "String", "Bytes"}

func reflectName(f *ssa.Function) (string, bool) {
	s := f.String()
	for _, p := range []string{"(reflect.Value).", "reflect."} {
		if strings.HasPrefix(s, p) {
			return strings.TrimPrefix(s, p), true
		}
	}
	return "", false
}

func (u *U) boxAccess(b boxImpl) {
	named := u.W.Named(basePkg, b.typ)
	if named == nil {
		panic(missing{"type " + b.typ})
	}
	recv := types.Type(named)
	if b.ptr {
		recv = types.NewPointer(named)
	}
	find := func(n string) *ssa.Function {
		f := u.W.Prog.LookupMethod(recv, named.Obj().Pkg(), n)
		if f == nil {
			panic(missing{"method " + b.typ + "." + n})
		}
		return f
	}
	get := map[string]string{"Any": "Interface"}
	setup := func(initialised bool) (*ai.State, *ai.T, *ai.T, *ai.T) {
		d := u.driver()
		d.Obligations = false
		d.OnWrite, d.OnStoreCell = nil, nil
		d.OnStatic = func(e *ai.Eng, st *ai.State, fn *ssa.Function, args []*ai.T, pos token.Pos) ([]ai.Outcome, bool) {
			n, ok := reflectName(fn)
			if !ok || !strings.HasPrefix(n, "Set") {
				return nil, false
			}
			record(st, n, purify(st, args)...)
			return []ai.Outcome{{St: st}}, true
		}
		st := ai.NewState()
		sys := named.Underlying().(*types.Struct)
		f := make([]*ai.T, sys.NumFields())
		for i := range f {
			f[i] = ai.Sym("box."+sys.Field(i).Name(), ai.SortOf(sys.Field(i).Type()), sys.Field(i).Type())
			if sys.Field(i).Name() == b.init {
				f[i] = ai.Bool(initialised)
			}
		}
		v := ai.Struct(named, f)
		r := v
		if b.ptr {
			r = ai.PtrTo(st.NewObj(&ai.Obj{Kind: 'c', Val: v, Label: "box", Typ: named}))
		}
		return st, r, v, nil
	}
	fld := func(v *ai.T, n string) *ai.T { return F(v, named, n) }
	app := func(n string, args ...*ai.T) *ai.T { return ai.App("ext:"+n, ai.SOther, nil, args...) }
	is := func(st *ai.State, x *ai.T, want *ai.T) bool {
		// applications are compared without their Go types
		var eq func(a, b *ai.T) bool
		eq = func(a, b *ai.T) bool {
			if a == b || same(st, a, b) {
				return true
			}
			if a == nil || b == nil || a.Op != b.Op || a.S != b.S || len(a.A) != len(b.A) || a.Op != "app" {
				return false
			}
			for i := range a.A {
				if !eq(a.A[i], b.A[i]) {
					return false
				}
			}
			return true
		}
		return eq(x, want)
	}
	states := []bool{true}
	if b.init != "" {
		states = []bool{true, false}
	}
	for _, k := range boxKinds {
		k := k
		for _, on := range states {
			on := on
			fn := find("Get" + k)
			u.run(fmt.Sprintf("base.%s.Get%s", b.typ, k), fn.Pos(), func() {
				st, r, v, _ := setup(on)
				for _, o := range u.E.CallFn(fn, []*ai.T{r}, st, token.NoPos) {
					u.Outcomes++
					if !on {
						u.need(o.Panic != nil, "C25", "unset box readable", o.St, "Get%s of a %s that was never set returns %s instead of panicking", k, b.typ, o.Val)
						continue
					}
					if !u.need(o.Panic == nil, "C26", "getter panics", o.St, "Get%s of a %s panics", k, b.typ) {
						continue
					}
					var cell *ai.T
					if b.mapped {
						cell = app("(reflect.Value).MapIndex", fld(v, "Container"), fld(v, "Key"))
					} else {
						cell = fld(v, "Val")
					}
					n := get[k]
					if n == "" {
						n = k
					}
					want := app("(reflect.Value)."+n, cell)
					got := o.Val
					if got != nil && got.Op == "slice" {
						got = ai.BaseOf(o.St.Content(got))
					}
					u.need(got != nil && is(o.St, got, want), "C26", "value read", o.St, "Get%s of a %s returns %s", k, b.typ, o.Val)
					u.need(len(history(o.St)) == 0, "C26", "getter writes", o.St, "Get%s of a %s writes %s", k, b.typ, histStr(o.St))
				}
			})
			fs := find("Set" + k)
			pt := fs.Signature.Params().At(0).Type()
			_, list := pt.Underlying().(*types.Slice)
			set := func(null bool) {
				st, r, v, _ := setup(on)
				var x *ai.T
				if null {
					x = ai.Nil(pt)
				} else if list {
					x = st.SymSlice("bytes", pt.Underlying().(*types.Slice).Elem(), pt)
				} else {
					x = ai.Sym("arg:v", ai.SortOf(pt), pt)
				}
				for _, o := range u.E.CallFn(fs, []*ai.T{r, x}, st, token.NoPos) {
					u.Outcomes++
					if !u.need(o.Panic == nil, "C26", "setter panics", o.St, "Set%s of a %s panics", k, b.typ) {
						continue
					}
					px := purify(o.St, []*ai.T{x})[0]
					boxed := app("reflect.ValueOf", iface(px, pt))
					h := history(o.St)
					if b.init != "" {
						u.need(len(h) > 0, "C25", "write dropped", o.St, "Set%s of a %s stores nothing", k, b.typ)
					}
					if !u.need(len(h) == 1, "C26", "value written", o.St, "Set%s of a %s performs %d writes", k, b.typ, len(h)) {
						continue
					}
					w := h[0].A[0]
					ok := false
					switch {
					case b.mapped:
						ok = w.S == "SetMapIndex" && is(o.St, w.A[0], fld(v, "Container")) && is(o.St, w.A[1], fld(v, "Key")) && isBoxed(o.St, w.A[2], boxed, px)
					case w.S == "Set":
						ok = is(o.St, w.A[0], fld(v, "Val")) && isBoxed(o.St, w.A[1], boxed, px)
					default:
						ok = k != "Any" && w.S == "Set"+k && is(o.St, w.A[0], fld(v, "Val")) && is(o.St, w.A[1], px)
					}
					u.need(ok, "C26", "value written", o.St, "Set%s of a %s writes %s", k, b.typ, histStr(o.St))
					if b.init != "" {
						for _, c := range u.E.Load(o.St, r, token.NoPos) {
							u.need(holds(c.St, fld(c.Val, b.init)), "C25", "set box still unset", c.St, "a %s stays unreadable after Set%s", b.typ, k)
							for _, n := range []string{"Container", "Key"} {
								u.need(same(c.St, fld(c.Val, n), fld(v, n)), "C26", "setter redirects the box", c.St, "Set%s of a %s changes its field %s", k, b.typ, n)
							}
						}
					}
				}
			}
			u.run(fmt.Sprintf("base.%s.Set%s", b.typ, k), fs.Pos(), func() { set(false) })
			if list {
				u.run(fmt.Sprintf("base.%s.Set%s", b.typ, k), fs.Pos(), func() { set(true) })
			}
		}
	}
	for _, n := range []string{"Index", "MapIndex", "ComplexMapIndex"} {
		n := n
		if b.mapped && n == "Index" {
			continue
		}
		fn := find(n)
		u.run(fmt.Sprintf("base.%s.%s", b.typ, n), fn.Pos(), func() {
			st, r, v, _ := setup(true)
			pt := fn.Signature.Params().At(0).Type()
			k := ai.Sym("arg:k", ai.SortOf(pt), pt)
			key := app("reflect.ValueOf", iface(k, pt))
			var cell *ai.T
			switch {
			case b.mapped:
				cell = app("(reflect.Value).MapIndex", fld(v, "Container"), key)
			case n == "Index":
				cell = app("(reflect.Value).Index", fld(v, "Val"), k)
			default:
				cell = app("(reflect.Value).MapIndex", fld(v, "Val"), key)
			}
			for _, o := range u.E.CallFn(fn, []*ai.T{r, k}, st, token.NoPos) {
				u.Outcomes++
				if !u.need(o.Panic == nil, "C26", "no box of an element", o.St, "%s of a %s panics", n, b.typ) {
					continue
				}
				u.need(len(history(o.St)) == 0, "C26", "indexing writes", o.St, "%s of a %s writes %s", n, b.typ, histStr(o.St))
				box := o.St.Find(o.Val)
				if box.Op != "iface" || box.Typ == nil {
					u.need(false, "C26", "box of an element", o.St, "%s of a %s returns %s", n, b.typ, o.Val)
					continue
				}
				get := u.W.Prog.LookupMethod(box.Typ, named.Obj().Pkg(), "GetAny")
				set := u.W.Prog.LookupMethod(box.Typ, named.Obj().Pkg(), "SetAny")
				if get == nil || set == nil {
					u.E.GiveUp("the box %s", box)
				}
				for _, g := range u.E.CallFn(get, []*ai.T{box.A[0]}, o.St.Clone(), token.NoPos) {
					if u.need(g.Panic == nil, "C26", "box of an element", g.St, "the box that %s of a %s returns cannot be read", n, b.typ) {
						u.need(is(g.St, g.Val, app("(reflect.Value).Interface", cell)), "C26", "box of an element", g.St, "the box that %s of a %s returns reads %s", n, b.typ, g.Val)
					}
				}
				if !b.mapped && n != "Index" {
					continue // entries of a map cannot be set in place
				}
				x := ai.Sym("arg:v", ai.SIface, u.L.Any)
				for _, g := range u.E.CallFn(set, []*ai.T{box.A[0], x}, o.St.Clone(), token.NoPos) {
					h := history(g.St)
					if !u.need(g.Panic == nil && len(h) == 1, "C26", "box of an element", g.St, "setting the box that %s of a %s returns performs %d writes", n, b.typ, len(h)) {
						continue
					}
					w := h[0].A[0]
					boxed := app("reflect.ValueOf", x)
					ok := false
					if b.mapped {
						ok = w.S == "SetMapIndex" && is(g.St, w.A[0], fld(v, "Container")) && is(g.St, w.A[1], key) && isBoxed(g.St, w.A[2], boxed, x)
					} else {
						ok = w.S == "Set" && is(g.St, w.A[0], cell) && isBoxed(g.St, w.A[1], boxed, x)
					}
					u.need(ok, "C26", "box of an element", g.St, "the box that %s of a %s returns writes %s", n, b.typ, histStr(g.St))
				}
			}
		})
	}
	if b.init == "" {
		return
	}
	for _, n := range []string{"Index", "MapIndex", "ComplexMapIndex"} {
		fn := find(n)
		u.run(fmt.Sprintf("base.%s.%s", b.typ, n), fn.Pos(), func() {
			st, r, _, _ := setup(false)
			pt := fn.Signature.Params().At(0).Type()
			for _, o := range u.E.CallFn(fn, []*ai.T{r, ai.Sym("arg:k", ai.SortOf(pt), pt)}, st, token.NoPos) {
				u.Outcomes++
				u.need(o.Panic != nil, "C25", "unset box readable", o.St, "%s of a %s that was never set returns a box instead of panicking", n, b.typ)
			}
		})
	}
}

// purify replaces slices by their content.
func purify(st *ai.State, args []*ai.T) []*ai.T {
	r := append([]*ai.T(nil), args...)
	for i, a := range r {
		if a != nil && a.Op == "slice" {
			r[i] = st.Content(a)
		}
		if a != nil && a.Op == "iface" && a.A[0].Op == "slice" {
			r[i] = st.Content(a.A[0])
		}
	}
	return r
}

func iface(x *ai.T, t types.Type) *ai.T {
	if x.Sort == ai.SIface || x.Sort == ai.SSeq {
		return x
	}
	return ai.Iface(t, x)
}

// isBoxed accepts reflect.ValueOf of the given value.
func isBoxed(st *ai.State, x, want, plain *ai.T) bool {
	if x == nil || x.Op != "app" || x.S != "ext:reflect.ValueOf" || len(x.A) != 1 {
		return false
	}
	a := x.A[0]
	if a.Op == "iface" && a.A[0].Op == "slice" {
		a = st.Content(a.A[0])
	}
	return same(st, a, want.A[0]) || same(st, a, plain)
}

func histStr(st *ai.State) string {
	var r []string
	for _, h := range history(st) {
		r = append(r, h.A[0].String())
	}
	return strings.Join(r, "; ")
}

func init() {
	register("classes", []string{"C20"}, func(u *U) {
		seen := map[string]string{}
		for _, p := range []string{basePkg, strPkg, objPkg, extraPkg} {
			cs, pos := u.W.constants(p + "/classes")
			for _, c := range cs {
				n := p + "/classes." + c[0]
				u.run(n, pos[c[0]], func() {
					u.need(c[1] != "", "C20", "empty class name", nil, "the class name %s is empty", n)
					u.need(seen[c[1]] == "", "C20", "class name used twice", nil, "the class names %s and %s are both %q", seen[c[1]], n, c[1])
				})
				seen[c[1]] = n
			}
		}
	})
	register("base.names", []string{"C13", "C32"}, func(u *U) {
		u.named("AstType", []string{"Nil", "Rune", "Int", "Uint", "Float", "Bool", "String", "AstCons", "ListOfAst", "ListOfAny", "Function", "Any"}, "AstType_")
		u.named("MatchStatusType", []string{"Matched", "Unmatched", "Error"}, "MatchStatus_")
	})
	register("contexts", []string{"C13", "C15", "C34"}, func(u *U) {
		u.newContext(strPkg, "NewStringParserContext", "Str", false)
		u.newContext(strPkg, "NewStringParserContextWithTag", "Str", true)
		u.newContext(objPkg, "NewObjectParserContext", "Slice", false)
		u.newContext(objPkg, "NewObjectParserContextWithTag", "Slice", true)
	})
	register("base.boxes", []string{"C25", "C26"}, func(u *U) {
		u.boxAccess(boxImpl{typ: "ReflectionBox"})
		u.boxAccess(boxImpl{typ: "MapContainerReflectionBox", mapped: true})
		u.boxAccess(boxImpl{typ: "NotInitializedMapContainerReflectionBox", ptr: true, mapped: true, init: "Initialized"})
	})
}
