package main

import (
	"fmt"
	"go/token"
	"go/types"

	"verif/analyzer/ai"
)

// tracing analyses a small program that constructs parsers under debug
// traces:
//
//	A := DebugTrace(s1, t1); B := DebugTrace(s2, t2)
//	p := LightBaseParser(c, impl); q := B(p); r := LightBaseParser(c, impl)
//	a := A(r, q); plain := LightBaseParser(c, impl)
//
// p reports to t2 with the scope /s1/s2, r to t1 with /s1, plain to nobody,
// and all of them return the same.
func (u *U) tracing() {
	l := u.L
	dt := u.fn(basePkg, "DebugTrace")
	light := u.fn(basePkg, "LightBaseParser")
	base := u.fn(basePkg, "BaseParser")
	u.panicTo = []string{"C28"}
	defer func() { u.panicTo = nil }()
	tracerT := u.W.Named(basePkg, "ParserTracer")
	if tracerT == nil {
		panic(missing{"type ParserTracer"})
	}
	u.run("base.DebugTrace", dt.Pos(), func() {
		d := u.driver()
		d.OnStoreCell, d.OnLoadCell, d.OnWrite = nil, nil, nil
		impl := ai.Sym("impl", ai.SFunc, light.Params[1].Type())
		class := ai.Sym("className", ai.SStr, l.Str)
		var t, s [2]*ai.T
		for i := range t {
			t[i] = ai.Sym(fmt.Sprintf("tracer%d", i+1), ai.SIface, tracerT)
			s[i] = ai.Sym(fmt.Sprintf("scope%d", i+1), ai.SStr, l.Str)
		}
		d.OnFunc = func(e *ai.Eng, st *ai.State, f *ai.T, args []*ai.T, sig *types.Signature, pos token.Pos) ([]ai.Outcome, bool) {
			if !same(st, f, impl) {
				return nil, false
			}
			record(st, "run", args[0])
			args[0] = l.cw(args[0], "ClassName", ai.Str("")) // what it is told of its caller's name is not specified
			rc := ai.App("impl.ctx", ai.SortOf(l.Ctx), l.Ctx, args[0])
			re := ai.App("impl.err", ai.SIface, l.Err, args[0])
			fails := ai.App("impl.panics", ai.SBool, types.Typ[types.Bool], args[0])
			y, n := ai.Fork(st, fails)
			var r []ai.Outcome
			if y != nil {
				y.Note("the implementation panics")
				v := ai.App("impl.panic", ai.SIface, l.Any, args[0])
				y.F.Assume(ai.Eq(v, ai.Nil(l.Any)), false)
				r = append(r, ai.Outcome{Panic: v, St: y})
			}
			if n != nil {
				r = append(r, ai.Outcome{Val: ai.Tuple(rc, re), St: n})
			}
			return r, true
		}
		d.OnInvoke = func(e *ai.Eng, st *ai.State, m *types.Func, recv *ai.T, args []*ai.T, pos token.Pos) ([]ai.Outcome, bool) {
			for i := range t {
				if !same(st, recv, t[i]) {
					continue
				}
				a := append([]*ai.T{t[i]}, args...)
				for k := range a {
					if a[k].Op == "ptr" {
						for _, o := range e.Load(st, a[k], pos) {
							a[k] = o.Val
						}
					}
				}
				record(st, m.Name(), a...)
				return []ai.Outcome{{St: st}}, true
			}
			return nil, false
		}
		st := ai.NewState()
		in := u.input(st, false)
		for i := range t {
			st.F.Assume(ai.Eq(t[i], ai.Nil(tracerT)), false)
		}
		st.F.Assume(ai.Eq(impl, ai.Nil(light.Params[1].Type())), false)
		call1 := func(st *ai.State, f *ai.T, args ...*ai.T) (*ai.State, *ai.T) {
			outs := u.E.CallValue(f, args, nil, st, token.NoPos)
			o := u.pick(outs, "of a tracer")
			return o.St, o.Val
		}
		list := func(st *ai.State, v ...*ai.T) *ai.T {
			var g []*ai.T
			for _, x := range v {
				g = append(g, ai.Elem(x))
			}
			return st.NewSlice(ai.NewSeq(g), l.ParserFn, "children", true, types.NewSlice(l.ParserFn))
		}
		untraced, seq := (*ai.T)(nil), (*ai.T)(nil)
		mk := func(st *ai.State) (*ai.State, *ai.T) { return u.ctor1(st, light, class, impl) }
		mkSeq := func(st *ai.State, k ...*ai.T) (*ai.State, *ai.T) {
			return u.ctor1(st, base, class, ai.Nil(base.Params[1].Type()), ai.Nil(base.Params[2].Type()), list(st, k...), ai.Nil(base.Params[4].Type()))
		}
		st, untraced = mk(st)
		st, seq = mkSeq(st, untraced)
		var a, b, p, p2, p3, q, r, top, plain *ai.T
		st, a = u.ctor1(st, dt, s[0], t[0])
		st, b = u.ctor1(st, dt, s[1], t[1])
		st, p = mk(st)
		st, p2 = mkSeq(st, untraced)
		st, p3 = mk(st)
		st, q = call1(st, b, list(st, p))
		st, r = mk(st)
		st, top = call1(st, a, list(st, r, q))
		st, plain = mk(st)

		// event of a history
		type want struct {
			who   int // tracer
			scope *ai.T
		}
		none := want{who: -1}
		scope := func(i ...int) *ai.T {
			var x []*ai.T
			for _, k := range i {
				x = append(x, ai.Str("/"), s[k])
			}
			return ai.Concat(x...)
		}
		numbers := map[string]*ai.T{}
		check := func(what string, p, ref *ai.T, w want) {
			s0 := st.Clone()
			for _, o := range u.E.CallValue(p, []*ai.T{in.Ctx}, nil, s0, token.NoPos) {
				u.Outcomes++
				h := history(o.St)
				// the same without a trace
				o.St.SetG("history", ai.NewSeq(nil))
				for _, o2 := range u.E.CallValue(ref, []*ai.T{in.Ctx}, nil, o.St.Clone(), token.NoPos) {
					s2 := o2.St
					if !u.need((o.Panic == nil) == (o2.Panic == nil), "C28", "panic swallowed", s2, "%s ends differently under a trace when its implementation panics", what) {
						continue
					}
					if o.Panic != nil {
						u.need(same(s2, o.Panic, o2.Panic), "C28", "panic passed on", s2, "%s panics with %s under a trace, not with %s", what, o.Panic, o2.Panic)
					} else {
						u.need(sameResult(s2, o.Val, o2.Val), "C28", "result of a traced parser", s2, "%s returns %s under a trace, not %s", what, o.Val, o2.Val)
					}
					// the events
					runs := 0
					for _, e := range h {
						if e.A[0].S == "run" {
							runs++
						}
					}
					u.need(runs == len(history(s2)), "C28", "runs of a traced parser", s2, "%s runs its implementation %d times under a trace", what, runs)
					if w.who < 0 {
						u.need(runs == len(h), "C28", "tracing after the traced constructor", s2, "%s reports to a tracer although it is not traced: %s", what, histStr2(h))
						continue
					}
					end := "After"
					if o.Panic != nil {
						end = "Panic"
					}
					if !u.need(len(h) == runs+2 && len(h) >= 2 && h[0].A[0].S == "Before" && h[len(h)-1].A[0].S == end, "C28", "events of a traced run", s2, "%s reports %s", what, histStr2(h)) {
						continue
					}
					for k, e := range []*ai.T{h[0].A[0], h[len(h)-1].A[0]} {
						if !u.need(len(e.A) >= 5, "C28", "event", s2, "an event with %d values", len(e.A)) {
							continue
						}
						u.need(e.A[0] == t[w.who], "C28", "tracer told", s2, "%s reports to another tracer", what)
						u.need(same(s2, e.A[1], w.scope), "C28", "scope of an event", s2, "%s reports the scope %s, not %s", what, e.A[1], w.scope)
						u.need(same(s2, e.A[3], class), "C28", "class name of an event", s2, "%s reports the class name %s", what, e.A[3])
						if n := numbers[what]; n == nil {
							numbers[what] = e.A[2]
						} else {
							u.need(same(s2, n, e.A[2]), "C28", "number of a parser", s2, "%s reports the tracking numbers %s and %s", what, n, e.A[2])
						}
						switch {
						case k == 0:
							u.need(sameResult(s2, e.A[4], in.Ctx), "C28", "context before", s2, "%s reports the context %s before the run", what, e.A[4])
						case o.Panic == nil:
							u.need(sameResult(s2, e.A[4], o.Val.A[0]), "C28", "context after", s2, "%s reports the context %s after the run, not the one it returns", what, e.A[4])
							u.need(len(e.A) >= 6 && same(s2, e.A[5], o.Val.A[1]), "C28", "error after", s2, "%s reports another error after the run than it returns", what)
						default:
							u.need(len(e.A) >= 6 && same(s2, e.A[5], o.Panic), "C28", "panic reported", s2, "%s reports another panic value", what)
							u.need(sameResult(s2, e.A[4], in.Ctx), "C28", "context at a panic", s2, "%s reports the context %s at the panic", what, e.A[4])
						}
					}
				}
			}
		}
		check("an untraced parser", untraced, untraced, none)
		check("a parser in two traces", p, untraced, want{1, scope(0, 1)})
		check("another parser in two traces", p3, untraced, want{1, scope(0, 1)})
		check("a combinator in two traces", p2, seq, want{1, scope(0, 1)})
		check("a parser in the outer trace", r, untraced, want{0, scope(0)})
		check("a parser constructed after the trace", plain, untraced, none)
		for a, x := range numbers {
			for b, y := range numbers {
				if a < b {
					u.need(!same(st, x, y), "C28", "number of a parser", st, "%s and %s have the same tracking number %s", a, b, x)
				}
			}
		}
		// the traced constructor itself: its children in order, as a sequence
		st2 := st.Clone()
		st2, ref := u.ctor1(st2, u.fn(basePkg, "FlatGroup"), list(st2, untraced))
		st2, f1 := u.ctor1(st2, dt, s[0], t[0])
		st2, one := call1(st2, f1, list(st2, untraced))
		for _, o := range u.E.CallValue(one, []*ai.T{in.Ctx}, nil, st2.Clone(), token.NoPos) {
			u.Outcomes++
			for _, o2 := range u.E.CallValue(ref, []*ai.T{in.Ctx}, nil, o.St.Clone(), token.NoPos) {
				if (o.Panic == nil) != (o2.Panic == nil) {
					u.need(false, "C28", "panic swallowed", o2.St, "a traced group ends differently")
					continue
				}
				if o.Panic != nil {
					continue
				}
				// only the class names differ
				x, y := o.Val, o2.Val
				if x.Op == "tuple" && y.Op == "tuple" {
					y = ai.Tuple(l.cw(y.A[0], "ClassName", l.c(x.A[0], "ClassName")), y.A[1])
				}
				u.need(sameResult(o2.St, x, y), "C28", "result of a traced group", o2.St, "a traced group returns %s, not %s", x, y)
			}
		}
		_, _ = top, q
	})
}

// sameResult compares results field by field.
func sameResult(st *ai.State, a, b *ai.T) bool {
	if same(st, a, b) {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if a.Op == "tuple" && b.Op == "tuple" && len(a.A) == len(b.A) {
		for i := range a.A {
			if !sameResult(st, a.A[i], b.A[i]) {
				return false
			}
		}
		return true
	}
	if a.Op == "slice" || b.Op == "slice" {
		if a.Typ != nil && b.Typ != nil {
			return same(st, st.Content(a), st.Content(b))
		}
		return false
	}
	if a.Typ == nil || b.Typ == nil {
		return false
	}
	s, ok := a.Typ.Underlying().(*types.Struct)
	if !ok || ai.TypeStr(a.Typ) != ai.TypeStr(b.Typ) {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if !sameResult(st, ai.Sel(a, i), ai.Sel(b, i)) {
			return false
		}
	}
	return true
}

func histStr2(h []*ai.T) string {
	r := "no event"
	for i, e := range h {
		if i == 0 {
			r = ""
		} else {
			r += ", "
		}
		r += e.A[0].S
	}
	return r
}

func init() {
	register("base.tracing", []string{"C28"}, func(u *U) { u.tracing() })
}
