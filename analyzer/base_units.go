package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// childResult builds a result of an unknown parser that extends the stack of
// the context it was given.
func (u *U) childResult(st *ai.State, in *In, ctx *ai.T, status int, pos token.Pos) (r, added *ai.T) {
	c := &comb{u: u, in: in}
	r, added, _, _ = c.fresh(st, ctx, status, pos)
	return
}

func (u *U) anErr(st *ai.State) *ai.T {
	err := ai.Fresh("err", ai.SIface, u.L.Err)
	st.F.Assume(ai.Eq(err, ai.Nil(u.L.Err)), false)
	return err
}

// childOutcomes are all results of an unknown parser called with ctx; record
// is told about each of them.
func (u *U) childOutcomes(st *ai.State, in *In, ctx *ai.T, pos token.Pos, record func(st *ai.State, r, err *ai.T)) []ai.Outcome {
	var outs []ai.Outcome
	for k := 0; k < 3; k++ {
		for _, withErr := range []bool{false, true} {
			s := st.Clone()
			s.Note("%s: the unknown part returns status %d, error %v", u.E.PosStr(pos), k, withErr)
			r, _ := u.childResult(s, in, ctx, k, pos)
			err := ai.Nil(u.L.Err)
			if withErr {
				err = u.anErr(s)
			}
			record(s, r, err)
			outs = append(outs, ai.Outcome{Val: ai.Tuple(r, err), St: s})
		}
	}
	return outs
}

// sameCtx compares contexts field by field.
func (u *U) sameCtx(st *ai.State, prop, rule string, got, want *ai.T, fields ...string) {
	l := u.L
	for _, f := range fields {
		g, w := l.c(got, f), l.c(want, f)
		if f == "AstStack" {
			g, w = st.Content(g), st.Content(w)
		}
		u.need(same(st, g, w), prop, rule, st, "the field %s of the context is %s, not %s", f, g, w)
	}
}

var ctxAll = []string{"Str", "Slice", "Position", "Length", "AstStack", "Tag"}

// baseLeaf analyses an elementary parser of package base.
func (u *U) baseLeaf(name string, mk func(st *ai.State, fn *ssa.Function) (*ai.State, *ai.T), check func(in *In, o Out, class string)) {
	fn := u.fn(basePkg, name)
	class := u.class(basePkg, name)
	for _, object := range []bool{false, true} {
		u.run(basePkg+"."+name, fn.Pos(), func() {
			in := u.input(ai.NewState(), object)
			st, p := mk(in.St, fn)
			for _, o := range u.apply(p, in, st) {
				check(in, o, class)
			}
		})
	}
}

var baseLeafProps = []string{"C01", "C02", "C03", "C13", "C15", "C20", "C35"}

func init() {
	register("base.Error", baseLeafProps, func(u *U) {
		u.driver()
		msg := ai.Sym("arg:msg", ai.SStr, u.L.Str)
		u.baseLeaf("Error", func(st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) { return u.ctor1(st, fn, msg) },
			func(in *In, o Out, class string) {
				u.need(o.Status == sError && !o.ErrNil, "C35", "error expected", o.St, "Error returns the status %s and the error %s", u.L.c(o.Ctx, "MatchStatus"), o.Err)
				e := o.St.Find(o.Err)
				if e.Op == "sym" && len(e.A) > 0 {
					u.need(same(o.St, e.A[0], msg), "C35", "message of the error", o.St, "Error reports %s, not the given message", e.A[0])
				}
				u.need(same(o.St, u.L.c(o.Ctx, "Position"), in.P), "C35", "position of the error", o.St, "Error moves to the position %s", u.L.c(o.Ctx, "Position"))
			})
	})
	register("base.Unmatched", baseLeafProps, func(u *U) {
		u.driver()
		u.baseLeaf("Unmatched", u.plain, func(in *In, o Out, class string) {
			if u.need(o.ErrNil && o.Status == sUnmatched, "C35", "must not match", o.St, "Unmatched returns the status %s", u.L.c(o.Ctx, "MatchStatus")) {
				u.leafUnmatched(in, o)
			}
		})
	})
	register("base.Start", baseLeafProps, func(u *U) {
		u.driver()
		u.baseLeaf("Start", u.plain, func(in *In, o Out, class string) {
			if !u.noError(o, "C35") {
				return
			}
			for _, c := range forkBy(o.St, ai.Eq(in.P, ai.Int(0))) {
				o := o
				o.St = c.st
				got := o.Status == sMatched
				if !u.need(got == c.v[0], "C35", "start of the source", o.St, "Start %s although the position is %s", matches(got), map[bool]string{true: "the start of the source", false: "not the start of the source"}[c.v[0]]) {
					continue
				}
				if got {
					u.leafMatched(in, o, class, nil, "C35")
				} else {
					u.leafUnmatched(in, o)
				}
			}
		})
	})
	register("base.Zero", append([]string{"C19"}, baseLeafProps...), func(u *U) {
		u.driver()
		var arg *ai.T
		u.baseLeaf("Zero", func(st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) {
			arg = u.symArg(st, fn, 0, "asts")
			return u.ctor1(st, fn, arg)
		}, func(in *In, o Out, class string) {
			l, st := u.L, o.St
			if !u.noError(o, "C35") || !u.need(o.Status == sMatched, "C35", "must match", st, "Zero does not match") {
				return
			}
			u.need(same(st, l.c(o.Ctx, "ClassName"), ai.Str(class)), "C20", "class name of the result", st, "the matched context is labelled %s, not %q", l.c(o.Ctx, "ClassName"), class)
			u.need(same(st, l.c(o.Ctx, "Position"), in.P), "C35", "zero-width parser moves", st, "Zero moves the position to %s", l.c(o.Ctx, "Position"))
			u.need(same(st, l.c(o.Ctx, "Length"), ai.Int(0)), "C35", "zero-width parser reports a length", st, "Zero reports the length %s", l.c(o.Ctx, "Length"))
			u.envUnchanged(in, o, "C35")
			base := ai.BaseOf(st.Content(arg))
			x := ai.At(base, ai.Kappa, l.Ast)
			x = l.aw(l.aw(x, "Position", in.P), "Length", ai.Int(0))
			want := ai.NewSeq([]*ai.T{in.S0, ai.CompSeg(ai.Int(0), ai.SeqLenBase(base), x)})
			got := st.Content(l.c(o.Ctx, "AstStack"))
			if holds(st, ai.Le(in.SLen, ai.SeqLen(got))) {
				u.need(same(st, st.SubSeq(got, ai.Int(0), in.SLen), in.S0), "C02", "older entries changed", st, "Zero turns the entries already on the AST stack into %s", got)
			}
			u.need(same(st, got, want), "C35", "inserted ASTs", st, "Zero leaves the AST stack as %s, not %s", got, want)
		})
	})
	register("base.If", []string{"C35"}, func(u *U) {
		fn := u.fn(basePkg, "If")
		u.run("base.If", fn.Pos(), func() {
			u.driver()
			for _, c := range []bool{true, false} {
				t, f := ai.Sym("then", ai.SFunc, u.L.ParserFn), ai.Sym("else", ai.SFunc, u.L.ParserFn)
				st, p := u.ctor1(ai.NewState(), fn, ai.Bool(c), t, f)
				want := t
				if !c {
					want = f
				}
				u.need(same(st, p, want), "C35", "chosen parser", st, "If(%v, ...) returns %s", c, p)
			}
		})
	})
	register("base.LightBaseParser", []string{"C01", "C02", "C03", "C15", "C20"}, func(u *U) {
		fn := u.fn(basePkg, "LightBaseParser")
		u.run("base.LightBaseParser", fn.Pos(), func() {
			d := u.driver()
			impl := ai.Sym("impl", ai.SFunc, fn.Params[1].Type())
			class := ai.Sym("className", ai.SStr, u.L.Str)
			var in *In
			d.OnFunc = func(e *ai.Eng, st *ai.State, f *ai.T, args []*ai.T, sig *types.Signature, pos token.Pos) ([]ai.Outcome, bool) {
				if f != impl {
					return nil, false
				}
				if !u.need(!same(st, st.G("called"), ai.True), "C01", "implementation called twice", st, "the implementation function is called a second time") {
					return nil, true
				}
				u.sameCtx(st, "C01", "context given to the implementation", args[0], in.Ctx, ctxAll...)
				return u.childOutcomes(st, in, args[0], pos, func(s *ai.State, r, err *ai.T) {
					s.SetG("called", ai.True)
					s.SetG("res", r)
					s.SetG("err", err)
				}), true
			}
			in = u.input(ai.NewState(), false)
			in.St.SetG("called", ai.False)
			st, p := u.ctor1(in.St, fn, class, impl)
			for _, o := range u.apply(p, in, st) {
				st := o.St
				if !u.need(same(st, st.G("called"), ai.True), "C01", "implementation not called", st, "the implementation function is not called") {
					continue
				}
				r, err := st.G("res"), st.G("err")
				u.need(same(st, o.Err, err), "C03", "error replaced", st, "the error becomes %s instead of %s", o.Err, err)
				want := u.L.c(r, "MatchStatus")
				if !same(st, err, ai.Nil(u.L.Err)) {
					want = status(sError)
				}
				u.need(same(st, u.L.c(o.Ctx, "MatchStatus"), want), "C03", "status of the result", st, "the status becomes %s instead of %s", u.L.c(o.Ctx, "MatchStatus"), want)
				u.sameCtx(st, "C01", "result of the implementation changed", o.Ctx, r, ctxAll...)
				u.need(same(st, u.L.c(o.Ctx, "ClassName"), class), "C20", "class name of the result", st, "the result is labelled %s, not with the given class name", u.L.c(o.Ctx, "ClassName"))
				if o.Status == sMatched {
					u.need(same(st, u.L.c(o.Ctx, "Quantity"), ai.Int(1)), "C01", "quantity of a match", st, "the quantity of a match is %s", u.L.c(o.Ctx, "Quantity"))
				}
			}
		})
	})
	register("base.Indirect", []string{"C01", "C02", "C03", "C13", "C15", "C33"}, func(u *U) {
		u.panicTo = []string{"C13", "C33"}
		u.indirect(false)
		u.indirect(true)
		u.panicTo = nil
	})
}

// indirect: the constructor function runs on first use only, and every use
// is a use of the constructed parser.
func (u *U) indirect(traced bool) {
	fn, entry := u.fn(basePkg, "Indirect"), "base.Indirect"
	if traced {
		entry = "base.Indirect (traced)"
	}
	u.run(entry, fn.Pos(), func() {
		d := u.driver()
		ctorFn := ai.Sym("constructor", ai.SFunc, fn.Params[0].Type())
		built := ai.Sym("built", ai.SFunc, u.L.ParserFn)
		var in *In
		var others []*ai.State
		snapping := false
		snap := func(st *ai.State) {
			if !snapping || len(others) >= 200 {
				return
			}
			s := st.Clone()
			s.SetG("blocked", ai.Bool(holds(st, ai.Lt(ai.Int(0), st.G("sync")))))
			s.SetG("sync", ai.Int(0))
			s.SetG("synced", ai.False)
			s.SetG("called", ai.False)
			others = append(others, s)
		}
		stores := d.OnStoreCell
		d.OnStoreCell = func(e *ai.Eng, st *ai.State, id int, o *ai.Obj, v *ai.T, pos token.Pos) {
			stores(e, st, id, o, v, pos)
			if id <= u.mark && !u.ctorTime {
				snap(st)
			}
		}
		var p *ai.T
		// Before an operation on a lock, a Once or an atomic variable that
		// the first use does without holding a lock, a whole other use may
		// happen.
		d.OnSync = func(e *ai.Eng, st *ai.State, pos token.Pos) []*ai.State {
			if !snapping || holds(st, ai.Lt(ai.Int(0), st.G("sync"))) {
				return []*ai.State{st}
			}
			snapping = false
			defer func() { snapping = true }()
			s := st.Clone()
			keep := []string{"called", "res", "err", "synced"}
			s.SetG("called", ai.False)
			r := []*ai.State{st}
			for _, o := range u.apply(p, in, s) {
				if !u.need(same(o.St, o.St.G("called"), ai.True), "C33", "constructed parser not used", o.St, "a use that happens in the middle of the first use does not call the constructed parser") {
					continue
				}
				for _, k := range keep {
					o.St.SetG(k, st.G(k))
				}
				r = append(r, o.St)
			}
			return r
		}
		d.OnFunc = func(e *ai.Eng, st *ai.State, f *ai.T, args []*ai.T, sig *types.Signature, pos token.Pos) ([]ai.Outcome, bool) {
			switch {
			case f == ctorFn:
				if !u.need(!u.ctorTime, "C33", "constructed too early", st, "the constructor function is called before the first use") {
					return nil, true
				}
				u.need(holds(st, ai.Lt(ai.Int(0), st.G("sync"))), "C33", "unsynchronised construction", st, "the constructor function is called without synchronisation, so concurrent first uses may construct the parser twice")
				if !u.need(same(st, st.G("ctors"), ai.Int(0)), "C33", "constructed twice", st, "the constructor function is called again") {
					return nil, true
				}
				st.SetG("ctors", ai.AddK(st.G("ctors"), 1))
				snap(st)
				return []ai.Outcome{{Val: built, St: st}}, true
			case same(st, f, built):
				if !u.need(same(st, st.G("called"), ai.False), "C33", "parser called twice", st, "the constructed parser is called twice in one use") {
					return nil, true
				}
				u.sameCtx(st, "C33", "context given to the constructed parser", args[0], in.Ctx, ctxAll...)
				return u.childOutcomes(st, in, args[0], pos, func(s *ai.State, r, err *ai.T) {
					s.SetG("called", ai.True)
					s.SetG("res", r)
					s.SetG("err", err)
				}), true
			}
			return nil, false
		}
		in = u.input(ai.NewState(), false)
		in.St.F.Assume(ai.Eq(built, ai.Nil(u.L.ParserFn)), false)
		in.St.F.Assume(ai.Eq(ctorFn, ai.Nil(fn.Params[0].Type())), false)
		in.St.SetG("ctors", ai.Int(0))
		st := in.St
		if traced {
			dt := u.fn(basePkg, "DebugTrace")
			t := ai.Sym("tracer", ai.SIface, dt.Params[1].Type())
			st.F.Assume(ai.Eq(t, ai.Nil(dt.Params[1].Type())), false)
			st, _ = u.ctor1(st, dt, ai.Sym("scope", ai.SStr, u.L.Str), t)
			d.OnInvoke = func(e *ai.Eng, st *ai.State, m *types.Func, recv *ai.T, args []*ai.T, pos token.Pos) ([]ai.Outcome, bool) {
				return []ai.Outcome{{St: st}}, same(st, recv, t)
			}
		}
		st, p = u.ctor1(st, fn, ctorFn)
		cur := []*ai.State{st}
		for use := 0; use < 2; use++ {
			var next []*ai.State
			for _, st := range cur {
				st.SetG("called", ai.False)
				st.SetG("synced", ai.False)
				snapping = use == 0
				outs := u.apply(p, in, st)
				snapping = false
				for _, o := range outs {
					s := o.St
					if !u.need(same(s, s.G("called"), ai.True), "C33", "constructed parser not used", s, "the constructed parser is not called") {
						continue
					}
					r, err := s.G("res"), s.G("err")
					u.need(same(s, o.Err, err), "C03", "error replaced", s, "the error becomes %s instead of %s", o.Err, err)
					u.need(same(s, o.Err, err), "C33", "error replaced", s, "the error becomes %s instead of %s", o.Err, err)
					want := u.L.c(r, "MatchStatus")
					if !same(s, err, ai.Nil(u.L.Err)) {
						want = status(sError)
					}
					u.need(same(s, u.L.c(o.Ctx, "MatchStatus"), want), "C33", "status changed", s, "the status becomes %s instead of %s", u.L.c(o.Ctx, "MatchStatus"), want)
					u.sameCtx(s, "C33", "result of the constructed parser changed", o.Ctx, r, ctxAll...)
					next = append(next, s)
				}
			}
			cur = next
		}
		// Another use that begins while the first one is at any of its stores
		// or in the constructor function, and that waits for the lock or the
		// Once that the first one holds: it must end up waiting or with a call
		// of the constructed parser.
		for _, st := range others {
			for _, o := range u.apply(p, in, st) {
				u.need(same(o.St, o.St.G("called"), ai.True), "C33", "constructed parser not used", o.St, "a use that begins while the first use is constructing the parser returns without calling the constructed parser")
			}
		}
	})
}
