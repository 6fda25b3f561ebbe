package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// matchCases: the specification machine of Match.
func (u *U) matchCases() {
	outer := u.fn(basePkg, "Match")
	l := u.L
	caseT := u.W.Named(basePkg, "Case")
	if caseT == nil {
		panic(missing{"type base.Case"})
	}
	for cmp := -1; cmp <= 1; cmp++ { // the stack has fewer, as many or more than n entries
		cmp := cmp
		u.run("base.Match", outer.Pos(), func() {
			d := u.driver()
			d.Peel = true
			d.Part = func(g string) bool { return g == "phase" }
			var in *In
			var base *ai.T
			cur := func(st *ai.State) *ai.T { return ai.At(base, st.G("idx"), caseT) }
			d.OnFunc = func(e *ai.Eng, st *ai.State, f *ai.T, args []*ai.T, sig *types.Signature, pos token.Pos) ([]ai.Outcome, bool) {
				f = st.Find(f)
				switch {
				case len(args) == 1: // a case test
					switch st.G("phase").S {
					case "test":
					case "error":
						u.need(false, "C03", "case tested after an error", st, "a case is tested after a transformer reported an error")
						return nil, true
					default:
						u.need(false, "C22", "case tested after acceptance", st, "a case is tested although an earlier one has accepted")
						return nil, true
					}
					if !u.need(same(st, f, F(cur(st), caseT, "If")), "C22", "order of cases", st, "the case test %s runs where case %s is next", f, st.G("idx")) {
						return nil, true
					}
					got := st.Content(args[0])
					u.need(same(st, got, in.S0), "C22", "ASTs given to a case test", st, "a case test is given the ASTs %s instead of the whole stack", got)
					y, n := st.Clone(), st
					y.Note("%s: the case accepts", e.PosStr(pos))
					y.SetG("phase", ai.Str("let"))
					y.SetG("tidx", ai.Int(0))
					n.SetG("idx", ai.AddK(n.G("idx"), 1))
					return []ai.Outcome{{Val: ai.True, St: y}, {Val: ai.False, St: n}}, true
				case len(args) == 2: // a transformer
					switch st.G("phase").S {
					case "let":
					case "error":
						u.need(false, "C03", "transformer called after an error", st, "a transformer runs after an error")
						return nil, true
					default:
						u.need(false, "C22", "transformer called without an accepting case", st, "a transformer runs although no case has accepted")
						return nil, true
					}
					let := st.Content(F(cur(st), caseT, "Let"))
					want := ai.At(ai.BaseOf(let), st.G("tidx"), l.TransformerFn)
					if !u.need(same(st, f, want), "C22", "order of transformers", st, "the transformer %s runs where transformer %s of the accepting case is next", f, st.G("tidx")) {
						return nil, true
					}
					got := st.Content(args[1])
					if !u.need(same(st, got, st.G("tval")), "C22", "ASTs given to a transformer", st, "a transformer is given the ASTs %s, not %s", got, st.G("tval")) {
						return nil, true
					}
					u.sameCtx(st, "C22", "context given to a transformer", args[0], in.Ctx, "Str", "Slice", "Tag", "Position")
					next := ai.AddK(st.G("tidx"), 1)
					var outs []ai.Outcome
					nilErr := ai.Nil(l.Err)
					{
						s := st.Clone()
						b := ai.Fresh("transformed", ai.SSeq, l.Ast)
						s.F.Assume(ai.Le(ai.Int(0), ai.SeqLenBase(b)), true)
						v := s.NewSlice(ai.SeqOf(b), l.Ast, "transformed", true, l.AstSlice)
						s.SetG("tval", ai.SeqOf(b))
						s.SetG("tidx", next)
						outs = append(outs, ai.Outcome{Val: ai.Tuple(v, nilErr), St: s})
					}
					{
						s := st.Clone()
						s.SetG("tidx", next)
						outs = append(outs, ai.Outcome{Val: ai.Tuple(args[1], nilErr), St: s})
					}
					{
						s := st.Clone()
						s.Note("%s: the transformer returns a nil list", e.PosStr(pos))
						s.SetG("tval", ai.NewSeq(nil))
						s.SetG("tidx", next)
						outs = append(outs, ai.Outcome{Val: ai.Tuple(ai.Nil(l.AstSlice), nilErr), St: s})
					}
					{
						s := st.Clone()
						err := u.anErr(s)
						s.Note("%s: the transformer reports an error", e.PosStr(pos))
						s.SetG("phase", ai.Str("error"))
						s.SetG("err", err)
						outs = append(outs, ai.Outcome{Val: ai.Tuple(args[1], err), St: s})
					}
					return outs, true
				}
				return nil, false
			}
			st := ai.NewState()
			in = u.input(st, false)
			n := ai.Sym("n", ai.SInt, types.Typ[types.Int])
			st.F.Assume(ai.Le(ai.Int(0), n), true)
			sp := ai.Int(0)
			rel := []*ai.T{ai.Lt(in.SLen, n), ai.Eq(in.SLen, n), ai.Lt(n, in.SLen)}
			if !st.F.Assume(rel[cmp+1], true) {
				return
			}
			if cmp > 0 {
				sp = ai.Sub(in.SLen, n)
			}
			cs := st.SymSlice("cases", caseT, types.NewSlice(caseT))
			base = ai.BaseOf(st.Content(cs))
			ncase := ai.SeqLenBase(base)
			st.F.Assume(ai.Le(ai.Int(0), ncase), true)
			st, mk := u.ctor1(st, outer, n)
			u.ctorTime = true
			os := u.E.CallValue(mk, []*ai.T{cs}, nil, st, token.NoPos)
			u.ctorTime = false
			u.mark = ai.ObjMark()
			mo := u.pick(os, "of Match")
			st, p := mo.St, mo.Val
			st.SetG("phase", ai.Str("test"))
			st.SetG("idx", ai.Int(0))
			st.SetG("tidx", ai.Int(0))
			st.SetG("tval", st.SubSeq(in.S0, sp, in.SLen))
			for _, o := range u.apply(p, in, st) {
				s := o.St
				switch s.G("phase").S {
				case "error":
					u.need(o.Status == sError, "C03", "error lost", s, "Match continues with the status %s after an error", l.c(o.Ctx, "MatchStatus"))
					u.need(same(s, o.Err, s.G("err")), "C03", "error replaced", s, "Match returns the error %s instead of %s", o.Err, s.G("err"))
					continue
				case "test":
					if !u.noError(o, "C03") {
						continue
					}
					if !u.need(o.Status == sUnmatched, "C22", "must not match", s, "Match matches although no case accepts") {
						continue
					}
					u.need(holds(s, ai.Le(ncase, s.G("idx"))), "C22", "case skipped", s, "Match gives up although case %s has not been tested", s.G("idx"))
					u.leafUnmatched(in, o)
					u.sameCtx(s, "C22", "changed without an accepting case", o.Ctx, in.Ctx, "Position", "AstStack", "Tag")
				case "let":
					if !u.noError(o, "C03") {
						continue
					}
					if !u.need(o.Status == sMatched, "C22", "must match", s, "Match does not match although a case accepts") {
						continue
					}
					let := s.Content(F(cur(s), caseT, "Let"))
					u.need(holds(s, ai.Le(ai.SeqLen(let), s.G("tidx"))), "C22", "transformer skipped", s, "Match runs only %s of %s transformers", s.G("tidx"), ai.SeqLen(let))
					got := s.Content(l.c(o.Ctx, "AstStack"))
					want := ai.NewSeq([]*ai.T{s.SubSeq(in.S0, ai.Int(0), sp), s.G("tval")})
					u.need(same(s, got, want), "C22", "AST stack of the result", s, "Match leaves the AST stack as %s, not %s", got, want)
					if holds(s, ai.Le(sp, ai.SeqLen(got))) {
						u.need(same(s, s.SubSeq(got, ai.Int(0), sp), s.SubSeq(in.S0, ai.Int(0), sp)), "C02", "older entries changed", s, "Match turns the entries it may not inspect into %s", got)
					}
					u.sameCtx(s, "C22", "context field changed", o.Ctx, in.Ctx, "Str", "Slice", "Position", "Tag")
					u.need(same(s, l.c(o.Ctx, "ClassName"), ai.Str("Match")), "C20", "class name of the result", s, "the matched context is labelled %s", l.c(o.Ctx, "ClassName"))
				}
			}
		})
	}
}

// topIs: the predicate accepts exactly when the newest entry is one of the
// listed values of its type.
func (u *U) topIs(name string, typ types.Type) {
	fn := u.fn(basePkg, name)
	l := u.L
	for _, forced := range []bool{false, true} {
		forced := forced
		u.run("base."+name, fn.Pos(), func() {
			d := u.driver()
			st := ai.NewState()
			arg := u.symArg(st, fn, 0, "values")
			base := ai.BaseOf(st.Content(arg))
			n := ai.SeqLenBase(base)
			st.F.Assume(ai.Le(ai.Int(0), n), true)
			asts := st.SymSlice("asts", l.Ast, l.AstSlice)
			s0 := st.Content(asts)
			cnt := ai.SeqLen(s0)
			st.F.Assume(ai.Le(ai.Int(0), cnt), true)
			top := l.a(ai.At(ai.BaseOf(s0), ai.AddK(cnt, -1), l.Ast), "Value")
			equals := func(x *ai.T) *ai.T {
				if typ == nil {
					return deepEq(top, x)
				}
				return ai.Eq(ai.As(top, typ), x)
			}
			k := ai.Sym("K", ai.SInt, nil)
			if forced {
				d.Watch[base] = k
				f := st.F
				ok := f.Assume(ai.Le(ai.Int(0), k), true) && f.Assume(ai.Lt(k, n), true) && f.Assume(ai.Lt(ai.Int(0), cnt), true)
				if typ != nil {
					ok = ok && f.Assume(ai.TypeIs(top, typ), true)
				}
				if !ok || !f.Assume(equals(ai.At(base, k, base.Typ)), true) {
					return
				}
				st.Note("the newest entry has the value of list entry K")
			}
			st, p := u.ctor1(st, fn, arg)
			for _, o := range u.E.CallValue(p, []*ai.T{asts}, nil, st, token.NoPos) {
				u.Outcomes++
				if o.Panic != nil {
					u.panics(o)
					continue
				}
				y, no := ai.Fork(o.St, o.Val)
				if no != nil {
					u.need(!forced, "C22", "predicate rejects a listed value", no, "%s rejects although the newest entry has a listed value", name)
				}
				if y == nil || forced {
					u.need(true, "C22", "", nil, "")
					continue
				}
				if !u.need(holds(y, ai.Lt(ai.Int(0), cnt)), "C22", "predicate accepts without entries", y, "%s may accept an empty stack", name) {
					continue
				}
				if typ != nil && !u.need(holds(y, ai.TypeIs(top, typ)), "C22", "predicate accepts another type", y, "%s may accept a value of another type", name) {
					continue
				}
				found := false
				for _, x := range y.F.Elements(base) {
					if x.A[1] != ai.Kappa && holds(y, ai.Le(ai.Int(0), x.A[1])) && holds(y, ai.Lt(x.A[1], n)) && holds(y, equals(x)) {
						found = true
					}
				}
				u.need(found, "C22", "predicate accepts an unlisted value", y, "%s accepts, but no listed value is known to equal the newest entry", name)
			}
		})
	}
}

// deepEq is reflect.DeepEqual.
func deepEq(a, b *ai.T) *ai.T { return ai.DeepEq(a, b) }

func init() {
	register("base.Match", []string{"C01", "C02", "C03", "C13", "C15", "C16", "C20", "C22"}, func(u *U) { u.matchCases() })
	register("base.TopIs", []string{"C13", "C15", "C16", "C22"}, func(u *U) {
		for _, t := range []struct {
			n string
			t types.Type
		}{{"TopIsRune", types.Typ[types.Int32]}, {"TopIsInt", types.Typ[types.Int64]}, {"TopIsUint", types.Typ[types.Uint64]},
			{"TopIsFloat", types.Typ[types.Float64]}, {"TopIsBool", types.Typ[types.Bool]}, {"TopIsStr", types.Typ[types.String]}, {"TopIs", nil}} {
			u.topIs(t.n, t.t)
		}
		fn := u.fn(basePkg, "TopIsAny")
		u.run("base.TopIsAny", fn.Pos(), func() {
			u.driver()
			st := ai.NewState()
			asts := st.SymSlice("asts", u.L.Ast, u.L.AstSlice)
			for _, o := range u.E.CallFn(fn, []*ai.T{asts}, st, token.NoPos) {
				u.need(o.Panic == nil && holds(o.St, o.Val), "C22", "predicate rejects", o.St, "TopIsAny rejects")
			}
		})
	})
	_ = (*ssa.Function)(nil)
}
