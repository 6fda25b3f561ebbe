package main

import (
	"go/token"
	"go/types"

	"verif/analyzer/ai"
)

// production: the specification machine of ProductionRule. Rules are tried
// precedence by precedence, position by position, rule by rule; the first
// that matches rewrites the list; the acceptance check follows every round.
func (u *U) production() {
	outer := u.fn(basePkg, "ProductionRule")
	l := u.L
	precT := u.W.Named(basePkg, "Precedence")
	if precT == nil {
		panic(missing{"type base.Precedence"})
	}
	for _, some := range []bool{true, false} {
		some := some
		u.run("base.ProductionRule", outer.Pos(), func() {
			d := u.driver()
			d.Part = func(g string) bool { return g == "phase" }
			d.Peel = true
			var ctx, pbase, np, check *ai.T
			prec := func(k *ai.T) *ai.T { return ai.At(pbase, k, precT) }
			rules := func(st *ai.State, k *ai.T) *ai.T { return st.Content(F(prec(k), precT, "Rules")) }
			enter := func(st *ai.State, k *ai.T) { // a precedence becomes current
				st.SetG("k", k)
				st.SetG("i", ai.Int(0))
				st.SetG("r", ai.Int(0))
			}
			ai.SliceAxiom = func(st *ai.State, v, ln *ai.T) { // every precedence has a rule
				if s, ok := v.Typ.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), l.ParserFn) && !holds(st, ai.Lt(ai.Int(0), ln)) {
					st.F.Assume(ai.Lt(ai.Int(0), ln), true)
				}
			}
			newRound := func(st *ai.State) {
				if some {
					st.SetG("phase", ai.Str("prec"))
					enter(st, ai.Int(0))
				} else {
					st.SetG("phase", ai.Str("stuck"))
				}
			}
			source := func(st *ai.State, c *ai.T, what string) bool {
				got := l.c(c, "Slice")
				ok := got.Op == "iface" && same(st, st.Content(got.A[0]), st.G("cur"))
				ok = u.need(ok, "C21", "list given to a rule", st, "%s is given the list %s, not %s", what, got, st.G("cur")) && ok
				ok = u.need(same(st, st.Content(l.c(c, "AstStack")), ai.NewSeq(nil)), "C21", "stack given to a rule", st, "%s starts with the AST stack %s", what, st.Content(l.c(c, "AstStack"))) && ok
				return u.need(same(st, l.c(c, "Tag"), l.c(ctx, "Tag")), "C21", "tag given to a rule", st, "%s is given the tag %s", what, l.c(c, "Tag")) && ok
			}
			fails := func(st *ai.State, c *ai.T, what string, outs []ai.Outcome) []ai.Outcome {
				for k := 0; k < 4; k++ {
					s := st.Clone()
					stat, err := sError, ai.Nil(l.Err)
					s.SetG("err", err)
					if k > 0 {
						stat, err = k-1, u.anErr(s)
						s.SetG("err", err)
					}
					s.Note("%s reports an error", what)
					s.SetG("phase", ai.Str("error"))
					outs = append(outs, ai.Outcome{Val: ai.Tuple(l.cw(c, "MatchStatus", status(stat)), err), St: s})
				}
				return outs
			}
			nilErr := ai.Nil(l.Err)
			d.OnFunc = func(e *ai.Eng, st *ai.State, f *ai.T, args []*ai.T, sig *types.Signature, pos token.Pos) ([]ai.Outcome, bool) {
				f = st.Find(f)
				where := e.PosStr(pos)
				if same(st, f, check) {
					applied := false
					switch ph := st.G("phase").S; ph {
					case "applied":
						applied = true
					case "stuck":
					case "error":
						u.need(false, "C03", "check after an error", st, "the acceptance check runs after an error")
						return nil, true
					default:
						u.need(false, "C21", "rule skipped", st, "the acceptance check runs (%s) although rule %s of precedence %s at step %s is next", ph, st.G("r"), st.G("k"), st.G("i"))
						return nil, true
					}
					if !source(st, args[0], "the acceptance check") {
						return nil, true
					}
					u.need(same(st, l.c(args[0], "Position"), ai.Int(0)), "C21", "position of the check", st, "the acceptance check starts at the position %s", l.c(args[0], "Position"))
					y, n := st.Clone(), st.Clone()
					y.Note("%s: the acceptance check matches", where)
					y.SetG("phase", ai.Str("accepted"))
					n.Note("%s: the acceptance check does not match", where)
					if applied {
						newRound(n)
					} else {
						n.SetG("phase", ai.Str("hopeless"))
					}
					outs := []ai.Outcome{{Val: ai.Tuple(l.cw(args[0], "MatchStatus", status(sMatched)), nilErr), St: y},
						{Val: ai.Tuple(l.cw(args[0], "MatchStatus", status(sUnmatched)), nilErr), St: n}}
					return fails(st, args[0], "the acceptance check", outs), true
				}
				switch ph := st.G("phase").S; ph {
				case "rules", "pos", "prec":
				case "error":
					u.need(false, "C03", "rule tried after an error", st, "a rule is tried after an error")
					return nil, true
				case "stuck":
					if !some {
						u.need(false, "C21", "order of rules", st, "a rule is tried although there is none")
						return nil, true
					}
					fallthrough
				default:
					u.need(false, "C21", "order of rules", st, "a rule is tried (%s) before the acceptance check", ph)
					return nil, true
				}
				k, i, r := st.G("k"), st.G("i"), st.G("r")
				rs := rules(st, k)
				want := ai.At(ai.BaseOf(rs), r, l.ParserFn)
				if !u.need(same(st, f, want), "C21", "order of rules", st, "the rule %s is tried where rule %s of precedence %s is next", f, r, k) {
					return nil, true
				}
				if !source(st, args[0], "a rule") {
					return nil, true
				}
				cur := st.G("cur")
				n := ai.SeqLen(cur)
				var outs []ai.Outcome
				rt, lt := ai.Fork(st.Clone(), F(prec(k), precT, "Rtol"))
				for w, st := range []*ai.State{rt, lt} {
					if st == nil {
						continue
					}
					p, dir := i, "left to right"
					if w == 0 {
						p, dir = ai.Sub(n, i), "right to left"
					}
					got := l.c(args[0], "Position")
					if !u.need(same(st, got, p), "C21", "position given to a rule", st, "from %s, a rule is tried at the position %s, not at %s", dir, got, p) {
						continue
					}
					{ // the rule matches
						s := st.Clone()
						s.Note("%s: the rule matches", where)
						b := ai.Fresh("made", ai.SSeq, l.Ast)
						s.F.Assume(ai.Le(ai.Int(0), ai.SeqLenBase(b)), true)
						q := ai.Fresh("end", ai.SInt, types.Typ[types.Int])
						s.F.Assume(ai.Le(p, q), true)
						s.F.Assume(ai.Le(q, n), true)
						c := l.cw(args[0], "MatchStatus", status(sMatched))
						c = l.cw(c, "AstStack", e.Append(s, l.c(args[0], "AstStack"), ai.SeqOf(b), l.Ast, l.AstSlice, pos))
						c = l.cw(c, "Position", q)
						s.SetG("cur", ai.NewSeq([]*ai.T{s.SubSeq(cur, ai.Int(0), p), ai.SeqOf(b), s.SubSeq(cur, q, n)}))
						s.SetG("phase", ai.Str("applied"))
						outs = append(outs, ai.Outcome{Val: ai.Tuple(c, nilErr), St: s})
					}
					{ // it does not
						s := st.Clone()
						s.Note("%s: the rule does not match", where)
						c := l.cw(args[0], "MatchStatus", status(sUnmatched))
						b := ai.Fresh("made", ai.SSeq, l.Ast)
						s.F.Assume(ai.Le(ai.Int(0), ai.SeqLenBase(b)), true)
						c = l.cw(c, "AstStack", e.Append(s, l.c(args[0], "AstStack"), ai.SeqOf(b), l.Ast, l.AstSlice, pos))
						c = l.cw(c, "Position", ai.Fresh("end", ai.SInt, types.Typ[types.Int]))
						for _, x := range forkBy(s, ai.Eq(ai.AddK(r, 1), ai.SeqLen(rs))) {
							s := x.st
							if !x.v[0] {
								s.SetG("r", ai.AddK(r, 1))
								s.SetG("phase", ai.Str("rules"))
								outs = append(outs, ai.Outcome{Val: ai.Tuple(c, nilErr), St: s})
								continue
							}
							for _, x := range forkBy(s, ai.Eq(i, n)) {
								s := x.st
								if !x.v[0] {
									s.SetG("r", ai.Int(0))
									s.SetG("i", ai.AddK(i, 1))
									s.SetG("phase", ai.Str("pos"))
									outs = append(outs, ai.Outcome{Val: ai.Tuple(c, nilErr), St: s})
									continue
								}
								for _, x := range forkBy(s, ai.Eq(ai.AddK(k, 1), np)) {
									s := x.st
									if !x.v[0] {
										enter(s, ai.AddK(k, 1))
										s.SetG("phase", ai.Str("prec"))
									} else {
										s.SetG("phase", ai.Str("stuck"))
									}
									outs = append(outs, ai.Outcome{Val: ai.Tuple(c, nilErr), St: s})
								}
							}
						}
					}
					outs = fails(st, args[0], "the rule", outs)
				}
				return outs, true
			}
			st := ai.NewState()
			in := u.input(st, false)
			ctx = in.Ctx
			precs := st.SymSlice("precedences", precT, types.NewSlice(precT))
			pbase = ai.BaseOf(st.Content(precs))
			np = ai.SeqLenBase(pbase)
			if some {
				st.F.Assume(ai.Lt(ai.Int(0), np), true)
			} else {
				st.F.Assume(ai.Eq(np, ai.Int(0)), true)
			}
			check = ai.Sym("check", ai.SFunc, l.ParserFn)
			st.F.Assume(ai.Eq(check, ai.Nil(l.ParserFn)), false)
			asts := st.SymSlice("asts", l.Ast, l.AstSlice)
			st, tv := u.ctor1(st, outer, precs, check)
			st.SetG("cur", st.Content(asts))
			newRound(st)
			for _, o := range u.E.CallValue(tv, []*ai.T{ctx, asts}, nil, st, token.NoPos) {
				u.Outcomes++
				if o.Panic != nil {
					u.panics(o)
					continue
				}
				s := o.St
				r, err := o.Val.A[0], o.Val.A[1]
				switch ph := s.G("phase").S; ph {
				case "accepted":
					u.need(same(s, err, nilErr), "C21", "error after acceptance", s, "ProductionRule reports the error %s although the check matches", err)
					got := s.Content(r)
					u.need(same(s, got, s.G("cur")), "C21", "result of the rules", s, "ProductionRule returns %s, not %s", got, s.G("cur"))
				case "error":
					want := s.G("err")
					if want == nil || same(s, want, nilErr) {
						u.need(decidedFalse(s, ai.Eq(err, nilErr)), "C03", "error lost", s, "ProductionRule returns no error after an error status")
					} else {
						u.need(same(s, err, want), "C03", "error lost", s, "ProductionRule returns the error %s, not %s", err, want)
					}
				case "hopeless":
					u.need(decidedFalse(s, ai.Eq(err, nilErr)), "C21", "no error without a rule", s, "ProductionRule reports no error although no rule applies and the check does not match")
				default:
					u.need(false, "C21", "stopped early", s, "ProductionRule returns (%s) without an accepting check", ph)
				}
			}
		})
	}
}

func init() {
	register("base.ProductionRule", []string{"C03", "C13", "C15", "C16", "C21"}, func(u *U) { u.production() })
}
