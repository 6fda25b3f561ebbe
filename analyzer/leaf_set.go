package main

import (
	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// setLeaf analyses a leaf parser that takes a list of alternatives. Two cases
// cover every list: no entry applies at the position, or some entry K does
// and, where the order matters, none before it.
type setLeaf struct {
	name     string
	positive bool // an applicable entry means a match
	// applies is the condition that the entry applies at the position
	applies func(in *In, x *ai.T) []*ai.T
	// length of the token for an entry (nil: one character)
	token func(u *U, in *In, x *ai.T) *tokWant
	other func(u *U, in *In) *tokWant // token of a match without an entry
	// avail is the condition that there is anything to match
	avail func(in *In) *ai.T
	first bool // the first applicable entry decides the token
}

// notAll splits a state into those where some of the conditions fail.
func notAll(st *ai.State, conds []*ai.T) []*ai.State {
	var outs []*ai.State
	for _, c := range conds {
		y, n := ai.Fork(st, c)
		if n != nil {
			outs = append(outs, n)
		}
		if y == nil {
			break
		}
		st = y
	}
	return outs
}

func (u *U) setLeaf(pkg string, s *setLeaf, build func(st *ai.State) *In, states bool, prop, tprop string) {
	fn := u.fn(pkg, s.name)
	class := u.class(pkg, s.name)
	for _, forced := range []bool{false, true} {
		forced := forced
		u.run(pkg+"."+s.name, fn.Pos(), func() {
			var ins []*In
			if states {
				ins = u.runeStates(build)
			} else {
				ins = []*In{build(ai.NewState())}
			}
			for _, in := range ins {
				d := u.driver()
				d.Axiom = map[*ai.T]func(*ai.State, *ai.T, *ai.T) []*ai.State{}
				in := in
				arg := u.symArg(in.St, fn, 0, "set")
				base := ai.BaseOf(in.St.Content(arg))
				n := ai.SeqLen(in.St.Content(arg))
				k := ai.Sym("K", ai.SInt, nil)
				xk := ai.At(base, k, base.Typ)
				if forced {
					d.Watch[base] = k
					f := in.St.F
					ok := f.Assume(ai.Le(ai.Int(0), k), true) && f.Assume(ai.Lt(k, n), true)
					for _, c := range s.applies(in, xk) {
						ok = ok && f.Assume(c, true)
					}
					if !ok {
						continue
					}
					in.St.Note("entry K applies%s", map[bool]string{true: ", no earlier one does"}[s.first])
				} else {
					in.St.Note("no entry applies")
				}
				d.Axiom[base] = func(st *ai.State, idx, x *ai.T) []*ai.State {
					if !forced {
						return notAll(st, s.applies(in, x))
					}
					if !s.first {
						return []*ai.State{st}
					}
					before, rest := ai.Fork(st, ai.Lt(idx, k))
					var outs []*ai.State
					if before != nil {
						outs = notAll(before, s.applies(in, x))
					}
					if rest != nil {
						outs = append(outs, rest)
					}
					return outs
				}
				st, p := u.ctor1(in.St, fn, arg)
				for _, o := range u.apply(p, in, st) {
					if !u.noError(o, tprop) {
						continue
					}
					cases := []caseOf{{o.St, []bool{true}}}
					if !forced && !s.positive && s.avail != nil {
						cases = forkBy(o.St, s.avail(in))
					}
					for _, c := range cases {
						o := o
						o.St = c.st
						got := o.Status == sMatched
						switch {
						case forced:
							if !u.need(got == s.positive, prop, "decision by a listed entry", o.St, "%s %s although an entry of the list applies", s.name, matches(got)) {
								continue
							}
						case s.positive:
							if !u.need(!got, prop, "decision without a listed entry", o.St, "%s matches although no entry of the list applies", s.name) {
								continue
							}
						case !c.v[0]:
							if !u.need(!got, prop, "match at the end of the source", o.St, "%s may match at the end of the source", s.name) {
								continue
							}
						default:
							if !u.need(got, prop, "decision without a listed entry", o.St, "%s does not match although no entry of the list applies", s.name) {
								continue
							}
						}
						if !got {
							u.leafUnmatched(in, o)
							continue
						}
						var tw *tokWant
						if s.token != nil {
							tw = s.token(u, in, xk)
						} else {
							tw = s.other(u, in)
						}
						u.leafMatched(in, o, class, tw, tprop)
					}
				}
			}
		})
	}
}

func matches(b bool) string {
	if b {
		return "matches"
	}
	return "does not match"
}

func decidedFalse(st *ai.State, c *ai.T) bool {
	v, ok := st.F.Decide(c)
	return ok && !v
}

func init() {
	rangeApplies := func(l *Lay) func(in *In, x *ai.T) []*ai.T {
		return func(in *In, x *ai.T) []*ai.T {
			r, _ := ai.RuneAt(in.Src, in.P)
			return []*ai.T{ai.Lt(in.P, in.N), ai.Le(F(x, l.RuneRange, "Start"), r), ai.Le(r, F(x, l.RuneRange, "End"))}
		}
	}
	classApplies := func(in *In, x *ai.T) []*ai.T {
		n := ai.StrLen(x)
		return []*ai.T{ai.Le(ai.Add(in.P, n), in.N), ai.Eq(ai.Substr(in.Src, in.P, ai.Add(in.P, n)), x)}
	}
	rune1 := func(u *U, in *In) *tokWant { return u.runeToken(in) }
	left := func(in *In) *ai.T { return ai.Lt(in.P, in.N) }
	register("string.CharRange", leafWith("C12"), func(u *U) {
		u.setLeaf(strPkg, &setLeaf{name: "CharRange", positive: true, applies: rangeApplies(u.L), other: rune1, avail: left}, u.strIn, true, "C12", "C09")
		u.setLeaf(strPkg, &setLeaf{name: "CharRangeN", positive: false, applies: rangeApplies(u.L), other: rune1, avail: left}, u.strIn, true, "C12", "C09")
	})
	register("string.CharClass", leafWith("C12"), func(u *U) {
		u.setLeaf(strPkg, &setLeaf{name: "CharClass", positive: true, applies: classApplies, first: true,
			token: func(u *U, in *In, x *ai.T) *tokWant {
				t := u.textToken(in, ai.StrLen(x))
				t.chosen = "C12"
				return t
			}}, u.strIn, false, "C12", "C09")
		u.setLeaf(strPkg, &setLeaf{name: "CharClassN", positive: false, applies: classApplies, other: rune1, avail: left}, u.strIn, true, "C12", "C09")
	})
	register("string.WordBoundary", leafWith("C14"), func(u *U) {
		u.driver()
		u.wordBoundary(strPkg, "WordBoundary", setWord)
	})
	register("extra.UnicodeWordBoundary", leafWith("C14"), func(u *U) {
		u.driver()
		u.wordBoundary(extraPkg, "UnicodeWordBoundary", setUWord())
	})
}

// uniSet is the set of the characters of some Unicode categories and
// properties.
func uniSet(names ...string) ai.IntSet {
	s := ai.SetEmpty
	for _, n := range names {
		t, ok := ai.UnicodeTable(n)
		if !ok {
			panic(missing{"Unicode table " + n})
		}
		s = s.Union(t)
	}
	return s
}

// The characters of Unicode identifiers: ID_Start and ID_Continue.
func setIDStart() ai.IntSet {
	return uniSet("L", "Nl", "Other_ID_Start").Minus(uniSet("Pattern_Syntax", "Pattern_White_Space"))
}

func setIDContinue() ai.IntSet {
	return uniSet("L", "Nl", "Other_ID_Start", "Mn", "Mc", "Nd", "Pc", "Other_ID_Continue").
		Minus(uniSet("Pattern_Syntax", "Pattern_White_Space"))
}

// setUWord: the word characters of the Unicode variant, ID_Continue, '$' and
// the joiners.
func setUWord() ai.IntSet { return setIDContinue().Union(rng('$', '$', 0x200c, 0x200d)) }

// wordBoundary: a match exactly where one side is a word character and the
// other is not (or does not exist).
func (u *U) wordBoundary(pkg, name string, set ai.IntSet) {
	for k := 0; k < 3; k++ {
		k := k
		// the ways a character can lie before the position
		build := func(st *ai.State) *In {
			in := u.strIn(st)
			if k == 0 {
				st.F.Assume(ai.Eq(in.P, ai.Int(0)), true)
				st.Note("at the start of the source")
				return in
			}
			prev, w := ai.LastRune(ai.Substr(in.Src, ai.Int(0), in.P))
			b := ai.StrAt(in.Src, ai.AddK(in.P, -1))
			st.F.Assume(ai.Lt(ai.Int(0), in.P), true)
			if k == 1 {
				st.F.Assume(ai.Lt(b, ai.Int(0x80)), true)
				st.F.Assume(ai.Eq(prev, b), true)
				st.F.Assume(ai.Eq(w, ai.Int(1)), true)
				st.Note("after an ASCII character")
			} else {
				st.F.Assume(ai.Le(ai.Int(0x80), b), true)
				st.F.Assume(ai.Le(ai.Int(0x80), prev), true)
				st.F.Assume(ai.In(w, ai.Range(1, 4)), true)
				st.F.Assume(ai.Le(w, in.P), true)
				st.Note("after a character beyond ASCII")
			}
			return in
		}
		u.leaf(pkg, name, "C14", "C09", build, true, func(st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) { return u.ctor1(st, fn) },
			func(in *In, o Out) []verdict {
				next, _ := ai.RuneAt(in.Src, in.P)
				prev, _ := ai.LastRune(ai.Substr(in.Src, ai.Int(0), in.P))
				var vs []verdict
				for _, c := range forkBy(o.St, ai.Lt(ai.Int(0), in.P), ai.Lt(in.P, in.N), ai.In(prev, set), ai.In(next, set)) {
					before := c.v[0] && c.v[2]
					after := c.v[1] && c.v[3]
					why := side("the character before", c.v[0], c.v[2]) + " and " + side("the character after", c.v[1], c.v[3])
					vs = append(vs, verdict{c.st, before != after, why, nil})
				}
				return vs
			})
	}
}

func side(s string, there, word bool) string {
	switch {
	case !there:
		return s + " does not exist"
	case word:
		return s + " is a word character"
	}
	return s + " is not a word character"
}
