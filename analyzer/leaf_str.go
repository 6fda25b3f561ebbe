package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func rng(ps ...int64) ai.IntSet {
	s := ai.SetEmpty
	for i := 0; i < len(ps); i += 2 {
		s = s.Union(ai.Range(ps[i], ps[i+1]))
	}
	return s
}

// the documented character classes
var (
	setWhitespace = rng(9, 0xd, 0x20, 0x20, 0x85, 0x85, 0xa0, 0xa0)
	setNoLB       = rng(9, 9, 0x20, 0x20, 0xa0, 0xa0)
	setLB         = rng(0xa, 0xd, 0x85, 0x85)
	setAlpha      = rng('A', 'Z', 'a', 'z')
	setNumber     = rng('0', '9')
	setAlnum      = setAlpha.Union(setNumber)
	setBin        = rng('0', '1')
	setOct        = rng('0', '7')
	setHex        = rng('0', '9', 'A', 'F', 'a', 'f')
	setWord       = setAlnum.Union(rng('_', '_', '$', '$'))
)

var strClasses = []struct {
	name string
	set  ai.IntSet
}{
	{"Whitespace", setWhitespace},
	{"WhitespaceNoLineBreak", setNoLB},
	{"LineBreak", setLB},
	{"Alpha", setAlpha},
	{"Number", setNumber},
	{"Alnum", setAlnum},
	{"BinNumber", setBin},
	{"OctNumber", setOct},
	{"HexNumber", setHex},
}

var leafAll = []string{"C01", "C02", "C09", "C13", "C15", "C19", "C20"}

func leafWith(p ...string) []string { return append(append([]string{}, leafAll...), p...) }

// class is the documented class name of a parser.
func (u *U) class(pkg, name string) string {
	s, ok := u.W.StrConst(pkg+"/classes", name)
	if !ok {
		panic(missing{"class name constant " + pkg + "/classes." + name})
	}
	return s
}

// apply calls a parser on an input.
func (u *U) apply(p *ai.T, in *In, st *ai.State) []Out {
	return u.outs(u.E.CallValue(p, []*ai.T{in.Ctx}, nil, st, token.NoPos))
}

// leaf analyses one leaf parser on every kind of input.  decide gives, for a
// result, the cases of the specification: whether it must match and with
// which token.
type verdict struct {
	st    *ai.State
	match bool
	why   string
	tok   *tokWant
}

func (u *U) leaf(pkg, name string, prop, tprop string, build func(st *ai.State) *In, states bool, mk func(st *ai.State, fn *ssa.Function) (*ai.State, *ai.T), decide func(in *In, o Out) []verdict) {
	fn := u.fn(pkg, name)
	var class string
	if pkg == extraPkg {
		class = u.class(strPkg, strings.TrimPrefix(name, "Unicode"))
	} else {
		class = u.class(pkg, name)
	}
	u.run(pkg+"."+name, fn.Pos(), func() {
		var ins []*In
		if states {
			ins = u.runeStates(build)
		} else {
			st := ai.NewState()
			ins = []*In{build(st)}
		}
		for _, in := range ins {
			st, p := mk(in.St, fn)
			for _, o := range u.apply(p, in, st) {
				if !u.noError(o, tprop) {
					continue
				}
				for _, v := range decide(in, o) {
					o := o
					o.St = v.st
					got := o.Status == sMatched
					if got != v.match {
						if v.match {
							u.need(false, prop, "must match", o.St, "%s does not match although %s", name, v.why)
						} else {
							u.need(false, prop, "must not match", o.St, "%s matches although %s", name, v.why)
						}
						continue
					}
					u.need(true, prop, "match decision", o.St, "")
					if got {
						u.leafMatched(in, o, class, v.tok, tprop)
					} else {
						u.leafUnmatched(in, o)
					}
				}
			}
		}
	})
}

func (u *U) strIn(st *ai.State) *In { return u.input(st, false) }

func (u *U) plain(st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) { return u.ctor1(st, fn) }

// symArg makes the symbolic slice of a variadic argument.
func (u *U) symArg(st *ai.State, fn *ssa.Function, i int, name string) *ai.T {
	pt := fn.Signature.Params().At(i).Type()
	return st.SymSlice("arg:"+name, pt.Underlying().(*types.Slice).Elem(), pt)
}

func init() {
	register("string.classes", leafWith("C11"), func(u *U) {
		for _, c := range strClasses {
			u.driver()
			set := c.set
			u.leaf(strPkg, c.name, "C11", "C09", u.strIn, true, u.plain, func(in *In, o Out) []verdict {
				return u.setVerdict(in, o, set, "the documented set")
			})
		}
	})
	register("string.Any", leafWith("C11"), func(u *U) {
		u.driver()
		u.leaf(strPkg, "Any", "C11", "C09", u.strIn, true, u.plain, func(in *In, o Out) []verdict {
			return u.setVerdict(in, o, ai.Range(0, 0x10ffff), "any character")
		})
	})
	register("string.End", leafWith("C11"), func(u *U) {
		u.driver()
		u.leaf(strPkg, "End", "C11", "C09", u.strIn, true, u.plain, func(in *In, o Out) []verdict {
			var r []verdict
			for _, c := range forkBy(o.St, ai.Eq(in.P, in.N)) {
				r = append(r, verdict{c.st, c.v[0], map[bool]string{true: "the source is used up", false: "there is text left"}[c.v[0]], nil})
			}
			return r
		})
	})
	register("string.Seq", leafWith("C12"), func(u *U) {
		// Three cases cover every source: the rest is too short, the text is
		// at the position, or the text has room and differs (for Seq: byte K
		// of it does).
		for _, name := range []string{"Seq", "SeqI"} {
			for _, mode := range []string{"short", "equal", "less", "greater"} {
				d := u.driver()
				s := ai.Sym("arg:s", ai.SStr, u.L.Str)
				n := ai.StrLen(s)
				k := ai.Sym("K", ai.SInt, nil)
				name, mode := name, mode
				build := func(st *ai.State) *In {
					in := u.strIn(st)
					end := ai.Add(in.P, n)
					fits := ai.Le(end, in.N)
					txt := ai.Substr(in.Src, in.P, end)
					eq := ai.Eq(txt, s)
					if name == "SeqI" {
						eq = ai.FoldEq(txt, s)
					}
					f := st.F
					switch mode {
					case "short":
						f.Assume(fits, false)
						st.Note("the rest of the source is shorter than the text")
					case "equal":
						f.Assume(fits, true)
						f.Assume(eq, true)
						st.Note("the text is at the position")
					default: // byte K is less or greater
						f.Assume(fits, true)
						f.Assume(eq, false)
						st.Note("the text differs from the source at the position")
						if name == "Seq" {
							f.Assume(ai.Le(ai.Int(0), k), true)
							f.Assume(ai.Lt(k, n), true)
							a, b := ai.StrAt(in.Src, ai.Add(in.P, k)), ai.StrAt(s, k)
							if mode == "greater" {
								a, b = b, a
							}
							f.Assume(ai.Lt(a, b), true)
						}
					}
					if name == "Seq" && (mode == "less" || mode == "greater") {
						// a byte that is read is byte K or it is not
						d.OnChar = func(e *ai.Eng, st *ai.State, x, i, w, c *ai.T, pos token.Pos) []*ai.State {
							at := k
							if x == in.Src {
								at = ai.Add(in.P, k)
							} else if x != s {
								return []*ai.State{st}
							}
							y, no := ai.Fork(st, ai.Eq(i, at))
							if y != nil && !y.F.Assume(ai.Eq(c, ai.StrAt(x, at)), true) {
								y = nil
							}
							return alive(y, no)
						}
					}
					return in
				}
				u.leaf(strPkg, name, "C12", "C09", build, false, func(st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) {
					return u.ctor1(st, fn, s)
				}, func(in *In, o Out) []verdict {
					if mode == "equal" {
						return []verdict{{o.St, true, "the text is at the position", u.textToken(in, n)}}
					}
					why := "the text differs from the source at the position"
					if mode == "short" {
						why = "the rest of the source is shorter than the text"
					}
					return []verdict{{o.St, false, why, nil}}
				})
			}
		}
	})
	register("string.CharClassFn", leafWith("C12"), func(u *U) {
		d := u.driver()
		fnv := ai.Sym("arg:fn", ai.SFunc, nil)
		d.OnFunc = func(e *ai.Eng, st *ai.State, fn *ai.T, args []*ai.T, sig *types.Signature, pos token.Pos) ([]ai.Outcome, bool) {
			return []ai.Outcome{{Val: ai.App("pred", ai.SBool, nil, append([]*ai.T{fn}, args...)...), St: st}}, true
		}
		u.leaf(strPkg, "CharClassFn", "C12", "C09", u.strIn, true, func(st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) {
			return u.ctor1(st, fn, fnv)
		}, func(in *In, o Out) []verdict {
			r, _ := ai.RuneAt(in.Src, in.P)
			var vs []verdict
			for _, a := range forkBy(o.St, ai.Lt(in.P, in.N)) {
				if !a.v[0] {
					vs = append(vs, verdict{a.st, false, "the source is used up", nil})
					continue
				}
				for _, c := range forkBy(a.st, ai.App("pred", ai.SBool, nil, fnv, r)) {
					why := "the function rejects the character"
					if c.v[0] {
						why = "the function accepts the character"
					}
					vs = append(vs, verdict{c.st, c.v[0], why, u.runeToken(in)})
				}
			}
			return vs
		})
	})
}

// alive drops the impossible one of two states.
func alive(a, b *ai.State) []*ai.State {
	var r []*ai.State
	for _, s := range []*ai.State{a, b} {
		if s != nil {
			r = append(r, s)
		}
	}
	return r
}

func (u *U) setVerdict(in *In, o Out, set ai.IntSet, what string) []verdict {
	r, _ := ai.RuneAt(in.Src, in.P)
	var vs []verdict
	for _, a := range forkBy(o.St, ai.Lt(in.P, in.N)) {
		if !a.v[0] {
			vs = append(vs, verdict{a.st, false, "the source is used up", nil})
			continue
		}
		for _, c := range forkBy(a.st, ai.In(r, set)) {
			why := "a character of " + c.st.F.BoundsOf(r).String() + " is in " + what
			if !c.v[0] {
				why = "a character of " + c.st.F.BoundsOf(r).String() + " is not in " + what
			}
			vs = append(vs, verdict{c.st, c.v[0], why, u.runeToken(in)})
		}
	}
	return vs
}
