package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// The units of this file run the parts of the library that call the caller's
// functions with nothing but arbitrary results of those functions. Whether
// the loops come to an end is decided by the interpreter itself.

// anyParser lets unknown parsers return anything they may return.
func (u *U) anyParser(in *In) func(e *ai.Eng, st *ai.State, f *ai.T, args []*ai.T, sig *types.Signature, pos token.Pos) ([]ai.Outcome, bool) {
	return func(e *ai.Eng, st *ai.State, f *ai.T, args []*ai.T, sig *types.Signature, pos token.Pos) ([]ai.Outcome, bool) {
		l := u.L
		if sig == nil || sig.Params().Len() == 0 {
			return nil, false
		}
		if len(args) == 1 && types.Identical(sig.Params().At(0).Type(), l.Ctx) {
			return u.childOutcomes(st, in, args[0], pos, func(st *ai.State, r, err *ai.T) {}), true
		}
		var outs []ai.Outcome
		switch {
		case sig.Results().Len() == 2 && types.Identical(sig.Results().At(0).Type(), l.Ctx):
			for k := 0; k < 3; k++ {
				s := st.Clone()
				s.Note("%s: the caller's function returns status %d", e.PosStr(pos), k)
				r, _ := u.childResult(s, in, args[len(args)-1], k, pos)
				outs = append(outs, ai.Outcome{Val: ai.Tuple(r, ai.Nil(l.Err)), St: s})
			}
		case sig.Results().Len() == 2 && types.Identical(sig.Results().At(0).Type(), l.AstSlice):
			good, bad := st.Clone(), st.Clone()
			b := ai.Fresh("made", ai.SSeq, l.Ast)
			good.F.Assume(ai.Le(ai.Int(0), ai.SeqLenBase(b)), true)
			outs = append(outs, ai.Outcome{Val: ai.Tuple(good.NewSlice(ai.SeqOf(b), l.Ast, "made", true, l.AstSlice), ai.Nil(l.Err)), St: good},
				ai.Outcome{Val: ai.Tuple(ai.Nil(l.AstSlice), u.anErr(bad)), St: bad})
		default:
			return nil, false
		}
		return outs, true
	}
}

// endsParser runs a parser made of arbitrary parts.
func (u *U) endsParser(name string, build func(st *ai.State, in *In, fn *ssa.Function) (*ai.State, *ai.T)) {
	fn := u.fn(basePkg, name)
	u.run(basePkg+"."+name, fn.Pos(), func() {
		d := u.driver()
		d.Obligations = false
		d.Peel = true
		st := ai.NewState()
		in := u.input(st, false)
		d.OnFunc = u.anyParser(in)
		st, p := build(st, in, fn)
		u.Outcomes += len(u.E.CallValue(p, []*ai.T{in.Ctx}, nil, st, token.NoPos))
	})
}

func (u *U) parts(st *ai.State, none bool) *ai.T {
	l := u.L
	if none {
		return ai.Nil(types.NewSlice(l.ParserFn))
	}
	v := st.SymSlice("children", l.ParserFn, types.NewSlice(l.ParserFn))
	st.F.Assume(ai.Le(ai.Int(1), ai.SeqLen(st.Content(v))), true)
	return v
}

func (u *U) endsBase(impl, none bool, flags ...string) {
	u.endsParser("BaseParser", func(st *ai.State, in *In, fn *ssa.Function) (*ai.State, *ai.T) {
		l := u.L
		t := ai.Zero(l.Times)
		t = With(t, l.Times, "Min", ai.Sym("Min", ai.SInt, types.Typ[types.Int]))
		max := ai.Sym("Max", ai.SInt, types.Typ[types.Int])
		if none { // nothing can be repeated for ever
			max = ai.Int(2)
		}
		t = With(t, l.Times, "Max", max)
		el := []*ai.T{ai.Elem(ai.Iface(l.Times, t))}
		for _, f := range flags {
			n := u.W.Named(basePkg, f)
			if n == nil {
				panic(missing{"type base." + f})
			}
			el = append(el, ai.Elem(ai.Iface(n, ai.Zero(n))))
		}
		props := st.NewSlice(ai.NewSeq(el), l.Any, "props", true, types.NewSlice(l.Any))
		f := ai.Nil(fn.Params[1].Type())
		if impl {
			f = ai.Sym("impl", ai.SFunc, fn.Params[1].Type())
			st.F.Assume(ai.Eq(f, ai.Nil(f.Typ)), false)
		}
		trs := st.SymSlice("transformers", l.TransformerFn, types.NewSlice(l.TransformerFn))
		return u.ctor1(st, fn, ai.Sym("className", ai.SStr, l.Str), f, props, u.parts(st, none), trs)
	})
}

func (u *U) endsTraverse() {
	l := u.L
	fn := u.method("Ast", "Traverse")
	if fn == nil {
		panic(missing{"method Ast.Traverse"})
	}
	u.run("base.Ast.Traverse", fn.Pos(), func() {
		d := u.driver()
		d.Obligations = false
		d.TypeAxiom = u.tagAxiom
		d.Peel = true
		d.OnStoreCell, d.OnLoadCell = nil, nil
		node := ai.Sym("node", ai.SortOf(l.Ast), l.Ast)
		sig := fn.Signature
		var args []*ai.T
		st := ai.NewState()
		args = append(args, node)
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			a := ai.Sym("handler", ai.SortOf(p.Type()), p.Type())
			if i < 3 {
				st.F.Assume(ai.Eq(a, ai.Nil(p.Type())), false)
			}
			args = append(args, a)
		}
		results := func(st *ai.State, sig *types.Signature) *ai.T {
			var r []*ai.T
			for i := 0; i < sig.Results().Len(); i++ {
				t := sig.Results().At(i).Type()
				r = append(r, ai.Fresh("result", ai.SortOf(t), t))
			}
			switch len(r) {
			case 0:
				return nil
			case 1:
				return r[0]
			}
			return ai.Tuple(r...)
		}
		d.OnFunc = func(e *ai.Eng, st *ai.State, f *ai.T, args []*ai.T, sig *types.Signature, pos token.Pos) ([]ai.Outcome, bool) {
			if sig == nil {
				return nil, false
			}
			return []ai.Outcome{{Val: results(st, sig), St: st}}, true
		}
		d.OnStatic = func(e *ai.Eng, st *ai.State, f *ssa.Function, args []*ai.T, pos token.Pos) ([]ai.Outcome, bool) {
			if f != fn || !e.Running(f) {
				return nil, false
			}
			return []ai.Outcome{{Val: results(st, sig), St: st}}, true
		}
		u.Outcomes += len(u.E.CallFn(fn, args, st, token.NoPos))
	})
}

func (u *U) endsRules() {
	outer := u.fn(basePkg, "ProductionRule")
	l := u.L
	precT := u.W.Named(basePkg, "Precedence")
	if precT == nil {
		panic(missing{"type base.Precedence"})
	}
	u.run("base.ProductionRule", outer.Pos(), func() {
		d := u.driver()
		d.Obligations = false
		d.Peel = true
		st := ai.NewState()
		in := u.input(st, false)
		d.OnFunc = func(e *ai.Eng, st *ai.State, f *ai.T, args []*ai.T, sig *types.Signature, pos token.Pos) ([]ai.Outcome, bool) {
			if sig == nil || len(args) != 1 || !types.Identical(sig.Params().At(0).Type(), l.Ctx) {
				return nil, false
			}
			var outs []ai.Outcome
			src := l.c(args[0], "Slice")
			if src.Op != "iface" {
				e.GiveUp("the list given to a rule")
			}
			for k := 0; k < 3; k++ {
				s := st.Clone()
				s.Note("%s: the rule returns status %d", e.PosStr(pos), k)
				b := ai.Fresh("made", ai.SSeq, l.Ast)
				s.F.Assume(ai.Le(ai.Int(0), ai.SeqLenBase(b)), true)
				q := ai.Fresh("end", ai.SInt, types.Typ[types.Int])
				s.F.Assume(ai.Le(l.c(args[0], "Position"), q), true)
				s.F.Assume(ai.Le(q, ai.SeqLen(s.Content(src.A[0]))), true)
				c := l.cw(args[0], "MatchStatus", status([]int{sMatched, sUnmatched, sError}[k]))
				c = l.cw(c, "AstStack", e.Append(s, l.c(args[0], "AstStack"), ai.SeqOf(b), l.Ast, l.AstSlice, pos))
				c = l.cw(c, "Position", q)
				outs = append(outs, ai.Outcome{Val: ai.Tuple(c, ai.Nil(l.Err)), St: s})
			}
			return outs, true
		}
		precs := st.SymSlice("precedences", precT, types.NewSlice(precT))
		check := ai.Sym("check", ai.SFunc, l.ParserFn)
		st.F.Assume(ai.Eq(check, ai.Nil(l.ParserFn)), false)
		asts := st.SymSlice("asts", l.Ast, l.AstSlice)
		st, tv := u.ctor1(st, outer, precs, check)
		u.Outcomes += len(u.E.CallValue(tv, []*ai.T{in.Ctx, asts}, nil, st, token.NoPos))
	})
}

func init() {
	register("ends.LookBehind", nil, func(u *U) {
		for _, n := range []string{"LookBehind", "LookBehindN"} {
			u.endsParser(n, func(st *ai.State, in *In, fn *ssa.Function) (*ai.State, *ai.T) {
				min := ai.Sym("minN", ai.SInt, types.Typ[types.Int])
				st.F.Assume(ai.Le(ai.Int(0), min), true)
				return u.ctor1(st, fn, min, ai.Sym("maxN", ai.SInt, types.Typ[types.Int]), u.parts(st, false))
			})
		}
	})
	register("ends.BaseParser", nil, func(u *U) {
		for _, impl := range []bool{false, true} {
			for _, none := range []bool{false, true} {
				u.endsBase(impl, none)
				u.endsBase(impl, none, "ThereExists")
				u.endsBase(impl, none, "Rewind", "Negative")
			}
		}
	})
	register("ends.Traverse", nil, func(u *U) { u.endsTraverse() })
	register("ends.ProductionRule", nil, func(u *U) { u.endsRules() })
}
