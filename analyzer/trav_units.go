package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// traverse: the specification machine of Ast.Traverse. Visits of children
// are taken as what the unit shows for the node (induction over the tree).
func (u *U) traverse() {
	l := u.L
	fn := u.method("Ast", "Traverse")
	if fn == nil {
		panic(missing{"method Ast.Traverse"})
	}
	consT := l.goType("AstCons")
	consN, ok := consT.(*types.Named)
	if !ok {
		panic(missing{"type AstCons"})
	}
	konst := func(n string) *ai.T {
		k, ok := u.W.Const(basePkg, n)
		if !ok {
			panic(missing{"constant " + n})
		}
		return ai.Int(k)
	}
	modes := []*ai.T{konst("WayThereMode_None"), konst("WayThereMode_Lazy"), konst("WayThereMode_Last")}
	opNop, opBreak, opContinue := konst("TraverseOpcode_Nop"), konst("TraverseOpcode_Break"), konst("TraverseOpcode_Continue")
	const vNone, vLazy, vLast = 0, 1, 2
	res := fn.Signature.Results()
	if fn.Signature.Params().Len() != 4 || res.Len() != 5 {
		panic(missing{"signature of Ast.Traverse"})
	}
	for mode := range modes {
		mode := mode
		u.run("base.Ast.Traverse", fn.Pos(), func() {
			d := u.driver()
			d.TypeAxiom = u.tagAxiom
			d.Part = func(g string) bool { return g == "phase" }
			d.OnStoreCell, d.OnLoadCell = nil, nil
			d.OnWrite = func(e *ai.Eng, st *ai.State, o *ai.Obj, idx *ai.T, pos token.Pos, what string) {
				u.bad("C23", "original modified", st, pos, "%s at index %s writes into %s, which belongs to the original tree", what, idx, o.Label)
			}
			s := ai.Sym("node", ai.SortOf(l.Ast), l.Ast)
			node := ai.Sym("entered", ai.SortOf(l.Ast), l.Ast) // what the outbound handler returns
			h := make([]*ai.T, 3)
			for i, n := range []string{"fnWayThere", "fnWayBack", "fnChildrenErr"} {
				h[i] = ai.Sym(n, ai.SFunc, fn.Signature.Params().At(i).Type())
			}
			ctx := ai.Sym("ctx", ai.SIface, l.Any)
			nilErr, nilAny := ai.Nil(l.Err), ai.Nil(l.Any)
			cons := ai.As(l.a(node, "Value"), consT)
			car, cdr := F(cons, consN, "Car"), F(cons, consN, "Cdr")
			list := ai.As(l.a(node, "Value"), l.AstSlice)
			visited := func(c *ai.T) *ai.T { return ai.App("visited", ai.SortOf(l.Ast), l.Ast, c) }
			// child i of the node, nil if there is none
			childAt := func(st *ai.State, i *ai.T) *ai.T {
				switch {
				case holds(st, ai.Eq(l.a(node, "Type"), ai.Int(l.AstT["AstCons"]))):
					if same(st, i, ai.Int(0)) {
						return car
					}
					if same(st, i, ai.Int(1)) {
						return cdr
					}
				case holds(st, ai.Eq(l.a(node, "Type"), ai.Int(l.AstT["ListOfAst"]))):
					return ai.At(ai.BaseOf(st.Content(list)), i, l.Ast)
				}
				return nil
			}
			count := func(st *ai.State) *ai.T {
				switch {
				case mode == vLazy:
				case holds(st, ai.Eq(l.a(node, "Type"), ai.Int(l.AstT["AstCons"]))):
					return ai.Int(2)
				case holds(st, ai.Eq(l.a(node, "Type"), ai.Int(l.AstT["ListOfAst"]))):
					return ai.SeqLen(st.Content(list))
				}
				return ai.Int(0)
			}
			// settle the phase after a step
			settle := func(st *ai.State) []*ai.State {
				var r []*ai.State
				for _, f := range forkBy(st, ai.Lt(st.G("i"), count(st))) {
					if f.v[0] {
						f.st.SetG("phase", ai.Str("children"))
					} else {
						f.st.SetG("phase", ai.Str("back"))
					}
					r = append(r, f.st)
				}
				return r
			}
			visit := func(e *ai.Eng, st *ai.State, c *ai.T, pos token.Pos) []ai.Outcome {
				if !u.need(st.G("phase").S == "children", "C23", "child visited out of turn", st, "the child %s is visited at the wrong time (%s)", c, st.G("phase").S) {
					return nil
				}
				i := st.G("i")
				want := childAt(st, i)
				if !u.need(want != nil && same(st, c, want), "C23", "order of children", st, "the child %s is visited where child %s is next", c, i) {
					return nil
				}
				var outs []ai.Outcome
				out := func(st *ai.State, v, pc, op, thrown, err *ai.T) {
					outs = append(outs, ai.Outcome{Val: ai.Tuple(v, pc, op, thrown, err), St: st})
				}
				pc := ai.Fresh("pcIncr", ai.SInt, res.At(1).Type())
				op := ai.Fresh("opcode", ai.SInt, res.At(2).Type())
				for k := 0; k < 4; k++ {
					t := st.Clone()
					v := visited(c)
					if mode == vLast && holds(t, ai.Eq(l.a(node, "Type"), ai.Int(l.AstT["ListOfAst"]))) {
						v = ai.Fresh("value", ai.SortOf(l.Ast), l.Ast)
					}
					if k == 0 {
						t.Note("%s: the child is traversed", e.PosStr(pos))
						if mode != vLast || !holds(t, ai.Eq(l.a(node, "Type"), ai.Int(l.AstT["ListOfAst"]))) {
							t.SetG("i", ai.AddK(i, 1))
							for _, t := range settle(t) {
								out(t, v, pc, op, nilAny, nilErr)
							}
							continue
						}
						for j, o := range []*ai.T{opNop, opBreak, opContinue} {
							t := t.Clone()
							from := i
							switch j {
							case 0:
								t.SetG("last", v)
							case 1:
								from = ai.AddK(count(t), -1)
							case 2:
								from = ai.Int(-1)
							}
							if !t.F.Assume(ai.Le(ai.Int(-1), ai.Add(from, pc)), true) {
								continue // a jump before the first child is an error of the handler
							}
							t.SetG("i", ai.AddK(ai.Add(from, pc), 1))
							for _, t := range settle(t) {
								out(t, v, pc, o, nilAny, nilErr)
							}
						}
						continue
					}
					t.Note("%s: the traversal of the child fails", e.PosStr(pos))
					thrown, err := nilAny, nilErr
					if k&1 != 0 {
						thrown = ai.Fresh("thrown", ai.SIface, l.Any)
						t.F.Assume(ai.Eq(thrown, nilAny), false)
					}
					if k&2 != 0 {
						err = u.anErr(t)
					}
					t.SetG("phase", ai.Str("notify"))
					t.SetG("failed", v)
					t.SetG("thrown", thrown)
					t.SetG("err", err)
					out(t, v, pc, op, thrown, err)
				}
				return outs
			}
			isChild := func(st *ai.State, args []*ai.T, sig *types.Signature) *ai.T {
				if sig == nil || sig.Results().Len() != res.Len() {
					return nil
				}
				for i := 0; i < res.Len(); i++ {
					if !types.Identical(sig.Results().At(i).Type(), res.At(i).Type()) {
						return nil
					}
				}
				for _, a := range args {
					a = st.Find(a)
					if a.Op == "ptr" {
						for _, o := range u.E.Load(st, a, token.NoPos) {
							a = o.Val
						}
					}
					if a.Typ == nil || ai.TypeStr(a.Typ) != ai.TypeStr(l.Ast) || a == s || a == node {
						continue
					}
					if st.G("phase").S == "there" || sameNode(st, a, s, l) || sameNode(st, a, node, l) {
						continue
					}
					return a
				}
				return nil
			}
			handlers := func(st *ai.State, args []*ai.T) bool {
				for _, a := range args {
					for i := range h {
						if a.Typ != nil && types.Identical(a.Typ, h[i].Typ) && !same(st, a, h[i]) {
							return false
						}
					}
				}
				return true
			}
			d.OnStatic = func(e *ai.Eng, st *ai.State, f *ssa.Function, args []*ai.T, pos token.Pos) ([]ai.Outcome, bool) {
				c := isChild(st, args, f.Signature)
				if c == nil || !e.Running(f) {
					return nil, false
				}
				if !u.need(handlers(st, args), "C23", "handlers of a child", st, "a child is traversed with other handlers") {
					return nil, true
				}
				for _, a := range args {
					if a.Typ != nil && types.Identical(a.Typ, l.Any) {
						u.need(same(st, a, ctx), "C23", "context of a child", st, "a child is traversed with the context %s", a)
					}
				}
				return visit(e, st, c, pos), true
			}
			d.OnFunc = func(e *ai.Eng, st *ai.State, f *ai.T, args []*ai.T, sig *types.Signature, pos token.Pos) ([]ai.Outcome, bool) {
				f = st.Find(f)
				if len(args) > 0 {
					u.need(same(st, args[0], ctx), "C23", "context given to a handler", st, "a handler is given the context %s", args[0])
				}
				switch ph := st.G("phase").S; {
				case same(st, f, h[0]) && len(args) == 2:
					if !u.need(ph == "there", "C23", "outbound handler called again", st, "the outbound handler is called a second time") {
						return nil, true
					}
					u.need(sameResult(st, args[1], s), "C23", "node given to the outbound handler", st, "the outbound handler is given %s", args[1])
					bad := st.Clone()
					err := u.anErr(bad)
					bad.SetG("phase", ai.Str("failed"))
					bad.SetG("thrown", nilAny)
					bad.SetG("err", err)
					outs := []ai.Outcome{{Val: ai.Tuple(node, modes[mode], err), St: bad}}
					for _, f := range forkBy(st, ai.Eq(l.a(node, "Type"), ai.Int(l.AstT["AstCons"])), ai.Eq(l.a(node, "Type"), ai.Int(l.AstT["ListOfAst"]))) {
						for _, t := range settle(f.st) {
							outs = append(outs, ai.Outcome{Val: ai.Tuple(node, modes[mode], nilErr), St: t})
						}
					}
					return outs, true
				case same(st, f, h[1]) && len(args) == 2:
					if !u.need(ph == "back", "C23", "return handler called out of turn", st, "the return handler is called at the wrong time (%s, child %s)", ph, st.G("i")) {
						return nil, true
					}
					got := args[1]
					for i := 0; i < l.Ast.Underlying().(*types.Struct).NumFields(); i++ {
						if n := l.Ast.Underlying().(*types.Struct).Field(i).Name(); n != "Value" {
							u.need(sameResult(st, ai.Sel(got, i), ai.Sel(node, i)), "C23", "node given to the return handler", st, "the return handler is given a node with another %s: %s", n, ai.Sel(got, i))
						}
					}
					v := st.Find(l.a(got, "Value"))
					switch {
					case mode == vLazy || holds(st, ai.Eq(count(st), ai.Int(0))) && !holds(st, ai.Eq(l.a(node, "Type"), ai.Int(l.AstT["ListOfAst"]))):
						u.need(same(st, v, l.a(node, "Value")), "C23", "value of a leaf", st, "the return handler is given the value %s of a node without traversed children", v)
					case holds(st, ai.Eq(l.a(node, "Type"), ai.Int(l.AstT["AstCons"]))):
						if u.need(v.Op == "iface" && ai.TypeStr(v.Typ) == ai.TypeStr(consT), "C23", "value of a cons cell", st, "the return handler is given the value %s", v) {
							a, b := F(v.A[0], consN, "Car"), F(v.A[0], consN, "Cdr")
							u.need(sameResult(st, a, visited(car)) && sameResult(st, b, visited(cdr)), "C23", "value of a cons cell", st, "the cons cell is rebuilt as %s", v)
						}
					default:
						if !u.need(v.Op == "iface" && ai.TypeStr(v.Typ) == ai.TypeStr(l.AstSlice), "C23", "value of a list", st, "the return handler is given the value %s", v) {
							break
						}
						content := st.Content(v.A[0])
						n := ai.SeqLen(st.Content(list))
						if mode == vNone {
							want := ai.NewSeq([]*ai.T{ai.CompSeg(ai.Int(0), n, visited(ai.At(ai.BaseOf(st.Content(list)), ai.Kappa, l.Ast)))})
							u.need(same(st, content, want), "C23", "value of a list", st, "the list is rebuilt as %s, not from the results of its children", content)
							break
						}
						for _, f := range forkBy(st.Clone(), ai.Eq(n, ai.Int(0))) {
							if f.v[0] {
								u.need(same(f.st, ai.SeqLen(content), ai.Int(0)), "C23", "last value of an empty list", f.st, "an empty list becomes %s", content)
								continue
							}
							if !u.need(same(f.st, ai.SeqLen(content), ai.Int(1)), "C23", "last value", f.st, "a list becomes %s in last-value mode", content) {
								continue
							}
							w := f.st.G("last")
							for _, g := range u.E.AtSeq(f.st, content, ai.Int(0), l.Ast) {
								u.need(sameResult(g.St, g.Val, w), "C23", "last value", g.St, "a list becomes %s in last-value mode, not %s", g.Val, w)
							}
						}
					}
					st.SetG("phase", ai.Str("done"))
					return nil, false // the results depend on the node it is given only
				case same(st, f, h[2]) && len(args) == 5:
					if !u.need(ph == "notify", "C23", "error handler called out of turn", st, "the error handler is called at the wrong time (%s)", ph) {
						return nil, true
					}
					u.need(sameResult(st, args[1], node), "C23", "node given to the error handler", st, "the error handler is given %s, not the enclosing node", args[1])
					u.need(sameResult(st, args[2], childAt(st, st.G("i"))) || sameResult(st, args[2], st.G("failed")), "C23", "child given to the error handler", st, "the error handler is given %s, not the child that failed", args[2])
					u.need(same(st, args[3], st.G("thrown")) && same(st, args[4], st.G("err")), "C23", "failure given to the error handler", st, "the error handler is given %s and %s", args[3], args[4])
					st.SetG("phase", ai.Str("failed"))
					return []ai.Outcome{{St: st}}, true
				}
				return nil, false
			}
			st := ai.NewState()
			for i := range h {
				st.F.Assume(ai.Eq(h[i], ai.Nil(h[i].Typ)), false)
			}
			st.SetG("phase", ai.Str("there"))
			st.SetG("i", ai.Int(0))
			st.SetG("last", ai.Zero(l.Ast))
			for _, o := range u.results("C23", "Traverse", u.E.CallFn(fn, []*ai.T{s, h[0], h[1], h[2], ctx}, st, token.NoPos)) {
				thrown, err := o.Val.A[3], o.Val.A[4]
				switch ph := o.St.G("phase").S; ph {
				case "failed":
					u.need(same(o.St, thrown, o.St.G("thrown")) && same(o.St, err, o.St.G("err")), "C23", "failure returned", o.St, "Traverse returns %s and %s after a failure", thrown, err)
				case "done":
					for i := 0; i < 5; i++ {
						x := o.Val.A[i]
						for x.Op == "conv" {
							x = x.A[0]
						}
						u.need(x.Op == "app" && x.S == fmt.Sprintf("call#%d", i) && len(x.A) > 0 && same(o.St, x.A[0], h[1]), "C23", "result of the return handler", o.St, "Traverse returns %s instead of a result of the return handler", o.Val.A[i])
					}
				default:
					u.need(false, "C23", "stopped early", o.St, "Traverse returns (%s) before the return handler has run", ph)
				}
			}
		})
	}
}

// sameNode: the node itself, perhaps with another value.
func sameNode(st *ai.State, a, b *ai.T, l *Lay) bool {
	return same(st, l.a(a, "Position"), l.a(b, "Position")) && same(st, l.a(a, "OpCode"), l.a(b, "OpCode"))
}

func init() {
	register("base.Traverse", []string{"C23"}, func(u *U) { u.traverse() })
}
