package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// sliceLike gives the methods of an unknown source slice their documented
// meaning and checks the indexes it is asked for.
func (u *U) sliceLike(d *ai.Driver) {
	prev := d.OnInvoke
	u.made = map[*ai.T]*ai.T{}
	d.OnInvoke = func(e *ai.Eng, st *ai.State, m *types.Func, recv *ai.T, args []*ai.T, pos token.Pos) ([]ai.Outcome, bool) {
		if recv.Typ == nil || ai.TypeStr(recv.Typ) != ai.TypeStr(u.L.SliceLike) {
			if prev != nil {
				return prev(e, st, m, recv, args, pos)
			}
			return nil, false
		}
		ok := func(v *ai.T) ([]ai.Outcome, bool) { return []ai.Outcome{{Val: v, St: st}}, true }
		need := func(c *ai.T, f string, a ...interface{}) bool {
			return e.Oblige(st, "panic:index", c, pos, f, a...)
		}
		n := u.slLen(st, recv)
		switch m.Name() {
		case "Len":
			return ok(n)
		case "Get":
			if !need(ai.Le(ai.Int(0), args[0]), "element %s of the source may not exist", args[0]) || !need(ai.Lt(args[0], n), "element %s of the source may not exist", args[0]) {
				return nil, true
			}
			return ok(u.slGet(recv, args[0]))
		case "Reslice", "Copy":
			if !need(ai.Le(ai.Int(0), args[0]), "part from %s of the source may not exist", args[0]) ||
				!need(ai.Le(args[0], args[1]), "part [%s:%s] of the source may be inverted", args[0], args[1]) ||
				!need(ai.Le(args[1], n), "part up to %s of the source may not exist", args[1]) {
				return nil, true
			}
			return ok(u.slPart(st, recv, args[0], args[1]))
		case "ItemEquals":
			return ok(u.itemEq(recv, args[0], args[1]))
		case "Make":
			if !need(ai.Le(ai.Int(0), args[0]), "Make with the negative length %s", args[0]) ||
				!need(ai.Le(args[0], args[1]), "Make with the length %s above the capacity %s", args[0], args[1]) {
				return nil, true
			}
			v := ai.Fresh("made", ai.SIface, u.L.SliceLike)
			st.F.Assume(ai.Eq(v, ai.Nil(u.L.SliceLike)), false)
			st.F.Assume(ai.Eq(u.slLen(st, v), args[0]), true)
			u.made[v] = st.NewSlice(ai.NewSeq([]*ai.T{ai.CompSeg(ai.Int(0), args[0], ai.Sym("unset", ai.SIface, u.L.Any))}), u.L.Any, "made", false, types.NewSlice(u.L.Any))
			return ok(v)
		case "Set":
			if made := u.made[recv]; made != nil {
				if !need(ai.Le(ai.Int(0), args[0]), "element %s of the new slice may not exist", args[0]) || !need(ai.Lt(args[0], n), "element %s of the new slice may not exist", args[0]) {
					return nil, true
				}
				e.StoreAt(st, made, args[0], args[1], pos)
				return ok(nil)
			}
			u.bad("C15", "write to the source", st, pos, "the source being parsed is modified")
			return ok(nil)
		}
		return nil, false
	}
}

func (u *U) slLen(st *ai.State, s *ai.T) *ai.T {
	if s.Op == "app" && s.S == "slpart" {
		return ai.Sub(s.A[2], s.A[1])
	}
	n := ai.App("inv:Len", ai.SInt, types.Typ[types.Int], s)
	st.F.Assume(ai.Le(ai.Int(0), n), true)
	return n
}

func (u *U) slGet(s, i *ai.T) *ai.T {
	for s.Op == "app" && s.S == "slpart" {
		s, i = s.A[0], ai.Add(s.A[1], i)
	}
	return ai.App("inv:Get", ai.SIface, u.L.Any, s, i)
}

func (u *U) slPart(st *ai.State, s, a, b *ai.T) *ai.T {
	for s.Op == "app" && s.S == "slpart" {
		s, a, b = s.A[0], ai.Add(s.A[1], a), ai.Add(s.A[1], b)
	}
	v := ai.App("slpart", ai.SIface, u.L.SliceLike, s, a, b)
	st.F.Assume(ai.Eq(v, ai.Nil(u.L.SliceLike)), false)
	return v
}

func (u *U) itemEq(s, a, b *ai.T) *ai.T {
	for s.Op == "app" && s.S == "slpart" {
		s = s.A[0]
	}
	if ai.Before(b, a) {
		a, b = b, a
	}
	return ai.App("inv:ItemEquals", ai.SBool, nil, s, a, b)
}

func (u *U) objIn(st *ai.State) *In { return u.input(st, true) }

func (u *U) objDriver() *ai.Driver {
	d := u.driver()
	u.sliceLike(d)
	return d
}

func (u *U) itemToken(in *In) *tokWant {
	x := u.slGet(in.Src, in.P)
	return &tokWant{typ: "Any", length: ai.Int(1), desc: "the element at the position",
		value: func(st *ai.State, v *ai.T) bool { return same(st, v, x) }}
}

func (u *U) partToken(in *In, n *ai.T) *tokWant {
	return &tokWant{typ: "ListOfAny", length: n, desc: "the consumed part of the source",
		value: func(st *ai.State, v *ai.T) bool {
			if v.Op == "iface" {
				return false
			}
			return same(st, v, u.slPart(st, in.Src, in.P, ai.Add(in.P, n)))
		}}
}

var objLeafAll = []string{"C01", "C02", "C10", "C13", "C15", "C19", "C20"}

func objWith(p ...string) []string { return append(append([]string{}, objLeafAll...), p...) }

func init() {
	register("object.simple", objWith("C12"), func(u *U) {
		u.objDriver()
		u.leaf(objPkg, "Any", "C10", "C10", u.objIn, false, u.plain, func(in *In, o Out) []verdict {
			var vs []verdict
			for _, c := range forkBy(o.St, ai.Lt(in.P, in.N)) {
				vs = append(vs, verdict{c.st, c.v[0], endWhy(!c.v[0]), u.itemToken(in)})
			}
			return vs
		})
		u.leaf(objPkg, "End", "C10", "C10", u.objIn, false, u.plain, func(in *In, o Out) []verdict {
			var vs []verdict
			for _, c := range forkBy(o.St, ai.Eq(in.P, in.N)) {
				vs = append(vs, verdict{c.st, c.v[0], endWhy(c.v[0]), nil})
			}
			return vs
		})
	})
	register("object.ObjClassFn", objWith("C12"), func(u *U) {
		d := u.objDriver()
		fnv := ai.Sym("arg:fn", ai.SFunc, nil)
		d.OnFunc = func(e *ai.Eng, st *ai.State, fn *ai.T, args []*ai.T, sig *types.Signature, pos token.Pos) ([]ai.Outcome, bool) {
			return []ai.Outcome{{Val: ai.App("pred", ai.SBool, nil, append([]*ai.T{fn}, args...)...), St: st}}, true
		}
		u.leaf(objPkg, "ObjClassFn", "C12", "C10", u.objIn, false, func(st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) {
			return u.ctor1(st, fn, fnv)
		}, func(in *In, o Out) []verdict {
			var vs []verdict
			for _, c := range forkBy(o.St, ai.Lt(in.P, in.N)) {
				if !c.v[0] {
					vs = append(vs, verdict{c.st, false, endWhy(true), nil})
					continue
				}
				for _, p := range forkBy(c.st, ai.App("pred", ai.SBool, nil, fnv, u.slGet(in.Src, in.P))) {
					why := "the function rejects the element"
					if p.v[0] {
						why = "the function accepts the element"
					}
					vs = append(vs, verdict{p.st, p.v[0], why, u.itemToken(in)})
				}
			}
			return vs
		})
	})
	applies := func(u *U) func(in *In, x *ai.T) []*ai.T {
		return func(in *In, x *ai.T) []*ai.T {
			return []*ai.T{ai.Lt(in.P, in.N), u.itemEq(in.Src, u.slGet(in.Src, in.P), x)}
		}
	}
	left := func(in *In) *ai.T { return ai.Lt(in.P, in.N) }
	item := func(u *U, in *In) *tokWant { return u.itemToken(in) }
	register("object.ObjClass", objWith("C12"), func(u *U) {
		u.after = u.sliceLike
		u.setLeaf(objPkg, &setLeaf{name: "ObjClass", positive: true, applies: applies(u), other: item, avail: left}, u.objIn, false, "C12", "C10")
		u.setLeaf(objPkg, &setLeaf{name: "ObjClassN", positive: false, applies: applies(u), other: item, avail: left}, u.objIn, false, "C12", "C10")
	})
	register("object.Seq", objWith("C12"), func(u *U) { u.objSeq() })
}

func endWhy(end bool) string {
	if end {
		return "the source is used up"
	}
	return "there is an element left"
}

// objSeq: all elements have to be equal; one arbitrary differing element (the
// witness) forbids the match, and a failure needs such an element.
func (u *U) objSeq() {
	fn := u.fn(objPkg, "Seq")
	class := u.class(objPkg, "Seq")
	for _, forced := range []bool{false, true} {
		d := u.objDriver()
		forced := forced
		u.run("object.Seq", fn.Pos(), func() {
			in := u.objIn(ai.NewState())
			arg := u.symArg(in.St, fn, 0, "seq")
			base := ai.BaseOf(in.St.Content(arg))
			n := ai.SeqLenBase(base)
			k := ai.Sym("K", ai.SInt, nil)
			differs := func(i, x *ai.T) *ai.T {
				return ai.Not(u.itemEq(in.Src, u.slGet(in.Src, ai.Add(in.P, i)), x))
			}
			if forced {
				d.Watch[base] = k
				in.St.F.Assume(ai.Le(ai.Int(0), k), true)
				in.St.F.Assume(ai.Lt(k, n), true)
				in.St.F.Assume(differs(k, ai.At(base, k, base.Typ)), true)
				in.St.Note("element K differs")
			}
			st, p := u.ctor1(in.St, fn, arg)
			for _, o := range u.apply(p, in, st) {
				if !u.noError(o, "C10") {
					continue
				}
				if o.Status == sMatched {
					if !u.need(!forced, "C12", "match of a different sequence", o.St, "Seq matches although an element differs") {
						continue
					}
					if !u.need(holds(o.St, ai.Le(ai.Add(in.P, n), in.N)), "C12", "match beyond the source", o.St, "Seq may match although fewer elements are left than it has") {
						continue
					}
					u.leafMatched(in, o, class, u.partToken(in, n), "C10")
					continue
				}
				u.leafUnmatched(in, o)
				if forced || holds(o.St, ai.Lt(in.N, ai.Add(in.P, n))) {
					u.need(true, "C12", "", nil, "")
					continue
				}
				found := false
				for _, x := range o.St.F.Elements(base) {
					i := x.A[1]
					if holds(o.St, differs(i, x)) && holds(o.St, ai.Le(ai.Int(0), i)) && holds(o.St, ai.Lt(i, n)) {
						found = true
					}
				}
				u.need(found, "C12", "failure without a difference", o.St, "Seq does not match, but no element is known to differ")
			}
		})
	}
}
