package main

import (
	"go/types"

	"verif/analyzer/ai"
)

// tokWant describes the token a leaf parser must push.
type tokWant struct {
	typ    string
	length *ai.T
	value  func(st *ai.State, v *ai.T) bool
	desc   string
	chosen string // the property that says which entry of a list is matched
}

// leafProps names the properties the parts of the leaf contract belong to.
type leafProps struct {
	match, token string
}

type caseOf struct {
	st *ai.State
	v  []bool
}

// forkBy enumerates the truth values of conditions.
func forkBy(st *ai.State, conds ...*ai.T) []caseOf {
	cur := []caseOf{{st, nil}}
	for _, c := range conds {
		var next []caseOf
		for _, x := range cur {
			y, n := ai.Fork(x.st, c)
			if y != nil {
				next = append(next, caseOf{y, append(x.v[:len(x.v):len(x.v)], true)})
			}
			if n != nil {
				next = append(next, caseOf{n, append(x.v[:len(x.v):len(x.v)], false)})
			}
		}
		cur = next
	}
	return cur
}

// unchanged checks that the parts of a context no leaf may touch are the same.
func (u *U) envUnchanged(in *In, o Out, prop string) {
	l := u.L
	for _, f := range []string{"Str", "Slice", "Tag"} {
		u.need(same(o.St, l.c(o.Ctx, f), l.c(in.Ctx, f)), prop, "context field changed", o.St,
			"the context field %s is changed to %s", f, l.c(o.Ctx, f))
	}
}

// leafUnmatched checks the contract of an unmatched result.
func (u *U) leafUnmatched(in *In, o Out) {
	l := u.L
	u.need(sameList(o.St, l.c(o.Ctx, "AstStack"), in.S0), "C01", "stack changed on failure", o.St,
		"the parser does not match but leaves the AST stack as %s", o.St.Content(l.c(o.Ctx, "AstStack")))
	u.need(same(o.St, l.c(o.Ctx, "Position"), in.P), "C01", "position changed on failure", o.St,
		"the parser does not match but leaves the position at %s", l.c(o.Ctx, "Position"))
	u.envUnchanged(in, o, "C01")
}

// leafMatched checks the contract of a matched result.
func (u *U) leafMatched(in *In, o Out, class string, tw *tokWant, prop string) {
	l := u.L
	st := o.St
	u.need(same(st, l.c(o.Ctx, "ClassName"), ai.Str(class)), "C20", "class name of the result", st,
		"the matched context is labelled %s, not %q", l.c(o.Ctx, "ClassName"), class)
	u.need(same(st, l.c(o.Ctx, "Quantity"), ai.Int(1)), prop, "quantity of a match", st,
		"the quantity of a single match is %s", l.c(o.Ctx, "Quantity"))
	u.envUnchanged(in, o, prop)
	got := st.Content(l.c(o.Ctx, "AstStack"))
	if tw == nil {
		u.need(same(st, got, in.S0), prop, "zero-width parser changes the stack", st, "a zero-width match leaves the AST stack as %s", got)
		u.need(same(st, l.c(o.Ctx, "Position"), in.P), prop, "zero-width parser moves", st, "a zero-width match moves the position to %s", l.c(o.Ctx, "Position"))
		u.need(same(st, l.c(o.Ctx, "Length"), ai.Int(0)), prop, "zero-width parser reports a length", st, "a zero-width match reports the length %s", l.c(o.Ctx, "Length"))
		return
	}
	end := ai.Add(in.P, tw.length)
	if tw.chosen != "" {
		u.need(same(st, l.c(o.Ctx, "Position"), end), tw.chosen, "first entry that applies", st,
			"the position after the match is %s, not %s as for the first entry that applies", l.c(o.Ctx, "Position"), end)
	}
	u.need(same(st, l.c(o.Ctx, "Position"), end), prop, "position after a match", st,
		"the position after the match is %s, not %s", l.c(o.Ctx, "Position"), end)
	u.need(same(st, l.c(o.Ctx, "Length"), tw.length), prop, "length after a match", st,
		"the context reports the length %s, not %s", l.c(o.Ctx, "Length"), tw.length)
	u.need(holds(st, ai.Le(in.P, l.c(o.Ctx, "Position"))) && holds(st, ai.Le(l.c(o.Ctx, "Position"), in.N)), "C13", "position leaves the source", st,
		"the position after the match, %s, may lie outside of the source", l.c(o.Ctx, "Position"))
	n := ai.SeqLen(got)
	if !u.need(same(st, n, ai.AddK(in.SLen, 1)), prop, "one token per match", st, "the AST stack grows by %s", ai.Sub(n, in.SLen)) {
		return
	}
	if !u.need(same(st, st.SubSeq(got, ai.Int(0), in.SLen), in.S0), "C02", "older entries changed", st, "the entries already on the AST stack become %s", st.SubSeq(got, ai.Int(0), in.SLen)) {
		return
	}
	toks := u.E.AtSeq(st, got, in.SLen, l.Ast)
	if len(toks) != 1 {
		u.E.GiveUp("token of a leaf parser")
	}
	tok := toks[0].Val
	u.token(st, tok, class, tw, in.P, prop)
}

// token checks the fields of a pushed token.
func (u *U) token(st *ai.State, tok *ai.T, class string, tw *tokWant, pos *ai.T, prop string) {
	l := u.L
	u.need(same(st, l.a(tok, "ClassName"), ai.Str(class)), "C20", "class name of the token", st,
		"the token is labelled %s, not %q", l.a(tok, "ClassName"), class)
	u.need(same(st, l.a(tok, "Type"), ai.Int(l.AstT[tw.typ])), "C19", "type tag of the token", st,
		"the token has the type tag %s, not %s", l.a(tok, "Type"), tw.typ)
	u.need(same(st, l.a(tok, "Type"), ai.Int(l.AstT[tw.typ])), prop, "type tag of the token", st,
		"the token has the type tag %s, not %s", l.a(tok, "Type"), tw.typ)
	u.need(tw.value(st, st.Find(l.a(tok, "Value"))), prop, "value of the token", st,
		"the token has the value %s, not %s", l.a(tok, "Value"), tw.desc)
	u.need(same(st, l.a(tok, "Position"), pos), prop, "position of the token", st,
		"the token has the position %s, not %s", l.a(tok, "Position"), pos)
	u.need(same(st, l.a(tok, "Length"), tw.length), prop, "length of the token", st,
		"the token has the length %s, not %s", l.a(tok, "Length"), tw.length)
	u.need(same(st, l.a(tok, "OpCode"), ai.Int(0)), prop, "opcode of the token", st, "the token has the opcode %s", l.a(tok, "OpCode"))
}

// runeToken is the token of a parser that consumes one code point.
func (u *U) runeToken(in *In) *tokWant {
	r, w := ai.RuneAt(in.Src, in.P)
	txt := ai.Substr(in.Src, in.P, ai.Add(in.P, w))
	return &tokWant{typ: "String", length: w, desc: "the consumed character",
		value: func(st *ai.State, v *ai.T) bool {
			if v.Op != "iface" || ai.TypeStr(v.Typ) != "string" {
				return false
			}
			x := v.A[0]
			if same(st, x, ai.App("runestr", ai.SStr, types.Typ[types.String], r)) || same(st, x, txt) {
				return true
			}
			if k, ok := st.F.BoundsOf(r).IsSingle(); ok {
				return same(st, x, ai.Str(string(rune(k))))
			}
			return false
		}}
}

// textToken is the token of a parser that consumes a text.
func (u *U) textToken(in *In, n *ai.T) *tokWant {
	txt := ai.Substr(in.Src, in.P, ai.Add(in.P, n))
	return &tokWant{typ: "String", length: n, desc: "the consumed text",
		value: func(st *ai.State, v *ai.T) bool {
			return v.Op == "iface" && ai.TypeStr(v.Typ) == "string" && same(st, v.A[0], txt)
		}}
}

// runeStates are the ways a code point can lie at the position: none, ASCII,
// or beyond ASCII (including malformed text).
func (u *U) runeStates(build func(st *ai.State) *In) []*In {
	var r []*In
	for k := 0; k < 3; k++ {
		st := ai.NewState()
		in := build(st)
		ch, w := ai.RuneAt(in.Src, in.P)
		b := ai.StrAt(in.Src, in.P)
		switch k {
		case 0:
			st.F.Assume(ai.Eq(in.P, in.N), true)
			st.Note("at the end of the source")
		case 1:
			st.F.Assume(ai.Lt(in.P, in.N), true)
			st.F.Assume(ai.Lt(b, ai.Int(0x80)), true)
			st.F.Assume(ai.Eq(ch, b), true)
			st.F.Assume(ai.Eq(w, ai.Int(1)), true)
			st.Note("at an ASCII character")
		case 2:
			st.F.Assume(ai.Lt(in.P, in.N), true)
			st.F.Assume(ai.Le(ai.Int(0x80), b), true)
			st.F.Assume(ai.Le(ai.Int(0x80), ch), true)
			st.F.Assume(ai.In(w, ai.Range(1, 4)), true)
			st.F.Assume(ai.Le(ai.Add(in.P, w), in.N), true)
			st.Note("at a character beyond ASCII")
		}
		r = append(r, in)
	}
	return r
}

// noError checks that a leaf returns no error.
func (u *U) noError(o Out, prop string) bool {
	return u.need(o.ErrNil && o.Status != sError, prop, "unexpected error", o.St, "the parser reports an error for a plain input")
}
