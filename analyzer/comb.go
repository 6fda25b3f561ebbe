package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// comb is the specification machine of a combinator.  It runs in ghost
// variables next to the code: every call of an unknown sub-parser is compared
// with the call the specification expects next, and the result of the
// combinator is compared with what the calls imply.
type comb struct {
	u        *U
	in       *In
	name     string
	prop     string // the property of this combinator
	alt      bool   // ordered choice
	neg      bool
	rewind   bool
	group    string // class name of the grouping token
	min, max *ai.T  // number of rounds
	kids     *ai.T  // content of the children
	single   *ai.T  // or the only child
	n        *ai.T  // number of children
	trs      *ai.T  // content of the transformers
	nt       *ai.T
	behind   bool
	fn       *ai.T // callback of BaseParser
	traced   bool
	// loose: the sub-parsers may replace entries that were on the stack before,
	// as a pattern matcher does.
	loose bool
}

func (c *comb) part(g string) bool { return g == "phase" }

func (c *comb) start(st *ai.State) {
	st.SetG("phase", ai.Str("full"))
	st.SetG("idx", ai.Int(0))
	st.SetG("count", ai.Int(0))
	st.SetG("pos", c.in.P)
	st.SetG("stk", c.in.S0)
	st.SetG("tag", c.u.L.c(c.in.Ctx, "Tag"))
	st.SetG("spos", c.in.P)
	st.SetG("sstk", c.in.S0)
	st.SetG("stag", c.u.L.c(c.in.Ctx, "Tag"))
	if c.behind {
		st.SetG("off", c.min)
	}
	if c.nt != nil {
		st.SetG("tidx", ai.Int(0))
		st.SetG("tval", ai.NewSeq(nil))
	}
}

// member finds the index of a function in a list of functions.
func (u *U) member(st *ai.State, fn, content *ai.T) *ai.T {
	if content == nil {
		return nil
	}
	for i, g := range content.A {
		if g.Op == "elem" && same(st, g.A[0], fn) {
			return ai.Int(int64(i))
		}
	}
	if fn.Op == "app" && fn.S == "at" && len(content.A) > 0 && fn.A[0] == ai.BaseOf(content) {
		return fn.A[1]
	}
	return nil
}

func (c *comb) onFunc(e *ai.Eng, st *ai.State, fn *ai.T, args []*ai.T, sig *types.Signature, pos token.Pos) ([]ai.Outcome, bool) {
	if c.single != nil && same(st, fn, c.single) {
		return c.child(st, ai.Int(0), args, pos), true
	}
	if i := c.u.member(st, fn, c.kids); i != nil {
		return c.child(st, i, args, pos), true
	}
	if i := c.u.member(st, fn, c.trs); i != nil {
		return c.trans(st, i, args, pos), true
	}
	if c.fn != nil && same(st, fn, c.fn) {
		return c.callback(st, args, pos), true
	}
	return nil, false
}

func (c *comb) bad(prop, rule string, st *ai.State, pos token.Pos, f string, a ...interface{}) {
	c.u.Checks[prop]++
	c.u.bad(prop, rule, st, pos, f, a...)
}

func (c *comb) need(ok bool, prop, rule string, st *ai.State, pos token.Pos, f string, a ...interface{}) bool {
	c.u.Checks[prop]++
	if !ok {
		c.u.bad(prop, rule, st, pos, f, a...)
	}
	return ok
}

// entry checks the context given to a sub-parser.
func (c *comb) entry(st *ai.State, ctx *ai.T, pos token.Pos, prop, what string) bool {
	l := c.u.L
	ok := c.need(same(st, l.c(ctx, "Position"), st.G("pos")), prop, "position given to a sub-parser", st, pos,
		"%s %s starts at the position %s, not at %s", c.name, what, l.c(ctx, "Position"), st.G("pos"))
	got := st.Content(l.c(ctx, "AstStack"))
	ok = c.need(same(st, got, st.G("stk")), prop, "AST stack given to a sub-parser", st, pos,
		"%s %s starts with the AST stack %s, not %s", c.name, what, got, st.G("stk")) && ok
	ok = c.need(same(st, l.c(ctx, "Tag"), st.G("tag")), prop, "tag given to a sub-parser", st, pos,
		"%s %s starts with the tag %s, not %s", c.name, what, l.c(ctx, "Tag"), st.G("tag")) && ok
	for _, f := range []string{"Str", "Slice"} {
		ok = c.need(same(st, l.c(ctx, f), l.c(c.in.Ctx, f)), prop, "source given to a sub-parser", st, pos,
			"%s %s is given another source: %s", c.name, what, l.c(ctx, f)) && ok
	}
	return ok
}

func (c *comb) child(st *ai.State, i *ai.T, args []*ai.T, pos token.Pos) []ai.Outcome {
	ctx := args[0]
	switch st.G("phase").S {
	case "full", "run":
	case "error":
		c.bad("C03", "sub-parser called after an error", st, pos, "%s calls a sub-parser after another one reported an error", c.name)
		return nil
	default:
		if c.behind && st.G("phase").S == "beyond" {
			if p := c.u.L.c(ctx, "Position"); !c.need(holds(st, ai.Le(ai.Int(0), p)), "C13", "position outside the source", st, pos, "%s calls a sub-parser at the position %s, which may lie before the start of the source", c.name, p) {
				return nil
			}
		}
		c.bad(c.prop, "sub-parser called after the end", st, pos, "%s calls a sub-parser although its result is settled (%s)", c.name, st.G("phase").S)
		return nil
	}
	if !c.need(same(st, i, st.G("idx")), c.prop, "order of sub-parsers", st, pos, "%s calls sub-parser %s where sub-parser %s is next", c.name, i, st.G("idx")) {
		return nil
	}
	var outs []ai.Outcome
	{
		s := st
		what, prop := "a sub-parser", c.prop
		first := st.G("phase").S == "full"
		if first && !c.behind {
			ok := holds(s, ai.Lt(c.max, ai.Int(0))) || holds(s, ai.Lt(s.G("count"), c.max))
			if !c.need(ok, c.prop, "more rounds than allowed", s, pos, "%s starts round %s although at most %s are allowed", c.name, ai.AddK(s.G("count"), 1), c.max) {
				return nil
			}
			s.SetG("spos", s.G("pos"))
			s.SetG("sstk", s.G("stk"))
			s.SetG("stag", s.G("tag"))
		}
		if first && c.behind {
			if !c.need(holds(s, ai.Le(s.G("off"), c.max)), c.prop, "distance beyond the maximum", s, pos, "%s looks back by %s although at most %s is allowed", c.name, s.G("off"), c.max) {
				return nil
			}
			s.SetG("pos", ai.Sub(c.in.P, s.G("off")))
			s.SetG("stk", c.in.S0)
			s.SetG("tag", c.u.L.c(c.in.Ctx, "Tag"))
		}
		if c.alt && !first {
			what, prop = "an alternative tried after a failed one", "C01"
		}
		if !c.entry(s, ctx, pos, prop, what) {
			return nil
		}
		if c.alt {
			c.entry(s, ctx, pos, c.prop, what)
		}
		outs = append(outs, c.results(s, ctx, pos)...)
	}
	return outs
}

// fresh builds a result context of an unknown sub-parser.
func (c *comb) fresh(st *ai.State, ctx *ai.T, status int, pos token.Pos) (r, content, p, tag *ai.T) {
	l := c.u.L
	b := ai.Fresh("parsed", ai.SSeq, l.Ast)
	st.F.Assume(ai.Le(ai.Int(0), ai.SeqLenBase(b)), true)
	content = ai.SeqOf(b)
	var stack *ai.T
	if c.loose {
		// storage of its own, with room to grow
		n, room := ai.SeqLen(content), ai.Fresh("cap", ai.SInt, types.Typ[types.Int])
		st.F.Assume(ai.Le(n, room), true)
		id := st.NewObj(&ai.Obj{Kind: 'a', Seq: content, Fam: ai.NewFam(), Prot: ai.Int(0), Label: "replaced", Elem: l.Ast})
		stack = ai.SliceV(id, ai.Int(0), n, room, l.AstSlice)
	} else {
		stack = c.u.E.Append(st, l.c(ctx, "AstStack"), content, l.Ast, l.AstSlice, pos)
	}
	p = ai.Fresh("newpos", ai.SInt, types.Typ[types.Int])
	st.F.Assume(ai.Le(ai.Int(0), p), true)
	st.F.Assume(ai.Le(p, c.in.N), true)
	tag = ai.Fresh("newtag", ai.SIface, l.Any)
	r = l.cw(ctx, "AstStack", stack)
	r = l.cw(r, "Position", p)
	r = l.cw(r, "Tag", tag)
	r = l.cw(r, "Length", ai.Fresh("len", ai.SInt, types.Typ[types.Int]))
	r = l.cw(r, "Quantity", ai.Fresh("qty", ai.SInt, types.Typ[types.Int]))
	r = l.cw(r, "ClassName", ai.Fresh("cls", ai.SStr, types.Typ[types.String]))
	r = l.cw(r, "MatchStatus", statusOf(status))
	return
}

func statusOf(k int) *ai.T { return status(k) }

func (c *comb) anError(st *ai.State) *ai.T {
	err := ai.Fresh("err", ai.SIface, c.u.L.Err)
	st.F.Assume(ai.Eq(err, ai.Nil(c.u.L.Err)), false)
	return err
}

func (c *comb) results(st *ai.State, ctx *ai.T, pos token.Pos) []ai.Outcome {
	var outs []ai.Outcome
	nilErr := ai.Nil(c.u.L.Err)
	where := c.u.E.PosStr(pos)
	// matched
	{
		s := st.Clone()
		s.Note("%s: the sub-parser matches", where)
		r, m, p, tag := c.fresh(s, ctx, sMatched, pos)
		if c.loose {
			s.SetG("stk", m)
		} else {
			s.SetG("stk", ai.NewSeq([]*ai.T{s.G("stk"), m}))
		}
		s.SetG("pos", p)
		s.SetG("tag", tag)
		next := ai.AddK(s.G("idx"), 1)
		var cs []caseOf
		if c.alt {
			cs = []caseOf{{s, []bool{true}}}
		} else {
			cs = forkBy(s, ai.Eq(next, c.n))
		}
		for _, f := range cs {
			s := f.st
			if f.v[0] {
				switch {
				case c.behind:
					s.SetG("phase", ai.Str("matched"))
				case c.fn != nil:
					s.SetG("phase", ai.Str("callback"))
				default:
					s.SetG("phase", ai.Str("full"))
					s.SetG("count", ai.AddK(s.G("count"), 1))
				}
				s.SetG("idx", ai.Int(0))
			} else {
				s.SetG("phase", ai.Str("run"))
				s.SetG("idx", next)
			}
			outs = append(outs, ai.Outcome{Val: ai.Tuple(r, nilErr), St: s})
		}
	}
	// unmatched
	{
		s := st.Clone()
		s.Note("%s: the sub-parser does not match", where)
		r, _, _, _ := c.fresh(s, ctx, sUnmatched, pos)
		next := ai.AddK(s.G("idx"), 1)
		switch {
		case c.alt:
			for _, f := range forkBy(s, ai.Eq(next, c.n)) {
				if f.v[0] {
					c.fail(f.st)
				} else {
					f.st.SetG("phase", ai.Str("run"))
					f.st.SetG("idx", next)
				}
				outs = append(outs, ai.Outcome{Val: ai.Tuple(r, nilErr), St: f.st})
			}
		case c.behind:
			s.SetG("off", ai.AddK(s.G("off"), 1))
			s.SetG("idx", ai.Int(0))
			for _, s := range c.within(s) {
				outs = append(outs, ai.Outcome{Val: ai.Tuple(r, nilErr), St: s})
			}
		default:
			c.fail(s)
			outs = append(outs, ai.Outcome{Val: ai.Tuple(r, nilErr), St: s})
		}
	}
	// errors
	for k := 0; k < 4; k++ {
		s := st.Clone()
		stat, err := sError, nilErr
		if k > 0 {
			err = c.anError(s)
			stat = k - 1
		}
		s.Note("%s: the sub-parser reports an error", where)
		r, _, _, _ := c.fresh(s, ctx, stat, pos)
		s.SetG("phase", ai.Str("error"))
		s.SetG("err", err)
		outs = append(outs, ai.Outcome{Val: ai.Tuple(r, err), St: s})
	}
	return outs
}

// fail ends the rounds: parsing continues from the start of the failed one.
func (c *comb) fail(s *ai.State) {
	s.SetG("phase", ai.Str("stopped"))
	s.SetG("pos", s.G("spos"))
	s.SetG("stk", s.G("sstk"))
	s.SetG("tag", s.G("stag"))
}

// callback is a call of the implementation function of BaseParser.
func (c *comb) callback(st *ai.State, args []*ai.T, pos token.Pos) []ai.Outcome {
	l := c.u.L
	ctx := args[2]
	final := false
	switch st.G("phase").S {
	case "callback":
	case "full", "stopped":
		final = true
	case "error":
		c.bad("C03", "callback called after an error", st, pos, "the implementation function is called after an error")
		return nil
	default:
		c.bad(c.prop, "callback called at the wrong time", st, pos, "the implementation function is called although the result is settled")
		return nil
	}
	want := ai.Int(-1)
	if !final {
		want = c.n
	}
	if !c.need(same(st, args[0], want), c.prop, "arguments of the callback", st, pos, "the implementation function is told that %s sub-parsers matched, not %s", args[0], want) {
		return nil
	}
	c.need(same(st, args[1], c.in.SLen), c.prop, "arguments of the callback", st, pos, "the implementation function is told that the entries start at %s", args[1])
	if !c.entry(st, ctx, pos, c.prop, "the implementation function") {
		return nil
	}
	if final {
		for _, f := range forkBy(st, ai.Le(c.min, st.G("count"))) {
			if !f.v[0] {
				c.bad(c.prop, "final callback without a match", f.st, pos, "the final call of the implementation function is made although too few rounds matched")
				return nil
			}
		}
	}
	_ = l
	var outs []ai.Outcome
	nilErr := ai.Nil(l.Err)
	for k := 0; k < 3; k++ {
		s := st.Clone()
		r, m, p, tag := c.fresh(s, ctx, k%3, pos)
		switch {
		case k == sMatched:
			s.SetG("stk", ai.NewSeq([]*ai.T{s.G("stk"), m}))
			s.SetG("pos", p)
			s.SetG("tag", tag)
			if final {
				s.SetG("phase", ai.Str("final"))
			} else {
				s.SetG("phase", ai.Str("full"))
				s.SetG("count", ai.AddK(s.G("count"), 1))
			}
		case k == sUnmatched:
			if final {
				s.SetG("phase", ai.Str("rejected"))
			} else {
				c.fail(s)
			}
		default:
			s.SetG("phase", ai.Str("error"))
			s.SetG("err", nilErr)
		}
		outs = append(outs, ai.Outcome{Val: ai.Tuple(r, nilErr), St: s})
	}
	for k := 0; k < 3; k++ {
		s := st.Clone()
		err := c.anError(s)
		r, _, _, _ := c.fresh(s, ctx, k, pos)
		s.SetG("phase", ai.Str("error"))
		s.SetG("err", err)
		outs = append(outs, ai.Outcome{Val: ai.Tuple(r, err), St: s})
	}
	return outs
}

// trans is a call of a transformer.
func (c *comb) trans(st *ai.State, i *ai.T, args []*ai.T, pos token.Pos) []ai.Outcome {
	l := c.u.L
	ctx, asts := args[0], args[1]
	switch st.G("phase").S {
	case "full":
		if !c.need(c.complete(st), "C08", "transformer called too early", st, pos, "a transformer of %s runs before the sub-parser has finished", c.name) {
			return nil
		}
		if c.loose {
			// what is left of the entries, to the end
			in, all := st.Content(asts), st.G("stk")
			rest := ai.Sub(ai.SeqLen(all), ai.SeqLen(in))
			if !c.need(holds(st, ai.Le(ai.Int(0), rest)), "C08", "ASTs given to a transformer", st, pos, "%s gives a transformer %s entries of %s", c.name, ai.SeqLen(in), ai.SeqLen(all)) {
				return nil
			}
			if want := st.SubSeq(all, rest, ai.SeqLen(all)); !c.need(same(st, in, want), "C08", "ASTs given to a transformer", st, pos, "%s gives a transformer the ASTs %s, not %s", c.name, in, want) {
				return nil
			}
			st.SetG("below", st.SubSeq(all, ai.Int(0), rest))
			st.SetG("tval", in)
		} else {
			st.SetG("tval", st.SubSeq(st.G("stk"), c.in.SLen, ai.SeqLen(st.G("stk"))))
		}
		st.SetG("phase", ai.Str("trans"))
	case "trans":
	case "error":
		c.bad("C03", "transformer called after an error", st, pos, "%s runs a transformer after an error", c.name)
		return nil
	default:
		c.bad("C08", "transformer called without a match", st, pos, "%s runs a transformer although the sub-parser does not match", c.name)
		return nil
	}
	if !c.need(same(st, i, st.G("tidx")), "C08", "order of transformers", st, pos, "%s runs transformer %s where transformer %s is next", c.name, i, st.G("tidx")) {
		return nil
	}
	got := st.Content(asts)
	if !c.need(same(st, got, st.G("tval")), "C08", "ASTs given to a transformer", st, pos, "%s gives a transformer the ASTs %s, not %s", c.name, got, st.G("tval")) {
		return nil
	}
	c.need(same(st, l.c(ctx, "Position"), c.in.P), "C08", "context given to a transformer", st, pos, "%s gives a transformer a context at the position %s, not the start %s", c.name, l.c(ctx, "Position"), c.in.P)
	for _, f := range []string{"Str", "Slice", "Tag"} {
		c.need(same(st, l.c(ctx, f), l.c(c.in.Ctx, f)), "C08", "context given to a transformer", st, pos, "%s gives a transformer the %s %s", c.name, f, l.c(ctx, f))
	}
	sc := st.Content(l.c(ctx, "AstStack"))
	c.need(same(st, sc, c.in.S0), "C08", "context given to a transformer", st, pos, "%s gives a transformer a context with the AST stack %s", c.name, sc)
	var outs []ai.Outcome
	nilErr := ai.Nil(l.Err)
	next := ai.AddK(st.G("tidx"), 1)
	{
		s := st.Clone()
		b := ai.Fresh("transformed", ai.SSeq, l.Ast)
		s.F.Assume(ai.Le(ai.Int(0), ai.SeqLenBase(b)), true)
		v := s.NewSlice(ai.SeqOf(b), l.Ast, "transformed", true, l.AstSlice)
		s.SetG("tval", ai.SeqOf(b))
		s.SetG("tidx", next)
		outs = append(outs, ai.Outcome{Val: ai.Tuple(v, nilErr), St: s})
	}
	{
		s := st.Clone()
		s.SetG("tidx", next)
		outs = append(outs, ai.Outcome{Val: ai.Tuple(asts, nilErr), St: s})
	}
	{
		s := st.Clone()
		s.Note("%s: the transformer returns a nil list", c.u.E.PosStr(pos))
		s.SetG("tval", ai.NewSeq(nil))
		s.SetG("tidx", next)
		outs = append(outs, ai.Outcome{Val: ai.Tuple(ai.Nil(l.AstSlice), nilErr), St: s})
	}
	{
		s := st.Clone()
		err := c.anError(s)
		s.Note("%s: the transformer reports an error", c.u.E.PosStr(pos))
		s.SetG("phase", ai.Str("error"))
		s.SetG("err", err)
		outs = append(outs, ai.Outcome{Val: ai.Tuple(asts, err), St: s})
	}
	return outs
}

// complete: the rounds have ended normally.
func (c *comb) complete(st *ai.State) bool {
	return st.G("phase").S == "full" && holds(st, ai.Le(ai.Int(0), c.max)) && holds(st, ai.Le(c.max, st.G("count")))
}

// finish checks the result of the combinator.
func (c *comb) finish(o Out) {
	u, l, st := c.u, c.u.L, o.St
	phase := st.G("phase").S
	if phase == "error" {
		prop := "C03"
		u.need(o.Status == sError, prop, "error lost", st, "%s continues with the status %s after an error", c.name, l.c(o.Ctx, "MatchStatus"))
		u.need(same(st, o.Err, st.G("err")), prop, "error replaced", st, "%s returns the error %s instead of %s", c.name, o.Err, st.G("err"))
		return
	}
	if !u.need(o.ErrNil && o.Status != sError, "C03", "error out of nothing", st, "%s reports an error although no sub-parser did", c.name) {
		return
	}
	got := o.Status == sMatched
	stack := st.Content(l.c(o.Ctx, "AstStack"))
	// entries below the mark
	if c.loose {
	} else if n := ai.SeqLen(stack); holds(st, ai.Le(c.in.SLen, n)) {
		u.need(same(st, st.SubSeq(stack, ai.Int(0), c.in.SLen), c.in.S0), "C02", "older entries changed", st, "%s turns the entries already on the AST stack into %s", c.name, stack)
	} else {
		u.need(false, "C02", "older entries removed", st, "%s may remove entries that were already on the AST stack: %s", c.name, stack)
	}
	for _, f := range []string{"Str", "Slice"} {
		u.need(same(st, l.c(o.Ctx, f), l.c(c.in.Ctx, f)), c.prop, "source changed", st, "%s changes the source to %s", c.name, l.c(o.Ctx, f))
	}
	if c.behind {
		c.finishBehind(o, got, stack)
		return
	}
	switch phase {
	case "callback":
		u.need(false, c.prop, "callback not called", st, "the implementation function is not called for a matched round")
		return
	case "rejected":
		u.need(!got, c.prop, "final callback ignored", st, "the parser matches although its implementation function rejects")
		return
	case "run", "full":
		if !u.need(c.complete(st), c.prop, "ends too early", st, "%s ends although sub-parser %s of round %s should be tried (limit %s)", c.name, st.G("idx"), ai.AddK(st.G("count"), 1), c.max) {
			return
		}
	}
	for _, f := range forkBy(st, ai.Le(c.min, st.G("count"))) {
		o := o
		o.St = f.st
		st := f.st
		want := f.v[0] != c.neg
		if got != want {
			if want {
				u.need(false, c.prop, "must match", st, "%s does not match although %s rounds matched and at least %s are required", c.name, st.G("count"), c.min)
			} else {
				u.need(false, c.prop, "must not match", st, "%s matches although %s rounds matched and at least %s are required", c.name, st.G("count"), c.min)
			}
			continue
		}
		u.need(true, c.prop, "", nil, "")
		if !got {
			continue
		}
		if c.rewind || c.neg {
			c.unchanged(o, stack)
			continue
		}
		prop := c.prop
		if phase == "stopped" {
			prop = "C01"
		}
		u.need(same(st, l.c(o.Ctx, "Position"), st.G("pos")), prop, "position of the result", st, "%s leaves the position at %s, not at %s", c.name, l.c(o.Ctx, "Position"), st.G("pos"))
		u.need(same(st, l.c(o.Ctx, "Tag"), st.G("tag")), prop, "tag of the result", st, "%s leaves the tag %s, not %s", c.name, l.c(o.Ctx, "Tag"), st.G("tag"))
		if c.fn == nil {
			u.need(same(st, l.c(o.Ctx, "Quantity"), st.G("count")), c.prop, "quantity of the result", st, "%s reports the quantity %s, not %s", c.name, l.c(o.Ctx, "Quantity"), st.G("count"))
		}
		switch {
		case c.loose && (c.group != "" || c.nt != nil && phase != "trans"):
		case c.group != "":
			c.grouped(o, stack)
		case c.nt != nil:
			want := st.G("stk")
			if phase == "trans" {
				if !u.need(same(st, st.G("tidx"), c.nt), "C08", "transformer skipped", st, "%s runs only %s of %s transformers", c.name, st.G("tidx"), c.nt) {
					continue
				}
				below := c.in.S0
				if c.loose {
					below = st.G("below")
				}
				want = ai.NewSeq([]*ai.T{below, st.G("tval")})
			} else if !u.need(holds(st, ai.Le(c.nt, ai.Int(0))), "C08", "transformer skipped", st, "%s runs no transformer", c.name) {
				continue
			}
			u.need(same(st, stack, want), "C08", "AST stack of the result", st, "%s leaves the AST stack as %s, not %s", c.name, stack, want)
		default:
			u.need(same(st, stack, st.G("stk")), prop, "AST stack of the result", st, "%s leaves the AST stack as %s, not %s", c.name, stack, st.G("stk"))
		}
	}
}

// unchanged: a zero-width result.
func (c *comb) unchanged(o Out, stack *ai.T) {
	u, l, st := c.u, c.u.L, o.St
	u.need(same(st, l.c(o.Ctx, "Position"), c.in.P), c.prop, "look-around moves", st, "%s matches but moves the position to %s", c.name, l.c(o.Ctx, "Position"))
	u.need(same(st, stack, c.in.S0), c.prop, "look-around leaves ASTs", st, "%s matches but leaves the AST stack as %s", c.name, stack)
	u.need(same(st, l.c(o.Ctx, "Tag"), l.c(c.in.Ctx, "Tag")), c.prop, "look-around changes the tag", st, "%s matches but leaves the tag %s", c.name, l.c(o.Ctx, "Tag"))
}

func (c *comb) finishBehind(o Out, got bool, stack *ai.T) {
	u, st := c.u, o.St
	phase := st.G("phase").S
	found := phase == "matched"
	if !found {
		ok := phase == "beyond" || phase == "full" && holds(st, ai.Lt(c.max, st.G("off")))
		if !u.need(ok, c.prop, "distance not tried", st, "%s gives up at the distance %s although distances up to %s are allowed", c.name, st.G("off"), c.max) {
			return
		}
	}
	want := found != c.neg
	if !u.need(got == want, c.prop, "look-behind result", st, "%s: found %v, matched %v", c.name, found, got) {
		return
	}
	if got {
		c.unchanged(o, stack)
	}
}

// grouped checks the token of Group.
func (c *comb) grouped(o Out, stack *ai.T) {
	u, l, st := c.u, c.u.L, o.St
	if !u.need(same(st, ai.SeqLen(stack), ai.AddK(c.in.SLen, 1)), "C08", "one group token", st, "Group leaves %s new entries on the AST stack", ai.Sub(ai.SeqLen(stack), c.in.SLen)) {
		return
	}
	tok := u.E.AtSeq(st, stack, c.in.SLen, l.Ast)[0].Val
	u.need(same(st, l.a(tok, "ClassName"), ai.Str(c.group)), "C20", "class name of the group", st, "the group is labelled %s, not %q", l.a(tok, "ClassName"), c.group)
	u.groupValue(st, tok, st.SubSeq(st.G("stk"), c.in.SLen, ai.SeqLen(st.G("stk"))), "C08")
}

// groupValue checks a token that holds a list of ASTs.
func (u *U) groupValue(st *ai.State, tok, want *ai.T, prop string) {
	l := u.L
	u.need(same(st, l.a(tok, "Type"), ai.Int(l.AstT["ListOfAst"])), "C19", "type tag of the group", st, "the group has the type tag %s", l.a(tok, "Type"))
	u.need(same(st, l.a(tok, "Type"), ai.Int(l.AstT["ListOfAst"])), prop, "type tag of the group", st, "the group has the type tag %s", l.a(tok, "Type"))
	v := st.Find(l.a(tok, "Value"))
	if !u.need(v.Op == "iface" && ai.TypeStr(v.Typ) == ai.TypeStr(l.AstSlice), prop, "value of the group", st, "the group has the value %s", v) {
		return
	}
	got := st.Content(v.A[0])
	u.need(same(st, got, want), prop, "value of the group", st, "the group holds %s, not %s", got, want)
}

var combAll = []string{"C01", "C02", "C03", "C13", "C15"}

func combWith(p ...string) []string { return append(append([]string{}, combAll...), p...) }

// combUnit analyses one combinator on a source.
func (u *U) combUnit(name string, object bool, build func(c *comb, st *ai.State, fn *ssa.Function) (*ai.State, *ai.T)) {
	fn := u.fn(basePkg, name)
	u.run(basePkg+"."+name, fn.Pos(), func() {
		d := u.driver()
		c := &comb{u: u, name: name, min: ai.Int(1), max: ai.Int(1)}
		d.OnFunc = c.onFunc
		d.Part = c.part
		d.Peel = true
		st := ai.NewState()
		c.in = u.input(st, object)
		st, p := build(c, st, fn)
		c.start(st)
		for _, st := range c.within(st) {
			for _, o := range u.apply(p, c.in, st) {
				c.finish(o)
			}
		}
	})
}

// within separates the distances that reach beyond the start of the source.
func (c *comb) within(st *ai.State) []*ai.State {
	if !c.behind {
		return []*ai.State{st}
	}
	var r []*ai.State
	for _, f := range forkBy(st, ai.Le(st.G("off"), c.in.P)) {
		if f.v[0] {
			f.st.SetG("phase", ai.Str("full"))
		} else {
			f.st.SetG("phase", ai.Str("beyond"))
		}
		r = append(r, f.st)
	}
	return r
}

func (c *comb) children(st *ai.State) *ai.T {
	l := c.u.L
	v := st.SymSlice("children", l.ParserFn, types.NewSlice(l.ParserFn))
	c.kids = st.Content(v)
	c.n = ai.SeqLen(c.kids)
	st.F.Assume(ai.Le(ai.Int(1), c.n), true)
	return v
}

func (c *comb) transformers(st *ai.State) *ai.T {
	l := c.u.L
	v := st.SymSlice("transformers", l.TransformerFn, types.NewSlice(l.TransformerFn))
	c.trs = st.Content(v)
	c.nt = ai.SeqLen(c.trs)
	st.F.Assume(ai.Le(ai.Int(0), c.nt), true)
	return v
}

func init() {
	plain := func(prop string, f func(c *comb)) func(c *comb, st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) {
		return func(c *comb, st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) {
			c.prop = prop
			if f != nil {
				f(c)
			}
			return c.u.ctor1(st, fn, c.children(st))
		}
	}
	register("base.FlatGroup", combWith("C05"), func(u *U) { u.combUnit("FlatGroup", false, plain("C05", nil)) })
	register("base.Group", combWith("C05", "C08", "C19", "C20"), func(u *U) {
		u.combUnit("Group", false, plain("C05", func(c *comb) { c.group = u.class(basePkg, "Group") }))
	})
	register("base.First", combWith("C04"), func(u *U) { u.combUnit("First", false, plain("C04", func(c *comb) { c.alt = true })) })
	register("base.LookAhead", combWith("C07"), func(u *U) {
		u.combUnit("LookAhead", false, plain("C07", func(c *comb) { c.rewind = true }))
		u.combUnit("LookAheadN", false, plain("C07", func(c *comb) { c.rewind, c.neg = true, true }))
	})
	register("base.LookBehind", combWith("C07"), func(u *U) {
		for _, n := range []string{"LookBehind", "LookBehindN"} {
			neg := n == "LookBehindN"
			u.combUnit(n, false, func(c *comb, st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) {
				c.prop, c.behind, c.neg = "C07", true, neg
				c.min = ai.Sym("minN", ai.SInt, types.Typ[types.Int])
				c.max = ai.Sym("maxN", ai.SInt, types.Typ[types.Int])
				st.F.Assume(ai.Le(ai.Int(0), c.min), true)
				return u.ctor1(st, fn, c.min, c.max, c.children(st))
			})
		}
	})
	register("base.Repeat", combWith("C06"), func(u *U) {
		rep := func(name string, min, max *ai.T, times bool) {
			u.combUnit(name, false, func(c *comb, st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) {
				c.prop, c.min, c.max = "C06", min, max
				if times {
					t := ai.Zero(u.L.Times)
					t = With(t, u.L.Times, "Min", min)
					t = With(t, u.L.Times, "Max", max)
					return u.ctor1(st, fn, t, c.children(st))
				}
				return u.ctor1(st, fn, c.children(st))
			})
		}
		rep("Repeat", ai.Sym("Min", ai.SInt, types.Typ[types.Int]), ai.Sym("Max", ai.SInt, types.Typ[types.Int]), true)
		rep("Once", ai.Int(1), ai.Int(1), false)
		rep("ZeroOrOnce", ai.Int(0), ai.Int(1), false)
		rep("ZeroOrMoreTimes", ai.Int(0), ai.Int(-1), false)
		rep("OneOrMoreTimes", ai.Int(1), ai.Int(-1), false)
	})
	register("base.Trans", combWith("C08"), func(u *U) {
		u.combUnit("Trans", false, func(c *comb, st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) {
			c.prop = "C08"
			c.single = ai.Sym("child", ai.SFunc, u.L.ParserFn)
			st.F.Assume(ai.Eq(c.single, ai.Nil(u.L.ParserFn)), false)
			c.n = ai.Int(1)
			return u.ctor1(st, fn, c.single, c.transformers(st))
		})
	})
	// the same with sub-parsers that replace older entries
	loose := func(prop string, f func(c *comb)) func(c *comb, st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) {
		return plain(prop, func(c *comb) {
			c.loose = true
			if f != nil {
				f(c)
			}
		})
	}
	register("base.FlatGroup+Match", combWith("C05"), func(u *U) { u.combUnit("FlatGroup", false, loose("C05", nil)) })
	register("base.Group+Match", combWith("C05"), func(u *U) {
		u.combUnit("Group", false, loose("C05", func(c *comb) { c.group = u.class(basePkg, "Group") }))
	})
	register("base.First+Match", combWith("C04"), func(u *U) { u.combUnit("First", false, loose("C04", func(c *comb) { c.alt = true })) })
	register("base.LookAhead+Match", combWith("C07"), func(u *U) {
		u.combUnit("LookAhead", false, loose("C07", func(c *comb) { c.rewind = true }))
		u.combUnit("LookAheadN", false, loose("C07", func(c *comb) { c.rewind, c.neg = true, true }))
	})
	register("base.Repeat+Match", combWith("C06"), func(u *U) {
		u.combUnit("Repeat", false, func(c *comb, st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) {
			c.prop, c.loose = "C06", true
			c.min, c.max = ai.Sym("Min", ai.SInt, types.Typ[types.Int]), ai.Sym("Max", ai.SInt, types.Typ[types.Int])
			t := ai.Zero(u.L.Times)
			t = With(t, u.L.Times, "Min", c.min)
			t = With(t, u.L.Times, "Max", c.max)
			return u.ctor1(st, fn, t, c.children(st))
		})
	})
	register("base.Trans+Match", combWith("C08"), func(u *U) {
		u.combUnit("Trans", false, func(c *comb, st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) {
			c.prop, c.loose = "C08", true
			c.single = ai.Sym("child", ai.SFunc, u.L.ParserFn)
			st.F.Assume(ai.Eq(c.single, ai.Nil(u.L.ParserFn)), false)
			c.n = ai.Int(1)
			return u.ctor1(st, fn, c.single, c.transformers(st))
		})
	})
	register("base.BaseParser", combWith("C05", "C06"), func(u *U) {
		u.combUnit("BaseParser", false, func(c *comb, st *ai.State, fn *ssa.Function) (*ai.State, *ai.T) {
			l := u.L
			c.prop = "C06"
			c.min = ai.Sym("Min", ai.SInt, types.Typ[types.Int])
			c.max = ai.Sym("Max", ai.SInt, types.Typ[types.Int])
			t := ai.Zero(l.Times)
			t = With(t, l.Times, "Min", c.min)
			t = With(t, l.Times, "Max", c.max)
			props := st.NewSlice(ai.NewSeq([]*ai.T{ai.Elem(ai.Iface(l.Times, t))}), l.Any, "props", true, types.NewSlice(l.Any))
			c.fn = ai.Sym("impl", ai.SFunc, fn.Params[1].Type())
			st.F.Assume(ai.Eq(c.fn, ai.Nil(fn.Params[1].Type())), false)
			kids := c.children(st)
			return u.ctor1(st, fn, ai.Sym("className", ai.SStr, l.Str), c.fn, props, kids, ai.Nil(types.NewSlice(l.TransformerFn)))
		})
	})
}
