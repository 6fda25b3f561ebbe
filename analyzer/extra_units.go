package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// grammars collects the grammar terms built while a constructor is evaluated.
type grammars struct {
	u    *U
	list []*peg
}

func (g *grammars) term(p *peg, typ types.Type) *ai.T {
	g.list = append(g.list, p)
	return ai.App("grammar", ai.SortOf(typ), typ, ai.Int(int64(len(g.list)-1)))
}

func (g *grammars) of(v *ai.T) *peg {
	if v != nil && v.Op == "app" && v.S == "grammar" {
		return g.list[v.A[0].I]
	}
	g.u.E.GiveUp("a parser that is not built from the combinators of the library: %s", v)
	return nil
}

// elems are the elements of a slice of known length.
func (u *U) elems(st *ai.State, v *ai.T, elem types.Type) []*ai.T {
	if v.Op == "nil" {
		return nil
	}
	q := st.Content(v)
	n := st.Find(ai.SeqLen(q))
	if n.Op != "int" || n.I > 64 {
		u.E.GiveUp("a list of unknown length in a grammar")
	}
	var r []*ai.T
	for i := int64(0); i < n.I; i++ {
		g := u.E.AtSeq(st, q, ai.Int(i), elem)
		if len(g) != 1 {
			u.E.GiveUp("an unknown element of a list in a grammar")
		}
		r = append(r, st.Find(g[0].Val))
	}
	return r
}

func (u *U) intArg(st *ai.State, t *ai.T) int64 {
	t = st.Find(t)
	if t.Op != "int" {
		u.E.GiveUp("an unknown number in a grammar: %s", t)
	}
	return t.I
}

func (u *U) strArg(st *ai.State, t *ai.T) string {
	t = st.Find(t)
	if t.Op != "str" {
		u.E.GiveUp("an unknown text in a grammar: %s", t)
	}
	return t.S
}

// build is the meaning of the constructors, given by the properties C04 to
// C12 that other units decide.
func (g *grammars) build(st *ai.State, pkg, name string, args []*ai.T, sig *types.Signature) *peg {
	u := g.u
	kids := func(i int) []*peg {
		var r []*peg
		for _, k := range u.elems(st, args[i], u.L.ParserFn) {
			r = append(r, g.of(k))
		}
		return r
	}
	strs := func(i int) []*peg {
		var r []*peg
		for _, k := range u.elems(st, args[i], u.L.Str) {
			r = append(r, pLeaf(pText(u.strArg(st, k), false)))
		}
		return r
	}
	ranges := func(i int) ai.IntSet {
		s := ai.SetEmpty
		for _, k := range u.elems(st, args[i], u.L.RuneRange) {
			lo, hi := u.intArg(st, F(k, u.L.RuneRange, "Start")), u.intArg(st, F(k, u.L.RuneRange, "End"))
			if lo <= hi {
				s = s.Union(ai.Range(lo, hi))
			}
		}
		return s
	}
	switch pkg {
	case basePkg:
		switch name {
		case "FlatGroup":
			return pSeq(kids(0)...)
		case "First":
			return pAlt(kids(0)...)
		case "Once":
			return pSeq(kids(0)...)
		case "ZeroOrOnce":
			return pRep(0, 1, pSeq(kids(0)...))
		case "ZeroOrMoreTimes":
			return pRep(0, -1, pSeq(kids(0)...))
		case "OneOrMoreTimes":
			return pRep(1, -1, pSeq(kids(0)...))
		case "Repeat":
			lo, hi := u.intArg(st, F(args[0], u.L.Times, "Min")), u.intArg(st, F(args[0], u.L.Times, "Max"))
			return pRep(lo, hi, pSeq(kids(1)...))
		case "LookAhead":
			return pAnd(pSeq(kids(0)...))
		case "LookAheadN":
			return pNot(pSeq(kids(0)...))
		case "Unmatched":
			return pFail()
		case "Zero":
			r := pSeq()
			for _, a := range u.elems(st, args[0], u.L.Ast) {
				v := st.Find(u.L.a(a, "Value"))
				if v.Op != "iface" || ai.TypeStr(v.Typ) != "string" {
					u.E.GiveUp("an inserted entry that is not a text: %s", v)
				}
				u.need(same(st, u.L.a(a, "Type"), ai.Int(u.L.AstT["String"])), "C19", "type tag of an inserted entry", st, "the inserted text %s has the type tag %s", v.A[0], u.L.a(a, "Type"))
				r.kids = append(r.kids, pIns(u.strArg(st, v.A[0])))
			}
			return r
		case "Trans":
			return g.trans(st, g.of(args[0]), u.elems(st, args[1], u.L.TransformerFn))
		}
	case strPkg:
		switch name {
		case "Seq":
			s := u.strArg(st, args[0])
			if s == "" {
				return pFail() // an empty text never matches
			}
			return pLeaf(pText(s, false))
		case "SeqI":
			s := u.strArg(st, args[0])
			if s == "" {
				return pFail()
			}
			return pLeaf(pText(s, true))
		case "CharClass":
			return pAlt(strs(0)...)
		case "CharClassN":
			return pLeaf(pNot(pAlt(strs(0)...)), pAny())
		case "CharRange":
			return pChar(ranges(0))
		case "CharRangeN":
			return pChar(ranges(0).Complement().Intersect(ai.Range(0, 0x10ffff)))
		case "CharClassFn":
			s, ok := u.E.PredSet(st, args[0])
			if !ok {
				u.E.GiveUp("the predicate of a character class is not decided")
			}
			return pChar(s)
		case "Any":
			return pAny()
		case "End":
			return pNot(pAny())
		}
		for _, c := range strClasses {
			if c.name == name {
				return pChar(c.set)
			}
		}
	}
	return nil
}

// trans decides what a chain of transformers does to the text of a part.
func (g *grammars) trans(st *ai.State, k *peg, list []*ai.T) *peg {
	if len(list) == 0 {
		return k
	}
	return &peg{op: "trans", kids: []*peg{k}, trans: &transInfo{list}}
}

// tokens is a list of n tokens with unknown texts.
func (u *U) tokens(st *ai.State, segs ...*ai.T) *ai.T {
	return st.NewSlice(ai.NewSeq(segs), u.L.Ast, "tokens", true, u.L.AstSlice)
}

func (u *U) tokenOf(i *ai.T, txt *ai.T) *ai.T {
	sys := u.L.Ast.Underlying().(*types.Struct)
	f := make([]*ai.T, sys.NumFields())
	for j := range f {
		f[j] = ai.App("token."+sys.Field(j).Name(), ai.SortOf(sys.Field(j).Type()), sys.Field(j).Type(), i)
	}
	t := ai.Struct(u.L.Ast, f)
	t = u.L.aw(t, "Type", ai.Int(u.L.AstT["String"]))
	return u.L.aw(t, "Value", ai.Iface(u.L.Str, txt))
}

func tokenText(i *ai.T) *ai.T { return ai.App("token.text", ai.SStr, types.Typ[types.String], i) }

// tokens is the number of tokens a part of a grammar yields (hi -1: any).
func (p *peg) tokens() (lo, hi int64) {
	switch p.op {
	case "leaf", "ins", "char":
		return 1, 1
	case "not", "fail":
		return 0, 0
	case "trans", "erase":
		return 0, -1
	case "alt":
		lo = -1
		for _, k := range p.kids {
			a, b := k.tokens()
			if lo < 0 || a < lo {
				lo = a
			}
			if hi >= 0 && (b < 0 || b > hi) {
				hi = b
			}
		}
		return max(lo, 0), hi
	}
	for _, k := range p.kids {
		a, b := k.tokens()
		lo += a
		if b < 0 || hi < 0 {
			hi = -1
		} else {
			hi += b
		}
	}
	if p.op == "rep" {
		lo *= p.min
		if p.max < 0 || hi < 0 {
			hi = -1
		} else {
			hi *= p.max
		}
	}
	return lo, hi
}

// chain applies transformers one after the other.
func (u *U) chain(st *ai.State, list []*ai.T, asts *ai.T) []tout {
	in := u.input(st, false)
	type cur struct {
		st *ai.State
		v  *ai.T
	}
	cs := []cur{{st, asts}}
	var bad []tout
	for _, tr := range list {
		var next []cur
		for _, c := range cs {
			for _, o := range u.E.CallValue(tr, []*ai.T{in.Ctx, c.v}, nil, c.st, token.NoPos) {
				u.Outcomes++
				if o.Panic != nil {
					if u.E.D.Obligations {
						u.panics(o)
						continue
					}
					u.E.GiveUp("a transformer in a grammar that panics for some texts")
				}
				if o.Val == nil || o.Val.Op != "tuple" || len(o.Val.A) != 2 {
					u.E.GiveUp("unexpected transformer result")
				}
				y, n := ai.Fork(o.St, ai.Eq(o.Val.A[1], ai.Nil(u.L.Err)))
				if y != nil {
					next = append(next, cur{y, o.Val.A[0]})
				}
				if n != nil {
					bad = append(bad, tout{n, nil, nil, o.Val.A[1], false})
				}
			}
		}
		cs = next
	}
	r := bad
	for _, c := range cs {
		r = append(r, tout{c.st, c.st.Content(c.v), c.v, ai.Nil(u.L.Err), true})
	}
	return r
}

// resolve replaces the transformed parts by their meaning.
func (g *grammars) resolve(st *ai.State, p *peg, prop string) *peg {
	r := *p
	r.kids = nil
	for _, k := range p.kids {
		r.kids = append(r.kids, g.resolve(st, k, prop))
	}
	if p.op != "trans" {
		return &r
	}
	u, l := g.u, g.u.L
	kid := r.kids[0]
	if p := g.padded(st, kid, p.trans.list); p != nil {
		return p
	}
	// any number of tokens with any texts
	u.E.D.Obligations = false
	defer func() { u.E.D.Obligations = true }()
	lo, hi := p.kids[0].tokens()
	s := st.Clone()
	n := ai.Sym("tokens", ai.SInt, types.Typ[types.Int])
	if lo == hi {
		n = ai.Int(lo)
	} else {
		s.F.Assume(ai.Le(ai.Int(max(lo, 1)), n), true)
		if hi >= 0 {
			s.F.Assume(ai.Le(n, ai.Int(hi)), true)
		}
	}
	comp := func(body *ai.T) []*ai.T {
		if n.Op == "int" && n.I <= 16 {
			var r []*ai.T
			for i := int64(0); i < n.I; i++ {
				r = append(r, ai.Elem(ai.Subst(body, ai.Kappa, ai.Int(i))))
			}
			return r
		}
		return []*ai.T{ai.CompSeg(ai.Int(0), n, body)}
	}
	asts := u.tokens(s, comp(u.tokenOf(ai.Kappa, tokenText(ai.Kappa)))...)
	text := ai.Join(ai.NewSeq(comp(tokenText(ai.Kappa))))
	if lo == 0 && hi != 0 {
		// no token at all
		s := st.Clone()
		for _, o := range u.chain(s, p.trans.list, u.tokens(s)) {
			if !o.ErrNil || !same(o.St, ai.SeqLen(o.List), ai.Int(0)) {
				for _, a := range u.elems(o.St, o.Slice, l.Ast) {
					v := o.St.Find(l.a(a, "Value"))
					if v.Op != "iface" || !same(o.St, v.A[0], ai.Str("")) {
						u.E.GiveUp("a transformation of an empty part of a grammar")
					}
				}
			}
		}
	}
	erases, keeps, sets := true, true, true
	var fixed []string
	var other string
	for _, o := range u.chain(s, p.trans.list, asts) {
		if !o.ErrNil {
			other = "reports an error"
			continue
		}
		var txt *string
		if k := o.St.Find(ai.SeqLen(o.List)); k.Op == "int" {
			t, ok := "", true
			for _, a := range u.elems(o.St, o.Slice, l.Ast) {
				v := o.St.Find(l.a(a, "Value"))
				if v.Op == "iface" && o.St.Find(v.A[0]).Op == "str" {
					t += o.St.Find(v.A[0]).S
				} else {
					ok = false
				}
			}
			if ok {
				txt = &t
			}
		}
		if txt == nil {
			sets = false
		} else {
			fixed = append(fixed, *txt)
		}
		ln := ai.SeqLen(o.List)
		if !same(o.St, ln, ai.Int(0)) {
			erases = false
		}
		switch {
		case same(o.St, ln, ai.Int(1)):
			v := o.St.Find(l.a(u.E.AtSeq(o.St, o.List, ai.Int(0), l.Ast)[0].Val, "Value"))
			want := text
			if holds(o.St, ai.Eq(n, ai.Int(1))) {
				want = tokenText(ai.Int(0))
			}
			if v.Op != "iface" || ai.TypeStr(v.Typ) != "string" || !same(o.St, v.A[0], want) && !same(o.St, v.A[0], text) {
				keeps = false
			}
		case same(o.St, ln, n):
			i := ai.Sym("I", ai.SInt, nil)
			y := o.St.Clone()
			y.F.Assume(ai.Le(ai.Int(0), i), true)
			y.F.Assume(ai.Lt(i, n), true)
			for _, x := range u.E.AtSeq(y, o.List, i, l.Ast) {
				v := x.St.Find(l.a(x.Val, "Value"))
				if v.Op != "iface" || !same(x.St, v.A[0], tokenText(i)) {
					keeps = false
				}
			}
		default:
			keeps = false
		}
	}
	for _, f := range fixed {
		sets = sets && f == fixed[0]
	}
	switch {
	case other != "":
		u.E.GiveUp("a transformation of a part of a grammar %s", other)
	case erases:
		return pErase(kid)
	case keeps:
		return kid
	case sets && len(fixed) > 0:
		return pSeq(pErase(kid), pIns(fixed[0]))
	}
	u.E.GiveUp("a transformation of a part of a grammar")
	return nil
}

// plainText is the grammar without its transformations.
func plainText(p *peg) *peg {
	r := *p
	r.kids = nil
	for _, k := range p.kids {
		r.kids = append(r.kids, plainText(k))
	}
	if r.op == "trans" {
		r = peg{op: "seq", kids: r.kids}
	}
	return &r
}

// errorFree says that no transformation of a part reports an error or fails.
func (g *grammars) errorFree(st *ai.State, p *peg) bool {
	for _, k := range p.kids {
		if !g.errorFree(st, k) {
			return false
		}
	}
	if p.op != "trans" {
		return true
	}
	u := g.u
	u.E.D.Obligations = false
	defer func() { u.E.D.Obligations = true }()
	ok := true
	lo, hi := p.kids[0].tokens()
	why := u.E.Attempt(func() {
		if lo == 0 {
			s := st.Clone()
			for _, o := range u.chain(s, p.trans.list, u.tokens(s)) {
				ok = ok && o.ErrNil
			}
		}
		if hi == 0 {
			return
		}
		s := st.Clone()
		n := ai.Sym("tokens", ai.SInt, types.Typ[types.Int])
		s.F.Assume(ai.Le(ai.Int(max(lo, 1)), n), true)
		if hi >= 0 {
			s.F.Assume(ai.Le(n, ai.Int(hi)), true)
		}
		asts := u.tokens(s, ai.CompSeg(ai.Int(0), n, u.tokenOf(ai.Kappa, tokenText(ai.Kappa))))
		for _, o := range u.chain(s, p.trans.list, asts) {
			ok = ok && o.ErrNil
		}
	})
	return ok && why == ""
}

// padded is the meaning of transformers of a few characters, which may keep
// some of them and append a text that depends on their number (nil: the part
// is not of this kind).
func (g *grammars) padded(st *ai.State, kid *peg, list []*ai.T) *peg {
	u, l := g.u, g.u.L
	rep := kid
	for rep.op == "seq" && len(rep.kids) == 1 {
		rep = rep.kids[0]
	}
	var one *peg
	if rep.op == "rep" && len(rep.kids) == 1 {
		one = rep.kids[0]
		for one.op == "seq" && len(one.kids) == 1 {
			one = one.kids[0]
		}
	}
	if one == nil || one.op != "char" || rep.max < 0 || rep.max > 32 || rep.min < 1 || one.set.Max() >= 0x80 {
		return nil
	}
	// the number of characters kept and the text appended
	result := func(n int64) (int64, string) {
		s := st.Clone()
		var segs []*ai.T
		var want []*ai.T
		whole := ai.Sym("token.texts", ai.SStr, types.Typ[types.String])
		s.F.Assume(ai.Le(ai.Int(n), ai.StrLen(whole)), true)
		for i := int64(0); i < n; i++ {
			x := ai.Substr(whole, ai.Int(i), ai.Int(i+1))
			segs = append(segs, ai.Elem(u.tokenOf(ai.Int(i), x)))
			want = append(want, x)
		}
		first, keep, res := true, int64(0), ""
		for _, o := range u.chain(s, list, u.tokens(s, segs...)) {
			if !o.ErrNil {
				u.E.GiveUp("a transformation of a part of a grammar reports an error")
			}
			var txt []*ai.T
			for _, a := range u.elems(o.St, o.Slice, l.Ast) {
				v := o.St.Find(l.a(a, "Value"))
				if v.Op != "iface" || ai.TypeStr(v.Typ) != "string" {
					u.E.GiveUp("a transformation of a part of a grammar yields %s", v)
				}
				txt = append(txt, v.A[0])
			}
			got := ai.Concat(txt...)
			// what follows the text itself
			k, suf, ok := int64(0), "", false
			for m := n; m >= 0 && !ok; m-- {
				for _, c := range append([]string{""}, u.suffixes(got)...) {
					if same(o.St, got, ai.Concat(append(want[:m:m], ai.Str(c))...)) {
						k, suf, ok = m, c, true
						break
					}
				}
			}
			if !ok {
				u.E.GiveUp("a transformation of a part of a grammar yields %s", got)
			}
			if !first && (k != keep || suf != res) {
				u.E.GiveUp("a transformation of a part of a grammar has several results")
			}
			first, keep, res = false, k, suf
		}
		return keep, res
	}
	alt := pAlt()
	for n := rep.max; n >= rep.min; n-- {
		keep, suf := result(n)
		k := pSeq()
		for i := int64(0); i < n; i++ {
			c := one
			if i >= keep {
				c = pErase(one)
			}
			k.kids = append(k.kids, c)
		}
		alt.kids = append(alt.kids, pSeq(append(k.kids, pIns(suf))...))
	}
	return alt
}

// suffixes are the constant texts a term may end with.
func (u *U) suffixes(t *ai.T) []string {
	var r []string
	ai.MentionsAny(t, func(x *ai.T) bool {
		if x.Op == "str" {
			for i := range x.S {
				r = append(r, x.S[:len(x.S)-i])
			}
		}
		return false
	})
	return r
}

// grammarUnit analyses one grammar of the extra library.
func (u *U) grammarUnit(name, class, prop string, doc *rx) {
	fn := u.fn(extraPkg, name)
	cls := u.class(extraPkg, class)
	u.run("extra."+name, fn.Pos(), func() {
		d := u.driver()
		g := &grammars{u: u}
		d.OnStatic = func(e *ai.Eng, st *ai.State, f *ssa.Function, args []*ai.T, pos token.Pos) ([]ai.Outcome, bool) {
			if f.Pkg == nil || f.Signature.Recv() != nil || f.Parent() != nil {
				return nil, false
			}
			pkg := strings.TrimPrefix(f.Pkg.Pkg.Path(), u.W.Module+"/")
			if (pkg != basePkg && pkg != strPkg) || f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type(), u.L.ParserFn) {
				return nil, false
			}
			if f.Object() == nil || !f.Object().Exported() {
				return nil, false
			}
			if f.Name() == "If" {
				return nil, false
			}
			p := g.build(st, pkg, f.Name(), args, f.Signature)
			if p == nil {
				u.E.GiveUp("the parser %s.%s in a grammar", pkg, f.Name())
			}
			return []ai.Outcome{{Val: g.term(p, u.L.ParserFn), St: st}}, true
		}
		st, v := u.ctor1(ai.NewState(), fn)
		p := g.of(v)
		for p.op == "seq" && len(p.kids) == 1 {
			p = p.kids[0]
		}
		if p.op == "trans" {
			u.oneToken(st, p.trans.list, name, cls, prop)
		} else {
			u.need(false, prop, "one token", st, "the result of %s is not one token", name)
			return
		}
		// what is accepted does not depend on transformations without errors
		if g.errorFree(st, p.kids[0]) {
			df, stat, err := compare1(plainText(p.kids[0]), doc, false)
			if err != "" {
				u.E.GiveUp("%s", err)
			}
			u.Checks[prop] += stat.states
			if df != nil {
				u.need(!df.loop, "C36", "repetition without end", st, "%s: %s", name, df)
				u.need(false, prop, "accepted syntax", st, "%s: %s", name, df)
				return
			}
		}
		body := g.resolve(st, p.kids[0], prop)
		df, stat, err := compare(body, doc)
		if err != "" {
			u.E.GiveUp("%s", err)
		}
		u.Checks[prop] += stat.states
		u.Facts["grammar states "+name] = stat.states
		u.Facts["grammar transitions "+name] = stat.transitions
		if df != nil {
			rule := "accepted syntax"
			if df.values {
				rule = "value of the token"
			}
			u.need(!df.loop, "C36", "repetition without end", st, "%s: %s", name, df)
			u.need(false, prop, rule, st, "%s: %s", name, df)
		}
	})
}

// oneToken checks that the transformers of a grammar make one labelled token
// out of any tokens.
func (u *U) oneToken(st *ai.State, list []*ai.T, name, class, prop string) {
	l := u.L
	s := st.Clone()
	n := ai.Sym("tokens", ai.SInt, types.Typ[types.Int])
	s.F.Assume(ai.Le(ai.Int(1), n), true)
	asts := u.tokens(s, ai.CompSeg(ai.Int(0), n, u.tokenOf(ai.Kappa, tokenText(ai.Kappa))))
	text := ai.Join(ai.NewSeq([]*ai.T{ai.CompSeg(ai.Int(0), n, tokenText(ai.Kappa))}))
	for _, o := range u.chain(s, list, asts) {
		if !u.need(o.ErrNil, prop, "unexpected error", o.St, "%s reports an error for a text that matches", name) {
			continue
		}
		if !u.need(same(o.St, ai.SeqLen(o.List), ai.Int(1)), prop, "one token", o.St, "%s yields %s tokens", name, ai.SeqLen(o.List)) {
			continue
		}
		a := u.E.AtSeq(o.St, o.List, ai.Int(0), l.Ast)[0].Val
		v := o.St.Find(l.a(a, "Value"))
		want := text
		if holds(o.St, ai.Eq(n, ai.Int(1))) {
			want = tokenText(ai.Int(0))
		}
		u.need(v.Op == "iface" && ai.TypeStr(v.Typ) == "string" && (same(o.St, v.A[0], want) || same(o.St, v.A[0], text)), prop, "value of the token", o.St, "%s yields the value %s, not the text of its parts", name, v)
		u.need(same(o.St, l.a(a, "Type"), ai.Int(l.AstT["String"])), "C19", "type tag of the token", o.St, "%s yields the type tag %s", name, l.a(a, "Type"))
		u.need(same(o.St, l.a(a, "ClassName"), ai.Str(class)), "C20", "class name of the token", o.St, "%s labels its token %s, not %q", name, l.a(a, "ClassName"), class)
		first := u.tokenOf(ai.Int(0), nil0(l))
		for _, f := range []string{"Position", "Length"} {
			u.need(same(o.St, l.a(a, f), l.a(first, f)), prop, "position of the token", o.St, "the field %s of the token of %s is %s, not that of its first part", f, name, l.a(a, f))
		}
	}
}

func nil0(l *Lay) *ai.T { return ai.Str("") }

// the documented syntax
func docNumbers() map[string]*rx {
	digit := func() *rx { return xSet('0', '9') }
	us := func() *rx { return xDrop('_') }
	sign := func() *rx { return xOpt(xSet('+', '+', '-', '-')) }
	digits := func(d *rx) *rx { return xStar(xAlt(d, us())) }
	base := func(d *rx) *rx { return xSeq(d, digits(d)) }
	// no leading zeros
	integer := func() *rx {
		return xAlt(xSeq(xSet('0', '0'), xStar(us())), xSeq(xSet('1', '9'), digits(digit())))
	}
	exp := func() *rx { return xSeq(xSet('E', 'E', 'e', 'e'), sign(), digit(), digits(digit())) }
	frac := func() *rx { return xSeq(xCh("."), xStar(us()), digit(), digits(digit())) }
	return map[string]*rx{
		"BinaryNumberStr":  base(xSet('0', '1')),
		"OctalNumberStr":   base(xSet('0', '7')),
		"HexNumberStr":     base(xSet('0', '9', 'A', 'F', 'a', 'f')),
		"IntegerNumberStr": xSeq(sign(), integer()),
		"FloatNumberStr": xSeq(sign(), xAlt(
			xSeq(integer(), xCh("."), digits(digit()), xOpt(exp())),
			xSeq(frac(), xOpt(exp())),
			xSeq(integer(), exp()))),
		"NumericStr": xSeq(sign(), xAlt(
			xSeq(integer(), xOpt(xSeq(xCh("."), digits(digit())))),
			frac()), xOpt(exp())),
	}
}

func docTexts() map[string]*rx {
	d := func() *rx { return xSet('0', '9') }
	date := func() *rx {
		return xSeq(xOpt(xCh("-")), xRep(4, d()), xStar(d()), xCh("-"), xSet('0', '1'), d(), xCh("-"), xSet('0', '3'), d())
	}
	// the seconds are optional, and so is their fraction of up to nine
	// digits, which is filled up
	frac := xIns(".000000000")
	var fr []*rx
	for n := 1; n <= 9; n++ {
		fr = append(fr, xSeq(xCh("."), xRep(n, d()), xIns(strings.Repeat("0", 9-n))))
	}
	fr = append(fr, frac)
	time := func() *rx {
		return xSeq(xSet('0', '2'), d(), xCh(":"), xSet('0', '5'), d(),
			xAlt(xSeq(xCh(":"), xSet('0', '6'), d(), xAlt(fr...)), xIns(":00.000000000")))
	}
	zone := xAlt(xSeq(xDrop('Z'), xIns("+00:00")), xSeq(xIns("+00:00"), xDrop('Z')),
		xSeq(xSet('+', '+', '-', '-'), d(), d(), xCh(":"), xSet('0', '5'), d()))
	start, cont := setIDStart().Union(rng('_', '_', '$', '$')), setUWord()
	return map[string]*rx{
		"AsciiIdentifierStr":   xSeq(xOf(setAlpha.Union(rng('_', '_', '$', '$'))), xStar(xOf(setWord))),
		"UnicodeIdentifierStr": xSeq(xOf(start), xStar(xOf(cont))),
		"DateStr":              date(),
		"TimeStr":              time(),
		"DateTimeStr":          xSeq(date(), xCh("T"), time(), zone),
	}
}

func init() {
	for _, name := range []string{"BinaryNumberStr", "OctalNumberStr", "HexNumberStr", "IntegerNumberStr", "FloatNumberStr", "NumericStr"} {
		name := name
		register("extra."+name, []string{"C29", "C19", "C20"}, func(u *U) { u.grammarUnit(name, name, "C29", docNumbers()[name]) })
	}
	for _, name := range []string{"AsciiIdentifierStr", "UnicodeIdentifierStr", "DateStr", "TimeStr", "DateTimeStr"} {
		name, class := name, strings.TrimPrefix(strings.TrimPrefix(name, "Ascii"), "Unicode")
		register("extra."+name, []string{"C30", "C19", "C20"}, func(u *U) { u.grammarUnit(name, class, "C30", docTexts()[name]) })
	}
}
