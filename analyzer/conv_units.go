package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// conv describes a transformer that turns text into something else.
type conv struct {
	name string
	// mk builds the transformer (nil: the function itself)
	mk func(st *ai.State, fn *ssa.Function) (*ai.State, *ai.T)
	// check judges a result that no entry of another type forbids; text is
	// the concatenation of the input.
	check func(t *tin, o tout, text *ai.T)
}

// text is the concatenation of all input texts.
func (t *tin) text(u *U) *ai.T {
	return ai.Join(ai.NewSeq([]*ai.T{ai.CompSeg(ai.Int(0), t.N, ai.As(u.L.a(t.at(u, ai.Kappa), "Value"), u.L.Str))}))
}

// conversion analyses a transformer of texts. An entry that is not a text
// has to be reported as an error.
func (u *U) conversion(c *conv) {
	fn := u.fn(strPkg, c.name)
	for _, forced := range []bool{false, true} {
		forced := forced
		u.run("string."+c.name, fn.Pos(), func() {
			d := u.transDriver()
			t := u.transIn(false)
			isText := func(i *ai.T) *ai.T {
				return ai.Eq(u.L.a(t.at(u, i), "Type"), ai.Int(u.L.AstT["String"]))
			}
			if forced {
				k := ai.Sym("K", ai.SInt, nil)
				d.Watch[t.Base] = k
				f := t.St.F
				if !f.Assume(ai.Le(ai.Int(0), k), true) || !f.Assume(ai.Lt(k, t.N), true) || !f.Assume(isText(k), false) {
					return
				}
				t.St.Note("entry K is not a text")
			}
			st, tv := t.St, u.plainTrans(fn)
			if c.mk != nil {
				st, tv = c.mk(t.St, fn)
			}
			for _, o := range u.transform(tv, t, st) {
				if forced {
					u.need(!o.ErrNil, "C18", "wrong type accepted", o.St, "%s accepts a list with an entry that is not a text", c.name)
					continue
				}
				if !o.ErrNil {
					wrong := false
					for _, x := range o.St.F.Elements(t.Base) {
						if i := x.A[1]; i != ai.Kappa && holds(o.St, ai.Not(isText(i))) && holds(o.St, ai.Le(ai.Int(0), i)) && holds(o.St, ai.Lt(i, t.N)) {
							wrong = true
						}
					}
					if wrong {
						u.need(true, "C18", "", nil, "")
						continue
					}
				}
				for _, k := range forkBy(o.St, ai.Eq(t.N, ai.Int(0))) {
					o := o
					o.St = k.st
					o.List = o.St.Content(o.Slice)
					text := t.text(u)
					if k.v[0] {
						text = ai.Str("")
					} else if holds(o.St, ai.Eq(t.N, ai.Int(1))) {
						// the simpler form
						text = ai.As(u.L.a(t.at(u, ai.Int(0)), "Value"), u.L.Str)
					}
					// in the form the facts speak of it
					for _, x := range o.St.F.Collect(func(x *ai.T) bool { return x.Sort == ai.SStr && x.Op != "lin" && x != text }) {
						if x.Op == text.Op && same(o.St, x, text) {
							text = x
							break
						}
					}
					c.check(t, o, text)
				}
			}
		})
	}
}

// oneValue checks that the result is a single entry with the given value.
func (u *U) oneValue(t *tin, o tout, name, prop, tag string, typ types.Type, ok func(v *ai.T) bool, want interface{}, labelled bool) {
	l, st := u.L, o.St
	if !u.need(o.ErrNil, prop, "unexpected error", st, "%s reports an error where it must not", name) {
		return
	}
	if !u.need(same(st, ai.SeqLen(o.List), ai.Int(1)), prop, "one entry", st, "%s returns %s entries", name, ai.SeqLen(o.List)) {
		return
	}
	g := u.E.AtSeq(st, o.List, ai.Int(0), l.Ast)[0].Val
	u.taggedAst(st, g, name)
	v := st.Find(l.a(g, "Value"))
	if v.Op != "iface" && typ != nil && holds(st, ai.TypeIs(v, typ)) {
		v = ai.Iface(typ, ai.As(v, typ))
	}
	if !u.need(v.Op == "iface" && (typ == nil || ai.TypeStr(v.Typ) == ai.TypeStr(typ)), prop, "type of the value", st, "the value of %s is %s", name, v) {
		return
	}
	u.need(ok(v.A[0]), prop, "value", st, "%s returns the value %s, not %v", name, v.A[0], want)
	if tag != "" {
		u.need(same(st, l.a(g, "Type"), ai.Int(l.AstT[tag])), "C19", "type tag of the value", st, "%s returns the type tag %s, not %s", name, l.a(g, "Type"), tag)
		u.need(same(st, l.a(g, "Type"), ai.Int(l.AstT[tag])), prop, "type tag of the value", st, "%s returns the type tag %s, not %s", name, l.a(g, "Type"), tag)
	}
	if labelled && !holds(st, ai.Eq(t.N, ai.Int(0))) {
		for _, f := range []string{"ClassName", "Position", "Length"} {
			u.need(same(st, l.a(g, f), l.a(t.at(u, ai.Int(0)), f)), prop, "label of the value", st, "the field %s of the result is %s, not that of the first entry", f, l.a(g, f))
		}
	}
}

// equal accepts exactly one value.
func equal(st *ai.State, want *ai.T) func(v *ai.T) bool {
	return func(v *ai.T) bool { return same(st, v, want) }
}

// number is a conversion by a function of package strconv.
func (u *U) number(name, fn, tag string, typ types.Type, radix, plus bool) *conv {
	c := &conv{name: name}
	base := ai.Sym("arg:base", ai.SInt, types.Typ[types.Int])
	if radix {
		c.mk = func(st *ai.State, f *ssa.Function) (*ai.State, *ai.T) { return u.ctor1(st, f, base) }
	}
	c.check = func(t *tin, o tout, text *ai.T) {
		type cs struct {
			st *ai.State
			s  *ai.T
		}
		cases := []cs{{o.St, text}}
		if plus {
			cases = nil
			n := ai.StrLen(text)
			o.St.F.Assume(ai.Le(ai.Int(0), n), true)
			for _, k := range forkBy(o.St, ai.Lt(ai.Int(0), n)) {
				if !k.v[0] {
					cases = append(cases, cs{k.st, text})
					continue
				}
				for _, p := range forkBy(k.st, ai.Eq(ai.StrAt(text, ai.Int(0)), ai.Int('+'))) {
					s := text
					if p.v[0] {
						s = ai.Substr(text, ai.Int(1), n)
					}
					cases = append(cases, cs{p.st, s})
				}
			}
		}
		for _, k := range cases {
			args := []*ai.T{k.s}
			if fn != "ParseFloat" {
				b := ai.Int(10)
				if radix {
					b = base
				}
				args = append(args, b)
			}
			args = append(args, ai.Int(64))
			num := ai.App("ext:strconv."+fn+"#0", ai.SortOf(typ), typ, args...)
			err := ai.App("ext:strconv."+fn+"#1", ai.SIface, u.L.Err, args...)
			for _, e := range forkBy(k.st, ai.Eq(err, ai.Nil(u.L.Err))) {
				o := o
				o.St = e.st
				if !e.v[0] {
					u.need(!o.ErrNil, "C18", "malformed text accepted", o.St, "%s reports no error although strconv.%s rejects the text", name, fn)
					continue
				}
				o.List = o.St.Content(o.Slice)
				u.oneValue(t, o, name, "C18", tag, typ, equal(o.St, num), num, true)
			}
		}
	}
	return c
}

// charConv analyses a transformer of the first entry from one type.
func (u *U) charConv(name string, from types.Type, tag string, to types.Type, want func(st *ai.State, x *ai.T) []*ai.T) {
	fn := u.fn(strPkg, name)
	u.run("string."+name, fn.Pos(), func() {
		u.transDriver()
		t := u.transIn(false)
		st := t.St
		v := u.L.a(t.at(u, ai.Int(0)), "Value")
		// a list of at least one entry of the documented type
		if !st.F.Assume(ai.Lt(ai.Int(0), t.N), true) || !st.F.Assume(ai.TypeIs(v, from), true) {
			return
		}
		x := ai.As(v, from)
		// every valid code point
		if !st.F.Assume(ai.In(x, ai.Range(0, 0x10ffff)), true) {
			return
		}
		for _, o := range u.transform(u.plainTrans(fn), t, st) {
			ws := want(o.St, x)
			u.oneValue(t, o, name, "C18", tag, to, func(v *ai.T) bool {
				for _, w := range ws {
					if same(o.St, v, w) {
						return true
					}
				}
				return false
			}, ws[0], true)
		}
	})
}

// whiteSpace is the documented set of the trimming transformers.
var trimSet = rng(0x09, 0x0d, 0x20, 0x20, 0x85, 0x85, 0xa0, 0xa0)

var convProps = []string{"C13", "C15", "C16", "C18", "C19"}

func init() {
	register("string.Concat", convProps, func(u *U) {
		str := types.Typ[types.String]
		for _, x := range []struct{ n, k string }{{"Concat", ""}, {"Trim", "B"}, {"TrimStart", "L"}, {"TrimEnd", "R"}} {
			x := x
			u.conversion(&conv{name: x.n, check: func(t *tin, o tout, text *ai.T) {
				want := text
				if x.k != "" {
					want = ai.TrimTerm(x.k, text, trimSet)
				}
				u.oneValue(t, o, x.n, "C18", "String", str, equal(o.St, want), want, true)
			}})
		}
	})
	register("string.numbers", convProps, func(u *U) {
		i, ui, f := types.Typ[types.Int64], types.Typ[types.Uint64], types.Typ[types.Float64]
		u.conversion(u.number("ParseInt", "ParseInt", "Int", i, false, false))
		u.conversion(u.number("ParseIntRadix", "ParseInt", "Int", i, true, false))
		u.conversion(u.number("ParseUint", "ParseUint", "Uint", ui, false, true))
		u.conversion(u.number("ParseUintRadix", "ParseUint", "Uint", ui, true, true))
		u.conversion(u.number("ParseFloat", "ParseFloat", "Float", f, false, false))
	})
	register("string.characters", convProps, func(u *U) {
		r, i, s := types.Typ[types.Int32], types.Typ[types.Int64], types.Typ[types.String]
		one := func(st *ai.State, x *ai.T) []*ai.T { return []*ai.T{x} }
		text := func(st *ai.State, x *ai.T) []*ai.T { return []*ai.T{ai.App("runestr", ai.SStr, s, x)} }
		u.charConv("RuneFromInt", i, "", r, one)
		u.charConv("IntFromRune", r, "Int", i, one)
		u.charConv("StringFromInt", i, "String", s, text)
		u.charConv("StringFromRune", r, "String", s, text)
	})
	register("extra.dates", append([]string{"C20"}, convProps...), func(u *U) {
		const full = "2006-01-02T15:04:05.000000000-07:00"
		u.date("ParseDate", "Date", "2006-01-02", "", "")
		u.date("ParseDateTime", "DateTime", full, "", "")
		u.date("ParseTime", "Time", full, "1970-01-01T", "+00:00")
	})
}

// date analyses a transformer from a text to a time.
func (u *U) date(name, class, layout, before, after string) {
	fn := u.fn(extraPkg, name)
	label := u.class(extraPkg, class)
	u.run("extra."+name, fn.Pos(), func() {
		u.transDriver()
		t := u.transIn(false)
		st := t.St
		v := u.L.a(t.at(u, ai.AddK(t.N, -1)), "Value")
		if !st.F.Assume(ai.Lt(ai.Int(0), t.N), true) || !st.F.Assume(ai.TypeIs(v, u.L.Str), true) {
			return
		}
		x := ai.As(v, u.L.Str)
		text := ai.Concat(ai.Str(before), x, ai.Str(after))
		for _, o := range u.transform(u.plainTrans(fn), t, st) {
			err := ai.App("ext:time.Parse#1", ai.SIface, u.L.Err, ai.Str(layout), text)
			for _, e := range forkBy(o.St, ai.Eq(err, ai.Nil(u.L.Err))) {
				o := o
				o.St = e.st
				if !e.v[0] {
					u.need(!o.ErrNil, "C18", "malformed text accepted", o.St, "%s reports no error although the text is no %s", name, class)
					continue
				}
				o.List = o.St.Content(o.Slice)
				u.oneValue(t, o, name, "C18", "Any", nil, func(got *ai.T) bool {
					return got.Op == "app" && got.S == "ext:(time.Time).UTC" && len(got.A) == 1 &&
						got.A[0].Op == "app" && got.A[0].S == "ext:time.Parse#0" && same(o.St, got.A[0].A[0], ai.Str(layout)) && same(o.St, got.A[0].A[1], text)
				}, "the parsed time in UTC", false)
				if holds(o.St, ai.Eq(ai.SeqLen(o.List), ai.Int(1))) {
					g := u.E.AtSeq(o.St, o.List, ai.Int(0), u.L.Ast)[0].Val
					u.need(same(o.St, u.L.a(g, "ClassName"), ai.Str(label)), "C20", "class name of the value", o.St, "%s labels its result %s", name, u.L.a(g, "ClassName"))
				}
			}
		}
	})
	_ = token.NoPos
}
