package main

import (
	"go/token"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// location checks GetLineAndColPosition. The specification is a transducer
// that is fed with the characters of the source in order, as the analysed
// code reads them: it counts the line breaks and keeps the start of the line.
//
//	at    characters processed so far, as an offset
//	L, S  line and start of the line at that offset
//	D     at-S; kept apart because the code may count it, too
//	last  class of the last character, prev of the one before it
//	site  instruction that read last
//
// For the excerpt of the source it follows more:
//
//	T, V  tabs in the line and its width with tabs expanded
//	PS    start of the line before
//	brk   kind of the break between the two
//	E     end of the line, as far as it has been read; end tells that it is
func (u *U) location(excerpt bool) {
	fn := u.fn(basePkg, "GetLineAndColPosition")
	resT := u.W.Named(basePkg, "LineAndColPosition")
	posT := u.W.Named(basePkg, "SourcePosition")
	if resT == nil || posT == nil {
		panic(missing{"types of positions"})
	}
	name := "base.GetLineAndColPosition"
	if excerpt {
		name += " excerpt"
	}
	u.run(name, fn.Pos(), func() {
		d := u.driver()
		d.Part = func(g string) bool {
			return g == "last" || g == "prev" || g == "site" || g == "brk" || g == "end"
		}
		src := ai.Sym("arg:src", ai.SStr, u.L.Str)
		sp := ai.Sym("arg:pos", ai.SStruct, posT)
		tab := ai.Sym("arg:tabSize", ai.SInt, nil)
		P := F(sp, posT, "Position")
		st := ai.NewState()
		st.F.Assume(ai.Le(ai.Int(0), P), true)
		st.F.Assume(ai.Le(P, ai.StrLen(src)), true)
		st.F.Assume(ai.Le(ai.Int(0), tab), true)
		st.SetG("at", ai.Int(0))
		st.SetG("L", ai.Int(1))
		st.SetG("S", ai.Int(0))
		st.SetG("D", ai.Int(0))
		st.SetG("last", ai.Str("start"))
		st.SetG("prev", ai.Str("start"))
		st.SetG("site", ai.Str("0"))
		x := &excerptSpec{u: u, src: src, tab: tab, pos: P}
		if excerpt {
			x.start(st)
			d.OnStatic = x.static
		}
		split := func(st *ai.State, c *ai.T) map[string]*ai.State {
			m := map[string]*ai.State{}
			cr, rest := ai.Fork(st, ai.Eq(c, ai.Int('\r')))
			if cr != nil {
				m["cr"] = cr
			}
			if rest != nil {
				lf, other := ai.Fork(rest, ai.Eq(c, ai.Int('\n')))
				if lf != nil {
					m["lf"] = lf
				}
				if other != nil && excerpt {
					tab, plain := ai.Fork(other, ai.Eq(c, ai.Int('\t')))
					if tab != nil {
						m["tab"] = tab
					}
					other = plain
				}
				if other != nil {
					m["other"] = other
				}
			}
			return m
		}
		advance := func(st *ai.State, w, c *ai.T, site string) []*ai.State {
			var outs []*ai.State
			for _, cl := range []string{"cr", "lf", "tab", "other"} {
				s := split(st.Clone(), c)[cl]
				if s == nil {
					continue
				}
				at := s.G("at")
				if cl == "cr" || cl == "lf" {
					s.F.Assume(ai.Eq(w, ai.Int(1)), true)
					if excerpt {
						x.lineBreak(s, cl)
					}
					if cl == "cr" || s.G("last").S != "cr" {
						s.SetG("L", ai.AddK(s.G("L"), 1))
					}
					s.SetG("S", ai.AddK(at, 1))
					s.SetG("D", ai.Int(0))
					s.Note("the character at %s is %s", at, map[string]string{"cr": "CR", "lf": "LF"}[cl])
				} else {
					s.SetG("D", ai.Add(s.G("D"), w))
					s.Note("the character at %s is no line break", at)
					if cl == "tab" {
						s.Note("it is a tab")
						s.F.Assume(ai.Eq(w, ai.Int(1)), true)
						s.SetG("T", ai.AddK(s.G("T"), 1))
						s.SetG("V", ai.Add(s.G("V"), tab))
					} else if excerpt {
						s.SetG("V", ai.Add(s.G("V"), w))
					}
				}
				s.SetG("at", ai.Add(at, w))
				s.SetG("prev", s.G("last"))
				s.SetG("last", ai.Str(cl))
				s.SetG("site", ai.Str(site))
				outs = append(outs, s)
			}
			return outs
		}
		d.OnChar = func(e *ai.Eng, st *ai.State, s, k, w, c *ai.T, pos token.Pos) []*ai.State {
			if s != src {
				return []*ai.State{st}
			}
			site := e.PosStr(pos)
			in, out := ai.Fork(st, ai.Lt(k, P))
			var outs []*ai.State
			if out != nil && excerpt {
				outs = append(outs, x.after(out, k, w, c)...)
			} else if out != nil {
				outs = append(outs, out)
			}
			if in == nil {
				return outs
			}
			next, seen := ai.Fork(in, ai.Eq(k, in.G("at")))
			if next != nil {
				outs = append(outs, advance(next, w, c, site)...)
			}
			if seen == nil {
				return outs
			}
			for i, g := range []string{"last", "prev"} {
				var again *ai.State
				again, seen = ai.Fork(seen, ai.Eq(k, ai.AddK(seen.G("at"), int64(-1-i))))
				if again != nil && c.S == "byte" && again.G(g).S != "start" {
					if again = split(again, c)[again.G(g).S]; again != nil {
						again.SetG("site", ai.Str(site))
						outs = append(outs, again)
					}
				} else if again != nil {
					outs = append(outs, again)
				}
				if seen == nil {
					return outs
				}
			}
			if b := brkText(seen); excerpt && b != "" && c.S == "byte" {
				for i := range b {
					var again *ai.State
					again, seen = ai.Fork(seen, ai.Eq(k, ai.AddK(seen.G("S"), int64(i-len(b)))))
					if again != nil && again.F.Assume(ai.Eq(c, ai.Int(int64(b[i]))), true) {
						outs = append(outs, again)
					}
					if seen == nil {
						return outs
					}
				}
			}
			return append(outs, seen)
		}
		for _, o := range u.E.Call(fn, []*ai.T{src, sp, tab}, nil, st, fn.Pos()) {
			u.Outcomes++
			ends := []*ai.State{o.St}
			for n := 0; n < 2*boundDepth; n++ { // characters the code has not looked at
				var next []*ai.State
				for _, s := range ends {
					rest, done := ai.Fork(s, ai.Lt(s.G("at"), P))
					if done != nil {
						next = append(next, done)
					}
					if rest != nil {
						if u.bound == 0 {
							next = append(next, rest)
							continue
						}
						next = append(next, advance(rest, ai.Int(1), ai.StrAt(src, rest.G("at")), "end")...)
					}
				}
				ends = next
			}
			for _, s := range ends {
				if u.bound > 0 && !holds(s, ai.Le(P, s.G("at"))) {
					continue
				}
				prop := "C31"
				if excerpt {
					prop = "C37"
				}
				if !u.need(holds(s, ai.Le(P, s.G("at"))), prop, "characters before the position", s, "the result does not depend on the characters from %s to %s", s.G("at"), P) {
					continue
				}
				if excerpt {
					x.check(s, F(o.Val, resT, "ErrSource"))
					continue
				}
				line, start, col := F(o.Val, resT, "Line"), F(o.Val, resT, "LineIndex"), F(o.Val, resT, "Col")
				for _, v := range []*ai.T{line, start, col} {
					if strings.Contains(v.String(), "ext:") {
						u.E.GiveUp("%s is the result of an unknown function", v)
					}
				}
				u.need(same(s, line, s.G("L")), "C31", "line", s, "the line is %s, but the line breaks make it %s", line, s.G("L"))
				u.need(same(s, start, s.G("S")), "C31", "start of the line", s, "the line is said to start at %s, but it starts at %s", start, s.G("S"))
				u.need(same(s, col, ai.AddK(ai.Sub(P, s.G("S")), 1)) || same(s, P, s.G("at")) && same(s, col, ai.AddK(s.G("D"), 1)), "C31", "column", s, "the column is %s, but the position is %s and the line starts at %s", col, P, s.G("S"))
				u.need(same(s, F(o.Val, resT, "Position"), P), "C31", "position", s, "the position is %s, not %s", F(o.Val, resT, "Position"), P)
			}
		}
	})
}

// excerptSpec follows what the excerpt of the source must show.
type excerptSpec struct {
	u             *U
	src, tab, pos *ai.T
}

func (x *excerptSpec) start(st *ai.State) {
	for _, g := range []string{"T", "V", "PS"} {
		st.SetG(g, ai.Int(0))
	}
	st.SetG("E", x.pos)
	st.SetG("brk", ai.Str("none"))
	st.SetG("end", ai.False)
}

// lineBreak is called before the ghosts of the location are moved.
func (x *excerptSpec) lineBreak(st *ai.State, cl string) {
	st.SetG("T", ai.Int(0))
	st.SetG("V", ai.Int(0))
	if cl == "lf" && st.G("last").S == "cr" {
		st.SetG("brk", ai.Str("crlf"))
		return
	}
	st.SetG("PS", st.G("S"))
	st.SetG("brk", ai.Str(cl))
}

// after is told about the character c read at k, which is not before the
// position.
func (x *excerptSpec) after(st *ai.State, k, w, c *ai.T) []*ai.State {
	next, seen := ai.Fork(st, ai.Eq(k, st.G("E")))
	var outs []*ai.State
	if seen != nil {
		outs = append(outs, seen)
	}
	if next == nil {
		return outs
	}
	if next.G("end") == ai.True {
		return append(outs, next)
	}
	other := next
	for _, ch := range "\r\n" {
		var br *ai.State
		if br, other = ai.Fork(other, ai.Eq(c, ai.Int(int64(ch)))); br != nil {
			br.SetG("end", ai.True)
			br.Note("the line of the position ends at %s", k)
			outs = append(outs, br)
		}
		if other == nil {
			return outs
		}
	}
	if other != nil {
		other.SetG("E", ai.Add(k, w))
		outs = append(outs, other)
	}
	return outs
}

// piece is a part of the excerpt: a constant, n spaces, or the part [lo,hi) of
// the source in which tabs are replaced by the text by (nil: not replaced).
type piece struct {
	text   string
	spaces *ai.T
	lo, hi *ai.T
	by     *ai.T
}

func (p piece) String() string {
	switch {
	case p.spaces != nil:
		return p.spaces.String() + " spaces"
	case p.lo == nil:
		return strconv.Quote(p.text)
	case p.by != nil:
		return "src[" + p.lo.String() + ":" + p.hi.String() + "] with tabs as " + p.by.String()
	}
	return "src[" + p.lo.String() + ":" + p.hi.String() + "]"
}

func brkText(st *ai.State) string {
	return map[string]string{"lf": "\n", "cr": "\r", "crlf": "\r\n"}[st.G("brk").S]
}

// part is the part [lo,hi) of the source, taken apart at the break between the
// two lines.
func (x *excerptSpec) part(st *ai.State, lo, hi *ai.T) []piece {
	S, b := st.G("S"), brkText(st)
	if holds(st, ai.Eq(lo, hi)) {
		return nil
	}
	if b != "" && holds(st, ai.Le(lo, ai.AddK(S, -int64(len(b))))) && holds(st, ai.Le(S, hi)) {
		return append(append(x.part(st, lo, ai.AddK(S, -int64(len(b)))), piece{text: b}), x.part(st, S, hi)...)
	}
	return []piece{{lo: lo, hi: hi}}
}

// pieces takes a text apart; false means that it is built in a way that is not
// understood.
func (x *excerptSpec) pieces(st *ai.State, t *ai.T) ([]piece, bool) {
	switch {
	case t.Op == "str":
		return []piece{{text: t.S}}, true
	case t == x.src:
		return x.part(st, ai.Int(0), ai.StrLen(t)), true
	case t.Op == "substr" && t.A[0] == x.src:
		return x.part(st, t.A[1], t.A[2]), true
	case t.Op == "join":
		var out []piece
		for _, g := range t.A[0].A {
			if g.Op != "elem" {
				return nil, false
			}
			p, ok := x.pieces(st, g.A[0])
			if !ok {
				return nil, false
			}
			out = append(out, p...)
		}
		return out, true
	case t.Op == "app" && t.S == "fmt.Sprintf" && len(t.A) == 2 && t.A[0].Op == "str" && t.A[1].Op == "seq":
		var out []piece
		f, rest := t.A[0].S, t.A[1].A
		arg := func() *ai.T {
			if len(rest) == 0 || rest[0].Op != "elem" || rest[0].A[0].Op != "iface" {
				return nil
			}
			v := rest[0].A[0].A[0]
			rest = rest[1:]
			return v
		}
		for f != "" {
			i := strings.IndexByte(f, '%')
			if i < 0 {
				i = len(f)
			}
			if i > 0 {
				out = append(out, piece{text: f[:i]})
			}
			switch f = f[i:]; {
			case f == "":
			case strings.HasPrefix(f, "%%"):
				out = append(out, piece{text: "%"})
				f = f[2:]
			case strings.HasPrefix(f, "%s") || strings.HasPrefix(f, "%v"):
				v := arg()
				if v == nil || v.Sort != ai.SStr {
					return nil, false
				}
				p, ok := x.pieces(st, v)
				if !ok {
					return nil, false
				}
				out = append(out, p...)
				f = f[2:]
			case strings.HasPrefix(f, "%*s"):
				n, v := arg(), arg()
				if n == nil || v == nil || v.Op != "str" || v.S != "" || !holds(st, ai.Le(ai.Int(0), n)) {
					return nil, false
				}
				out = append(out, piece{spaces: n})
				f = f[3:]
			default:
				return nil, false
			}
		}
		return out, len(rest) == 0
	case t.Op == "app" && t.S == "Repeat" && t.A[0].Op == "str" && t.A[0].S == " ":
		return []piece{{spaces: t.A[1]}}, true
	case t.Op == "app" && t.S == "Replace" && t.A[1].Op == "str" && t.A[3].Op == "int":
		in, ok := x.pieces(st, t.A[0])
		if !ok {
			return nil, false
		}
		old, with, n := t.A[1].S, t.A[2], int(t.A[3].I)
		if old == "" {
			return nil, false
		}
		var out []piece
		for _, p := range in {
			switch {
			case p.spaces != nil && strings.TrimLeft(old, " ") != "":
				out = append(out, p)
			case p.lo == nil && p.spaces == nil && with.Op == "str":
				c := strings.Count(p.text, old)
				if n >= 0 && c > n {
					c = n
				}
				out = append(out, piece{text: strings.Replace(p.text, old, with.S, n)})
				if n >= 0 {
					n -= c
				}
			case p.lo == nil && p.spaces == nil && !strings.Contains(p.text, old):
				out = append(out, p)
			case p.lo == nil:
				return nil, false
			case old == "\t" && n < 0:
				if p.by == nil {
					p.by = with
				}
				out = append(out, p)
			case old == "\t":
				p.by = t
				out = append(out, p)
			case strings.ContainsAny(old, "\r\n") && x.oneLine(st, p):
				out = append(out, p)
			default: // not as it should be
				p.by = t
				out = append(out, p)
			}
		}
		return out, true
	}
	return nil, false
}

// oneLine tells that the piece has no line break in it.
func (x *excerptSpec) oneLine(st *ai.State, p piece) bool {
	within := func(lo, hi *ai.T) bool { return holds(st, ai.Le(lo, p.lo)) && holds(st, ai.Le(p.hi, hi)) }
	return within(st.G("S"), st.G("E")) || within(st.G("PS"), ai.AddK(st.G("S"), -int64(len(brkText(st)))))
}

// norm merges constants and spaces.
func (x *excerptSpec) norm(st *ai.State, in []piece) []piece {
	var out []piece
	add := func(p piece) {
		if n := len(out); n > 0 {
			l := &out[n-1]
			switch {
			case l.spaces != nil && p.spaces != nil:
				l.spaces = ai.Add(l.spaces, p.spaces)
				return
			case l.text != "" && p.text != "":
				l.text += p.text
				return
			case l.lo != nil && p.lo != nil && l.by == p.by && holds(st, ai.Eq(l.hi, p.lo)):
				l.hi = p.hi
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range in {
		switch {
		case p.lo != nil:
			if !holds(st, ai.Eq(p.lo, p.hi)) {
				add(p)
			}
		case p.spaces != nil:
			if !holds(st, ai.Eq(p.spaces, ai.Int(0))) {
				add(p)
			}
		default:
			for s := p.text; s != ""; {
				rest := strings.TrimLeft(s, " ")
				if n := len(s) - len(rest); n > 0 {
					add(piece{spaces: ai.Int(int64(n))})
				}
				if i := strings.IndexByte(rest, ' '); i >= 0 {
					s = rest[i:]
					rest = rest[:i]
				} else {
					s = ""
				}
				if rest != "" {
					add(piece{text: rest})
				}
			}
		}
	}
	return out
}

// static decides whether a part of the excerpt has a line break in it, and
// finds the end of the line.
func (x *excerptSpec) static(e *ai.Eng, st *ai.State, fn *ssa.Function, args []*ai.T, pos token.Pos) ([]ai.Outcome, bool) {
	switch fn.String() {
	case "strings.Repeat":
		if !x.meaning(st) {
			return nil, true
		}
	case "strings.IndexAny", "strings.IndexFunc":
		s := args[0]
		if s.Op != "substr" || s.A[0] != x.src || !same(st, s.A[1], st.G("E")) || !same(st, s.A[2], ai.StrLen(x.src)) || st.G("end") == ai.True {
			return nil, false
		}
		if fn.Name() == "IndexAny" && (args[1].Op != "str" || len(args[1].S) != 2 || strings.Trim(args[1].S, "\r\n") != "") {
			return nil, false
		}
		if fn.Name() == "IndexFunc" {
			set, ok := e.PredSet(st, args[1])
			if !ok || !set.Equal(ai.Range('\r', '\r').Union(ai.Range('\n', '\n'))) {
				return nil, false
			}
		}
		no := st.Clone()
		no.SetG("E", ai.StrLen(x.src))
		no.Note("the line of the position is the last")
		k := ai.Fresh("end", ai.SInt, nil)
		st.SetG("end", ai.True)
		st.SetG("E", ai.Add(st.G("E"), k))
		st.Note("the line of the position has an end")
		if !st.F.Assume(ai.Le(ai.Int(0), k), true) || !st.F.Assume(ai.Lt(k, ai.StrLen(s)), true) {
			st = nil
		}
		outs := []ai.Outcome{{Val: ai.Int(-1), St: no}}
		if st != nil {
			outs = append(outs, ai.Outcome{Val: k, St: st})
		}
		return outs, true
	case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny":
		c := ""
		switch {
		case args[1].Op == "str":
			c = args[1].S
		case args[1].Op == "int":
			c = string(rune(args[1].I))
		}
		if !strings.ContainsAny(c, "\r\n") {
			break
		}
		in, ok := x.pieces(st, args[0])
		if !ok {
			break
		}
		for _, p := range in {
			if p.lo != nil && !x.oneLine(st, p) || strings.Trim(c, "\r\n") != "" {
				return nil, false
			}
			if p.lo == nil && (strings.Contains(p.text, c) || fn.Name() == "ContainsAny" && strings.ContainsAny(p.text, c)) {
				return []ai.Outcome{{Val: ai.True, St: st}}, true
			}
		}
		return []ai.Outcome{{Val: ai.False, St: st}}, true
	}
	return nil, false
}

// meaning assumes what the ghosts mean.
func (x *excerptSpec) meaning(st *ai.State) bool {
	D, T, V := st.G("D"), st.G("T"), st.G("V")
	for _, c := range []*ai.T{
		ai.Le(ai.Int(0), D), ai.Le(ai.Int(0), T), ai.Le(ai.Int(0), V), ai.Le(T, D),
		ai.Eq(D, ai.Sub(st.G("at"), st.G("S"))),
		ai.Eq(V, ai.Add(D, ai.Sub(ai.Mul(T, x.tab, nil), T))),
	} {
		if !st.F.Assume(c, true) {
			return false
		}
	}
	return true
}

// width replaces what library functions tell about the line before the
// position by the ghosts.
func (x *excerptSpec) width(st *ai.State, t *ai.T) *ai.T {
	m := map[*ai.T]*ai.T{}
	line := func(s *ai.T) bool {
		return s.Op == "substr" && s.A[0] == x.src && same(st, s.A[1], st.G("S")) && same(st, s.A[2], x.pos)
	}
	ai.MentionsAny(t, func(a *ai.T) bool {
		switch {
		case a.Op != "app" || len(a.A) == 0:
		case a.S == "len":
			if p, ok := x.pieces(st, a.A[0]); ok && a.A[0].Op == "app" {
				n := ai.Int(0)
				for _, p := range p {
					switch {
					case p.spaces != nil:
						n = ai.Add(n, p.spaces)
					case p.lo == nil:
						n = ai.AddK(n, int64(len(p.text)))
					case same(st, p.lo, st.G("S")) && same(st, p.hi, x.pos) && p.by != nil && same(st, p.by, ai.App("Repeat", ai.SStr, nil, ai.Str(" "), x.tab)):
						n = ai.Add(n, st.G("V"))
					default:
						return false
					}
				}
				m[a] = n
			}
		case strings.HasSuffix(a.S, "strings.Count#0") || strings.HasSuffix(a.S, "strings.Count"):
			if len(a.A) == 2 && line(a.A[0]) && a.A[1].Op == "str" && a.A[1].S == "\t" {
				m[a] = st.G("T")
			}
		}
		return false
	})
	if len(m) == 0 {
		return t
	}
	t = ai.SubstMap(t, m)
	return t
}

// unknown tells that a number is the result of a library function.
func unknown(t *ai.T) bool {
	return ai.MentionsAny(t, func(a *ai.T) bool {
		return a.Op == "app" && a.S != "mul" && a.S != "len" && a.S != "Repeat" || a.Op == "app" && a.S == "len" && a.A[0].Op == "app"
	})
}

// check compares the excerpt with what it must show.
func (x *excerptSpec) check(st *ai.State, got *ai.T) {
	u := x.u
	if !x.meaning(st) {
		return
	}
	ends := []*ai.State{st}
	for n := 0; n < 2*boundDepth; n++ {
		var next []*ai.State
		for _, s := range ends {
			rest, done := ai.Fork(s, ai.Lt(s.G("E"), ai.StrLen(x.src)))
			if done != nil {
				next = append(next, done)
			}
			switch {
			case rest == nil:
			case rest.G("end") == ai.True || u.bound == 0:
				next = append(next, rest)
			default:
				next = append(next, x.after(rest, rest.G("E"), ai.Int(1), ai.StrAt(x.src, rest.G("E")))...)
			}
		}
		ends = next
	}
	for _, s := range ends {
		if !(s.G("end") == ai.True || holds(s, ai.Le(ai.StrLen(x.src), s.G("E")))) {
			u.need(u.bound > 0, "C37", "rest of the line", s, "the excerpt does not depend on the characters from %s on", s.G("E"))
			continue
		}
		raw, ok := x.pieces(s, got)
		if !ok {
			u.E.GiveUp("the excerpt is %s", got)
		}
		S, E, PS, b := s.G("S"), s.G("E"), s.G("PS"), brkText(s)
		spaces := ai.App("Repeat", ai.SStr, nil, ai.Str(" "), x.tab)
		var want []piece
		if b != "" {
			want = append(want, piece{text: "   | "}, piece{lo: PS, hi: ai.AddK(S, -int64(len(b))), by: spaces}, piece{text: b})
		}
		nl := "\n"
		if b == "\r" {
			nl = b
		}
		want = append(want, piece{text: " > | "}, piece{lo: S, hi: E, by: spaces}, piece{text: nl + "   | "}, piece{spaces: s.G("V")}, piece{text: "^^^^"})
		g, w := x.norm(s, raw), x.norm(s, want)
		for i := range g {
			if p := &g[i]; p.spaces != nil {
				p.spaces = x.width(s, p.spaces)
			}
			if p := g[i]; p.spaces != nil && unknown(p.spaces) || p.lo != nil && (unknown(p.lo) || unknown(p.hi)) {
				u.E.GiveUp("the excerpt has %s", g[i])
			}
		}
		eq := len(g) == len(w)
		for i := 0; eq && i < len(g); i++ {
			a, b := g[i], w[i]
			switch {
			case a.spaces != nil && b.spaces != nil:
				eq = same(s, a.spaces, b.spaces)
			case a.lo != nil && b.lo != nil:
				eq = same(s, a.lo, b.lo) && same(s, a.hi, b.hi) && a.by != nil && same(s, a.by, b.by)
			default:
				eq = a.spaces == nil && b.spaces == nil && a.lo == nil && b.lo == nil && a.text == b.text
			}
		}
		u.need(eq, "C37", "excerpt", s, "the excerpt is %s, not %s; %s", g, w, got)
	}
}

func init() {
	register("base.GetLineAndColPosition", []string{"C31"}, func(u *U) { u.panicTo = []string{"C31"}; u.location(false) })
	register("base.GetLineAndColPosition excerpt", []string{"C37"}, func(u *U) { u.panicTo = []string{"C37"}; u.location(true) })
}
