package ai

import (
	"sort"
	"strings"
)

// Facts is a conjunction of constraints on terms.
type Facts struct {
	lin map[*T]IntSet // canonical form -> set
	boo map[*T]bool   // boolean atoms
	eqs [][2]*T       // known equal non integer terms

	cache map[*T][2]int64

	poly    *polyhedron
	polyNew []*T
}

func newFacts() *Facts { return &Facts{lin: map[*T]IntSet{}, boo: map[*T]bool{}} }

func (f *Facts) clone() *Facts {
	n := &Facts{lin: make(map[*T]IntSet, len(f.lin)+4), boo: make(map[*T]bool, len(f.boo)+4), eqs: f.eqs[:len(f.eqs):len(f.eqs)],
		poly: f.poly, polyNew: f.polyNew[:len(f.polyNew):len(f.polyNew)]}
	for k, v := range f.lin {
		n.lin[k] = v
	}
	for k, v := range f.boo {
		n.boo[k] = v
	}
	return n
}

// implicit is the range every value of the atom has.
func implicit(a *T) IntSet {
	switch a.Op {
	case "app":
		switch a.S {
		case "len", "rw", "cap":
			return Range(0, PosInf)
		case "byte":
			return Range(0, 255)
		case "rune":
			return Range(0, 0x10ffff)
		}
	}
	return typeRange(a.Typ)
}

type row struct {
	co map[*T]int64
	k  int64 // sum co*atom + k <= 0
}

// rowsFor gathers the inequalities connected with the atoms of form.
func (f *Facts) rowsFor(form *T) []row {
	atoms := map[*T]bool{}
	var work []*T
	add := func(a *T) {
		if !atoms[a] {
			atoms[a] = true
			work = append(work, a)
		}
	}
	at, _, _ := linOf(form)
	for _, a := range at {
		add(a)
	}
	byAtom := map[*T][]*T{}
	for k := range f.lin {
		ka, _, _ := linOf(k)
		for _, a := range ka {
			byAtom[a] = append(byAtom[a], k)
		}
	}
	used := map[*T]bool{}
	var rows []row
	for len(work) > 0 {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		im := implicit(a)
		if im.Min() != NegInf {
			rows = append(rows, row{map[*T]int64{a: -1}, im.Min()})
		}
		if im.Max() != PosInf {
			rows = append(rows, row{map[*T]int64{a: 1}, -im.Max()})
		}
		if a.Op == "app" && a.S == "len" && a.A[0].Op == "join" {
			// the length of a concatenation is at least the sum of its known parts
			m := map[*T]int64{a: -1}
			k := int64(0)
			ok := true
			for _, g := range a.A[0].A[0].A {
				if g.Op == "elem" {
					la, lc, lk := linOf(StrLen(g.A[0]))
					for i := range la {
						m[la[i]] += lc[i]
					}
					k += lk
				}
			}
			if ok {
				rows = append(rows, row{m, k})
				for x := range m {
					add(x)
				}
			}
		}
		for _, k := range byAtom[a] {
			if used[k] {
				continue
			}
			used[k] = true
			s := f.lin[k]
			ka, kc, _ := linOf(k)
			if s.Empty() {
				continue
			}
			if s.Max() != PosInf {
				m := map[*T]int64{}
				for i := range ka {
					m[ka[i]] = kc[i]
				}
				rows = append(rows, row{m, -s.Max()})
			}
			if s.Min() != NegInf {
				m := map[*T]int64{}
				for i := range ka {
					m[ka[i]] = -kc[i]
				}
				rows = append(rows, row{m, s.Min()})
			}
			for _, x := range ka {
				add(x)
			}
		}
	}
	return rows
}

var tvar = Sym("τ", SInt, nil)

// fmBounds computes bounds of form by Fourier-Motzkin elimination.
// infeasible is reported as lo>hi.
func (f *Facts) fmBounds(form *T) (lo, hi int64) {
	if v, ok := f.cache[form]; ok {
		return v[0], v[1]
	}
	lo, hi, exact := f.lpBounds(form)
	if !exact && (lo == NegInf || hi == PosInf) {
		l, h := f.fmBounds1(form)
		lo, hi = max64(lo, l), min64(hi, h)
	}
	if f.cache == nil {
		f.cache = map[*T][2]int64{}
	}
	f.cache[form] = [2]int64{lo, hi}
	return lo, hi
}

func (f *Facts) fmBounds1(form *T) (lo, hi int64) {
	rows := f.rowsFor(form)
	at, co, _ := linOf(form)
	up := map[*T]int64{tvar: 1}
	dn := map[*T]int64{tvar: -1}
	for i, a := range at {
		up[a] -= co[i]
		dn[a] += co[i]
	}
	rows = append(rows, row{up, 0}, row{dn, 0})
	for {
		// choose the variable with the cheapest elimination
		pos := map[*T]int{}
		neg := map[*T]int{}
		for _, r := range rows {
			for a, c := range r.co {
				if a == tvar {
					continue
				}
				if c > 0 {
					pos[a]++
				} else if c < 0 {
					neg[a]++
				}
			}
		}
		var best *T
		bc := 1 << 30
		for a, p := range pos {
			c := p*neg[a] - p - neg[a]
			if c < bc || c == bc && a.id < best.id {
				best, bc = a, c
			}
		}
		for a, n := range neg {
			if pos[a] == 0 && (-n < bc || -n == bc && a.id < best.id) {
				best, bc = a, -n
			}
		}
		if best == nil {
			break
		}
		var ps, ns, rest []row
		for _, r := range rows {
			c := r.co[best]
			switch {
			case c > 0:
				ps = append(ps, r)
			case c < 0:
				ns = append(ns, r)
			default:
				rest = append(rest, r)
			}
		}
		if len(ps)*len(ns) > 3000 {
			ps, ns = nil, nil // give up on the variable: sound, less precise
		}
		for _, p := range ps {
			for _, n := range ns {
				a, b := p.co[best], -n.co[best]
				g := gcd(a, b)
				x, y := b/g, a/g
				m := make(map[*T]int64, len(p.co)+len(n.co))
				for v, c := range p.co {
					m[v] += x * c
				}
				for v, c := range n.co {
					m[v] += y * c
				}
				delete(m, best)
				k := x*p.k + y*n.k
				gg := int64(0)
				for v, c := range m {
					if c == 0 {
						delete(m, v)
					} else {
						gg = gcd(gg, abs64(c))
					}
				}
				if len(m) == 0 {
					if k > 0 {
						return 1, 0
					}
					continue
				}
				if gg > 1 {
					for v := range m {
						m[v] /= gg
					}
					k = ceilDiv(k, gg)
				}
				rest = append(rest, row{m, k})
			}
		}
		rows = dedup(rest)
	}
	lo, hi = NegInf, PosInf
	for _, r := range rows {
		c := r.co[tvar]
		switch {
		case c > 0:
			// c*t + k <= 0 -> t <= floor(-k/c)
			hi = min64(hi, floorDiv(-r.k, c))
		case c < 0:
			lo = max64(lo, ceilDiv(r.k, -c))
		default:
			if r.k > 0 {
				return 1, 0
			}
		}
	}
	return lo, hi
}

func dedup(rows []row) []row {
	type ent struct {
		i int
		k int64
	}
	best := map[string]int{}
	var out []row
	for _, r := range rows {
		ids := make([]*T, 0, len(r.co))
		for v := range r.co {
			ids = append(ids, v)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
		b := make([]byte, 0, 32)
		for _, v := range ids {
			b = appendInt(b, int64(v.id))
			b = append(b, '*')
			b = appendInt(b, r.co[v])
			b = append(b, ',')
		}
		k := string(b)
		if j, ok := best[k]; ok {
			if r.k > out[j].k {
				out[j].k = r.k
			}
			continue
		}
		best[k] = len(out)
		out = append(out, r)
	}
	return out
}

func appendInt(b []byte, x int64) []byte {
	if x < 0 {
		b = append(b, '-')
		x = -x
	}
	var t [20]byte
	i := len(t)
	for {
		i--
		t[i] = byte('0' + x%10)
		x /= 10
		if x == 0 {
			break
		}
	}
	return append(b, t[i:]...)
}

// BoundsOf is the known set of values of an integer term.
func (f *Facts) BoundsOf(t *T) IntSet {
	form, sc, k := canonForm(t)
	if form == nil {
		return Single(k)
	}
	lo, hi := f.fmBounds(form)
	s := SetAll
	if v, ok := f.lin[form]; ok {
		s = v
	}
	if form.Op != "lin" {
		s = s.Intersect(implicit(form))
		if pwOf(form) != nil {
			s = s.Intersect(pwImage(form, f.BoundsOf(form.A[0])))
		}
	}
	s = s.Intersect(Range(lo, hi))
	if form.Op != "lin" && lo != hi {
		s = f.twins(form, s)
	}
	return scaleSet(s, sc).Shift(k)
}

// twins narrows the values of an atom by the holes in the values of atoms that
// differ from it by a constant.
func (f *Facts) twins(a *T, s IntSet) IntSet {
	for form, v := range f.lin {
		if form.Op != "lin" || len(v) != 1 || v[0].Lo != v[0].Hi {
			continue
		}
		at, co, _ := linOf(form)
		if len(at) != 2 || co[0] != -co[1] || co[0] != 1 && co[0] != -1 {
			continue
		}
		// co0*at0 - co0*at1 = c
		c := v[0].Lo * co[0] // at0 - at1 = c
		switch a {
		case at[0]:
			if o := f.lin[at[1]]; len(o) > 1 {
				s = s.Intersect(o.Shift(c))
			}
		case at[1]:
			if o := f.lin[at[0]]; len(o) > 1 {
				s = s.Intersect(o.Shift(-c))
			}
		}
	}
	return s
}

func scaleSet(s IntSet, sc int64) IntSet {
	if sc == 1 {
		return s
	}
	if sc == -1 {
		return s.Neg()
	}
	if s.Empty() {
		return s
	}
	if v, ok := s.IsSingle(); ok {
		return Single(v * sc)
	}
	lo, hi := s.Min(), s.Max()
	m := func(x int64) int64 {
		if x == NegInf || x == PosInf {
			if sc < 0 {
				return neg64(x)
			}
			return x
		}
		return x * sc
	}
	a, b := m(lo), m(hi)
	if a > b {
		a, b = b, a
	}
	return IntSet{{a, b}}
}

// find resolves known equalities of non integer terms.
func (f *Facts) find(t *T) *T {
	for {
		r := t
		for _, e := range f.eqs {
			if e[0] == r {
				r = e[1]
				break
			}
		}
		if r == t {
			return t
		}
		t = r
	}
}

// Same reports whether two terms are known to be equal.
func (f *Facts) Same(a, b *T) bool {
	return f.same(a, b, 0)
}

func (f *Facts) same(a, b *T, d int) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || d > 12 {
		return false
	}
	if a.Sort == SInt && b.Sort == SInt {
		s := f.BoundsOf(Sub(a, b))
		if v, ok := s.IsSingle(); ok && v == 0 {
			return true
		}
		if s.Empty() {
			return true // contradictory facts
		}
		if a.Op == "lin" || b.Op == "lin" || a.Op == "int" || b.Op == "int" {
			return false
		}
	}
	if a.Sort == SBool && b.Sort == SBool {
		va, oka := f.Decide(a)
		vb, okb := f.Decide(b)
		if oka && okb {
			return va == vb
		}
	}
	if len(f.eqs) > 0 {
		a2, b2 := f.find(a), f.find(b)
		if a2 == b2 {
			return true
		}
		if a2 != a || b2 != b {
			if f.same(a2, b2, d+1) {
				return true
			}
		}
	}
	if a.Op == "nil" && b.Op == "nil" {
		return true
	}
	if a.Op == "nil" && f.boo[Eq(b, a)] || b.Op == "nil" && f.boo[Eq(a, b)] {
		return true
	}
	if v, ok := f.boo[Eq(a, b)]; ok && v && a.Sort != SInt {
		return true
	}
	if a.Op == "seq" && b.Op == "seq" {
		return f.sameSeq(a, b, d)
	}
	if a.Sort == SStr && b.Sort == SStr && d < 6 && f.sameBytes(a, b) {
		return true
	}
	if a.Sort == SStr && b.Sort == SStr && (a.Op == "join") != (b.Op == "join") {
		return f.sameSeq(strSeq(a), strSeq(b), d+1)
	}
	if a.Op == b.Op && a.S == b.S && a.I == b.I && len(a.A) == len(b.A) && a.Sort == b.Sort {
		if a.Op == "int" || a.Op == "str" || a.Op == "sym" || a.Op == "bool" || a.Op == "float" || a.Op == "in" || a.Op == "lin" || a.Op == "not" {
			return false
		}
		if a.Op == "iface" && TypeStr(a.Typ) != TypeStr(b.Typ) {
			return false
		}
		for i := range a.A {
			if !f.same(a.A[i], b.A[i], d+1) {
				return false
			}
		}
		return true
	}
	if (a.Op == "struct" || b.Op == "struct") && a.Sort == SStruct && b.Sort == SStruct {
		n := len(a.A)
		if a.Op != "struct" {
			n = len(b.A)
		}
		for i := 0; i < n; i++ {
			if !f.same(Sel(a, i), Sel(b, i), d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// located replaces the cuts of sequences that could not be located when they
// were made by what is there, where it is known by now where that is.
func (f *Facts) located(q []*T, d int) []*T {
	for i, s := range q {
		if s.Op != "sub" || s.A[0].Op != "app" || s.A[0].S != "opaqueseq" || d > 4 {
			continue
		}
		_, t, ok := (&State{F: f}).split(s.A[0].A[0], s.A[1])
		if !ok {
			continue
		}
		h, _, ok := (&State{F: f}).split(t, Sub(s.A[2], s.A[1]))
		if !ok {
			continue
		}
		r := append(append([]*T{}, q[:i]...), h.A...)
		return f.located(append(r, q[i+1:]...), d+1)
	}
	return q
}

// dropEmpty removes provably empty segments and splits nothing else.
func (f *Facts) tidy(q *T) []*T {
	var g []*T
	for _, s := range f.located(q.A, 0) {
		if s.Op != "elem" {
			if v, ok := f.BoundsOf(segLen(s)).IsSingle(); ok && v == 0 {
				continue
			}
		}
		if n := len(g); n > 0 && g[n-1].Op == "sub" && s.Op == "sub" && f.same(g[n-1].A[0], s.A[0], 1) && f.same(g[n-1].A[2], s.A[1], 1) {
			g[n-1] = SubSeg(g[n-1].A[0], g[n-1].A[1], s.A[2])
			continue
		}
		g = append(g, s)
	}
	return g
}

func (f *Facts) sameSeq(a, b *T, d int) bool {
	x, y := f.tidy(a), f.tidy(b)
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		p, q := x[i], y[j]
		lp, lq := segLen(p), segLen(q)
		if f.same(lp, lq, d+1) {
			if !f.sameSeg(p, q, d+1) {
				return false
			}
			i++
			j++
			continue
		}
		// split the longer one if the difference has a known sign
		df := f.BoundsOf(Sub(lp, lq))
		if df.Empty() {
			return true
		}
		if df.Min() >= 0 {
			h, t := splitSeg(p, lq)
			if h == nil || !f.sameSeg(h, q, d+1) {
				return false
			}
			x[i] = t
			j++
		} else if df.Max() <= 0 {
			h, t := splitSeg(q, lp)
			if h == nil || !f.sameSeg(p, h, d+1) {
				return false
			}
			y[j] = t
			i++
		} else {
			return false
		}
	}
	rest := func(g []*T) bool {
		for _, s := range g {
			if v, ok := f.BoundsOf(segLen(s)).IsSingle(); !ok || v != 0 {
				return false
			}
		}
		return true
	}
	return rest(x[i:]) && rest(y[j:])
}

// splitSeg splits a segment after n elements.
func splitSeg(s, n *T) (*T, *T) {
	switch s.Op {
	case "sub":
		m := Add(s.A[1], n)
		return SubSeg(s.A[0], s.A[1], m), SubSeg(s.A[0], m, s.A[2])
	case "comp":
		m := Add(s.A[0], n)
		return CompSeg(s.A[0], m, s.A[2]), CompSeg(m, s.A[1], s.A[2])
	}
	return nil, nil
}

func (f *Facts) sameSeg(p, q *T, d int) bool {
	if p == q {
		return true
	}
	if p.Op == "sub" && q.Op == "sub" {
		return f.same(p.A[0], q.A[0], d+1) && f.same(p.A[1], q.A[1], d+1) && f.same(p.A[2], q.A[2], d+1)
	}
	if p.Op == "comp" && q.Op == "comp" {
		if f.same(p.A[0], q.A[0], d+1) {
			return f.same(p.A[1], q.A[1], d+1) && f.same(p.A[2], q.A[2], d+1)
		}
		// shifted comprehension
		sh := Sub(p.A[0], q.A[0])
		return f.same(p.A[2], Subst(q.A[2], Kappa, Sub(Kappa, sh)), d+1)
	}
	one := func(s *T) *T {
		switch s.Op {
		case "elem":
			return s.A[0]
		case "comp":
			return Subst(s.A[2], Kappa, s.A[0])
		case "sub":
			return nil
		}
		return nil
	}
	if v, ok := f.BoundsOf(segLen(p)).IsSingle(); ok && v == 1 {
		a, b := one(p), one(q)
		if a == nil && b != nil && p.Op == "sub" {
			a = At(p.A[0], p.A[1], b.Typ)
			if b.Typ == nil && p.A[0].S != "bytes" {
				a = App("at", b.Sort, nil, p.A[0], p.A[1])
			}
		}
		if b == nil && a != nil && q.Op == "sub" {
			b = At(q.A[0], q.A[1], a.Typ)
			if a.Typ == nil && q.A[0].S != "bytes" {
				b = App("at", a.Sort, nil, q.A[0], q.A[1])
			}
		}
		if a != nil && b != nil {
			return f.same(a, b, d+1)
		}
	}
	// a comprehension over a base against the base itself
	if p.Op == "comp" && q.Op == "sub" {
		p, q = q, p
	}
	if p.Op == "sub" && q.Op == "comp" {
		body := q.A[2]
		i := Add(Kappa, Sub(p.A[1], q.A[0]))
		want := App("at", body.Sort, body.Typ, p.A[0], i)
		if p.A[0].S == "bytes" {
			want = StrAt(p.A[0].A[0], i)
		}
		return f.same(want, body, d+1)
	}
	return false
}

// Decide evaluates a boolean term under the facts.
func (f *Facts) Decide(b *T) (val, known bool) {
	switch b.Op {
	case "bool":
		return b.I == 1, true
	case "not":
		v, ok := f.Decide(b.A[0])
		return !v, ok
	case "in":
		s := setTab[b.S]
		cur, has := f.lin[b.A[0]]
		if has {
			if cur.SubsetOf(s) {
				return true, true
			}
			if cur.Intersect(s).Empty() {
				return false, true
			}
		}
		cur = f.BoundsOf(b.A[0])
		if cur.SubsetOf(s) {
			return true, true
		}
		if cur.Intersect(s).Empty() {
			return false, true
		}
		if len(f.eqs) > 0 || true {
			// x-y = 0 for congruent atoms
			at, co, _ := linOf(b.A[0])
			if len(at) == 2 && co[0] == -co[1] {
				if f.congruent(at[0], at[1]) {
					if s.Has(0) {
						return true, true
					}
					return false, true
				}
			}
		}
		return false, false
	}
	if v, ok := f.boo[b]; ok {
		return v, true
	}
	switch b.Op {
	case "eq":
		if f.Same(b.A[0], b.A[1]) {
			return true, true
		}
		if d, ok := f.distinct(b.A[0], b.A[1]); ok && d {
			return false, true
		}
	case "isnil":
		x := f.find(b.A[0])
		if x.Op == "nil" {
			return true, true
		}
		if x.Op == "iface" || x.Op == "ptr" || x.Op == "clos" || x.Op == "slice" {
			return false, true
		}
		if x.Op == "app" {
			for k, v := range f.boo {
				if k.Op == "isnil" && k != b && f.congruent(k.A[0], x) {
					return v, true
				}
			}
		}
	case "app":
		// a value has one dynamic type
		if strings.HasPrefix(b.S, "typeis:") && !strings.Contains(b.S, "interface") {
			x := f.find(b.A[0])
			if x.Op == "iface" && !strings.Contains(TypeStr(x.Typ), "interface") {
				return "typeis:"+TypeStr(x.Typ) == b.S, true
			}
			for k, v := range f.boo {
				if v && k != b && k.Op == "app" && strings.HasPrefix(k.S, "typeis:") && !strings.Contains(k.S, "interface") && f.Same(k.A[0], x) {
					return k.S == b.S, true
				}
			}
		}
		// congruence with known atoms
		for k, v := range f.boo {
			if k.Op == "app" && k.S == b.S && len(k.A) == len(b.A) {
				ok := true
				for i := range k.A {
					if !f.Same(k.A[i], b.A[i]) {
						ok = false
						break
					}
				}
				if n := len(k.A); !ok && n >= 2 && Symmetric[k.S] && f.Same(k.A[n-2], b.A[n-1]) && f.Same(k.A[n-1], b.A[n-2]) {
					ok = true
					for i := 0; i < n-2; i++ {
						ok = ok && f.Same(k.A[i], b.A[i])
					}
				}
				if ok {
					return v, true
				}
			}
		}
	}
	return false, false
}

// Symmetric names the relations whose last two arguments may be exchanged.
var Symmetric = map[string]bool{"inv:ItemEquals": true}

// shortLen is the common length of two texts, if it is known and small.
func (f *Facts) shortLen(a, b *T) (int64, bool) {
	n, ok := f.BoundsOf(StrLen(a)).IsSingle()
	if !ok || n < 0 || n > 8 {
		return 0, false
	}
	m, ok := f.BoundsOf(StrLen(b)).IsSingle()
	return n, ok && n == m
}

// sameBytes compares texts of a known small length byte by byte.
func (f *Facts) sameBytes(a, b *T) bool {
	n, ok := f.shortLen(a, b)
	if !ok {
		return false
	}
	for i := int64(0); i < n; i++ {
		x, y := StrAt(a, Int(i)), StrAt(b, Int(i))
		if x == y {
			continue
		}
		if v, ok := f.BoundsOf(Sub(x, y)).IsSingle(); ok && v == 0 {
			continue
		}
		if x.isInt() || y.isInt() || !f.sameByte(x, y) {
			return false
		}
	}
	return true
}

// byteClash reports texts that are assumed to differ although all their bytes
// agree.
func (f *Facts) byteClash() bool {
	for k, v := range f.boo {
		if k.Op == "eq" && !v && k.A[0].Sort == SStr && f.sameBytes(k.A[0], k.A[1]) {
			return true
		}
	}
	return false
}

// sameByte compares bytes of texts that are known to be equal.
func (f *Facts) sameByte(a, b *T) bool {
	if a.Op != "app" || b.Op != "app" || a.S != "byte" || b.S != "byte" {
		return false
	}
	for _, e := range f.eqs {
		if e[0].Sort != SStr {
			continue
		}
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				x, y := e[j], e[1-j] // a in x, b in y?
				if i == 1 {
					x, y = y, x
				}
				k, ok := f.offsetIn(a, x)
				if !ok {
					continue
				}
				if t := StrAt(y, k); t == b || t.Op == "app" && b.Op == "app" && t.A[0] == b.A[0] && f.same(t.A[1], b.A[1], 6) {
					return true
				}
			}
		}
	}
	return false
}

// offsetIn finds the byte c in the text s.
func (f *Facts) offsetIn(c, s *T) (*T, bool) {
	base, lo := s, Int(0)
	if s.Op == "substr" {
		base, lo = s.A[0], s.A[1]
	}
	if c.A[0] != base {
		return nil, false
	}
	k := Sub(c.A[1], lo)
	b := f.BoundsOf(k)
	if b.Empty() || b.Min() < 0 {
		return nil, false
	}
	d := f.BoundsOf(Sub(k, StrLen(s)))
	if d.Empty() || d.Max() >= 0 {
		return nil, false
	}
	return k, true
}

func (f *Facts) congruent(a, b *T) bool {
	if len(f.eqs) > 0 && f.sameByte(a, b) {
		return true
	}
	if a.Op == b.Op && a.S == b.S && a.I == b.I && len(a.A) == len(b.A) && (a.Op == "app" || a.Op == "sel") {
		for i := range a.A {
			if !f.same(a.A[i], b.A[i], 1) {
				return false
			}
		}
		return true
	}
	return false
}

func (f *Facts) distinct(a, b *T) (bool, bool) {
	for k, v := range f.boo {
		if k.Op == "eq" && !v {
			if f.Same(k.A[0], a) && f.Same(k.A[1], b) || f.Same(k.A[0], b) && f.Same(k.A[1], a) {
				return true, true
			}
		}
	}
	if a.Sort == SStr {
		s := f.BoundsOf(Sub(StrLen(a), StrLen(b)))
		if !s.Has(0) {
			return true, true
		}
		if n, ok := f.shortLen(a, b); ok {
			for i := int64(0); i < n; i++ {
				if !f.BoundsOf(Sub(StrAt(a, Int(i)), StrAt(b, Int(i)))).Has(0) {
					return true, true
				}
			}
		}
	}
	x, y := f.find(a), f.find(b)
	if x.IsConst() && y.IsConst() && x != y && x.Op == y.Op && x.Op != "float" {
		return true, true
	}
	return false, false
}

// Assume adds b=val; false if contradictory.
func (f *Facts) Assume(b *T, val bool) bool {
	switch b.Op {
	case "bool":
		return (b.I == 1) == val
	case "not":
		return f.Assume(b.A[0], !val)
	case "in":
		s := setTab[b.S]
		if !val {
			s = s.Complement()
		}
		form := b.A[0]
		cur := f.BoundsOf(form).Intersect(s)
		if cur.Empty() {
			return false
		}
		at, co, _ := linOf(form)
		if len(at) == 2 && co[0] == -co[1] && !cur.Has(0) && f.congruent(at[0], at[1]) {
			return false
		}
		prev, has := f.lin[form]
		if !has {
			prev = SetAll
		}
		ns := prev.Intersect(s)
		if !cur.Hull().Equal(ns.Hull()) {
			// keep what the bounds imply when it sharpens holes
			ns = ns.Intersect(cur.Hull())
		}
		if !has || !prev.Equal(ns) {
			f.lin[form] = ns
			f.cache = nil
			f.polyNew = append(f.polyNew, form)
		}
		if pwOf(form) != nil {
			dom := f.BoundsOf(form.A[0])
			if pre := pwPre(form, dom, ns); !pre.Equal(dom) && !f.Assume(In(form.A[0], pre), true) {
				return false
			}
		}
		for _, a := range at {
			if a.Op == "app" && a.S == "byte" {
				return !f.byteClash()
			}
		}
		return true
	}
	if v, ok := f.Decide(b); ok {
		return v == val
	}
	f.boo[b] = val
	if b.Op == "eq" && val {
		x, y := f.find(b.A[0]), f.find(b.A[1])
		if x != y {
			// prefer constants and smaller terms as representatives
			if x.IsConst() || !y.IsConst() && x.id < y.id {
				x, y = y, x
			}
			f.eqs = append(f.eqs[:len(f.eqs):len(f.eqs)], [2]*T{x, y})
			if x.Sort == SStr {
				if !f.Assume(Eq(StrLen(x), StrLen(y)), true) {
					return false
				}
			}
		}
	}
	if b.Op == "isnil" && val {
		x := f.find(b.A[0])
		n := mk("nil", "", 0, x.Sort, nil, nil, nil)
		if x != n {
			f.eqs = append(f.eqs[:len(f.eqs):len(f.eqs)], [2]*T{x, n})
		}
	}
	return true
}

// Any reports whether some fact satisfies p.
func (f *Facts) Any(p func(*T) bool) bool {
	for k := range f.lin {
		if p(k) {
			return true
		}
	}
	for k := range f.boo {
		if p(k) {
			return true
		}
	}
	for _, e := range f.eqs {
		if p(e[0]) || p(e[1]) {
			return true
		}
	}
	return false
}

// Collect returns the subterms of the known facts that satisfy p.
func (f *Facts) Collect(p func(*T) bool) []*T {
	seen := map[*T]bool{}
	var out []*T
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if p(t) {
			out = append(out, t)
		}
		for _, a := range t.A {
			walk(a)
		}
	}
	for k := range f.lin {
		walk(k)
	}
	for k := range f.boo {
		walk(k)
	}
	for _, e := range f.eqs {
		walk(e[0])
		walk(e[1])
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// Elements returns the terms at(base, i) the facts speak about.
func (f *Facts) Elements(base *T) []*T {
	return f.Collect(func(t *T) bool { return t.Op == "app" && t.S == "at" && t.A[0] == base })
}
