package ai

import (
	"math"
	"sort"
)

// The linear facts form a convex polyhedron.  polyhedron keeps it as a
// simplex tableau so that the bounds of a linear form can be read off.
type polyhedron struct {
	vars  []pvar
	rows  []prow
	of    map[*T]int // atom or linear form -> variable
	empty bool
	big   bool // some constraint is too large for exact arithmetic
}

type pvar struct {
	lo, hi float64
	val    float64
	row    int // row index when basic, else -1
}

type prow struct {
	v  int // basic variable
	co []float64
}

const (
	eps    = 1e-7
	bigLim = 1 << 50
)

func newPolyhedron() *polyhedron { return &polyhedron{of: map[*T]int{}} }

func (p *polyhedron) clone() *polyhedron {
	n := &polyhedron{vars: append([]pvar(nil), p.vars...), rows: make([]prow, len(p.rows)), of: make(map[*T]int, len(p.of)+4), empty: p.empty, big: p.big}
	for i, r := range p.rows {
		n.rows[i] = prow{r.v, append([]float64(nil), r.co...)}
	}
	for k, v := range p.of {
		n.of[k] = v
	}
	return n
}

func (r *prow) at(i int) float64 {
	if i < len(r.co) {
		return r.co[i]
	}
	return 0
}

func (r *prow) set(i int, v float64) {
	for len(r.co) <= i {
		r.co = append(r.co, 0)
	}
	if math.Abs(v) < 1e-9 {
		v = 0
	}
	r.co[i] = v
}

func (p *polyhedron) flt(k int64, up bool) float64 {
	if up && (k == PosInf || k > bigLim) || !up && k > bigLim {
		if k != PosInf {
			p.big = true
		}
		if up {
			return math.Inf(1)
		}
		return bigLim
	}
	if !up && (k == NegInf || k < -bigLim) || up && k < -bigLim {
		if k != NegInf {
			p.big = true
		}
		if !up {
			return math.Inf(-1)
		}
		return -bigLim
	}
	return float64(k)
}

// atom is the variable of an atom.
func (p *polyhedron) atom(a *T) int {
	if i, ok := p.of[a]; ok {
		return i
	}
	im := implicit(a)
	v := pvar{lo: math.Inf(-1), hi: math.Inf(1), row: -1}
	if !im.Empty() {
		v.lo, v.hi = p.flt(im.Min(), false), p.flt(im.Max(), true)
	}
	v.val = 0
	if v.lo > 0 {
		v.val = v.lo
	} else if v.hi < 0 {
		v.val = v.hi
	}
	i := len(p.vars)
	p.vars = append(p.vars, v)
	p.of[a] = i
	if a.Op == "app" && a.S == "len" && a.A[0].Op == "join" {
		// the length of a concatenation is at least the sum of its known parts
		m := map[*T]int64{a: 1}
		k := int64(0)
		for _, g := range a.A[0].A[0].A {
			if g.Op == "elem" {
				la, lc, lk := linOf(StrLen(g.A[0]))
				for i := range la {
					m[la[i]] -= lc[i]
				}
				k += lk
			}
		}
		ats := make([]*T, 0, len(m))
		for x := range m {
			ats = append(ats, x)
		}
		sort.Slice(ats, func(i, j int) bool { return ats[i].id < ats[j].id })
		co := make([]int64, len(ats))
		for i, x := range ats {
			co[i] = m[x]
		}
		s := p.addRow(ats, co)
		p.tighten(s, float64(k), math.Inf(1))
	}
	return i
}

// addRow makes a basic variable that equals a linear form.
func (p *polyhedron) addRow(at []*T, co []int64) int {
	var r prow
	val := 0.0
	for i, a := range at {
		v := p.atom(a)
		c := float64(co[i])
		val += c * p.vars[v].val
		if b := p.vars[v].row; b >= 0 {
			src := &p.rows[b]
			for k, x := range src.co {
				if x != 0 {
					r.set(k, r.at(k)+c*x)
				}
			}
		} else {
			r.set(v, r.at(v)+c)
		}
	}
	n := len(p.vars)
	r.v = n
	p.vars = append(p.vars, pvar{lo: math.Inf(-1), hi: math.Inf(1), val: val, row: len(p.rows)})
	p.rows = append(p.rows, r)
	return n
}

// form is the variable of a linear form (a canonical form without constant).
func (p *polyhedron) form(t *T) int {
	if i, ok := p.of[t]; ok {
		return i
	}
	if t.Op != "lin" {
		return p.atom(t)
	}
	at, co, _ := linOf(t)
	i := p.addRow(at, co)
	p.of[t] = i
	return i
}

func (p *polyhedron) tighten(i int, lo, hi float64) {
	v := &p.vars[i]
	if lo > v.lo {
		v.lo = lo
	}
	if hi < v.hi {
		v.hi = hi
	}
	if v.lo > v.hi+eps {
		p.empty = true
		return
	}
	if v.row < 0 {
		d := 0.0
		if v.val < v.lo {
			d = v.lo - v.val
		} else if v.val > v.hi {
			d = v.hi - v.val
		}
		if d != 0 {
			p.move(i, d)
		}
	}
}

// move changes a nonbasic variable.
func (p *polyhedron) move(i int, d float64) {
	p.vars[i].val += d
	for k := range p.rows {
		if c := p.rows[k].at(i); c != 0 {
			p.vars[p.rows[k].v].val += c * d
		}
	}
}

// pivot exchanges the basic variable of row r with the nonbasic j.
func (p *polyhedron) pivot(r, j int) {
	row := &p.rows[r]
	b := row.v
	c := row.at(j)
	// x_b = ... + c x_j  ->  x_j = (x_b - ...)/c
	n := prow{v: j, co: make([]float64, len(row.co))}
	for k, x := range row.co {
		if x != 0 && k != j {
			n.set(k, -x/c)
		}
	}
	n.set(b, 1/c)
	p.rows[r] = n
	p.vars[b].row = -1
	p.vars[j].row = r
	for k := range p.rows {
		if k == r {
			continue
		}
		o := &p.rows[k]
		f := o.at(j)
		if f == 0 {
			continue
		}
		o.co[j] = 0
		for m, x := range n.co {
			if x != 0 {
				o.set(m, o.at(m)+f*x)
			}
		}
	}
}

// feasible restores the bounds of the basic variables.
func (p *polyhedron) feasible() bool {
	for it := 0; !p.empty; it++ {
		if it > 2000 {
			return true
		}
		best := -1
		for k := range p.rows {
			v := &p.vars[p.rows[k].v]
			if v.val < v.lo-eps || v.val > v.hi+eps {
				if best < 0 || p.rows[k].v < p.rows[best].v {
					best = k
				}
			}
		}
		if best < 0 {
			return true
		}
		row := &p.rows[best]
		v := p.vars[row.v]
		up := v.val < v.lo
		j := -1
		for k, c := range row.co {
			if c == 0 {
				continue
			}
			w := &p.vars[k]
			if up && (c > 0 && w.val < w.hi-eps || c < 0 && w.val > w.lo+eps) ||
				!up && (c > 0 && w.val > w.lo+eps || c < 0 && w.val < w.hi-eps) {
				j = k
				break
			}
		}
		if j < 0 {
			p.empty = true
			return false
		}
		target := v.lo
		if !up {
			target = v.hi
		}
		b := row.v
		p.move(j, (target-v.val)/row.at(j))
		p.pivot(best, j)
		p.vars[b].val = target
	}
	return false
}

// maximize is the greatest value of sign*variable i.
func (p *polyhedron) maximize(i int, sign float64) float64 {
	for it := 0; it < 2000; it++ {
		v := &p.vars[i]
		var co []float64
		if v.row >= 0 {
			co = p.rows[v.row].co
		} else {
			co = make([]float64, i+1)
			co[i] = 1
		}
		j, dir := -1, 0.0
		for k, c := range co {
			c *= sign
			if c == 0 || (k != i && p.vars[k].row >= 0) {
				continue
			}
			w := &p.vars[k]
			if c > 0 && w.val < w.hi-eps {
				j, dir = k, 1
				break
			}
			if c < 0 && w.val > w.lo+eps {
				j, dir = k, -1
				break
			}
		}
		if j < 0 {
			return sign * p.vars[i].val
		}
		// how far can it go
		w := &p.vars[j]
		lim := math.Inf(1)
		if dir > 0 {
			lim = w.hi - w.val
		} else {
			lim = w.val - w.lo
		}
		r := -1
		for k := range p.rows {
			c := p.rows[k].at(j) * dir
			if c == 0 {
				continue
			}
			x := &p.vars[p.rows[k].v]
			room := math.Inf(1)
			if c > 0 {
				room = (x.hi - x.val) / c
			} else {
				room = (x.val - x.lo) / -c
			}
			if room < 0 {
				room = 0
			}
			if room < lim-1e-12 || r >= 0 && room <= lim && p.rows[k].v < p.rows[r].v {
				lim, r = room, k
			}
		}
		if math.IsInf(lim, 1) {
			return lim
		}
		if lim > 0 {
			p.move(j, dir*lim)
		}
		if r >= 0 {
			p.pivot(r, j)
		}
	}
	return math.Inf(1)
}

// poly is the polyhedron of the facts.
func (f *Facts) polyhedron() *polyhedron {
	if f.poly != nil && len(f.polyNew) == 0 {
		return f.poly
	}
	var p *polyhedron
	if f.poly != nil {
		p = f.poly.clone()
		for _, k := range f.polyNew {
			p.constrain(k, f.lin[k])
		}
	} else {
		p = newPolyhedron()
		ks := make([]*T, 0, len(f.lin))
		for k := range f.lin {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, k := range ks {
			p.constrain(k, f.lin[k])
		}
	}
	f.polyNew = nil
	p.feasible()
	f.poly = p
	return p
}

func (p *polyhedron) constrain(k *T, s IntSet) {
	if s.Empty() {
		p.empty = true
		return
	}
	lo, hi := p.flt(s.Min(), false), p.flt(s.Max(), true)
	i := p.form(k)
	if lo > p.vars[i].lo || hi < p.vars[i].hi {
		p.tighten(i, lo, hi)
	}
}

// lpBounds are the bounds of a form; lo>hi when the facts contradict.
func (f *Facts) lpBounds(form *T) (lo, hi int64, exact bool) {
	if f.poly != nil && len(f.poly.rows) > 2*len(f.lin)+40 {
		f.poly, f.polyNew = nil, nil // forget old queries
	}
	p := f.polyhedron()
	if p.empty {
		return 1, 0, true
	}
	i, ok := p.of[form]
	if !ok {
		// a new form: work on the shared tableau, it only gains a row
		i = p.form(form)
		if !p.feasible() {
			return 1, 0, true
		}
	}
	h := p.maximize(i, 1)
	l := -p.maximize(i, -1)
	lo, hi = NegInf, PosInf
	if !math.IsInf(h, 0) {
		hi = int64(math.Floor(h + 1e-5))
	}
	if !math.IsInf(l, 0) {
		lo = int64(math.Ceil(l - 1e-5))
	}
	return lo, hi, !p.big
}
