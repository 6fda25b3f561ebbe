// Package ai is an abstract interpreter over go/ssa.
package ai

import (
	"fmt"
	"math"
	"strings"
)

// IntSet is a set of integers represented by sorted, disjoint, non adjacent
// closed intervals.  NegInf / PosInf are the infinities.
type IntSet []Iv

// Iv is a closed interval.
type Iv struct{ Lo, Hi int64 }

const (
	NegInf = math.MinInt64
	PosInf = math.MaxInt64
)

var (
	SetAll   = IntSet{{NegInf, PosInf}}
	SetEmpty = IntSet{}
)

// Range returns [lo,hi].
func Range(lo, hi int64) IntSet {
	if lo > hi {
		return SetEmpty
	}
	return IntSet{{lo, hi}}
}

// Single returns {k}.
func Single(k int64) IntSet { return IntSet{{k, k}} }

// IsAll reports whether the set contains every integer.
func (s IntSet) IsAll() bool { return len(s) == 1 && s[0].Lo == NegInf && s[0].Hi == PosInf }

// Empty reports whether the set is empty.
func (s IntSet) Empty() bool { return len(s) == 0 }

// Min is the smallest element.
func (s IntSet) Min() int64 { return s[0].Lo }

// Max is the largest element.
func (s IntSet) Max() int64 { return s[len(s)-1].Hi }

// IsSingle reports a singleton.
func (s IntSet) IsSingle() (int64, bool) {
	if len(s) == 1 && s[0].Lo == s[0].Hi {
		return s[0].Lo, true
	}
	return 0, false
}

// Has is membership.
func (s IntSet) Has(k int64) bool {
	for _, v := range s {
		if v.Lo <= k && k <= v.Hi {
			return true
		}
	}
	return false
}

// Intersect is set intersection.
func (s IntSet) Intersect(o IntSet) IntSet {
	var r IntSet
	i, j := 0, 0
	for i < len(s) && j < len(o) {
		lo, hi := max64(s[i].Lo, o[j].Lo), min64(s[i].Hi, o[j].Hi)
		if lo <= hi {
			r = append(r, Iv{lo, hi})
		}
		if s[i].Hi < o[j].Hi {
			i++
		} else {
			j++
		}
	}
	return r
}

// Union is set union.
func (s IntSet) Union(o IntSet) IntSet {
	var all IntSet
	i, j := 0, 0
	for i < len(s) || j < len(o) {
		var v Iv
		if j >= len(o) || i < len(s) && s[i].Lo <= o[j].Lo {
			v = s[i]
			i++
		} else {
			v = o[j]
			j++
		}
		if n := len(all); n > 0 && (all[n-1].Hi == PosInf || v.Lo <= all[n-1].Hi+1) {
			if v.Hi > all[n-1].Hi {
				all[n-1].Hi = v.Hi
			}
		} else {
			all = append(all, v)
		}
	}
	return all
}

// Complement is set complement.
func (s IntSet) Complement() IntSet {
	var r IntSet
	lo := int64(NegInf)
	open := true
	for _, v := range s {
		if open && v.Lo > lo {
			r = append(r, Iv{lo, v.Lo - 1})
		}
		if v.Hi == PosInf {
			open = false
		} else {
			lo = v.Hi + 1
		}
	}
	if open {
		r = append(r, Iv{lo, PosInf})
	}
	return r
}

// Minus is set difference.
func (s IntSet) Minus(o IntSet) IntSet { return s.Intersect(o.Complement()) }

// SubsetOf is inclusion.
func (s IntSet) SubsetOf(o IntSet) bool { return s.Minus(o).Empty() }

// Equal is equality.
func (s IntSet) Equal(o IntSet) bool {
	if len(s) != len(o) {
		return false
	}
	for i := range s {
		if s[i] != o[i] {
			return false
		}
	}
	return true
}

func satAdd(a, k int64) int64 {
	if a == NegInf || a == PosInf {
		return a
	}
	c := a + k
	if k > 0 && c < a {
		return PosInf
	}
	if k < 0 && c > a {
		return NegInf
	}
	return c
}

// Shift adds k to every element.
func (s IntSet) Shift(k int64) IntSet {
	r := make(IntSet, len(s))
	for i, v := range s {
		r[i] = Iv{satAdd(v.Lo, k), satAdd(v.Hi, k)}
	}
	return r
}

func neg64(a int64) int64 {
	switch a {
	case NegInf:
		return PosInf
	case PosInf:
		return NegInf
	}
	return -a
}

// Neg negates every element.
func (s IntSet) Neg() IntSet {
	r := make(IntSet, len(s))
	for i, v := range s {
		r[len(s)-1-i] = Iv{neg64(v.Hi), neg64(v.Lo)}
	}
	return r
}

// DivExact returns {x | k*x in s}, k>0.
func (s IntSet) DivExact(k int64) IntSet {
	if k == 1 {
		return s
	}
	var r IntSet
	for _, v := range s {
		lo, hi := v.Lo, v.Hi
		if lo != NegInf {
			lo = ceilDiv(lo, k)
		}
		if hi != PosInf {
			hi = floorDiv(hi, k)
		}
		if lo <= hi {
			r = r.Union(IntSet{{lo, hi}})
		}
	}
	return r
}

// Hull is the smallest enclosing interval.
func (s IntSet) Hull() IntSet {
	if s.Empty() {
		return s
	}
	return IntSet{{s.Min(), s.Max()}}
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (s IntSet) String() string {
	var p []string
	for _, v := range s {
		f := func(x int64) string {
			switch x {
			case NegInf:
				return "-inf"
			case PosInf:
				return "+inf"
			}
			return fmt.Sprint(x)
		}
		if v.Lo == v.Hi {
			p = append(p, f(v.Lo))
		} else {
			p = append(p, f(v.Lo)+".."+f(v.Hi))
		}
	}
	return "{" + strings.Join(p, ",") + "}"
}
