package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode"
)

// Pointwise functions: operations on one number that are decided by
// evaluating them on every value the number may have.

var pwFns = map[string]func(int64) (int64, bool){}

const pwLimit = 1 << 21

// Pointwise is the application of f, known by name, to x.
func Pointwise(name string, f func(int64) (int64, bool), typ types.Type, x *T) *T {
	pwFns[name] = f
	if x.isInt() {
		if v, ok := f(x.I); ok {
			return Int(v)
		}
	}
	return App("pw:"+name, SInt, typ, x)
}

func pwOf(t *T) func(int64) (int64, bool) {
	if t.Op == "app" && len(t.S) > 3 && t.S[:3] == "pw:" {
		return pwFns[t.S[3:]]
	}
	return nil
}

func setSize(s IntSet) int64 {
	n := int64(0)
	for _, v := range s {
		if v.Lo == NegInf || v.Hi == PosInf || v.Hi-v.Lo >= pwLimit {
			return pwLimit + 1
		}
		if n += v.Hi - v.Lo + 1; n > pwLimit {
			return n
		}
	}
	return n
}

type pwKey struct {
	f, dom, to string
}

var pwCache = map[pwKey]IntSet{}

// pwImage is the set of values of f on dom, pwPre the part of dom that f maps
// into s.
func pwImage(t *T, dom IntSet) IntSet {
	f := pwOf(t)
	if setSize(dom) > pwLimit {
		return typeRange(t.Typ)
	}
	k := pwKey{t.S, dom.String(), ""}
	if r, ok := pwCache[k]; ok {
		return r
	}
	seen := map[int64]bool{}
	r := SetEmpty
	run := Iv{1, 0}
	for _, v := range dom {
		for x := v.Lo; x <= v.Hi; x++ {
			y, ok := f(x)
			if !ok {
				r = typeRange(t.Typ)
				pwCache[k] = r
				return r
			}
			switch {
			case run.Lo <= run.Hi && run.Lo <= y && y <= run.Hi:
			case run.Lo <= run.Hi && y == run.Hi+1:
				run.Hi = y
			default:
				if run.Lo <= run.Hi {
					r = r.Union(Range(run.Lo, run.Hi))
				}
				run = Iv{y, y}
			}
			if len(seen) > 4096 {
				r = typeRange(t.Typ)
				pwCache[k] = r
				return r
			}
			if !seen[run.Lo] {
				seen[run.Lo] = true
			}
		}
	}
	if run.Lo <= run.Hi {
		r = r.Union(Range(run.Lo, run.Hi))
	}
	pwCache[k] = r
	return r
}

func pwPre(t *T, dom, s IntSet) IntSet {
	f := pwOf(t)
	if setSize(dom) > pwLimit {
		return dom
	}
	k := pwKey{t.S, dom.String(), s.String()}
	if r, ok := pwCache[k]; ok {
		return r
	}
	var r IntSet
	for _, v := range dom {
		lo, in := int64(0), false
		for x := v.Lo; x <= v.Hi; x++ {
			y, ok := f(x)
			ok = !ok || s.Has(y)
			if ok && !in {
				lo, in = x, true
			} else if !ok && in {
				r = append(r, Iv{lo, x - 1})
				in = false
			}
		}
		if in {
			r = append(r, Iv{lo, v.Hi})
		}
	}
	pwCache[k] = r
	return r
}

// pwOp is a bit operation with a constant.
func pwOp(op token.Token, typ types.Type, a, b *T) *T {
	rg := typeRange(typ)
	wrap := func(v int64) (int64, bool) { return v, rg.IsAll() || rg.Has(v) }
	type bin func(x, y int64) (int64, bool)
	var f bin
	switch op {
	case token.AND:
		f = func(x, y int64) (int64, bool) { return x & y, true }
	case token.OR:
		f = func(x, y int64) (int64, bool) { return wrap(x | y) }
	case token.XOR:
		f = func(x, y int64) (int64, bool) { return wrap(x ^ y) }
	case token.AND_NOT:
		f = func(x, y int64) (int64, bool) { return wrap(x &^ y) }
	case token.SHL:
		f = func(x, y int64) (int64, bool) {
			if y < 0 || y > 31 || x >= 1<<31 || x <= -1<<31 {
				return 0, false
			}
			return wrap(x << uint(y))
		}
	case token.SHR:
		f = func(x, y int64) (int64, bool) {
			if y < 0 {
				return 0, false
			}
			return x >> uint(y), true
		}
	default:
		return nil
	}
	switch {
	case b.isInt():
		c := b.I
		return Pointwise(fmt.Sprintf("x%s%d:%s", op, c, TypeStr(typ)), func(x int64) (int64, bool) { return f(x, c) }, typ, a)
	case a.isInt():
		c := a.I
		return Pointwise(fmt.Sprintf("%d%sx:%s", c, op, TypeStr(typ)), func(x int64) (int64, bool) { return f(c, x) }, typ, b)
	}
	return nil
}

// pwConv is a conversion between integer types.
func pwConv(to types.Type, v *T) *T {
	b, ok := to.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	var f func(int64) (int64, bool)
	switch b.Kind() {
	case types.Int8:
		f = func(x int64) (int64, bool) { return int64(int8(x)), true }
	case types.Int16:
		f = func(x int64) (int64, bool) { return int64(int16(x)), true }
	case types.Int32:
		f = func(x int64) (int64, bool) { return int64(int32(x)), true }
	case types.Uint8:
		f = func(x int64) (int64, bool) { return int64(uint8(x)), true }
	case types.Uint16:
		f = func(x int64) (int64, bool) { return int64(uint16(x)), true }
	case types.Uint32:
		f = func(x int64) (int64, bool) { return int64(uint32(x)), true }
	default:
		return nil
	}
	return Pointwise("conv:"+TypeStr(to), f, to, v)
}

// pwUnicode names character functions.
var pwUnicode = map[string]func(rune) rune{
	"ToLower": unicode.ToLower, "ToUpper": unicode.ToUpper, "ToTitle": unicode.ToTitle, "SimpleFold": unicode.SimpleFold,
}
