package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/analyzer/ai"
)

// unsafeUse: a dataflow analysis of unsafe pointers over all library
// packages. The memory of a value that may hold an AST (an interface, a node
// or something made of nodes) must not be read or written as another type.
func (u *U) unsafeUse() {
	l := u.L
	w := u.W
	var fns []*ssa.Function
	for fn := range ssautil.AllFunctions(w.Prog) {
		if fn.Pkg != nil && w.InModule(fn.Pkg.Pkg) && !strings.Contains(fn.Pkg.Pkg.Path(), "_examples") {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	callers := map[*ssa.Function][]*ssa.CallCommon{}
	stores := map[string][]ssa.Value{} // by struct field
	fieldKey := func(fa *ssa.FieldAddr) string {
		return fmt.Sprintf("%s#%d", fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					if f := x.Common().StaticCallee(); f != nil {
						callers[f] = append(callers[f], x.Common())
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						stores[fieldKey(fa)] = append(stores[fieldKey(fa)], x.Val)
					}
				}
			}
		}
	}
	isUnsafe := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.UnsafePointer
	}
	var astLike func(t types.Type, seen map[types.Type]bool) bool
	astLike = func(t types.Type, seen map[types.Type]bool) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if ai.TypeStr(t) == ai.TypeStr(l.Ast) {
			return true
		}
		switch x := t.Underlying().(type) {
		case *types.Interface:
			return true
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				if astLike(x.Field(i).Type(), seen) {
					return true
				}
			}
		case *types.Slice:
			return astLike(x.Elem(), seen)
		case *types.Array:
			return astLike(x.Elem(), seen)
		}
		return false
	}
	// origins lists the types whose memory an unsafe pointer or an address may denote.
	type origin struct {
		t    types.Type
		what string
	}
	var origins func(v ssa.Value, seen map[ssa.Value]bool, r *[]origin)
	origins = func(v ssa.Value, seen map[ssa.Value]bool, r *[]origin) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Convert:
			if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				*r = append(*r, origin{p.Elem(), "memory of a " + p.Elem().String()})
				return
			}
			origins(x.X, seen, r)
		case *ssa.ChangeType:
			origins(x.X, seen, r)
		case *ssa.BinOp:
			origins(x.X, seen, r)
			origins(x.Y, seen, r)
		case *ssa.Phi:
			for _, e := range x.Edges {
				origins(e, seen, r)
			}
		case *ssa.Parameter:
			for i, p := range x.Parent().Params {
				if p == x {
					for _, c := range callers[x.Parent()] {
						if i < len(c.Args) {
							origins(c.Args[i], seen, r)
						}
					}
				}
			}
		case *ssa.Extract:
			origins(x.Tuple, seen, r)
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "Add" {
				origins(x.Call.Args[0], seen, r)
			}
			if f == nil {
				return
			}
			if f.Pkg != nil && f.Pkg.Pkg.Path() == "reflect" {
				*r = append(*r, origin{l.Any, "memory found by reflection (" + f.Name() + ")"})
				return
			}
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, v := range ret.Results {
						if isUnsafe(v.Type()) || types.Identical(v.Type(), types.Typ[types.Uintptr]) {
							origins(v, seen, r)
						}
					}
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				origins(x.X, seen, r)
			}
		case *ssa.Field:
			origins(x.X, seen, r)
		case *ssa.FieldAddr:
			for _, s := range stores[fieldKey(x)] {
				origins(s, seen, r)
			}
			origins(x.X, seen, r)
		case *ssa.IndexAddr:
			origins(x.X, seen, r)
		case *ssa.Alloc:
			for _, ref := range *x.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == x {
					origins(s.Val, seen, r)
				}
			}
		}
	}
	sites := 0
	for _, fn := range fns {
		u.entry, u.entryPos = fn.String(), fn.Pos()
		u.Checks["C24"]++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Convert)
				if !ok || !isUnsafe(c.X.Type()) {
					continue
				}
				p, ok := c.Type().Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				sites++
				u.Checks["C24"]++
				var os []origin
				origins(c.X, map[ssa.Value]bool{}, &os)
				for _, o := range os {
					if !astLike(o.t, map[types.Type]bool{}) || types.Identical(o.t, p.Elem()) {
						continue
					}
					if guarded(c) {
						u.undecided("%s: reinterpretation after a type check", w.Rel(u.E.PosStr(c.Pos())))
						continue
					}
					u.bad("C24", "memory of an AST value reinterpreted", nil, c.Pos(), "%s is used as a %s without a check of its dynamic type", o.what, p.Elem())
				}
			}
		}
		for _, fd := range u.E.Findings {
			u.engineFinding(fd)
		}
		u.E.Findings = nil
	}
	u.Facts = map[string]int{"functions_scanned": len(fns), "unsafe_conversions": sites}
}

// guarded: a check of a dynamic type comes before the instruction, for a type
// that the function reinterprets memory as, or by reflection.
func guarded(c *ssa.Convert) bool {
	var as []types.Type
	for _, b := range c.Parent().Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Convert); ok {
				if p, ok := x.Type().Underlying().(*types.Pointer); ok && types.Identical(x.X.Type().Underlying(), types.Typ[types.UnsafePointer]) {
					as = append(as, p.Elem())
				}
			}
		}
	}
	for _, b := range c.Parent().Blocks {
		if !b.Dominates(c.Block()) {
			continue
		}
		for _, in := range b.Instrs {
			if b == c.Block() && in == ssa.Instruction(c) {
				break
			}
			switch x := in.(type) {
			case *ssa.TypeAssert:
				for _, t := range as {
					if types.Identical(t.Underlying(), x.AssertedType.Underlying()) {
						return true
					}
				}
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "reflect" {
					return true
				}
				if x.Call.IsInvoke() && x.Call.Method.Pkg() != nil && x.Call.Method.Pkg().Path() == "reflect" {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	register("all.unsafe", []string{"C24"}, func(u *U) { u.unsafeUse() })
}
