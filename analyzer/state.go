package main

// Package variables that the code changes after initialisation: a function that reads them finds what any earlier call
// left there, so they are unknown at the beginning of every interpretation.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stateVars lists the variables of the project's packages (not of its commands, which run once) that are changed outside
// initialisers. A variable that is only ever set to a value that depends on nothing is no state.
func (p *Program) stateVars() []*ssa.Global {
	if p.state != nil {
		return *p.state
	}
	out := []*ssa.Global{}
	seen := map[*ssa.Global]bool{}
	for _, f := range p.sourceFuncs() {
		if f.Name() == "init" || f.Pkg == nil || f.Pkg.Pkg.Name() == "main" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var g *ssa.Global
				switch i := i.(type) {
				case *ssa.Store:
					if g = globalOf(i.Addr); g != nil && i.Addr == ssa.Value(g) && closedValue(i.Val, g, 0) {
						g = nil
					}
				case *ssa.MapUpdate:
					g = globalOf(i.Map)
				case ssa.CallInstruction:
					c := i.Common()
					for k, a := range c.Args {
						if x := addrOf(a); x != nil && changesArg(c.StaticCallee(), k, 0) {
							g = x
						}
					}
				}
				if g != nil && !seen[g] && g.Pkg != nil && isRepo(g.Pkg.Pkg.Path()) {
					seen[g] = true
					out = append(out, g)
				}
			}
		}
	}
	p.state = &out
	return out
}

// addrOf is the variable whose address, or that of a part of it, v is.
func addrOf(v ssa.Value) *ssa.Global {
	switch v := v.(type) {
	case *ssa.Global:
		return v
	case *ssa.FieldAddr:
		return addrOf(v.X)
	case *ssa.IndexAddr:
		return addrOf(v.X)
	case *ssa.Slice:
		return addrOf(v.X)
	}
	return nil
}

// globalOf is the variable that memory is reached from.
func globalOf(v ssa.Value) *ssa.Global {
	switch v := v.(type) {
	case *ssa.Global:
		return v
	case *ssa.FieldAddr:
		return globalOf(v.X)
	case *ssa.IndexAddr:
		return globalOf(v.X)
	case *ssa.Slice:
		return globalOf(v.X)
	case *ssa.UnOp:
		return globalOf(v.X)
	}
	return nil
}

// changesArg: the function may change what its k-th argument points to.
func changesArg(f *ssa.Function, k, depth int) bool {
	if f == nil || depth > 4 {
		return true
	}
	if f.Pkg == nil || !isRepo(f.Pkg.Pkg.Path()) {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" {
			return k == 0 && !strings.HasPrefix(f.Name(), "Load")
		}
		recv := f.Signature.Recv()
		if recv == nil || k != 0 {
			return false
		}
		t := recv.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		switch namedPath(t) {
		case "bytes.Buffer", "bytes.Reader", "strings.Builder", "strings.Reader", "bufio.Writer", "bufio.Reader", "sync.Map", "sync.Pool", "math/rand.Rand":
			return true
		case "math/big.Int":
			switch f.Name() {
			case "Cmp", "CmpAbs", "Sign", "Bytes", "FillBytes", "BitLen", "Bit", "Bits", "String", "Text", "Append", "Int64", "Uint64", "IsInt64", "IsUint64", "TrailingZeroBits", "ProbablyPrime", "Format":
				return false
			}
			return true
		}
		return false
	}
	if k >= len(f.Params) {
		return true
	}
	seen := map[ssa.Value]bool{}
	var changes func(v ssa.Value) bool
	changes = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				return true
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface:
				if changes(u.(ssa.Value)) {
					return true
				}
			case ssa.CallInstruction:
				for j, a := range u.Common().Args {
					if a == v && changesArg(u.Common().StaticCallee(), j, depth+1) {
						return true
					}
				}
			}
		}
		return false
	}
	return changes(f.Params[k])
}

// closedValue: the value is the same whenever it is computed, and does not depend on g.
func closedValue(v ssa.Value, g *ssa.Global, depth int) bool {
	if depth > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return true
	case *ssa.Global:
		return v != g
	case *ssa.Alloc:
		if v.Referrers() == nil {
			return true
		}
		for _, u := range *v.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(v) && !closedValue(s.Val, g, depth+1) {
				return false
			}
			if a, ok := u.(ssa.Value); ok && a.Referrers() != nil {
				for _, w := range *a.Referrers() {
					if s, ok := w.(*ssa.Store); ok && s.Addr == a && !closedValue(s.Val, g, depth+1) {
						return false
					}
				}
			}
		}
		return true
	case *ssa.Call:
		if v.Call.IsInvoke() && !closedValue(v.Call.Value, g, depth+1) {
			return false
		}
		for _, a := range v.Call.Args {
			if !closedValue(a, g, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		return closedValue(v.Tuple, g, depth+1)
	case *ssa.UnOp:
		return closedValue(v.X, g, depth+1)
	case *ssa.BinOp:
		return closedValue(v.X, g, depth+1) && closedValue(v.Y, g, depth+1)
	case *ssa.FieldAddr:
		return closedValue(v.X, g, depth+1)
	case *ssa.MakeInterface:
		return closedValue(v.X, g, depth+1)
	case *ssa.ChangeInterface:
		return closedValue(v.X, g, depth+1)
	case *ssa.ChangeType:
		return closedValue(v.X, g, depth+1)
	case *ssa.Convert:
		return closedValue(v.X, g, depth+1)
	}
	return false
}

// forget makes the state unknown.
func (e *Eng) forget() {
	for _, g := range e.p.stateVars() {
		o := e.global(g)
		n := "what earlier calls left in " + g.String()
		e.globalMem[o] = e.opaqueNamed(n, o.typ)
		switch u := o.typ.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Interface:
			// it may be anything that a caller passes, too
			e.globalMem[o] = VOpq{sym('o', n)}
		case *types.Struct:
			if n2 := namedPath(o.typ); n2 != "math/big.Int" && u.NumFields() > 0 && !isRepoType(n2) {
				e.globalMem[o] = VOpq{sym('o', n)}
			}
		}
	}
}

func isRepoType(n string) bool { return n == "" || strings.HasPrefix(n, modPath) }
