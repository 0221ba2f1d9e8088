package main

// Numbers of parties, rounds and evaluation points keep their value: the committees that are interpreted are small, so
// that arithmetic in types which are too narrow for large ones is looked for separately, in every function.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// checkWidths looks at the integer conversions and products in the given packages. Numbers of parties and thresholds
// have 16 bits, numbers of rounds 64.
func checkWidths(p *Program, r *Rep, pkgs ...string) {
	const rule = "integer-width"
	n := 0
	for _, f := range p.sourceFuncs() {
		in := false
		for _, k := range pkgs {
			in = in || inPkg(f, k)
		}
		if !in {
			continue
		}
		cons := f.RelString(nil)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Convert:
					to, signed, ok := intInfo(i.Type())
					from, fs, ok2 := intInfo(i.X.Type())
					if _, c := i.X.(*ssa.Const); c || !ok || !ok2 {
						continue
					}
					n++
					pos := p.pos(i.Pos())
					switch {
					case (to < 16 || to == 16 && signed) && (from > to || from == to && fs != signed) && !smallInt(i.X, to, 0) && !asByte(i, map[ssa.Value]bool{}):
						r.fail(rule, cons, pos, "a number is cut to %d bits here: %s", to, i)
					case to <= 32 && from == 64 && fieldOf(i.X) != nil && types.Identical(fieldOf(i.X).Underlying(), types.Typ[types.Int64]) && inPkg(f, syncPkg) && !asByte(i, map[ssa.Value]bool{}):
						r.fail(rule, cons, pos, "a counter of 64 bits is cut to %d bits here: %s", to, i)
					}
				case *ssa.Call:
					g := i.Call.StaticCallee()
					if g == nil || g.RelString(nil) != "strconv.ParseInt" && g.RelString(nil) != "strconv.ParseUint" || len(i.Call.Args) != 3 {
						continue
					}
					n++
					if c, ok := i.Call.Args[2].(*ssa.Const); ok && c.Value != nil && c.Int64() > 0 && (c.Int64() < 16 || c.Int64() == 16 && g.Name() == "ParseInt") {
						r.fail(rule, cons, p.pos(i.Pos()), "only numbers below %d bits are read here", c.Int64())
					}
				case *ssa.BinOp:
					if _, _, ok := intInfo(i.Type()); !ok || i.Op != token.MUL && i.Op != token.SHL || !inPkg(f, arithPkg) {
						continue
					}
					n++
					if grows(i, i, map[ssa.Value]bool{}) {
						r.fail(rule, cons, p.pos(i.Pos()), "a product of machine integers grows with every iteration of a loop and overflows: %s", i)
					}
				}
			}
		}
	}
	r.counts["integer conversions and products"] += n
	r.ob(true, rule, "integers of the package", "", "")
}

// smallInt: the number certainly fits into the given number of bits (without a sign).
func smallInt(v ssa.Value, bits, depth int) bool {
	if depth > 6 {
		return false
	}
	fits := func(x ssa.Value) bool {
		c, ok := x.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() >= 0 && c.Int64() < 1<<uint(bits)
	}
	switch v := v.(type) {
	case *ssa.Const:
		return fits(v)
	case *ssa.BinOp:
		switch v.Op {
		case token.AND:
			return fits(v.X) || fits(v.Y)
		case token.REM:
			return fits(v.Y)
		case token.SHR:
			b, _, ok := intInfo(v.X.Type())
			c, isC := v.Y.(*ssa.Const)
			return ok && isC && b-int(c.Int64()) <= bits
		}
	case *ssa.Convert:
		b, s, ok := intInfo(v.X.Type())
		return ok && !s && b < bits || smallInt(v.X, bits, depth+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !smallInt(e, bits, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			t := v.Call.Args[0].Type().Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			a, ok := t.(*types.Array)
			return ok && a.Len() < 1<<uint(bits)
		}
	}
	return false
}

// asByte: the number is only used as one byte of an encoding.
func asByte(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, u := range *refs {
		switch u := u.(type) {
		case *ssa.Store:
			ia, ok := u.Addr.(*ssa.IndexAddr)
			if !ok || u.Val != v || ia.Index == v {
				return false
			}
		case *ssa.Phi:
			if !asByte(u, seen) {
				return false
			}
		case *ssa.ChangeType:
			if !asByte(u, seen) {
				return false
			}
		case *ssa.Call:
			c := u.Call.StaticCallee()
			if c == nil || c.Name() != "WriteByte" {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// fieldOf is the type of the field a value was read from, if it was.
func fieldOf(v ssa.Value) types.Type {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			return fa.Type().(*types.Pointer).Elem()
		}
	case *ssa.Field:
		return v.Type()
	case *ssa.Convert:
		if b, _, ok := intInfo(v.Type()); ok && b == 64 {
			return fieldOf(v.X)
		}
	}
	return nil
}

// grows: v flows through arithmetic and loop variables back into the product.
func grows(prod *ssa.BinOp, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, u := range *refs {
		if u == ssa.Instruction(prod) {
			return true
		}
		switch u := u.(type) {
		case *ssa.Phi, *ssa.Convert, *ssa.ChangeType:
			if grows(prod, u.(ssa.Value), seen) {
				return true
			}
		case *ssa.BinOp:
			if u.Op == token.ADD || u.Op == token.SUB || u.Op == token.MUL || u.Op == token.SHL {
				if grows(prod, u, seen) {
					return true
				}
			}
		case *ssa.Store:
			// a variable shared with a closure
			if u.Val == v {
				if rs := u.Addr.Referrers(); rs != nil {
					for _, w := range *rs {
						if l, ok := w.(*ssa.UnOp); ok && l.Op == token.MUL && grows(prod, l, seen) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
