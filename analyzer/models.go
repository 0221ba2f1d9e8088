package main

// Models of the library functions the project uses: exact where the properties depend on them, opaque (a fresh
// unknown result) otherwise.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- helpers

// ptrTo allocates a library object with the content.
func (e *Eng) ptrTo(st *State, site *Site, what string, t types.Type, v Val) VPtr {
	o := e.alloc(site, what, t)
	st.mem[o] = v
	return VPtr{o: o, inst: append([]*T{}, o.kappas...)}
}

// newBytes allocates a byte slice.
func (e *Eng) newBytes(st *State, site *Site, what string, t *T) Val {
	p := e.ptrTo(st, site, what, types.NewSlice(types.Typ[types.Byte]), VBytes{t})
	n := lenB(t)
	return VSlice{p, num(0), n, n}
}

// withInts loads big integers through pointers; nil pointers crash.
func (e *Eng) withInts(st *State, site *Site, ps []Val, f func(st *State, ts []*T) Val) Val {
	vs := make([]Val, len(ps))
	for i, p := range ps {
		switch p := p.(type) {
		case VPtr:
			vs[i] = e.load(st, p, site.pos)
		case VNil:
			e.mayPanic(st, site, bFalse, "nil *big.Int")
			return VNil{}
		default:
			vs[i] = VInt{mkTerm("deref", 'i', "", e.termOf(p))}
		}
	}
	return e.fork(st, vs, func(st *State, vs []Val) Val {
		ts := make([]*T, len(vs))
		for i, v := range vs {
			if x, ok := v.(VInt); ok {
				ts[i] = x.t
			} else {
				ts[i] = mkTerm("int?", 'i', "", e.termOf(v))
			}
		}
		return f(st, ts)
	})
}

func (e *Eng) intArg(v Val) *T {
	if i, ok := v.(VInt); ok {
		return i.t
	}
	return mkTerm("int?", 'i', "", e.termOf(v))
}

func (e *Eng) storeInt(st *State, site *Site, z Val, t *T) Val {
	switch p := z.(type) {
	case VPtr:
		e.store(st, p, VInt{t}, site)
		return p
	case VNil:
		e.mayPanic(st, site, bFalse, "nil *big.Int")
		return VNil{}
	}
	e.undecided(site.pos, "result of integer arithmetic stored through %s", describe(z))
	return z
}

var bigType types.Type // math/big.Int

func (e *Eng) newInt(st *State, site *Site, what string, t *T) Val {
	return e.ptrTo(st, site, what, bigType, VInt{t})
}

func cmpVal(a, b *T) Val {
	l, q := lt(a, b), eq0(sub(a, b))
	return mkUnion([]Alt{{q, VInt{num(0)}}, {and(not(q), l), VInt{num(-1)}}, {and(not(q), not(l)), VInt{num(1)}}})
}

func isPrimeConst(m *T) bool {
	c, ok := isConst(m)
	return ok && (c.Cmp(curveN) == 0 || c.Cmp(curveP) == 0)
}

// ---- math/big

func (e *Eng) bigModel(st *State, m string, args []Val, fn *ssa.Function, site *Site) Val {
	z := args[0]
	opq := func(what string, ts ...*T) *T { return mkTerm("big:"+what, 'i', "", ts...) }
	bin := func(f func(st *State, a, b *T) *T, cases ...func(a, b, r *T) Val) Val {
		return e.withInts(st, site, args[1:3], func(st *State, ts []*T) Val {
			r := f(st, ts[0], ts[1])
			if st.pc == bFalse {
				return VNil{}
			}
			if len(cases) > 0 {
				return e.fork1(st, cases[0](ts[0], ts[1], r), func(st *State, v Val) Val {
					return e.storeInt(st, site, z, v.(VInt).t)
				})
			}
			return e.storeInt(st, site, z, r)
		})
	}
	nz := func(st *State, t *T) bool {
		e.mayPanic(st, site, not(eq0(t)), "division by zero")
		return st.pc != bFalse
	}
	switch m {
	case "Set", "Neg", "Abs", "Not", "Sqrt":
		return e.withInts(st, site, args[1:2], func(st *State, ts []*T) Val {
			r := ts[0]
			switch m {
			case "Neg":
				r = neg(r)
			case "Abs":
				r = absT(r)
			case "Not":
				r = sub(neg(r), num(1))
			case "Sqrt":
				r = opq("sqrt", r)
			}
			return e.storeInt(st, site, z, r)
		})
	case "SetInt64", "SetUint64":
		return e.storeInt(st, site, z, e.intArg(args[1]))
	case "SetBytes":
		b, ok := e.sliceBytes(st, args[1], site.pos)
		if !ok {
			e.undecided(site.pos, "SetBytes of %s", describe(args[1]))
		}
		return e.storeInt(st, site, z, fromBytes(b))
	case "SetString", "UnmarshalText", "SetBit", "ModSqrt", "Rand":
		if s, ok := args[1].(VStr); ok && m == "SetString" && s.t.op == "lit" {
			if b, ok := isConst(e.intArg(args[2])); ok {
				if n, ok := new(big.Int).SetString(s.t.name, int(b.Int64())); ok {
					return VTuple{[]Val{e.storeInt(st, site, z, cst(n)), VBool{bTrue}}}
				}
				return VTuple{[]Val{VNil{}, VBool{bFalse}}}
			}
		}
		if m == "SetString" {
			ok := e.okAtom(site, "SetString")
			e.storeInt(st, site, z, opq("parse", e.termOf(args[1]), e.termOf(args[2])))
			return VTuple{[]Val{mkUnion([]Alt{{ok, z}, {not(ok), VNil{}}}), VBool{ok}}}
		}
		e.storeInt(st, site, z, sym('i', e.siteName(site, m), e.kappas...))
		return e.opaqueNamed(e.siteName(site, m), resultType(fn.Signature))
	case "Add":
		return bin(func(st *State, a, b *T) *T { return add(a, b) })
	case "Sub":
		return bin(func(st *State, a, b *T) *T { return sub(a, b) })
	case "Mul":
		return bin(func(st *State, a, b *T) *T { return mul(a, b) })
	case "Mod":
		return bin(func(st *State, a, b *T) *T {
			if !nz(st, b) {
				return a
			}
			e.modulus(st, site, b)
			return mod(a, absT(b))
		})
	case "Div":
		return bin(func(st *State, a, b *T) *T {
			if !nz(st, b) {
				return a
			}
			return opq("div", a, b)
		})
	case "Quo":
		return bin(func(st *State, a, b *T) *T {
			if !nz(st, b) {
				return a
			}
			return quo(a, b)
		})
	case "Rem":
		return bin(func(st *State, a, b *T) *T {
			if !nz(st, b) {
				return a
			}
			e.modulus(st, site, b)
			return mod(a, absT(b))
		}, func(a, b, r *T) Val {
			// the remainder has the sign of the dividend
			low := lt(a, num(0))
			return mkUnion([]Alt{{not(low), VInt{r}}, {and(low, eq0(r)), VInt{num(0)}}, {and(low, not(eq0(r))), VInt{sub(r, absT(b))}}})
		})
	case "And", "Or", "Xor", "AndNot":
		return bin(func(st *State, a, b *T) *T { return opq(m, a, b) })
	case "DivMod", "QuoRem":
		return e.withInts(st, site, args[1:3], func(st *State, ts []*T) Val {
			if !nz(st, ts[1]) {
				return VNil{}
			}
			e.modulus(st, site, ts[1])
			q, rm := opq("div", ts[0], ts[1]), mod(ts[0], absT(ts[1]))
			if m == "QuoRem" {
				q = quo(ts[0], ts[1])
				if l, _ := bounds(ts[0]); l == nil || l.Sign() < 0 {
					rm = opq("rem", ts[0], ts[1])
				}
			}
			a := e.storeInt(st, site, z, q)
			return VTuple{[]Val{a, e.storeInt(st, site, args[3], rm)}}
		})
	case "ModInverse":
		return e.withInts(st, site, args[1:3], func(st *State, ts []*T) Val {
			if !nz(st, ts[1]) {
				return VNil{}
			}
			e.modulus(st, site, ts[1])
			n := absT(ts[1])
			ok := bAtom(mkTerm("invertible", 'o', "", ts[0], n))
			if isPrimeConst(n) {
				ok = not(eq0(mod(ts[0], n)))
			}
			return e.fork1(st, mkUnion([]Alt{{ok, VBool{bTrue}}, {not(ok), VNil{}}}), func(st *State, v Val) Val {
				if _, bad := v.(VNil); bad {
					return VNil{}
				}
				return e.storeInt(st, site, z, inverse(ts[0], n))
			})
		})
	case "Exp":
		return e.withInts(st, site, args[1:3], func(st *State, ts []*T) Val {
			x, y := ts[0], ts[1]
			if _, isNil := args[3].(VNil); isNil {
				if c, ok := isConst(y); ok && c.IsInt64() && c.Int64() >= 0 && c.Int64() <= 16 {
					return e.storeInt(st, site, z, powT(x, y))
				}
				return e.storeInt(st, site, z, opq("pow", x, y))
			}
			return e.withInts(st, site, args[3:4], func(st *State, ms []*T) Val {
				mm := ms[0]
				e.modulus(st, site, mm)
				if isPrimeConst(mm) {
					c, _ := isConst(mm)
					if yc, ok := isConst(y); ok {
						if new(big.Int).Sub(c, big.NewInt(2)).Cmp(yc) == 0 || yc.Cmp(big.NewInt(-1)) == 0 {
							return e.storeInt(st, site, z, inverse(x, mm))
						}
						if yc.IsInt64() && yc.Int64() >= 0 && yc.Int64() <= 16 {
							return e.storeInt(st, site, z, mod(powT(x, y), mm))
						}
					}
					return e.storeInt(st, site, z, mod(opq("pow", x, y), mm))
				}
				return e.storeInt(st, site, z, opq("powmod", x, y, mm))
			})
		})
	case "Lsh", "Rsh":
		return e.withInts(st, site, args[1:2], func(st *State, ts []*T) Val {
			n := e.intArg(args[2])
			if c, ok := isConst(n); ok && c.IsInt64() && c.Int64() < 4096 {
				if m == "Lsh" {
					return e.storeInt(st, site, z, scale(pow2(int(c.Int64())), ts[0]))
				}
				if xc, ok := isConst(ts[0]); ok {
					return e.storeInt(st, site, z, cst(new(big.Int).Rsh(xc, uint(c.Int64()))))
				}
				if c.Sign() == 0 {
					return e.storeInt(st, site, z, ts[0])
				}
			}
			return e.storeInt(st, site, z, opq(m, ts[0], n))
		})
	case "Cmp", "CmpAbs":
		return e.withInts(st, site, args[:2], func(st *State, ts []*T) Val {
			if m == "CmpAbs" {
				return cmpVal(absT(ts[0]), absT(ts[1]))
			}
			return cmpVal(ts[0], ts[1])
		})
	case "Sign":
		return e.withInts(st, site, args[:1], func(st *State, ts []*T) Val { return cmpVal(ts[0], num(0)) })
	case "Bytes":
		return e.withInts(st, site, args[:1], func(st *State, ts []*T) Val {
			return e.newBytes(st, site, "Bytes", bigBytes(ts[0]))
		})
	case "FillBytes":
		return e.withInts(st, site, args[:1], func(st *State, ts []*T) Val {
			n := num(0)
			sl, ok := args[1].(VSlice)
			if ok {
				n = sl.ln
			}
			e.mayPanic(st, site, le0(sub(byteLen(absT(ts[0])), n)), "FillBytes: the value does not fit")
			if ok && st.pc != bFalse {
				e.writeBytes(st, sl, fillBytes(ts[0], n), site)
			}
			return args[1]
		})
	case "BitLen", "TrailingZeroBits", "Bit":
		return e.withInts(st, site, args[:1], func(st *State, ts []*T) Val {
			if c, ok := isConst(ts[0]); ok && m == "BitLen" {
				return VInt{num(int64(c.BitLen()))}
			}
			as := []*T{ts[0]}
			if m == "Bit" {
				as = append(as, e.intArg(args[1]))
			}
			r := mkTerm(m, 'i', "", as...)
			return VInt{r}
		})
	case "Int64", "Uint64":
		return e.withInts(st, site, args[:1], func(st *State, ts []*T) Val { return VInt{wrapInt(ts[0], 64, m == "Int64")} })
	case "IsInt64", "IsUint64":
		return e.withInts(st, site, args[:1], func(st *State, ts []*T) Val {
			lo, hi := typeRange(64, m == "IsInt64")
			return VBool{and(le0(sub(cst(lo), ts[0])), le0(sub(ts[0], cst(hi))))}
		})
	case "String", "Text", "Append", "GobEncode", "MarshalText":
		return e.withInts(st, site, args[:1], func(st *State, ts []*T) Val {
			r := mkTerm("decimal", 'b', m, ts[0])
			switch resultType(fn.Signature).(type) {
			case *types.Tuple:
				return VTuple{[]Val{e.newBytes(st, site, m, r), VNil{}}}
			case *types.Slice:
				return e.newBytes(st, site, m, r)
			}
			return VStr{r}
		})
	case "ProbablyPrime":
		return e.withInts(st, site, args[:1], func(st *State, ts []*T) Val { return VBool{bAtom(mkTerm("prime", 'o', "", ts[0]))} })
	}
	if p, ok := z.(VPtr); ok {
		e.store(st, p, VInt{sym('i', e.siteName(site, m), e.kappas...)}, site)
	}
	return e.opaqueNamed(e.siteName(site, m), resultType(fn.Signature))
}

// ---- readers and writers

// content of a reader: what remains and how reading can fail
type readSrc struct {
	kind string // "buf", "stream"
	p    VPtr
}

// consume takes n bytes from the reader v; f runs per outcome. full: all or error; otherwise short reads happen.
func (e *Eng) readFrom(st *State, rd Val, dst VSlice, full bool, site *Site) Val {
	if _, ok := rd.(VNil); ok && dst.ln != num(0) {
		e.mayPanic(st, site, bFalse, "method call on a nil interface")
		return VTuple{[]Val{VInt{num(0)}, VNil{}}}
	}
	rd = connHalf(rd, 0)
	res := func(n *T, err Val) Val { return VTuple{[]Val{VInt{n}, err}} }
	p, c := e.readerContent(st, rd, site)
	n := dst.ln
	return e.fork1(st, c, func(st *State, c Val) Val {
		switch c := c.(type) {
		case VBuf:
			win := emptyB
			if c.has {
				win, _ = e.sliceBytes(st, c.sl, site.pos)
			}
			avail := lenB(win)
			ok := le0(sub(n, avail))
			ev := e.event("read", st, site, "buffer")
			ev.ok, ev.ts = ok, []*T{n}
			return e.fork1(st, VBoolSplit(ok), func(st *State, b Val) Val {
				good := b.(VBool).b == bTrue
				k := n
				if !good {
					k = avail
				}
				data := sliceB(win, num(0), k)
				e.writeBytes(st, VSlice{dst.arr, dst.off, k, k}, data, site)
				nc := c
				if c.has {
					nc.sl = VSlice{c.sl.arr, add(c.sl.off, k), sub(c.sl.ln, k), sub(c.sl.cp, k)}
				}
				nc.log = cat(c.log, data)
				e.store(st, p, nc, nil)
				if good || !full {
					if !good {
						// a short read; io.EOF when nothing is left
						return res(k, mkUnion([]Alt{{eq0(k), e.freshErr(site)}, {not(eq0(k)), VNil{}}}))
					}
					return res(k, VNil{})
				}
				return res(k, e.freshErr(site))
			})
		case VStream:
			if c.rem == nil {
				break
			}
			if c.rem.op == "kdfstream" {
				off := c.rem.args[0]
				data := mkTerm("kdf", 'b', "", append([]*T{n, off}, c.rem.args[1:]...)...)
				e.writeBytes(st, dst, data, site)
				nc := c
				nc.rem = mkTerm("kdfstream", 'b', "", append([]*T{add(off, n)}, c.rem.args[1:]...)...)
				e.store(st, p, nc, nil)
				return res(n, VNil{})
			}
			avail := lenB(c.rem)
			ok := le0(sub(n, avail))
			if !c.sure {
				ok = and(ok, e.okAtom(site, "read"))
			}
			ev := e.event("read", st, site, c.name)
			ev.ok, ev.ts = ok, []*T{n}
			short := !full && c.chunk
			if short {
				ev.name = "short:" + c.name
				ev.ts = append(ev.ts, symRange(e.siteName(site, "shortn"), big0, pow2(40), e.kappas...))
			}
			return e.fork1(st, VBoolSplit(ok), func(st *State, b Val) Val {
				good := b.(VBool).b == bTrue
				nc := c
				if good && !short {
					data := sliceB(c.rem, num(0), n)
					e.writeBytes(st, dst, data, site)
					nc.rem = sliceB(c.rem, n, avail)
					nc.log = cat(c.log, data)
					e.store(st, p, nc, nil)
					return res(n, VNil{})
				}
				k := symRange(e.siteName(site, "shortn"), big0, pow2(40), e.kappas...)
				most := n
				if full && !good {
					most = sub(n, num(1)) // it fails only when something is missing
				}
				e.assume(st, and(le0(sub(k, most)), le0(sub(k, avail))))
				if st.pc == bFalse {
					return VNil{}
				}
				data := sliceB(c.rem, num(0), k)
				e.writeBytes(st, VSlice{dst.arr, dst.off, k, k}, data, site)
				nc.rem = sliceB(c.rem, k, avail)
				nc.log = cat(c.log, data)
				e.store(st, p, nc, nil)
				if good {
					return res(k, VNil{})
				}
				return res(k, e.freshErr(site))
			})
		}
		e.event("read", st, site, "unknown").ok = e.okAtom(site, "read")
		e.writeBytes(st, dst, mkTerm("rd", 'b', e.siteName(site, "data"), append([]*T{n}, e.kappas...)...), site)
		return res(n, e.errUnion(e.okAtom(site, "read"), e.freshErr(site)))
	})
}

// VBoolSplit is a value that forks on the condition.
func VBoolSplit(c *Node) Val {
	if c == bTrue || c == bFalse {
		return VBool{c}
	}
	return &VUnion{[]Alt{{c, VBool{bTrue}}, {not(c), VBool{bFalse}}}}
}

// readerContent finds the content behind an io.Reader or io.Writer.
func (e *Eng) readerContent(st *State, rd Val, site *Site) (VPtr, Val) {
	switch r := rd.(type) {
	case VIface:
		if r.typ == streamType {
			if p, ok := r.v.(VPtr); ok {
				return p, e.load(st, p, site.pos)
			}
		}
		if p, ok := r.v.(VPtr); ok {
			return e.readerContent(st, p, site)
		}
	case VPtr:
		c := e.load(st, r, site.pos)
		ok := true
		e.lift(st, []Val{c}, func(vs []Val) Val {
			switch vs[0].(type) {
			case VBuf, VStream:
			default:
				ok = false
			}
			return VNil{}
		})
		if ok {
			return r, c
		}
	}
	return VPtr{}, VOpq{sym('o', "reader?")}
}

// writeTo appends data to a writer; the result is the error.
func (e *Eng) writeTo(st *State, w Val, data *T, site *Site) Val {
	if _, ok := w.(VNil); ok {
		e.mayPanic(st, site, bFalse, "method call on a nil interface")
		return VNil{}
	}
	if p, ok := e.bufioOf(w); ok {
		return e.bufioWrite(st, p, data, site)
	}
	w = connHalf(w, 1)
	p, c := e.readerContent(st, w, site)
	return e.fork1(st, c, func(st *State, c Val) Val {
		switch c := c.(type) {
		case VBuf:
			e.bufWrite(st, p, c, data, site)
			return VNil{}
		case VStream:
			ok := bTrue
			if !c.sure {
				ok = e.okAtom(site, "write")
			}
			ev := e.event("write", st, site, c.name)
			ev.ok, ev.ts = ok, []*T{data}
			return e.fork1(st, VBoolSplit(ok), func(st *State, b Val) Val {
				nc := c
				if b.(VBool).b == bTrue {
					nc.log = cat(c.log, data)
					e.store(st, p, nc, nil)
					return VNil{}
				}
				nc.log = cat(c.log, sliceB(data, num(0), symRange(e.siteName(site, "partial"), big0, pow2(40), e.kappas...)))
				e.store(st, p, nc, nil)
				return e.freshErr(site)
			})
		}
		ok := e.okAtom(site, "write")
		ev := e.event("write", st, site, "unknown")
		ev.ok, ev.ts, ev.vals = ok, []*T{data}, []Val{w}
		return e.errUnion(ok, e.freshErr(site))
	})
}

func (e *Eng) bufWrite(st *State, p VPtr, c VBuf, data *T, site *Site) {
	n := lenB(data)
	if !c.has {
		sl := e.newBytes(st, site, "buffer", data).(VSlice)
		c.sl, c.has = sl, true
		e.store(st, p, c, nil)
		return
	}
	cur := e.load(st, c.sl.arr, site.pos)
	if u, ok := cur.(*VUnion); ok {
		as := e.alts(u, st.pc)
		if len(as) == 1 {
			cur = as[0].v
		}
	}
	b, ok := cur.(VBytes)
	if !ok {
		e.undecided(site.pos, "buffer over %s", describe(cur))
		return
	}
	if c.stale {
		// the storage is reused from its beginning
		old := b.t
		var nb *T
		if decideLe0(sub(n, lenB(old))) == 1 {
			nb = spliceB(old, num(0), data)
		} else {
			nb = cat(data, sliceB(old, n, lenB(old)))
			if decideLe0(sub(lenB(old), n)) == 1 {
				nb = data
			} else {
				nb = cat(data, mkTerm("staletail", 'b', "", old, data))
			}
		}
		e.store(st, c.sl.arr, VBytes{nb}, nil)
		c.sl = VSlice{c.sl.arr, num(0), n, n}
		c.stale = false
		e.store(st, p, c, nil)
		return
	}
	end := add(c.sl.off, c.sl.ln)
	if c.sl.arr.o.input || c.sl.arr.o.global {
		old, _ := e.sliceBytes(st, c.sl, site.pos)
		sl := e.newBytes(st, site, "buffer", cat(old, data)).(VSlice)
		c.sl = sl
		e.store(st, p, c, nil)
		return
	}
	e.store(st, c.sl.arr, VBytes{cat(sliceB(b.t, num(0), end), data)}, nil)
	c.sl = VSlice{c.sl.arr, c.sl.off, add(c.sl.ln, n), add(c.sl.ln, n)}
	e.store(st, p, c, nil)
}

// bufModel models bytes.Buffer, bytes.Reader and strings.Builder.
func (e *Eng) bufModel(st *State, m string, args []Val, fn *ssa.Function, site *Site) Val {
	p, ok := args[0].(VPtr)
	if !ok {
		if _, isNil := args[0].(VNil); isNil {
			e.mayPanic(st, site, bFalse, "nil buffer")
			return VNil{}
		}
		return e.opaqueNamed(e.siteName(site, m), resultType(fn.Signature))
	}
	return e.fork1(st, e.load(st, p, site.pos), func(st *State, cv Val) Val {
		c, ok := cv.(VBuf)
		if !ok {
			e.undecided(site.pos, "buffer %s", describe(cv))
			return e.opaqueNamed(e.siteName(site, m), resultType(fn.Signature))
		}
		win := emptyB
		if c.has && !c.stale {
			win, _ = e.sliceBytes(st, c.sl, site.pos)
		}
		switch m {
		case "Write", "WriteString", "WriteByte", "WriteRune":
			var data *T
			if m == "WriteByte" {
				data = encInt("B1", e.intArg(args[1]))
			} else {
				data, _ = e.sliceBytes(st, args[1], site.pos)
			}
			e.bufWrite(st, p, c, data, site)
			if m == "WriteByte" {
				return VNil{}
			}
			return VTuple{[]Val{VInt{lenB(data)}, VNil{}}}
		case "Bytes":
			if !c.has || c.stale {
				return VNil{}
			}
			return c.sl
		case "String":
			return VStr{win}
		case "Len":
			return VInt{lenB(win)}
		case "Reset":
			if len(args) > 1 { // bytes.Reader.Reset(b)
				if sl, ok := args[1].(VSlice); ok {
					e.store(st, p, VBuf{sl: sl, has: true, log: emptyB}, nil)
					return VNil{}
				}
			}
			c.stale = c.has
			e.store(st, p, c, nil)
			return VNil{}
		case "Grow":
			return VNil{}
		case "Cap", "Available", "Size":
			return VInt{symRange(e.siteName(site, m), big0, pow2(40), e.kappas...)}
		case "WriteTo":
			if _, isStr := args[0].(VStr); isStr {
				break
			}
			return e.drainTo(st, p, args[1], site)
		case "ReadFrom":
			return e.copyModel(st, args[0], args[1], nil, site)
		case "Read":
			if d, ok := args[1].(VSlice); ok {
				return e.readFrom(st, p, d, false, site)
			}
			return VTuple{[]Val{VInt{num(0)}, VNil{}}}
		case "ReadByte":
			ok := lt(num(0), lenB(win))
			return e.fork1(st, VBoolSplit(ok), func(st *State, b Val) Val {
				if b.(VBool).b == bFalse {
					return VTuple{[]Val{VInt{num(0)}, e.freshErr(site)}}
				}
				r := decInt("B1", sliceB(win, num(0), num(1)))
				nc := c
				nc.sl = VSlice{c.sl.arr, add(c.sl.off, num(1)), sub(c.sl.ln, num(1)), sub(c.sl.cp, num(1))}
				e.store(st, p, nc, nil)
				return VTuple{[]Val{VInt{r}, VNil{}}}
			})
		case "Next":
			n := e.intArg(args[1])
			return e.fork1(st, VBoolSplit(le0(sub(n, lenB(win)))), func(st *State, b Val) Val {
				k := n
				if b.(VBool).b == bFalse {
					k = lenB(win)
				}
				if !c.has {
					return VNil{}
				}
				nc := c
				nc.sl = VSlice{c.sl.arr, add(c.sl.off, k), sub(c.sl.ln, k), sub(c.sl.cp, k)}
				e.store(st, p, nc, nil)
				return VSlice{c.sl.arr, c.sl.off, k, c.sl.cp}
			})
		}
		e.undecided(site.pos, "buffer method %s", m)
		return e.opaqueNamed(e.siteName(site, m), resultType(fn.Signature))
	})
}

// drainTo writes what a buffer holds to a writer.
func (e *Eng) drainTo(st *State, p VPtr, w Val, site *Site) Val {
	return e.fork1(st, e.load(st, p, site.pos), func(st *State, cv Val) Val {
		c, ok := cv.(VBuf)
		if !ok {
			e.undecided(site.pos, "buffer %s", describe(cv))
			return VTuple{[]Val{VInt{num(0)}, VNil{}}}
		}
		win := emptyB
		if c.has && !c.stale {
			win, _ = e.sliceBytes(st, c.sl, site.pos)
		}
		err := e.writeTo(st, w, win, site)
		if st.pc == bFalse {
			return VNil{}
		}
		return e.fork1(st, err, func(st *State, err Val) Val {
			n := lenB(win)
			if _, ok := err.(VNil); !ok {
				n = symRange(e.siteName(site, "written"), big0, pow2(40), e.kappas...)
			}
			if c.has {
				nc := c
				nc.sl = VSlice{c.sl.arr, add(c.sl.off, n), sub(c.sl.ln, n), sub(c.sl.cp, n)}
				e.store(st, p, nc, nil)
			}
			return VTuple{[]Val{VInt{n}, err}}
		})
	})
}

// copyModel is io.Copy (n == nil) or io.CopyN.
func (e *Eng) copyModel(st *State, dst, src Val, n *T, site *Site) Val {
	if n == nil {
		if p, c := e.readerContent(st, src, site); p.o != nil {
			if _, ok := c.(VBuf); ok {
				return e.drainTo(st, p, dst, site)
			}
		}
		ev := e.event("make", st, site, "copy of everything")
		ev.ts = []*T{sym('i', "unbounded input")}
		e.undecided(site.pos, "copy of a stream")
		return VTuple{[]Val{VInt{symRange(e.siteName(site, "copied"), big0, pow2(40), e.kappas...)}, e.errUnion(e.okAtom(site, "copy"), e.freshErr(site))}}
	}
	buf := e.newBytes(st, site, "copied", zeroB(n)).(VSlice)
	r := e.readFrom(st, src, buf, true, site)
	if st.pc == bFalse {
		return VNil{}
	}
	return e.fork1(st, r, func(st *State, r Val) Val {
		t := r.(VTuple)
		data, _ := e.sliceBytes(st, VSlice{buf.arr, buf.off, e.intArg(t.f[0]), buf.cp}, site.pos)
		werr := e.writeTo(st, dst, data, site)
		if st.pc == bFalse {
			return VNil{}
		}
		return e.fork1(st, werr, func(st *State, werr Val) Val {
			if _, ok := werr.(VNil); ok {
				return VTuple{[]Val{t.f[0], t.f[1]}}
			}
			return VTuple{[]Val{VInt{symRange(e.siteName(site, "copied"), big0, pow2(40), e.kappas...)}, werr}}
		})
	})
}

// streamOp models method calls on abstract readers, writers and hash states.
func (e *Eng) streamOp(st *State, m string, r VIface, args []Val, site *Site) Val {
	if r.typ == randType {
		if d, ok := args[0].(VSlice); ok && m == "Read" {
			return e.randFill(st, d, r, site)
		}
	}
	switch m {
	case "Read":
		if d, ok := args[0].(VSlice); ok {
			return e.readFrom(st, r, d, false, site)
		}
		return VTuple{[]Val{VInt{num(0)}, VNil{}}}
	case "Write", "WriteString":
		data, _ := e.sliceBytes(st, args[0], site.pos)
		err := e.writeTo(st, r, data, site)
		if st.pc == bFalse {
			return VNil{}
		}
		n := VInt{lenB(data)}
		return VTuple{[]Val{e.lift(st, []Val{err}, func(vs []Val) Val {
			if _, ok := vs[0].(VNil); ok {
				return n
			}
			return VInt{symRange(e.siteName(site, "written"), big0, pow2(40), e.kappas...)}
		}), err}}
	case "Sum":
		if p, ok := r.v.(VPtr); ok {
			return e.fork1(st, e.load(st, p, site.pos), func(st *State, c Val) Val {
				s, ok := c.(VStream)
				if !ok {
					return e.opaqueNamed(e.siteName(site, m), types.NewSlice(types.Typ[types.Byte]))
				}
				pre, _ := e.sliceBytes(st, args[0], site.pos)
				return e.newBytes(st, site, "Sum", cat(pre, mkTerm("hash", 'b', s.name, s.log)))
			})
		}
	case "Reset":
		if p, ok := r.v.(VPtr); ok {
			e.fork1(st, e.load(st, p, site.pos), func(st *State, c Val) Val {
				if s, ok := c.(VStream); ok {
					s.log = emptyB
					e.store(st, p, s, nil)
				}
				return VNil{}
			})
			return VNil{}
		}
	case "Close":
		ok := e.okAtom(site, "close")
		return e.errUnion(ok, e.freshErr(site))
	case "Size", "BlockSize":
		return VInt{num(32)}
	}
	e.undecided(site.pos, "method %s of a stream", m)
	return VOpq{sym('o', e.siteName(site, m))}
}

func (e *Eng) randFill(st *State, d VSlice, r Val, site *Site) Val {
	ok := bTrue
	if !e.sureDraws {
		ok = e.okAtom(site, "entropy")
	}
	ev := e.event("draw", st, site, "bytes")
	ev.ok = ok
	ev.vals = []Val{r}
	data := mkTerm("rd", 'b', e.siteName(site, "random"), append([]*T{d.ln}, e.kappas...)...)
	ev.ts = []*T{data}
	e.writeBytes(st, d, data, site)
	return VTuple{[]Val{VInt{d.ln}, e.errUnion(ok, e.freshErr(site))}}
}

// ---- abstract group

func (e *Eng) ptOf(st *State, v Val, site *Site) *T {
	switch v := v.(type) {
	case VPoint:
		return v.t
	case VNil:
		e.mayPanic(st, site, bFalse, "nil point")
		return num(0)
	}
	e.undecided(site.pos, "point %s", describe(v))
	return mkTerm("pt?", 'p', "", e.termOf(v))
}

var neutralT = func() *T { return num(0) }

func (e *Eng) orderObj(st *State) VPtr {
	o := e.inputs["group order"]
	if o == nil {
		o = e.newObj("group order", bigType)
		o.global = true
		e.inputs["group order"] = o
		e.globalMem[o] = VInt{cst(curveN)}
	}
	return VPtr{o: o}
}

func (e *Eng) groupOp(st *State, m string, args []Val, site *Site) Val {
	sc := func(v Val, f func(st *State, k *T) Val) Val {
		return e.withInts(st, site, []Val{v}, func(st *State, ts []*T) Val { return f(st, ts[0]) })
	}
	switch m {
	case "Order":
		return e.orderObj(st)
	case "Gen":
		return VPoint{ptG}
	case "Neutral":
		return VPoint{num(0)}
	case "Add":
		a, b := e.ptOf(st, args[0], site), e.ptOf(st, args[1], site)
		return VPoint{ptAdd(a, b)}
	case "Neg":
		return VPoint{redN(neg(e.ptOf(st, args[0], site)))}
	case "ScalarMult":
		a := e.ptOf(st, args[0], site)
		if st.pc == bFalse {
			return VNil{}
		}
		return sc(args[1], func(st *State, k *T) Val { return VPoint{ptMul(k, a)} })
	case "ScalarBaseMult":
		return sc(args[0], func(st *State, k *T) Val { return VPoint{ptMul(k, ptG)} })
	case "Equal":
		a, b := e.ptOf(st, args[0], site), e.ptOf(st, args[1], site)
		return VBool{eq0(sub(a, b))}
	case "Encode":
		a := e.ptOf(st, args[0], site)
		if st.pc == bFalse {
			return VNil{}
		}
		return e.writeTo(st, args[1], encP(a), site)
	case "Decode":
		return e.decodePoint(st, args[0], site)
	}
	e.undecided(site.pos, "group operation %s", m)
	return VOpq{sym('o', e.siteName(site, m))}
}

// decodePoint reads one point: the encoding at the front of known content, or an unknown point.
func (e *Eng) decodePoint(st *State, rd Val, site *Site) Val {
	p, c := e.readerContent(st, rd, site)
	return e.fork1(st, c, func(st *State, c Val) Val {
		var rem *T
		sure := true
		switch c := c.(type) {
		case VBuf:
			rem = emptyB
			if c.has && !c.stale {
				rem, _ = e.sliceBytes(st, c.sl, site.pos)
			}
		case VStream:
			rem, sure = c.rem, c.sure
		}
		if rem == nil {
			rem = sym('b', e.siteName(site, "unknown input"), e.kappas...)
		}
		first := rem
		if rem.op == "cat" {
			first = rem.args[0]
		}
		var pt, n *T
		ok := bTrue
		if first.op == "enc" {
			pt, n = first.args[0], lenB(first)
			if !sure {
				ok = e.okAtom(site, "decode")
			}
		} else if rem == emptyB {
			ok = bFalse
			pt, n = num(0), num(0)
		} else {
			// a function of the content only
			pt = mkTerm("decoded", 'p', "", rem)
			n = mkTerm("declen", 'i', "", rem)
			symLo[n], symHi[n] = big.NewInt(1), big.NewInt(72)
			ok = bAtom(mkTerm("decodes", 'o', "", rem))
			if !sure {
				ok = and(ok, e.okAtom(site, "decode"))
			}
			ok = and(ok, le0(sub(n, lenB(rem))))
		}
		ev := e.event("read", st, site, "point")
		ev.ok = ok
		return e.fork1(st, VBoolSplit(ok), func(st *State, b Val) Val {
			adv := n
			good := b.(VBool).b == bTrue
			if !good {
				adv = symRange(e.siteName(site, "shortn"), big0, pow2(40), e.kappas...)
				e.assume(st, le0(sub(adv, lenB(rem))))
			}
			switch c := c.(type) {
			case VBuf:
				if c.has {
					c.sl = VSlice{c.sl.arr, add(c.sl.off, adv), sub(c.sl.ln, adv), sub(c.sl.cp, adv)}
					e.store(st, p, c, nil)
				}
			case VStream:
				if c.rem != nil {
					c.log = cat(c.log, sliceB(rem, num(0), adv))
					c.rem = sliceB(rem, adv, lenB(rem))
					e.store(st, p, c, nil)
				}
			}
			if good {
				return VTuple{[]Val{VPoint{pt}, VNil{}}}
			}
			return VTuple{[]Val{VNil{}, e.freshErr(site)}}
		})
	})
}

// ---- secp256k1 library

func (e *Eng) bitCurveObj() VPtr {
	o := e.inputs["secp256k1 curve"]
	if o == nil {
		o = e.newObj("secp256k1 curve", nil)
		o.global = true
		e.inputs["secp256k1 curve"] = o
	}
	return VPtr{o: o}
}

func (e *Eng) bitCurve(t types.Type) VPtr {
	p := e.bitCurveObj()
	if e.globalMem[p.o] != nil {
		return p
	}
	stt := t.Underlying().(*types.Struct)
	p.o.typ = t
	fs := make([]Val, stt.NumFields())
	for i := range fs {
		f := stt.Field(i)
		var c *big.Int
		switch f.Name() {
		case "P":
			c = curveP
		case "N":
			c = curveN
		case "B":
			c = big.NewInt(7)
		case "Gx":
			c = curveGx
		case "Gy":
			c = curveGy
		case "BitSize":
			fs[i] = VInt{num(256)}
			continue
		}
		if c == nil {
			fs[i] = VOpq{sym('o', "curve."+f.Name())}
			continue
		}
		var o *Obj
		if f.Name() == "N" {
			o = e.orderObj(nil).o
		} else {
			o = e.newObj("curve."+f.Name(), bigType)
			o.global = true
			e.globalMem[o] = VInt{cst(c)}
		}
		fs[i] = VPtr{o: o}
	}
	e.globalMem[p.o] = VStruct{fs}
	return p
}

func (e *Eng) curveModel(st *State, m string, args []Val, fn *ssa.Function, site *Site) Val {
	coords := func(st *State, p *T) Val {
		zero := eq0(p)
		// the library has no representation for the neutral element here
		e.mayPanicCurve(st, site, zero)
		return VTuple{[]Val{e.newInt(st, site, "x", coordX(p)), e.newInt(st, site, "y", coordY(p))}}
	}
	unknown := func(st *State, what string, ts ...*T) Val {
		return VTuple{[]Val{e.newInt(st, site, "x", mkTerm(what+".x", 'i', "", ts...)), e.newInt(st, site, "y", mkTerm(what+".y", 'i', "", ts...))}}
	}
	switch m {
	case "IsOnCurve":
		return e.withInts(st, site, args[1:3], func(st *State, ts []*T) Val { return VBool{onCurve(ts[0], ts[1])} })
	case "Add":
		return e.withInts(st, site, args[1:5], func(st *State, ts []*T) Val {
			a, b := asPoint(ts[0], ts[1]), asPoint(ts[2], ts[3])
			if a == nil || b == nil {
				return unknown(st, "libadd", ts...)
			}
			bad := or(eq0(sub(a, b)), eq0(add(a, b)))
			return e.fork1(st, VBoolSplit(not(simplify(st.pc, bad))), func(st *State, v Val) Val {
				if v.(VBool).b == bTrue {
					return coords(st, ptAdd(a, b))
				}
				return VTuple{[]Val{e.newInt(st, site, "x", num(0)), e.newInt(st, site, "y", num(0))}}
			})
		})
	case "Double":
		return e.withInts(st, site, args[1:3], func(st *State, ts []*T) Val {
			if a := asPoint(ts[0], ts[1]); a != nil {
				return coords(st, ptAdd(a, a))
			}
			return unknown(st, "libdouble", ts...)
		})
	case "ScalarMult", "ScalarBaseMult":
		mult := func(st *State, a *T, ka Val) Val {
			k, ok := e.sliceBytes(st, ka, site.pos)
			if !ok {
				e.undecided(site.pos, "scalar %s", describe(ka))
			}
			e.mayPanic(st, site, le0(sub(lenB(k), num(32))), "the library rejects scalars of more than 32 bytes")
			if st.pc == bFalse {
				return VNil{}
			}
			old := curFacts
			curFacts = st.pc.Facts()
			defer func() { curFacts = old }()
			t := fromBytes(k)
			if k.op == "cat" {
				e.event("scalar", st, site, "composite").ts = []*T{k}
			}
			e.event("libscalar", st, site, m).ts = []*T{t, t}
			zero := eq0(t)
			valid := and(lt(t, cst(curveN)), not(zero))
			return e.fork1(st, VBoolSplit(simplify(st.pc, valid)), func(st *State, v Val) Val {
				if v.(VBool).b == bTrue {
					if a == nil {
						return unknown(st, "libmult", t)
					}
					p := ptMul(t, a)
					return VTuple{[]Val{e.newInt(st, site, "x", coordX(p)), e.newInt(st, site, "y", coordY(p))}}
				}
				return VTuple{[]Val{VNil{}, VNil{}}}
			})
		}
		if m == "ScalarBaseMult" {
			return mult(st, ptG, args[1])
		}
		return e.withInts(st, site, args[1:3], func(st *State, ts []*T) Val { return mult(st, asPoint(ts[0], ts[1]), args[3]) })
	}
	return e.opaqueNamed(e.siteName(site, m), resultType(fn.Signature))
}

// mayPanicCurve restricts to the case that the point is not neutral.
func (e *Eng) mayPanicCurve(st *State, site *Site, zero *Node) {
	st.pc = and(st.pc, not(simplify(st.pc, zero)))
}

// ---- dispatch

func (e *Eng) externGlobal(g *ssa.Global) Val {
	t := g.Type().(*types.Pointer).Elem()
	if e.extraGlobal != nil {
		if v, ok := e.extraGlobal(g); ok {
			return v
		}
	}
	switch g.String() {
	case "crypto/rand.Reader":
		return VIface{randType, VNil{}}
	}
	if namedPath(t) == "error" {
		return VErr{t: sym('o', g.String())}
	}
	return e.opaqueGlobal(g, t)
}

func (e *Eng) opaqueGlobal(g *ssa.Global, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		o := e.newObj(g.String()+"*", u.Elem())
		o.global = true
		e.globalMem[o] = VOpq{sym('o', g.String())}
		return VPtr{o: o}
	case *types.Struct:
		if u.NumFields() == 0 {
			return VStruct{nil}
		}
	case *types.Interface:
		return VIface{nil, VOpq{sym('o', g.String())}}
	}
	return VOpq{sym('o', g.String())}
}

// variadic returns the elements of a variadic argument.
func (e *Eng) variadic(st *State, v Val) []Val {
	sl, ok := v.(VSlice)
	if !ok {
		return nil
	}
	n, ok := isConst(sl.ln)
	if !ok || !n.IsInt64() || n.Int64() > 64 {
		return []Val{v}
	}
	var out []Val
	c := e.load(st, sl.arr, 0)
	if a, ok := c.(VArr); ok {
		for i := int64(0); i < n.Int64(); i++ {
			out = append(out, e.selectArr(st, a, add(sl.off, num(i)), 0, nil))
		}
	}
	return out
}

// orderModel models encoding/binary byte orders.
func (e *Eng) orderModel(st *State, kind byte, m string, args []Val, fn *ssa.Function, site *Site) Val {
	w := 0
	switch {
	case strings.HasSuffix(m, "16"):
		w = 2
	case strings.HasSuffix(m, "32"):
		w = 4
	case strings.HasSuffix(m, "64"):
		w = 8
	}
	if w == 0 {
		return e.opaqueNamed(e.siteName(site, m), resultType(fn.Signature))
	}
	ek := fmt.Sprintf("%c%d", kind, w)
	a := args[len(args)-1:]
	_ = a
	base := 0
	if fn.Signature.Recv() != nil {
		base = 1
	}
	args = args[base:]
	switch {
	case strings.HasPrefix(m, "Put"):
		n := num(0)
		sl, ok := args[0].(VSlice)
		if ok {
			n = sl.ln
		}
		e.mayPanic(st, site, le0(sub(num(int64(w)), n)), "index out of range")
		if ok && st.pc != bFalse {
			e.writeBytes(st, VSlice{sl.arr, sl.off, num(int64(w)), num(int64(w))}, encInt(ek, e.intArg(args[1])), site)
		}
		return VNil{}
	case strings.HasPrefix(m, "Append"):
		old, _ := e.sliceBytes(st, args[0], site.pos)
		return e.newBytes(st, site, "append", cat(old, encInt(ek, e.intArg(args[1]))))
	}
	n := num(0)
	if sl, ok := args[0].(VSlice); ok {
		n = sl.ln
	}
	e.mayPanic(st, site, le0(sub(num(int64(w)), n)), "index out of range")
	if st.pc == bFalse {
		return VNil{}
	}
	b, _ := e.sliceBytes(st, args[0], site.pos)
	return VInt{decInt(ek, sliceB(b, num(0), num(int64(w))))}
}

func recvName(fn *ssa.Function) (string, string) {
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return namedPath(t), fn.Name()
	}
	return "", fn.Name()
}

// fixedInt finds the width and kind of a value binary.Write can encode.
func fixedInt(t types.Type) (int, bool) {
	b, _, ok := intInfo(t)
	if bt, isB := t.Underlying().(*types.Basic); isB && (bt.Kind() == types.Int || bt.Kind() == types.Uint || bt.Kind() == types.Uintptr) {
		return 0, false
	}
	return b / 8, ok
}

func (e *Eng) model(st *State, name string, fn *ssa.Function, args []Val, site *Site) Val {
	rt, m := recvName(fn)
	switch rt {
	case "math/big.Int":
		return e.bigModel(st, m, args, fn, site)
	case "bytes.Buffer", "bytes.Reader", "strings.Builder", "strings.Reader":
		return e.bufModel(st, m, args, fn, site)
	case "encoding/binary.bigEndian":
		return e.orderModel(st, 'B', m, args, fn, site)
	case "encoding/binary.littleEndian":
		return e.orderModel(st, 'L', m, args, fn, site)
	case "github.com/ethereum/go-ethereum/crypto/secp256k1.BitCurve":
		return e.curveModel(st, m, args, fn, site)
	}
	res := resultType(fn.Signature)
	switch name {
	case "math/big.NewInt":
		return e.newInt(st, site, "big", e.intArg(args[0]))
	case "github.com/ethereum/go-ethereum/crypto/secp256k1.S256":
		return e.bitCurve(res.(*types.Pointer).Elem())
	case "io.ReadFull":
		if d, ok := args[1].(VSlice); ok {
			return e.readFrom(st, args[0], d, true, site)
		}
		return VTuple{[]Val{VInt{num(0)}, VNil{}}}
	case "io.ReadAtLeast":
		d, ok := args[1].(VSlice)
		if !ok {
			d = e.newBytes(st, site, "none", emptyB).(VSlice)
		}
		min := e.intArg(args[2])
		return e.fork1(st, VBoolSplit(le0(sub(min, d.ln))), func(st *State, b Val) Val {
			if b.(VBool).b != bTrue {
				return VTuple{[]Val{VInt{num(0)}, e.freshErr(site)}}
			}
			return e.fork1(st, VBoolSplit(eq0(sub(min, d.ln))), func(st *State, b Val) Val {
				if b.(VBool).b == bTrue {
					return e.readFrom(st, args[0], d, true, site)
				}
				// some number of bytes that is large enough
				k := symRange(e.siteName(site, "atleast"), big0, pow2(40), e.kappas...)
				e.assume(st, and(le0(sub(min, k)), le0(sub(k, d.ln))))
				from := len(e.events)
				v := e.readFrom(st, args[0], VSlice{d.arr, d.off, k, k}, true, site)
				for _, ev := range e.events[from:] {
					if ev.kind == "read" {
						ev.name = "short:" + ev.name
					}
				}
				return v
			})
		})
	case "io.ReadAll", "io/ioutil.ReadAll":
		if v, ok := e.limited(st, args[0], site); ok {
			return v
		}
		ev := e.event("make", st, site, "ReadAll")
		ev.ts = []*T{sym('i', "unbounded input")}
		p, c := e.readerContent(st, args[0], site)
		return e.fork1(st, c, func(st *State, c Val) Val {
			ok := e.okAtom(site, "read")
			switch c := c.(type) {
			case VBuf:
				win := emptyB
				if c.has && !c.stale {
					win, _ = e.sliceBytes(st, c.sl, site.pos)
					nc := c
					nc.sl = VSlice{c.sl.arr, add(c.sl.off, c.sl.ln), num(0), num(0)}
					e.store(st, p, nc, nil)
				}
				return VTuple{[]Val{e.newBytes(st, site, "all", win), VNil{}}}
			case VStream:
				if c.rem != nil {
					nc := c
					nc.rem = emptyB
					e.store(st, p, nc, nil)
					return VTuple{[]Val{e.newBytes(st, site, "all", c.rem), e.errUnion(ok, e.freshErr(site))}}
				}
			}
			return e.opaqueNamed(e.siteName(site, "ReadAll"), res)
		})
	case "io.WriteString":
		if s, ok := args[1].(VStr); ok {
			err := e.writeTo(st, args[0], s.t, site)
			return VTuple{[]Val{VInt{lenB(s.t)}, err}}
		}
	case "io.Copy":
		return e.copyModel(st, args[0], args[1], nil, site)
	case "io.CopyN":
		return e.copyModel(st, args[0], args[1], e.intArg(args[2]), site)
	case "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "strings.NewReader":
		c := VBuf{log: emptyB}
		switch b := args[0].(type) {
		case VSlice:
			c.sl, c.has = b, true
		case VStr:
			c.sl, c.has = e.newBytes(st, site, "str", b.t).(VSlice), true
		}
		t := res.(*types.Pointer).Elem()
		return e.ptrTo(st, site, "buf", t, c)
	case "bytes.Equal":
		a, _ := e.sliceBytes(st, args[0], site.pos)
		b, _ := e.sliceBytes(st, args[1], site.pos)
		return VBool{eqBytes(a, b)}
	case "bytes.Compare":
		a, _ := e.sliceBytes(st, args[0], site.pos)
		b, _ := e.sliceBytes(st, args[1], site.pos)
		q := eqBytes(a, b)
		l := bAtom(mkTerm("ltb", 'o', "", a, b))
		return mkUnion([]Alt{{q, VInt{num(0)}}, {and(not(q), l), VInt{num(-1)}}, {and(not(q), not(l)), VInt{num(1)}}})
	case "encoding/binary.Write":
		if w, t, ok := e.fixedArg(st, args[2], false, site); ok {
			kind := byte('B')
			if strings.Contains(describe(args[1]), "ittle") {
				kind = 'L'
			}
			return e.writeTo(st, args[0], encInt(fmt.Sprintf("%c%d", kind, w), t), site)
		}
		if data := e.fixedBytes(st, args[1], args[2], site); data != nil {
			return e.writeTo(st, args[0], data, site)
		}
		e.undecided(site.pos, "binary.Write of %s", describe(args[2]))
		return e.writeTo(st, args[0], mkTerm("binwrite", 'b', "", e.termOf(args[2])), site)
	case "encoding/binary.Read":
		if v, ok := args[2].(VIface); ok && v.typ != nil {
			if pt, ok := v.typ.(*types.Pointer); ok {
				if w, ok := fixedInt(pt.Elem()); ok {
					kind := byte('B')
					if strings.Contains(describe(args[1]), "ittle") {
						kind = 'L'
					}
					buf := e.newBytes(st, site, "binread", zeroB(num(int64(w)))).(VSlice)
					r := e.readFrom(st, args[0], buf, true, site)
					if st.pc == bFalse {
						return VNil{}
					}
					return e.fork1(st, r.(VTuple).f[1], func(st *State, err Val) Val {
						if _, ok := err.(VNil); ok {
							b, _ := e.sliceBytes(st, buf, site.pos)
							x := decInt(fmt.Sprintf("%c%d", kind, w), b)
							bits, signed, _ := intInfo(pt.Elem())
							if p, ok := v.v.(VPtr); ok {
								e.store(st, p, VInt{wrapInt(x, bits, signed)}, site)
							}
						}
						return err
					})
				}
			}
		}
		e.undecided(site.pos, "binary.Read into %s", describe(args[2]))
		return e.errUnion(e.okAtom(site, "read"), e.freshErr(site))
	case "fmt.Errorf", "errors.New":
		var vs []Val
		if len(args) > 1 {
			vs = e.variadic(st, args[1])
		} else if name == "errors.New" {
			vs = args
		}
		err := VErr{sym('o', e.siteName(site, "err"), e.kappas...), vs}
		ev := e.event("errorf", st, site, name)
		ev.vals = vs
		return err
	case "errors.Is":
		return VBool{e.equalOr(st, args[0], args[1], site)}
	case "errors.Unwrap":
		return VErr{t: mkTerm("unwrap", 'o', "", e.termOf(args[0]))}
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return VStr{e.formatted(st, name, args, site)}
	case "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint",
		"log.Printf", "log.Println", "log.Print":
		ev := e.event("sink", st, site, name)
		for _, a := range args {
			ev.vals = append(ev.vals, e.variadic(st, a)...)
			if s, ok := a.(VStr); ok {
				ev.vals = append(ev.vals, s)
			}
		}
		if strings.HasPrefix(name, "fmt.F") {
			ev.name = name
			ev.vals = append([]Val{args[0]}, ev.vals...)
		}
		if strings.HasPrefix(name, "fmt.F") {
			if _, c := e.readerContent(st, connHalf(args[0], 1), site); hasContent(e, st, c) {
				text := e.formatted(st, name, args[1:], site)
				err := e.writeTo(st, args[0], text, site)
				return VTuple{[]Val{VInt{lenB(text)}, err}}
			}
		}
		if res == nil {
			return VNil{}
		}
		return e.opaqueNamed(e.siteName(site, "print"), res)
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panic", "log.Panicf":
		ev := e.event("exit", st, site, name)
		ev.vals = args
		if strings.Contains(name, "Panic") {
			e.event("panic", st, site, "explicit panic")
		}
		st.pc = bFalse
		return VNil{}
	case "crypto/rand.Int":
		return e.withInts(st, site, args[1:2], func(st *State, ts []*T) Val {
			e.mayPanic(st, site, lt(num(0), ts[0]), "rand.Int: argument must be positive")
			if st.pc == bFalse {
				return VNil{}
			}
			e.noteMod(st, site, ts[0], true)
			ok := bTrue
			if !e.sureDraws {
				ok = e.okAtom(site, "entropy")
			}
			nm := e.siteName(site, "random")
			var hi *big.Int
			if c, isC := isConst(ts[0]); isC {
				hi = new(big.Int).Sub(c, big1)
			}
			r := symRange(nm, big0, hi, e.kappas...)
			ev := e.event("draw", st, site, "int")
			ev.ok, ev.ts, ev.vals = ok, []*T{r, ts[0]}, []Val{args[0]}
			return e.fork1(st, VBoolSplit(ok), func(st *State, b Val) Val {
				if b.(VBool).b == bTrue {
					return VTuple{[]Val{e.newInt(st, site, "random", r), VNil{}}}
				}
				return VTuple{[]Val{VNil{}, e.freshErr(site)}}
			})
		})
	case "crypto/rand.Read":
		if d, ok := args[0].(VSlice); ok {
			return e.randFill(st, d, VIface{randType, VNil{}}, site)
		}
	case "golang.org/x/crypto/hkdf.New":
		var ts []*T
		for _, a := range args[1:] {
			b, _ := e.sliceBytes(st, a, site.pos)
			ts = append(ts, b)
		}
		hn := describe(args[0])
		p := e.ptrTo(st, site, "hkdf", streamType, VStream{name: "hkdf", rem: mkTerm("kdfstream", 'b', "", append([]*T{num(0), sym('o', hn)}, ts...)...), log: emptyB, sure: true})
		return VIface{streamType, p}
	case "golang.org/x/crypto/hkdf.Extract":
		ts := []*T{sym('o', describe(args[0]))}
		for _, a := range args[1:] {
			b, _ := e.sliceBytes(st, a, site.pos)
			ts = append(ts, b)
		}
		return e.newBytes(st, site, "prk", mkTerm("hkdfprk", 'b', "", ts...))
	case "golang.org/x/crypto/hkdf.Expand":
		prk, _ := e.sliceBytes(st, args[1], site.pos)
		info, _ := e.sliceBytes(st, args[2], site.pos)
		hn := sym('o', describe(args[0]))
		ts := []*T{num(0), hn, mkTerm("prk", 'b', "", prk), emptyB, info}
		if prk.op == "hkdfprk" && prk.args[0] == hn {
			ts = []*T{num(0), hn, prk.args[1], prk.args[2], info}
		}
		p := e.ptrTo(st, site, "hkdf", streamType, VStream{name: "hkdf", rem: mkTerm("kdfstream", 'b', "", ts...), log: emptyB, sure: true})
		return VIface{streamType, p}
	case "crypto/subtle.ConstantTimeCompare":
		a, _ := e.sliceBytes(st, args[0], site.pos)
		b, _ := e.sliceBytes(st, args[1], site.pos)
		q := eqBytes(a, b)
		return mkUnion([]Alt{{q, VInt{num(1)}}, {not(q), VInt{num(0)}}})
	case "bytes.Join":
		parts := e.variadic(st, args[0])
		sep, _ := e.sliceBytes(st, args[1], site.pos)
		if sl, ok := args[0].(VSlice); ok {
			if n, isC := isConst(sl.ln); isC && n.IsInt64() && int(n.Int64()) == len(parts) {
				return e.fork(st, parts, func(st *State, vs []Val) Val {
					var ts []*T
					for i, v := range vs {
						if i > 0 {
							ts = append(ts, sep)
						}
						b, _ := e.sliceBytes(st, v, site.pos)
						ts = append(ts, b)
					}
					return e.newBytes(st, site, "join", cat(ts...))
				})
			}
		}
	case "bytes.Clone", "slices.Clone":
		if _, isSl := args[0].(VSlice); isSl {
			if b, ok := e.sliceBytes(st, args[0], site.pos); ok {
				return e.newBytes(st, site, "clone", b)
			}
		}
	case "crypto/sha256.Sum256", "crypto/sha512.Sum512":
		b, _ := e.sliceBytes(st, args[0], site.pos)
		return VBytes{mkTerm("hash", 'b', map[string]string{"crypto/sha256.Sum256": "sha256:32", "crypto/sha512.Sum512": "sha512:64"}[name], b)}
	case "crypto/sha256.New", "crypto/sha512.New":
		nm := "sha256:32"
		if strings.Contains(name, "512") {
			nm = "sha512:64"
		}
		p := e.ptrTo(st, site, "hash", streamType, VStream{name: nm, log: emptyB, sure: true})
		return VIface{streamType, p}
	}
	if rt == "sync.WaitGroup" || rt == "sync.Mutex" || rt == "sync.RWMutex" {
		e.thr.synch(e, st, rt, m, args, site)
		ev := e.event("sync", st, site, rt+"."+m)
		ev.vals = args
		return VNil{}
	}
	if rt == "sync.Once" && m == "Do" {
		e.undecided(site.pos, "sync.Once")
	}
	if e.extraModel != nil {
		if v, ok := e.extraModel(e, st, name, fn, args, site); ok {
			return v
		}
	}
	switch name {
	case "bufio.NewWriter", "bufio.NewWriterSize":
		if pt, ok := res.(*types.Pointer); ok {
			return e.ptrTo(st, site, "bufio", pt.Elem(), VTuple{[]Val{args[0], VStr{emptyB}}})
		}
	case "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).WriteByte":
		if p, ok := e.bufioOf(args[0]); ok {
			var data *T
			if m == "WriteByte" {
				data = encInt("B1", e.intArg(args[1]))
			} else {
				data, _ = e.sliceBytes(st, args[1], site.pos)
			}
			err := e.bufioWrite(st, p, data, site) // writing ahead of Flush may fail; Flush then fails as well
			if m == "WriteByte" {
				return err
			}
			return VTuple{[]Val{VInt{lenB(data)}, err}}
		}
	case "(*bufio.Writer).Flush":
		if p, ok := e.bufioOf(args[0]); ok {
			return e.fork1(st, e.load(st, p, site.pos), func(st *State, v Val) Val {
				b := v.(VTuple)
				e.store(st, p, VTuple{[]Val{b.f[0], VStr{emptyB}}}, nil)
				return e.writeTo(st, b.f[0], b.f[1].(VStr).t, site)
			})
		}
	case "io.LimitReader":
		return VIface{limitType, VTuple{args}}
	}
	ev := e.event("extern", st, site, name)
	ev.vals = args
	if pureFn(name) {
		var ts []*T
		for _, a := range args {
			if t, ok := e.sliceBytes(st, a, site.pos); ok {
				ts = append(ts, t)
			} else {
				ts = append(ts, e.termOf(a))
			}
		}
		return e.opaqueFn(name, ts, res)
	}
	return e.opaqueNamed(e.siteName(site, "call:"+name), res)
}

func (e *Eng) equalOr(st *State, a, b Val, site *Site) *Node {
	if q := e.equal(st, a, b, nil); q != nil {
		return q
	}
	return bsym(e.siteName(site, "eq"), e.kappas...)
}

func pureFn(name string) bool {
	for _, p := range []string{"strconv.", "strings.", "math.", "unicode", "path", "encoding/hex.", "encoding/base64."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// opaqueFn is the result of a deterministic function of the terms.
func (e *Eng) opaqueFn(name string, ts []*T, t types.Type) Val {
	if t == nil {
		return VNil{}
	}
	if tup, ok := t.(*types.Tuple); ok {
		fs := make([]Val, tup.Len())
		for i := range fs {
			fs[i] = e.opaqueFn(fmt.Sprintf("%s.%d", name, i), ts, tup.At(i).Type())
		}
		return VTuple{fs}
	}
	if namedPath(t) == "error" {
		ok := bsym("ok:"+name, ts...)
		return e.errUnion(ok, VErr{t: sym('o', "err:"+name, ts...)})
	}
	switch t.Underlying().(type) {
	case *types.Basic:
		return e.symContent(name, t, ts)
	}
	return VOpq{mkTerm("fn", 'o', name, ts...)}
}

// fixedArg is the integer value behind an interface argument of binary.Write.
func (e *Eng) fixedArg(st *State, v Val, _ bool, site *Site) (int, *T, bool) {
	i, ok := v.(VIface)
	if !ok || i.typ == nil {
		return 0, nil, false
	}
	t := i.typ
	x := i.v
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
		if p, ok := x.(VPtr); ok {
			x = e.load(st, p, site.pos)
		}
	}
	w, ok := fixedInt(t)
	if !ok {
		return 0, nil, false
	}
	if xi, ok := x.(VInt); ok {
		return w, xi.t, true
	}
	return 0, nil, false
}

// formatted is the text that fmt makes of the arguments.
func (e *Eng) formatted(st *State, name string, args []Val, site *Site) *T {
	var ts []*T
	least := 0
	for i, a := range args {
		for _, v := range e.variadic(st, a) {
			ts = append(ts, e.termOf(v))
		}
		s, ok := a.(VStr)
		if !ok {
			continue
		}
		ts = append(ts, s.t)
		if i == 0 && strings.HasSuffix(name, "f") && s.t.op == "lit" {
			// what is not part of a verb appears as it is
			f := s.t.name
			for k := 0; k < len(f); k++ {
				if f[k] != '%' {
					least++
					continue
				}
				for k++; k < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[k]) >= 0; k++ {
				}
			}
		}
	}
	if strings.HasSuffix(name, "ln") {
		least = 1
	}
	if n := len(ts); strings.HasSuffix(name, "f") && n == 1 && ts[0].op == "lit" && !strings.Contains(ts[0].name, "%") {
		return ts[0]
	}
	t := mkTerm("sprintf", 'b', name, ts...)
	if l := lenB(t); l.op == "len" {
		symLo[l] = big.NewInt(int64(least))
		symHi[l] = pow2(40)
	}
	return t
}

func hasContent(e *Eng, st *State, c Val) bool {
	ok := true
	for _, a := range e.alts(c, st.pc) {
		switch a.v.(type) {
		case VBuf, VStream:
		default:
			ok = false
		}
	}
	return ok
}

// bufioOf finds the buffer of a *bufio.Writer.
func (e *Eng) bufioOf(v Val) (VPtr, bool) {
	if i, ok := v.(VIface); ok {
		v = i.v
	}
	p, ok := v.(VPtr)
	if !ok || p.o == nil || len(p.path) > 0 || namedPath(p.o.typ) != "bufio.Writer" {
		return VPtr{}, false
	}
	return p, true
}

func (e *Eng) bufioWrite(st *State, p VPtr, data *T, site *Site) Val {
	return e.fork1(st, e.load(st, p, site.pos), func(st *State, v Val) Val {
		b, ok := v.(VTuple)
		if !ok || len(b.f) != 2 {
			e.undecided(site.pos, "buffered writer %s", describe(v))
			return VNil{}
		}
		s, _ := b.f[1].(VStr)
		e.store(st, p, VTuple{[]Val{b.f[0], VStr{cat(s.t, data)}}}, nil)
		return VNil{}
	})
}

// limitType stands for readers made by io.LimitReader; the value is the pair of its arguments.
var limitType types.Type = types.NewNamed(types.NewTypeName(0, nil, "LimitedReader", nil), types.NewStruct(nil, nil), nil)

// limited reads everything from a limited reader.
func (e *Eng) limited(st *State, rd Val, site *Site) (Val, bool) {
	i, ok := rd.(VIface)
	if !ok || i.typ != limitType {
		return nil, false
	}
	t := i.v.(VTuple)
	n := e.intArg(t.f[1])
	buf := e.newBytes(st, site, "limited", zeroB(n)).(VSlice)
	ev := e.event("make", st, site, "ReadAll")
	ev.ts = []*T{n}
	r := e.readFrom(st, t.f[0], buf, true, site)
	if st.pc == bFalse {
		return VNil{}, true
	}
	eof := e.okAtom(site, "eof") // the end of the stream is not an error
	return e.fork1(st, r, func(st *State, r Val) Val {
		t := r.(VTuple)
		data := VSlice{buf.arr, buf.off, e.intArg(t.f[0]), buf.cp}
		return e.fork1(st, t.f[1], func(st *State, err Val) Val {
			if _, ok := err.(VNil); ok {
				return VTuple{[]Val{data, VNil{}}}
			}
			st.pc = and(st.pc, lt(data.ln, n))
			if st.pc == bFalse {
				return VNil{}
			}
			return VTuple{[]Val{data, mkUnion([]Alt{{eof, VNil{}}, {not(eof), err}})}}
		})
	}), true
}

// fixedBytes encodes an array, slice or structure of numbers of fixed size, or bytes.
func (e *Eng) fixedBytes(st *State, order, v Val, site *Site) *T {
	kind := byte('B')
	if strings.Contains(describe(order), "ittle") {
		kind = 'L'
	}
	i, ok := v.(VIface)
	if !ok || i.typ == nil {
		return nil
	}
	typ, x := i.typ, i.v
	if pt, ok := typ.(*types.Pointer); ok {
		if p, ok := x.(VPtr); ok {
			typ, x = pt.Elem(), e.load(st, p, site.pos)
		}
	}
	var enc func(t types.Type, x Val) *T
	elems := func(t types.Type, arr Val, off, n *T) *T {
		k, ok := isConst(n)
		if !ok || !k.IsInt64() || k.Int64() > 64 {
			return nil
		}
		out := emptyB
		for j := int64(0); j < k.Int64(); j++ {
			b := enc(t, e.selectArr(st, arr, add(off, num(j)), site.pos, nil))
			if b == nil {
				return nil
			}
			out = cat(out, b)
		}
		return out
	}
	enc = func(t types.Type, x Val) *T {
		if w, ok := fixedInt(t); ok {
			if n, ok := x.(VInt); ok {
				return encInt(fmt.Sprintf("%c%d", kind, w), n.t)
			}
			return nil
		}
		switch u := t.Underlying().(type) {
		case *types.Array:
			if b, ok := x.(VBytes); ok {
				return b.t
			}
			return elems(u.Elem(), x, num(0), num(u.Len()))
		case *types.Slice:
			if isByteSlice(t) {
				if b, ok := e.sliceBytes(st, x, site.pos); ok {
					return b
				}
				return nil
			}
			if s, ok := x.(VSlice); ok {
				return elems(u.Elem(), e.load(st, s.arr, site.pos), s.off, s.ln)
			}
		case *types.Struct:
			s, ok := x.(VStruct)
			if !ok || len(s.f) != u.NumFields() {
				return nil
			}
			out := emptyB
			for j := range s.f {
				b := enc(u.Field(j).Type(), s.f[j])
				if b == nil {
					return nil
				}
				out = cat(out, b)
			}
			return out
		}
		return nil
	}
	return enc(typ, x)
}
