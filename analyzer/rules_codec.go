package main

// C05 (round trips), C06 (malformed input), C12's frame grammar helpers: rules about encoders and decoders.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// codec is a type of the project with an encoder and a decoder.
type codec struct {
	name     string
	t        *types.Named
	enc, dec *ssa.Function
	ctors    []*ssa.Function
}

// codecs finds every named type with methods encode(io.Writer) error and decode(io.Reader) error.
func (p *Program) codecs() []*codec {
	var out []*codec
	for _, path := range p.order {
		tp := p.pkgs[path]
		if tp == nil {
			continue
		}
		for _, n := range tp.Scope().Names() {
			tn, ok := tp.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			c := &codec{name: path[strings.LastIndex(path, "/")+1:] + "." + n, t: nt}
			ms := p.prog.MethodSets.MethodSet(types.NewPointer(nt))
			for i := 0; i < ms.Len(); i++ {
				f, ok := ms.At(i).Obj().(*types.Func)
				if !ok || len(ms.At(i).Index()) > 1 {
					continue
				}
				sig := f.Type().(*types.Signature)
				if sig.Params().Len() != 1 || sig.Results().Len() != 1 || namedPath(sig.Results().At(0).Type()) != "error" {
					continue
				}
				switch namedPath(sig.Params().At(0).Type()) {
				case "io.Writer":
					if strings.HasPrefix(strings.ToLower(f.Name()), "encode") {
						c.enc = p.prog.MethodValue(ms.At(i))
					}
				case "io.Reader":
					if strings.HasPrefix(strings.ToLower(f.Name()), "decode") {
						c.dec = p.prog.MethodValue(ms.At(i))
					}
				}
			}
			if c.enc == nil || c.dec == nil {
				continue
			}
			for _, n2 := range tp.Scope().Names() {
				f, ok := tp.Scope().Lookup(n2).(*types.Func)
				if !ok || !f.Exported() {
					continue
				}
				sig := f.Type().(*types.Signature)
				for i := 0; i < sig.Results().Len(); i++ {
					rt := sig.Results().At(i).Type()
					if pt, ok := rt.(*types.Pointer); ok {
						rt = pt.Elem()
					}
					if types.Identical(rt, nt) {
						if fn := p.prog.FuncValue(f); fn != nil {
							c.ctors = append(c.ctors, fn)
						}
					}
				}
			}
			out = append(out, c)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func (e *Eng) setup() {
	e.runInits()
	e.events, e.undec = nil, nil
}

// subject makes a value of the codec's type: what its constructor returns for arbitrary arguments, or an
// arbitrary value when there is no constructor.
func (e *Eng) subject(c *codec, st *State) (VPtr, bool) {
	for _, f := range c.ctors {
		args := e.symArgs(f)
		v := e.callTop(st, "ctor", f, args...)
		if v == nil {
			return VPtr{}, false
		}
		if t, ok := v.(VTuple); ok {
			v = t.f[0]
			for i, x := range t.f {
				if f.Signature.Results().Len() > i && namedPath(f.Signature.Results().At(i).Type()) == "error" {
					st.pc = and(st.pc, e.isNilV(st, x))
				}
			}
		}
		as := e.alts(v, st.pc)
		for _, a := range as {
			if p, ok := a.v.(VPtr); ok {
				st.pc = and(st.pc, a.g)
				return p, true
			}
		}
		if s, ok := v.(VStruct); ok {
			o := e.newObj("subject", c.t)
			st.mem[o] = s
			return VPtr{o: o}, true
		}
		return VPtr{}, false
	}
	v := e.symContent("value", types.NewPointer(c.t), nil)
	p, ok := v.(VPtr)
	return p, ok
}

// touch visits everything reachable from a value, so that symbolic content exists.
func (e *Eng) touch(st *State, v Val, depth int) {
	if depth > 6 {
		return
	}
	switch v := v.(type) {
	case VPtr:
		e.touch(st, e.load(st, v, 0), depth+1)
	case VSlice:
		e.load(st, v.arr, 0)
	case VStruct:
		for _, f := range v.f {
			e.touch(st, f, depth+1)
		}
	case VIface:
		e.touch(st, v.v, depth+1)
	case *VUnion:
		for _, a := range v.alts {
			e.touch(&State{and(st.pc, a.g), st.mem}, a.v, depth+1)
		}
	}
}

// isNilV is the condition that a value is nil.
func (e *Eng) isNilV(st *State, v Val) *Node {
	r := bFalse
	for _, a := range e.alts(v, st.pc) {
		n := e.isNil(a.v)
		if n == nil {
			n = bFalse
		}
		r = or(r, and(a.g, n))
	}
	return r
}

// symArgs makes arbitrary arguments for a function.
func (e *Eng) symArgs(f *ssa.Function) []Val {
	var args []Val
	for i, prm := range f.Params {
		args = append(args, e.symContent(fmt.Sprintf("%s.arg%d", f.Name(), i), prm.Type(), nil))
	}
	return args
}

// deepEq is the condition that two values are equal in every component, following pointers.
func (e *Eng) deepEq(st *State, a, b Val, depth int) *Node {
	if depth > 12 {
		return bFalse
	}
	if ua, ok := a.(*VUnion); ok {
		r := bFalse
		for _, x := range ua.alts {
			g := and(st.pc, x.g)
			if g == bFalse || !feasible(g) {
				continue
			}
			r = or(r, and(x.g, e.deepEq(&State{g, st.mem}, x.v, b, depth)))
		}
		return r
	}
	if ub, ok := b.(*VUnion); ok {
		r := bFalse
		for _, x := range ub.alts {
			g := and(st.pc, x.g)
			if g == bFalse || !feasible(g) {
				continue
			}
			r = or(r, and(x.g, e.deepEq(&State{g, st.mem}, a, x.v, depth)))
		}
		return r
	}
	if valEq(a, b) {
		return bTrue
	}
	old := curFacts
	curFacts = st.pc.Facts()
	defer func() { curFacts = old }()
	empty := func(v Val) *Node {
		if n, ok := e.lenOf(st, v); ok {
			return eq0(n)
		}
		return bFalse
	}
	switch a := a.(type) {
	case VInt:
		if b, ok := b.(VInt); ok {
			return eq0(sub(a.t, b.t))
		}
	case VBool:
		if b, ok := b.(VBool); ok {
			return ite(a.b, b.b, not(b.b))
		}
	case VPoint:
		if b, ok := b.(VPoint); ok {
			return eq0(sub(a.t, b.t))
		}
	case VStruct:
		if b, ok := b.(VStruct); ok && len(a.f) == len(b.f) {
			r := bTrue
			for i := range a.f {
				r = and(r, e.deepEq(st, a.f[i], b.f[i], depth+1))
			}
			return r
		}
	case VArr:
		if b, ok := b.(VArr); ok && shortArr(a) && shortArr(b) && a.n == b.n {
			n, _ := isConst(a.n)
			r := bTrue
			for i := 0; i < int(n.Int64()); i++ {
				r = and(r, e.deepEq(st, e.leafAt(st, a, []int{i}), e.leafAt(st, b, []int{i}), depth+1))
			}
			return r
		}
	case VPtr:
		if b, ok := b.(VPtr); ok {
			return e.deepEq(st, e.load(st, a, 0), e.load(st, b, 0), depth+1)
		}
	case VIface:
		if b, ok := b.(VIface); ok && a.typ != nil && b.typ != nil && types.Identical(a.typ, b.typ) {
			return e.deepEq(st, a.v, b.v, depth+1)
		}
	case VStr:
		if b, ok := b.(VStr); ok {
			return eqBytes(a.t, b.t)
		}
	case VBytes:
		if b, ok := b.(VBytes); ok {
			return eqBytes(a.t, b.t)
		}
	case VNil:
		if _, ok := b.(VSlice); ok {
			return empty(b)
		}
	case VSlice:
		switch b := b.(type) {
		case VNil:
			return empty(a)
		case VSlice:
			x, ok1 := e.sliceBytes(st, a, 0)
			y, ok2 := e.sliceBytes(st, b, 0)
			if ok1 && ok2 {
				return eqBytes(x, y)
			}
		}
	}
	return bFalse
}

const maxAlloc = 1 << 28

// malformed checks a decoder on arbitrary input: no crash, bounded allocation, incomplete input reported.
func (r *Rep) malformed(e *Eng, st *State, cons, pos string, errv Val) {
	success := and(st.pc, e.isNilV(st, errv))
	for _, ev := range e.panics() {
		r.fail("no-crash", cons, e.where(ev), "decoding can crash: %s, under %s", ev.name, ev.g)
	}
	r.ob(true, "no-crash", cons, pos, "")
	nread := 0
	for _, ev := range e.events {
		switch ev.kind {
		case "make":
			old := curFacts
			curFacts = ev.g.Facts()
			_, hi := bounds(ev.ts[0])
			curFacts = old
			if !feasible(ev.g) {
				continue
			}
			r.ob(hi != nil && hi.Cmp(big.NewInt(maxAlloc)) <= 0, "bounded-allocation", cons, e.where(ev), "an allocation of %s elements is bounded only by %v: the sender chooses its size", ev.ts[0], hi)
		case "read":
			nread++
			g := and(success, ev.g)
			if g == bFalse || !feasible(g) {
				r.ob(true, "complete-read", cons, e.where(ev), "")
				continue
			}
			r.ob(implies(g, ev.ok) || !feasible(and(g, not(ev.ok))), "complete-read", cons, e.where(ev), "success is reported although this read may have failed or ended early")
			if strings.HasPrefix(ev.name, "short:") && len(ev.ts) > 1 {
				old := curFacts
				curFacts = g.Facts()
				full := eq0(sub(ev.ts[0], ev.ts[1]))
				curFacts = old
				r.ob(implies(g, full), "complete-read", cons, e.where(ev), "success is reported although this read may have been short")
			}
		}
	}
	r.counts["reads"] += nread
	r.engine(e, cons)
}

func (e *Eng) zeroObj(t types.Type, st *State, name string) VPtr {
	o := e.newObj(name, t)
	st.mem[o] = e.zero(t)
	return VPtr{o: o}
}

func checkC06(p *Program, r *Rep) {
	if c := p.newCurve(r); c != nil {
		for _, sure := range []bool{false, true} {
			c.fresh(bTrue)
			cons := "Group.Decode"
			if sure {
				cons += " (reader ends, but does not fail)"
			}
			r.guard(cons, func() {
				v := c.op(r, "Decode", c.e.stream("r", sure, nil))
				tup, ok := v.(VTuple)
				if !ok {
					r.fail("no-crash", cons, c.methodPos("Decode"), "decoding cannot return")
					return
				}
				r.malformed(c.e, c.st, cons, c.methodPos("Decode"), tup.f[1])
				r.ob(feasible(and(c.st.pc, c.e.isNilV(c.st, tup.f[1]))), "coverage", cons, c.methodPos("Decode"), "decoding never succeeds")
			})
		}
	}
	cs := p.codecs()
	for _, cd := range cs {
		for _, sure := range []bool{false, true} {
			e := newEng(p)
			e.setup()
			st := e.newState()
			cons := cd.name + ".Decode"
			if sure {
				cons += " (reader ends, but does not fail)"
			}
			pos := p.pos(cd.dec.Pos())
			r.guard(cons, func() {
				z := e.zeroObj(cd.t, st, "result")
				v := e.callTop(st, "dec", cd.dec, z, e.stream("r", sure, nil))
				if v == nil {
					r.fail("no-crash", cons, pos, "decoding cannot return")
					return
				}
				r.malformed(e, st, cons, pos, v)
				// every path that reports success sets the components which some such path sets
				success := and(st.pc, e.isNilV(st, v))
				var walk func(path string, t types.Type, v Val, here *Node, depth int)
				walk = func(path string, t types.Type, v Val, here *Node, depth int) {
					switch u := t.Underlying().(type) {
					case *types.Struct:
						if n, ok := t.(*types.Named); ok && (n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath)) {
							return
						}
						for _, a := range e.alts(v, st.pc) {
							s, ok := a.v.(VStruct)
							if !ok {
								continue
							}
							for i := 0; i < u.NumFields() && i < len(s.f); i++ {
								walk(path+"."+u.Field(i).Name(), u.Field(i).Type(), s.f[i], and(here, a.g), depth)
							}
						}
					case *types.Pointer, *types.Interface, *types.Slice:
						set := and(here, not(e.isNilV(st, v)))
						if !feasible(and(success, set)) {
							return
						}
						r.ob(implies(and(success, here), set) || !feasible(and(and(success, here), not(set))), "complete-value", cons, pos, "success is reported although %s has not been decoded", strings.TrimPrefix(path, "."))
						if pt, ok := u.(*types.Pointer); ok && depth < 3 {
							if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
								for _, a := range e.alts(v, st.pc) {
									if p, ok := a.v.(VPtr); ok {
										walk(path, pt.Elem(), e.load(st, p, 0), and(and(here, a.g), set), depth+1)
									}
								}
							}
						}
					}
				}
				walk("", cd.t, e.load(st, z, 0), bTrue, 0)
			})
		}
	}
	r.counts["decoders"] = len(cs) + 1
	r.ob(len(cs) >= 3, "coverage", "decoders", "", "only %d types with an encoder and a decoder were found", len(cs))
}

// roundTrip checks the state after encoding onto w.
func (r *Rep) roundTrip(e *Eng, st *State, cons, pos string, w Val, encErr Val, decode func(rd Val) (Val, Val), equal func(got Val) *Node) {
	okc := e.isNilV(st, encErr)
	if !r.ob(implies(st.pc, okc), "encodes", cons, pos, "encoding to a writer that does not fail may report an error") {
		st.pc = and(st.pc, okc)
	}
	s, ok := e.load(st, streamOf(w), 0).(VStream)
	if !ok {
		r.fail("encodes", cons, pos, "what is written differs between executions: %s", describe(e.load(st, streamOf(w), 0)))
		return
	}
	for _, ev := range e.panics() {
		r.fail("no-crash", cons, e.where(ev), "encoding can crash: %s, under %s", ev.name, ev.g)
	}
	e.events = nil
	tail := sym('b', "what follows")
	rd := e.stream("r", true, cat(s.log, tail))
	got, err := decode(rd)
	if got == nil || err == nil {
		r.fail("decodes", cons, pos, "decoding cannot return")
		return
	}
	for _, ev := range e.panics() {
		r.fail("no-crash", cons, e.where(ev), "decoding can crash: %s, under %s", ev.name, ev.g)
	}
	okd := e.isNilV(st, err)
	old := curFacts
	curFacts = st.pc.Facts()
	okd = simplify(st.pc, okd)
	curFacts = old
	if !r.ob(implies(st.pc, okd) || !feasible(and(st.pc, not(okd))), "decodes", cons, pos, "decoding %s may fail, unless %s", s.log, okd) {
		return
	}
	st.pc = and(st.pc, okd)
	old = curFacts
	curFacts = st.pc.Facts()
	eq := simplify(st.pc, equal(got))
	curFacts = old
	r.ob(implies(st.pc, eq), "equal", cons, pos, "decoding yields a different value: %s, from %s, equal only if %s", describe(got), s.log, eq)
	rest := e.load(st, streamOf(rd), 0)
	for _, a := range e.alts(rest, st.pc) {
		g := and(st.pc, a.g)
		rs, ok := a.v.(VStream)
		if !ok || rs.rem == nil {
			r.fail("consumes", cons, pos, "the reader is left as %s", describe(a.v))
			continue
		}
		old := curFacts
		curFacts = g.Facts()
		okr := rs.rem == tail || reslice(rs.rem) == tail
		curFacts = old
		r.ob(okr, "consumes", cons, pos, "decoding leaves %s unread instead of what follows the value", rs.rem)
	}
	r.engine(e, cons)
}

func reslice(t *T) *T { return substT(t, map[*T]*T{}) }

func checkC05(p *Program, r *Rep) {
	if c := p.newCurve(r); c != nil {
		A := sym('p', "A")
		for _, what := range []string{"neutral", "an arbitrary element", "the generator"} {
			pc, pt := bTrue, num(0)
			var v Val = c.neu
			cons := "Group.Encode/Decode of " + what
			pos := c.methodPos("Encode")
			r.guard(cons, func() {
				switch what {
				case "an arbitrary element":
					pc, pt = not(eq0(A)), A
					c.fresh(pc)
					v, _ = c.point("a", A)
				case "the generator":
					c.fresh(pc)
					pt, v = ptG, c.gen
				default:
					c.fresh(pc)
				}
				w := c.e.stream("w", true, nil)
				err := c.op(r, "Encode", v, w)
				if err == nil {
					r.fail("encodes", cons, pos, "encoding cannot return")
					return
				}
				r.roundTrip(c.e, c.st, cons, pos, w, err, func(rd Val) (Val, Val) {
					t, ok := c.op(r, "Decode", rd).(VTuple)
					if !ok {
						return nil, nil
					}
					return t.f[0], t.f[1]
				}, func(got Val) *Node {
					res := bFalse
					for _, a := range c.abs(got) {
						if a.t != nil {
							res = or(res, and(a.g, eq0(sub(a.t, pt))))
						}
					}
					return res
				})
			})
		}
	}
	cs := p.codecs()
	for _, cd := range cs {
		for _, zeroed := range []bool{true, false} {
			e := newEng(p)
			e.setup()
			e.symIntHook = func(name string) (*big.Int, *big.Int, bool) { return big0, new(big.Int).Sub(curveN, big1), true }
			st := e.newState()
			cons := cd.name
			if !zeroed {
				cons += " into a used value"
			}
			pos := p.pos(cd.enc.Pos())
			r.guard(cons, func() {
				v, ok := e.subject(cd, st)
				if !ok {
					r.fail("encodes", cons, pos, "no value of the type can be constructed")
					return
				}
				e.touch(st, v, 0)
				for _, o := range e.inputs {
					if nm, ok := e.bytesOf[o]; ok {
						st.pc = and(st.pc, le0(sub(lenB(sym('b', nm)), num(1<<20))))
					}
				}
				e.events = nil
				w := e.stream("w", true, nil)
				recv := Val(v)
				wlen := func() *T {
					if s, ok := e.load(st, streamOf(w), 0).(VStream); ok {
						return s.log
					}
					return nil
				}
				err := e.callTop(st, "enc", cd.enc, recv, w)
				if err == nil {
					r.fail("encodes", cons, pos, "encoding cannot return")
					return
				}
				if !zeroed && wlen() == emptyB {
					return // nothing is written, so nothing can be read into the value
				}
				var z VPtr
				if zeroed {
					z = e.zeroObj(cd.t, st, "result")
				} else {
					z = e.symContent("used", types.NewPointer(cd.t), nil).(VPtr)
				}
				r.roundTrip(e, st, cons, pos, w, err, func(rd Val) (Val, Val) {
					er := e.callTop(st, "dec", cd.dec, z, rd)
					if er == nil {
						return nil, nil
					}
					return z, er
				}, func(got Val) *Node { return e.deepEq(st, v, got, 0) })
			})
			if len(cd.ctors) == 0 || cd.t.Underlying().(*types.Struct).NumFields() == 0 {
				break
			}
		}
	}
	r.counts["codecs"] = len(cs) + 1
	r.ob(len(cs) >= 3, "coverage", "codecs", "", "only %d types with an encoder and a decoder were found", len(cs))
}
