package main

// C01, C02, C03, and the curve part of C04, C05 and C06.

import (
	"fmt"
	"go/types"
	"math/big"
)

// curveCtx is the group implementation, interpreted from its constructor.
type curveCtx struct {
	e        *Eng
	st       *State
	g        Val // the Group interface value
	gen, neu Val
	err      string
}

func curvePkg() string { return modPath + "/pkg/curve" }

func (p *Program) newCurve(r *Rep) *curveCtx {
	e := newEng(p)
	e.concreteGroup = true
	e.runInits()
	c := &curveCtx{e: e, st: e.newState()}
	fn := p.fn("pkg/curve", "NewSecp256k1Group")
	if fn == nil {
		r.fail("anchor", "curve.NewSecp256k1Group", "", "the constructor of the group was not found")
		return nil
	}
	c.g = e.callTop(c.st, "ctor", fn)
	if c.g == nil {
		r.fail("anchor", "curve.NewSecp256k1Group", p.pos(fn.Pos()), "the constructor of the group cannot return")
		return nil
	}
	// what the constructor allocated is shared by all calls
	for o := range c.st.mem {
		o.global = true
	}
	c.gen = c.op(r, "Gen")
	c.neu = c.op(r, "Neutral")
	if c.gen == nil || c.neu == nil {
		return nil
	}
	for o := range c.st.mem {
		o.global = true
	}
	base := c.st.mem
	for o, v := range base {
		e.globalMem[o] = v
	}
	c.st.mem = map[*Obj]Val{}
	e.events = nil
	return c
}

// op calls a method of the group on the current state.
func (c *curveCtx) op(r *Rep, name string, args ...Val) Val {
	v, err := c.e.callMethod(c.st, name, c.g, name, args...)
	if err != nil {
		r.fail("anchor", "curve.Group."+name, "", "%v", err)
		return nil
	}
	return v
}

// fresh starts over with the given assumption.
func (c *curveCtx) fresh(pc *Node) {
	c.st = &State{pc: pc, mem: map[*Obj]Val{}}
	c.e.events = nil
	c.e.undec = nil
}

func (c *curveCtx) methodPos(name string) string {
	if i, ok := c.g.(VIface); ok && i.typ != nil {
		if fn := c.e.methodOf(i.typ, name); fn != nil {
			return c.e.p.pos(fn.Pos())
		}
	}
	return ""
}

// point builds the representation of the abstract element P (not neutral).
func (c *curveCtx) point(name string, P *T) (Val, bool) {
	found := 0
	v := c.build(c.gen, name, P, &found)
	return v, found == 2
}

func (c *curveCtx) build(t Val, name string, P *T, found *int) Val {
	switch t := t.(type) {
	case VIface:
		return VIface{t.typ, c.build(t.v, name, P, found)}
	case VStruct:
		fs := make([]Val, len(t.f))
		for i := range fs {
			fs[i] = c.build(t.f[i], fmt.Sprintf("%s.%d", name, i), P, found)
		}
		return VStruct{fs}
	case VPtr:
		cont := c.e.load(c.st, t, 0)
		mk := func(v Val) Val {
			o := c.e.newObj(name, t.o.typ)
			o.input = true
			c.e.globalMem[o] = v
			return VPtr{o: o}
		}
		switch x := cont.(type) {
		case VInt:
			if k, ok := isConst(x.t); ok {
				if k.Cmp(curveGx) == 0 {
					*found++
					return mk(VInt{coordX(P)})
				}
				if k.Cmp(curveGy) == 0 {
					*found++
					return mk(VInt{coordY(P)})
				}
			}
		case VStruct:
			return mk(c.build(x, name, P, found))
		}
		return t
	case VInt:
		if k, ok := isConst(t.t); ok {
			if k.Cmp(curveGx) == 0 {
				*found++
				return VInt{coordX(P)}
			}
			if k.Cmp(curveGy) == 0 {
				*found++
				return VInt{coordY(P)}
			}
		}
	}
	return t
}

type ptAlt struct {
	g    *Node
	t    *T // the element; nil when the value is no element
	x, y *T
	what string
}

// abs finds the elements a value stands for.
func (c *curveCtx) abs(v Val) []ptAlt {
	var out []ptAlt
	var flat []Alt
	for _, a := range c.flatten(v, c.st.pc) {
		for _, g := range cases(a.g) {
			flat = append(flat, Alt{g, a.v})
		}
	}
	for _, a := range flat {
		if m := c.match(a.v, c.neu); m {
			out = append(out, ptAlt{g: a.g, t: num(0)})
			continue
		}
		var x, y *T
		if c.capture(a.v, c.gen, &x, &y) && x != nil && y != nil {
			old := curFacts
			curFacts = a.g.Facts()
			p := asPoint(x, y)
			curFacts = old
			out = append(out, ptAlt{g: a.g, t: p, x: x, y: y, what: "(" + x.String() + ", " + y.String() + ")"})
			continue
		}
		out = append(out, ptAlt{g: a.g, what: describe(a.v)})
	}
	return out
}

// flatten removes all choices inside a value, with the memory behind pointers loaded as structures.
func (c *curveCtx) flatten(v Val, pc *Node) []Alt {
	if pc == bFalse || !feasible(pc) {
		return nil
	}
	switch v := v.(type) {
	case *VUnion:
		var out []Alt
		for _, a := range v.alts {
			out = append(out, c.flatten(a.v, and(pc, a.g))...)
		}
		return out
	case VIface:
		var out []Alt
		for _, a := range c.flatten(v.v, pc) {
			out = append(out, Alt{a.g, VIface{v.typ, a.v}})
		}
		return out
	case VStruct:
		outs := []Alt{{pc, VStruct{nil}}}
		for _, f := range v.f {
			var next []Alt
			for _, o := range outs {
				for _, a := range c.flatten(f, o.g) {
					fs := append(append([]Val{}, o.v.(VStruct).f...), a.v)
					next = append(next, Alt{a.g, VStruct{fs}})
				}
			}
			outs = next
		}
		return outs
	case VBool:
		var out []Alt
		for _, x := range []Alt{{v.b, VBool{bTrue}}, {not(v.b), VBool{bFalse}}} {
			if g := and(pc, x.g); g != bFalse && feasible(g) {
				out = append(out, Alt{g, x.v})
			}
		}
		return out
	case VPtr:
		old := curFacts
		curFacts = pc.Facts()
		cont := c.e.load(&State{pc, c.st.mem}, v, 0)
		curFacts = old
		var out []Alt
		for _, a := range c.flatten(cont, pc) {
			out = append(out, Alt{a.g, VTuple{[]Val{a.v}}}) // a pointer to the content
		}
		return out
	}
	return []Alt{{pc, v}}
}

// match compares a flattened value with a template.
func (c *curveCtx) match(v, t Val) bool {
	switch t := t.(type) {
	case VIface:
		i, ok := v.(VIface)
		return ok && i.typ != nil && t.typ != nil && types.Identical(i.typ, t.typ) && c.match(i.v, t.v)
	case VStruct:
		s, ok := v.(VStruct)
		if !ok || len(s.f) != len(t.f) {
			return false
		}
		for i := range t.f {
			if !c.match(s.f[i], t.f[i]) {
				return false
			}
		}
		return true
	case VPtr:
		s, ok := v.(VTuple)
		return ok && c.match(s.f[0], c.e.load(c.st, t, 0))
	}
	return valEq(v, t)
}

func (c *curveCtx) capture(v, t Val, x, y **T) bool {
	switch t := t.(type) {
	case VIface:
		i, ok := v.(VIface)
		return ok && i.typ != nil && t.typ != nil && types.Identical(i.typ, t.typ) && c.capture(i.v, t.v, x, y)
	case VStruct:
		s, ok := v.(VStruct)
		if !ok || len(s.f) != len(t.f) {
			return false
		}
		for i := range t.f {
			if !c.capture(s.f[i], t.f[i], x, y) {
				return false
			}
		}
		return true
	case VPtr:
		s, ok := v.(VTuple)
		return ok && c.capture(s.f[0], c.e.load(c.st, t, 0), x, y)
	case VInt:
		s, ok := v.(VInt)
		if !ok {
			return false
		}
		if k, isC := isConst(t.t); isC {
			if k.Cmp(curveGx) == 0 {
				*x = s.t
				return true
			}
			if k.Cmp(curveGy) == 0 {
				*y = s.t
				return true
			}
		}
		return s.t == t.t
	}
	return valEq(v, t)
}

// expectPoint checks that v is the element want on every alternative.
func (c *curveCtx) expectPoint(r *Rep, rule, construct, pos string, v Val, want *T) {
	c.finishRun(r, rule, construct, pos)
	if v == nil {
		r.fail(rule, construct, pos, "the operation cannot return")
		return
	}
	alts := c.abs(v)
	if len(alts) == 0 {
		r.fail(rule, construct, pos, "the operation has no result")
		return
	}
	for _, a := range alts {
		if a.t == nil {
			r.fail(rule, construct, pos, "the result %s is no element of the group, under %s", a.what, a.g)
			continue
		}
		old := curFacts
		curFacts = a.g.Facts()
		q := simplify(a.g, eq0(sub(a.t, want)))
		curFacts = old
		r.ob(implies(a.g, q), rule, construct, pos, "the result is %s instead of %s, under %s", ptName(a.t), ptName(want), a.g)
	}
}

func ptName(t *T) string {
	if c, ok := isConst(t); ok && c.Sign() == 0 {
		return "neutral"
	}
	return t.String()
}

func (c *curveCtx) finishRun(r *Rep, rule, construct, pos string) {
	for _, ev := range c.e.panics() {
		r.fail(rule, construct, c.e.where(ev), "the operation can crash: %s, under %s", ev.name, ev.g)
	}
	r.engine(c.e, construct)
	c.e.steps = 0
	r.ob(true, rule, construct+" returns without crashing", pos, "")
}

func (c *curveCtx) expectBool(r *Rep, rule, construct, pos string, v Val, want *Node) {
	c.finishRun(r, rule, construct, pos)
	if v == nil {
		r.fail(rule, construct, pos, "the operation cannot return")
		return
	}
	b, ok := c.e.boolOf(v, c.st)
	if !ok {
		r.fail(rule, construct, pos, "the verdict is %s", describe(v))
		return
	}
	old := curFacts
	curFacts = c.st.pc.Facts()
	b, want = simplify(c.st.pc, b), simplify(c.st.pc, want)
	curFacts = old
	same := ite(b, want, not(want))
	r.ob(implies(c.st.pc, same) || !feasible(and(c.st.pc, not(same))), rule, construct, pos, "the verdict is %s instead of %s", b, want)
}

func (c *curveCtx) intPtr(name string) (Val, *T) {
	o := c.e.newObj(name, bigType)
	o.input = true
	t := sym('i', name)
	c.e.globalMem[o] = VInt{t}
	return VPtr{o: o}, t
}

// inputs checks that nothing the caller owns has changed.
func (c *curveCtx) unchanged(r *Rep, rule, construct, pos string, except ...*Obj) {
	checkUnchanged(r, c.e, c.st, rule, construct, pos, except...)
}

func checkUnchanged(r *Rep, e *Eng, st *State, rule, construct, pos string, except ...*Obj) {
	n := 0
	for o, v := range st.mem {
		if !o.input && !o.global {
			continue
		}
		n++
		skip := false
		for _, x := range except {
			if x == o {
				skip = true
			}
		}
		if skip {
			continue
		}
		var base Val
		if b, ok := e.globalMem[o]; ok {
			base = b
		} else if o.symb != "" && len(o.kappas) == 0 {
			base = e.baseContent(o, nil)
		} else if fam, ok := v.(VArr); ok && fam.base == "symfam" {
			if len(fam.w) == 0 {
				continue
			}
		}
		if base != nil {
			if _, ok := base.(VStream); ok {
				continue
			}
			if _, ok := base.(VBuf); ok {
				continue
			}
			if sameUnder(st.pc, v, base) {
				continue
			}
		}
		w := pos
		for _, ev := range e.events {
			if ev.kind == "store-input" && len(ev.vals) > 0 {
				if p, ok := ev.vals[0].(VPtr); ok && p.o == o {
					w = e.where(ev)
				}
			}
		}
		kind := "an input"
		if o.global {
			kind = "a shared constant"
		}
		r.fail(rule, construct, w, "the operation changes %s: %s becomes %s", kind, o.name, describe(v))
	}
	for _, ev := range e.events {
		if ev.kind == "append-input" && feasible(ev.g) {
			r.fail(rule, construct, e.where(ev), "the operation appends into memory of its caller (%s)", ev.name)
		}
	}
	r.ob(true, rule, construct+" leaves its inputs alone", pos, "")
}

// sameUnder compares two values under a condition.
func sameUnder(pc *Node, a, b Val) bool {
	if valEq(a, b) {
		return true
	}
	if u, ok := a.(*VUnion); ok {
		for _, x := range u.alts {
			g := and(pc, x.g)
			if g == bFalse || !feasible(g) {
				continue
			}
			if !sameUnder(g, x.v, b) {
				return false
			}
		}
		return true
	}
	if x, ok := a.(VStruct); ok {
		if y, ok := b.(VStruct); ok && len(x.f) == len(y.f) {
			for i := range x.f {
				if !sameUnder(pc, x.f[i], y.f[i]) {
					return false
				}
			}
			return true
		}
	}
	if x, ok := a.(VInt); ok {
		if y, ok := b.(VInt); ok {
			old := curFacts
			curFacts = pc.Facts()
			q := eq0(sub(x.t, y.t))
			curFacts = old
			return implies(pc, q)
		}
	}
	return false
}

type curveCase struct {
	name string
	pc   *Node
	a, b *T // nil: neutral
	same bool
}

func (c *curveCtx) cases() []curveCase {
	A, B := sym('p', "A"), sym('p', "B")
	nA, nB := not(eq0(A)), not(eq0(B))
	return []curveCase{
		{"two arbitrary elements", and(nA, nB), A, B, false},
		{"an element and itself", nA, A, A, true},
		{"an element and a copy of it", nA, A, A, false},
		{"an element and its inverse", nA, A, redN(neg(A)), false},
		{"neutral and an element", nB, nil, B, false},
		{"an element and neutral", nA, A, nil, false},
		{"neutral and neutral", bTrue, nil, nil, false},
		{"the generator and an element", nB, ptG, B, false},
	}
}

func (c *curveCtx) operands(r *Rep, cs curveCase) (a, b Val, ta, tb *T, ok bool) {
	c.fresh(cs.pc)
	a, b, ta, tb = c.neu, c.neu, num(0), num(0)
	ok1, ok2 := true, true
	if cs.a != nil {
		a, ok1 = c.point("a", cs.a)
		ta = cs.a
	}
	if cs.same {
		b, tb = a, ta
	} else if cs.b != nil {
		b, ok2 = c.point("b", cs.b)
		tb = cs.b
	}
	return a, b, ta, tb, ok1 && ok2
}

func checkC01(p *Program, r *Rep) {
	c := p.newCurve(r)
	if c == nil {
		return
	}
	if _, ok := c.point("probe", ptG); !r.ob(ok, "generator", "curve.Group.Gen", c.methodPos("Gen"), "Gen does not hold the coordinates of the base point: %s", describe(c.gen)) {
		return
	}
	for _, cs := range c.cases() {
		for _, op := range []string{"Add", "Equal"} {
			a, b, ta, tb, ok := c.operands(r, cs)
			if !ok {
				r.fail("generator", "curve point", "", "no representation of a point")
				return
			}
			cons := "Group." + op + " of " + cs.name
			pos := c.methodPos(op)
			r.guard(cons, func() {
				v := c.op(r, op, a, b)
				if op == "Add" {
					c.expectPoint(r, "group-law", cons, pos, v, ptAdd(ta, tb))
				} else {
					c.expectBool(r, "equality", cons, pos, v, eq0(sub(ta, tb)))
				}
			})
		}
	}
	A := sym('p', "A")
	for _, neutral := range []bool{false, true} {
		what, pt := "an element", A
		pc := not(eq0(A))
		if neutral {
			what, pt, pc = "neutral", num(0), bTrue
		}
		arg := func() Val {
			if neutral {
				return c.neu
			}
			v, _ := c.point("a", A)
			return v
		}
		c.fresh(pc)
		r.guard("Group.Neg of "+what, func() {
			c.expectPoint(r, "group-law", "Group.Neg of "+what, c.methodPos("Neg"), c.op(r, "Neg", arg()), redN(neg(pt)))
		})
		c.fresh(pc)
		r.guard("Group.ScalarMult of "+what, func() {
			a := arg()
			k, kt := c.intPtr("k")
			c.expectPoint(r, "group-law", "Group.ScalarMult of "+what, c.methodPos("ScalarMult"), c.op(r, "ScalarMult", a, k), ptMul(kt, pt))
		})
		c.fresh(pc)
		r.guard("Group.Encode of "+what, func() {
			a := arg()
			w := c.e.stream("w", false, nil)
			c.op(r, "Encode", a, w)
			c.finishRun(r, "total", "Group.Encode of "+what, c.methodPos("Encode"))
		})
	}
	c.fresh(bTrue)
	r.guard("Group.ScalarBaseMult", func() {
		k, kt := c.intPtr("k")
		c.expectPoint(r, "group-law", "Group.ScalarBaseMult", c.methodPos("ScalarBaseMult"), c.op(r, "ScalarBaseMult", k), ptMul(kt, ptG))
	})
	c.fresh(bTrue)
	r.guard("Group.Neutral", func() {
		c.expectPoint(r, "group-law", "Group.Neutral", c.methodPos("Neutral"), c.op(r, "Neutral"), num(0))
	})
	c.fresh(bTrue)
	r.guard("Group.Order", func() {
		v := c.op(r, "Order")
		c.finishRun(r, "order", "Group.Order", c.methodPos("Order"))
		okv := false
		if pv, ok := v.(VPtr); ok {
			if i, ok := c.e.load(c.st, pv, 0).(VInt); ok {
				if k, ok := isConst(i.t); ok && k.Cmp(curveN) == 0 {
					okv = true
				}
			}
		}
		r.ob(okv, "order", "Group.Order", c.methodPos("Order"), "Order is %s, not the order of the group", describe(v))
	})
	r.counts["operand cases"] = len(c.cases())
}

// stream is an abstract reader or writer with the given content (nil: arbitrary).
func (e *Eng) stream(name string, sure bool, content *T) Val {
	o := e.newObj(name, streamType)
	o.input = true
	rem := content
	if rem == nil {
		rem = sym('b', "in:"+name)
	}
	e.globalMem[o] = VStream{name: name, log: emptyB, rem: rem, read: true, chunk: true, sure: sure}
	return VIface{streamType, VPtr{o: o}}
}

func streamOf(v Val) VPtr { return v.(VIface).v.(VPtr) }

func checkC02(p *Program, r *Rep) {
	c := p.newCurve(r)
	if c == nil {
		return
	}
	A := sym('p', "A")
	libCalls := 0
	for _, m := range []string{"ScalarMult", "ScalarBaseMult"} {
		for _, kind := range []string{"an arbitrary integer", "zero", "the order", "minus one", "one", "order plus one", "a negative integer", "a multiple of the order"} {
			for _, neutral := range []bool{false, true} {
				if neutral && m == "ScalarBaseMult" {
					continue
				}
				pc := not(eq0(A))
				var kt *T
				switch kind {
				case "an arbitrary integer":
					kt = sym('i', "k")
				case "zero":
					kt = num(0)
				case "the order":
					kt = cst(curveN)
				case "minus one":
					kt = num(-1)
				case "one":
					kt = num(1)
				case "order plus one":
					kt = cst(new(big.Int).Add(curveN, big1))
				case "a negative integer":
					kt = neg(symRange("kneg", big1, nil))
				case "a multiple of the order":
					kt = mul(sym('i', "m"), cst(curveN))
				}
				c.fresh(pc)
				o := c.e.newObj("k", bigType)
				o.input = true
				c.e.globalMem[o] = VInt{kt}
				cons := "Group." + m + " by " + kind
				pt := ptG
				var args []Val
				if m == "ScalarMult" {
					if neutral {
						args = append(args, c.neu)
						pt = num(0)
						cons += " of neutral"
					} else {
						a, _ := c.point("a", A)
						args = append(args, a)
						pt = A
					}
				}
				args = append(args, VPtr{o: o})
				pos := c.methodPos(m)
				r.guard(cons, func() {
					v := c.op(r, m, args...)
					for _, ev := range c.e.events {
						if ev.kind == "libscalar" {
							libCalls++
							old := curFacts
							curFacts = ev.g.Facts()
							t := ev.ts[0]
							in := and(not(lt(t, num(0))), lt(t, cst(curveN)))
							cong := eq0(mod(sub(t, ev.ts[1]), cst(curveN)))
							_ = cong
							curFacts = old
							r.ob(implies(ev.g, in), "residue", cons, c.e.where(ev), "the library receives the scalar %s, which may be outside [0, order)", t)
						}
					}
					c.expectPoint(r, "scalar", cons, pos, v, ptMul(kt, pt))
				})
			}
		}
	}
	r.counts["library calls seen"] = libCalls
	r.ob(libCalls > 0, "coverage", "scalar multiplication", "", "no call of the library's scalar multiplication was found")
	c.fresh(not(eq0(A)))
	r.guard("Group.Neg", func() {
		a, _ := c.point("a", A)
		c.expectPoint(r, "scalar", "Group.Neg", c.methodPos("Neg"), c.op(r, "Neg", a), redN(neg(A)))
	})
}

func checkC03(p *Program, r *Rep) {
	c := p.newCurve(r)
	if c == nil {
		return
	}
	pos := c.methodPos("Decode")
	for _, sure := range []bool{false, true} {
		c.fresh(bTrue)
		cons := "Group.Decode"
		if sure {
			cons += " from a reliable reader"
		}
		r.guard(cons, func() {
			rd := c.e.stream("r", sure, nil)
			v := c.op(r, "Decode", rd)
			for _, ev := range c.e.panics() {
				r.fail("valid-point", cons, c.e.where(ev), "decoding can crash: %s", ev.name)
			}
			r.engine(c.e, cons)
			tup, ok := v.(VTuple)
			if !ok || len(tup.f) != 2 {
				r.fail("valid-point", cons, pos, "the result is %s", describe(v))
				return
			}
			npoint := 0
			for _, ea := range c.e.alts(tup.f[1], c.st.pc) {
				g := and(c.st.pc, ea.g)
				if _, isNil := ea.v.(VNil); !isNil {
					// an error: no point
					for _, pa := range c.e.alts(tup.f[0], g) {
						if n := c.e.isNil(pa.v); n == bTrue {
							r.ob(true, "no-point-with-error", cons, pos, "")
							continue
						}
						gg := and(g, pa.g)
						if gg == bFalse || !feasible(gg) {
							continue
						}
						r.fail("no-point-with-error", cons, pos, "a point is returned together with an error: %s", describe(pa.v))
					}
					continue
				}
				st := c.st
				c.st = &State{g, st.mem}
				for _, a := range c.abs(tup.f[0]) {
					if a.t != nil {
						if k, ok := isConst(a.t); ok && k.Sign() == 0 {
							r.ob(true, "valid-point", cons+" (neutral)", pos, "")
							continue
						}
						npoint++
						r.ob(true, "valid-point", cons, pos, "")
						continue
					}
					if a.x == nil {
						r.fail("valid-point", cons, pos, "success with the result %s", a.what)
						continue
					}
					npoint++
					old := curFacts
					curFacts = a.g.Facts()
					oc := simplify(a.g, onCurve(a.x, a.y))
					bx := and(le0(neg(a.x)), lt(a.x, cst(curveP)))
					by := and(le0(neg(a.y)), lt(a.y, cst(curveP)))
					curFacts = old
					r.ob(implies(a.g, oc), "on-curve", cons, pos, "success with coordinates %s that have not been checked to be on the curve, under %s", a.what, a.g)
					r.ob(implies(a.g, bx), "canonical-x", cons, pos, "success with an x coordinate %s that may be outside the field", a.x)
					r.ob(implies(a.g, by), "canonical-y", cons, pos, "success with a y coordinate %s that may be outside the field", a.y)
				}
				c.st = st
			}
			r.ob(npoint > 0, "coverage", cons, pos, "decoding never succeeds with a point")
		})
	}
}
