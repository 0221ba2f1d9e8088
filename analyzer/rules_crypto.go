package main

// C04, C07, C08, C09, C10, C22 and C25 for the commitments, the proofs and the hash.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	commPkg  = "pkg/crypto/commitment"
	zkpokPkg = "pkg/crypto/zkpok"
	hashPkg  = "pkg/crypto"
)

// egCtx is a commitment factory, built by its constructor over an arbitrary base.
type egCtx struct {
	e          *Eng
	p          *Program
	r          *Rep
	st         *State
	h          *T
	fct        Val
	eg, egf    *types.Named
	tmpl       VStruct
	fi, si     []int // where the two components are
	base       map[*Obj]Val
	challenges []challenge
	hashSym    bool
}

type challenge struct {
	msg *T
	e   *T
	g   *Node
	fn  string
	pos string
}

func (p *Program) newEG(r *Rep) *egCtx {
	e := newEng(p)
	c := &egCtx{e: e, p: p, r: r, h: sym('p', "h")}
	e.callHook = func(e *Eng, st *State, fn *ssa.Function, args []Val, site *Site) (Val, bool) {
		if fn.String() != modPath+"/pkg/crypto.HashToBigInt" || e.inInit {
			return nil, false
		}
		return e.fork(st, args, func(st *State, args []Val) Val {
			msg, ok := e.sliceBytes(st, args[0], site.pos)
			if !ok {
				e.undecided(site.pos, "hash of %s", describe(args[0]))
			}
			t := mkTerm("chal", 'i', "", msg)
			symLo[t], symHi[t] = big0, new(big.Int).Sub(curveN, big1)
			in := ""
			if len(e.stack) > 0 {
				in = e.stack[0].fn.Name()
			}
			c.challenges = append(c.challenges, challenge{msg, t, st.pc, in, e.p.pos(site.pos)})
			return e.newInt(st, site, "challenge", t)
		}), true
	}
	e.runInits()
	c.st = e.newState()
	c.eg, c.egf = p.named(commPkg, "ElGamal"), p.named(commPkg, "ElGamalFactory")
	ctor := p.fn(commPkg, "NewElGamalFactory")
	if c.eg == nil || c.egf == nil || ctor == nil {
		r.fail("anchor", "commitment.NewElGamalFactory", "", "the commitment factory was not found")
		return nil
	}
	c.fct = e.callTop(c.st, "ctor", ctor, VPoint{c.h})
	if c.fct == nil {
		r.fail("anchor", "commitment.NewElGamalFactory", p.pos(ctor.Pos()), "the factory cannot be constructed")
		return nil
	}
	c.share()
	v, rr := c.intv("v0"), c.intv("r0")
	res, err := c.m(c.fct, "Create", v.v, rr.v)
	if err != nil || res == nil {
		r.fail("anchor", "ElGamalFactory.Create", "", "no commitment can be created: %v", err)
		return nil
	}
	c.fi, c.si = nil, nil
	ptr, ok := res.(VPtr)
	if ok {
		c.tmpl, ok = e.load(c.st, ptr, 0).(VStruct)
	}
	if !ok {
		r.fail("create", "ElGamalFactory.Create", c.pos("ElGamalFactory", "Create"), "a commitment is %s", describe(res))
		return nil
	}
	first, second := ptMul(rr.t, ptG), ptAdd(ptMul(rr.t, c.h), ptMul(v.t, ptG))
	for _, l := range e.leavesOf(c.st, c.tmpl, nil) {
		if p, ok := l.v.(VPoint); ok {
			if p.t == first && c.fi == nil {
				c.fi = l.path
			} else if p.t == second && c.si == nil {
				c.si = l.path
			}
		}
	}
	if !r.ob(c.fi != nil && c.si != nil, "create", "ElGamalFactory.Create", c.pos("ElGamalFactory", "Create"), "a commitment to (v, r) is %s, not the pair (r*G, r*h + v*G)", describe(c.tmpl)) {
		return nil
	}
	c.fresh(bTrue)
	return c
}

// share marks everything allocated so far as shared by later operations.
func (c *egCtx) share() {
	for o, v := range c.st.mem {
		o.global = true
		c.e.globalMem[o] = v
	}
	c.st = &State{pc: c.st.pc, mem: map[*Obj]Val{}}
	c.e.events = nil
}

func (c *egCtx) fresh(pc *Node) {
	c.st = &State{pc: pc, mem: map[*Obj]Val{}}
	c.e.events, c.e.undec, c.challenges = nil, nil, nil
	c.e.steps = 0
}

func (c *egCtx) pos(typ, m string) string {
	if n := c.p.named(commPkg, typ); n != nil {
		if f := c.e.methodOf(types.NewPointer(n), m); f != nil {
			return c.p.pos(f.Pos())
		}
	}
	return ""
}

type intSym struct {
	v Val
	t *T
	o *Obj
}

// intv is an arbitrary integer of the caller.
func (c *egCtx) intv(name string) intSym { return c.intOf(name, sym('i', name)) }

func (c *egCtx) intOf(name string, t *T) intSym {
	o := c.e.newObj(name, bigType)
	o.input = true
	c.e.globalMem[o] = VInt{t}
	return intSym{VPtr{o: o}, t, o}
}

// m calls a method of a pointer to a named type of the project.
func (c *egCtx) m(recv Val, name string, args ...Val) (Val, error) {
	p, ok := recv.(VPtr)
	if !ok {
		return nil, fmt.Errorf("receiver is %s", describe(recv))
	}
	t := p.o.typ
	fn := c.e.methodOf(types.NewPointer(t), name)
	if fn == nil {
		return nil, fmt.Errorf("%s has no method %s", t, name)
	}
	return c.e.callTop(c.st, "m:"+name, fn, append([]Val{recv}, args...)...), nil
}

type egVal struct {
	v    VPtr
	a, b *T
}

// comm is an arbitrary commitment of the caller.
func (c *egCtx) comm(name string) egVal {
	return c.commOf(name, sym('p', name+".1"), sym('p', name+".2"))
}

func (c *egCtx) commOf(name string, a, b *T) egVal {
	o := c.e.newObj(name, c.eg)
	o.input = true
	c.e.globalMem[o] = c.egStruct(a, b)
	return egVal{VPtr{o: o}, a, b}
}

func (c *egCtx) egStruct(a, b *T) VStruct {
	return c.e.setLeaf(c.e.setLeaf(c.tmpl, c.fi, VPoint{a}), c.si, VPoint{b}).(VStruct)
}

// leaf is a part of a value that is no structure and no array, with the way to it.
type leaf struct {
	path []int
	v    Val
}

// shortArr tells whether an array can be taken apart.
func shortArr(a VArr) bool {
	if a.n == nil || a.base == "map" {
		return false
	}
	n, ok := isConst(a.n)
	return ok && n.IsInt64() && n.Int64() <= 8
}

// leavesOf takes nested structures and short arrays apart.
func (e *Eng) leavesOf(st *State, v Val, path []int) []leaf {
	sub := func(i int, f Val) []leaf {
		return e.leavesOf(st, f, append(append([]int{}, path...), i))
	}
	var out []leaf
	switch v := v.(type) {
	case VStruct:
		for i, f := range v.f {
			out = append(out, sub(i, f)...)
		}
		return out
	case VArr:
		if shortArr(v) {
			n, _ := isConst(v.n)
			for i := int64(0); i < n.Int64(); i++ {
				out = append(out, sub(int(i), e.selectArr(st, v, num(i), token.NoPos, nil))...)
			}
			return out
		}
	}
	return []leaf{{path, v}}
}

// leafAt reads the part of a value at a path.
func (e *Eng) leafAt(st *State, v Val, path []int) Val {
	for _, i := range path {
		switch x := v.(type) {
		case VStruct:
			if i >= len(x.f) {
				return VNil{}
			}
			v = x.f[i]
		case VArr:
			v = e.selectArr(st, x, num(int64(i)), token.NoPos, nil)
		default:
			return VNil{}
		}
	}
	return v
}

// setLeaf replaces the part of a value at a path.
func (e *Eng) setLeaf(v Val, path []int, to Val) Val {
	if len(path) == 0 {
		return to
	}
	switch x := v.(type) {
	case VStruct:
		fs := append([]Val{}, x.f...)
		fs[path[0]] = e.setLeaf(fs[path[0]], path[1:], to)
		return VStruct{fs}
	case VArr:
		i := num(int64(path[0]))
		if len(path) > 1 {
			to = e.setLeaf(e.selectArr(e.newState(), x, i, token.NoPos, nil), path[1:], to)
		}
		x.w = append(append([]Write{}, x.w...), Write{g: bTrue, idx: i, val: to})
		return x
	}
	return v
}

// at reads a component of a commitment.
func (c *egCtx) at(s VStruct, path []int, pc *Node) Val {
	return c.e.leafAt(&State{pc, c.st.mem}, s, path)
}

// isPoint is the condition that a value is the given element.
func (c *egCtx) isPoint(v Val, want *T, pc *Node) *Node {
	r := bFalse
	for _, a := range c.e.alts(v, pc) {
		if p, ok := a.v.(VPoint); ok {
			old := curFacts
			curFacts = and(pc, a.g).Facts()
			r = or(r, and(a.g, eq0(sub(p.t, want))))
			curFacts = old
		}
	}
	return r
}

// holds is the condition that a value is (a pointer to) the commitment with the given components.
func (c *egCtx) holds(v Val, a, b *T) *Node {
	r := bFalse
	for _, x := range c.e.alts(v, c.st.pc) {
		g := and(c.st.pc, x.g)
		var s Val = x.v
		if p, ok := x.v.(VPtr); ok {
			s = c.e.load(&State{g, c.st.mem}, p, 0)
		}
		for _, y := range c.e.alts(s, g) {
			if s, ok := y.v.(VStruct); ok && len(s.f) == len(c.tmpl.f) {
				gg := and(g, y.g)
				r = or(r, and(and(x.g, y.g), and(c.isPoint(c.at(s, c.fi, gg), a, gg), c.isPoint(c.at(s, c.si, gg), b, gg))))
			}
		}
	}
	return r
}

func (c *egCtx) always(n *Node) bool {
	old := curFacts
	curFacts = c.st.pc.Facts()
	n = simplify(c.st.pc, n)
	curFacts = old
	return implies(c.st.pc, n) || !feasible(and(c.st.pc, not(n)))
}

func (c *egCtx) noPanic(rule, cons string) {
	for _, ev := range c.e.panics() {
		c.r.fail(rule, cons, c.e.where(ev), "the operation can crash: %s, under %s", ev.name, ev.g)
	}
	c.r.engine(c.e, cons)
	c.e.undec = nil
}

// expect checks that the value is the commitment (a, b), and is the receiver when recv is given.
func (c *egCtx) expect(rule, cons, pos string, v Val, a, b *T, recv *VPtr) {
	c.noPanic(rule, cons)
	if v == nil {
		c.r.fail(rule, cons, pos, "the operation cannot return")
		return
	}
	c.r.ob(c.always(c.holds(v, a, b)), rule, cons, pos, "the result is %s instead of (%s, %s)", c.show(v), a, b)
	if recv != nil {
		c.r.ob(c.always(c.holds(*recv, a, b)), rule, cons+" (receiver)", pos, "the receiver holds %s instead of (%s, %s)", c.show(*recv), a, b)
	}
}

func (c *egCtx) show(v Val) string {
	var s []string
	for _, x := range c.e.alts(v, c.st.pc) {
		d := describe(x.v)
		if p, ok := x.v.(VPtr); ok {
			if st, ok := c.e.load(c.st, p, 0).(VStruct); ok && len(st.f) == len(c.tmpl.f) {
				d = "(" + describe(c.at(st, c.fi, c.st.pc)) + ", " + describe(c.at(st, c.si, c.st.pc)) + ")"
			}
		}
		s = append(s, d)
	}
	return strings.Join(s, " or ")
}

// isFresh checks that a result does not share memory with what existed before.
func (c *egCtx) isFresh(rule, cons, pos string, v Val) {
	for _, x := range c.e.alts(v, c.st.pc) {
		if p, ok := x.v.(VPtr); ok {
			c.r.ob(!p.o.input && !p.o.global, rule, cons, pos, "the result is shared memory (%s), which a later operation on the result changes", p.o.name)
		}
	}
}

func checkC07(p *Program, r *Rep) {
	c := p.newEG(r)
	if c == nil {
		return
	}
	c.e.distinct = true
	zero := num(0)
	run := func(cons, typ, m string, f func(pos string)) {
		c.fresh(bTrue)
		r.guard(cons, func() { f(c.pos(typ, m)) })
	}
	call := func(cons, pos string, recv Val, m string, args ...Val) Val {
		v, err := c.m(recv, m, args...)
		if err != nil {
			r.fail("anchor", cons, pos, "%v", err)
		}
		return v
	}
	run("ElGamalFactory.Create", "ElGamalFactory", "Create", func(pos string) {
		v, rr := c.intv("v"), c.intv("r")
		res := call("ElGamalFactory.Create", pos, c.fct, "Create", v.v, rr.v)
		c.expect("create", "ElGamalFactory.Create", pos, res, ptMul(rr.t, ptG), ptAdd(ptMul(rr.t, c.h), ptMul(v.t, ptG)), nil)
		c.isFresh("fresh", "ElGamalFactory.Create", pos, res)
	})
	run("ElGamalFactory.Create of (x, x)", "ElGamalFactory", "Create", func(pos string) {
		v := c.intv("v")
		res := call("ElGamalFactory.Create", pos, c.fct, "Create", v.v, v.v)
		c.expect("create", "ElGamalFactory.Create of (x, x)", pos, res, ptMul(v.t, ptG), ptAdd(ptMul(v.t, c.h), ptMul(v.t, ptG)), nil)
	})
	run("ElGamalFactory.Neutral", "ElGamalFactory", "Neutral", func(pos string) {
		res := call("ElGamalFactory.Neutral", pos, c.fct, "Neutral")
		c.expect("neutral", "ElGamalFactory.Neutral", pos, res, zero, zero, nil)
		if res != nil {
			c.isFresh("fresh", "ElGamalFactory.Neutral", pos, res)
		}
	})
	bools := func(cons, pos string, v Val, want *Node) {
		c.noPanic("equality", cons)
		if v == nil {
			r.fail("equality", cons, pos, "the operation cannot return")
			return
		}
		b, ok := c.e.boolOf(v, c.st)
		if !ok {
			r.fail("equality", cons, pos, "the verdict is %s", describe(v))
			return
		}
		r.ob(c.always(ite(b, want, not(want))), "equality", cons, pos, "the verdict is %s instead of %s", b, want)
	}
	run("ElGamalFactory.IsNeutral", "ElGamalFactory", "IsNeutral", func(pos string) {
		a := c.comm("a")
		bools("ElGamalFactory.IsNeutral", pos, call("ElGamalFactory.IsNeutral", pos, c.fct, "IsNeutral", a.v), and(eq0(a.a), eq0(a.b)))
	})
	for _, al := range []string{"", "a=b", "receiver=a", "receiver=b", "receiver=a=b"} {
		al := al
		cons := strings.TrimSpace("ElGamal.Equal " + al)
		run(cons, "ElGamal", "Equal", func(pos string) {
			a, b, x := c.comm("a"), c.comm("b"), c.comm("x")
			switch al {
			case "a=b":
				b = a
			case "receiver=a":
				x = a
			case "receiver=b":
				x = b
			case "receiver=a=b":
				x, b = a, a
			}
			bools(cons, pos, call(cons, pos, x.v, "Equal", a.v, b.v), and(eq0(sub(a.a, b.a)), eq0(sub(a.b, b.b))))
		})
	}
	for _, al := range []string{"", "a=b", "receiver=a", "receiver=b", "receiver=a=b"} {
		al := al
		cons := strings.TrimSpace("ElGamal.Compose " + al)
		run(cons, "ElGamal", "Compose", func(pos string) {
			a, b, x := c.comm("a"), c.comm("b"), c.comm("x")
			switch al {
			case "a=b":
				b = a
			case "receiver=a":
				x = a
			case "receiver=b":
				x = b
			case "receiver=a=b":
				x, b = a, a
			}
			c.expect("homomorphism", cons, pos, call(cons, pos, x.v, "Compose", a.v, b.v), ptAdd(a.a, b.a), ptAdd(a.b, b.b), &x.v)
		})
	}
	for _, al := range []string{"", "receiver=a"} {
		al := al
		consE := strings.TrimSpace("ElGamal.Exp " + al)
		run(consE, "ElGamal", "Exp", func(pos string) {
			a, x, n := c.comm("a"), c.comm("x"), c.intv("n")
			if al != "" {
				x = a
			}
			c.expect("homomorphism", consE, pos, call(consE, pos, x.v, "Exp", a.v, n.v), ptMul(n.t, a.a), ptMul(n.t, a.b), &x.v)
		})
		consI := strings.TrimSpace("ElGamal.Inverse " + al)
		run(consI, "ElGamal", "Inverse", func(pos string) {
			a, x := c.comm("a"), c.comm("x")
			if al != "" {
				x = a
			}
			c.expect("homomorphism", consI, pos, call(consI, pos, x.v, "Inverse", a.v), redN(neg(a.a)), redN(neg(a.b)), &x.v)
		})
	}
	// operations on freshly created commitments, one after another
	run("composition of created commitments", "ElGamal", "Compose", func(pos string) {
		v1, r1, v2, r2, n := c.intv("v1"), c.intv("r1"), c.intv("v2"), c.intv("r2"), c.intv("n")
		cons := "composition of created commitments"
		d := call(cons, pos, c.fct, "Neutral")
		x := call(cons, pos, c.fct, "Create", v1.v, r1.v)
		y := call(cons, pos, c.fct, "Create", v2.v, r2.v)
		if d == nil || x == nil || y == nil {
			r.fail("homomorphism", cons, pos, "the operations cannot return")
			return
		}
		res := call(cons, pos, d, "Compose", call(cons, pos, x, "Exp", x, n.v), y)
		vv, rr := add(mul(n.t, v1.t), v2.t), add(mul(n.t, r1.t), r2.t)
		c.expect("homomorphism", cons, pos, res, ptMul(rr, ptG), ptAdd(ptMul(rr, c.h), ptMul(vv, ptG)), nil)
		n2 := call(cons, pos, c.fct, "Neutral")
		c.expect("neutral", "ElGamalFactory.Neutral after other operations", pos, n2, zero, zero, nil)
		if res != nil {
			isn := call(cons, pos, c.fct, "IsNeutral", res)
			b, ok := c.e.boolOf(isn, c.st)
			want := and(eq0(ptMul(rr, ptG)), eq0(ptAdd(ptMul(rr, c.h), ptMul(vv, ptG))))
			r.ob(ok && c.always(ite(b, want, not(want))), "neutral", "ElGamalFactory.IsNeutral after other operations", pos, "the verdict is %s instead of %s", describe(isn), want)
		}
	})
}

// ---- proofs

// sigma describes a proof system: its relation and where its witnesses go.
type sigma struct {
	name, typ string
	nwit      int
	comms     int
	// statement builds an honest statement from witnesses
	honest func(c *egCtx, w []intSym) []egVal
	// eqs are the verification equations for arbitrary statement, announcement and responses (in the order of roles)
	eqs func(c *egCtx, s []egVal, x egVal, z []*T, e *T) []*T
	// roles assigns the response fields of an honest proof
	role func(c *egCtx, t *T, w []intSym) int
	// announcement of an honest proof for the nonces of the roles
	announce func(c *egCtx, s []egVal, n []*T) (a, b *T)
}

func uses(t *T, x *T) bool {
	found := false
	var walk func(t *T, d int)
	seen := map[*T]bool{}
	walk = func(t *T, d int) {
		if t == nil || found || seen[t] {
			return
		}
		seen[t] = true
		if t == x {
			found = true
			return
		}
		for _, m := range t.mon {
			for _, f := range m.f {
				walk(f.a, d+1)
			}
		}
		for _, a := range t.args {
			walk(a, d+1)
		}
		if t.nd != nil {
			for _, s := range t.nd.support() {
				walk(s, d+1)
			}
		}
	}
	walk(t, 0)
	return found
}

// usesLin tells whether x is a factor of t outside hashes.
func usesLin(t, x *T) bool {
	if t.op == "mod" {
		t = t.args[0]
	}
	for _, m := range toMon(t) {
		for _, f := range m.f {
			if f.a == x {
				return true
			}
		}
	}
	return false
}

func sigmas() []*sigma {
	return []*sigma{
		{name: "ZKEGKnow", typ: "ZKEGKnow", nwit: 2, comms: 1,
			honest: func(c *egCtx, w []intSym) []egVal {
				return []egVal{c.commOf("comm", ptMul(w[1].t, ptG), ptAdd(ptMul(w[1].t, c.h), ptMul(w[0].t, ptG)))}
			},
			role: func(c *egCtx, t *T, w []intSym) int {
				v, r := usesLin(t, w[0].t), usesLin(t, w[1].t)
				switch {
				case v && !r:
					return 0
				case r && !v:
					return 1
				}
				return -1
			},
			// z0 answers for the value, z1 for the randomizer
			eqs: func(c *egCtx, s []egVal, x egVal, z []*T, e *T) []*T {
				return []*T{
					sub(ptMul(z[1], ptG), ptAdd(x.a, ptMul(e, s[0].a))),
					sub(ptAdd(ptMul(z[1], c.h), ptMul(z[0], ptG)), ptAdd(x.b, ptMul(e, s[0].b))),
				}
			},
			announce: func(c *egCtx, s []egVal, n []*T) (a, b *T) {
				return ptMul(n[1], ptG), ptAdd(ptMul(n[1], c.h), ptMul(n[0], ptG))
			},
		},
		{name: "ZKEGRefresh", typ: "ZKEGRefresh", nwit: 1, comms: 2,
			// c2 = c1 composed with a commitment to (0, r)
			honest: func(c *egCtx, w []intSym) []egVal {
				c1 := c.comm("c1")
				return []egVal{c1, c.commOf("c2", ptAdd(c1.a, ptMul(w[0].t, ptG)), ptAdd(c1.b, ptMul(w[0].t, c.h)))}
			},
			role: func(c *egCtx, t *T, w []intSym) int {
				if usesLin(t, w[0].t) {
					return 0
				}
				return -1
			},
			// z0 answers for the randomizer. The statements enter at the challenge and at nothing
			// the prover chooses, so two answers to one announcement reveal r with c2 = c1 Create(0, r).
			eqs: func(c *egCtx, s []egVal, x egVal, z []*T, e *T) []*T {
				return []*T{
					sub(ptMul(z[0], ptG), ptAdd(x.a, ptMul(e, ptAdd(s[1].a, ptMul(num(-1), s[0].a))))),
					sub(ptMul(z[0], c.h), ptAdd(x.b, ptMul(e, ptAdd(s[1].b, ptMul(num(-1), s[0].b))))),
				}
			},
			announce: func(c *egCtx, s []egVal, n []*T) (a, b *T) {
				return ptMul(n[0], ptG), ptMul(n[0], c.h)
			},
		},
	}
}

// proofRun is an honest prover, interpreted on arbitrary witnesses.
type proofRun struct {
	s          *sigma
	w          []intSym
	stmt       []egVal
	proof      VPtr
	tmpl       VStruct
	roles      [][]int // where the response of each role is
	nums       [][]int // the parts that are numbers
	resp       []*T
	annF       []int // where the announcement is
	annPtr     bool
	ann        [2]*T
	newPos     string
	verPos     string
	ver        *ssa.Function
	args       []Val
	errv       Val
	pcBefore   *Node
	events     []*Event
	challenges []challenge
}

// intContent finds the number behind a field (a *big.Int or a big.Int).
func (c *egCtx) intContent(v Val) (*T, bool) {
	switch v := v.(type) {
	case VInt:
		return v.t, true
	case VPtr:
		if i, ok := c.e.load(c.st, v, 0).(VInt); ok {
			return i.t, true
		}
	}
	return nil, false
}

func (c *egCtx) commContent(v Val) (a, b *T, ptr, ok bool) {
	if p, isP := v.(VPtr); isP {
		v, ptr = c.e.load(c.st, p, 0), true
	}
	if s, isS := v.(VStruct); isS && len(s.f) == len(c.tmpl.f) {
		x, ok1 := c.at(s, c.fi, c.st.pc).(VPoint)
		y, ok2 := c.at(s, c.si, c.st.pc).(VPoint)
		if ok1 && ok2 {
			return x.t, y.t, ptr, true
		}
	}
	return nil, nil, false, false
}

// prove interprets the constructor of the proof. It reports failures under the given rule.
func (c *egCtx) prove(s *sigma, rule string) *proofRun {
	r := c.r
	cons := "zkpok.New" + s.typ
	fn := c.p.fn(zkpokPkg, "New"+s.typ)
	nt := c.p.named(zkpokPkg, s.typ)
	if fn == nil || nt == nil {
		r.fail("anchor", cons, "", "the proof was not found")
		return nil
	}
	ver := c.e.methodOf(types.NewPointer(nt), "Verify")
	if ver == nil {
		r.fail("anchor", s.typ+".Verify", "", "the verification was not found")
		return nil
	}
	pr := &proofRun{s: s, ver: ver, newPos: c.p.pos(fn.Pos()), verPos: c.p.pos(ver.Pos())}
	names := []string{"value", "rnd"}
	if s.nwit == 1 {
		names = []string{"rnd"}
	}
	for _, n := range names {
		pr.w = append(pr.w, c.intv(n))
	}
	pr.stmt = s.honest(c, pr.w)
	args := []Val{c.fct}
	for _, x := range pr.stmt {
		args = append(args, x.v)
	}
	pr.args = append([]Val{}, args...)
	for _, w := range pr.w {
		args = append(args, w.v)
	}
	if len(args) != len(fn.Params) {
		r.fail("anchor", cons, pr.newPos, "the constructor takes %d arguments, %d are expected", len(fn.Params), len(args))
		return nil
	}
	pr.pcBefore = c.st.pc
	res := c.e.callTop(c.st, "prove", fn, args...)
	c.noPanic(rule, cons)
	if res == nil {
		r.fail(rule, cons, pr.newPos, "the prover cannot return")
		return nil
	}
	pr.events = append([]*Event{}, c.e.events...)
	pr.challenges = append([]challenge{}, c.challenges...)
	var proof Val = res
	if t, ok := res.(VTuple); ok {
		proof = t.f[0]
		pr.errv = t.f[len(t.f)-1]
		okc := c.e.isNilV(c.st, pr.errv)
		c.st.pc = and(c.st.pc, okc)
		if !feasible(c.st.pc) || c.st.pc == bFalse {
			r.fail(rule, cons, pr.newPos, "the prover never succeeds")
			return nil
		}
	}
	as := c.e.alts(proof, c.st.pc)
	if len(as) != 1 {
		r.fail(rule, cons, pr.newPos, "the proof is %s", describe(proof))
		return nil
	}
	pp, ok := as[0].v.(VPtr)
	if !ok {
		r.fail(rule, cons, pr.newPos, "the prover succeeds without a proof: %s", describe(as[0].v))
		return nil
	}
	pr.proof = pp
	st, ok := c.e.load(c.st, pp, 0).(VStruct)
	if !ok {
		r.fail(rule, cons, pr.newPos, "the proof is %s", describe(c.e.load(c.st, pp, 0)))
		return nil
	}
	pr.tmpl = st
	pr.roles = make([][]int, s.nwit)
	pr.resp = make([]*T, s.nwit)
	var part func(v Val, path []int)
	part = func(v Val, path []int) {
		if t, ok := c.intContent(v); ok {
			pr.nums = append(pr.nums, path)
			k := s.role(c, t, pr.w)
			if k >= 0 && k < len(pr.roles) && pr.roles[k] == nil {
				pr.roles[k], pr.resp[k] = path, t
			}
			return
		}
		if a, b, ptr, ok := c.commContent(v); ok {
			if pr.annF == nil {
				pr.annF, pr.annPtr, pr.ann = path, ptr, [2]*T{a, b}
			}
			return
		}
		n := 0
		switch v := v.(type) {
		case VStruct:
			n = len(v.f)
		case VArr:
			if shortArr(v) {
				k, _ := isConst(v.n)
				n = int(k.Int64())
			}
		}
		for i := 0; i < n; i++ {
			part(c.e.leafAt(c.st, v, []int{i}), append(append([]int{}, path...), i))
		}
	}
	for i, f := range st.f {
		part(f, []int{i})
	}
	missing := pr.annF == nil
	for _, i := range pr.roles {
		missing = missing || i == nil
	}
	if missing {
		r.fail(rule, cons, pr.newPos, "no response for each witness and announcement in the proof %s", c.showProof(st))
		return nil
	}
	return pr
}

func (c *egCtx) showProof(st VStruct) string {
	var s []string
	for _, f := range st.f {
		if t, ok := c.intContent(f); ok {
			s = append(s, t.String())
		} else if a, b, _, ok := c.commContent(f); ok {
			s = append(s, "("+a.String()+", "+b.String()+")")
		} else {
			s = append(s, describe(f))
		}
	}
	return "{" + strings.Join(s, "; ") + "}"
}

// rejected is the condition that a verdict (bool or error) is a rejection.
func (e *Eng) rejected(st *State, v Val, t types.Type) *Node {
	if namedPath(t) == "error" {
		return not(e.isNilV(st, v))
	}
	b, ok := e.boolOf(v, st)
	if !ok {
		return bFalse
	}
	return not(b)
}

// verify interprets the verification of a proof with arbitrary content for an arbitrary statement.
func (c *egCtx) verifyArbitrary(pr *proofRun) (stmt []egVal, x egVal, z []*T, acc *Node, ok bool) {
	cons := "zkpok." + pr.s.typ + ".Verify"
	for k := range pr.roles {
		z = append(z, sym('i', fmt.Sprintf("z%d", k)))
	}
	x = c.comm("announcement")
	var content Val = pr.tmpl
	for i, path := range pr.nums {
		name, t := fmt.Sprintf("field%d", i), (*T)(nil)
		for k, q := range pr.roles {
			if &path[0] == &q[0] {
				name, t = fmt.Sprintf("z%d", k), z[k]
			}
		}
		if t == nil {
			t = sym('i', name)
		}
		var to Val = VInt{t}
		if _, isP := c.e.leafAt(c.st, pr.tmpl, path).(VPtr); isP {
			to = c.intOf(name, t).v
		}
		content = c.e.setLeaf(content, path, to)
	}
	if pr.annPtr {
		content = c.e.setLeaf(content, pr.annF, x.v)
	} else {
		content = c.e.setLeaf(content, pr.annF, c.egStruct(x.a, x.b))
	}
	nt := c.p.named(zkpokPkg, pr.s.typ)
	o := c.e.newObj("proof", nt)
	o.input = true
	c.e.globalMem[o] = content
	args := []Val{VPtr{o: o}, c.fct}
	for i := 0; i < pr.s.comms; i++ {
		s := c.comm(fmt.Sprintf("c%d", i+1))
		stmt = append(stmt, s)
		args = append(args, s.v)
	}
	if len(args) != len(pr.ver.Params) {
		c.r.fail("anchor", cons, pr.verPos, "the verification takes %d arguments, %d are expected", len(pr.ver.Params), len(args))
		return
	}
	v := c.e.callTop(c.st, "verify", pr.ver, args...)
	c.noPanic("verifies", cons)
	if v == nil {
		c.r.fail("verifies", cons, pr.verPos, "the verification cannot return")
		return
	}
	acc = not(c.e.rejected(c.st, v, pr.ver.Signature.Results().At(0).Type()))
	return stmt, x, z, acc, true
}

func checkC08(p *Program, r *Rep) {
	c := p.newEG(r)
	if c == nil {
		return
	}
	for _, s := range sigmas() {
		s := s
		r.guard(s.name, func() {
			c.fresh(bTrue)
			pr := c.prove(s, "complete")
			if pr == nil {
				return
			}
			cons := "zkpok." + s.typ
			// an honest proof is accepted for its statement
			pcNew := c.st.pc
			v := c.e.callTop(c.st, "verify", pr.ver, append([]Val{pr.proof}, pr.args...)...)
			c.noPanic("complete", cons+".Verify")
			if v == nil {
				r.fail("complete", cons+".Verify", pr.verPos, "the verification cannot return")
			} else {
				acc := not(c.e.rejected(c.st, v, pr.ver.Signature.Results().At(0).Type()))
				r.ob(c.always(acc) && implies(pcNew, c.st.pc), "complete", cons+".Verify", pr.verPos, "an honest proof %s is accepted only if %s", c.showProof(pr.tmpl), simplify(c.st.pc, acc))
			}
			// only proofs that satisfy the equations are accepted
			c.fresh(bTrue)
			stmt, x, z, acc, ok := c.verifyArbitrary(pr)
			if !ok {
				return
			}
			var es []*T
			for _, ch := range c.challenges {
				dup := false
				for _, e := range es {
					dup = dup || e == ch.e
				}
				if !dup {
					es = append(es, ch.e)
				}
			}
			if !r.ob(len(es) == 1, "sound", cons+".Verify", pr.verPos, "the verification computes %d challenges, one is expected", len(es)) {
				return
			}
			good := and(c.st.pc, acc)
			r.ob(feasible(good), "sound", cons+".Verify accepts something", pr.verPos, "no proof is accepted")
			for i, q := range s.eqs(c, stmt, x, z, es[0]) {
				old := curFacts
				curFacts = good.Facts()
				n := simplify(good, eq0(q))
				curFacts = old
				r.ob(implies(good, n), "sound", fmt.Sprintf("%s.Verify equation %d", cons, i+1), pr.verPos, "a proof may be accepted although the verification equation %s = 0 of component %d does not hold; accepted if %s", q, i+1, acc)
			}
		})
	}
}

// parts splits a byte string into its segments.
func parts(t *T) []*T {
	if t.op == "cat" {
		return t.args
	}
	if t == emptyB {
		return nil
	}
	return []*T{t}
}

// selfDelimiting tells whether a reader of the segment knows where it ends.
func selfDelimiting(t *T) bool {
	if t.op == "enc" || t.op == "lit" {
		return true
	}
	if _, ok := isConst(lenB(t)); ok {
		return true
	}
	return false
}

func (r *Rep) bindsAll(cons, pos string, msg *T, pts []*T, names []string) {
	var have []*T
	for _, s := range parts(msg) {
		r.ob(selfDelimiting(s), "unambiguous", cons, pos, "the segment %s of the hash input has no determined end", s)
		if s.op == "enc" {
			have = append(have, s.args[0])
		}
	}
	for i, q := range pts {
		found := false
		for _, h := range have {
			if h == q {
				found = true
			}
		}
		r.ob(found, "binds", cons+" "+names[i], pos, "%s (%s) is not part of the hash input %s", names[i], q, msg)
	}
}

func checkC09(p *Program, r *Rep) {
	c := p.newEG(r)
	if c != nil {
		for _, s := range sigmas() {
			s := s
			r.guard(s.name, func() {
				c.fresh(bTrue)
				pr := c.prove(s, "binds")
				if pr == nil {
					return
				}
				cons := "zkpok." + s.typ
				var pts []*T
				var names []string
				collect := func(stmt []egVal, a, b *T) {
					pts, names = nil, nil
					for i, x := range stmt {
						pts = append(pts, x.a, x.b)
						names = append(names, fmt.Sprintf("commitment %d, component 1", i+1), fmt.Sprintf("commitment %d, component 2", i+1))
					}
					pts = append(pts, a, b)
					names = append(names, "announcement, component 1", "announcement, component 2")
				}
				r.ob(len(pr.challenges) > 0, "binds", cons+" prover computes a challenge", pr.newPos, "no challenge is computed")
				collect(pr.stmt, pr.ann[0], pr.ann[1])
				used := map[*T]bool{}
				for _, ch := range pr.challenges {
					r.bindsAll(cons+" prover", ch.pos, ch.msg, pts, names)
					used[ch.e] = true
				}
				// the responses use that challenge
				for k, t := range pr.resp {
					okc := false
					for e := range used {
						okc = okc || usesLin(t, e)
					}
					r.ob(okc, "binds", fmt.Sprintf("%s prover response %d", cons, k), pr.newPos, "the response %s does not depend on the challenge", t)
				}
				r.counts["hash inputs"] += len(pr.challenges)
				prover := pr.challenges
				c.fresh(bTrue)
				// the verifier, on the honest statement and announcement, recomputes the same challenge
				stmt, x, _, _, ok := c.verifyArbitrary(pr)
				if !ok {
					return
				}
				r.ob(len(c.challenges) > 0, "binds", cons+" verifier computes a challenge", pr.verPos, "no challenge is computed")
				m := map[*T]*T{}
				collect(stmt, x.a, x.b)
				vpts, vnames := pts, names
				collect(pr.stmt, pr.ann[0], pr.ann[1])
				for i := range vpts {
					m[vpts[i]] = pts[i]
				}
				for _, ch := range c.challenges {
					r.bindsAll(cons+" verifier", ch.pos, ch.msg, vpts, vnames)
					same := false
					for _, q := range prover {
						same = same || substT(ch.msg, m) == q.msg
					}
					r.ob(same, "agree", cons, ch.pos, "the verifier hashes %s, which differs from what the prover hashes", ch.msg)
				}
				r.counts["hash inputs"] += len(c.challenges)
			})
		}
	}
	// the hash itself
	fn := p.fn(hashPkg, "HashToBigInt")
	if fn == nil {
		r.fail("anchor", "pkg.HashToBigInt", "", "the hash was not found")
		return
	}
	r.guard("pkg.HashToBigInt", func() {
		e := newEng(p)
		e.setup()
		st := e.newState()
		pos := p.pos(fn.Pos())
		arg := e.symContent("msg", fn.Params[0].Type(), nil)
		msg, _ := e.sliceBytes(st, arg, 0)
		v := e.callTop(st, "hash", fn, arg)
		for _, ev := range e.panics() {
			// a stream of the key derivation function does not end before 255 blocks
			r.fail("hash", "pkg.HashToBigInt", e.where(ev), "the hash can crash: %s under %s", ev.name, ev.g)
		}
		r.engine(e, "pkg.HashToBigInt")
		if v == nil {
			r.fail("hash", "pkg.HashToBigInt", pos, "the hash cannot return")
			return
		}
		n := 0
		for _, a := range e.alts(v, st.pc) {
			pv, ok := a.v.(VPtr)
			if !ok {
				r.fail("hash", "pkg.HashToBigInt", pos, "the result is %s", describe(a.v))
				continue
			}
			n++
			r.ob(!pv.o.global && !pv.o.input, "hash", "pkg.HashToBigInt result is not shared", pos, "the result is shared memory: %s", pv.o.name)
			t := VInt{num(0)}
			if i, ok := e.load(st, pv, 0).(VInt); ok {
				t = i
			}
			m := t.t
			okMod := false
			if m.op == "mod" {
				if k, ok := isConst(m.args[1]); ok && k.Cmp(curveN) == 0 {
					okMod = true
				}
			}
			r.ob(okMod, "hash", "pkg.HashToBigInt reduces modulo the order", pos, "the result %s is not a residue modulo the order of the group", m)
			if !okMod {
				continue
			}
			src := m.args[0]
			bs := fullBytes(src)
			r.ob(bs != nil, "hash", "pkg.HashToBigInt uses the expansion", pos, "the result is the residue of %s, not of an expanded hash", src)
			if bs == nil {
				continue
			}
			ln := lenB(bs)
			lo, _ := bounds(ln)
			r.ob(lo != nil && lo.Cmp(big.NewInt(48)) >= 0, "hash", "pkg.HashToBigInt expands to 48 bytes", pos, "only %s bytes are reduced, the result is biased", ln)
			r.ob(absorbs(bs, msg), "hash", "pkg.HashToBigInt reads all of its input", pos, "the hash does not read all of its input: %s", bs)
			r.ob(distinctKdf(bs), "hash", "pkg.HashToBigInt uses the output of one expansion", pos, "the reduced bytes are %s", bs)
		}
		r.ob(n > 0, "coverage", "pkg.HashToBigInt", pos, "no result")
	})
}

// fullBytes is the byte string whose big-endian value is t.
func fullBytes(t *T) *T {
	if t.op == "int" && t.name == "" && len(t.args) == 1 && t.args[0].sort == 'b' {
		return t.args[0]
	}
	if t.op == "frombytes" && len(t.args) == 1 {
		return t.args[0]
	}
	if ms := toMon(t); len(ms) == 1 && len(ms[0].f) == 1 && ms[0].f[0].e == 1 && ms[0].c.Cmp(big1) == 0 && ms[0].f[0].a != t {
		return fullBytes(ms[0].f[0].a)
	}
	for _, a := range t.args {
		if a.sort == 'b' && strings.Contains(t.op, "from") {
			return a
		}
	}
	return nil
}

// absorbs tells whether every part of b is a hash or expansion of the whole message.
func absorbs(b, msg *T) bool {
	for _, s := range parts(b) {
		if s.op == "kdf" || s.op == "hash" || s.op == "sha" {
			okp := false
			for _, a := range s.args {
				if a.sort == 'b' && (containsWhole(a, msg) || absorbs(a, msg)) {
					okp = true
				}
			}
			if !okp {
				return false
			}
			continue
		}
		return false
	}
	return len(parts(b)) > 0
}

func containsWhole(a, msg *T) bool {
	for _, s := range parts(a) {
		if s == msg {
			return true
		}
	}
	return false
}

// distinctKdf tells whether no part of the output is used twice.
func distinctKdf(b *T) bool {
	ps := parts(b)
	for i := range ps {
		for j := range ps[:i] {
			if ps[i] == ps[j] {
				return false
			}
		}
	}
	return true
}

// ---- nonces of proofs (part of C10)

func (c *egCtx) noncesOf(s *sigma) {
	r := c.r
	c.fresh(bTrue)
	pr := c.prove(s, "nonce")
	if pr == nil {
		return
	}
	cons := "zkpok.New" + s.typ
	draws := c.draws(pr.events, cons, c.st.pc)
	// each response is masked by its own nonce
	nonce := make([]*T, len(pr.resp))
	for k, t := range pr.resp {
		base := t
		if t.op == "mod" {
			base = t.args[0]
		}
		var found []*T
		for d := range draws {
			co := coefOf(base, []fac{{d, 1}})
			if co != nil && co.CmpAbs(big1) == 0 {
				found = append(found, d)
			} else if usesLin(t, d) || (co != nil && co.Sign() != 0) {
				r.fail("mask", cons, pr.newPos, "the nonce %s is not a plain mask in the response %s", d, t)
			}
		}
		if r.ob(len(found) == 1, "mask", fmt.Sprintf("%s response %d", cons, k), pr.newPos, "the response %s is masked by %d nonces, one is expected", t, len(found)) {
			nonce[k] = found[0]
			n := 0
			for _, m := range toMon(base) {
				for _, f := range m.f {
					if f.a == found[0] {
						n++
					}
				}
			}
			r.ob(n == 1, "mask", fmt.Sprintf("%s response %d uses its nonce once", cons, k), pr.newPos, "the nonce appears %d times in %s", n, t)
			if t.op == "mod" {
				mk, ok := isConst(t.args[1])
				r.ob(ok && mk.Cmp(curveN) == 0, "mask", fmt.Sprintf("%s response %d is reduced modulo the order", cons, k), pr.newPos, "the response is reduced modulo %s", t.args[1])
			} else {
				r.fail("mask", fmt.Sprintf("%s response %d is reduced modulo the order", cons, k), pr.newPos, "the response %s is not reduced modulo the order, so its size reveals the secret", t)
			}
		}
	}
	all := true
	for _, n := range nonce {
		all = all && n != nil
	}
	if all {
		r.ob(len(nonce) < 2 || nonce[0] != nonce[1], "fresh", cons+" nonces are separate draws", pr.newPos, "both responses are masked by the same draw %s", nonce[0])
		sg := func(k int) *T {
			base := pr.resp[k]
			if base.op == "mod" {
				base = base.args[0]
			}
			return scale(coefOf(base, []fac{{nonce[k], 1}}), nonce[k])
		}
		var sgs []*T
		for k := range nonce {
			sgs = append(sgs, sg(k))
		}
		a, b := s.announce(c, pr.stmt, sgs)
		r.ob(redN(sub(a, pr.ann[0])) == num(0) && redN(sub(b, pr.ann[1])) == num(0), "announcement", cons, pr.newPos, "the announcement (%s, %s) is not made of the nonces of the responses", pr.ann[0], pr.ann[1])
	}
	// a failed draw is an error
	for _, ev := range pr.events {
		if ev.kind == "draw" {
			r.ob(implies(and(c.st.pc, ev.g), ev.ok), "failed-draw", cons, c.e.where(ev), "the prover succeeds although this draw may have failed")
		}
	}
}

// draws checks that the drawn numbers come from the system's randomness below the order, and returns them.
func (c *egCtx) draws(evs []*Event, cons string, pc *Node) map[*T]bool {
	out := map[*T]bool{}
	for _, ev := range evs {
		if ev.kind != "draw" || !feasible(ev.g) {
			continue
		}
		c.r.drawOK(c.e, ev, cons, curveN)
		out[ev.ts[0]] = true
	}
	c.r.counts["draws"] += len(out)
	c.r.ob(len(out) > 0, "coverage", cons+" draws nonces", "", "no draw of randomness was found")
	return out
}

func (r *Rep) drawOK(e *Eng, ev *Event, cons string, bound *big.Int) {
	i, ok := ev.vals[0].(VIface)
	r.ob(ok && i.typ == randType, "source", cons, e.where(ev), "the draw reads from %s, not from the system's cryptographic randomness", describe(ev.vals[0]))
	if ev.name != "int" {
		return
	}
	k, okc := isConst(ev.ts[1])
	r.ob(okc && k.Cmp(bound) == 0, "uniform", cons, e.where(ev), "the draw is uniform below %s, not below the order of the group", ev.ts[1])
}

// ---- C25

type verifier struct {
	name string
	fn   *ssa.Function
	t    *types.Named
}

func (p *Program) verifiers() []verifier {
	var out []verifier
	for _, path := range p.order {
		tp := p.pkgs[path]
		if tp == nil {
			continue
		}
		for _, n := range tp.Scope().Names() {
			tn, ok := tp.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			ms := p.prog.MethodSets.MethodSet(types.NewPointer(nt))
			for i := 0; i < ms.Len(); i++ {
				f := ms.At(i).Obj().(*types.Func)
				if !strings.EqualFold(f.Name(), "verify") || len(ms.At(i).Index()) > 1 {
					continue
				}
				sig := f.Type().(*types.Signature)
				if sig.Results().Len() != 1 {
					continue
				}
				rt := sig.Results().At(0).Type()
				if namedPath(rt) != "error" && rt.String() != "bool" {
					continue
				}
				out = append(out, verifier{path[strings.LastIndex(path, "/")+1:] + "." + n, p.prog.MethodValue(ms.At(i)), nt})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func checkC25(p *Program, r *Rep) {
	vs := p.verifiers()
	for _, v := range vs {
		v := v
		cons := v.name + ".Verify"
		pos := p.pos(v.fn.Pos())
		r.guard(cons, func() {
			e := newEng(p)
			e.setup()
			st := e.newState()
			var args []Val
			for i, prm := range v.fn.Params {
				name := fmt.Sprintf("stmt%d", i)
				if i == 0 {
					name = "proof"
				}
				args = append(args, e.symContent(name, prm.Type(), nil))
			}
			res := e.callTop(st, "verify", v.fn, args...)
			r.engine(e, cons)
			if res == nil {
				r.fail("can-reject", cons, pos, "the verification cannot return")
				return
			}
			rej := e.rejected(st, res, v.fn.Signature.Results().At(0).Type())
			bad := and(st.pc, rej)
			if !r.ob(bad != bFalse && feasible(bad), "can-reject", cons, pos, "the verification accepts everything") {
				return
			}
			good := and(st.pc, not(rej))
			r.ob(good != bFalse && feasible(good), "can-accept", cons, pos, "the verification rejects everything")
			onProof, onStmt := false, len(v.fn.Params) < 2
			for _, a := range rej.support() {
				onProof = onProof || usesSym(a, "proof")
				onStmt = onStmt || usesSym(a, "stmt")
			}
			r.ob(onProof, "depends-on-proof", cons, pos, "the verdict %s does not depend on the proof", rej)
			r.ob(onStmt, "depends-on-statement", cons, pos, "the verdict %s does not depend on the statement", rej)
		})
	}
	r.counts["verifications"] = len(vs)
	r.ob(len(vs) >= 2, "coverage", "verifications", "", "only %d verification operations were found", len(vs))
}

// usesSym tells whether a symbol whose name begins with the prefix occurs in the term.
func usesSym(t *T, prefix string) bool {
	found := false
	seen := map[*T]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if t == nil || found || seen[t] {
			return
		}
		seen[t] = true
		if strings.HasPrefix(t.name, prefix) {
			found = true
			return
		}
		for _, m := range t.mon {
			for _, f := range m.f {
				walk(f.a)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
		if t.nd != nil {
			for _, s := range t.nd.support() {
				walk(s)
			}
		}
	}
	walk(t)
	return found
}
