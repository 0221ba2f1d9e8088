package main

// C04: operations leave their inputs and shared constants unchanged.

import (
	"fmt"
	"go/types"
	"strings"
)

func checkC04(p *Program, r *Rep) {
	checkC04Curve(p, r)
	checkC04Crypto(p, r)
}

func checkC04Curve(p *Program, r *Rep) {
	c := p.newCurve(r)
	if c == nil {
		return
	}
	const rule = "inputs-unchanged"
	ops := 0
	done := func(cons, pos string, v Val) {
		ops++
		r.engine(c.e, cons)
		if v == nil {
			return
		}
		c.unchanged(r, rule, cons, pos)
	}
	for _, cs := range c.cases() {
		for _, op := range []string{"Add", "Equal"} {
			a, b, _, _, ok := c.operands(r, cs)
			if !ok {
				r.fail("generator", "curve point", "", "no representation of a point")
				return
			}
			cons := "Group." + op + " of " + cs.name
			r.guard(cons, func() { done(cons, c.methodPos(op), c.op(r, op, a, b)) })
		}
	}
	A := sym('p', "A")
	for _, neutral := range []bool{false, true} {
		pc, what := not(eq0(A)), "an element"
		if neutral {
			pc, what = bTrue, "neutral"
		}
		arg := func() Val {
			if neutral {
				return c.neu
			}
			v, _ := c.point("a", A)
			return v
		}
		for _, op := range []string{"Neg", "ScalarMult", "Encode"} {
			c.fresh(pc)
			cons := "Group." + op + " of " + what
			r.guard(cons, func() {
				args := []Val{arg()}
				switch op {
				case "ScalarMult":
					k, _ := c.intPtr("k")
					args = append(args, k)
				case "Encode":
					args = append(args, c.e.stream("w", false, nil))
				}
				done(cons, c.methodPos(op), c.op(r, op, args...))
			})
		}
	}
	for _, op := range []string{"ScalarBaseMult", "Decode", "Neutral", "Gen", "Order"} {
		c.fresh(bTrue)
		cons := "Group." + op
		r.guard(cons, func() {
			var args []Val
			switch op {
			case "ScalarBaseMult":
				k, _ := c.intPtr("k")
				args = append(args, k)
			case "Decode":
				args = append(args, c.e.stream("r", false, nil))
			}
			done(cons, c.methodPos(op), c.op(r, op, args...))
		})
	}
	r.counts["group operations"] = ops
}

func checkC04Crypto(p *Program, r *Rep) {
	c := p.newEG(r)
	if c == nil {
		return
	}
	const rule = "inputs-unchanged"
	ops := 0
	run := func(cons, pos string, recv *egVal, f func() (Val, error)) {
		r.guard(cons, func() {
			v, err := f()
			if err != nil {
				r.fail("anchor", cons, pos, "%v", err)
				return
			}
			r.engine(c.e, cons)
			if v == nil {
				return
			}
			ops++
			var ex []*Obj
			if recv != nil {
				ex = append(ex, recv.v.o)
			}
			checkUnchanged(r, c.e, c.st, rule, cons, pos, ex...)
		})
		c.fresh(bTrue)
	}
	c.fresh(bTrue)
	for _, same := range []bool{false, true} {
		suffix := ""
		if same {
			suffix = " with equal arguments"
		}
		v, rr := c.intv("v"), c.intv("r")
		if same {
			rr = v
		}
		run("ElGamalFactory.Create"+suffix, c.pos("ElGamalFactory", "Create"), nil, func() (Val, error) { return c.m(c.fct, "Create", v.v, rr.v) })
		a, b, x := c.comm("a"), c.comm("b"), c.comm("x")
		if same {
			b = a
		}
		run("ElGamal.Compose"+suffix, c.pos("ElGamal", "Compose"), &x, func() (Val, error) { return c.m(x.v, "Compose", a.v, b.v) })
		run("ElGamal.Equal"+suffix, c.pos("ElGamal", "Equal"), nil, func() (Val, error) { return c.m(x.v, "Equal", a.v, b.v) })
	}
	a, x, n := c.comm("a"), c.comm("x"), c.intv("n")
	run("ElGamalFactory.Neutral", c.pos("ElGamalFactory", "Neutral"), nil, func() (Val, error) { return c.m(c.fct, "Neutral") })
	run("ElGamalFactory.Neutral, then composing into the result", c.pos("ElGamalFactory", "Neutral"), nil, func() (Val, error) {
		d, err := c.m(c.fct, "Neutral")
		if err != nil || d == nil {
			return d, err
		}
		return c.m(d, "Compose", a.v, a.v)
	})
	run("ElGamalFactory.Create, then composing into the result", c.pos("ElGamalFactory", "Create"), nil, func() (Val, error) {
		d, err := c.m(c.fct, "Create", n.v, n.v)
		if err != nil || d == nil {
			return d, err
		}
		return c.m(d, "Compose", a.v, a.v)
	})
	run("ElGamalFactory.IsNeutral", c.pos("ElGamalFactory", "IsNeutral"), nil, func() (Val, error) { return c.m(c.fct, "IsNeutral", a.v) })
	run("ElGamal.Exp", c.pos("ElGamal", "Exp"), &x, func() (Val, error) { return c.m(x.v, "Exp", a.v, n.v) })
	run("ElGamal.Inverse", c.pos("ElGamal", "Inverse"), &x, func() (Val, error) { return c.m(x.v, "Inverse", a.v) })
	run("ElGamal.Encode", c.pos("ElGamal", "Encode"), nil, func() (Val, error) { return c.m(a.v, "Encode", c.e.stream("w", false, nil)) })
	run("ElGamal.Decode", c.pos("ElGamal", "Decode"), &x, func() (Val, error) { return c.m(x.v, "Decode", c.e.stream("r", false, nil)) })
	// a commitment built from others keeps its value when those are changed later
	for _, op := range []string{"Compose", "Exp", "Inverse"} {
		op := op
		c.fresh(bTrue)
		cons := "ElGamal." + op + ", then changing the result"
		y := c.comm("y")
		run(cons, c.pos("ElGamal", op), &x, func() (Val, error) {
			args := []Val{a.v}
			switch op {
			case "Compose":
				args = append(args, y.v)
			case "Exp":
				args = append(args, n.v)
			}
			d, err := c.m(x.v, op, args...)
			if err != nil || d == nil {
				return d, err
			}
			return c.m(d, "Inverse", d)
		})
	}
	for _, s := range sigmas() {
		s := s
		c.fresh(bTrue)
		cons := "zkpok.New" + s.typ
		r.guard(cons, func() {
			pr := c.prove(s, rule)
			if pr == nil {
				return
			}
			ops++
			checkUnchanged(r, c.e, c.st, rule, cons, pr.newPos)
			c.share()
			v := c.e.callTop(c.st, "verify", pr.ver, append([]Val{pr.proof}, pr.args...)...)
			if v != nil {
				ops++
				checkUnchanged(r, c.e, c.st, rule, "zkpok."+s.typ+".Verify", pr.verPos)
			}
			c.share()
			enc := c.e.methodOf(types.NewPointer(pr.proof.o.typ), "Encode")
			if enc != nil {
				v := c.e.callTop(c.st, "encode", enc, pr.proof, c.e.stream("w", false, nil))
				if v != nil {
					ops++
					checkUnchanged(r, c.e, c.st, rule, "zkpok."+s.typ+".Encode", p.pos(enc.Pos()))
				}
			}
		})
	}
	// every exported function of the hash package
	tp := p.pkgs[modPath+"/"+hashPkg]
	if tp == nil {
		return
	}
	for _, name := range tp.Scope().Names() {
		f, ok := tp.Scope().Lookup(name).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		fn := p.prog.FuncValue(f)
		cons := "pkg." + name
		r.guard(cons, func() {
			e := newEng(p)
			e.setup()
			st := e.newState()
			args := e.symArgs(fn)
			for _, a := range args {
				e.touch(st, a, 0)
			}
			v := e.callTop(st, "hash", fn, args...)
			r.engine(e, cons)
			if v == nil {
				return
			}
			ops++
			checkUnchanged(r, e, st, rule, cons, p.pos(fn.Pos()))
			for _, a := range e.alts(v, st.pc) {
				if pv, ok := a.v.(VPtr); ok {
					r.ob(!pv.o.global && !pv.o.input, "fresh", cons, p.pos(fn.Pos()), "the result is shared memory: %s", pv.o.name)
				}
			}
		})
	}
	r.counts["operations"] = ops
	r.ob(ops > 20, "coverage", "operations", "", "only %d operations were analysed", ops)
}

var _ = fmt.Sprint
var _ = strings.Join
