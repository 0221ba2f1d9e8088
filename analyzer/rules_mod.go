package main

// C22: the moduli of the scalar arithmetic.

import (
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modRec is one modulus that an interpretation met.
type modRec struct {
	pos, fn, pkg string
	m            *T
	draw         bool
}

// modulus notes the modulus of a reduction, inversion or draw.
func (e *Eng) modulus(st *State, site *Site, m *T) { e.noteMod(st, site, m, false) }

func (e *Eng) noteMod(st *State, site *Site, m *T, draw bool) {
	if e.p.mods == nil || e.trialDepth > 0 || e.inInit || st.pc == bFalse || !feasible(st.pc) {
		return
	}
	r := modRec{pos: e.p.pos(site.pos), m: m, draw: draw}
	if site.fr != nil && site.fr.fn != nil {
		r.fn = site.fr.fn.String()
		if pk := site.fr.fn.Package(); pk != nil {
			r.pkg = pk.Pkg.Path()
		}
	}
	e.p.mods[r] = true
}

func checkC22(p *Program, r *Rep) {
	p.mods = map[modRec]bool{}
	defer func() { p.mods = nil }()
	r.guard("Group.Order", func() {
		c := p.newCurve(r)
		if c == nil {
			return
		}
		c.fresh(bTrue)
		pos := c.methodPos("Order")
		v := c.op(r, "Order")
		r.engine(c.e, "Group.Order")
		n := 0
		for _, a := range c.e.alts(v, c.st.pc) {
			n++
			i, ok := VInt{}, false
			if pv, isP := a.v.(VPtr); isP {
				i, ok = c.e.load(c.st, pv, 0).(VInt)
			}
			if !ok {
				r.fail("order", "Group.Order", pos, "the result is %s", describe(a.v))
				continue
			}
			k, okc := isConst(i.t)
			r.ob(okc && k.Cmp(curveN) == 0, "order", "Group.Order", pos, "the result is %s, which is not the order of the group", i.t)
		}
		r.ob(n > 0, "order", "Group.Order", pos, "there is no result")
	})
	// scalars that reach the library; the proofs; the hash; the operations of committees
	checkC02(p, r)
	if c := p.newEG(r); c != nil {
		for _, s := range sigmas() {
			s := s
			r.guard(s.name, func() {
				c.fresh(bTrue)
				pr := c.prove(s, "order")
				if pr == nil {
					return
				}
				c.fresh(bTrue)
				c.verifyArbitrary(pr)
			})
		}
	}
	r.guard("pkg.HashToBigInt", func() { r.hashReduces(p) })
	protocolRuns(p, r)

	n1 := new(big.Int).Sub(curveN, big1)
	var recs []modRec
	sites := map[string]bool{}
	for m := range p.mods {
		recs = append(recs, m)
	}
	sort.Slice(recs, func(i, j int) bool {
		a, b := recs[i], recs[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		return a.m.String() < b.m.String()
	})
	for _, m := range recs {
		sites[m.pos] = true
		k, okc := isConst(m.m)
		what := "modulus"
		ok := okc && k.CmpAbs(curveN) == 0
		if m.draw {
			what = "bound of a draw"
			// N - 1 is the bound of draws of non-zero scalars
			ok = okc && (k.Cmp(curveN) == 0 || k.Cmp(n1) == 0)
		} else if okc && strings.HasSuffix(m.pkg, "/pkg/curve") && k.CmpAbs(curveP) == 0 {
			ok = true // coordinates
		} else if okc && k.BitLen() <= 64 && k.Sign() != 0 {
			ok = true // words, indices and parities, not scalars
		}
		r.ob(ok, "modulus", m.fn, m.pos, "the %s is %s, not the order of the group", what, m.m)
	}
	r.counts["reductions, inversions and draws"] += len(sites)
	r.ob(len(sites) >= 10, "coverage", "reductions", "", "only %d reductions, inversions and draws were found", len(sites))
	// how many of those in the source were met
	total := 0
	for _, s := range p.modSites() {
		total++
		if !sites[s] {
			r.counts["reductions in the source that no run reaches"]++
		}
	}
	r.counts["reductions in the source"] += total
}

// hashReduces checks that the challenge is a residue modulo the order.
func (r *Rep) hashReduces(p *Program) {
	fn := p.fn(hashPkg, "HashToBigInt")
	if fn == nil {
		r.fail("anchor", "pkg.HashToBigInt", "", "the hash was not found")
		return
	}
	e := newEng(p)
	e.setup()
	st := e.newState()
	v := e.callTop(st, "hash", fn, e.symContent("msg", fn.Params[0].Type(), nil))
	r.engine(e, "pkg.HashToBigInt")
	n := 0
	for _, a := range e.alts(v, st.pc) {
		t := num(-1)
		if pv, ok := a.v.(VPtr); ok {
			if i, ok := e.load(st, pv, 0).(VInt); ok {
				t = i.t
			}
		}
		n++
		lo, hi := bounds(t)
		r.ob(lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(curveN) < 0, "reduced", "pkg.HashToBigInt", p.pos(fn.Pos()), "the challenge %s is not a residue modulo the order", t)
	}
	r.ob(n > 0, "coverage", "pkg.HashToBigInt", p.pos(fn.Pos()), "no result")
}

// modSites lists the reductions, inversions and draws of the source.
func (p *Program) modSites() (out []string) {
	seen := map[string]bool{}
	for _, fn := range p.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := c.Common().StaticCallee()
				if callee == nil {
					continue
				}
				switch callee.String() {
				case "(*math/big.Int).Mod", "(*math/big.Int).Rem", "(*math/big.Int).DivMod", "(*math/big.Int).QuoRem", "(*math/big.Int).ModInverse", "crypto/rand.Int":
				case "(*math/big.Int).Exp":
					if k, isC := c.Common().Args[3].(*ssa.Const); isC && k.IsNil() {
						continue
					}
				default:
					continue
				}
				s := p.pos(in.Pos())
				if !seen[s] {
					seen[s] = true
					out = append(out, s)
				}
			}
		}
	}
	return out
}
