package main

// The signing protocol, run by parties that all follow it.

import (
	"fmt"
	"go/types"
	"strings"
)

// factoryBase finds the base of the commitment factory reachable from a value.
func (pt *party) factoryBase(v Val, seen map[*Obj]bool) *T {
	e := pt.e
	switch x := pt.only(pt.st, v).(type) {
	case VPtr:
		if seen[x.o] {
			return nil
		}
		seen[x.o] = true
		c := e.load(pt.st, x, 0)
		if strings.HasSuffix(namedPath(x.o.typ), ".ElGamalFactory") {
			if s, ok := pt.only(pt.st, c).(VStruct); ok {
				for _, f := range e.leavesOf(pt.st, s, nil) {
					if p, ok := pt.only(pt.st, f.v).(VPoint); ok && p.t != ptG {
						return p.t
					}
				}
			}
			return nil
		}
		return pt.factoryBase(c, seen)
	case VStruct:
		for _, f := range x.f {
			if b := pt.factoryBase(f, seen); b != nil {
				return b
			}
		}
	}
	return nil
}

// drawsIn collects the draws a number depends on.
func drawsIn(t *T, out map[*T]bool) {
	for _, a := range t.args {
		drawsIn(a, out)
	}
	for _, m := range t.mon {
		for _, f := range m.f {
			drawsIn(f.a, out)
		}
	}
	if t.op == "sym" && strings.HasPrefix(t.name, "random") {
		out[t] = true
	}
}

// signing runs the whole protocol.
func signing(p *Program, r *Rep, n, t int) {
	w := p.newWorld(r, n)
	w.report = w.for_("C12")
	r.guard(fmt.Sprintf("signing committee of %d", n), func() { w.signing(t) })
}

func (w *world) signing(t int) {
	const ci, cp, cs = "tecdsa.Init", "tecdsa.Presign", "tecdsa.Sign"
	if !w.op(ci, func(pt *party) {
		pt.keep["p"] = pt.call(ci, tecdsaPkg, "Init", w.id(pt), w.size(), pt.server)[0]
	}) {
		return
	}
	// the base of the commitments
	w.h = nil
	for _, pt := range w.ps {
		b := pt.factoryBase(pt.keep["p"], map[*Obj]bool{})
		if b == nil {
			w.r.fail("commitment-base", ci, pt.opPos, "party %d has no commitment factory", pt.id)
			return
		}
		if w.h == nil {
			w.h = b
			co := onBases(b)[ptG]
			for _, q := range w.ps {
				has := false
				if co != nil {
					for _, m := range toMon(co) {
						if len(m.f) == 1 && strings.HasSuffix(m.f[0].a.name, q.e.tag) {
							has = true
						}
					}
				}
				w.ob("C15 C10", has, "commitment-base", ci, pt.opPos, "party %d has no part in the base of the commitments %s", q.id, b)
			}
			keys := map[*T]bool{}
			for _, x := range pt.view(pt.keep["p"]).pts {
				keys[x] = true
			}
			delete(keys, ptG)
			delete(keys, b)
			other := false
			var ks []*T
			for x := range keys {
				ks = append(ks, x)
			}
			sortTerms(ks)
			for _, x := range ks {
				var sp space
				c := onBases(x)[ptG]
				if c == nil || !sp.add(toForm(co)) {
					continue
				}
				other = other || sp.add(toForm(c))
			}
			w.ob("C15 C10", other, "separate-keys", ci, pt.opPos, "the protocol has no public key other than the base of its commitments %s", b)
		}
		w.ob("C15", b == w.h, "commitment-base", ci, pt.opPos, "the base of the commitments of party %d is %s, that of party 0 is %s", pt.id, b, w.h)
	}
	for _, pt := range w.ps {
		if q, ok := pt.keep["p"].(VPtr); ok {
			pt.mutable = []*Obj{q.o}
		}
	}
	msg := sym('i', "message")
	sign := func() (res []Val, failed bool) {
		res = make([]Val, w.n)
		errs := 0
		if !w.op(cs, func(pt *party) {
			q, _ := pt.keep["p"].(VPtr)
			fn := pt.e.methodOf(ptrTypeOf(q.o), "Sign")
			if fn == nil {
				w.r.fail("anchor", cs, "", "Sign was not found")
				panic(abortErr{})
			}
			pt.opPos = w.p.pos(fn.Pos())
			v := pt.e.callTop(pt.st, "p:Sign", fn, q, pt.number("message", msg))
			if v == nil {
				w.r.fail("honest-run", cs, pt.opPos, "Sign cannot finish%s", pt.trouble())
				panic(abortErr{})
			}
			vs, err := results(fn.Signature, pt.only(pt.st, v))
			ok := pt.e.isNilV(pt.st, err)
			// tau is invertible unless it is zero
			if and(pt.st.pc, ok) == bFalse || !feasible(and(pt.st.pc, ok)) {
				errs++
				return
			}
			pt.st.pc = and(pt.st.pc, ok)
			res[pt.id] = pt.only(pt.st, vs[0])
		}) {
			return nil, true
		}
		return res, errs > 0
	}
	// empty store
	_, failed := sign()
	rounds := 0
	for _, pt := range w.ps {
		rounds += len(pt.last)
	}
	if w.stopped {
		return
	}
	w.ob("C17", failed && rounds == 0, "empty-store", cs, w.ps[0].opPos, "Sign does not fail at once although there are no presignatures")
	// two presignatures
	var stores [][][]*secret // by presignature, by part, by party
	known := map[string]bool{}
	for k := 0; k < 2; k++ {
		w.allowReshare()
		if !w.op(cp, func(pt *party) {
			pt.do(cp, pt.keep["p"], "Presign", VInt{num(int64(t))})
		}) {
			return
		}
		for _, pt := range w.ps {
			pt.mayShow, pt.shown = nil, nil
		}
		parts := w.presignParts(cp, known)
		if parts == nil {
			return
		}
		stores = append(stores, parts)
		for _, ss := range parts {
			var want *T
			for _, s := range subsets(w.n, t) {
				got := lagrangeAt0(s, ss)
				if want == nil {
					want = got
				}
				w.ob("C24", sameMod(got, want), "shares-interpolate", cp, w.ps[0].opPos, "the shares of parties %v in a part of the presignature interpolate to %s, others to %s", s, got, want)
			}
			for _, q := range w.ps {
				own := false
				for _, m := range toMon(want) {
					own = own || len(m.f) == 1 && strings.HasSuffix(m.f[0].a.name, q.e.tag)
				}
				w.ob("C10", own, "share-is-drawn", cp, q.opPos, "party %d has no part in a value of the presignature (%s)", q.id, want)
			}
		}
	}
	for _, pt := range w.ps {
		pt.keep["p2"] = pt.keep["p"]
	}
	if w.onlyPrepare {
		w.hist["presign parts"] = make([][]*roundRec, len(stores[0]))
		return
	}
	// every signature uses one presignature and drops it first
	for k := 0; k < 2; k++ {
		for _, pt := range w.ps {
			pt := pt
			pt.shown = nil
			pt.mayShow = func(rr *roundRec, to int, x *T) bool {
				pt.shown = append(pt.shown, shownInt{rr, to, x})
				return true
			}
			pt.atRound = func(st *State, rr *roundRec) { pt.keepDraws = append(pt.keepDraws, pt.storeDraws(st)) }
			pt.keepDraws = nil
		}
		res, failed := sign()
		for _, pt := range w.ps {
			pt.mayShow, pt.atRound = nil, nil
		}
		if w.stopped {
			return
		}
		if !w.ob("C17 C26 C31", !failed, "signs", cs, w.ps[0].opPos, "Sign fails although a presignature is left") {
			return
		}
		w.signature(res, stores, k, msg, cs)
	}
	_, failed = sign()
	if !w.stopped {
		w.ob("C17", failed, "empty-store", cs, w.ps[0].opPos, "the third signature from two presignatures succeeds")
	}
}

func (w *world) allowReshare() {
	for _, pt := range w.ps {
		pt.mayShow = func(rr *roundRec, to int, x *T) bool { return rr.inReshare }
	}
}

// presignParts finds the new secrets in the stores of all parties.
func (w *world) presignParts(cons string, known map[string]bool) [][]*secret {
	var out [][]*secret
	for i, pt := range w.ps {
		vw := pt.view(pt.keep["p"])
		k := 0
		for _, cs := range vw.comms {
			if len(cs) != w.n {
				continue
			}
			id := fmt.Sprint(i, cs[i][0].id, cs[i][1].id)
			if known[id] {
				continue
			}
			known[id] = true
			var s *secret
			for _, a := range vw.ints {
				for _, b := range vw.ints {
					if s == nil && w.opens(cs[i], a, b) {
						s = &secret{s: a, r: b, comms: cs}
					}
				}
			}
			if s != nil {
				s.label = pt.labelOf(vw, cs)
			}
			w.ob("C15", s != nil, "own-commitment-opens", cons, pt.opPos, "nothing in the presignature of party %d opens its commitment (%s, %s)", i, cs[i][0], cs[i][1])
			if s == nil {
				return nil
			}
			if i == 0 {
				out = append(out, make([]*secret, w.n))
			}
			if k < len(out) {
				out[k][i] = s
			}
			k++
		}
		if k != len(out) || k == 0 {
			w.r.fail("presignature-parts", cons, pt.opPos, "the presignature of party %d has %d secrets, that of party 0 has %d", i, k, len(out))
			return nil
		}
	}
	for _, ss := range out {
		for i := range ss {
			for j := range ss {
				a, b := ss[i].comms[j], ss[j].comms[j]
				w.ob("C15", redN(sub(a[0], b[0])) == num(0) && redN(sub(a[1], b[1])) == num(0), "same-commitments", cons, w.ps[i].opPos, "party %d records (%s, %s) as the commitment of party %d, which has (%s, %s)", i, a[0], a[1], j, b[0], b[1])
			}
		}
	}
	w.r.counts["secrets of presignatures"] += len(out)
	return out
}

// labelOf is what Label says of the secret with these commitments.
func (pt *party) labelOf(vw *view, cs [][2]*T) string {
	for _, o := range vw.objs {
		fn := pt.e.methodOf(types.NewPointer(o.o.typ), "Label")
		if fn == nil {
			continue
		}
		mine := false
		for _, c := range pt.view(o).comms {
			mine = mine || len(c) == len(cs) && c[pt.id] == cs[pt.id]
		}
		if !mine {
			continue
		}
		ev := pt.e.events
		l, ok := pt.only(pt.st, pt.e.callTop(pt.st, "acc:Label", fn, o)).(VStr)
		pt.e.events = ev
		if ok {
			if t, lok := litOf(l); lok {
				return t
			}
		}
	}
	return ""
}

// storeDraws lists the draws on which the secrets with commitments reachable from the protocol depend.
func (pt *party) storeDraws(st *State) map[*T]bool {
	out := map[*T]bool{}
	vw := pt.viewIn(st, pt.keep["p"])
	for _, cs := range vw.comms {
		for _, c := range cs {
			drawsIn(c[0], out)
			drawsIn(c[1], out)
		}
	}
	// without those of the keys
	base := map[*T]bool{}
	drawsIn(pt.w.h, base)
	for _, x := range vw.pts {
		drawsIn(x, base)
	}
	for d := range base {
		delete(out, d)
	}
	return out
}

// signature checks one signature against the presignature it used.
func (w *world) signature(res []Val, stores [][][]*secret, k int, msg *T, cons string) {
	var first []*T
	for i, pt := range w.ps {
		// what was sent must not come from anything that is still in the store
		used := map[*T]bool{}
		for _, rr := range pt.last {
			for j, m := range rr.msg {
				if j != i {
					drawsIn(m, used)
				}
			}
		}
		for x, left := range pt.keepDraws {
			var both *T
			for d := range used {
				if left[d] {
					both = d
				}
			}
			rr := pt.last[min(x, len(pt.last)-1)]
			w.ob("C17", both == nil, "removed-first", fmt.Sprintf("%s, round %d", cons, x+1), rr.pos, "when party %d sends its message of this round, the presignature it uses is still in the store", i)
		}
		vw := pt.view(res[i])
		if !w.ob("C31", len(vw.ints) == 2, "signature", cons, pt.opPos, "a signature has %d numbers", len(vw.ints)) {
			return
		}
		if first == nil {
			first = vw.ints
		}
		for x := range vw.ints {
			w.ob("C31", sameMod(vw.ints[x], first[x]), "same-signature", cons, pt.opPos, "party %d computes %s, party 0 %s", i, vw.ints[x], first[x])
		}
	}
	// r = H(k G), s = (m rho + r eta) / tau for some assignment of the parts
	var vals [][]*T
	for _, parts := range stores {
		var vs []*T
		for _, ss := range parts {
			vs = append(vs, lagrangeAt0(firstN(w.tOf(parts)), ss))
		}
		vals = append(vals, vs)
	}
	role := func(ss []*secret, name string) bool {
		named := false
		for _, ps := range stores {
			for _, x := range ps {
				named = named || x[0].label == name
			}
		}
		return !named || ss[0].label == name
	}
	ok, which := false, -1
	var roles []int
	for si, vs := range vals {
		perm4(len(vs), func(p []int) {
			if ok {
				return
			}
			for i, n := range []string{"k", "rho", "eta", "tau"} {
				if !role(stores[si][p[i]], n) {
					return
				}
			}
			kk, rho, eta, tau := vs[p[0]], vs[p[1]], vs[p[2]], vs[p[3]]
			for _, rv := range first {
				if rv.op != "chal" || rv.args[0].op != "enc" || redN(sub(rv.args[0].args[0], ptMul(kk, ptG))) != num(0) {
					continue
				}
				want := redN(mul(redN(add(mul(msg, rho), mul(rv, eta))), inverse(tau, cst(curveN))))
				for _, sv := range first {
					if sv != rv && sameMod(sv, want) {
						ok, which, roles = true, si, append([]int{}, p...)
					}
				}
			}
		})
	}
	w.ob("C31", ok, "signing-equation", cons, w.ps[0].opPos, "the signature (%v) is not (H(kG), (m rho + r eta)/tau) for the parts of a presignature", first)
	if ok && w.for_("C13") {
		// in the clear go only the shares that are opened: of tau and of the signature
		parts := stores[which]
		tauInv := inverse(vals[which][roles[3]], cst(curveN))
		rv := ptHash(first)
		for i, pt := range w.ps {
			sShare := redN(mul(redN(add(mul(msg, parts[roles[1]][i].s), mul(rv, parts[roles[2]][i].s))), tauInv))
			for _, s := range pt.shown {
				fine := sameMod(s.x, parts[roles[3]][i].s) || sameMod(s.x, sShare)
				w.r.ob(fine, "masked", fmt.Sprintf("%s, round %d", cons, s.rr.k+1), s.rr.pos, "party %d sends %s to party %d in the clear, which is neither its share of tau nor that of the signature", i, s.x, s.to)
			}
			w.r.counts["numbers sent in the clear in signing"] += len(pt.shown)
		}
	}
	if ok {
		w.ob("C17", !w.usedUp[which], "one-signature", cons, w.ps[0].opPos, "two signatures use the same presignature")
		if w.usedUp == nil {
			w.usedUp = map[int]bool{}
		}
		w.usedUp[which] = true
	}
}

// tOf is the number of shares that determine a secret.
func (w *world) tOf(parts [][]*secret) int { return w.n }

func perm4(n int, f func(p []int)) {
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) == 4 {
			f(cur)
			return
		}
		for i := 0; i < n; i++ {
			dup := false
			for _, c := range cur {
				dup = dup || c == i
			}
			if !dup {
				rec(append(cur, i))
			}
		}
	}
	rec(nil)
}

// ptHash finds the hash among the numbers of a signature.
func ptHash(ts []*T) *T {
	for _, t := range ts {
		if t.op == "chal" {
			return t
		}
	}
	return num(0)
}
