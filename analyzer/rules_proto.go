package main

// Committees whose members all follow the protocol: C12, C14, C15, C24, C28, C30 and the parts of C04, C10 and
// C13 that concern the protocols.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
)

// ---- linear algebra modulo the order

// form is a linear form over monomials.
type form map[string]*big.Int

// toForm reads a number as a linear form over its monomials, modulo the order.
func toForm(t *T) form {
	for t.op == "mod" {
		if m, ok := isConst(t.args[1]); !ok || m.Cmp(curveN) != 0 {
			break
		}
		t = t.args[0]
	}
	f := form{}
	for _, m := range toMon(redN(t)) {
		c := new(big.Int).Mod(m.c, curveN)
		if c.Sign() != 0 {
			f[facKey(m.f)] = c
		}
	}
	return f
}

type space struct {
	rows []struct {
		piv string
		f   form
	}
}

func (s *space) reduce(f form) form {
	g := form{}
	for k, c := range f {
		g[k] = c
	}
	for _, r := range s.rows {
		c := g[r.piv]
		if c == nil {
			continue
		}
		for k, x := range r.f {
			v := new(big.Int).Mul(c, x)
			if o := g[k]; o != nil {
				v.Sub(o, v)
			} else {
				v.Neg(v)
			}
			v.Mod(v, curveN)
			if v.Sign() == 0 {
				delete(g, k)
			} else {
				g[k] = v
			}
		}
	}
	return g
}

// add adds a form and tells whether it was independent of the others.
func (s *space) add(f form) bool {
	g := s.reduce(f)
	if len(g) == 0 {
		return false
	}
	piv := ""
	for k := range g {
		if piv == "" || k < piv {
			piv = k
		}
	}
	inv := new(big.Int).ModInverse(g[piv], curveN)
	for k, c := range g {
		c = new(big.Int).Mul(c, inv)
		g[k] = c.Mod(c, curveN)
	}
	s.rows = append(s.rows, struct {
		piv string
		f   form
	}{piv, g})
	return true
}

func (s *space) has(f form) bool { return len(s.reduce(f)) == 0 }

// onBases splits a point into its coefficients by base point.
func onBases(t *T) map[*T]*T {
	out := map[*T]*T{}
	for _, m := range toMon(redN(t)) {
		var base *T
		var rest []fac
		for _, f := range m.f {
			if f.a.sort == 'p' && base == nil {
				base = f.a
				continue
			}
			rest = append(rest, f)
		}
		c := fromMon([]mon{{m.c, rest}})
		if o := out[base]; o != nil {
			c = add(o, c)
		}
		out[base] = c
	}
	return out
}

// ---- running operations

// for_ tells whether the run decides a property.
func (w *world) for_(props string) bool {
	return strings.HasPrefix(w.r.id, "CX") || strings.Contains(props, w.r.id)
}

func (w *world) ob(props string, ok bool, rule, cons, pos, format string, a ...interface{}) bool {
	if w.for_(props) {
		w.r.ob(ok, rule, cons, pos, format, a...)
	}
	return ok
}

// setup gives every party a commitment factory over the common base.
func (w *world) setup() bool {
	ctor := w.p.fn(commPkg, "NewElGamalFactory")
	if ctor == nil {
		w.r.fail("anchor", "commitment.NewElGamalFactory", "", "the commitment factory was not found")
		return false
	}
	for _, pt := range w.ps {
		pt.egf = pt.e.callTop(pt.st, "ctor", ctor, VPoint{w.h})
		if pt.egf == nil {
			w.r.fail("anchor", "commitment.NewElGamalFactory", w.p.pos(ctor.Pos()), "the factory cannot be constructed")
			return false
		}
		pt.share()
	}
	return true
}

// results splits what an operation returned into its results and its error.
func results(sig *types.Signature, v Val) ([]Val, Val) {
	vs := []Val{v}
	if x, ok := v.(VTuple); ok {
		vs = append([]Val{}, x.f...)
	}
	if n := sig.Results().Len(); n > 0 && namedPath(sig.Results().At(n-1).Type()) == "error" && len(vs) == n {
		return vs[:n-1], vs[n-1]
	}
	return vs, VNil{}
}

// call runs a function of the project that must succeed.
func (pt *party) call(cons, pkg, name string, args ...Val) []Val {
	fn := pt.w.p.fn(pkg, name)
	if fn == nil {
		pt.w.r.fail("anchor", cons, "", "%s.%s was not found", pkg, name)
		panic(abortErr{})
	}
	pt.opPos = pt.w.p.pos(fn.Pos())
	return pt.must(cons, fn.Signature, pt.opPos, pt.e.callTop(pt.st, "p:"+name, fn, args...))
}

// do calls a method of a value that must succeed.
func (pt *party) do(cons string, recv Val, name string, args ...Val) []Val {
	p, ok := recv.(VPtr)
	if ok {
		if fn := pt.e.methodOf(types.NewPointer(p.o.typ), name); fn != nil {
			pt.opPos = pt.w.p.pos(fn.Pos())
			if !fn.Pos().IsValid() && fn.Object() != nil {
				pt.opPos = pt.w.p.pos(fn.Object().Pos())
			}
			return pt.must(cons, fn.Signature, pt.opPos, pt.e.callTop(pt.st, "p:"+name, fn, append([]Val{recv}, args...)...))
		}
	}
	pt.w.r.fail("anchor", cons, "", "method %s of %s was not found", name, describe(recv))
	panic(abortErr{})
}

func (pt *party) must(cons string, sig *types.Signature, pos string, v Val) []Val {
	w := pt.w
	if v == nil {
		w.r.fail("honest-run", cons, pos, "the operation cannot finish in party %d although everybody follows the protocol%s", pt.id, pt.trouble())
		panic(abortErr{})
	}
	v = pt.only(pt.st, v)
	vs, err := results(sig, v)
	ok := pt.e.isNilV(pt.st, err)
	if ok != bTrue && !implies(pt.st.pc, ok) {
		w.r.fail("honest-run", cons, pos, "party %d reports an error although everybody follows the protocol: %s", pt.id, rejection(pt.e, pt.st, err))
		panic(abortErr{})
	}
	for i := range vs {
		vs[i] = pt.only(pt.st, vs[i])
	}
	return vs
}

// only resolves a value that has one feasible alternative.
func (pt *party) only(st *State, v Val) Val {
	as := pt.e.alts(v, st.pc)
	if len(as) == 1 {
		return as[0].v
	}
	return v
}

func (pt *party) trouble() string {
	s := ""
	for _, ev := range pt.e.panics() {
		s += fmt.Sprintf("; %s at %s", ev.name, pt.e.where(ev))
	}
	return s
}

// op runs an operation in all parties and checks what holds for every operation.
func (w *world) op(cons string, f func(pt *party)) bool {
	if w.stopped {
		return false
	}
	for _, pt := range w.ps {
		pt.e.events, pt.e.undec = nil, nil
		pt.rounds, pt.proves, pt.verifs, pt.decs, pt.opened = nil, nil, nil, nil, nil
	}
	good := w.lockstep(cons, f)
	for _, pt := range w.ps {
		for _, ev := range pt.e.panics() {
			w.r.fail("panic", cons, pt.e.where(ev), "party %d: %s", pt.id, ev.name)
			good = false
		}
		if len(pt.e.undec) > 0 {
			good = false
		}
		w.r.engine(pt.e, cons)
		pt.e.steps = 0
	}
	if w.mism != "" {
		w.r.fail("same-rounds", cons, "", "%s", w.mism)
		good = false
	}
	if !good {
		w.stopped = true
		if len(w.r.obs) == 0 || w.r.obs[len(w.r.obs)-1].OK {
			w.r.fail("honest-run", cons, "", "the operation does not finish although everybody follows the protocol")
		}
		return false
	}
	if w.hist == nil {
		w.hist = map[string][][]*roundRec{}
	}
	w.hist[cons] = make([][]*roundRec, w.n)
	for _, pt := range w.ps {
		w.hist[cons][pt.id] = pt.rounds
		pos := pt.opPos
		w.r.counts["rounds"] += len(pt.rounds)
		w.r.counts["operations"]++
		for _, rr := range pt.rounds {
			w.ob("C14", implies(pt.st.pc, rr.g), "every-round", fmt.Sprintf("%s, round %d", cons, rr.k+1), rr.pos, "the round is skipped under %s", not(rr.g))
		}
		if w.for_("C04") {
			checkUnchanged(w.r, pt.e, pt.st, "inputs-unchanged", cons, pos, pt.mutable...)
		}
		if w.for_("C15") {
			pt.witnesses(cons)
		}
		if w.for_("C13") {
			pt.naked(cons)
		}
		if w.for_("C10") {
			pt.drawsOf(cons)
		}
		pt.share()
	}
	return true
}

// ---- what a result holds

// view lists what is reachable from a result.
type view struct {
	ints  []*T
	comms [][][2]*T // vectors of commitments
	pts   []*T
	ptv   [][]*T
	strs  []*T
	nums  []*T
	objs  []VPtr // the structures
}

// viewIn lists what is reachable in a state.
func (pt *party) viewIn(st *State, v Val) *view {
	old := pt.st
	pt.st = st
	defer func() { pt.st = old }()
	return pt.view(v)
}

func (pt *party) view(v Val) *view {
	out := &view{}
	pt.look(v, nil, out, map[*Obj]bool{})
	return out
}

func (pt *party) isEG(t types.Type) bool {
	return t != nil && namedPath(t) == modPath+"/"+commPkg+".ElGamal"
}

// commAt reads a commitment.
func (pt *party) commAt(p VPtr) ([2]*T, bool) {
	s, ok := pt.only(pt.st, pt.e.load(pt.st, p, 0)).(VStruct)
	var c [2]*T
	k := 0
	if ok {
		for _, f := range pt.e.leavesOf(pt.st, s, nil) {
			if x, ok := pt.only(pt.st, f.v).(VPoint); ok && k < 2 {
				c[k] = x.t
				k++
			}
		}
	}
	return c, k == 2
}

func (pt *party) look(v Val, t types.Type, out *view, seen map[*Obj]bool) {
	e := pt.e
	v = pt.only(pt.st, v)
	switch x := v.(type) {
	case VInt:
		out.nums = append(out.nums, x.t)
	case VStr:
		out.strs = append(out.strs, x.t)
	case VPoint:
		out.pts = append(out.pts, x.t)
	case VStruct:
		for _, f := range x.f {
			pt.look(f, nil, out, seen)
		}
	case VArr:
		if shortArr(x) {
			for _, l := range e.leavesOf(pt.st, x, nil) {
				pt.look(l.v, nil, out, seen)
			}
		}
	case VPtr:
		n := namedPath(x.o.typ)
		if len(x.path) == 0 {
			if seen[x.o] {
				return
			}
			seen[x.o] = true
		}
		switch {
		case n == "math/big.Int" && len(x.path) == 0:
			if i, ok := pt.only(pt.st, e.load(pt.st, x, 0)).(VInt); ok {
				out.ints = append(out.ints, i.t)
			}
		case pt.isEG(x.o.typ) && len(x.path) == 0:
			if c, ok := pt.commAt(x); ok {
				out.comms = append(out.comms, [][2]*T{c})
			}
		case strings.HasSuffix(n, ".ElGamalFactory"):
		default:
			if len(x.path) == 0 {
				out.objs = append(out.objs, x)
			}
			pt.look(e.load(pt.st, x, 0), nil, out, seen)
		}
	case VSlice:
		ln, ok := constLen(x)
		if !ok || ln > 64 {
			return
		}
		var cs [][2]*T
		var ps []*T
		for i := int64(0); i < ln; i++ {
			el := pt.only(pt.st, e.elem(pt.st, x, i))
			switch y := el.(type) {
			case VPtr:
				if pt.isEG(y.o.typ) {
					if c, ok := pt.commAt(y); ok {
						cs = append(cs, c)
						continue
					}
				}
				pt.look(y, nil, out, seen)
			case VPoint:
				ps = append(ps, y.t)
			case VNil:
			default:
				pt.look(y, nil, out, seen)
			}
		}
		if int64(len(cs)) == ln && ln > 0 {
			out.comms = append(out.comms, cs)
		}
		if int64(len(ps)) == ln && ln > 0 {
			out.ptv = append(out.ptv, ps)
		}
	}
}

// opens tells whether a commitment is to value s with randomizer r.
func (w *world) opens(c [2]*T, s, r *T) bool {
	return redN(sub(c[0], ptMul(r, ptG))) == num(0) && redN(sub(c[1], ptAdd(ptMul(r, w.h), ptMul(s, ptG)))) == num(0)
}

// secret is what one party knows of a distributed secret.
type secret struct {
	s, r  *T
	comms [][2]*T
	v     Val
	label string // what Label says about a part of a presignature
}

// secretOf finds share, randomizer and commitments in a result; they must fit together.
func (pt *party) secretOf(cons string, v Val) (*secret, bool) {
	w := pt.w
	vw := pt.view(v)
	for _, cs := range vw.comms {
		if len(cs) != w.n {
			continue
		}
		for _, s := range vw.ints {
			for _, r := range vw.ints {
				if w.opens(cs[pt.id], s, r) {
					return &secret{s: s, r: r, comms: cs, v: v}, true
				}
			}
		}
	}
	why := "no vector with the commitments of all parties is in it"
	for _, cs := range vw.comms {
		if len(cs) == w.n {
			why = fmt.Sprintf("no share and randomizer in it open the party's own commitment (%s, %s); the numbers are %v", cs[pt.id][0], cs[pt.id][1], vw.ints)
		}
	}
	w.r.fail("own-commitment-opens", cons, pt.opPos, "the result of party %d is not consistent: %s", pt.id, why)
	return nil, false
}

// agree checks that all parties recorded the same commitments.
func (w *world) agree(cons, key string) ([]*secret, bool) {
	out := make([]*secret, w.n)
	for i, pt := range w.ps {
		s, ok := pt.secretOf(cons, pt.keep[key])
		if !ok {
			w.stopped = true
			return nil, false
		}
		out[i] = s
		w.ob("C15", true, "own-commitment-opens", cons, pt.opPos, "")
	}
	for i, pt := range w.ps {
		for j := 0; j < w.n; j++ {
			a, b := out[i].comms[j], out[j].comms[j]
			same := redN(sub(a[0], b[0])) == num(0) && redN(sub(a[1], b[1])) == num(0)
			w.ob("C15", same, "same-commitments", cons, pt.opPos, "party %d records (%s, %s) as the commitment of party %d, which has (%s, %s)", i, a[0], a[1], j, b[0], b[1])
		}
	}
	return out, true
}

// accessor calls a method without arguments on the result of every party and compares what it returns.
func (w *world) accessor(cons, key, name string, want func(pt *party, v Val) (bool, string)) {
	for _, pt := range w.ps {
		v := pt.keep[key]
		p, ok := v.(VPtr)
		if !ok {
			continue
		}
		fn := pt.e.methodOf(types.NewPointer(p.o.typ), name)
		if fn == nil {
			continue
		}
		pt.e.events = nil
		res := pt.e.callTop(pt.st, "acc:"+name, fn, v)
		pos := pt.opPos
		if res == nil {
			w.ob("C15", false, "accessor", cons+" "+name, pos, "%s of the result of party %d cannot finish%s", name, pt.id, pt.trouble())
			pt.st.pc = bTrue
			continue
		}
		good, got := want(pt, pt.only(pt.st, res))
		w.ob("C15", good, "accessor", cons+" "+name, pos, "%s of the result of party %d is %s", name, pt.id, got)
	}
}

func (w *world) labelIs(cons, key, want string) {
	w.accessor(cons, key, "Label", func(pt *party, v Val) (bool, string) {
		s, ok := v.(VStr)
		return ok && s.t == lit(want), describe(v) + ", not \"" + want + "\""
	})
}

func (w *world) thresholdIs(cons, key string, want int64) {
	w.accessor(cons, key, "Threshold", func(pt *party, v Val) (bool, string) {
		i, ok := v.(VInt)
		return ok && i.t == num(want), describe(v) + fmt.Sprintf(", not %d", want)
	})
}

func (w *world) keyIs(cons, key string, want *T) {
	w.accessor(cons, key, "PublicKey", func(pt *party, v Val) (bool, string) {
		x, ok := v.(VPoint)
		return ok && redN(sub(x.t, want)) == num(0), describe(v) + ", not " + want.String()
	})
}

// witnesses checks that every proof was made with a witness of its statement.
func (pt *party) witnesses(cons string) {
	w := pt.w
	for _, u := range pt.proves {
		ok := false
		switch {
		case len(u.stmt) == 2 && len(u.wit) == 2:
			ok = w.opens([2]*T{u.stmt[0], u.stmt[1]}, u.wit[0], u.wit[1])
		case len(u.stmt) == 4 && len(u.wit) == 1:
			ok = w.opens([2]*T{sub(u.stmt[2], u.stmt[0]), sub(u.stmt[3], u.stmt[1])}, num(0), u.wit[0])
		default:
			w.r.fail("witness", cons, u.pos, "a proof with %d points and %d numbers", len(u.stmt), len(u.wit))
			continue
		}
		w.ob("C15", ok, "witness", cons+", "+u.typ, u.pos, "party %d proves a statement (%v) that the witness (%v) does not satisfy", pt.id, u.stmt, u.wit)
	}
}

// ---- C13: what leaves a party

// nakedIn collects the unknowns of a message that are not hidden in a point, a proof or a ciphertext.
func nakedIn(t *T, out map[*T]bool) {
	switch t.op {
	case "enc", "encprf", "paillier", "len", "BL", "proof", "decodedprf", "dec":
		return
	case "decrypted":
		out[t] = true
		return
	case "sym", "rd":
		out[t] = true
		return
	case "poly":
		if t.sort == 'p' {
			return
		}
		for _, m := range t.mon {
			for _, f := range m.f {
				nakedIn(f.a, out)
			}
		}
		return
	}
	for _, a := range t.args {
		nakedIn(a, out)
	}
}

// nakedInts collects the numbers sent in the clear.
func nakedInts(t *T, out *[]*T) {
	switch t.op {
	case "enc", "encprf":
		return
	case "big", "fill", "int":
		x := t.args[0]
		m := map[*T]bool{}
		nakedIn(x, m)
		if len(m) > 0 {
			*out = append(*out, x)
		}
		return
	case "cat", "slice", "rep":
		for _, a := range t.args {
			nakedInts(a, out)
		}
	default:
		m := map[*T]bool{}
		nakedIn(t, m)
		if len(m) > 0 {
			*out = append(*out, t)
		}
	}
}

// naked checks the messages of an operation, and everything it prints.
func (pt *party) naked(cons string) {
	w := pt.w
	for _, rr := range pt.rounds {
		for j, m := range rr.msg {
			if j == pt.id {
				continue
			}
			var ints []*T
			nakedInts(m, &ints)
			c := fmt.Sprintf("%s, round %d", cons, rr.k+1)
			for _, p := range parts(m) {
				if p.op == "big" {
					if ct, ok := paiOf(p.args[0]); ok && ct.key != pt.id {
						pt.maskWidth(c, rr, j, ct.m)
					}
				}
			}
			for _, x := range ints {
				ok := pt.mayShow != nil && pt.mayShow(rr, j, x)
				w.r.ob(ok, "masked", c, rr.pos, "party %d sends %s to party %d in the clear", pt.id, x, j)
			}
			if len(ints) == 0 {
				w.r.ob(true, "masked", c, rr.pos, "")
			}
		}
	}
	pt.noSecretsIn(cons)
}

// maskWidth checks that a number another party will decrypt is hidden by a much larger draw.
func (pt *party) maskWidth(c string, rr *roundRec, to int, t *T) {
	mask, rest := num(0), num(0)
	for _, m := range toMon(t) {
		x := fromMon([]mon{m})
		if len(m.f) == 1 && m.f[0].e == 1 && strings.HasPrefix(m.f[0].a.name, "random") && strings.HasSuffix(m.f[0].a.name, pt.e.tag) {
			mask = add(mask, x)
		} else {
			rest = add(rest, x)
		}
	}
	_, hm := bounds(mask)
	_, hr := bounds(rest)
	if rest == num(0) {
		return
	}
	n2 := new(big.Int).Sub(curveN, big.NewInt(2))
	if !pt.w.r.ob(mask != num(0) && hm != nil && hm.Cmp(n2) >= 0, "masked", c, rr.pos, "party %d can decrypt %s of party %d, which is not masked by a draw below the order", to, t, pt.id) {
		return
	}
	ok := hm != nil && hr != nil && hm.Cmp(new(big.Int).Lsh(hr, 64)) >= 0
	pt.w.r.ob(ok, "mask-width", c, rr.pos, "party %d can decrypt %s of party %d, whose mask is not much larger than the number it hides (up to %v, up to %v)", to, t, pt.id, hm, hr)
}

// secretVals finds unknown numbers of a party in a value.
func (pt *party) secretVals(st *State, v Val) *T {
	return pt.e.findIn(st, v, 0, func(t *T) *T {
		m := map[*T]bool{}
		nakedIn(t, m)
		for x := range m {
			if strings.HasPrefix(x.name, "random") || x.op == "decrypted" || pt.private[x] {
				return x
			}
		}
		return nil
	})
}

// findIn looks for a number or text in a value and what it points to.
func (e *Eng) findIn(st *State, v Val, depth int, hit func(*T) *T) *T {
	if depth > 8 {
		return nil
	}
	switch x := v.(type) {
	case VInt:
		return hit(x.t)
	case VStr:
		return hit(x.t)
	case VBytes:
		return hit(x.t)
	case VPtr:
		return e.findIn(st, e.load(st, x, 0), depth+1, hit)
	case VIface:
		return e.findIn(st, x.v, depth+1, hit)
	case VStruct:
		for _, f := range x.f {
			if s := e.findIn(st, f, depth+1, hit); s != nil {
				return s
			}
		}
	case *VUnion:
		for _, a := range e.alts(x, st.pc) {
			if s := e.findIn(&State{and(st.pc, a.g), st.mem}, a.v, depth+1, hit); s != nil {
				return s
			}
		}
	case VErr:
		for _, a := range x.args {
			if s := e.findIn(st, a, depth+1, hit); s != nil {
				return s
			}
		}
	case VSlice:
		if b, ok := e.sliceBytes(st, x, 0); ok {
			return hit(b)
		}
		if n, ok := constLen(x); ok && n <= 16 {
			for i := int64(0); i < n; i++ {
				if s := e.findIn(st, e.elem(st, x, i), depth+1, hit); s != nil {
					return s
				}
			}
		}
	}
	return nil
}

// noSecretsIn checks what an operation prints.
func (pt *party) noSecretsIn(cons string) {
	for _, ev := range pt.e.events {
		if ev.kind != "sink" && ev.kind != "exit" && ev.kind != "errorf" {
			continue
		}
		for _, v := range ev.vals {
			s := pt.secretVals(pt.st, v)
			pt.w.r.ob(s == nil, "not-printed", cons, pt.e.where(ev), "%s prints %v", ev.name, s)
		}
	}
}

// ---- C10: draws

// drawsOf checks every draw of an operation, and that what is sent is masked by separate draws.
func (pt *party) drawsOf(cons string) {
	w := pt.w
	n1 := new(big.Int).Sub(curveN, big1)
	own := map[*T]bool{}
	for _, ev := range pt.e.events {
		if ev.kind != "draw" || !feasible(ev.g) {
			continue
		}
		i, ok := ev.vals[0].(VIface)
		w.r.ob(ok && i.typ == randType, "source", cons, pt.e.where(ev), "the draw reads from %s, not from the system's cryptographic randomness", describe(ev.vals[0]))
		if ev.name == "int" {
			k, okc := isConst(ev.ts[1])
			w.r.ob(okc && (k.Cmp(curveN) == 0 || k.Cmp(n1) == 0), "uniform", cons, pt.e.where(ev), "the draw is uniform below %s, not below the order of the group", ev.ts[1])
		}
		own[ev.ts[0]] = true
		w.r.counts["draws"]++
	}
	// the points sent in the clear, by round
	seen := map[*T]bool{}
	// the randomizers of different commitments and the masks of ciphertexts, without what peers may know
	var draws space
	pairs := map[*T]*T{}
	plain := func(t *T) form {
		f := form{}
		for _, x := range toMon(t) {
			if len(x.f) == 1 && x.f[0].e == 1 && own[x.f[0].a] {
				f[facKey(x.f)] = x.c
			}
		}
		return f
	}
	for _, rr := range pt.rounds {
		for j, m := range rr.msg {
			if j == pt.id {
				continue
			}
			ps := parts(m)
			for i := 0; i+1 < len(ps); i++ {
				if ps[i].op != "enc" || ps[i+1].op != "enc" || w.h.op != "sym" {
					continue
				}
				p, q := ps[i].args[0], ps[i+1].args[0]
				bs := onBases(p)
				rho := bs[ptG]
				if len(bs) != 1 || rho == nil || onBases(q)[w.h] == nil || !sameMod(onBases(q)[w.h], rho) {
					continue
				}
				c := fmt.Sprintf("%s, round %d", cons, rr.k+1)
				if o := pairs[p]; o != nil {
					w.r.ob(o == q, "separate-draws", c, rr.pos, "two commitments of party %d, to different values, have the same randomizer %s", pt.id, rho)
					continue
				}
				pairs[p] = q
				w.r.ob(draws.add(plain(rho)), "separate-draws", c, rr.pos, "the randomizer %s of a commitment that party %d sends has no draw of its own", rho, pt.id)
				w.r.counts["commitments sent"]++
			}
			for _, part := range ps {
				if part.op != "enc" || seen[part.args[0]] {
					continue
				}
				p := part.args[0]
				seen[p] = true
				var sp space
				var bases []*T
				bs := onBases(p)
				for b := range bs {
					bases = append(bases, b)
				}
				sortTerms(bases)
				c := fmt.Sprintf("%s, round %d", cons, rr.k+1)
				for _, b := range bases {
					w.r.ob(sp.add(toForm(bs[b])), "independent-masks", c, rr.pos, "in the point %s that party %d sends the factor of %s follows from the others", p, pt.id, b)
				}
				if p != num(0) {
					w.r.ob(len(bases) > 0, "independent-masks", c, rr.pos, "party %d sends the constant %s", pt.id, p)
				}
				// commitments are pairs whose first component shows the randomizer
				if len(bases) == 1 && bases[0] == ptG {
					fresh := pt.masks.add(toForm(bs[ptG]))
					again := pt.sent[p]
					w.r.ob(fresh || again, "separate-draws", c, rr.pos, "the factor %s of the generator in a point that party %d sends follows from those of points it sent before: no separate draw masks it", bs[ptG], pt.id)
				}
				if pt.sent == nil {
					pt.sent = map[*T]bool{}
				}
				pt.sent[p] = true
			}
			// ciphertexts under the key of another party
			for _, part := range ps {
				if part.op != "big" {
					continue
				}
				c, ok := paiOf(part.args[0])
				if !ok || c.key == pt.id {
					continue
				}
				w.r.ob(draws.add(plain(c.m)), "separate-draws", fmt.Sprintf("%s, round %d", cons, rr.k+1), rr.pos, "the mask of the value %s that party %d sends to party %d is not drawn for it alone", c.m, pt.id, c.key)
				w.r.ob(pt.masks.add(toForm(c.m)) && hasOwn(c.m, own), "separate-draws", fmt.Sprintf("%s, round %d", cons, rr.k+1), rr.pos, "no separate draw masks the value %s that party %d sends to party %d", c.m, pt.id, c.key)
			}
		}
	}
}

// hasOwn tells whether a number contains a draw as a plain summand.
func hasOwn(t *T, own map[*T]bool) bool {
	for _, m := range toMon(t) {
		if len(m.f) == 1 && m.f[0].e == 1 && own[m.f[0].a] && m.c.CmpAbs(big1) == 0 {
			return true
		}
	}
	return false
}

// ---- sums

func sumOf(ss []*secret, f func(*secret) *T) *T {
	r := num(0)
	for _, s := range ss {
		r = add(r, f(s))
	}
	return redN(r)
}

func share(s *secret) *T { return s.s }

func sameMod(a, b *T) bool { return redN(sub(a, b)) == num(0) }

// lagrange interpolates at zero from the values at i+1 for i in the set.
func lagrangeAt0(set []int, ss []*secret) *T {
	r := num(0)
	for _, i := range set {
		c := big.NewInt(1)
		for _, j := range set {
			if i == j {
				continue
			}
			d := new(big.Int).ModInverse(new(big.Int).Mod(big.NewInt(int64(j-i)), curveN), curveN)
			c.Mul(c, big.NewInt(int64(j+1)))
			c.Mul(c, d)
			c.Mod(c, curveN)
		}
		r = add(r, scale(c, ss[i].s))
	}
	return redN(r)
}

func subsets(n, k int) [][]int {
	var out [][]int
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		if len(cur) == k {
			out = append(out, append([]int{}, cur...))
			return
		}
		for i := from; i < n; i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	return out
}

func strV(s string) Val { return VStr{lit(s)} }

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// caller is a number that the caller of an operation owns.
func (pt *party) number(name string, t *T) Val {
	o := pt.e.newObj(name, bigType)
	o.input = true
	pt.e.globalMem[o] = VInt{t}
	return VPtr{o: o}
}

func keysOf(m map[string]Val) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
