package main

// One party among peers that send arbitrary bytes or nothing, with rounds, draws and proofs that may fail: C11,
// C14, C16, C17, C20, C23 and the part of C13 that concerns errors.

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// failure is what one operation did in such a run.
type failure struct {
	w      *world
	pt     *party
	cons   string
	pos    string
	st     *State
	vs     []Val
	err    Val
	ok     *Node // success of the operation
	bad    *Node
	t      int  // threshold of the operation
	may    bool // the operation may go on without some parties
	events []*Event
}

// quietly runs the preparation of a failing run without recording its obligations.
func (w *world) quietly(f func()) bool {
	r := w.r
	w.r = newRep(w.p, "-")
	rep := w.report
	w.report = false
	f()
	q := w.r
	w.r, w.report = r, rep
	for _, o := range q.obs {
		if !o.OK {
			r.ob(false, o.Rule, o.Construct, o.Pos, "%s", o.Msg)
			w.stopped = true
		}
	}
	return !w.stopped
}

// failing runs one operation of one party.
func (w *world) failing(pt *party, cons string, fn *ssa.Function, t int, may bool, args ...Val) *failure {
	e := pt.e
	if fn == nil {
		w.r.fail("anchor", cons, "", "the operation was not found")
		return nil
	}
	saved, facts := pt.st, curFacts
	defer func() {
		pt.st, curFacts, pt.fail, e.sureDraws, e.recCalls = saved, facts, false, true, false
		pt.rounds, pt.proves, pt.verifs, pt.decs, pt.opened = nil, nil, nil, nil, nil
	}()
	w.curOp = cons
	pt.fail, e.sureDraws = true, false
	e.events, e.undec = nil, nil
	pt.rounds, pt.proves, pt.verifs, pt.decs, pt.opened, pt.keepDraws = nil, nil, nil, nil, nil, nil
	pt.st = &State{pc: saved.pc, mem: map[*Obj]Val{}}
	pt.opPos = w.p.pos(fn.Pos())
	fl := &failure{w: w, pt: pt, cons: cons, pos: pt.opPos, t: t, may: may}
	e.recCalls = w.for_("C23")
	if w.for_("C19") {
		e.thr = newThreads()
		defer func() { e.thr = nil }()
	}
	v := e.callTop(pt.st, "f:"+fn.Name(), fn, args...)
	w.r.engine(e, cons)
	e.steps = 0
	fl.events = e.events
	fl.st = pt.st
	if v == nil {
		w.r.fail("coverage", cons, fl.pos, "the operation cannot return")
		return nil
	}
	fl.split(fn, v)
	if w.for_("C19") {
		e.thr.report(w.r, cons, fl.pos, 0, pt.st.pc)
	}
	if w.for_("C20") {
		fl.robust()
	}
	if w.for_("C14 C16") {
		fl.roundsOK()
	}
	if w.for_("C23") {
		fl.stepsOK()
	}
	if w.for_("C11") {
		fl.verified()
	}
	if w.for_("C13") {
		fl.quiet()
	}
	if w.then != nil {
		w.then(fl)
	}
	w.r.counts["failing runs"]++
	return fl
}

// split separates success from failure.
func (fl *failure) split(fn *ssa.Function, v Val) {
	e := fl.pt.e
	fl.ok = bFalse
	for _, a := range e.alts(v, fl.st.pc) {
		_, err := results(fn.Signature, a.v)
		fl.ok = or(fl.ok, and(a.g, e.isNilV(fl.st, err)))
	}
	fl.ok = and(fl.st.pc, fl.ok)
	fl.bad = and(fl.st.pc, not(fl.ok))
	as := e.alts(v, fl.st.pc)
	if len(as) == 1 {
		fl.vs, fl.err = results(fn.Signature, as[0].v)
		return
	}
	// component-wise
	n := fn.Signature.Results().Len()
	comp := make([][]Alt, n)
	for _, a := range as {
		vs := []Val{a.v}
		if t, ok := a.v.(VTuple); ok {
			vs = t.f
		}
		for i := range vs {
			if i < n {
				comp[i] = append(comp[i], Alt{a.g, vs[i]})
			}
		}
	}
	var vs []Val
	for i := range comp {
		vs = append(vs, mkUnion(comp[i]))
	}
	fl.vs, fl.err = results(fn.Signature, VTuple{vs})
}

func factsOf(g *Node, f func()) {
	old := curFacts
	curFacts = g.Facts()
	f()
	curFacts = old
}

// robust: no panic, and no allocation whose size a peer chooses.
func (fl *failure) robust() {
	r := fl.w.r
	n := 0
	for _, ev := range fl.events {
		switch ev.kind {
		case "panic":
			if feasible(ev.g) {
				r.fail("no-crash", fl.cons, fl.pt.e.where(ev), "the operation can crash: %s, under %s", ev.name, ev.g)
				n++
			}
		case "make":
			if !feasible(ev.g) {
				continue
			}
			var hi *big.Int
			factsOf(ev.g, func() { _, hi = bounds(ev.ts[0]) })
			r.ob(hi != nil && hi.Cmp(big.NewInt(maxAlloc)) <= 0, "bounded-allocation", fl.cons, fl.pt.e.where(ev), "an allocation of %s elements is bounded only by %v: a peer chooses its size", ev.ts[0], hi)
		}
	}
	if n == 0 {
		r.ob(true, "no-crash", fl.cons, fl.pos, "")
	}
}

// enough is the condition that a round may be taken as done.
func (fl *failure) enough(rr *roundRec) *Node {
	if !fl.may {
		return rr.ok
	}
	// the round names missing parties, and at least the threshold of shares arrived
	return or(rr.ok, and(rr.rerr, and(rr.miss, fl.shares(rr))))
}

// shares is the condition that at least threshold shares are known: the own one and those that arrived and were accepted.
func (fl *failure) shares(rr *roundRec) *Node {
	w := fl.w
	cond := bFalse
	for _, set := range subsets(w.n, fl.t) {
		c := bTrue
		for _, j := range set {
			if j != fl.pt.id {
				c = and(c, and(rr.call[j], rr.acc[j]))
			}
		}
		in := fl.t == 0
		for _, j := range set {
			in = in || j == fl.pt.id
		}
		if in {
			cond = or(cond, c)
		}
	}
	return cond
}

// roundsOK: a result only after every round was run and none failed; no result with an error.
func (fl *failure) roundsOK() {
	w, r, e := fl.w, fl.w.r, fl.pt.e
	w.ob("C16 C14", feasible(fl.ok), "coverage", fl.cons, fl.pos, "the operation never succeeds")
	before := bTrue
	for _, rr := range fl.pt.rounds {
		c := fmt.Sprintf("%s, round %d", fl.cons, rr.k+1)
		if w.for_("C14") {
			r.ob(impliesF(fl.ok, rr.g), "every-round", c, rr.pos, "the operation can succeed without this round, under %s", and(fl.ok, not(rr.g)))
		}
		if w.for_("C16") {
			en := fl.enough(rr)
			r.ob(impliesF(and(fl.ok, rr.g), en), "failed-round", c, rr.pos, "the operation can succeed although this round failed, under %s", simplify(fl.ok, and(rr.g, not(en))))
			// later rounds only after this one
			for _, r2 := range fl.pt.rounds[rr.k+1:] {
				r.ob(impliesF(and(r2.g, rr.g), en), "failed-round", c+" before the next", rr.pos, "the operation goes on to the round at %s although this round failed", r2.pos)
			}
		}
		before = and(before, rr.ok)
	}
	_ = before
	if w.for_("C16") {
		none := true
		for _, v := range fl.vs {
			for _, a := range e.alts(v, fl.bad) {
				if _, ok := a.v.(VNil); !ok && feasible(and(fl.bad, a.g)) {
					none = false
				}
			}
		}
		r.ob(none, "no-result-with-error", fl.cons, fl.pos, "the operation returns a result together with an error")
		for _, v := range fl.vs {
			for _, a := range e.alts(v, fl.ok) {
				_, isNil := a.v.(VNil)
				r.ob(!isNil || !feasible(and(fl.ok, a.g)), "result-with-success", fl.cons, fl.pos, "the operation reports success without a result")
			}
		}
	}
}

func impliesF(a, b *Node) bool {
	if a == bFalse || implies(a, b) {
		return true
	}
	g := and(a, not(b))
	return !feasible(g)
}

// stepsOK: success only if every step that can fail did not.
func (fl *failure) stepsOK() {
	r := fl.w.r
	for _, ev := range fl.events {
		if ev.ok == nil {
			continue
		}
		g := and(fl.ok, ev.g)
		if fl.may {
			for _, rr := range fl.pt.rounds {
				g = and(g, rr.ok)
			}
		}
		if g == bFalse {
			continue
		}
		r.ob(impliesF(g, ev.ok), "step-failed", fl.cons+": "+ev.kind+" "+ev.name, fl.pt.e.where(ev), "the operation can succeed although this step failed, under %s", and(g, not(ev.ok)))
	}
	for _, rr := range fl.pt.rounds {
		r.ob(impliesF(and(fl.ok, rr.g), fl.enough(rr)), "step-failed", fmt.Sprintf("%s, round %d", fl.cons, rr.k+1), rr.pos, "the operation can succeed although the round failed")
	}
}

// quiet: no error mentions a secret, and nothing secret is printed.
func (fl *failure) quiet() {
	pt := fl.pt
	pt.private = map[*T]bool{}
	for j, rs := range fl.w.hist[fl.cons] {
		for k, rr := range rs {
			var ints []*T
			nakedInts(rr.msg[pt.id], &ints)
			if j != pt.id && !rr.bcast && len(ints) > 0 && k < len(pt.rounds) {
				pt.private[pt.rounds[k].in[j]] = true
			}
		}
	}
	for _, ev := range fl.events {
		switch ev.kind {
		case "sink", "errorf", "exit":
		default:
			continue
		}
		if !feasible(ev.g) {
			continue
		}
		var s *T
		for _, v := range ev.vals {
			if x := pt.secretVals(&State{ev.g, fl.st.mem}, v); x != nil {
				s = x
			}
		}
		fl.w.r.ob(s == nil, "not-printed", fl.cons, pt.e.where(ev), "%s contains the secret %v", ev.name, s)
	}
}

// ---- C11

// mentions tells whether a term contains another.
func mentions(t, x *T) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if mentions(a, x) {
			return true
		}
	}
	for _, m := range t.mon {
		for _, f := range m.f {
			if mentions(f.a, x) {
				return true
			}
		}
	}
	return false
}

func (fl *failure) verified() {
	w, r, pt := fl.w, fl.w.r, fl.pt
	for _, d := range pt.decs {
		if d.k < 0 || d.from < 0 {
			continue
		}
		rr := pt.rounds[d.k]
		c := fmt.Sprintf("%s, round %d, %s", fl.cons, d.k+1, d.typ)
		g := and(d.g, and(rr.g, and(rr.call[d.from], rr.acc[d.from])))
		ver := bFalse
		for _, u := range pt.verifs {
			if u.prf == d.prf && u.from == d.from && hasTerm(u.ctx, w.h) {
				ver = or(ver, and(u.g, u.ok))
			}
		}
		r.ob(impliesF(g, ver), "proof-verified", c, d.pos, "a message of party %d is accepted although this proof is not verified, under %s", d.from, and(g, not(ver)))
		w.r.counts["proofs in messages"]++
	}
	fl.opened()
}

func hasTerm(ts []*T, x *T) bool {
	for _, t := range ts {
		if t == x {
			return true
		}
	}
	return false
}

// committed lists the rounds whose messages open what an earlier message committed to.
var committed = map[string]int{"arith.GenExpReveal": 1, "arith.CheckDH": 1, "arith.Reshare": 2}

// opened: what a message repeats from an earlier one, and every number sent in the clear, is compared with what the
// same peer sent before.
func (fl *failure) opened() {
	w, r, pt := fl.w, fl.w.r, fl.pt
	h := w.hist[fl.cons]
	if !strings.HasPrefix(fl.cons, "arith.") {
		return // the operations of tecdsa send nothing but by those of arith
	}
	if h == nil {
		r.fail("coverage", fl.cons, fl.pos, "the operation was not run by parties that follow it")
		return
	}
	want, any := committed[fl.cons]
	found := false
	for _, q := range w.ps {
		if q == pt {
			continue
		}
		j := q.id
		if len(h[j]) != len(pt.rounds) {
			r.fail("coverage", fl.cons, fl.pos, "the operation has %d rounds here and %d when everybody follows the protocol", len(pt.rounds), len(h[j]))
			return
		}
		for k2, r2 := range h[j] {
			var vals, open []*T
			for _, x := range parts(r2.msg[pt.id]) {
				switch x.op {
				case "enc", "encprf":
					vals = append(vals, x)
				case "big", "fill":
					if _, ct := paiOf(x.args[0]); !ct {
						open = append(open, x)
					}
				}
			}
			c := fmt.Sprintf("%s, round %d", fl.cons, k2+1)
			for k1 := 0; k1 < k2 && len(vals) > 0; k1++ {
				in := map[*T]bool{}
				for _, x := range parts(h[j][k1].msg[pt.id]) {
					in[x] = true
				}
				all := true
				for _, x := range vals {
					all = all && in[x]
				}
				if all {
					found = found || k2 == want
					fl.compared(c, k1, k2, j)
				}
			}
			if len(open) > 0 {
				fl.openedNumbers(c, k2, j, len(open))
			}
		}
	}
	if any {
		r.ob(found, "committed", fl.cons, fl.pos, "what is opened in round %d was not committed to before", want+1)
	}
}

// compared: accepting a message implies that everything decoded from it equals what was received in an earlier round.
func (fl *failure) compared(c string, k1, k2, j int) {
	pt := fl.pt
	rr := pt.rounds[k2]
	m1, m2 := pt.rounds[k1].in[j], rr.in[j]
	type span struct{ lo, hi *T }
	var spans []span
	var sides, rems []*T
	for a, v := range rr.acc[j].literals() {
		if !v {
			continue
		}
		switch a.op {
		case "decodes":
			if mentions(a.args[0], m2) {
				rems = append(rems, a)
			}
		case "eqb":
			x, y := a.args[0], a.args[1]
			if mentions(x, m2) {
				x, y = y, x
			}
			if !mentions(x, m1) || mentions(x, m2) || !mentions(y, m2) || mentions(y, m1) {
				continue
			}
			sides = append(sides, y)
			for _, p := range parts(y) {
				switch {
				case p == m2:
					spans = append(spans, span{num(0), lenB(m2)})
				case p.op == "slice" && p.args[0] == m2:
					spans = append(spans, span{p.args[1], p.args[2]})
				}
			}
		case "eq0":
			if mentions(a, m1) && mentions(a, m2) {
				sides = append(sides, a)
			}
		}
	}
	cur := num(0)
	for more := true; more && cur != lenB(m2); {
		more = false
		for _, s := range spans {
			if s.lo == cur && s.hi != cur {
				cur, more = s.hi, true
				break
			}
		}
	}
	whole := cur == lenB(m2)
	sortTerms(rems)
	for _, d := range rems {
		ok := whole
		for _, s := range sides {
			ok = ok || mentionsDecoded(s, d)
		}
		fl.w.r.ob(ok, "opened-compared", c, rr.pos, "a message of party %d is accepted although a value in it was not compared with what the party committed to in round %d (%s)", j, k1+1, d)
	}
	fl.w.r.counts["values opened"] += len(rems)
}

// mentionsDecoded tells whether a term contains the value whose decoding an atom stands for.
func mentionsDecoded(t, d *T) bool {
	if (t.op == "decoded" || t.op == "decodedprf") && t.args[0] == d.args[0] {
		return true
	}
	if t.op == "len" || t.op == "declen" {
		return false // equal lengths do not make equal values
	}
	for _, a := range t.args {
		if mentionsDecoded(a, d) {
			return true
		}
	}
	for _, m := range t.mon {
		for _, f := range m.f {
			if mentionsDecoded(f.a, d) {
				return true
			}
		}
	}
	return false
}

// numbersOf collects the numbers read from a message.
func numbersOf(t, msg *T, out map[*T]bool) {
	if t.op == "frombytes" && mentions(t, msg) {
		out[t] = true
		return
	}
	for _, a := range t.args {
		numbersOf(a, msg, out)
	}
	for _, m := range t.mon {
		for _, f := range m.f {
			numbersOf(f.a, msg, out)
		}
	}
}

// openedNumbers: n numbers in a message are determined by what the same peer sent before.
func (fl *failure) openedNumbers(c string, k, j, n int) {
	pt := fl.pt
	rr := pt.rounds[k]
	xs := map[*T]bool{}
	var eqs []*T
	for a, v := range rr.acc[j].literals() {
		if !v || a.op != "eq0" || a.args[0].sort != 'p' {
			continue
		}
		before := false
		for k1 := 0; k1 < k; k1++ {
			before = before || mentions(a, pt.rounds[k1].in[j])
		}
		if before && mentions(a, rr.in[j]) {
			eqs = append(eqs, a.args[0])
			numbersOf(a, rr.in[j], xs)
		}
	}
	sortTerms(eqs)
	// the equations determine the numbers
	var sp space
	rank := 0
	for _, q := range eqs {
		for _, co := range onBases(q) {
			f := form{}
			for _, m := range toMon(co) {
				if len(m.f) == 1 && xs[m.f[0].a] {
					f[facKey(m.f)] = m.c
				}
			}
			if len(f) > 0 && sp.add(f) {
				rank++
			}
		}
	}
	fl.w.r.ob(rank >= n, "opened-number", c, rr.pos, "a message of party %d is accepted although %d of the %d numbers it opens were not compared with what the party committed to before", j, n-rank, n)
	fl.w.r.counts["numbers opened"] += n
}

// pairForm is the number a pair of points commits to, as a linear form in unknowns that stand for the received
// points; a commitment to zero has the form zero.
func (w *world) pairForm(a, b *T) form {
	f := form{}
	put := func(side string, fs []fac, c *big.Int) {
		k := side + facKey(fs)
		x := new(big.Int).Set(c)
		if o := f[k]; o != nil {
			x.Add(x, o)
		}
		if x.Mod(x, curveN); x.Sign() == 0 {
			delete(f, k)
		} else {
			f[k] = x
		}
	}
	for _, m := range toMon(redN(a)) {
		g := -1
		for i, x := range m.f {
			if x.a == ptG {
				g = i
			}
		}
		if g < 0 {
			put("0|", m.f, m.c)
			continue
		}
		// the unknown of the generator in the first component is minus that of the base in the second
		t := fromMon([]mon{{new(big.Int).Neg(m.c), append(append([]fac{}, m.f[:g]...), m.f[g+1:]...)}})
		for _, m2 := range toMon(redN(ptMul(t, w.h))) {
			put("1|", m2.f, m2.c)
		}
	}
	for _, m := range toMon(redN(b)) {
		put("1|", m.f, m.c)
	}
	return f
}

func addForm(f, g form, c *big.Int) {
	for k, x := range g {
		v := new(big.Int).Mul(c, x)
		if o := f[k]; o != nil {
			v.Add(v, o)
		}
		if v.Mod(v, curveN); v.Sign() == 0 {
			delete(f, k)
		} else {
			f[k] = v
		}
	}
}

// bound: when resharing succeeds, what the parties verified implies that the recorded commitments of any threshold of
// parties interpolate to what the recorded commitments of the secret commit to, and that the own share opens its own.
func (fl *failure) bound(from string, t int) {
	w, r, pt := fl.w, fl.w.r, fl.pt
	if fl.ok == bFalse || len(fl.vs) == 0 {
		return
	}
	src, ok := pt.secretOf(fl.cons, pt.keep[from])
	if !ok {
		return
	}
	st := &State{pc: fl.ok, mem: fl.st.mem}
	vw := pt.viewIn(st, fl.vs[0])
	var comms [][2]*T
	for _, cs := range vw.comms {
		if len(cs) == w.n {
			comms = cs
		}
	}
	if comms == nil {
		r.fail("reshare-bound", fl.cons, fl.pos, "the result does not record the commitments of all parties")
		return
	}
	var sp space
	n := 0
	for _, u := range pt.verifs {
		if len(u.stmt) != 4 || !hasTerm(u.ctx, w.h) || !impliesF(fl.ok, and(u.g, u.ok)) {
			continue
		}
		sp.add(w.pairForm(sub(u.stmt[2], u.stmt[0]), sub(u.stmt[3], u.stmt[1])))
		n++
	}
	for _, rr := range pt.rounds {
		for _, acc := range rr.acc {
			if acc == nil {
				continue
			}
			for a, v := range acc.literals() {
				if v && a.op == "eq0" && a.args[0].sort == 'p' {
					sp.add(w.pairForm(a.args[0], num(0)))
					sp.add(w.pairForm(num(0), a.args[0]))
					n++
				}
			}
		}
	}
	m1 := new(big.Int).Sub(curveN, big1)
	want := form{}
	for _, c := range src.comms {
		addForm(want, w.pairForm(c[0], c[1]), big1)
	}
	for _, set := range subsets(w.n, t) {
		got := form{}
		for _, i := range set {
			co := big.NewInt(1)
			for _, j := range set {
				if i != j {
					co.Mul(co, big.NewInt(int64(j+1)))
					co.Mul(co, new(big.Int).ModInverse(new(big.Int).Mod(big.NewInt(int64(j-i)), curveN), curveN))
					co.Mod(co, curveN)
				}
			}
			addForm(got, w.pairForm(comms[i][0], comms[i][1]), co)
		}
		addForm(got, want, m1)
		r.ob(sp.has(got), "reshare-bound", fmt.Sprintf("%s, parties %v", fl.cons, set), fl.pos, "the operation can succeed with recorded commitments that do not interpolate to the committed secret (%d equations were verified)", n)
	}
	good := false
	for _, s := range vw.ints {
		d := w.pairForm(comms[pt.id][0], comms[pt.id][1])
		addForm(d, w.pairForm(num(0), ptMul(s, ptG)), m1)
		good = good || sp.has(d)
	}
	r.ob(good, "reshare-bound", fl.cons+", own share", fl.pos, "the operation can succeed with a share that its own recorded commitment does not commit to")
	r.counts["equations verified"] += n
}

// ---- the operations

// failingSigner runs the signing protocol of one party among peers that do anything.
func failingSigner(p *Program, r *Rep, n, t int) {
	w := p.newWorld(r, n)
	r.guard(fmt.Sprintf("signing committee of %d with failures", n), func() {
		const ci, cp, cs = "tecdsa.Init", "tecdsa.Presign", "tecdsa.Sign"
		if !w.quietly(func() { w.onlyPrepare = true; w.signing(t) }) || w.ps[0].keep["p2"] == nil {
			return
		}
		pt := w.ps[0]
		pt.keep["p"] = pt.keep["p2"]
		pt.mutable = nil
		pt.mayShow, pt.atRound = nil, nil
		if q, ok := pt.keep["p"].(VPtr); ok {
			pt.mutable = []*Obj{q.o}
		}
		w.failing(pt, ci, p.fn(tecdsaPkg, "Init"), 0, false, w.id(pt), w.size(), pt.server)
		fn, v := w.method(pt, "p", "Presign")
		w.then = func(fl *failure) {
			if w.for_("C17") {
				fl.storeAfterPresign()
			}
		}
		w.failing(pt, cp, fn, 0, false, v, VInt{num(int64(t))})
		fn, v = w.method(pt, "p", "Sign")
		pt.atRound = func(st *State, rr *roundRec) {
			pt.keepDraws = append(pt.keepDraws, pt.storeDraws(st))
		}
		w.then = func(fl *failure) {
			if w.for_("C17") {
				fl.storeAfterSign()
			}
		}
		w.failing(pt, cs, fn, t, true, v, pt.number("message", sym('i', "message")))
		w.then, pt.atRound = nil, nil
	})
}

// secretsIn counts the secrets with commitments of all parties that are reachable from the protocol.
func (fl *failure) secretsIn(g *Node) int {
	n := 0
	for _, cs := range fl.pt.viewIn(&State{pc: g, mem: fl.st.mem}, fl.pt.keep["p"]).comms {
		if len(cs) == fl.w.n {
			n++
		}
	}
	return n
}

func (fl *failure) storeAfterPresign() {
	r, pt := fl.w.r, fl.pt
	fl.split1(func(g *Node) {
		checkUnchanged(r, pt.e, &State{pc: g, mem: fl.st.mem}, "store-unchanged", fl.cons+" that fails", fl.pos)
	})
	before := 0
	for _, cs := range pt.viewIn(&State{pc: bTrue, mem: map[*Obj]Val{}}, pt.keep["p"]).comms {
		if len(cs) == fl.w.n {
			before++
		}
	}
	after := fl.secretsIn(fl.ok)
	parts := len(fl.w.hist["presign parts"])
	r.ob(after == before+parts, "store-complete", fl.cons, fl.pos, "after it succeeded, the store holds %d secrets more, not the %d of a presignature", after-before, parts)
}

// split1 runs f under the condition of failure.
func (fl *failure) split1(f func(g *Node)) {
	factsOf(fl.bad, func() { f(fl.bad) })
}

func (fl *failure) storeAfterSign() {
	r, pt := fl.w.r, fl.pt
	all := pt.storeDraws(&State{pc: bTrue, mem: map[*Obj]Val{}})
	for k, left := range pt.keepDraws {
		used := map[*T]bool{}
		if k < len(pt.rounds) {
			for j, m := range pt.rounds[k].msg {
				if j != pt.id {
					drawsIn(m, used)
				}
			}
		}
		var both *T
		for d := range used {
			if left[d] {
				both = d
			}
		}
		r.ob(both == nil, "removed-first", fmt.Sprintf("%s, round %d", fl.cons, k+1), pt.rounds[k].pos, "when the message of this round is sent, the presignature it uses is still in the store")
		for _, x := range []struct {
			g *Node
			s string
		}{{fl.ok, "succeeds"}, {and(fl.bad, pt.rounds[0].g), "fails"}} {
			if x.g == bFalse {
				continue
			}
			end := pt.storeDraws(&State{pc: x.g, mem: fl.st.mem})
			both = nil
			for d := range used {
				if all[d] && end[d] {
					both = d
				}
			}
			r.ob(both == nil, "not-reused", fmt.Sprintf("%s that %s, after round %d", fl.cons, x.s, k+1), fl.pos, "the presignature used in this round is in the store afterwards")
			r.ob(len(end) > 0, "others-kept", fl.cons+" that "+x.s, fl.pos, "the other presignature is gone")
		}
	}
}

func failingRuns(p *Program, r *Rep, n, t int) {
	w := p.newWorld(r, n)
	r.guard(fmt.Sprintf("committee of %d with failures", n), func() {
		ok := w.quietly(func() {
			if w.setup() {
				w.keyGen()
				w.secrets([]int{t})
			}
		})
		if !ok {
			return
		}
		who := []int{0}
		if thorough() {
			who = nil
			for i := 0; i < n; i++ {
				who = append(who, i)
			}
		}
		for _, i := range who {
			w.failAll(w.ps[i], t)
		}
	})
}

func (w *world) method(pt *party, key, name string) (*ssa.Function, Val) {
	v := pt.keep[key]
	p, ok := v.(VPtr)
	if !ok {
		return nil, nil
	}
	fn := pt.e.methodOf(ptrTypeOf(p.o), name)
	if fn != nil && fn.Synthetic != "" && fn.Object() != nil {
		pt.opPos = w.p.pos(fn.Object().Pos())
	}
	return fn, v
}

func (w *world) failAll(pt *party, t int) {
	f := func(name string) *ssa.Function { return w.p.fn(arithPkg, name) }
	w.failing(pt, "arith.GenExpReveal", f("GenExpReveal"), 0, false, w.id(pt), strV("x"), pt.server, w.size(), pt.group)
	w.failing(pt, "arith.CheckDH", f("CheckDH"), 0, false, VPoint{sym('p', "U")}, VPoint{sym('p', "V")}, pt.group, pt.keep["key"])
	w.failing(pt, "arith.Gen", f("Gen"), 0, false, strV("a"), pt.server, pt.egf, w.id(pt), w.size())
	w.failing(pt, "arith.Mult", f("Mult"), 0, false, pt.keep["a"], pt.keep["b"], strV("c"), pt.priv, pt.pub, pt.pubs)
	fn, v := w.method(pt, "a", "Reshare")
	w.then = func(fl *failure) {
		if w.for_("C11") {
			fl.bound("a", t)
		}
	}
	w.failing(pt, "arith.Reshare", fn, 0, false, v, VInt{num(int64(t))})
	w.then = nil
	fn, v = w.method(pt, "ta", "Reveal")
	w.failing(pt, "arith.Reveal", fn, t, true, v)
	fn, v = w.method(pt, "ta", "Exp")
	w.failing(pt, "arith.Exp", fn, t, true, v)
}
