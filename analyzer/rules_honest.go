package main

// The operations of a committee, run by parties that all follow the protocol.

import (
	"fmt"
	"go/types"
	"strings"
)

// honestRun is one committee of n parties that runs every operation; thresholds and subsets are enumerated.
func honestRun(p *Program, r *Rep, n int, ts []int) {
	w := p.newWorld(r, n)
	w.report = w.for_("C12")
	r.guard(fmt.Sprintf("committee of %d", n), func() {
		if w.setup() {
			w.keyGen()
			w.secrets(ts)
		}
	})
	if w.for_("C12") {
		r.counts["messages checked"] += w.honest
	}
}

func (w *world) id(pt *party) Val { return VInt{num(int64(pt.id))} }
func (w *world) size() Val        { return VInt{num(int64(w.n))} }

// keyGen: distributed keys whose shares are published.
func (w *world) keyGen() {
	const cons = "arith.GenExpReveal"
	if !w.op(cons, func(pt *party) {
		pt.keep["key"] = pt.call(cons, arithPkg, "GenExpReveal", w.id(pt), strV("x"), pt.server, w.size(), pt.group)[0]
	}) {
		return
	}
	w.labelIs(cons, "key", "x")
	sh := make([]*T, w.n)
	sum := num(0)
	for i, pt := range w.ps {
		vw := pt.view(pt.keep["key"])
		for _, s := range vw.ints {
			for _, v := range vw.ptv {
				if len(v) == w.n && redN(sub(v[i], ptMul(s, ptG))) == num(0) {
					sh[i] = s
				}
			}
		}
		if sh[i] == nil {
			w.r.fail("own-share-published", cons, pt.opPos, "party %d does not record the point of its own share", i)
			w.stopped = true
			return
		}
		sum = redN(add(sum, sh[i]))
	}
	for i, pt := range w.ps {
		for _, v := range pt.view(pt.keep["key"]).ptv {
			if len(v) != w.n {
				continue
			}
			for j, x := range v {
				w.ob("C15", redN(sub(x, ptMul(sh[j], ptG))) == num(0), "published-shares", cons, pt.opPos, "party %d records %s as the point of the share %s of party %d", i, x, sh[j], j)
			}
		}
		if w.for_("C10") {
			d := false
			for _, m := range toMon(sh[i]) {
				if len(m.f) == 1 && strings.HasPrefix(m.f[0].a.name, "random") && strings.HasSuffix(m.f[0].a.name, pt.e.tag) {
					d = true
				}
			}
			w.r.ob(d, "share-is-drawn", cons, pt.opPos, "the share %s of party %d is not a draw of its own", sh[i], i)
		}
	}
	w.keyIs(cons, "key", ptMul(sum, ptG))
	w.checkDH(sum)
}

// checkDH: u, v and the key form a Diffie-Hellman triple.
func (w *world) checkDH(x *T) {
	const cons = "arith.CheckDH"
	u := sym('p', "U")
	if !w.op(cons, func(pt *party) {
		pt.call(cons, arithPkg, "CheckDH", VPoint{u}, VPoint{ptMul(x, u)}, pt.group, pt.keep["key"])
	}) {
		return
	}
	if !w.for_("C30") {
		return
	}
	w.r.ob(true, "accepts-triples", cons, w.ps[0].opPos, "")
	// any other point differs from the right one by some W; the test accepts iff the sum of the masks annuls W
	wp := sym('p', "W")
	fn := w.p.fn(arithPkg, "CheckDH")
	acc := make([]*Node, w.n)
	for _, pt := range w.ps {
		pt.e.events, pt.rounds = nil, nil
	}
	if !w.lockstep(cons, func(pt *party) {
		v := pt.e.callTop(pt.st, "p:CheckDH", fn, VPoint{u}, VPoint{ptAdd(ptMul(x, u), wp)}, pt.group, pt.keep["key"])
		if v == nil {
			acc[pt.id] = bFalse
		} else {
			acc[pt.id] = and(pt.st.pc, pt.e.isNilV(pt.st, v))
		}
		pt.st.pc = bTrue
	}) {
		w.r.fail("honest-run", cons, w.p.pos(fn.Pos()), "the check of another point does not finish")
		return
	}
	for i, pt := range w.ps {
		w.r.engine(pt.e, cons)
		a := acc[i]
		w.r.ob(a != bFalse && not(a) != bFalse, "rejects-others", cons, w.p.pos(fn.Pos()), "the verdict of party %d on a point that does not belong to the triple is constant (%s)", i, a)
		// the sum of one mask of every party, times W, decides
		good := false
		for _, at := range a.support() {
			if at.op != "eq0" && at.op != "eq" {
				continue
			}
			good = good || w.masksAnnul(at, wp) && implies(a, bAtom(at))
		}
		w.r.ob(good, "rejects-others", cons+" unless the masks annul the difference", w.p.pos(fn.Pos()), "party %d accepts another point under %s", i, a)
		pt.share()
	}
}

// masksAnnul tells whether an equation says that W times a sum with an own draw of every party is zero.
func (w *world) masksAnnul(at *T, wp *T) bool {
	for _, t := range at.args {
		bs := onBases(t)
		if len(bs) != 1 || bs[wp] == nil {
			continue
		}
		ok := true
		for _, pt := range w.ps {
			has := false
			for _, m := range toMon(bs[wp]) {
				if len(m.f) == 1 && strings.HasSuffix(m.f[0].a.name, pt.e.tag) {
					has = true
				}
			}
			ok = ok && has
		}
		if ok {
			return true
		}
	}
	return false
}

// secrets: distributed secrets and everything that is done with them.
func (w *world) secrets(ts []int) {
	for _, l := range []string{"a", "b"} {
		l := l
		cons := "arith.Gen"
		if !w.op(cons, func(pt *party) {
			pt.keep[l] = pt.call(cons, arithPkg, "Gen", strV(l), pt.server, pt.egf, w.id(pt), w.size())[0]
		}) {
			return
		}
		ss, ok := w.agree(cons, l)
		if !ok {
			return
		}
		w.labelIs(cons, l, l)
		if w.for_("C10") {
			for i, pt := range w.ps {
				own := map[*T]bool{}
				for _, m := range toMon(ss[i].s) {
					if len(m.f) == 1 && strings.HasPrefix(m.f[0].a.name, "random") && strings.HasSuffix(m.f[0].a.name, pt.e.tag) {
						own[m.f[0].a] = true
					}
				}
				w.r.ob(len(own) > 0 && pt.masks.add(toForm(ss[i].s)), "share-is-drawn", cons, pt.opPos, "the share %s of party %d is not a separate draw", ss[i].s, i)
			}
		}
	}
	w.mult()
	for _, t := range ts {
		w.thresholded(t, "a", "b")
	}
	for _, t1 := range ts {
		for _, t2 := range ts {
			if t1 != t2 {
				w.mixed(t1, t2)
			}
		}
	}
	if !w.stopped && w.ps[0].keep["c"] != nil && len(ts) > 0 {
		w.reshare("c", "tc", ts[0])
	}
}

// paillierKeys gives every party a key pair and the public keys of all.
func (w *world) paillierKeys() bool {
	mult := w.p.fn(arithPkg, "Mult")
	if mult == nil {
		w.r.fail("anchor", "arith.Mult", "", "arith.Mult was not found")
		return false
	}
	ptrTo := func(t types.Type) types.Type {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		return p.Elem()
	}
	var privT, pubT types.Type
	for i := 0; i < mult.Signature.Params().Len(); i++ {
		t := mult.Signature.Params().At(i).Type()
		if e := ptrTo(t); e != nil {
			switch {
			case strings.HasSuffix(namedPath(e), "paillier.PrivateKey"):
				privT = e
			case strings.HasSuffix(namedPath(e), "paillier.PublicKey"):
				pubT = e
			}
		}
	}
	if privT == nil || pubT == nil {
		w.r.fail("anchor", "arith.Mult", w.p.pos(mult.Pos()), "Mult does not take Paillier keys")
		return false
	}
	for _, pt := range w.ps {
		e := pt.e
		obj := func(name string, t types.Type, v Val) VPtr {
			o := e.newObj(name, t)
			o.input = true
			e.globalMem[o] = v
			return VPtr{o: o}
		}
		pub := func(k int) VPtr {
			n := pt.number(fmt.Sprintf("N%d", k), paiN(k))
			fs := append([]Val{}, e.zero(pubT).(VStruct).f...)
			fs[0] = n
			return obj(fmt.Sprintf("paillier key of party %d", k), pubT, VStruct{fs})
		}
		arr := VArr{elem: types.NewPointer(pubT), base: "zero", n: num(int64(w.n))}
		for k := 0; k < w.n; k++ {
			arr = appendW(arr, Write{g: bTrue, idx: num(int64(k)), val: pub(k)})
		}
		a := obj("paillier keys", types.NewSlice(types.NewPointer(pubT)), arr)
		pt.pubs = VSlice{a, num(0), num(int64(w.n)), num(int64(w.n))}
		pt.pub = pub(pt.id)
		fs := append([]Val{}, e.zero(privT).(VStruct).f...)
		for i := range fs {
			switch fs[i].(type) {
			case VStruct:
				fs[i] = e.globalMem[pt.pub.(VPtr).o]
			default:
				fs[i] = pt.number("private", sym('i', fmt.Sprintf("random private Paillier value %d%s", i, e.tag)))
			}
		}
		pt.priv = obj("private paillier key", privT, VStruct{fs})
	}
	return true
}

func (w *world) mult() {
	const cons = "arith.Mult"
	if w.stopped || !w.paillierKeys() {
		return
	}
	if !w.op(cons, func(pt *party) {
		pt.keep["c"] = pt.call(cons, arithPkg, "Mult", pt.keep["a"], pt.keep["b"], strV("c"), pt.priv, pt.pub, pt.pubs)[0]
	}) {
		return
	}
	as, ok1 := w.agree(cons+" first factor", "a")
	bs, ok2 := w.agree(cons+" second factor", "b")
	cs, ok3 := w.agree(cons, "c")
	if !ok1 || !ok2 || !ok3 {
		return
	}
	w.labelIs(cons, "c", "c")
	prod := redN(mul(sumOf(as, share), sumOf(bs, share)))
	got := sumOf(cs, share)
	w.ob("C28", sameMod(prod, got), "product", cons, w.ps[0].opPos, "the shares of the result add up to %s, not to the product %s", got, prod)
}

// reshare makes a thresholded secret and checks that any threshold of shares gives the secret.
func (w *world) reshare(from, to string, t int) ([]*secret, bool) {
	cons := "arith.Reshare"
	if w.stopped {
		return nil, false
	}
	before, ok := w.agree(cons+" source", from)
	if !ok {
		return nil, false
	}
	lab := make([]Val, w.n)
	for i, pt := range w.ps {
		if p, ok := pt.keep[from].(VPtr); ok {
			if fn := pt.e.methodOf(types.NewPointer(p.o.typ), "Label"); fn != nil {
				lab[i] = pt.e.callTop(pt.st, "acc:Label", fn, p)
			}
		}
	}
	if !w.op(cons, func(pt *party) {
		pt.mayShow = func(rr *roundRec, to int, x *T) bool { pt.shown = append(pt.shown, shownInt{rr, to, x}); return true }
		defer func() { _ = pt.mayShow }()
		pt.shown = nil
		pt.keep[to] = pt.do(cons, pt.keep[from], "Reshare", VInt{num(int64(t))})[0]
	}) {
		return nil, false
	}
	after, ok := w.agree(cons, to)
	if !ok {
		return nil, false
	}
	for i := range w.ps {
		if s, ok := lab[i].(VStr); ok {
			w.labelIs(cons, to, strings.Trim(s.t.name, "\""))
			break
		}
	}
	w.thresholdIs(cons, to, int64(t))
	w.refused(from)
	want := sumOf(before, share)
	for _, s := range subsets(w.n, t) {
		got := lagrangeAt0(s, after)
		w.ob("C24", sameMod(got, want), "shares-interpolate", cons, w.ps[0].opPos, "the shares of parties %v after resharing with threshold %d interpolate to %s, not to the secret %s", s, t, got, want)
	}
	if w.for_("C13 C10") {
		w.coalitions(cons, t)
	}
	for _, pt := range w.ps {
		pt.mayShow, pt.shown = nil, nil
	}
	return after, true
}

// refused: resharing with a threshold that makes no sense fails at once.
func (w *world) refused(from string) {
	if !w.for_("C16") || w.stopped || w.badT[from] {
		return
	}
	if w.badT == nil {
		w.badT = map[string]bool{}
	}
	w.badT[from] = true
	for _, t := range []int{0, w.n + 1, 1<<16 - 1} {
		cons := fmt.Sprintf("arith.Reshare with threshold %d among %d", t, w.n)
		failed := make([]bool, w.n)
		n0 := len(w.r.obs)
		w.lockstep(cons, func(pt *party) {
			p, _ := pt.keep[from].(VPtr)
			if p.o == nil {
				return
			}
			fn := pt.e.methodOf(types.NewPointer(p.o.typ), "Reshare")
			if fn == nil {
				return
			}
			v := pt.e.callTop(pt.st, "p:Reshare", fn, p, VInt{num(int64(t))})
			if v == nil || len(pt.e.panics()) > 0 {
				return
			}
			_, err := results(fn.Signature, pt.only(pt.st, v))
			failed[pt.id] = and(pt.st.pc, pt.e.isNilV(pt.st, err)) == bFalse
		})
		w.r.obs = w.r.obs[:n0]
		for _, pt := range w.ps {
			w.r.ob(failed[pt.id], "refused", cons, pt.opPos, "party %d does not refuse the threshold", pt.id)
			pt.st.pc = bTrue
			pt.e.undec = nil
			pt.share()
		}
	}
}

type shownInt struct {
	rr *roundRec
	to int
	x  *T
}

// coalitions checks that what is sent in the clear to fewer than threshold parties does not determine the share that is distributed.
func (w *world) coalitions(cons string, t int) {
	for _, pt := range w.ps {
		var secret form
		vw, ok := pt.secretOf(cons, pt.keep[w.source])
		if ok {
			secret = toForm(vw.s)
		}
		if len(pt.shown) == 0 {
			for _, rr := range pt.last {
				for j, m := range rr.msg {
					var ints []*T
					if j != pt.id {
						nakedInts(m, &ints)
					}
					for _, x := range ints {
						pt.shown = append(pt.shown, shownInt{rr, j, x})
					}
				}
			}
		}
		for _, c := range subsets(w.n, t-1) {
			in := map[int]bool{}
			for _, i := range c {
				in[i] = true
			}
			if in[pt.id] {
				continue
			}
			var sp space
			n := 0
			var at *roundRec
			for _, s := range pt.shown {
				if in[s.to] {
					sp.add(toForm(s.x))
					n++
					at = s.rr
				}
			}
			if at == nil {
				at = &roundRec{}
			}
			w.r.ob(secret != nil && !sp.has(secret), "below-threshold", cons, at.pos, "what party %d sends in the clear to parties %v determines its share, although the threshold is %d", pt.id, c, t)
		}
		w.r.counts["numbers sent in the clear in resharing"] += len(pt.shown)
	}
}

// thresholded reshapes two secrets, combines them, reveals and exponentiates.
func (w *world) thresholded(t int, a, b string) {
	w.source = a
	as, ok := w.reshare(a, "ta", t)
	if !ok {
		return
	}
	w.source = b
	bs, ok := w.reshare(b, "tb", t)
	if !ok {
		return
	}
	for _, pt := range w.ps {
		pt.keep[fmt.Sprintf("ta%d", t)], pt.keep[fmt.Sprintf("tb%d", t)] = pt.keep["ta"], pt.keep["tb"]
	}
	// Lin
	cons := "arith.Lin"
	alpha, beta := sym('i', "alpha"), sym('i', "beta")
	if !w.op(cons, func(pt *party) {
		pt.keep["l"] = pt.call(cons, arithPkg, "Lin", pt.number("alpha", alpha), pt.number("beta", beta), pt.keep["ta"], pt.keep["tb"], strV("l"))[0]
	}) {
		return
	}
	ls, ok := w.agree(cons, "l")
	if !ok {
		return
	}
	w.labelIs(cons, "l", "l")
	w.thresholdIs(cons, "l", int64(t))
	for i, pt := range w.ps {
		comb := func(x, y *T) *T { return redN(add(mul(alpha, x), mul(beta, y))) }
		w.ob("C15", sameMod(ls[i].s, comb(as[i].s, bs[i].s)), "linear-combination", cons, pt.opPos, "the share of party %d is %s", i, ls[i].s)
		w.ob("C15", sameMod(ls[i].r, comb(as[i].r, bs[i].r)), "linear-combination", cons, pt.opPos, "the randomizer of party %d is %s", i, ls[i].r)
	}
	sum := lagrangeAt0(firstN(t), ls)
	for _, set := range w.deliveries(t) {
		w.reveal(set, t, "l", sum, ls)
		w.exp(set, t, "l", sum, ls)
	}
	if t == 2 || w.n == 2 {
		w.source = "l"
		if _, ok := w.reshare("l", "tl", w.n); ok && false {
			return
		}
	}
}

// mixed combines secrets with different thresholds: as many shares as the larger one give the combination.
func (w *world) mixed(t1, t2 int) {
	cons := fmt.Sprintf("arith.Lin of secrets with thresholds %d and %d", t1, t2)
	a, b := fmt.Sprintf("ta%d", t1), fmt.Sprintf("tb%d", t2)
	if w.stopped || w.ps[0].keep[a] == nil || w.ps[0].keep[b] == nil {
		return
	}
	as, ok := w.agree(cons+" first", a)
	if !ok {
		return
	}
	bs, ok := w.agree(cons+" second", b)
	if !ok {
		return
	}
	alpha, beta := sym('i', "alpha"), sym('i', "beta")
	if !w.op(cons, func(pt *party) {
		pt.keep["m"] = pt.call(cons, arithPkg, "Lin", pt.number("alpha", alpha), pt.number("beta", beta), pt.keep[a], pt.keep[b], strV("m"))[0]
	}) {
		return
	}
	t := t1
	if t2 > t {
		t = t2
	}
	w.thresholdIs(cons, "m", int64(t))
	ms, ok := w.agree(cons, "m")
	if !ok {
		return
	}
	want := redN(add(mul(alpha, lagrangeAt0(firstN(t1), as)), mul(beta, lagrangeAt0(firstN(t2), bs))))
	for _, s := range subsets(w.n, t) {
		got := lagrangeAt0(s, ms)
		w.ob("C15 C24", sameMod(got, want), "shares-interpolate", cons, w.ps[0].opPos, "the shares of parties %v interpolate to %s, not to %s", s, got, want)
	}
}

func firstN(t int) []int {
	var s []int
	for i := 0; i < t; i++ {
		s = append(s, i)
	}
	return s
}

// deliveries enumerates which parties' messages arrive.
func (w *world) deliveries(t int) [][]int {
	var out [][]int
	for k := 1; k <= w.n; k++ {
		out = append(out, subsets(w.n, k)...)
	}
	return out
}

func (w *world) setSubset(set []int) {
	m := map[int]bool{}
	for _, i := range set {
		m[i] = true
	}
	for _, pt := range w.ps {
		pt.subset = nil
		if len(set) < w.n {
			pt.subset = m
		}
	}
}

// available is the number of parties whose shares a party has.
func available(set []int, id int) int {
	n := len(set)
	for _, i := range set {
		if i == id {
			return n
		}
	}
	return n + 1
}

// reveal: opens a thresholded secret when only the messages of some parties arrive.
func (w *world) reveal(set []int, t int, key string, want *T, ss []*secret) {
	w.partial("arith.Reveal", "Reveal", set, t, key, func(pt *party, cons string, v Val) {
		p, ok := v.(VPtr)
		var x *T
		if ok {
			if i, ok := pt.only(pt.st, pt.e.load(pt.st, p, 0)).(VInt); ok {
				x = i.t
			}
		}
		w.ob("C24", x != nil && sameMod(x, want), "reveals-secret", cons, pt.opPos, "with the messages of parties %v, threshold %d, party %d computes %s, not the secret %s", set, t, pt.id, describe(v), want)
		if x != nil {
			lo, hi := bounds(x)
			w.ob("C22", lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(curveN) < 0, "reduced", cons, pt.opPos, "the revealed value %s is not reduced modulo the order", x)
		}
	}, func(pt *party, rr *roundRec, to int, x *T) bool { return sameMod(x, ss[pt.id].s) })
}

func (w *world) exp(set []int, t int, key string, want *T, ss []*secret) {
	w.partial("arith.Exp", "Exp", set, t, key, func(pt *party, cons string, v Val) {
		pt.keep["expkey"] = v
		vw := pt.view(v)
		in := map[int]bool{pt.id: true}
		for _, i := range set {
			in[i] = true
		}
		w.accessorOf(pt, cons, "expkey", "PublicKey", func(v Val) (bool, string) {
			x, ok := v.(VPoint)
			return ok && redN(sub(x.t, ptMul(want, ptG))) == num(0), describe(v) + " instead of the point of the secret"
		}, "C24 C15")
		w.accessorOf(pt, cons, "expkey", "Label", func(v Val) (bool, string) {
			s, ok := v.(VStr)
			return ok && s.t == lit(key), describe(v)
		}, "C15")
		w.accessorOf(pt, cons, "expkey", "Threshold", func(v Val) (bool, string) {
			i, ok := v.(VInt)
			return ok && i.t == num(int64(t)), describe(v)
		}, "C15")
		if len(set) == w.n {
			found := false
			for _, pv := range vw.ptv {
				good := len(pv) == w.n
				for j := range pv {
					good = good && redN(sub(pv[j], ptMul(ss[j].s, ptG))) == num(0)
				}
				found = found || good
			}
			w.ob("C15", found, "published-shares", cons, pt.opPos, "party %d does not record the points of the shares of all parties", pt.id)
		}
	}, nil)
}

// accessorOf calls a method of the result of one party.
func (w *world) accessorOf(pt *party, cons, key, name string, want func(v Val) (bool, string), props string) {
	v := pt.keep[key]
	p, ok := v.(VPtr)
	if !ok {
		return
	}
	fn := pt.e.methodOf(types.NewPointer(p.o.typ), name)
	if fn == nil {
		return
	}
	pt.e.events = nil
	res := pt.e.callTop(pt.st, "acc:"+name, fn, v)
	if res == nil {
		w.ob(props, false, "accessor", cons+" "+name, pt.opPos, "%s of the result of party %d cannot finish%s", name, pt.id, pt.trouble())
		pt.st.pc = bTrue
		return
	}
	good, got := want(pt.only(pt.st, res))
	w.ob(props, good, "accessor", cons+" "+name, pt.opPos, "%s of the result of party %d is %s", name, pt.id, got)
}

// partial runs an operation that may go on when some parties are missing.
func (w *world) partial(cons, method string, set []int, t int, key string, result func(pt *party, cons string, v Val), may func(pt *party, rr *roundRec, to int, x *T) bool) {
	if w.stopped {
		return
	}
	w.setSubset(set)
	defer w.setSubset(firstN(w.n))
	type res struct {
		v  Val
		ok bool
	}
	out := make([]res, w.n)
	var pos string
	for _, pt := range w.ps {
		pt := pt
		pt.mayShow = nil
		if may != nil {
			pt.mayShow = func(rr *roundRec, to int, x *T) bool { return may(pt, rr, to, x) }
		}
	}
	if !w.op(cons, func(pt *party) {
		p, _ := pt.keep[key].(VPtr)
		fn := pt.e.methodOf(types.NewPointer(p.o.typ), method)
		if fn == nil {
			w.r.fail("anchor", cons, "", "method %s was not found", method)
			panic(abortErr{})
		}
		pos = w.p.pos(fn.Pos())
		pt.opPos = pos
		v := pt.e.callTop(pt.st, "p:"+method, fn, p)
		if v == nil {
			w.r.fail("honest-run", cons, pos, "the operation cannot finish%s", pt.trouble())
			panic(abortErr{})
		}
		vs, err := results(fn.Signature, pt.only(pt.st, v))
		isOK := pt.e.isNilV(pt.st, err)
		switch {
		case implies(pt.st.pc, isOK):
			out[pt.id] = res{pt.only(pt.st, vs[0]), true}
		case and(pt.st.pc, isOK) == bFalse || !feasible(and(pt.st.pc, isOK)):
		default:
			w.r.fail("decidable", cons, pos, "success depends on %s", isOK)
			panic(abortErr{})
		}
		if out[pt.id].ok {
			result(pt, cons, out[pt.id].v)
		}
	}) {
		return
	}
	for i, pt := range w.ps {
		pt.mayShow = nil
		enough := len(set) == w.n || available(set, i) >= t
		if enough {
			w.ob("C24 C16", out[i].ok, "enough-shares", cons, pos, "with the messages of parties %v and threshold %d, party %d gives up", set, t, i)
		} else {
			w.ob("C16 C24", !out[i].ok, "too-few-shares", cons, pos, "with the messages of parties %v and threshold %d, party %d returns a result", set, t, i)
		}
	}
}
