package main

// A committee of parties, interpreted in lockstep: every party runs the current source of a protocol operation on
// its own abstract memory, and at every communication round the parties exchange the terms they send.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	arithPkg  = "pkg/arith"
	syncPkg   = "pkg/sync"
	tecdsaPkg = "pkg/tecdsa"
)

var serverType types.Type = types.NewNamed(types.NewTypeName(0, nil, "AbstractServer", nil), types.NewStruct(nil, nil), nil)

var otherErr types.Type = types.NewNamed(types.NewTypeName(0, nil, "OtherError", nil), types.NewStruct(nil, nil), nil)

// roundRec is one communication round of one party.
type roundRec struct {
	op        string
	k         int // number of the round within the operation
	g         *Node
	pos       string
	inReshare bool // the round is one of a resharing
	msg       []*T // by receiver
	bcast     bool
	in        []*T // by sender
	acc       []*Node
	ok        *Node // success of the round (failure mode)
	oob       bool
	evs       int
	call      []*Node // failure mode: the check was called for the party
	rerr      *Node   // failure mode: the error is a round error
	miss      *Node   // failure mode: it names missing parties
	nev       int     // failure mode: events before the round
	obj       *Obj    // failure mode: the round error
}

type proofInfo struct {
	typ  string
	stmt []*T
	ctx  []*T
	who  int
}

// use is a call of a prover or a verifier.
type use struct {
	typ  string
	prf  *T
	ctx  []*T // points of the factory
	stmt []*T // points of the statement
	wit  []*T // numbers of the witness
	g    *Node
	ok   *Node
	pos  string
	k    int // number of rounds before
	from int // sender of the message being checked, or -1
	evn  int
}

type world struct {
	p           *Program
	r           *Rep
	n           int
	ps          []*party
	proofs      map[*T]*proofInfo
	h           *T
	report      bool
	pai         bool
	curOp       string
	mism        string
	honest      int
	stopped     bool
	badT        map[string]bool // the secrets that were reshared with bad thresholds
	usedUp      map[int]bool
	source      string // the secret that is being reshared
	onlyPrepare bool   // stop when presignatures are made
	then        func(fl *failure)
	hist        map[string][][]*roundRec // the rounds of the last honest run of an operation, by party
}

type party struct {
	w         *world
	id        int
	e         *Eng
	st        *State
	egf       Val
	server    Val
	group     Val
	rounds    []*roundRec
	last      []*roundRec // rounds of the operation that finished last
	proves    []use
	verifs    []use
	decs      []use // decoded proofs
	opened    []use // everything else decoded from a message
	paienc    map[*T]paiCt
	pubs      Val
	priv      Val
	pub       Val
	fail      bool // failure mode: rounds may fail and messages are arbitrary
	subset    map[int]bool
	from      int
	cur       *roundRec
	keep      map[string]Val
	resume    chan bool
	yieldTo   chan yield
	facts     *Facts
	out       *roundRec
	abort     bool
	chals     []challenge
	opPos     string
	atRound   func(st *State, rr *roundRec)
	mutable   []*Obj // what an operation may change
	mayShow   func(rr *roundRec, to int, x *T) bool
	masks     space
	keepDraws []map[*T]bool
	shown     []shownInt
	sent      map[*T]bool
	private   map[*T]bool // messages that are for this party only
}

type yield struct {
	done bool
	x    interface{}
}

type abortErr struct{}

// newWorld makes a committee of n parties with a common base for commitments.
func (p *Program) newWorld(r *Rep, n int) *world {
	w := &world{p: p, r: r, n: n, proofs: map[*T]*proofInfo{}, h: sym('p', "h"), report: true}
	for i := 0; i < n; i++ {
		pt := &party{w: w, id: i, from: -1, keep: map[string]Val{}, paienc: map[*T]paiCt{}}
		e := newEng(p)
		e.tag = fmt.Sprintf("·P%d", i)
		e.sureDraws = true
		e.callHook = pt.callHook
		e.invokeHook = pt.invokeHook
		pt.e = e
		e.runInits()
		e.events, e.undec = nil, nil
		pt.st = e.newState()
		pt.group = VIface{absGroup, VNil{}}
		pt.server = VIface{serverType, VOpq{sym('o', fmt.Sprintf("server%d", i))}}
		pt.facts = pt.st.pc.Facts()
		w.ps = append(w.ps, pt)
	}
	return w
}

// share marks everything that exists as not to be changed, and forgets what happened so far.
func (pt *party) share() {
	for o, v := range pt.st.mem {
		o.global = true
		pt.e.globalMem[o] = v
	}
	pt.st = &State{pc: pt.st.pc, mem: map[*Obj]Val{}}
	pt.e.events = nil
	pt.last = pt.rounds
	pt.rounds, pt.proves, pt.verifs, pt.decs, pt.opened = nil, nil, nil, nil, nil
}

// lockstep runs f for every party; the parties meet at every round. It reports whether all finished.
func (w *world) lockstep(op string, f func(pt *party)) bool {
	w.curOp = op
	saved := curFacts
	defer func() { curFacts = saved }()
	live := map[*party]bool{}
	for _, pt := range w.ps {
		pt := pt
		pt.resume, pt.yieldTo, pt.out, pt.abort = make(chan bool), make(chan yield), nil, false
		live[pt] = true
		go func() {
			<-pt.resume
			var x interface{}
			func() {
				defer func() { x = recover() }()
				if !pt.abort {
					f(pt)
				}
			}()
			pt.yieldTo <- yield{true, x}
		}()
	}
	good := true
	var failure interface{}
	for len(live) > 0 {
		var waiting, done []*party
		for _, pt := range w.ps {
			if !live[pt] {
				continue
			}
			if !good {
				pt.abort = true
			}
			curFacts = pt.facts
			pt.resume <- true
			y := <-pt.yieldTo
			pt.facts = curFacts
			if y.done {
				delete(live, pt)
				done = append(done, pt)
				if y.x != nil {
					good = false
					if _, ok := y.x.(abortErr); !ok && failure == nil {
						failure = y.x
					}
				}
				continue
			}
			waiting = append(waiting, pt)
		}
		if len(waiting) > 0 && len(waiting) < w.n {
			if good {
				x := waiting[0]
				w.mism = fmt.Sprintf("party %d waits in a round at %s that not all parties run", x.id, x.out.pos)
			}
			good = false
			continue
		}
		if good && len(waiting) == w.n {
			for _, pt := range w.ps {
				pt.out.in = make([]*T, w.n)
				for _, q := range w.ps {
					pt.out.in[q.id] = q.out.msg[pt.id]
				}
			}
		}
	}
	if failure != nil {
		panic(failure)
	}
	return good
}

func (pt *party) exchange(rr *roundRec) {
	pt.out = rr
	pt.yieldTo <- yield{}
	<-pt.resume
	if pt.abort {
		panic(abortErr{})
	}
}

// ---- rounds

func (e *Eng) elem(st *State, s VSlice, i int64) Val {
	return e.load(st, VPtr{s.arr.o, s.arr.inst, append(append([]Step{}, s.arr.path...), Step{idx: add(s.off, num(i))})}, 0)
}

// constLen is the length of a slice when it is known.
func constLen(s VSlice) (int64, bool) {
	n, ok := isConst(s.ln)
	if !ok || !n.IsInt64() {
		return 0, false
	}
	return n.Int64(), true
}

// messages evaluates the argument of Round: what goes to each party.
func (pt *party) messages(st *State, v Val, site *Site) (msgs []*T, bcast bool) {
	e := pt.e
	msgs = make([]*T, pt.w.n)
	for i := range msgs {
		msgs[i] = emptyB
	}
	as := e.alts(v, st.pc)
	if len(as) != 1 {
		e.undecided(site.pos, "messages of a round are %s", describe(v))
		return
	}
	sl, ok := as[0].v.(VSlice)
	if !ok {
		e.undecided(site.pos, "messages of a round are %s", describe(as[0].v))
		return
	}
	n, ok := constLen(sl)
	if !ok {
		e.undecided(site.pos, "number of messages of a round")
		return
	}
	get := func(i int64) *T {
		x := e.elem(st, sl, i)
		xs := e.alts(x, st.pc)
		if len(xs) != 1 {
			e.undecided(site.pos, "message of a round is %s", describe(x))
			return emptyB
		}
		b, ok := e.sliceBytes(st, xs[0].v, site.pos)
		if !ok {
			e.undecided(site.pos, "message of a round is %s", describe(xs[0].v))
		}
		return b
	}
	if n == 1 {
		b := get(0)
		for i := range msgs {
			msgs[i] = b
		}
		return msgs, true
	}
	for i := range msgs {
		if i == pt.id {
			continue // not sent
		}
		if int64(i) >= n {
			e.mayPanic(st, site, bFalse, fmt.Sprintf("no message for party %d", i))
			return
		}
		msgs[i] = get(int64(i))
	}
	return
}

func (pt *party) invokeHook(e *Eng, st *State, m string, recv Val, args []Val, site *Site) (Val, bool) {
	i, ok := recv.(VIface)
	if !ok || i.typ != serverType {
		return nil, false
	}
	if m != "Round" || len(args) != 2 {
		e.undecided(site.pos, "method %s of the server", m)
		return VNil{}, true
	}
	return pt.round(st, args[0], args[1], site), true
}

func (pt *party) round(st *State, toSend, check Val, site *Site) Val {
	e, w := pt.e, pt.w
	rr := &roundRec{op: w.curOp, k: len(pt.rounds), g: st.pc, pos: e.p.pos(site.pos), evs: len(e.events)}
	for _, f := range e.stack {
		rr.inReshare = rr.inReshare || f.fn.Name() == "Reshare" // an exported name of pkg/arith
	}
	rr.msg, rr.bcast = pt.messages(st, toSend, site)
	pt.rounds = append(pt.rounds, rr)
	if pt.atRound != nil {
		pt.atRound(st, rr)
	}
	rr.acc = make([]*Node, w.n)
	pt.cur = rr
	defer func() { pt.cur = nil }()
	if pt.fail {
		return pt.failingRound(rr, st, check, site)
	}
	if pt.subset != nil {
		return pt.partialRound(rr, st, check, site)
	}
	pt.exchange(rr)
	if st.pc == bFalse {
		return VNil{}
	}
	for j := 0; j < w.n; j++ {
		if j == pt.id {
			continue
		}
		v, data := pt.check(st, check, j, rr.in[j], site)
		if st.pc == bFalse {
			return VNil{}
		}
		ok := e.isNilV(st, v)
		rr.acc[j] = simplify(st.pc, ok)
		cons := fmt.Sprintf("%s, round %d", w.curOp, rr.k+1)
		if w.report {
			w.r.ob(ok == bTrue || implies(st.pc, ok), "honest-accepted", cons, rr.pos, "party %d rejects the message of party %d, or may reject it: %s", pt.id, j, rejection(e, st, v))
			pt.leftover(cons, st, rr, data, j)
		} else if w.r.id == "C11" || w.r.id == "C24" {
			sure := ok == bTrue || implies(st.pc, ok)
			other := false // the check depends on a proof verified for something it was not made for
			if !sure {
				for _, a := range ok.support() {
					other = other || strings.HasPrefix(a.op, "verifies")
				}
			}
			w.r.ob(!other, "own-statement", cons, rr.pos, "party %d verifies a proof of party %d against something other than what it was made for: %s", pt.id, j, rejection(e, st, v))
		}
		w.honest++
		st.pc = and(st.pc, ok)
		if st.pc == bFalse {
			panic(abortErr{})
		}
		e.focus(st)
	}
	return VNil{}
}

func (e *Eng) focus(st *State) { curFacts = st.pc.Facts() }

func rejection(e *Eng, st *State, v Val) string {
	var s []string
	for _, a := range e.alts(v, st.pc) {
		if _, ok := a.v.(VNil); !ok {
			s = append(s, describe(a.v)+" if "+a.g.String())
		}
	}
	if len(s) > 3 {
		s = s[:3]
	}
	return strings.Join(s, "; ")
}

// check calls the check function of a round on a message.
func (pt *party) check(st *State, check Val, j int, data *T, site *Site) (Val, *Obj) {
	e := pt.e
	s2 := &Site{site.fr, site.in, site.pos, fmt.Sprintf("%s~from%d", site.path, j)}
	sl := e.newBytes(st, s2, "message", data).(VSlice)
	pt.from = j
	defer func() { pt.from = -1 }()
	e.focus(st)
	v := e.fork1(st, check, func(st *State, f Val) Val {
		fn, ok := f.(VFunc)
		if !ok || fn.fn == nil {
			e.mayPanic(st, site, bFalse, "check function is "+describe(f))
			return VNil{}
		}
		return e.callFn(st, fn.fn, fn.bind, []Val{VInt{num(int64(j))}, sl}, s2)
	})
	return v, sl.arr.o
}

// leftover reports bytes of a message that a buffer over it leaves unread.
func (pt *party) leftover(cons string, st *State, rr *roundRec, msg *Obj, j int) {
	for _, v := range st.mem {
		b, ok := v.(VBuf)
		if ok && b.has && !b.stale && b.sl.arr.o == msg {
			rest, _ := pt.e.sliceBytes(st, b.sl, 0)
			pt.w.r.ob(rest == emptyB, "whole-message-read", cons, rr.pos, "party %d does not read %s at the end of the message of party %d", pt.id, rest, j)
		}
	}
}

// partialRound delivers the messages of a subset of the parties and fails with the others as missing.
func (pt *party) partialRound(rr *roundRec, st *State, check Val, site *Site) Val {
	e, w := pt.e, pt.w
	pt.exchange(rr)
	var missing []int64
	for j := 0; j < w.n; j++ {
		if j == pt.id {
			continue
		}
		if !pt.subset[j] {
			missing = append(missing, int64(j))
			continue
		}
		v, _ := pt.check(st, check, j, rr.in[j], site)
		if st.pc == bFalse {
			return VNil{}
		}
		st.pc = and(st.pc, e.isNilV(st, v))
		e.focus(st)
	}
	if len(missing) == 0 {
		return VNil{}
	}
	t := w.p.named(syncPkg, "RoundError")
	if t == nil {
		e.undecided(site.pos, "sync.RoundError was not found")
		return VNil{}
	}
	o := e.alloc(site, "rounderror", t)
	st.mem[o] = e.zero(t)
	a := e.alloc(site, "missing", types.NewSlice(types.Typ[types.Uint16]))
	arr := VArr{elem: types.Typ[types.Uint16], base: "zero", n: num(int64(len(missing)))}
	for i, m := range missing {
		arr = appendW(arr, Write{g: bTrue, idx: num(int64(i)), val: VInt{num(m)}})
	}
	st.mem[a] = arr
	pt.keep["missing"] = VSlice{VPtr{o: a}, num(0), num(int64(len(missing))), num(int64(len(missing)))}
	return VIface{types.NewPointer(t), VPtr{o: o}}
}

// failingRound: messages are arbitrary bytes, and any part of the round may fail.
func (pt *party) failingRound(rr *roundRec, st *State, check Val, site *Site) Val {
	e, w := pt.e, pt.w
	name := func(s string) *Node { return bsym(fmt.Sprintf("%s#%d%s", s, rr.k, e.tag)) }
	rr.call = make([]*Node, w.n)
	rr.in = make([]*T, w.n)
	ok := name("delivered")
	for j := 0; j < w.n; j++ {
		if j == pt.id {
			continue
		}
		rr.call[j] = name(fmt.Sprintf("received-from-%d", j))
		rr.in[j] = sym('b', fmt.Sprintf("msg#%d·from%d%s", rr.k, j, e.tag))
		n := lenB(rr.in[j])
		symLo[n], symHi[n] = big0, big.NewInt(maxAlloc)
		s2 := st.clone()
		s2.pc = and(st.pc, rr.call[j])
		v, _ := pt.check(s2, check, j, rr.in[j], site)
		acc := bFalse
		if s2.pc != bFalse {
			acc = e.isNilV(s2, v)
		}
		rr.acc[j] = acc
		ok = and(ok, and(rr.call[j], acc))
		s3 := st.clone()
		s3.pc = and(st.pc, not(rr.call[j]))
		sts := []*State{s3}
		if s2.pc != bFalse {
			sts = append(sts, s2)
		}
		m := e.mergeStates(sts)
		st.pc, st.mem = m.pc, m.mem
		e.focus(st)
	}
	rr.ok = ok
	rr.rerr, rr.miss = name("is-round-error"), name("names-missing")
	t := w.p.named(syncPkg, "RoundError")
	if t == nil {
		e.undecided(site.pos, "sync.RoundError was not found")
		return VNil{}
	}
	o := e.alloc(site, "rounderror", t)
	rr.obj = o
	st.mem[o] = e.symContent(fmt.Sprintf("rounderror#%d", rr.k), t, nil)
	bad := not(ok)
	return mkUnion([]Alt{
		{ok, VNil{}},
		{and(bad, rr.rerr), VIface{types.NewPointer(t), VPtr{o: o}}},
		{and(bad, not(rr.rerr)), VIface{otherErr, VOpq{sym('o', fmt.Sprintf("rounderr#%d%s", rr.k, e.tag))}}},
	})
}

// ---- hooks for calls

func ptrTypeOf(o *Obj) types.Type { return types.NewPointer(o.typ) }

func inPkg(fn *ssa.Function, path string) bool {
	pk := fn.Pkg
	if pk == nil && fn.Object() != nil {
		return fn.Object().Pkg() != nil && fn.Object().Pkg().Path() == modPath+"/"+path
	}
	return pk != nil && pk.Pkg.Path() == modPath+"/"+path
}

func recvNamed(fn *ssa.Function) *types.Named {
	rc := fn.Signature.Recv()
	if rc == nil {
		return nil
	}
	t := rc.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// realProof tells whether a proof type of package zkpok has a prover.
func (w *world) realProof(name string) bool {
	return w.p.fn(zkpokPkg, "New"+name) != nil && w.p.named(zkpokPkg, name) != nil
}

func (pt *party) callHook(e *Eng, st *State, fn *ssa.Function, args []Val, site *Site) (Val, bool) {
	if e.inInit {
		return nil, false
	}
	full := fn.String()
	if full == modPath+"/pkg/crypto.HashToBigInt" {
		return e.fork(st, args, func(st *State, args []Val) Val {
			msg, ok := e.sliceBytes(st, args[0], site.pos)
			if !ok {
				e.undecided(site.pos, "hash of %s", describe(args[0]))
			}
			t := mkTerm("chal", 'i', "", msg)
			symLo[t], symHi[t] = big0, new(big.Int).Sub(curveN, big1)
			return e.newInt(st, site, "challenge", t)
		}), true
	}
	if inPkg(fn, zkpokPkg) {
		if n := recvNamed(fn); n != nil {
			if pt.w.realProof(n.Obj().Name()) {
				switch fn.Name() {
				case "Encode", "Decode", "Verify":
					return pt.proofMethod(st, n, fn, args, site), true
				}
			}
			return nil, false
		}
		if strings.HasPrefix(fn.Name(), "New") && pt.w.realProof(fn.Name()[3:]) {
			return pt.prove(st, fn.Name()[3:], args, site), true
		}
		return nil, false
	}
	if inPkg(fn, syncPkg) && fn.Name() == "Missing" {
		if v, ok := pt.keep["missing"]; ok && !pt.fail {
			return v, true
		}
		if pt.fail {
			return pt.missing(st, args, site), true
		}
	}
	if strings.HasSuffix(full, ")."+fn.Name()) && strings.Contains(full, "tss-lib/crypto/paillier.") {
		return e.fork(st, args, func(st *State, args []Val) Val { return pt.paillier(st, fn, args, site) }), true
	}
	return nil, false
}

// missing is what a failed round reports as missing.
func (pt *party) missing(st *State, args []Val, site *Site) Val {
	e := pt.e
	return e.fork1(st, args[0], func(st *State, v Val) Val {
		p, ok := v.(VPtr)
		if !ok {
			e.mayPanic(st, site, bFalse, "Missing of nil")
			return VNil{}
		}
		for _, rr := range pt.rounds {
			if p.o == rr.obj {
				sl := e.symContent(fmt.Sprintf("missing#%d", rr.k), types.NewSlice(types.Typ[types.Uint16]), nil)
				return mkUnion([]Alt{{rr.miss, sl}, {not(rr.miss), VNil{}}})
			}
		}
		e.undecided(site.pos, "Missing of an unknown error %s", describe(v))
		return VNil{}
	})
}

// leaves collects the points and numbers an argument leads to.
func (pt *party) leaves(st *State, v Val, pts, ints *[]*T, seen map[*Obj]bool) bool {
	e := pt.e
	switch v := v.(type) {
	case VPoint:
		*pts = append(*pts, v.t)
	case VInt:
		*ints = append(*ints, v.t)
	case VPtr:
		if seen[v.o] {
			return true
		}
		seen[v.o] = true
		defer delete(seen, v.o)
		return pt.leaves(st, e.load(st, v, 0), pts, ints, seen)
	case VStruct:
		for _, f := range v.f {
			if !pt.leaves(st, f, pts, ints, seen) {
				return false
			}
		}
	case VArr:
		if shortArr(v) {
			for _, l := range e.leavesOf(st, v, nil) {
				if !pt.leaves(st, l.v, pts, ints, seen) {
					return false
				}
			}
		}
	case *VUnion:
		as := e.alts(v, st.pc)
		if len(as) == 1 {
			return pt.leaves(st, as[0].v, pts, ints, seen)
		}
		return false
	}
	return true
}

// arguments splits the arguments of a prover or verifier into the factory, the statement and the witness.
func (pt *party) arguments(st *State, args []Val, site *Site) (ctx, stmt, wit []*T) {
	e := pt.e
	for _, a := range args {
		var pts, ints []*T
		if p, ok := a.(VPtr); ok {
			if _, isNil := e.load(st, p, 0).(VNil); isNil {
				continue
			}
		}
		if _, ok := a.(VNil); ok {
			e.mayPanic(st, site, bFalse, "nil argument of a proof")
			return
		}
		if !pt.leaves(st, a, &pts, &ints, map[*Obj]bool{}) {
			e.undecided(site.pos, "argument of a proof is %s", describe(a))
		}
		fact := false
		if p, ok := a.(VPtr); ok {
			if n, ok := p.o.typ.(*types.Named); ok && n.Obj().Name() == "ElGamalFactory" {
				fact = true
			}
		}
		if fact {
			ctx = append(ctx, pts...)
		} else {
			stmt = append(stmt, pts...)
			wit = append(wit, ints...)
		}
	}
	return
}

// withLeaves runs f with the contents of the arguments resolved.
func (pt *party) withContents(st *State, args []Val, site *Site, f func(st *State, args []Val) Val) Val {
	e := pt.e
	return e.fork(st, args, func(st *State, args []Val) Val {
		// the contents of pointers may be alternatives, too
		cs := make([]Val, len(args))
		for i, a := range args {
			cs[i] = VNil{}
			if p, ok := a.(VPtr); ok {
				cs[i] = pt.spread(st, e.load(st, p, site.pos))
			}
		}
		return e.fork(st, cs, func(st *State, _ []Val) Val { return f(st, args) })
	})
}

// spread turns a structure with alternative fields into alternatives.
func (pt *party) spread(st *State, v Val) Val {
	if s, ok := v.(VStruct); ok {
		for i, f := range s.f {
			if u, ok := f.(*VUnion); ok {
				var as []Alt
				for _, a := range pt.e.alts(u, st.pc) {
					fs := append([]Val{}, s.f...)
					fs[i] = a.v
					as = append(as, Alt{a.g, pt.spread(&State{and(st.pc, a.g), st.mem}, VStruct{fs})})
				}
				return mkUnion(as)
			}
		}
	}
	return v
}

func (pt *party) prove(st *State, typ string, args []Val, site *Site) Val {
	e := pt.e
	return pt.withContents(st, args, site, func(st *State, args []Val) Val {
		ctx, stmt, wit := pt.arguments(st, args, site)
		if st.pc == bFalse {
			return VNil{}
		}
		ok := bTrue
		if !e.sureDraws {
			ok = e.okAtom(site, "prove")
		}
		prf := mkTerm("proof", 'o', e.siteName(site, typ), stmt...)
		pt.w.proofs[prf] = &proofInfo{typ, stmt, ctx, pt.id}
		pt.proves = append(pt.proves, use{typ: typ, prf: prf, ctx: ctx, stmt: stmt, wit: wit, g: st.pc, ok: ok, pos: e.p.pos(site.pos), k: len(pt.rounds), from: pt.from})
		ev := e.event("prove", st, site, typ)
		ev.ok = ok
		t := pt.w.p.named(zkpokPkg, typ)
		good := e.ptrTo(st, site, "proof", t, VOpq{prf})
		return e.fork1(st, VBoolSplit(ok), func(st *State, b Val) Val {
			if b.(VBool).b == bTrue {
				return VTuple{[]Val{good, VNil{}}}
			}
			return VTuple{[]Val{VNil{}, e.freshErr(site)}}
		})
	})
}

// proofMethod models Encode, Decode and Verify of a proof.
func (pt *party) proofMethod(st *State, n *types.Named, fn *ssa.Function, args []Val, site *Site) Val {
	e, w := pt.e, pt.w
	typ := n.Obj().Name()
	content := func(st *State, v Val, f func(st *State, prf *T) Val) Val {
		return e.fork1(st, v, func(st *State, v Val) Val {
			var c Val = v
			switch x := v.(type) {
			case VNil:
				e.mayPanic(st, site, bFalse, fn.Name()+" of a nil proof")
				return VNil{}
			case VPtr:
				c = e.load(st, x, site.pos)
			}
			return e.fork1(st, c, func(st *State, c Val) Val {
				if o, ok := c.(VOpq); ok {
					return f(st, o.t)
				}
				return f(st, mkTerm("noproof", 'o', describe(c)))
			})
		})
	}
	switch fn.Name() {
	case "Encode":
		return content(st, args[0], func(st *State, prf *T) Val {
			if prf.op == "noproof" {
				e.mayPanic(st, site, bFalse, "Encode of an empty proof")
				return VNil{}
			}
			return e.writeTo(st, args[1], mkTerm("encprf", 'b', typ, prf), site)
		})
	case "Decode":
		return e.fork1(st, args[0], func(st *State, rv Val) Val {
			rp, isPtr := rv.(VPtr)
			if !isPtr {
				e.mayPanic(st, site, bFalse, "Decode into "+describe(rv))
				return VNil{}
			}
			return e.decodeFront(st, args[1], site, typ, func(first *T) (*T, bool) {
				if first.op == "encprf" && first.name == typ {
					return first.args[0], true
				}
				return nil, false
			}, func(st *State, v *T) Val {
				if w.proofs[v] == nil {
					ev := len(e.events)
					pt.decs = append(pt.decs, use{typ: typ, prf: v, g: st.pc, pos: e.p.pos(site.pos), k: len(pt.rounds) - 1, from: pt.from, evn: ev})
				}
				e.store(st, rp, VOpq{v}, site)
				return VNil{}
			}, func(st *State) Val {
				e.store(st, rp, VOpq{sym('o', e.siteName(site, "halfproof"))}, site)
				return e.freshErr(site)
			})
		})
	case "Verify":
		return content(st, args[0], func(st *State, prf *T) Val {
			return pt.withContents(st, args[1:], site, func(st *State, args []Val) Val {
				ctx, stmt, _ := pt.arguments(st, args, site)
				if st.pc == bFalse {
					return VNil{}
				}
				ok := mkTerm("verifies", 'o', typ, append(append([]*T{prf}, ctx...), stmt...)...)
				okN := bAtom(ok)
				if pi := w.proofs[prf]; pi != nil && pi.typ == typ && sameTs(pi.stmt, stmt) && sameTs(pi.ctx, ctx) {
					okN = bTrue
				}
				pt.verifs = append(pt.verifs, use{typ: typ, prf: prf, ctx: ctx, stmt: stmt, g: st.pc, ok: okN, pos: e.p.pos(site.pos), k: len(pt.rounds) - 1, from: pt.from})
				ev := e.event("verify", st, site, typ)
				ev.ok = okN
				ev.ts = append([]*T{prf}, stmt...)
				if b, isB := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); isB && b.Kind() == types.Bool {
					return VBool{okN}
				}
				return e.errUnion(okN, e.freshErr(site))
			})
		})
	}
	return VNil{}
}

// decodeFront reads one self-delimiting value: known when the content begins with its encoding, else a function of the content.
func (e *Eng) decodeFront(st *State, rd Val, site *Site, typ string, known func(first *T) (*T, bool), good func(st *State, v *T) Val, bad func(st *State) Val) Val {
	p, c := e.readerContent(st, rd, site)
	return e.fork1(st, c, func(st *State, c Val) Val {
		var rem *T
		switch c := c.(type) {
		case VBuf:
			rem = emptyB
			if c.has && !c.stale {
				rem, _ = e.sliceBytes(st, c.sl, site.pos)
			}
		case VStream:
			rem = c.rem
		}
		if rem == nil {
			rem = sym('b', e.siteName(site, "unknown input"))
		}
		first := rem
		if rem.op == "cat" {
			first = rem.args[0]
		}
		ok := bTrue
		v, is := known(first)
		n := lenB(first)
		if !is {
			if rem == emptyB {
				ok, n = bFalse, num(0)
				v = sym('o', "none")
			} else {
				v = mkTerm("decodedprf", 'o', typ, rem)
				n = mkTerm("declen", 'i', typ, rem)
				symLo[n], symHi[n] = big.NewInt(1), big.NewInt(4096)
				ok = and(bAtom(mkTerm("decodes", 'o', typ, rem)), le0(sub(n, lenB(rem))))
			}
		}
		ev := e.event("read", st, site, typ)
		ev.ok = ok
		return e.fork1(st, VBoolSplit(ok), func(st *State, b Val) Val {
			adv := n
			isGood := b.(VBool).b == bTrue
			if !isGood {
				adv = symRange(e.siteName(site, "shortn"), big0, pow2(40))
				st.pc = and(st.pc, le0(sub(adv, lenB(rem))))
			}
			switch c := c.(type) {
			case VBuf:
				if c.has {
					c.sl = VSlice{c.sl.arr, add(c.sl.off, adv), sub(c.sl.ln, adv), sub(c.sl.cp, adv)}
					e.store(st, p, c, nil)
				}
			case VStream:
				if c.rem != nil {
					c.log = cat(c.log, sliceB(rem, num(0), adv))
					c.rem = sliceB(rem, adv, lenB(rem))
					e.store(st, p, c, nil)
				}
			}
			if isGood {
				return good(st, v)
			}
			return bad(st)
		})
	})
}

// ---- Paillier encryption

type paiCt struct {
	key int // whose key
	m   *T
}

// ctTerm is a ciphertext of m under the key of a party.
func (pt *party) ctTerm(site *Site, key int, m *T) *T {
	t := mkTerm("paillier", 'i', fmt.Sprintf("%d|%s", key, pt.e.siteName(site, "ct")), m)
	symLo[t], symHi[t] = big0, pow2(4100)
	return t
}

func paiOf(t *T) (paiCt, bool) {
	if t.op == "paillier" {
		k := 0
		fmt.Sscanf(t.name, "%d|", &k)
		return paiCt{k, t.args[0]}, true
	}
	return paiCt{}, false
}

func paiN(k int) *T { return symRange(fmt.Sprintf("N·P%d", k), pow2(1100), pow2(2049)) }

// keyOf tells whose key a receiver is.
func (pt *party) keyOf(st *State, v Val) (int, bool) {
	p, ok := v.(VPtr)
	if !ok {
		return 0, false
	}
	var pts, ints []*T
	pt.leaves(st, VPtr{o: p.o, inst: p.inst, path: p.path}, &pts, &ints, map[*Obj]bool{})
	for i := 0; i < pt.w.n; i++ {
		if len(ints) > 0 && ints[0] == paiN(i) {
			return i, true
		}
	}
	return 0, false
}

func (pt *party) paillier(st *State, fn *ssa.Function, args []Val, site *Site) Val {
	e := pt.e
	res := resultType(fn.Signature)
	key, ok := pt.keyOf(st, args[0])
	if !ok {
		if _, isNil := args[0].(VNil); isNil {
			e.mayPanic(st, site, bFalse, "nil Paillier key")
			return VNil{}
		}
		e.undecided(site.pos, "Paillier key %s", describe(args[0]))
		return e.opaqueNamed(e.siteName(site, "paillier"), res)
	}
	n := paiN(key)
	return e.withInts(st, site, args[1:], func(st *State, ts []*T) Val {
		result := func(okN *Node, t *T) Val {
			ev := e.event("paillier", st, site, fn.Name())
			ev.ok, ev.ts = okN, ts
			ev.vals = []Val{VInt{num(int64(key))}}
			return e.fork1(st, VBoolSplit(okN), func(st *State, b Val) Val {
				if b.(VBool).b == bTrue {
					return VTuple{[]Val{e.newInt(st, site, "paillier", t), VNil{}}}
				}
				return VTuple{[]Val{VNil{}, e.freshErr(site)}}
			})
		}
		inRange := func(x *T) *Node { return and(not(lt(x, num(0))), lt(x, n)) }
		sure := bTrue
		if !e.sureDraws {
			sure = e.okAtom(site, "paillier")
		}
		ctOK := func(x *T) *Node {
			if c, ok := paiOf(x); ok && c.key == key {
				return bTrue
			}
			return bAtom(mkTerm("ciphertext", 'o', fmt.Sprint(key), x))
		}
		switch fn.Name() {
		case "Encrypt":
			return result(and(sure, inRange(ts[0])), pt.ctTerm(site, key, ts[0]))
		case "HomoMult":
			c, isCt := paiOf(ts[1])
			t := mkTerm("homomult", 'i', fmt.Sprint(key), ts...)
			symLo[t], symHi[t] = big0, pow2(4100)
			if isCt && c.key == key {
				t = pt.ctTerm(site, key, mul(ts[0], c.m))
			}
			return result(and(inRange(ts[0]), ctOK(ts[1])), t)
		case "HomoAdd":
			c1, ok1 := paiOf(ts[0])
			c2, ok2 := paiOf(ts[1])
			t := mkTerm("homoadd", 'i', fmt.Sprint(key), ts...)
			symLo[t], symHi[t] = big0, pow2(4100)
			if ok1 && ok2 && c1.key == key && c2.key == key {
				t = pt.ctTerm(site, key, add(c1.m, c2.m))
			}
			return result(and(ctOK(ts[0]), ctOK(ts[1])), t)
		case "Decrypt":
			c, isCt := paiOf(ts[0])
			t := mkTerm("decrypted", 'i', fmt.Sprint(key), ts...)
			symLo[t], symHi[t] = big0, pow2(2049)
			if isCt && c.key == key {
				t = mod(c.m, n)
			}
			return result(ctOK(ts[0]), t)
		}
		e.undecided(site.pos, "Paillier operation %s", fn.Name())
		return e.opaqueNamed(e.siteName(site, "paillier"), res)
	})
}
