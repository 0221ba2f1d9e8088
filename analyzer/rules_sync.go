package main

// The synchronous network layer (pkg/sync): one server among peers whose streams are what the project's own senders
// write, frames put in the wrong place, or unknown bytes. C18, C19, C20 and the part of C23 that concerns rounds.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var connType types.Type = types.NewNamed(types.NewTypeName(0, nil, "AbstractConnection", nil), types.NewStruct(nil, nil), nil)
var netType types.Type = types.NewNamed(types.NewTypeName(0, nil, "AbstractNetwork", nil), types.NewStruct(nil, nil), nil)

// connHalf is the reading (0) or writing (1) half of a connection.
func connHalf(v Val, i int) Val {
	if c, ok := v.(VIface); ok && c.typ == connType {
		return VIface{streamType, c.v.(VStruct).f[i]}
	}
	return v
}

// syncRun is one server.
type syncRun struct {
	r      *Rep
	p      *Program
	cons   string
	e      *Eng
	st     *State
	n, id  int
	srv    Val
	sure   bool  // connections never fail
	dialOK bool  // dialing and the dialer's handshake never fail
	listen []*T  // what arrives on the connections that are accepted, in order; nil: anything
	dialed []Val // connections by peer
	conns  []Val // accepted connections, in order
	asked  bool  // connections were accepted from the prepared list
	rounds []*syncRound
	pos    string
}

type syncRound struct {
	k      int
	v      Val // result
	ok     *Node
	st     *State
	events []*Event
	calls  []*Event // calls of the check function
	born   int
	pos    string
}

// newSync makes a server with the constructor of the project.
func (p *Program) newSync(r *Rep, cons string, n, id int) *syncRun {
	s := &syncRun{r: r, p: p, cons: cons, n: n, id: id, sure: true, dialOK: true, dialed: make([]Val, n)}
	fn := p.fn(syncPkg, "NewServer")
	if fn == nil {
		r.fail("anchor", cons, "", "sync.NewServer was not found")
		return nil
	}
	s.pos = p.pos(fn.Pos())
	e := newEng(p)
	e.tag = fmt.Sprintf("·S%d", id)
	e.widen = true
	e.invokeHook = s.hook
	e.extraModel = s.clock
	s.e = e
	e.runInits()
	e.events, e.undec = nil, nil
	s.st = e.newState()
	e.thr = newThreads()
	var args []Val
	ints := []int64{int64(id), int64(n)}
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		b, isInt := t.Underlying().(*types.Basic)
		switch {
		case namedPath(t) == "time.Duration":
			args = append(args, VInt{symRange("duration", big0, pow2(60))})
		case isInt && b.Info()&types.IsInteger != 0 && len(ints) > 0:
			args = append(args, VInt{num(ints[0])})
			ints = ints[1:]
		case namedPath(t) == "time.Time":
			args = append(args, VOpq{sym('o', "start time")})
		default:
			if _, ok := t.Underlying().(*types.Interface); !ok {
				r.fail("anchor", cons, s.pos, "parameter %s of sync.NewServer is not understood", ps.At(i))
				return nil
			}
			args = append(args, VIface{netType, VOpq{sym('o', "network")}})
		}
	}
	s.srv = e.callTop(s.st, "new", fn, args...)
	if s.srv == nil {
		r.fail("no-crash", cons, s.pos, "a server cannot be made")
		return nil
	}
	if tup, ok := s.srv.(VTuple); ok {
		s.srv = tup.f[0]
	}
	return s
}

// clock: durations are not negative (the rounds are on time), comparisons of times are unknown.
func (s *syncRun) clock(e *Eng, st *State, name string, fn *ssa.Function, args []Val, site *Site) (Val, bool) {
	switch name {
	case "time.Until", "time.Since", "(time.Time).Sub":
		return VInt{symRange(e.siteName(site, "clock"), big0, pow2(60), e.kappas...)}, true
	case "(time.Time).Before", "(time.Time).After", "(time.Time).Equal":
		return VBool{bsym(e.siteName(site, "clock"), e.kappas...)}, true
	case "time.Sleep":
		return VNil{}, true
	}
	return nil, false
}

// anyTime leaves out what depends on the clock: it holds where g holds at some time.
func anyTime(g *Node) *Node {
	for _, a := range g.support() {
		if strings.Contains(a.String(), "clock#") {
			g = or(cofactor(g, a, true), cofactor(g, a, false))
		}
	}
	return g
}

func cofactor(n *Node, a *T, pos bool) *Node {
	memo := map[*Node]*Node{}
	var walk func(n *Node) *Node
	walk = func(n *Node) *Node {
		if n.v == nil {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		var r *Node
		if n.v == a {
			r = n.lo
			if pos {
				r = n.hi
			}
		} else {
			r = ite(bAtom(n.v), walk(n.hi), walk(n.lo))
		}
		memo[n] = r
		return r
	}
	return walk(n)
}

func (s *syncRun) conn(name string, content *T, sure bool) Val {
	e := s.e
	in := e.stream(name+" in", sure, content).(VIface).v
	mk := func(what string) Val {
		o := e.newObj(name+" "+what, streamType)
		o.input = true
		e.globalMem[o] = VStream{name: name + " " + what, log: emptyB, sure: sure}
		return VPtr{o: o}
	}
	return VIface{connType, VStruct{[]Val{in, mk("out"), mk("sent")}}}
}

// log is what was written to a connection (1) or handed to the network (2).
func (s *syncRun) log(st *State, c Val, i int) *T {
	v := s.e.load(st, c.(VIface).v.(VStruct).f[i].(VPtr), 0)
	if as := s.e.alts(v, st.pc); len(as) == 1 {
		v = as[0].v
	}
	if x, ok := v.(VStream); ok {
		return x.log
	}
	return mkTerm("opqbytes", 'b', describe(v))
}

func (s *syncRun) hook(e *Eng, st *State, m string, recv Val, args []Val, site *Site) (Val, bool) {
	r, ok := recv.(VIface)
	if !ok {
		return nil, false
	}
	switch r.typ {
	case netType:
		return e.fork(st, args, func(st *State, args []Val) Val { return s.network(st, m, args, site) }), true
	case connType:
		return e.fork(st, args, func(st *State, args []Val) Val { return s.connection(st, m, r, args, site) }), true
	}
	return nil, false
}

func (s *syncRun) network(st *State, m string, args []Val, site *Site) Val {
	e := s.e
	fails := func(v Val, what string, sure bool) Val {
		if sure {
			return VTuple{[]Val{v, VNil{}}}
		}
		ok := e.okAtom(site, what)
		return mkUnion([]Alt{{ok, VTuple{[]Val{v, VNil{}}}}, {not(ok), VTuple{[]Val{VNil{}, e.freshErr(site)}}}})
	}
	switch m {
	case "Listen":
		if s.listen == nil {
			return fails(s.conn(e.siteName(site, "incoming"), nil, false), "listen", false)
		}
		if e.script >= len(s.listen) {
			st.pc = bFalse // nobody else connects
			return VNil{}
		}
		c := s.conn(fmt.Sprintf("incoming%d", e.script), s.listen[e.script], s.sure)
		for len(s.conns) <= e.script {
			s.conns = append(s.conns, nil)
		}
		s.conns[e.script] = c
		e.script++
		return fails(c, "listen", true)
	case "Dial":
		i, ok := args[0].(VInt)
		k, isC := (*big.Int)(nil), false
		if ok {
			k, isC = isConst(i.t)
		}
		if !isC || k.Sign() < 0 || k.Cmp(big.NewInt(int64(s.n))) >= 0 {
			e.undecided(site.pos, "Dial of %s", describe(args[0]))
			return fails(s.conn(e.siteName(site, "dialed"), nil, s.sure), "dial", s.dialOK)
		}
		j := k.Int64()
		c := s.dialed[j]
		if c == nil {
			c = s.conn(fmt.Sprintf("to party %d", j), nil, s.dialOK)
			s.dialed[j] = c
		} else {
			c = s.conn(fmt.Sprintf("to party %d again", j), nil, s.dialOK)
		}
		return fails(c, "dial", s.dialOK)
	case "Stop":
		return VNil{}
	}
	e.undecided(site.pos, "method %s of the network", m)
	return VNil{}
}

func (s *syncRun) connection(st *State, m string, c VIface, args []Val, site *Site) Val {
	e := s.e
	f := c.v.(VStruct).f
	switch m {
	case "Read", "Write":
		return e.streamOp(st, m, connHalf(c, map[string]int{"Read": 0, "Write": 1}[m]).(VIface), args, site)
	case "Flush":
		out := f[1].(VPtr)
		return e.fork1(st, e.load(st, out, site.pos), func(st *State, v Val) Val {
			o, ok := v.(VStream)
			if !ok {
				e.undecided(site.pos, "Flush of %s", describe(v))
				return VNil{}
			}
			sent := f[2].(VPtr)
			g := bTrue
			if !o.sure {
				g = e.okAtom(site, "flush")
			}
			ev := e.event("flush", st, site, o.name)
			ev.ok = g
			return e.fork1(st, VBoolSplit(g), func(st *State, b Val) Val {
				if b.(VBool).b == bTrue {
					e.store(st, sent, VStream{name: o.name + " sent", log: o.log, sure: o.sure}, nil)
					return VNil{}
				}
				return e.freshErr(site)
			})
		})
	case "Close":
		ev := e.event("closed", st, site, "")
		ev.vals = []Val{c}
		return e.errUnion(e.okAtom(site, "close"), e.freshErr(site))
	}
	e.undecided(site.pos, "method %s of a connection", m)
	return VNil{}
}

func (s *syncRun) call(name string, args ...Val) Val {
	srv, ok := s.srv.(VIface)
	if !ok {
		s.r.fail("anchor", s.cons, s.pos, "sync.NewServer returns %s", describe(s.srv))
		return nil
	}
	fn := s.e.methodOf(srv.typ, name)
	if fn == nil {
		s.r.fail("anchor", s.cons, s.pos, "the server has no method %s", name)
		return nil
	}
	v := s.e.callTop(s.st, name, fn, append([]Val{srv.v}, args...)...)
	curFacts = s.st.pc.Facts()
	return v
}

func (s *syncRun) start() bool {
	v := s.call("Start")
	if v == nil {
		s.r.fail("no-crash", s.cons, s.pos, "Start cannot return")
	}
	return v != nil
}

// message is a message in memory.
func (s *syncRun) message(name string) (Val, *T) {
	t := sym('b', name)
	symLo[lenB(t)], symHi[lenB(t)] = big0, pow2(20)
	e := s.e
	o := e.newObj(name, types.NewSlice(types.Typ[types.Byte]))
	o.global = true
	s.st.mem[o] = VBytes{t}
	return VSlice{VPtr{o: o}, num(0), lenB(t), lenB(t)}, t
}

// outgoing is the argument of a round: one message for all, or one for each.
func (s *syncRun) outgoing(k int, bcast bool) (Val, []*T) {
	e := s.e
	ts := make([]*T, s.n)
	arr := VArr{elem: types.NewSlice(types.Typ[types.Byte]), base: "zero"}
	n := int64(s.n)
	if bcast {
		n = 1
		m, t := s.message(fmt.Sprintf("message of %d in round %d", s.id, k))
		arr = appendW(arr, Write{g: bTrue, idx: num(0), val: m})
		for j := range ts {
			ts[j] = t
		}
	} else {
		for j := 0; j < s.n; j++ {
			if j == s.id {
				continue
			}
			m, t := s.message(fmt.Sprintf("message of %d for %d in round %d", s.id, j, k))
			arr = appendW(arr, Write{g: bTrue, idx: num(int64(j)), val: m})
			ts[j] = t
		}
	}
	arr.n = num(n)
	o := e.newObj("messages", types.NewSlice(arr.elem))
	o.global = true
	s.st.mem[o] = arr
	return VSlice{VPtr{o: o}, num(0), num(n), num(n)}, ts
}

// round runs a round; checks may reject when mayReject.
func (s *syncRun) round(k int, toSend Val) *syncRound {
	e := s.e
	rd := &syncRound{k: k}
	from := len(e.events)
	if e.thr != nil {
		rd.born = e.thr.seq
	}
	v := s.call("Round", toSend, VFunc{name: "check"})
	if srv, ok := s.srv.(VIface); ok {
		if fn := e.methodOf(srv.typ, "Round"); fn != nil {
			rd.pos = s.p.pos(fn.Pos())
		}
	}
	rd.events = append([]*Event{}, e.events[from:]...)
	for _, ev := range rd.events {
		if ev.kind == "callsym" && ev.name == "check" {
			rd.calls = append(rd.calls, ev)
		}
	}
	s.rounds = append(s.rounds, rd)
	if v == nil {
		rd.ok = bFalse
		return rd
	}
	rd.v = v
	rd.ok = and(s.st.pc, e.isNilV(s.st, v))
	rd.st = s.st.clone()
	return rd
}

func (s *syncRun) done() {
	s.r.engine(s.e, s.cons)
	s.e.undec = nil
	s.e.steps = 0
}

// frames runs the senders: the handshake of every party for every other, and the frames of each round.
type frames struct {
	n     int
	hello [][]*T   // by sender, receiver
	frame [][][]*T // by round, sender, receiver
	load  [][][]*T
}

// senders derives what the project's own parties write to each other.
func (p *Program) senders(r *Rep, n, rounds int, bcast bool) *frames {
	f := &frames{n: n, hello: make([][]*T, n)}
	for k := 0; k < rounds; k++ {
		f.frame = append(f.frame, make([][]*T, n))
		f.load = append(f.load, make([][]*T, n))
	}
	// the handshakes, while nobody connects
	for i := 0; i < n; i++ {
		s := p.newSync(r, fmt.Sprintf("Start of party %d of %d", i, n), n, i)
		if s == nil {
			return nil
		}
		s.listen = []*T{}
		if !s.start() {
			return nil
		}
		f.hello[i] = make([]*T, n)
		for j := 0; j < n; j++ {
			if j == i {
				continue
			}
			if s.dialed[j] == nil {
				r.fail("connects", s.cons, s.pos, "party %d does not connect to party %d", i, j)
				return nil
			}
			f.hello[i][j] = s.log(s.st, s.dialed[j], 2)
		}
	}
	for i := 0; i < n; i++ {
		s := p.newSync(r, fmt.Sprintf("sending of party %d of %d", i, n), n, i)
		s.listen = []*T{}
		for j := 0; j < n; j++ {
			if j != i {
				s.listen = append(s.listen, cat(f.hello[j][i], sym('b', fmt.Sprintf("whatever %d sends", j))))
			}
		}
		if !s.start() {
			return nil
		}
		for k := 0; k < rounds; k++ {
			before := make([]*T, n)
			for j := 0; j < n; j++ {
				if j != i {
					before[j] = s.log(s.st, s.dialed[j], 2)
				}
			}
			out, ts := s.outgoing(k, bcast)
			rd := s.round(k, out)
			f.load[k][i] = ts
			f.frame[k][i] = make([]*T, n)
			if rd.ok == bFalse {
				r.fail("coverage", s.cons, rd.pos, "round %d cannot succeed", k+1)
				return nil
			}
			s.st.pc = rd.ok
			for _, ev := range rd.events {
				if ev.ok != nil { // the format is that of rounds in which nothing fails
					s.st.pc = and(s.st.pc, or(not(ev.g), ev.ok))
				}
			}
			if s.st.pc == bFalse {
				r.fail("coverage", s.cons, rd.pos, "round %d cannot succeed", k+1)
				return nil
			}
			curFacts = s.st.pc.Facts()
			for j := 0; j < n; j++ {
				if j == i {
					continue
				}
				all := s.log(s.st, s.dialed[j], 2)
				w := s.log(s.st, s.dialed[j], 1)
				r.ob(all == w, "flushed", fmt.Sprintf("round %d of party %d", k+1, i), rd.pos, "what is written for party %d is not handed to the network completely: %s", j, all)
				fr := sliceB(w, lenB(before[j]), lenB(w))
				f.frame[k][i][j] = fr
			}
		}
		s.e.undec = nil
	}
	return f
}

func (f *frames) String() string {
	var sb strings.Builder
	for k := range f.frame {
		for i := range f.frame[k] {
			for j := range f.frame[k][i] {
				if i != j {
					fmt.Fprintf(&sb, "round %d, %d to %d: %s | %s\n", k, i, j, f.hello[i][j], f.frame[k][i][j])
				}
			}
		}
	}
	return sb.String()
}

// prepared starts a server to which the peers connect in the given order, each with the project's own handshake;
// what they send afterwards is given by party.
func (p *Program) prepared(r *Rep, cons string, f *frames, id int, order []int, content func(j int) *T) *syncRun {
	s := p.newSync(r, cons, f.n, id)
	if s == nil {
		return nil
	}
	s.listen = []*T{}
	for _, j := range order {
		s.listen = append(s.listen, cat(f.hello[j][id], content(j)))
	}
	if !s.start() {
		return nil
	}
	return s
}

// flaky lets every connection fail from now on.
func (s *syncRun) flaky(except ...int) {
	set := func(c Val) {
		if c == nil {
			return
		}
		for _, h := range c.(VIface).v.(VStruct).f {
			p := h.(VPtr)
			if v, ok := s.e.load(s.st, p, 0).(VStream); ok {
				v.sure = false
				s.st.mem[p.o] = v
			}
		}
	}
	s.e.thr.quiet(func() {
		for i, c := range append(append([]Val{}, s.conns...), s.dialed...) {
			if len(except) == 0 || i != except[0] {
				set(c)
			}
		}
	})
}

func others(n, id int) []int {
	var o []int
	for j := 0; j < n; j++ {
		if j != id {
			o = append(o, j)
		}
	}
	return o
}

func orders(n, id int) [][]int {
	o := others(n, id)
	if len(o) < 2 {
		return [][]int{o}
	}
	b := make([]int, len(o))
	for i := range o {
		b[len(o)-1-i] = o[i]
	}
	return [][]int{o, b}
}

// called finds the calls of the check function for party j.
func (s *syncRun) called(rd *syncRound, j int) []*Event {
	var out []*Event
	for _, ev := range rd.calls {
		v, ok := ev.vals[0].(VInt)
		if !ok {
			continue
		}
		if feasible(and(ev.g, eq0(sub(v.t, num(int64(j)))))) {
			out = append(out, ev)
		}
	}
	return out
}

// delivered: success means one accepting call for every other party, none for others.
func (s *syncRun) delivered(rd *syncRound, want []*T) {
	r := s.r
	cons := fmt.Sprintf("Round, %s, round %d", s.cons, rd.k+1)
	for _, ev := range s.called(rd, s.id) {
		r.fail("own-check", cons, s.e.where(ev), "the check function may be called for the party itself, under %s", short(ev.g))
	}
	for _, ev := range rd.calls {
		v, ok := ev.vals[0].(VInt)
		if !ok || feasible(and(ev.g, le0(sub(num(int64(s.n)), v.t)))) {
			r.fail("own-check", cons, s.e.where(ev), "the check function is called for %s", describe(ev.vals[0]))
		}
	}
	for j := 0; j < s.n; j++ {
		if j == s.id {
			continue
		}
		cs := s.called(rd, j)
		any, acc := bFalse, bTrue
		for a, ev := range cs {
			any = or(any, ev.g)
			acc = and(acc, or(not(ev.g), ev.ok))
			for _, e2 := range cs[:a] {
				r.ob(!feasible(and(ev.g, e2.g)), "checked-once", cons, s.e.where(ev), "the check function is called twice for party %d", j)
			}
			if want != nil {
				r.ob(ev.ts[1] == want[j] || impliesF(ev.g, eqBytes(ev.ts[1], want[j])), "payload", cons, s.e.where(ev), "party %d is checked on %s, not on what it sent in this round (%s)", j, ev.ts[1], want[j])
			}
		}
		r.ob(impliesF(rd.ok, any), "checked", cons, rd.pos, "the round can succeed without a check of party %d, under %s", j, short(and(rd.ok, not(any))))
		r.ob(impliesF(rd.ok, acc), "accepted", cons, rd.pos, "the round can succeed although the check of party %d rejects, under %s", j, short(and(rd.ok, not(acc))))
	}
}

// steps: success means that everything that can fail did not.
func (s *syncRun) stepsDone(rd *syncRound) {
	cons := fmt.Sprintf("Round, %s, round %d", s.cons, rd.k+1)
	for _, ev := range rd.events {
		switch ev.kind {
		case "read", "write", "flush":
			if ev.ok == nil {
				continue
			}
			s.r.ob(impliesF(and(rd.ok, ev.g), ev.ok), "step-failed", cons, s.e.where(ev), "the round can succeed although this %s (%s) failed", ev.kind, ev.name)
			if strings.HasPrefix(ev.name, "short:") && feasible(and(rd.ok, ev.g)) {
				s.r.fail("complete-read", cons, s.e.where(ev), "what is read may be less than asked for, and the round can succeed")
			}
		}
	}
}

// sent is the condition that nothing the server wrote in the round failed.
func (rd *syncRound) sent() *Node {
	g := bTrue
	for _, ev := range rd.events {
		if ev.ok != nil && (ev.kind == "write" || ev.kind == "flush") {
			g = and(g, or(not(ev.g), ev.ok))
		}
	}
	return g
}

// accepted is the condition that a message of party j arrived and was accepted.
func (s *syncRun) accepted(rd *syncRound, j int) (called, acc *Node) {
	called, acc = bFalse, bFalse
	for _, ev := range s.called(rd, j) {
		g := and(ev.g, eq0(sub(ev.vals[0].(VInt).t, num(int64(j)))))
		called = or(called, g)
		acc = or(acc, and(g, ev.ok))
	}
	return
}

// named: a failed round whose messages could be sent names the parties without an accepted message.
func (s *syncRun) named(rd *syncRound) {
	r, e := s.r, s.e
	cons := fmt.Sprintf("Round, %s, round %d", s.cons, rd.k+1)
	bad := and(and(rd.st.pc, not(rd.ok)), rd.sent())
	if !r.ob(feasible(bad), "coverage", cons, rd.pos, "no round fails because of what the other parties do") {
		return
	}
	in := make([]*Node, s.n)
	for j := range in {
		in[j] = bFalse
	}
	st := &State{pc: bad, mem: rd.st.clone().mem}
	old := curFacts
	curFacts = bad.Facts()
	defer func() { curFacts = old }()
	e.thr.quiet(func() {
		for _, a := range e.alts(rd.v, bad) {
			g := and(bad, a.g)
			x, ok := a.v.(VIface)
			if _, isNil := a.v.(VNil); isNil || !feasible(g) {
				continue
			}
			if !ok || e.methodOf(x.typ, "Missing") == nil {
				r.fail("names-missing", cons, rd.pos, "the round fails with an error that names no parties: %s, under %s", describe(a.v), short(g))
				continue
			}
			s2 := &State{pc: g, mem: st.clone().mem}
			v, err := e.callMethod(s2, "missing", x, "Missing")
			if err != nil || v == nil {
				r.fail("names-missing", cons, rd.pos, "the missing parties cannot be read from the error")
				continue
			}
			for _, b := range e.alts(v, s2.pc) {
				gb := and(s2.pc, b.g)
				if _, isNil := b.v.(VNil); isNil {
					continue
				}
				sl, ok := b.v.(VSlice)
				n := int64(s.n) + 1
				if ok {
					if c, isC := isConst(sl.ln); isC {
						n = c.Int64()
					}
				}
				if !ok || n > int64(s.n) {
					if feasible(gb) {
						r.fail("names-missing", cons, rd.pos, "the list of missing parties is %s", describe(b.v))
					}
					continue
				}
				for i := int64(0); i < n; i++ {
					w := e.load(&State{pc: gb, mem: s2.mem}, VPtr{sl.arr.o, sl.arr.inst, append(append([]Step{}, sl.arr.path...), Step{idx: add(sl.off, num(i))})}, 0)
					for _, c := range e.alts(w, gb) {
						if t, ok := c.v.(VInt); ok {
							for j := range in {
								in[j] = or(in[j], and(and(gb, c.g), eq0(sub(t.t, num(int64(j))))))
							}
						}
					}
				}
			}
		}
	})
	for j := range in {
		if j == s.id {
			r.ob(!feasible(in[j]), "names-missing", cons, rd.pos, "the error may name the party itself, under %s", short(in[j]))
			continue
		}
		_, acc := s.accepted(rd, j)
		x, y := and(in[j], acc), and(and(bad, not(in[j])), not(acc))
		r.ob(!feasible(x), "names-missing", cons, rd.pos, "the error may name party %d whose message was accepted, under %s", j, short(x))
		y = not(anyTime(not(y))) // an error because time is over need not name anybody
		r.ob(!feasible(y), "names-missing", cons, rd.pos, "the error may fail to name party %d of which no message was accepted, under %s", j, short(y))
	}
}

// syncPartial: the message of a party that follows the protocol is checked, whatever the other parties do.
func syncPartial(p *Program, r *Rep, f *frames) {
	for id := 0; id < f.n; id++ {
		os := others(f.n, id)
		for x, h := range os {
			if len(os) < 2 {
				break
			}
			cons := fmt.Sprintf("party %d of %d, party %d follows the protocol, the others do anything", id, f.n, h)
			r.guard(cons, func() {
				s := p.prepared(r, cons, f, id, os, func(j int) *T {
					if j == h {
						return f.frame[0][h][id]
					}
					t := sym('b', fmt.Sprintf("bytes of %d", j))
					symLo[lenB(t)], symHi[lenB(t)] = big0, pow2(60)
					return t
				})
				if s == nil {
					return
				}
				s.flaky(x)
				out, _ := s.outgoing(0, false)
				rd := s.round(0, out)
				if rd.v == nil {
					r.fail("coverage", cons, rd.pos, "the round cannot return")
					return
				}
				g := and(rd.st.pc, rd.sent())
				called, _ := s.accepted(rd, h)
				y := and(g, not(called))
				y = not(anyTime(not(y))) // the round may fail because time is over
				r.ob(!feasible(y), "checked-though-others-fail", cons, rd.pos, "the message of party %d may not be checked, under %s", h, short(y))
				s.done()
			})
		}
	}
}

func (p *Program) committeesOf(r *Rep, ns []int) map[int]*frames {
	out := map[int]*frames{}
	for _, n := range ns {
		if f := p.senders(r, n, 3, false); f != nil {
			out[n] = f
		}
	}
	return out
}

func syncSizes() []int {
	if thorough() {
		return []int{2, 3, 4}
	}
	return []int{2, 3}
}

// syncHonest: with peers that follow the protocol every round succeeds and delivers their messages.
func syncHonest(p *Program, r *Rep, f *frames, bcast bool) {
	for id := 0; id < f.n; id++ {
		for _, order := range orders(f.n, id) {
			cons := fmt.Sprintf("party %d of %d, connected in the order %v", id, f.n, order)
			if bcast {
				cons += ", one message for all"
			}
			r.guard(cons, func() {
				s := p.prepared(r, cons, f, id, order, func(j int) *T {
					c := emptyB
					for k := range f.frame {
						c = cat(c, f.frame[k][j][id])
					}
					return c
				})
				if s == nil {
					return
				}
				for k := range f.frame {
					out, _ := s.outgoing(k, bcast)
					rd := s.round(k, out)
					want := make([]*T, f.n)
					all := s.st.pc
					for j := range want {
						if j != id {
							want[j] = f.load[k][j][id]
							for _, ev := range s.called(rd, j) {
								all = and(all, or(not(ev.g), ev.ok))
							}
						}
					}
					s.delivered(rd, want)
					c := fmt.Sprintf("Round, %s, round %d", cons, k+1)
					if !r.ob(rd.ok != bFalse && impliesF(not(anyTime(not(all))), anyTime(rd.ok)), "honest-round", c, rd.pos, "the round can fail although everybody sent its message and every check accepted, under %s", short(and(all, not(rd.ok)))) {
						break
					}
					s.st.pc = rd.ok
					curFacts = s.st.pc.Facts()
				}
				s.done()
			})
		}
	}
}

// syncWrong: a frame of another party, of another round, or an incomplete one makes the round fail.
func syncWrong(p *Program, r *Rep, f *frames) {
	type wrong struct {
		what string
		t    *T
	}
	for id := 0; id < f.n; id++ {
		for _, j := range others(f.n, id) {
			for k := range f.frame {
				own := f.frame[k][j][id]
				var ws []wrong
				for l := 0; l < f.n; l++ {
					if l != j {
						to := id
						if l == id {
							to = j
						}
						ws = append(ws, wrong{fmt.Sprintf("a frame of party %d", l), f.frame[k][l][to]})
					}
				}
				for k2 := range f.frame {
					if k2 != k {
						ws = append(ws, wrong{fmt.Sprintf("its frame of round %d", k2+1), f.frame[k2][j][id]})
					}
				}
				ws = append(ws, wrong{"its frame without the last byte", sliceB(own, num(0), sub(lenB(own), num(1)))}, wrong{"nothing", emptyB})
				for _, w := range ws {
					cons := fmt.Sprintf("party %d of %d, party %d sends %s in round %d", id, f.n, j, w.what, k+1)
					r.guard(cons, func() {
						s := p.prepared(r, cons, f, id, others(f.n, id), func(i int) *T {
							c := emptyB
							for k2 := 0; k2 <= k; k2++ {
								if i == j && k2 == k {
									c = cat(c, w.t)
								} else {
									c = cat(c, f.frame[k2][i][id])
								}
							}
							return c
						})
						if s == nil {
							return
						}
						for k2 := 0; k2 < k; k2++ {
							out, _ := s.outgoing(k2, false)
							rd := s.round(k2, out)
							if rd.ok == bFalse {
								return // reported for honest peers
							}
							s.st.pc = rd.ok
							curFacts = s.st.pc.Facts()
						}
						out, _ := s.outgoing(k, false)
						rd := s.round(k, out)
						r.ob(!feasible(rd.ok), "wrong-frame", "Round, "+cons, rd.pos, "the round can succeed, under %s", short(rd.ok))
						for _, ev := range s.called(rd, j) {
							if feasible(ev.g) {
								r.fail("wrong-frame", "Round, "+cons, s.e.where(ev), "the check function is called on %s", ev.ts[1])
							}
						}
						s.done()
					})
				}
			}
		}
	}
}

// syncAfterFailure: the round after one whose messages were rejected has the next number.
func syncAfterFailure(p *Program, r *Rep, f *frames) {
	for id := 0; id < f.n; id++ {
		for j := 0; j < f.n; j++ {
			// party j repeats its frame of the failed round; for j = id nobody does
			cons := fmt.Sprintf("party %d of %d after a failed round", id, f.n)
			if j != id {
				cons += fmt.Sprintf(", party %d repeats its frame", j)
			}
			r.guard(cons, func() {
				s := p.prepared(r, cons, f, id, others(f.n, id), func(i int) *T {
					if i == j {
						return cat(f.frame[0][i][id], f.frame[0][i][id])
					}
					return cat(f.frame[0][i][id], f.frame[1][i][id])
				})
				if s == nil {
					return
				}
				out, _ := s.outgoing(0, false)
				rd := s.round(0, out)
				if rd.v == nil {
					r.fail("coverage", cons, rd.pos, "the round cannot return")
					return
				}
				s.st.pc = and(s.st.pc, not(rd.ok))
				if !r.ob(feasible(s.st.pc), "coverage", cons, rd.pos, "no round fails although checks reject") {
					return
				}
				curFacts = s.st.pc.Facts()
				out, _ = s.outgoing(1, false)
				rd = s.round(1, out)
				if rd.v == nil {
					r.fail("coverage", cons, rd.pos, "the round cannot return")
					return
				}
				if j == id {
					r.ob(feasible(rd.ok), "next-round", "Round, "+cons, rd.pos, "no round can succeed after a failed one, although everybody sends the message of the next round")
				} else {
					r.ob(!feasible(rd.ok), "wrong-frame", "Round, "+cons, rd.pos, "the round can succeed with a frame of the failed round, under %s", short(rd.ok))
				}
				s.done()
			})
		}
	}
}

// syncArbitrary: unknown bytes from every peer, and connections that fail.
func syncArbitrary(p *Program, r *Rep, f *frames, bcast bool, then func(s *syncRun, rd *syncRound, in []*T)) {
	for id := 0; id < f.n; id++ {
		cons := fmt.Sprintf("party %d of %d among peers that send anything", id, f.n)
		if bcast {
			cons += ", one message for all"
		}
		r.guard(cons, func() {
			in := make([]*T, f.n)
			s := p.prepared(r, cons, f, id, others(f.n, id), func(j int) *T {
				in[j] = sym('b', fmt.Sprintf("bytes of %d", j))
				symLo[lenB(in[j])], symHi[lenB(in[j])] = big0, pow2(60)
				return in[j]
			})
			if s == nil {
				return
			}
			s.flaky()
			for k := 0; k < 2; k++ {
				out, _ := s.outgoing(k, bcast)
				rd := s.round(k, out)
				if rd.v == nil {
					r.fail("coverage", cons, rd.pos, "the round cannot return")
					return
				}
				bad := r.failed()
				then(s, rd, in)
				if r.failed() > bad {
					break // what went wrong makes the next round needlessly hard
				}
			}
			s.done()
		})
	}
}

// framed: what was consumed is the frame that the sender would have made of what was delivered.
func (s *syncRun) framed(f *frames, rd *syncRound, in []*T) {
	r := s.r
	for _, j := range others(s.n, s.id) {
		cons := fmt.Sprintf("Round, %s, frame of party %d", s.cons, j)
		for _, ev := range s.called(rd, j) {
			g := and(ev.g, s.st.pc)
			if !feasible(g) {
				continue
			}
			d := ev.ts[1]
			fr := substT(f.frame[rd.k][j][s.id], map[*T]*T{f.load[rd.k][j][s.id]: d})
			chunks := []*T{fr}
			if fr.op == "cat" {
				chunks = fr.args
			}
			off := num(0)
			for _, c := range chunks {
				end := add(off, lenB(c))
				got := sliceB(in[j], off, end)
				ok := c == got || impliesF(g, eqBytes(got, c)) || s.pinned(g, in[j], off, c)
				r.ob(ok, "frame", cons, s.e.where(ev), "the check function gets %s although the bytes from %s on need not be %s", d, off, c)
				off = end
			}
		}
	}
}

// pinned: g determines all bytes of in from off on to be those of c.
func (s *syncRun) pinned(g *Node, in, off, c *T) bool {
	n, ok := isConst(lenB(c))
	if !ok {
		return false
	}
	if c.op == "int" {
		if impliesF(g, eq0(sub(decInt(c.name, sliceB(in, off, add(off, lenB(c)))), c.args[0]))) {
			return true
		}
	}
	o, ok := isConst(off)
	if !ok {
		return false
	}
	covered := make([]bool, n.Int64())
	seen := map[*T]bool{}
	var walk func(t *T)
	try := func(b *T, lo, hi int64, dec *T) {
		lo, hi = lo-o.Int64(), hi-o.Int64()
		if lo < 0 || hi > int64(len(covered)) || lo >= hi {
			return
		}
		want := sliceB(c, num(lo), num(hi))
		var eq *Node
		if dec != nil {
			eq = eq0(sub(dec, decInt(dec.name, want)))
		} else {
			eq = eqBytes(b, want)
		}
		if impliesF(g, eq) {
			for i := lo; i < hi; i++ {
				covered[i] = true
			}
		}
	}
	part := func(b *T) (int64, int64, bool) {
		if b.op != "slice" || b.args[0] != in {
			return 0, 0, false
		}
		lo, ok1 := isConst(b.args[1])
		hi, ok2 := isConst(b.args[2])
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		return lo.Int64(), hi.Int64(), true
	}
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if lo, hi, ok := part(t); ok {
			try(t, lo, hi, nil)
		}
		if t.op == "dec" {
			if lo, hi, ok := part(t.args[0]); ok {
				try(t.args[0], lo, hi, t)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, m := range t.mon {
			for _, f := range m.f {
				walk(f.a)
			}
		}
	}
	for _, a := range g.support() {
		walk(a)
	}
	for _, b := range covered {
		if !b {
			return false
		}
	}
	return true
}

// handshakes: connections of strangers, of the party itself or of somebody already connected change nothing.
func syncHandshakes(p *Program, r *Rep, f, more *frames, then func(s *syncRun, rd *syncRound)) {
	n := f.n
	for id := 0; id < n; id++ {
		os := others(n, id)
		cons := fmt.Sprintf("party %d of %d, to which others connect too", id, n)
		r.guard(cons, func() {
			s := p.newSync(r, cons, n, id)
			if s == nil {
				return
			}
			evil := sym('b', "bytes of somebody else")
			good := func(j int) *T {
				return cat(f.hello[j][id], f.frame[0][j][id])
			}
			first := os[0]
			s.listen = []*T{good(first), cat(f.hello[first][id], evil), cat(f.hello[id][first], evil), cat(more.hello[n][0], evil),
				sliceB(f.hello[first][id], num(0), num(1)), emptyB}
			for _, j := range os[1:] {
				s.listen = append(s.listen, good(j))
			}
			if len(os) == 1 {
				// nothing else is accepted
				s.listen = []*T{cat(f.hello[id][first], evil), cat(more.hello[n][0], evil), sliceB(f.hello[first][id], num(0), num(1)), emptyB, good(first)}
			}
			if !s.start() {
				return
			}
			out, _ := s.outgoing(0, false)
			then(s, s.round(0, out))
			s.done()
		})
	}
}

func checkC18(p *Program, r *Rep) {
	fs := p.committeesOf(r, append(syncSizes(), syncSizes()[len(syncSizes())-1]+1))
	for _, n := range syncSizes() {
		f := fs[n]
		if f == nil {
			continue
		}
		syncHonest(p, r, f, false)
		if fb := p.senders(r, n, 3, true); fb != nil {
			for k := range fb.load {
				for i := range fb.load[k] {
					for j := range fb.load[k][i] {
						if i != j {
							fr := fb.frame[k][i][j]
							want := substT(f.frame[k][i][j], map[*T]*T{f.load[k][i][j]: fb.load[k][i][j]})
							r.ob(fr == want, "broadcast", fmt.Sprintf("Round, party %d of %d, round %d", i, n, k+1), "", "with one message for all, party %d is sent %s, not %s", j, fr, want)
						}
					}
				}
			}
			syncHonest(p, r, fb, true)
		}
		syncWrong(p, r, f)
		syncArbitrary(p, r, f, false, func(s *syncRun, rd *syncRound, in []*T) {
			s.delivered(rd, nil)
			s.stepsDone(rd)
			for _, ev := range rd.events {
				if ev.kind == "panic" {
					r.ob(!feasible(ev.g), "fails-by-error", s.cons, s.e.where(ev), "the round does not report an error: %s, under %s", ev.name, short(ev.g))
				}
			}
			if rd.k == 0 {
				s.framed(f, rd, in)
				s.named(rd)
			}
			s.st.pc = rd.ok
			curFacts = s.st.pc.Facts()
		})
		syncPartial(p, r, f)
		syncAfterFailure(p, r, f)
		if m := fs[n+1]; m != nil {
			syncHandshakes(p, r, f, m, func(s *syncRun, rd *syncRound) {
				want := make([]*T, n)
				for _, j := range others(n, s.id) {
					want[j] = f.load[0][j][s.id]
				}
				s.delivered(rd, want)
				r.ob(feasible(rd.ok), "handshake", "Start, "+s.cons, s.pos, "no round can succeed after connections that are not those of the other parties")
			})
		}
	}
}

func checkC19(p *Program, r *Rep) {
	for _, n := range syncSizes() {
		f := p.senders(r, n, 2, false)
		if f == nil {
			continue
		}
		started := 0
		for _, bcast := range []bool{false, true} {
			syncArbitrary(p, r, f, bcast, func(s *syncRun, rd *syncRound, in []*T) {
				started += s.e.thr.report(r, s.cons, rd.pos, rd.born, s.st.pc)
				if rd.k == 1 {
					s.call("Stop")
					s.e.thr.report(r, s.cons, s.pos, s.e.thr.seq, s.st.pc)
				}
			})
		}
		if m := p.senders(r, n+1, 1, false); m != nil {
			syncHandshakes(p, r, f, m, func(s *syncRun, rd *syncRound) {
				s.e.thr.report(r, s.cons, rd.pos, rd.born, s.st.pc)
			})
		}
		for id := 0; id < n && n < 4; id++ { // the ways in which anybody may connect grow too fast
			cons := fmt.Sprintf("Start, party %d of %d, to which anybody connects", id, n)
			r.guard(cons, func() {
				s := p.newSync(r, cons, n, id)
				if s == nil {
					return
				}
				s.sure, s.dialOK = false, false
				if s.start() {
					s.e.thr.report(r, s.cons, s.pos, s.e.thr.seq, s.st.pc)
				}
				s.done()
			})
		}
		r.ob(started > 0, "coverage", fmt.Sprintf("%d parties", n), "", "no goroutine was started")
	}
}

// syncRobust: no panic and no allocation of a size that a peer chooses.
func syncRobust(p *Program, r *Rep) {
	rule := func(s *syncRun, evs []*Event) {
		n := 0
		for _, ev := range evs {
			switch ev.kind {
			case "panic":
				if feasible(ev.g) {
					r.fail("no-crash", s.cons, s.e.where(ev), "the node can crash: %s, under %s", ev.name, short(ev.g))
					n++
				}
			case "make":
				if !feasible(ev.g) {
					continue
				}
				var hi *big.Int
				factsOf(ev.g, func() { _, hi = bounds(ev.ts[0]) })
				r.ob(hi != nil && hi.Cmp(big.NewInt(maxAlloc)) <= 0, "bounded-allocation", s.cons, s.e.where(ev), "an allocation of %s elements is bounded only by %v: a peer chooses its size", ev.ts[0], hi)
			}
		}
		if n == 0 {
			r.ob(true, "no-crash", s.cons, s.pos, "")
		}
	}
	for _, n := range syncSizes() {
		f := p.senders(r, n, 1, false)
		if f == nil {
			continue
		}
		syncArbitrary(p, r, f, false, func(s *syncRun, rd *syncRound, in []*T) {
			rule(s, rd.events)
			for _, ev := range rd.events {
				if ev.kind == "read" && ev.ok != nil {
					r.ob(impliesF(and(rd.ok, ev.g), ev.ok), "complete-read", s.cons, s.e.where(ev), "the round can succeed with a part of a frame")
					r.ob(!strings.HasPrefix(ev.name, "short:") || !feasible(and(rd.ok, ev.g)), "complete-read", s.cons, s.e.where(ev), "what is read may be less than asked for, and the round can succeed")
				}
			}
		})
		for id := 0; id < n && n < 4; id++ { // the ways in which anybody may connect grow too fast
			cons := fmt.Sprintf("Start, party %d of %d, to which anybody connects", id, n)
			r.guard(cons, func() {
				s := p.newSync(r, cons, n, id)
				if s == nil {
					return
				}
				s.dialOK = false // and whose connections to others fail
				if s.start() {
					rule(s, s.e.events)
				}
				s.done()
			})
		}
		if more := p.senders(r, n+1, 1, false); more != nil {
			syncHandshakes(p, r, f, more, func(s *syncRun, rd *syncRound) { rule(s, s.e.events) })
		}
	}
}

func init() {
	checks["CSY"] = checkDef{run: func(p *Program, r *Rep) { checkC18(p, r); checkC19(p, r); syncRobust(p, r) }}
}
