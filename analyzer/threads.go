package main

// Goroutines are interpreted where they are started. What they do to memory is recorded together with what orders
// it: starting, WaitGroups, channels and locks. Accesses that nothing orders are races; then the result does not
// depend on the schedule, and the interpretation stands for all of them.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// before: everything thread t did up to seq happened before, if g.
type before struct {
	t, seq int
	g      *Node
}

type thread struct {
	id, parent int
	g          *Node // condition under which it is started
	pos        string
	born       int
	last       map[*Node]int // last access, by condition
	vc         []before
	locks      []held
	ended      *Node // condition under which its function returns
}

type held struct {
	key   string
	read  bool
	g     *Node
	pos   string
	depth int
}

type access struct {
	t, seq int
	o      *Obj
	inst   string
	path   []Step
	lo, hi *T // part of an array of bytes
	write  bool
	g      *Node
	locks  []held
	pos    string
}

type wgEvent struct {
	key   string
	t     int
	seq   int
	n     *T // change of the counter; nil for Wait
	g     *Node
	pos   string
	prior []before // what the thread knew
}

// chanSend is a send to a channel, or its closing; it goes with the item of chans at the same place.
type chanSend struct {
	t, seq  int
	g       *Node
	closing bool
	pos     string
}

type problem struct{ rule, pos, msg string }

type threads struct {
	list  []*thread
	cur   int
	seq   int
	acc   map[*Obj][]access
	wgs   []wgEvent
	chans map[string][][]before
	taken map[string]int
	sends map[string][]chanSend
	caps  map[string]*T
	probs []problem
	seen  map[string]bool
	off   bool
	pairs int
}

func newThreads() *threads {
	return &threads{list: []*thread{{g: bTrue, ended: bTrue, last: map[*Node]int{}}}, acc: map[*Obj][]access{}, chans: map[string][][]before{}, taken: map[string]int{}, sends: map[string][]chanSend{}, caps: map[string]*T{}, seen: map[string]bool{}}
}

// save and restore serve loops that are run again.
func (h *threads) save() *threads {
	if h == nil {
		return nil
	}
	c := *h
	c.list = nil
	for _, t := range h.list {
		t2 := *t
		t2.last = map[*Node]int{}
		for k, v := range t.last {
			t2.last[k] = v
		}
		c.list = append(c.list, &t2)
	}
	c.acc = map[*Obj][]access{}
	for k, v := range h.acc {
		c.acc[k] = v[:len(v):len(v)]
	}
	c.wgs = h.wgs[:len(h.wgs):len(h.wgs)]
	c.probs = h.probs[:len(h.probs):len(h.probs)]
	c.chans, c.taken, c.seen = map[string][][]before{}, map[string]int{}, map[string]bool{}
	for k, v := range h.chans {
		c.chans[k] = v[:len(v):len(v)]
	}
	for k, v := range h.taken {
		c.taken[k] = v
	}
	c.sends, c.caps = map[string][]chanSend{}, map[string]*T{}
	for k, v := range h.sends {
		c.sends[k] = v[:len(v):len(v)]
	}
	for k, v := range h.caps {
		c.caps[k] = v
	}
	for k, v := range h.seen {
		c.seen[k] = v
	}
	return &c
}

func (h *threads) restore(m *threads) {
	if h == nil || m == nil {
		return
	}
	*h = *m.save()
}

func (h *threads) problem(rule, pos, format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	if k := rule + pos + m; !h.seen[k] {
		h.seen[k] = true
		h.probs = append(h.probs, problem{rule, pos, m})
	}
}

func (h *threads) spawn(e *Eng, st *State, site *Site) int {
	if h == nil {
		return 0
	}
	h.seq++
	old := h.cur
	p := h.list[old]
	t := &thread{id: len(h.list), parent: old, g: st.pc, pos: e.p.pos(site.pos), born: h.seq, last: map[*Node]int{st.pc: h.seq}, ended: bFalse}
	t.vc = append(append([]before{}, p.vc...), before{old, h.seq, bTrue})
	h.list = append(h.list, t)
	h.cur = t.id
	return old
}

func (h *threads) back(old int, st *State) {
	if h == nil {
		return
	}
	t := h.list[h.cur]
	t.ended = st.pc
	for _, l := range t.locks {
		if feasible(and(l.g, st.pc)) {
			h.problem("lock-released", l.pos, "a goroutine ends while it holds the lock")
		}
	}
	h.cur = old
}

func ptrKey(p VPtr) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", p.o.id)
	for _, i := range p.inst {
		fmt.Fprintf(&sb, "[%d]", i.id)
	}
	for _, s := range p.path {
		if s.idx != nil {
			fmt.Fprintf(&sb, ".@%d", s.idx.id)
		} else {
			fmt.Fprintf(&sb, ".%d", s.f)
		}
	}
	return sb.String()
}

// apart says whether two accesses cannot meet under g.
func apart(a, b *access, g *Node) bool {
	for i := 0; i < len(a.path) && i < len(b.path); i++ {
		x, y := a.path[i], b.path[i]
		if x.idx == nil && y.idx == nil {
			if x.f != y.f {
				return true
			}
			continue
		}
		if x.idx != nil && y.idx != nil && x.idx != y.idx && !feasible(and(g, eq0(sub(x.idx, y.idx)))) {
			return true
		}
	}
	if a.lo != nil && b.lo != nil {
		return !feasible(and(g, and(lt(a.lo, b.hi), lt(b.lo, a.hi))))
	}
	return false
}

func (h *threads) access(e *Eng, st *State, p VPtr, write bool, pos token.Pos) {
	if h != nil && !h.off {
		h.note(e, st, access{o: p.o, inst: fmt.Sprint(len(p.inst)), path: p.path, write: write}, pos)
	}
}

// rng is an access to a part of an array of bytes.
func (h *threads) rng(e *Eng, st *State, p VPtr, off, ln *T, write bool, pos token.Pos) {
	if h != nil && !h.off {
		h.note(e, st, access{o: p.o, path: p.path, lo: off, hi: add(off, ln), write: write}, pos)
	}
}

func (h *threads) quiet(f func()) {
	if h == nil {
		f()
		return
	}
	old := h.off
	h.off = true
	f()
	h.off = old
}

func (h *threads) note(e *Eng, st *State, a access, pos token.Pos) {
	if st.pc == bFalse || a.o.typ == nil {
		return
	}
	if _, ok := a.o.typ.Underlying().(*types.Chan); ok {
		return
	}
	h.seq++
	t := h.list[h.cur]
	t.last[st.pc] = h.seq
	a.t, a.seq, a.g, a.pos = h.cur, h.seq, st.pc, e.p.pos(pos)
	if !pos.IsValid() && len(e.stack) > 0 {
		a.pos = e.p.pos(e.stack[len(e.stack)-1].fn.Pos())
	}
	a.locks = append([]held{}, t.locks...)
	old := h.acc[a.o]
	for i := range old {
		b := &old[i]
		if b.t == a.t || !(b.write || a.write) {
			continue
		}
		h.pairs++
		g := and(a.g, b.g)
		if g == bFalse || apart(&a, b, g) || h.ordered(b, t, g) || common(&a, b, g) || !feasible(g) {
			continue
		}
		what := "read"
		if a.write {
			what = "written"
		}
		by := "read"
		if b.write {
			by = "written"
		}
		h.problem("race", a.pos, "%s is %s here while it may be %s at %s by another goroutine (started at %s), without synchronization", objName(a.o, a.path), what, by, b.pos, h.list[max(a.t, b.t)].pos)
	}
	// a repeated access adds nothing
	for i := len(old) - 1; i >= 0 && i > len(old)-6; i-- {
		b := &old[i]
		if b.t == a.t && b.write == a.write && b.g == a.g && samePath(a.path, b.path) && b.lo == a.lo && b.hi == a.hi && len(b.locks) == len(a.locks) {
			b.seq = a.seq
			return
		}
	}
	h.acc[a.o] = append(old, a)
}

func objName(o *Obj, path []Step) string {
	n := o.name
	if n == "" {
		n = "memory"
	}
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	for _, s := range path {
		if s.idx != nil {
			n += "[" + s.idx.String() + "]"
		} else {
			n += fmt.Sprintf(".%d", s.f)
		}
	}
	return n
}

// ordered says that b happened before what t does now, whenever g.
func (h *threads) ordered(b *access, t *thread, g *Node) bool {
	cover := bFalse
	for _, x := range t.vc {
		if x.t == b.t && x.seq >= b.seq {
			cover = or(cover, x.g)
			if implies(g, cover) {
				return true
			}
		}
	}
	return cover != bFalse && !feasible(and(g, not(cover)))
}

func common(a, b *access, g *Node) bool {
	for _, x := range a.locks {
		for _, y := range b.locks {
			if x.key == y.key && !(x.read && y.read) && implies(g, and(x.g, y.g)) {
				// a reader's lock excludes writers only
				return !(x.read && a.write) && !(y.read && b.write)
			}
		}
	}
	return false
}

// knows is what holds before the next step of the current thread.
func (h *threads) knows(g *Node) []before {
	t := h.list[h.cur]
	out := make([]before, 0, len(t.vc)+1)
	for _, x := range t.vc {
		if c := and(x.g, g); c != bFalse {
			out = append(out, before{x.t, x.seq, c})
		}
	}
	return append(out, before{t.id, h.seq, g})
}

func (h *threads) learn(xs []before, g *Node) {
	t := h.list[h.cur]
	for _, x := range xs {
		c := and(x.g, g)
		if c == bFalse || x.t == t.id {
			continue
		}
		dup := false
		for _, y := range t.vc {
			dup = dup || y.t == x.t && y.seq >= x.seq && implies(c, y.g)
		}
		if !dup {
			t.vc = append(t.vc, before{x.t, x.seq, c})
		}
	}
}

// synch is a call of a method of sync.WaitGroup, sync.Mutex or sync.RWMutex.
func (h *threads) synch(e *Eng, st *State, rt, m string, args []Val, site *Site) {
	if h == nil {
		return
	}
	p, ok := args[0].(VPtr)
	if !ok {
		e.undecided(site.pos, "%s.%s on %s", rt, m, describe(args[0]))
		return
	}
	h.seq++
	key, pos := ptrKey(p), e.p.pos(site.pos)
	t := h.list[h.cur]
	switch rt + "." + m {
	case "sync.WaitGroup.Add", "sync.WaitGroup.Done":
		n := num(-1)
		if m == "Add" {
			n = e.intArg(args[1])
		}
		h.wgs = append(h.wgs, wgEvent{key, h.cur, h.seq, n, st.pc, pos, h.knows(st.pc)})
	case "sync.WaitGroup.Wait":
		ev := wgEvent{key, h.cur, h.seq, nil, st.pc, pos, h.knows(st.pc)}
		h.counter(key, st.pc, pos, ev.prior)
		for _, w := range h.wgs {
			if w.key == key && w.n != nil {
				if c, ok := isConst(w.n); ok && c.Sign() < 0 {
					h.learn(w.prior, st.pc)
				}
			}
		}
		h.wgs = append(h.wgs, ev)
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock":
		for _, l := range t.locks {
			if l.key == key && feasible(and(l.g, st.pc)) {
				h.problem("deadlock", pos, "the lock is taken while the same goroutine holds it (since %s)", l.pos)
			}
		}
		t.locks = append(t.locks, held{key, strings.HasSuffix(m, "RLock"), st.pc, pos, 0})
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock":
		found := bFalse
		var rest []held
		for _, l := range t.locks {
			if l.key == key && l.read == strings.HasSuffix(m, "RUnlock") {
				found = or(found, l.g)
				if l.g = and(l.g, not(st.pc)); l.g != bFalse {
					rest = append(rest, l)
				}
				continue
			}
			rest = append(rest, l)
		}
		t.locks = rest
		if !implies(st.pc, found) && feasible(and(st.pc, not(found))) {
			h.problem("deadlock", pos, "the lock is released by a goroutine that does not hold it")
		}
	default:
		e.undecided(site.pos, "%s.%s", rt, m)
	}
}

// counter decides that the counter of a WaitGroup is zero again when all its goroutines have finished.
func (h *threads) counter(key string, g *Node, pos string, prior []before) {
	counts := map[int64]*Node{0: g}
	for _, w := range h.wgs {
		if w.key != key || w.n == nil {
			continue
		}
		c, ok := isConst(w.n)
		if !ok {
			h.problem("counter", w.pos, "the counter of goroutines changes by %s, which is not known", w.n)
			return
		}
		n := c.Int64()
		if n > 0 {
			seen := w.t == h.cur
			for _, x := range prior {
				seen = seen || x.t == w.t && x.seq >= w.seq && implies(and(g, w.g), x.g)
			}
			if !seen && feasible(and(g, w.g)) {
				h.problem("counter", w.pos, "the counter is raised here while it may already be waited for at %s", pos)
			}
		}
		next := map[int64]*Node{}
		put := func(k int64, g *Node) {
			if g == bFalse {
				return
			}
			if o, ok := next[k]; ok {
				g = or(o, g)
			}
			next[k] = g
		}
		for k, cg := range counts {
			put(k+n, and(cg, w.g))
			put(k, and(cg, not(w.g)))
		}
		counts = next
		for k, cg := range counts {
			if k < 0 && feasible(cg) {
				h.problem("counter", w.pos, "the counter of goroutines falls below zero")
				return
			}
		}
	}
	var ks []int64
	for k := range counts {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		if k > 0 && feasible(counts[k]) {
			h.problem("counter", pos, "waits for ever: %d of the goroutines counted do not report their end, under %s", k, short(counts[k]))
			return
		}
	}
}

func short(g *Node) string {
	s := g.String()
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

func (h *threads) made(p VPtr, size *T) {
	if h != nil && size != nil {
		h.caps[ptrKey(p)] = size
	}
}

func (h *threads) send(e *Eng, st *State, p VPtr, closing bool, site *Site) {
	if h == nil || st.pc == bFalse {
		return
	}
	h.seq++
	k, pos := ptrKey(p), e.p.pos(site.pos)
	t := h.list[h.cur]
	for _, s := range h.sends[k] {
		g := and(s.g, st.pc)
		switch {
		case !s.closing && !closing || g == bFalse || !feasible(g):
		case s.closing && closing:
			h.problem("closed-channel", pos, "the channel is closed here after it was closed at %s", s.pos)
		case s.closing:
			h.problem("closed-channel", pos, "sends to a channel that may already be closed at %s", s.pos)
		case s.t != t.id && !h.ordered(&access{t: s.t, seq: s.seq}, t, g):
			h.problem("closed-channel", pos, "the channel is closed here while a goroutine may still send to it at %s", s.pos)
		}
	}
	h.chans[k] = append(h.chans[k], h.knows(st.pc))
	h.sends[k] = append(h.sends[k], chanSend{t.id, h.seq, st.pc, closing, pos})
}

// room decides that the channel can hold everything that the current thread knows to be sent and that nobody has
// received: otherwise what it waited for never happens.
func (h *threads) room(k string, g *Node, pos string) {
	size, ok := h.caps[k]
	if !ok {
		return
	}
	t := h.list[h.cur]
	counts := []*Node{g} // by number of items
	for i := h.taken[k]; i < len(h.sends[k]); i++ {
		s := h.sends[k][i]
		if s.closing || and(g, s.g) == bFalse {
			continue
		}
		if s.t != t.id && !h.ordered(&access{t: s.t, seq: s.seq}, t, and(g, s.g)) {
			continue
		}
		next := make([]*Node, len(counts)+1)
		for n := range next {
			next[n] = bFalse
		}
		for n, c := range counts {
			next[n] = or(next[n], and(c, not(s.g)))
			next[n+1] = or(next[n+1], and(c, s.g))
		}
		counts = next
	}
	for n := len(counts) - 1; n > 0; n-- {
		if c := and(counts[n], lt(size, num(int64(n)))); c != bFalse && feasible(c) {
			h.problem("deadlock", pos, "%d sends to the channel have to be finished here before anything is received, but it holds %s", n, size)
			return
		}
	}
}

func (h *threads) recv(e *Eng, st *State, p VPtr, site *Site) {
	if h == nil {
		return
	}
	k := ptrKey(p)
	h.room(k, st.pc, e.p.pos(site.pos))
	// sends under exclusive conditions are one item
	for h.taken[k] < len(h.chans[k]) {
		xs := h.chans[k][h.taken[k]]
		h.taken[k]++
		h.learn(xs, st.pc)
		mine := xs[len(xs)-1].g
		if h.taken[k] >= len(h.chans[k]) {
			break
		}
		nx := h.chans[k][h.taken[k]]
		if feasible(and(mine, nx[len(nx)-1].g)) {
			break
		}
	}
	h.seq++
}

// finished decides that every goroutine started after seq has finished for the current thread, whenever g.
func (h *threads) finished(from int, g *Node, where string) (n int) {
	t := h.list[h.cur]
	for _, x := range h.list {
		if x.born <= from || x.id == 0 {
			continue
		}
		n++
		for xg, seq := range x.last {
			c := and(g, xg)
			if c == bFalse || !feasible(c) {
				continue
			}
			b := &access{t: x.id, seq: seq}
			if !h.ordered(b, t, c) {
				h.problem("finished", x.pos, "the goroutine started here may still be running when %s returns", where)
				break
			}
		}
	}
	for _, l := range t.locks {
		if feasible(and(l.g, g)) {
			h.problem("lock-released", l.pos, "%s returns while it holds the lock", where)
		}
	}
	return n
}

// report makes obligations of what was found since the last report; everything started after seq must have finished.
func (h *threads) report(r *Rep, cons, pos string, from int, g *Node) int {
	n := h.finished(from, g, "it")
	for _, x := range h.probs {
		r.fail(x.rule, cons, x.pos, "%s", x.msg)
	}
	r.ob(len(h.probs) == 0, "synchronized", cons, pos, "%d problems", len(h.probs))
	r.counts["pairs of accesses of different goroutines"] += h.pairs
	r.counts["goroutines"] += n
	h.probs, h.pairs = nil, 0
	return n
}

// keep collects the locks that are held when a loop repeats under g.
func (h *threads) keep(at map[string]held, g *Node) (changed bool) {
	if h == nil {
		return false
	}
	for _, l := range h.list[h.cur].locks {
		if _, ok := at[l.key]; !ok && feasible(and(l.g, g)) {
			l.g = bTrue
			at[l.key] = l
			changed = true
		}
	}
	return changed
}

// hold lets the loop begin with these locks, in case it repeats.
func (h *threads) hold(at map[string]held) {
	if h == nil || len(at) == 0 {
		return
	}
	t := h.list[h.cur]
	for k, l := range at {
		have := false
		for _, x := range t.locks {
			have = have || x.key == k
		}
		if !have {
			// the first iteration begins without it
			l.g = bsym("the loop repeats, holding " + k)
			t.locks = append(t.locks, l)
		}
	}
}
