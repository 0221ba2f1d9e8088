package main

// Abstract interpretation of SSA functions: one forward pass over the flow graph, states joined at every
// merge, values kept as guarded alternatives, loops summarised by their recurrences, callees inlined.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Cell = Val

// Event is something observable or checkable that happens at a program point.
type Event struct {
	kind   string
	pos    token.Pos
	fn     *ssa.Function // function of the project the event is in
	chain  []string
	g      *Node // condition under which it happens
	name   string
	ts     []*T
	vals   []Val
	ok     *Node // for fallible steps: the condition of success
	kappas []*T
	trips  []*T
	seq    int
	ingo   int
}

type Eng struct {
	p             *Program
	concreteGroup bool
	objSeq        int
	inputs        map[string]*Obj
	bytesOf       map[*Obj]string
	globals       map[*ssa.Global]*Obj
	globalMem     map[*Obj]Val
	sites         map[string]*Obj
	siteIDs       map[string]int
	events        []*Event
	undec         []string
	kappas, trips []*T
	unroll        []int
	stack         []*Frame
	depth         int
	ingo          int
	steps         int
	symIntHook    func(name string) (*big.Int, *big.Int, bool)
	invokeHook    func(e *Eng, st *State, method string, recv Val, args []Val, site *Site) (Val, bool)
	callHook      func(e *Eng, st *State, fn *ssa.Function, args []Val, site *Site) (Val, bool)
	loopInfo      map[*ssa.Function]*fnInfo
	errIdx        int
	maxSteps      int
	trialDepth    int
	nonStrict     bool
	inInit        bool
	calls         int
	tag           string // distinguishes the unknowns of parties
	widen         bool   // loops of unknown length are run for one arbitrary iteration
	script        int    // connections taken from a prepared list
	thr           *threads
	assumed       []*Node
	recCalls      bool // note which functions of the project report errors
	sureDraws     bool // reading randomness does not fail
	distinct      bool // different inputs are different objects (the rule covers coincidences by cases of their own)
	extraGlobal   func(g *ssa.Global) (Val, bool)
	extraModel    func(e *Eng, st *State, name string, fn *ssa.Function, args []Val, site *Site) (Val, bool)
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	path   string
	bind   []Val
	defers []deferred
	rets   []retRec
	pos    token.Pos // call position in the caller
}
type deferred struct {
	g    *Node
	call *ssa.CallCommon
	fn   Val
	args []Val
	in   ssa.Instruction
}
type retRec struct {
	st *State
	v  Val
}

// Site identifies a dynamic program point.
type Site struct {
	fr   *Frame
	in   ssa.Instruction
	pos  token.Pos
	path string
}

func newEng(p *Program) *Eng {
	if bigType == nil {
		bigType = p.typeOf("math/big", "Int")
	}
	e := &Eng{p: p, inputs: map[string]*Obj{}, bytesOf: map[*Obj]string{}, globals: map[*ssa.Global]*Obj{}, globalMem: map[*Obj]Val{},
		sites: map[string]*Obj{}, siteIDs: map[string]int{}, loopInfo: map[*ssa.Function]*fnInfo{}, maxSteps: 3000000}
	return e
}

type undecidedErr struct{ msg string }

func (e *Eng) undecided(pos token.Pos, format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...) + " at " + e.p.pos(pos)
	for _, u := range e.undec {
		if u == m {
			return
		}
	}
	e.undec = append(e.undec, m)
}

func (e *Eng) event(kind string, st *State, site *Site, name string) *Event {
	ev := &Event{kind: kind, name: name, g: st.pc, seq: len(e.events), ingo: e.ingo}
	if site != nil {
		ev.pos = site.pos
		if site.fr != nil {
			ev.fn = site.fr.fn
		}
	}
	for _, f := range e.stack {
		ev.chain = append(ev.chain, f.fn.Name())
	}
	ev.kappas = append([]*T{}, e.kappas...)
	ev.trips = append([]*T{}, e.trips...)
	e.events = append(e.events, ev)
	return ev
}

func (e *Eng) siteKey(fr *Frame, in ssa.Instruction) string {
	s := fr.path + "/" + instrID(in)
	for _, u := range e.unroll {
		s += fmt.Sprintf("~%d", u)
	}
	return s
}

func instrID(in ssa.Instruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("%d.%d", b.Index, i)
		}
	}
	return "?"
}

func (e *Eng) siteName(s *Site, prefix string) string {
	k := prefix + s.path
	id, ok := e.siteIDs[k]
	if !ok {
		id = len(e.siteIDs)
		e.siteIDs[k] = id
	}
	return fmt.Sprintf("%s#%d@%s%s", prefix, id, e.p.pos(s.pos), e.tag)
}

// okAtom is the condition that the fallible step at the site succeeds.
func (e *Eng) okAtom(s *Site, what string) *Node {
	return bsym(e.siteName(s, "ok:"+what), e.kappas...)
}

func (e *Eng) freshErr(s *Site, args ...Val) Val {
	return VErr{sym('o', e.siteName(s, "err"), e.kappas...), args}
}

// assume restricts values that are otherwise unknown. It concerns whoever comes to know them, in any goroutine.
func (e *Eng) assume(st *State, c *Node) {
	e.assumed = append(e.assumed, or(not(st.pc), c))
	st.pc = and(st.pc, c)
}

// fallible is the error result of a step that succeeds iff ok.
func (e *Eng) errUnion(ok *Node, err Val) Val {
	return mkUnion([]Alt{{ok, VNil{}}, {not(ok), err}})
}

// ---- memory

func (e *Eng) content(st *State, o *Obj, inst []*T) Val {
	if v, ok := st.mem[o]; ok {
		return v
	}
	if v, ok := e.globalMem[o]; ok {
		return v
	}
	if o.symb != "" && len(o.kappas) == 0 {
		return e.baseContent(o, nil)
	}
	return nil
}

func (e *Eng) load(st *State, p VPtr, pos token.Pos) Val {
	e.thr.access(e, st, p, false, pos)
	c := e.content(st, p.o, p.inst)
	if p.o.symb != "" && len(p.o.kappas) > 0 {
		// family of symbolic objects
		if c == nil {
			c = e.baseContent(p.o, p.inst)
		} else {
			c = e.selectArr(st, c, famIndex(p.inst), pos, func() Val { return e.baseContent(p.o, p.inst) })
		}
	} else {
		for l, k := range p.o.kappas {
			if l >= len(p.inst) {
				break
			}
			if fam, ok := c.(VArr); ok && fam.base == "fam:"+k.name {
				c = e.selectArr(st, fam, p.inst[l], pos, nil)
			} else if p.inst[l] != k {
				if !e.nonStrict {
					e.undecided(pos, "object of another iteration of a loop that is still running")
				}
				return e.opaque(st, "stale", p.o.typ, pos)
			}
		}
	}
	if c == nil {
		e.undecided(pos, "uninitialised object %s", p.o.name)
		return VOpq{sym('o', fmt.Sprintf("uninit:%s#%d", p.o.name, p.o.id))}
	}
	return e.loadPath(st, c, p.path, pos)
}

func famIndex(inst []*T) *T {
	if len(inst) == 1 {
		return inst[0]
	}
	return mkTerm("tuple", 'i', "", inst...)
}

func (e *Eng) loadPath(st *State, c Val, path []Step, pos token.Pos) Val {
	if len(path) == 0 {
		return c
	}
	s := path[0]
	switch c := c.(type) {
	case *VUnion:
		var as []Alt
		for _, a := range c.alts {
			if and(a.g, st.pc) == bFalse {
				continue
			}
			as = append(as, Alt{a.g, e.loadPath(st, a.v, path, pos)})
		}
		return mkUnion(as)
	case VStruct:
		if s.idx == nil && s.f < len(c.f) {
			return e.loadPath(st, c.f[s.f], path[1:], pos)
		}
	case VArr:
		if s.idx != nil {
			return e.loadPath(st, e.selectArr(st, c, s.idx, pos, nil), path[1:], pos)
		}
	case VBytes:
		if s.idx != nil {
			return VInt{decInt("B1", sliceB(c.t, s.idx, add(s.idx, num(1))))}
		}
	case VOpq:
		return VOpq{mkTerm("field", 'o', fmt.Sprint(s.f), c.t)}
	}
	e.undecided(pos, "cannot select a part of %s", describe(c))
	return VOpq{sym('o', "badload")}
}

// selectArr reads the element j.
func (e *Eng) selectArr(st *State, cv Val, j *T, pos token.Pos, base func() Val) Val {
	if u, ok := cv.(*VUnion); ok {
		var as []Alt
		for _, a := range u.alts {
			as = append(as, Alt{a.g, e.selectArr(st, a.v, j, pos, base)})
		}
		return mkUnion(as)
	}
	c, ok := cv.(VArr)
	if !ok {
		return e.opaque(st, "elem", nil, pos)
	}
	pc := st.pc
	rest := bTrue
	var alts []Alt
	old := curFacts
	defer func() { curFacts = old }()
	for i := len(c.w) - 1; i >= 0; i-- {
		w := c.w[i]
		curFacts = pc.Facts()
		var cond *Node
		var val Val
		if w.v == nil {
			cond = eqIdx(w.idx, j)
			if cond == bFalse {
				continue
			}
			cond = and(cond, w.g)
			val = w.val
		} else {
			k := solveIdx(w.idx, w.v, j)
			if k == nil {
				// the index is not a shift of the variable: name the iteration that wrote element j
				k = mkTerm("sel", 'i', "", j, mkBinder("selw", 'i', "", w.v, w.n, mkTerm("pair", 'i', "", w.idx, indicator(w.g))))
				symBoundsSel(k)
				m := map[*T]*T{w.v: k}
				cond = and(lt(j, mkFilterLen(w)), not(lt(j, num(0))))
				val = substV(w.val, m)
			} else {
				m := map[*T]*T{w.v: k}
				cond = and(and(not(lt(k, num(0))), lt(k, w.n)), substN(w.g, m))
				val = substV(w.val, m)
			}
		}
		cond = simplify(pc, cond)
		if cond == bFalse || and(pc, cond) == bFalse {
			continue
		}
		if implies(pc, cond) {
			cond = bTrue
		}
		alts = append(alts, Alt{and(rest, cond), val})
		rest = and(rest, not(cond))
		pc = and(pc, not(cond))
		if rest == bFalse || pc == bFalse || !feasible(pc) {
			return mkUnion(alts)
		}
	}
	curFacts = pc.Facts()
	var b Val
	switch {
	case base != nil:
		b = base()
	case c.base == "zero":
		b = e.zero(c.elem)
	case strings.HasPrefix(c.base, "sym:"):
		b = e.symContent(strings.TrimSuffix(c.base[4:], "[]"), c.elem, append(append([]*T{}, c.idx...), j))
	case strings.HasPrefix(c.base, "fam:"):
		e.undecided(pos, "element %s of a family of objects is not defined", j)
		b = VOpq{sym('o', "nofam")}
	default:
		b = e.opaqueElem(c, j)
	}
	alts = append(alts, Alt{rest, b})
	return mkUnion(alts)
}

func (e *Eng) opaqueElem(c VArr, j *T) Val {
	name := c.base
	if c.elem != nil {
		return e.symContent(name, c.elem, append(append([]*T{}, c.idx...), j))
	}
	return VOpq{sym('o', name, j)}
}

func mkFilterLen(w Write) *T {
	return mkSum(w.v, w.n, indicator(w.g))
}

func symBoundsSel(k *T) {}

func eqIdx(a, b *T) *Node {
	if a == b {
		return bTrue
	}
	if a.op == "tuple" && b.op == "tuple" {
		r := bTrue
		for i := range a.args {
			r = and(r, eqIdx(a.args[i], b.args[i]))
		}
		return r
	}
	return eq0(sub(a, b))
}

// solveIdx finds k with idx[v:=k] = j for idx = v + c.
func solveIdx(idx, v, j *T) *T {
	if idx.op == "tuple" {
		return nil
	}
	c := coefOf(idx, []fac{{v, 1}})
	if c == nil || c.CmpAbs(big1) != 0 {
		return nil
	}
	rest := sub(idx, scale(c, v))
	if rest.vars[v] {
		return nil
	}
	k := sub(j, rest)
	if c.Sign() < 0 {
		k = neg(k)
	}
	return k
}

// store writes v at p.
func (e *Eng) store(st *State, p VPtr, v Val, site *Site) {
	if (p.o.input || p.o.global) && site != nil {
		ev := e.event("store-input", st, site, p.o.name)
		ev.vals = []Val{p, v}
	}
	pos := token.NoPos
	if site != nil {
		pos = site.pos
	}
	e.thr.access(e, st, p, true, pos)
	c := e.content(st, p.o, p.inst)
	if p.o.symb != "" && len(p.o.kappas) > 0 {
		fam, ok := c.(VArr)
		if !ok {
			fam = VArr{base: "symfam"}
		}
		cur := e.selectArr(st, fam, famIndex(p.inst), pos, func() Val { return e.baseContent(p.o, p.inst) })
		nv := e.storePath(st, cur, p.path, v, pos)
		st.mem[p.o] = appendWrite(fam, Write{g: bTrue, idx: famIndex(p.inst), val: nv})
		return
	}
	st.mem[p.o] = e.storeFam(st, c, p, 0, v, pos)
}

func (e *Eng) storeFam(st *State, c Val, p VPtr, l int, v Val, pos token.Pos) Val {
	for l < len(p.o.kappas) && l < len(p.inst) {
		k := p.o.kappas[l]
		if fam, ok := c.(VArr); ok && fam.base == "fam:"+k.name {
			cur := e.selectArr(st, fam, p.inst[l], pos, nil)
			nv := e.storeFam(st, cur, p, l+1, v, pos)
			return appendWrite(fam, Write{g: bTrue, idx: p.inst[l], val: nv})
		}
		if p.inst[l] != k {
			e.undecided(pos, "write to an object of another iteration of a loop that is still running")
		}
		l++
	}
	return e.storePath(st, c, p.path, v, pos)
}

func appendWrite(a VArr, w Write) VArr {
	ws := append([]Write{}, a.w...)
	if n := len(ws); n > 0 && w.v == nil && ws[n-1].v == nil && ws[n-1].idx == w.idx && w.g == bTrue {
		ws[n-1] = w
	} else {
		ws = append(ws, w)
	}
	a.w = ws
	return a
}

func (e *Eng) storePath(st *State, c Val, path []Step, v Val, pos token.Pos) Val {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	switch c := c.(type) {
	case *VUnion:
		var as []Alt
		for _, a := range c.alts {
			if and(a.g, st.pc) == bFalse {
				continue
			}
			as = append(as, Alt{a.g, e.storePath(st, a.v, path, v, pos)})
		}
		return mkUnion(as)
	case VStruct:
		if s.idx == nil && s.f < len(c.f) {
			fs := append([]Val{}, c.f...)
			fs[s.f] = e.storePath(st, fs[s.f], path[1:], v, pos)
			return VStruct{fs}
		}
	case VArr:
		if s.idx != nil {
			nv := v
			if len(path) > 1 {
				nv = e.storePath(st, e.selectArr(st, c, s.idx, pos, nil), path[1:], v, pos)
			}
			return appendWrite(c, Write{g: bTrue, idx: s.idx, val: nv})
		}
	case VBytes:
		if s.idx != nil {
			if iv, ok := v.(VInt); ok {
				return VBytes{spliceB(c.t, s.idx, encInt("B1", iv.t))}
			}
			return VBytes{spliceB(c.t, s.idx, sym('b', "byte?"))}
		}
	}
	e.undecided(pos, "cannot store into a part of %s", describe(c))
	return c
}

// spliceB overwrites b at lo with data.
func spliceB(b, lo, data *T) *T {
	hi := add(lo, lenB(data))
	return cat(sliceB(b, num(0), lo), data, sliceB(b, hi, lenB(b)))
}

func (e *Eng) opaque(st *State, what string, t types.Type, pos token.Pos) Val {
	e.errIdx++
	name := fmt.Sprintf("?%s%d@%s", what, e.errIdx, e.p.pos(pos))
	return e.opaqueNamed(name, t)
}

func (e *Eng) opaqueNamed(name string, t types.Type) Val {
	if t == nil {
		return VOpq{sym('o', name, e.kappas...)}
	}
	if tup, ok := t.(*types.Tuple); ok {
		fs := make([]Val, tup.Len())
		for i := range fs {
			fs[i] = e.opaqueNamed(fmt.Sprintf("%s.%d", name, i), tup.At(i).Type())
		}
		return VTuple{fs}
	}
	if namedPath(t) == "error" {
		ok := bsym("ok:"+name, e.kappas...)
		return e.errUnion(ok, VErr{t: sym('o', "err:"+name, e.kappas...)})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0 {
			return e.symContent(name, t, e.kappas)
		}
	case *types.Struct:
		return e.symContent(name, t, e.kappas)
	case *types.Slice:
		v := e.symContent(name, t, e.kappas).(VSlice)
		v.arr.o.input = false
		return v
	case *types.Pointer:
		v := e.symContent(name, t, e.kappas).(VPtr)
		v.o.input = false
		return v
	case *types.Interface:
		if namedPath(t) == modPath+"/pkg/curve.Point" && !e.concreteGroup {
			return VPoint{sym('p', name, e.kappas...)}
		}
	}
	return VOpq{sym('o', name, e.kappas...)}
}

// ---- merging

func restrict(f, c *Node) *Node {
	if c == bTrue || f.v == nil {
		return f
	}
	if c == bFalse {
		return f
	}
	k := [2]int{f.id, c.id}
	if r, ok := restrictMemo[k]; ok {
		return r
	}
	var r *Node
	switch {
	case c.v != nil && c.v.id < f.v.id:
		r = restrict(f, or(c.lo, c.hi))
	case c.v == f.v:
		if c.lo == bFalse {
			r = restrict(f.hi, c.hi)
		} else if c.hi == bFalse {
			r = restrict(f.lo, c.lo)
		} else {
			r = mkNode(f.v, restrict(f.lo, c.lo), restrict(f.hi, c.hi))
		}
	default:
		r = mkNode(f.v, restrict(f.lo, c), restrict(f.hi, c))
	}
	restrictMemo[k] = r
	return r
}

var restrictMemo = map[[2]int]*Node{}

func (e *Eng) mergeStates(sts []*State) *State {
	if len(sts) == 1 {
		return sts[0]
	}
	pc := bFalse
	for _, s := range sts {
		pc = or(pc, s.pc)
	}
	out := &State{pc: pc, mem: make(map[*Obj]Val, len(sts[0].mem))}
	seen := map[*Obj]bool{}
	for _, s := range sts {
		for o := range s.mem {
			if seen[o] {
				continue
			}
			seen[o] = true
			var as []Alt
			same := true
			var first Val
			for _, s2 := range sts {
				v, ok := s2.mem[o]
				if !ok {
					if b := e.defaultContent(o); b != nil {
						v = b
					} else {
						continue
					}
				}
				if first == nil {
					first = v
				} else if same && !valEq(first, v) {
					same = false
				}
				as = append(as, Alt{restrict(s2.pc, pc), v})
			}
			if same {
				out.mem[o] = first
			} else {
				out.mem[o] = mkUnion(as)
			}
		}
	}
	return out
}

func (e *Eng) defaultContent(o *Obj) Val {
	if v, ok := e.globalMem[o]; ok {
		return v
	}
	if o.symb != "" {
		if len(o.kappas) == 0 {
			return e.baseContent(o, nil)
		}
		return VArr{base: "symfam"}
	}
	return nil
}

// ---- flow graphs

type Loop struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	liveOut []ssa.Value
}
type fnInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*Loop
}

func (e *Eng) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.loopInfo[fn]; ok {
		return i
	}
	in := &fnInfo{loops: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		in.rpo = append(in.rpo, post[i])
	}
	for _, b := range in.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := in.loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					in.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	for _, l := range in.loops {
		for b := range l.blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				out := false
				for _, r := range *v.Referrers() {
					if ph, ok := r.(*ssa.Phi); ok {
						for i, ed := range ph.Edges {
							if ed == v && !l.blocks[ph.Block().Preds[i]] {
								out = true
							}
						}
						if !l.blocks[ph.Block()] {
							out = true
						}
					} else if !l.blocks[r.Block()] {
						out = true
					}
				}
				if out {
					l.liveOut = append(l.liveOut, v)
				}
			}
		}
		sort.Slice(l.liveOut, func(i, j int) bool { return l.liveOut[i].Name() < l.liveOut[j].Name() })
	}
	// reverse postorder must visit a loop's body before what follows it: sort by it is enough, since execution
	// only needs every forward predecessor to come first
	e.loopInfo[fn] = in
	return in
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
	phis     map[*ssa.Phi]Val
	snap     map[ssa.Value]Val
}

func (e *Eng) mkEdge(fr *Frame, from, to *ssa.BasicBlock, predIdx int, st *State) *edge {
	ed := &edge{from: from, to: to, st: st}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if ed.phis == nil {
			ed.phis = map[*ssa.Phi]Val{}
		}
		ed.phis[ph] = e.val(fr, st, ph.Edges[predIdx])
	}
	return ed
}

// execBlocks runs the blocks of the region (a loop body, or the whole function when l is nil).
// It returns the edges that leave the region or return to the header of l.
func (e *Eng) execBlocks(fr *Frame, l *Loop, start *ssa.BasicBlock, in []*edge, preset bool) (outs []*edge, headerLive int) {
	pending := map[*ssa.BasicBlock][]*edge{start: in}
	info := e.info(fr.fn)
	for _, b := range info.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		ins := pending[b]
		if len(ins) == 0 {
			continue
		}
		delete(pending, b)
		var es []*edge
		if il := info.loops[b]; il != nil && il != l {
			es = e.execLoop(fr, il, ins)
		} else {
			var st *State
			if len(ins) == 1 {
				st = ins[0].st
			} else {
				sts := make([]*State, len(ins))
				for i, x := range ins {
					sts[i] = x.st
				}
				st = e.mergeStates(sts)
			}
			if !(preset && b == start) {
				e.setPhis(fr, b, ins, st.pc)
			}
			es = e.execBlock(fr, b, st)
			if b == start {
				headerLive = len(es)
			}
		}
		for _, x := range es {
			if (l == nil || l.blocks[x.to]) && !(l != nil && x.to == l.header) {
				pending[x.to] = append(pending[x.to], x)
			} else {
				outs = append(outs, x)
			}
		}
	}
	return outs, headerLive
}

func (e *Eng) setPhis(fr *Frame, b *ssa.BasicBlock, ins []*edge, pc *Node) {
	vals := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var as []Alt
		for _, x := range ins {
			as = append(as, Alt{restrict(x.st.pc, pc), x.phis[ph]})
		}
		vals[ph] = mkUnion(as)
	}
	for ph, v := range vals {
		fr.env[ph] = v
	}
}

// execBlock runs one block and returns its outgoing edges.
func (e *Eng) execBlock(fr *Frame, b *ssa.BasicBlock, st *State) []*edge {
	st = st.clone()
	for _, in := range b.Instrs {
		if st.pc == bFalse {
			return nil
		}
		e.steps++
		if e.steps > e.maxSteps {
			panic(undecidedErr{"analysis budget exhausted"})
		}
		old := curFacts
		curFacts = st.pc.Facts()
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c, ok := e.boolOf(e.val(fr, st, in.Cond), st)
			if !ok {
				c = bsym(e.siteName(&Site{fr, in, in.Pos(), e.siteKey(fr, in)}, "cond"), e.kappas...)
			}
			c = oneLiteral(st.pc, simplify(st.pc, c))
			var es []*edge
			for i, g := range []*Node{c, not(c)} {
				pc := and(st.pc, g)
				if pc == bFalse || !feasible(pc) {
					continue
				}
				s2 := st.clone()
				s2.pc = pc
				es = append(es, e.mkEdge(fr, b, b.Succs[i], e.predIndex(b, i), s2))
			}
			curFacts = old
			return es
		case *ssa.Jump:
			r := []*edge{e.mkEdge(fr, b, b.Succs[0], e.predIndex(b, 0), st)}
			curFacts = old
			return r
		case *ssa.Return:
			var v Val = VNil{}
			if len(in.Results) == 1 {
				v = e.val(fr, st, in.Results[0])
			} else if len(in.Results) > 1 {
				fs := make([]Val, len(in.Results))
				for i, r := range in.Results {
					fs[i] = e.val(fr, st, r)
				}
				v = VTuple{fs}
			}
			fr.rets = append(fr.rets, retRec{st, v})
			curFacts = old
			return nil
		case *ssa.Panic:
			site := &Site{fr, in, in.Pos(), e.siteKey(fr, in)}
			ev := e.event("panic", st, site, "explicit panic")
			ev.vals = []Val{e.val(fr, st, in.X)}
			curFacts = old
			return nil
		default:
			e.instr(fr, st, in)
		}
		curFacts = old
	}
	return nil
}

func (e *Eng) predIndex(b *ssa.BasicBlock, succ int) int {
	to := b.Succs[succ]
	// the n-th edge from b to `to`
	n := 0
	for i := 0; i < succ; i++ {
		if b.Succs[i] == to {
			n++
		}
	}
	for i, p := range to.Preds {
		if p == b {
			if n == 0 {
				return i
			}
			n--
		}
	}
	return 0
}

// ---- calls

// run interprets fn; the result is nil if it cannot return.
func (e *Eng) run(fn *ssa.Function, bind, args []Val, st *State, path string, pos token.Pos) (Val, *State) {
	if len(fn.Blocks) == 0 {
		e.undecided(pos, "no body for %s", fn)
		return e.opaque(st, fn.Name(), resultType(fn.Signature), pos), st
	}
	rec := 0
	for _, f := range e.stack {
		if f.fn == fn {
			rec++
		}
	}
	if rec > 2 || len(e.stack) > 60 {
		e.undecided(pos, "recursion through %s", fn)
		return e.opaque(st, fn.Name(), resultType(fn.Signature), pos), st
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, path: path, bind: bind, pos: pos}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			fr.env[fv] = bind[i]
		}
	}
	e.stack = append(e.stack, fr)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	e.execBlocks(fr, nil, fn.Blocks[0], []*edge{{to: fn.Blocks[0], st: st.clone()}}, false)
	if len(fr.rets) == 0 {
		return nil, nil
	}
	sts := make([]*State, len(fr.rets))
	pc := bFalse
	for i, r := range fr.rets {
		sts[i] = r.st
		pc = or(pc, r.st.pc)
	}
	var as []Alt
	for _, r := range fr.rets {
		as = append(as, Alt{restrict(r.st.pc, pc), r.v})
	}
	return mkUnion(as), e.mergeStates(sts)
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// ---- values

func (e *Eng) val(fr *Frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Function:
		return VFunc{fn: v}
	case *ssa.Builtin:
		return VFunc{name: "builtin:" + v.Name()}
	case *ssa.Global:
		return VPtr{o: e.global(v)}
	}
	if x, ok := fr.env[v]; ok {
		return x
	}
	return VOpq{sym('o', "undef:"+v.Name())}
}

func (e *Eng) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return VBool{bTrue}
		}
		return VBool{bFalse}
	case constant.String:
		return VStr{lit(constant.StringVal(c.Value))}
	case constant.Int:
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if ok {
			return VInt{cst(n)}
		}
	}
	return VOpq{sym('o', "const:"+c.Value.ExactString())}
}

func (e *Eng) global(g *ssa.Global) *Obj {
	if o, ok := e.globals[g]; ok {
		return o
	}
	o := e.newObj(g.String(), g.Type().(*types.Pointer).Elem())
	o.global = true
	e.globals[g] = o
	if g.Pkg != nil && !isRepo(g.Pkg.Pkg.Path()) {
		e.globalMem[o] = e.externGlobal(g)
	} else {
		e.globalMem[o] = e.zero(o.typ)
	}
	return o
}

// alts flattens a value into its alternatives feasible under pc.
func (e *Eng) alts(v Val, pc *Node) []Alt {
	u, ok := v.(*VUnion)
	if !ok {
		return []Alt{{bTrue, v}}
	}
	var out []Alt
	for _, a := range u.alts {
		g := and(pc, a.g)
		if g == bFalse || !feasible(g) {
			continue
		}
		out = append(out, a)
	}
	if len(out) == 1 {
		out[0].g = bTrue
	}
	return out
}

func (e *Eng) boolOf(v Val, st *State) (*Node, bool) {
	switch v := v.(type) {
	case VBool:
		return v.b, true
	case *VUnion:
		r := bFalse
		for _, a := range v.alts {
			b, ok := e.boolOf(a.v, st)
			if !ok {
				b = bsym(fmt.Sprintf("opqbool:%s", describe(a.v)))
			}
			r = or(r, and(a.g, b))
		}
		return r, true
	case VOpq:
		return bAtom(mkTerm("bopq", 'o', "", v.t)), true
	}
	return nil, false
}

// lift applies a pure function to every combination of alternatives.
func (e *Eng) lift(st *State, vs []Val, f func(vs []Val) Val) Val {
	for i, v := range vs {
		if _, ok := v.(*VUnion); ok {
			var out []Alt
			for _, a := range e.alts(v, st.pc) {
				vs2 := append([]Val{}, vs...)
				vs2[i] = a.v
				s2 := &State{and(st.pc, a.g), st.mem}
				out = append(out, Alt{a.g, e.lift(s2, vs2, f)})
			}
			if len(out) == 0 {
				return VOpq{sym('o', "dead")}
			}
			return mkUnion(out)
		}
	}
	return f(vs)
}

// fork runs f once per combination of alternatives of vs, each on its own copy of the state, and joins.
func (e *Eng) fork(st *State, vs []Val, f func(st *State, vs []Val) Val) Val {
	for i, v := range vs {
		if _, ok := v.(*VUnion); ok {
			as := e.alts(v, st.pc)
			if len(as) == 1 {
				vs2 := append([]Val{}, vs...)
				vs2[i] = as[0].v
				return e.fork(st, vs2, f)
			}
			var outs []Alt
			var sts []*State
			for _, a := range as {
				s2 := st.clone()
				s2.pc = and(st.pc, a.g)
				old := curFacts
				curFacts = s2.pc.Facts()
				vs2 := append([]Val{}, vs...)
				vs2[i] = a.v
				r := e.fork(s2, vs2, f)
				curFacts = old
				if s2.pc != bFalse {
					sts = append(sts, s2)
					outs = append(outs, Alt{s2.pc, r})
				}
			}
			if len(sts) == 0 {
				st.pc = bFalse
				return VNil{}
			}
			m := e.mergeStates(sts)
			for j := range outs {
				outs[j].g = restrict(outs[j].g, m.pc)
			}
			st.pc, st.mem = m.pc, m.mem
			r := mkUnion(outs)
			return r
		}
	}
	return f(st, vs)
}

// mayPanic records that the step fails unless ok holds, and continues where it holds.
func (e *Eng) mayPanic(st *State, site *Site, ok *Node, what string) {
	ok = simplify(st.pc, ok)
	bad := and(st.pc, not(ok))
	if bad == bFalse || !feasible(bad) {
		return
	}
	s2 := &State{bad, st.mem}
	e.event("panic", s2, site, what)
	st.pc = and(st.pc, ok)
}

// ---- instructions

func (e *Eng) instr(fr *Frame, st *State, in ssa.Instruction) {
	site := &Site{fr, in, in.Pos(), e.siteKey(fr, in)}
	if site.pos == token.NoPos {
		site.pos = fr.fn.Pos()
		for i := len(in.Block().Instrs) - 1; i >= 0; i-- {
			// nearest preceding position in the block
			if in.Block().Instrs[i] == in {
				for j := i; j >= 0; j-- {
					if p := in.Block().Instrs[j].Pos(); p.IsValid() {
						site.pos = p
						break
					}
				}
			}
		}
	}
	set := func(v ssa.Value, x Val) { fr.env[v] = x }
	get := func(v ssa.Value) Val { return e.val(fr, st, v) }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		o := e.alloc(site, in.Comment, t)
		st.mem[o] = e.zero(t)
		set(in, VPtr{o: o, inst: append([]*T{}, o.kappas...)})
	case *ssa.BinOp:
		set(in, e.lift(st, []Val{get(in.X), get(in.Y)}, func(vs []Val) Val { return e.binop(st, in, vs[0], vs[1], site) }))
	case *ssa.UnOp:
		x := get(in.X)
		switch in.Op {
		case token.MUL:
			set(in, e.fork1(st, x, func(st *State, v Val) Val { return e.deref(st, v, in.Type(), site) }))
		case token.NOT:
			b, _ := e.boolOf(x, st)
			set(in, VBool{not(b)})
		case token.SUB:
			set(in, e.lift(st, []Val{x}, func(vs []Val) Val {
				if i, ok := vs[0].(VInt); ok {
					b, s, _ := intInfo(in.Type())
					return VInt{wrapInt(neg(i.t), b, s)}
				}
				return e.opaque(st, "neg", in.Type(), site.pos)
			}))
		case token.ARROW:
			set(in, e.recv(st, x, in, site))
		default:
			set(in, e.opaque(st, "unop", in.Type(), site.pos))
		}
	case *ssa.Store:
		e.fork1(st, get(in.Addr), func(st *State, a Val) Val {
			v := get(in.Val)
			switch a := a.(type) {
			case VPtr:
				e.store(st, a, v, site)
			case VNil:
				e.mayPanic(st, site, bFalse, "nil dereference")
			default:
				e.undecided(site.pos, "store through %s", describe(a))
			}
			return VNil{}
		})
	case *ssa.FieldAddr:
		set(in, e.fork1(st, get(in.X), func(st *State, v Val) Val {
			switch v := v.(type) {
			case VPtr:
				return VPtr{v.o, v.inst, append(append([]Step{}, v.path...), Step{f: in.Field})}
			case VNil:
				e.mayPanic(st, site, bFalse, "nil dereference")
				return VNil{}
			}
			return VOpq{mkTerm("fieldaddr", 'o', fmt.Sprint(in.Field), e.termOf(v))}
		}))
	case *ssa.Field:
		set(in, e.lift(st, []Val{get(in.X)}, func(vs []Val) Val {
			if s, ok := vs[0].(VStruct); ok && in.Field < len(s.f) {
				return s.f[in.Field]
			}
			return e.opaque(st, "field", in.Type(), site.pos)
		}))
	case *ssa.IndexAddr:
		set(in, e.fork(st, []Val{get(in.X), get(in.Index)}, func(st *State, vs []Val) Val { return e.indexAddr(st, in, vs[0], vs[1], site) }))
	case *ssa.Index:
		set(in, e.lift(st, []Val{get(in.X), get(in.Index)}, func(vs []Val) Val {
			i, ok := vs[1].(VInt)
			if !ok {
				return e.opaque(st, "index", in.Type(), site.pos)
			}
			switch x := vs[0].(type) {
			case VArr:
				return e.selectArr(st, x, i.t, site.pos, nil)
			case VBytes:
				return VInt{decInt("B1", sliceB(x.t, i.t, add(i.t, num(1))))}
			case VStr:
				return VInt{decInt("B1", sliceB(x.t, i.t, add(i.t, num(1))))}
			}
			return e.opaque(st, "index", in.Type(), site.pos)
		}))
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok { // string index
			set(in, e.fork(st, []Val{get(in.X), get(in.Index)}, func(st *State, vs []Val) Val {
				s, ok1 := vs[0].(VStr)
				i, ok2 := vs[1].(VInt)
				if ok1 && ok2 {
					e.mayPanic(st, site, and(not(lt(i.t, num(0))), lt(i.t, lenB(s.t))), "index out of range")
					return VInt{decInt("B1", sliceB(s.t, i.t, add(i.t, num(1))))}
				}
				return e.opaque(st, "lookup", in.Type(), site.pos)
			}))
		} else {
			set(in, e.mapLookup(st, get(in.X), get(in.Index), in, site))
		}
	case *ssa.MapUpdate:
		e.mapUpdate(st, get(in.Map), get(in.Key), get(in.Value), site)
	case *ssa.MakeMap:
		o := e.alloc(site, "map", in.Type())
		st.mem[o] = VArr{base: "map", elem: in.Type().Underlying().(*types.Map).Elem()}
		set(in, VPtr{o: o, inst: append([]*T{}, o.kappas...)})
	case *ssa.MakeChan:
		o := e.alloc(site, "chan", in.Type())
		st.mem[o] = VChan{}
		ch := VPtr{o: o, inst: append([]*T{}, o.kappas...)}
		if n, ok := get(in.Size).(VInt); ok {
			e.thr.made(ch, n.t)
		}
		set(in, ch)
	case *ssa.Send:
		ch, x := get(in.Chan), get(in.X)
		if p, ok := ch.(VPtr); ok {
			okc := true
			e.fork1(st, e.load(st, p, site.pos), func(st *State, v Val) Val {
				c, ok := v.(VChan)
				if !ok {
					okc = false
					return VNil{}
				}
				c.items = append(append([]Write{}, c.items...), Write{g: bTrue, val: x})
				e.store(st, p, c, site)
				return VNil{}
			})
			if okc {
				e.thr.send(e, st, p, false, site)
				ev := e.event("send", st, site, "")
				ev.vals = []Val{x}
				break
			}
		}
		e.undecided(site.pos, "send on an unknown channel")
	case *ssa.Extract:
		set(in, e.lift(st, []Val{get(in.Tuple)}, func(vs []Val) Val {
			if t, ok := vs[0].(VTuple); ok && in.Index < len(t.f) {
				return t.f[in.Index]
			}
			return e.opaque(st, "extract", in.Type(), site.pos)
		}))
	case *ssa.ChangeType:
		set(in, get(in.X))
	case *ssa.ChangeInterface:
		set(in, get(in.X))
	case *ssa.MakeInterface:
		set(in, VIface{in.X.Type(), get(in.X)})
		if _, ok := get(in.X).(VPoint); ok {
			set(in, get(in.X))
		}
	case *ssa.TypeAssert:
		set(in, e.fork1(st, get(in.X), func(st *State, v Val) Val { return e.typeAssert(st, in, v, site) }))
	case *ssa.Convert:
		set(in, e.fork1(st, get(in.X), func(st *State, v Val) Val { return e.convert(st, in, v, site) }))
	case *ssa.MakeClosure:
		bs := make([]Val, len(in.Bindings))
		for i, b := range in.Bindings {
			bs[i] = get(b)
		}
		set(in, VFunc{fn: in.Fn.(*ssa.Function), bind: bs})
	case *ssa.MakeSlice:
		set(in, e.fork(st, []Val{get(in.Len), get(in.Cap)}, func(st *State, vs []Val) Val {
			n, ok1 := vs[0].(VInt)
			c, ok2 := vs[1].(VInt)
			if !ok1 || !ok2 {
				return e.opaque(st, "makeslice", in.Type(), site.pos)
			}
			e.mayPanic(st, site, and(not(lt(n.t, num(0))), le0(sub(n.t, c.t))), "makeslice: length out of range")
			return e.makeSlice(st, in.Type(), n.t, c.t, site)
		}))
	case *ssa.Slice:
		vs := []Val{get(in.X), nil, nil, nil}
		for i, x := range []ssa.Value{in.Low, in.High, in.Max} {
			if x != nil {
				vs[i+1] = get(x)
			} else {
				vs[i+1] = VNil{}
			}
		}
		set(in, e.fork(st, vs, func(st *State, vs []Val) Val { return e.slice(st, in, vs, site) }))
	case *ssa.Range:
		set(in, get(in.X))
	case *ssa.Next:
		ok := bsym(e.siteName(site, "next"), e.kappas...)
		tup := in.Type().(*types.Tuple)
		fs := []Val{VBool{ok}}
		for i := 1; i < tup.Len(); i++ {
			t := tup.At(i).Type()
			if b, k := t.(*types.Basic); k && b.Kind() == types.Invalid {
				fs = append(fs, VNil{})
				continue
			}
			fs = append(fs, e.opaqueNamed(e.siteName(site, fmt.Sprintf("range%d", i)), t))
		}
		set(in, VTuple{fs})
	case *ssa.Call:
		r := e.call(fr, st, &in.Call, in, site)
		if r == nil {
			st.pc = bFalse
			return
		}
		set(in, r)
	case *ssa.Go:
		e.ingo++
		ev := e.event("go", st, site, "")
		_ = ev
		s2 := st.clone()
		old := e.thr.spawn(e, st, site)
		known := len(e.assumed)
		r := e.call(fr, s2, &in.Call, in, site)
		e.thr.back(old, s2)
		e.ingo--
		if r != nil {
			st.mem = s2.mem
		}
		for _, c := range e.assumed[known:] {
			st.pc = and(st.pc, c)
		}
	case *ssa.Defer:
		d := deferred{g: st.pc, call: &in.Call, in: in}
		d.fn = nil
		if !in.Call.IsInvoke() {
			d.fn = get(in.Call.Value)
		} else {
			d.fn = get(in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, get(a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			g := simplify(st.pc, d.g)
			if and(st.pc, g) == bFalse {
				continue
			}
			dsite := &Site{fr, d.in, d.in.Pos(), e.siteKey(fr, d.in) + "!d"}
			if implies(st.pc, g) {
				e.callVals(fr, st, d.call, d.fn, d.args, dsite)
				continue
			}
			e.fork1(st, VBoolSplit(g), func(st *State, b Val) Val {
				if b.(VBool).b == bTrue {
					e.callVals(fr, st, d.call, d.fn, d.args, dsite)
				}
				return VNil{}
			})
		}
	case *ssa.Select:
		e.undecided(site.pos, "select statement")
		set(in, e.opaque(st, "select", in.Type(), site.pos))
	default:
		if v, ok := in.(ssa.Value); ok {
			e.undecided(site.pos, "instruction %T", in)
			set(v, e.opaque(st, "instr", v.Type(), site.pos))
		}
	}
}

func (e *Eng) fork1(st *State, v Val, f func(st *State, v Val) Val) Val {
	return e.fork(st, []Val{v}, func(st *State, vs []Val) Val { return f(st, vs[0]) })
}

func (e *Eng) termOf(v Val) *T {
	switch v := v.(type) {
	case VInt:
		return v.t
	case VOpq:
		return v.t
	case VStr:
		return v.t
	case VPoint:
		return v.t
	case VErr:
		return v.t
	case VBytes:
		return v.t
	case VIface:
		return e.termOf(v.v)
	case VNil:
		return sym('o', "nil")
	case VBool:
		return indicator(v.b)
	case VPtr:
		ts := append([]*T{}, v.inst...)
		for _, s := range v.path {
			if s.idx != nil {
				ts = append(ts, s.idx)
			}
		}
		return mkTerm("ptr", 'o', describe(VPtr{v.o, nil, v.path}), ts...)
	}
	// terms share their parts, descriptions do not
	switch v := v.(type) {
	case *VUnion:
		name := ""
		var ts []*T
		for _, a := range v.alts {
			name += fmt.Sprintf("%d,", a.g.id)
			ts = append(ts, e.termOf(a.v))
		}
		return mkTerm("val", 'o', "one of "+name, ts...)
	case VStruct:
		var ts []*T
		for _, f := range v.f {
			ts = append(ts, e.termOf(f))
		}
		return mkTerm("val", 'o', "struct", ts...)
	case VTuple:
		var ts []*T
		for _, f := range v.f {
			ts = append(ts, e.termOf(f))
		}
		return mkTerm("val", 'o', "tuple", ts...)
	case VSlice:
		return mkTerm("val", 'o', "slice", e.termOf(v.arr), v.off, v.ln, v.cp)
	}
	return mkTerm("val", 'o', describe(v))
}

func (e *Eng) alloc(site *Site, comment string, t types.Type) *Obj {
	k := "alloc" + site.path + comment
	o := e.sites[k]
	if o == nil {
		o = e.newObj(comment, t)
		o.pos = site.pos
		if site.fr != nil {
			o.fn = site.fr.fn
		}
		e.sites[k] = o
	}
	o.kappas = append([]*T{}, e.kappas...)
	return o
}

func (e *Eng) deref(st *State, v Val, t types.Type, site *Site) Val {
	switch v := v.(type) {
	case VPtr:
		return e.load(st, v, site.pos)
	case VNil:
		e.mayPanic(st, site, bFalse, "nil dereference")
		return VNil{}
	}
	return e.opaqueNamed("deref:"+e.termOf(v).String(), t)
}

func (e *Eng) makeSlice(st *State, t types.Type, n, c *T, site *Site) Val {
	el := t.Underlying().(*types.Slice).Elem()
	ev := e.event("make", st, site, "")
	ev.ts = []*T{c}
	ev.vals = []Val{VOpq{sym('o', el.String())}}
	o := e.alloc(site, "makeslice", t)
	if isByte(el) {
		st.mem[o] = VBytes{zeroB(c)}
	} else {
		st.mem[o] = VArr{n: c, elem: el, base: "zero"}
	}
	return VSlice{VPtr{o: o, inst: append([]*T{}, o.kappas...)}, num(0), n, c}
}

// bytesOfSlice is the content of a byte slice as a byte string.
func (e *Eng) sliceBytes(st *State, v Val, pos token.Pos) (*T, bool) {
	switch s := v.(type) {
	case VNil:
		return emptyB, true
	case VStr:
		return s.t, true
	case VSlice:
		if c, ok := isConst(s.ln); ok && c.Sign() == 0 {
			return emptyB, true
		}
		var c Val
		e.thr.rng(e, st, s.arr, s.off, s.ln, false, pos)
		e.thr.quiet(func() { c = e.load(st, s.arr, pos) })
		r := e.lift(st, []Val{c}, func(vs []Val) Val {
			if b, ok := vs[0].(VBytes); ok {
				return VStr{sliceB(b.t, s.off, add(s.off, s.ln))}
			}
			return VOpq{sym('o', "nobytes")}
		})
		switch r := r.(type) {
		case VStr:
			return r.t, true
		case *VUnion:
			return mkTerm("opqbytes", 'b', describe(r)), true
		}
	}
	return mkTerm("opqbytes", 'b', describe(v)), false
}

func (e *Eng) indexAddr(st *State, in *ssa.IndexAddr, x, i Val, site *Site) Val {
	iv, ok := i.(VInt)
	if !ok {
		e.undecided(site.pos, "index %s", describe(i))
		iv = VInt{sym('i', "?idx:"+describe(i))}
	}
	switch x := x.(type) {
	case VSlice:
		e.mayPanic(st, site, and(not(lt(iv.t, num(0))), lt(iv.t, x.ln)), "index out of range")
		p := x.arr
		return VPtr{p.o, p.inst, append(append([]Step{}, p.path...), Step{idx: add(x.off, iv.t)})}
	case VPtr:
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		e.mayPanic(st, site, and(not(lt(iv.t, num(0))), lt(iv.t, num(at.Len()))), "index out of range")
		return VPtr{x.o, x.inst, append(append([]Step{}, x.path...), Step{idx: iv.t})}
	case VNil:
		e.mayPanic(st, site, bFalse, "index of a nil slice")
		return VNil{}
	}
	return VOpq{mkTerm("elemaddr", 'o', "", e.termOf(x), iv.t)}
}

func (e *Eng) slice(st *State, in *ssa.Slice, vs []Val, site *Site) Val {
	get := func(v Val, def *T) *T {
		if i, ok := v.(VInt); ok {
			return i.t
		}
		return def
	}
	switch x := vs[0].(type) {
	case VSlice:
		lo := get(vs[1], num(0))
		hi := get(vs[2], x.ln)
		cp := get(vs[3], x.cp)
		e.mayPanic(st, site, and(and(not(lt(lo, num(0))), le0(sub(lo, hi))), le0(sub(hi, x.cp))), "slice bounds out of range")
		return VSlice{x.arr, add(x.off, lo), sub(hi, lo), sub(cp, lo)}
	case VStr:
		n := lenB(x.t)
		lo := get(vs[1], num(0))
		hi := get(vs[2], n)
		e.mayPanic(st, site, and(and(not(lt(lo, num(0))), le0(sub(lo, hi))), le0(sub(hi, n))), "slice bounds out of range")
		return VStr{sliceB(x.t, lo, hi)}
	case VPtr: // array
		pt, ok := in.X.Type().Underlying().(*types.Pointer)
		if ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				n := num(at.Len())
				lo := get(vs[1], num(0))
				hi := get(vs[2], n)
				e.mayPanic(st, site, and(and(not(lt(lo, num(0))), le0(sub(lo, hi))), le0(sub(hi, n))), "slice bounds out of range")
				return VSlice{x, lo, sub(hi, lo), sub(n, lo)}
			}
		}
	case VNil:
		lo := get(vs[1], num(0))
		hi := get(vs[2], num(0))
		e.mayPanic(st, site, and(eq0(lo), eq0(hi)), "slice bounds out of range")
		return VNil{}
	}
	return e.opaque(st, "slice", in.Type(), site.pos)
}

func (e *Eng) lenOf(st *State, v Val) (*T, bool) {
	switch v := v.(type) {
	case VNil:
		return num(0), true
	case VSlice:
		return v.ln, true
	case VStr:
		return lenB(v.t), true
	case VArr:
		if v.n != nil {
			return v.n, true
		}
	case VBytes:
		return lenB(v.t), true
	}
	return nil, false
}

func (e *Eng) isNil(v Val) *Node {
	switch v := v.(type) {
	case VNil:
		return bTrue
	case VPtr, VSlice, VFunc, VErr, VStr, VStruct, VPoint:
		return bFalse
	case VIface:
		if v.typ == nil {
			return e.isNil(v.v)
		}
		return bFalse
	case VOpq:
		return bAtom(mkTerm("isnil", 'o', "", v.t))
	}
	return nil
}

func (e *Eng) binop(st *State, in *ssa.BinOp, x, y Val, site *Site) Val {
	switch in.Op {
	case token.EQL, token.NEQ:
		b := e.equal(st, x, y, in.X.Type())
		if b == nil {
			b = bsym(e.siteName(site, "eq"), e.kappas...)
		}
		if in.Op == token.NEQ {
			b = not(b)
		}
		return VBool{b}
	}
	xi, ok1 := x.(VInt)
	yi, ok2 := y.(VInt)
	if ok1 && ok2 {
		a, b := xi.t, yi.t
		bits, signed, _ := intInfo(in.Type())
		switch in.Op {
		case token.ADD:
			return VInt{wrapInt(add(a, b), bits, signed)}
		case token.SUB:
			return VInt{wrapInt(sub(a, b), bits, signed)}
		case token.MUL:
			return VInt{wrapInt(mul(a, b), bits, signed)}
		case token.QUO:
			e.mayPanic(st, site, not(eq0(b)), "division by zero")
			return VInt{quo(a, b)}
		case token.REM:
			e.mayPanic(st, site, not(eq0(b)), "division by zero")
			l, _ := bounds(a)
			lb, _ := bounds(b)
			if l != nil && l.Sign() >= 0 && lb != nil && lb.Sign() > 0 {
				return VInt{mod(a, b)}
			}
			return VInt{mkTerm("rem", 'i', "", a, b)}
		case token.LSS:
			return VBool{lt(a, b)}
		case token.LEQ:
			return VBool{le0(sub(a, b))}
		case token.GTR:
			return VBool{lt(b, a)}
		case token.GEQ:
			return VBool{le0(sub(b, a))}
		case token.SHL:
			if c, ok := isConst(b); ok && c.IsInt64() && c.Int64() < 200 {
				return VInt{wrapInt(scale(pow2(int(c.Int64())), a), bits, signed)}
			}
		case token.SHR:
			if c, ok := isConst(b); ok && c.IsInt64() && c.Int64() < 200 {
				if ac, ok := isConst(a); ok {
					return VInt{cst(new(big.Int).Rsh(ac, uint(c.Int64())))}
				}
				if c.Sign() == 0 {
					return VInt{a}
				}
				l, _ := bounds(a)
				if l != nil && l.Sign() >= 0 {
					return VInt{quo(a, cst(pow2(int(c.Int64()))))}
				}
			}
		case token.AND:
			if ac, ok := isConst(a); ok {
				if bc, ok := isConst(b); ok {
					return VInt{cst(new(big.Int).And(ac, bc))}
				}
			}
			if a.id > b.id {
				a, b = b, a
			}
			return VInt{mkTerm("and", 'i', "", a, b)}
		case token.OR, token.XOR, token.AND_NOT:
			ac, k1 := isConst(a)
			bc, k2 := isConst(b)
			if k1 && k2 {
				switch in.Op {
				case token.OR:
					return VInt{cst(new(big.Int).Or(ac, bc))}
				case token.XOR:
					return VInt{cst(new(big.Int).Xor(ac, bc))}
				}
				return VInt{cst(new(big.Int).AndNot(ac, bc))}
			}
			lo, hi := typeRange(bits, signed)
			_ = lo
			if !signed {
				return VInt{mkRanged(in.Op.String(), lo, hi, a, b)}
			}
			return VInt{mkTerm(in.Op.String(), 'i', "", a, b)}
		}
		return e.opaqueNamed(fmt.Sprintf("arith:%s(%s,%s)", in.Op, a, b), in.Type())
	}
	xs, ok1 := x.(VStr)
	ys, ok2 := y.(VStr)
	if ok1 && ok2 {
		if in.Op == token.ADD {
			return VStr{cat(xs.t, ys.t)}
		}
	}
	return e.opaqueNamed(fmt.Sprintf("arith:%s(%s,%s)", in.Op, describe(x), describe(y)), in.Type())
}

func mkRanged(op string, lo, hi *big.Int, args ...*T) *T {
	return symRange("op"+op, lo, hi, args...)
}

func (e *Eng) equal(st *State, x, y Val, t types.Type) *Node {
	if _, ok := y.(VNil); ok {
		return e.isNil(x)
	}
	if _, ok := x.(VNil); ok {
		return e.isNil(y)
	}
	switch x := x.(type) {
	case VInt:
		if y, ok := y.(VInt); ok {
			return eq0(sub(x.t, y.t))
		}
	case VBool:
		if y, ok := y.(VBool); ok {
			return ite(x.b, y.b, not(y.b))
		}
	case VStr:
		if y, ok := y.(VStr); ok {
			return eqBytes(x.t, y.t)
		}
	case VPtr:
		if y, ok := y.(VPtr); ok {
			if valEq(x, y) {
				return bTrue
			}
			if x.o != y.o || len(x.path) != len(y.path) {
				if x.o.input && y.o.input && !e.distinct {
					return nil
				}
				return bFalse
			}
		}
	case VPoint:
		if y, ok := y.(VPoint); ok && x.t == y.t {
			return nil // identity of representations is not determined
		}
	case VStruct:
		if y, ok := y.(VStruct); ok && len(x.f) == len(y.f) {
			r := bTrue
			for i := range x.f {
				q := e.equal(st, x.f[i], y.f[i], nil)
				if q == nil {
					return nil
				}
				r = and(r, q)
			}
			return r
		}
	case VIface:
		if y, ok := y.(VIface); ok && x.typ != nil && y.typ != nil {
			if !types.Identical(x.typ, y.typ) {
				return bFalse
			}
			return e.equal(st, x.v, y.v, x.typ)
		}
	case VErr:
		if y, ok := y.(VErr); ok && x.t == y.t {
			return bTrue
		}
	}
	tx, ty := e.termOf(x), e.termOf(y)
	if tx == ty {
		return bTrue
	}
	if tx.id > ty.id {
		tx, ty = ty, tx
	}
	return bAtom(mkTerm("same", 'o', "", tx, ty))
}

// eqBytes is the condition that two byte strings are equal.
func eqBytes(a, b *T) *Node {
	if a == b {
		return bTrue
	}
	if a.op == "lit" && b.op == "lit" {
		return bFalse
	}
	// compare segment-wise where the lengths agree
	as, bs := []*T{a}, []*T{b}
	if a.op == "cat" {
		as = a.args
	}
	if b.op == "cat" {
		bs = b.args
	}
	if len(as) > 1 && len(as) == len(bs) {
		r := bTrue
		ok := true
		for i := range as {
			if lenB(as[i]) != lenB(bs[i]) {
				ok = false
				break
			}
			r = and(r, eqBytes(as[i], bs[i]))
		}
		if ok {
			return r
		}
	}
	if decideEq0(sub(lenB(a), lenB(b))) == -1 {
		return bFalse
	}
	if len(as) > 1 && len(bs) > 1 && as[0].op == "enc" && bs[0].op == "enc" {
		// encodings of points are self-delimiting
		return and(eqBytes(as[0], bs[0]), eqBytes(cat(as[1:]...), cat(bs[1:]...)))
	}
	if len(as) > 1 && len(bs) > 1 && as[0].op == "encprf" && bs[0].op == "encprf" && as[0].name == bs[0].name {
		return and(eqBytes(as[0], bs[0]), eqBytes(cat(as[1:]...), cat(bs[1:]...)))
	}
	if a.op == "int" && b.op == "int" && a.name == b.name {
		return eq0(sub(a.args[0], b.args[0]))
	}
	if a.op == "enc" && b.op == "enc" {
		return eq0(sub(a.args[0], b.args[0]))
	}
	// minimal encodings are equal exactly when the numbers are; so are encodings of one width
	num := func(t *T) *T {
		switch t.op {
		case "big":
			return t.args[0]
		case "lit":
			if !strings.HasPrefix(t.name, "\x00") {
				return fromBytes(t)
			}
		}
		return nil
	}
	if x, y := num(a), num(b); x != nil && y != nil {
		return eq0(sub(x, y))
	}
	if a.op == "fill" && (b.op == "fill" || b.op == "lit") || a.op == "lit" && b.op == "fill" {
		if lenB(a) == lenB(b) {
			return eq0(sub(fromBytes(a), fromBytes(b)))
		}
	}
	if a == emptyB || b == emptyB {
		if a == emptyB {
			return eq0(lenB(b))
		}
		return eq0(lenB(a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bAtom(mkTerm("eqb", 'o', "", a, b))
}

func (e *Eng) typeAssert(st *State, in *ssa.TypeAssert, v Val, site *Site) Val {
	res := func(x Val, ok *Node) Val {
		if in.CommaOk {
			z := e.zero(in.AssertedType)
			return VTuple{[]Val{mkUnion([]Alt{{ok, x}, {not(ok), z}}), VBool{ok}}}
		}
		e.mayPanic(st, site, ok, "type assertion fails")
		return x
	}
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	if toIface && types.AssignableTo(in.X.Type(), in.AssertedType) { // only a nil interface fails (also: method values)
		return res(v, not(e.isNilV(st, v)))
	}
	switch x := v.(type) {
	case VNil:
		return res(e.zero(in.AssertedType), bFalse)
	case VIface:
		if x.typ != nil {
			if toIface {
				it := in.AssertedType.Underlying().(*types.Interface)
				if types.Implements(x.typ, it) {
					return res(x, bTrue)
				}
				return res(VNil{}, bFalse)
			}
			if types.Identical(x.typ, in.AssertedType) {
				return res(x.v, bTrue)
			}
			return res(e.zero(in.AssertedType), bFalse)
		}
	}
	ok := bAtom(mkTerm("istype", 'o', in.AssertedType.String(), e.termOf(v)))
	x := e.opaqueNamed("as:"+in.AssertedType.String()+":"+e.termOf(v).String(), in.AssertedType)
	if pv, isPt := v.(VPoint); isPt {
		x = pv
	}
	if toIface {
		x = v
	}
	return res(x, ok)
}

func (e *Eng) convert(st *State, in *ssa.Convert, v Val, site *Site) Val {
	to := in.Type()
	if bits, signed, ok := intInfo(to); ok {
		switch x := v.(type) {
		case VInt:
			return VInt{wrapInt(x.t, bits, signed)}
		}
		return e.opaqueNamed("conv:"+e.termOf(v).String(), to)
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
		if s, ok := v.(VStr); ok {
			o := e.alloc(site, "bytes", to)
			st.mem[o] = VBytes{s.t}
			return VSlice{VPtr{o: o, inst: append([]*T{}, o.kappas...)}, num(0), lenB(s.t), lenB(s.t)}
		}
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if t, ok := e.sliceBytes(st, v, site.pos); ok {
			return VStr{t}
		}
	}
	return e.opaqueNamed("conv:"+to.String()+":"+e.termOf(v).String(), to)
}

func (e *Eng) mapLookup(st *State, m, k Val, in *ssa.Lookup, site *Site) Val {
	var res Val
	if p, ok := m.(VPtr); ok {
		if a, ok := e.load(st, p, site.pos).(VArr); ok && a.base == "map" {
			if ki, ok := k.(VInt); ok {
				r := bFalse
				_ = r
				found := e.selectArr(st, VArr{elem: a.elem, base: "zero", w: a.w}, ki.t, site.pos, nil)
				res = found
				if in.CommaOk {
					res = VTuple{[]Val{found, VBool{bsym(e.siteName(site, "inmap"), e.kappas...)}}}
				}
				return res
			}
		}
	}
	return e.opaqueNamed(e.siteName(site, "lookup"), in.Type())
}

func (e *Eng) mapUpdate(st *State, m, k, v Val, site *Site) {
	if p, ok := m.(VPtr); ok {
		if a, ok := e.load(st, p, site.pos).(VArr); ok && a.base == "map" {
			if ki, ok := k.(VInt); ok {
				e.store(st, p, appendWrite(a, Write{g: bTrue, idx: ki.t, val: v}), site)
				return
			}
			a.base = "opaque:map" + e.siteName(site, "upd")
			e.store(st, p, a, site)
			return
		}
	}
	e.undecided(site.pos, "update of an unknown map")
}

func (e *Eng) recv(st *State, ch Val, in *ssa.UnOp, site *Site) Val {
	mk := func(v Val, ok *Node) Val {
		if in.CommaOk {
			return VTuple{[]Val{v, VBool{ok}}}
		}
		return v
	}
	var et types.Type
	if tup, ok := in.Type().(*types.Tuple); ok {
		et = tup.At(0).Type()
	} else {
		et = in.Type()
	}
	if p, ok := ch.(VPtr); ok {
		e.thr.recv(e, st, p, site)
		cv := e.load(st, p, site.pos)
		if _, ok := cv.(*VUnion); ok {
			return e.fork1(st, cv, func(st *State, v Val) Val {
				if c, ok := v.(VChan); ok && len(c.items) > 0 && c.items[0].v == nil && c.items[0].g == bTrue {
					it := c.items[0]
					c.items = append([]Write{}, c.items[1:]...)
					e.store(st, p, c, site)
					return mk(it.val, bTrue)
				} else if ok && len(c.items) == 0 && c.closed {
					return mk(e.zero(et), bFalse)
				}
				e.undecided(site.pos, "receive from an unknown channel")
				return mk(e.opaqueNamed(e.siteName(site, "recv"), et), bsym(e.siteName(site, "recvok"), e.kappas...))
			})
		}
		if c, ok := cv.(VChan); ok {
			if len(c.items) == 0 {
				if c.closed {
					return mk(e.zero(et), bFalse)
				}
			} else if c.items[0].v == nil {
				it := c.items[0]
				if it.g == bTrue {
					c.items = append([]Write{}, c.items[1:]...)
					e.store(st, p, c, site)
					return mk(it.val, bTrue)
				}
			} else if len(c.items) == 1 && len(e.kappas) > 0 && c.items[0].g == bTrue {
				it := c.items[0]
				k := e.kappas[len(e.kappas)-1]
				more := lt(k, it.n)
				if c.closed {
					return mk(mkUnion([]Alt{{more, substV(it.val, map[*T]*T{it.v: k})}, {not(more), e.zero(et)}}), more)
				}
				return mk(substV(it.val, map[*T]*T{it.v: k}), bTrue)
			}
		}
	}
	e.undecided(site.pos, "receive from an unknown channel")
	return mk(e.opaqueNamed(e.siteName(site, "recv"), et), bsym(e.siteName(site, "recvok"), e.kappas...))
}

// ---- calls

func (e *Eng) call(fr *Frame, st *State, c *ssa.CallCommon, in ssa.Instruction, site *Site) Val {
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(fr, st, a))
	}
	return e.callVals(fr, st, c, e.val(fr, st, c.Value), args, site)
}

func (e *Eng) callVals(fr *Frame, st *State, c *ssa.CallCommon, fv Val, args []Val, site *Site) Val {
	if c.IsInvoke() {
		return e.fork1(st, fv, func(st *State, recv Val) Val {
			return e.invoke(st, c, recv, args, site)
		})
	}
	return e.fork1(st, fv, func(st *State, f Val) Val {
		switch f := f.(type) {
		case VFunc:
			if strings.HasPrefix(f.name, "builtin:") {
				if f.name == "builtin:append" && len(args) == 2 {
					// what may be nil because it is empty stays so
					if b, was := flatBytes(args[0]); was {
						d, _ := flatBytes(args[1])
						return e.fork(st, []Val{b, d}, func(st *State, args []Val) Val {
							r := e.builtin(st, "append", args, c, site)
							s, ok := r.(VSlice)
							if !ok {
								return r
							}
							empty := le0(s.ln)
							if empty == bFalse || ofNumber(s.ln) || !feasible(and(st.pc, empty)) {
								return r
							}
							return mkUnion([]Alt{{empty, VNil{}}, {not(empty), r}})
						})
					}
				}
				args = flatArgs(args)
				return e.fork(st, args, func(st *State, args []Val) Val { return e.builtin(st, f.name[8:], args, c, site) })
			}
			if f.fn != nil {
				return e.callFn(st, f.fn, f.bind, args, site)
			}
			return e.fork(st, args, func(st *State, args []Val) Val {
				ev := e.event("callsym", st, site, f.name)
				ev.vals = args
				for _, a := range args {
					t, _ := e.sliceBytes(st, a, site.pos)
					ev.ts = append(ev.ts, t)
				}
				r := e.opaqueNamed(e.siteName(site, "call"), resultType(c.Signature()))
				if res := resultType(c.Signature()); res != nil && namedPath(res) == "error" {
					ev.ok = e.isNilV(st, r)
				}
				return r
			})
		case VNil:
			e.mayPanic(st, site, bFalse, "call of a nil function")
			return VNil{}
		default:
			e.undecided(site.pos, "call of %s", describe(f))
		}
		return e.opaqueNamed(e.siteName(site, "call"), resultType(c.Signature()))
	})
}

func (e *Eng) invoke(st *State, c *ssa.CallCommon, recv Val, args []Val, site *Site) Val {
	m := c.Method.Name()
	if e.invokeHook != nil {
		if v, ok := e.invokeHook(e, st, m, recv, args, site); ok {
			return v
		}
	}
	switch r := recv.(type) {
	case VNil:
		e.mayPanic(st, site, bFalse, "method call on a nil interface")
		return VNil{}
	case VIface:
		if r.typ == absGroup {
			return e.fork(st, args, func(st *State, args []Val) Val { return e.groupOp(st, m, args, site) })
		}
		if r.typ == streamType || r.typ == randType {
			return e.fork(st, flatArgs(args), func(st *State, args []Val) Val { return e.streamOp(st, m, r, args, site) })
		}
		if r.typ != nil && r.typ != serverType && r.typ != limitType {
			fn := e.p.prog.LookupMethod(r.typ, c.Method.Pkg(), m)
			if fn != nil {
				return e.callFn(st, fn, nil, append([]Val{r.v}, args...), site)
			}
		}
	case VErr:
		if m == "Error" {
			return VStr{mkTerm("errstr", 'b', "", r.t)}
		}
	}
	ev := e.event("invoke", st, site, m)
	ev.vals = append([]Val{recv}, args...)
	return e.opaqueNamed(e.siteName(site, "invoke:"+m), resultType(c.Signature()))
}

// oneContent splits the state until the bytes in every slice are one term.
func (e *Eng) oneContent(st *State, args []Val, site *Site, f func(st *State) Val) Val {
	for _, a := range args {
		s, ok := a.(VSlice)
		if !ok || s.arr.o == nil || s.arr.o.input || s.arr.o.global {
			continue
		}
		var c Val
		e.thr.quiet(func() { c = e.load(st, s.arr, site.pos) })
		as := e.alts(c, st.pc)
		if len(as) < 2 || len(as) > 4 {
			continue
		}
		all := true
		for _, x := range as {
			_, isB := x.v.(VBytes)
			all = all && isB
		}
		if !all {
			continue
		}
		return e.fork1(st, c, func(st *State, v Val) Val {
			e.thr.quiet(func() { e.store(st, s.arr, v, nil) })
			return e.oneContent(st, args, site, f)
		})
	}
	return f(st)
}

// unwrapped finds the method behind a method value or a method expression.
func (e *Eng) unwrapped(fn *ssa.Function) (real *ssa.Function, iface *types.Func, wrapper bool) {
	bound := strings.HasPrefix(fn.Synthetic, "bound method wrapper")
	if !bound && !strings.HasPrefix(fn.Synthetic, "thunk for") {
		return nil, nil, false
	}
	obj, _ := fn.Object().(*types.Func)
	if obj == nil {
		return nil, nil, true
	}
	var recv types.Type
	if bound && len(fn.FreeVars) == 1 {
		recv = fn.FreeVars[0].Type()
	} else if !bound && len(fn.Params) > 0 {
		recv = fn.Params[0].Type()
	}
	r := obj.Type().(*types.Signature).Recv()
	if recv == nil || r == nil {
		return nil, nil, true
	}
	if types.IsInterface(recv) {
		return nil, obj, true
	}
	if types.Identical(recv, r.Type()) {
		return e.p.prog.FuncValue(obj), nil, true
	}
	return nil, nil, true
}

func (e *Eng) callFn(st *State, fn *ssa.Function, bind, args []Val, site *Site) Val {
	real, iface, wrapper := e.unwrapped(fn)
	if all := append(append([]Val{}, bind...), args...); len(all) > 0 {
		if real != nil {
			return e.callFn(st, real, nil, all, site)
		}
		if iface != nil {
			return e.fork1(st, all[0], func(st *State, recv Val) Val {
				return e.invoke(st, &ssa.CallCommon{Method: iface}, recv, all[1:], site)
			})
		}
	}
	if e.callHook != nil && !wrapper {
		if v, ok := e.callHook(e, st, fn, args, site); ok {
			return v
		}
	}
	if e.inInit && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic != "" {
		return VNil{}
	}
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if name == modPath+"/pkg/curve.NewSecp256k1Group" && !e.concreteGroup {
		return VIface{absGroup, VNil{}}
	}
	if len(fn.Blocks) == 0 || (fn.Pkg != nil && !isRepo(fn.Pkg.Pkg.Path())) {
		return e.fork(st, flatArgs(args), func(st *State, args []Val) Val {
			return e.oneContent(st, args, site, func(st *State) Val {
				return e.model(st, name, fn, args, site)
			})
		})
	}
	path := site.path + ">" + fn.Name()
	v, s2 := e.run(fn, bind, args, st, path, site.pos)
	if s2 == nil {
		st.pc = bFalse
		return VNil{}
	}
	st.pc, st.mem = s2.pc, s2.mem
	if e.recCalls {
		e.recordCall(fn, st, v, site.pos)
	}
	return v
}

func (e *Eng) builtin(st *State, name string, args []Val, c *ssa.CallCommon, site *Site) Val {
	switch name {
	case "len":
		if n, ok := e.lenOf(st, args[0]); ok {
			return VInt{n}
		}
		if p, ok := args[0].(VPtr); ok {
			if n, ok := e.lenOf(st, e.load(st, p, site.pos)); ok {
				return VInt{n}
			}
		}
		return e.opaqueNamed("len:"+e.termOf(args[0]).String(), types.Typ[types.Int])
	case "cap":
		switch x := args[0].(type) {
		case VNil:
			return VInt{num(0)}
		case VSlice:
			return VInt{x.cp}
		}
		return e.opaqueNamed("cap:"+e.termOf(args[0]).String(), types.Typ[types.Int])
	case "append":
		return e.appendTo(st, args, c, site)
	case "copy":
		d, ok := args[0].(VSlice)
		if !ok {
			return VInt{num(0)}
		}
		if src, ok := e.sliceBytes(st, args[1], site.pos); ok && isByteSlice(c.Args[0].Type()) {
			n := lenB(src)
			// copies min(len(dst), len(src))
			le := le0(sub(n, d.ln))
			return e.fork1(st, mkUnion([]Alt{{le, VInt{n}}, {not(le), VInt{d.ln}}}), func(st *State, v Val) Val {
				k := v.(VInt).t
				e.writeBytes(st, d, sliceB(src, num(0), k), site)
				return VInt{k}
			})
		}
		if s, ok := args[1].(VSlice); ok {
			sc := e.load(st, s.arr, site.pos)
			dc := e.load(st, d.arr, site.pos)
			if sa, ok := sc.(VArr); ok {
				if da, ok := dc.(VArr); ok {
					le := le0(sub(s.ln, d.ln))
					n := s.ln
					if simplify(st.pc, le) != bTrue {
						if simplify(st.pc, le) == bFalse || implies(st.pc, not(le)) {
							n = d.ln
						} else {
							n = mkTerm("min", 'i', "", s.ln, d.ln)
						}
					}
					k := e.kappaFor(site, "copy")
					val := e.selectArr(st, sa, add(s.off, k), site.pos, nil)
					e.storeContent(st, d.arr, appendW(da, Write{v: k, n: n, g: bTrue, idx: add(d.off, k), val: val}), site)
					return VInt{n}
				}
			}
		}
		if _, ok := args[1].(VNil); ok {
			return VInt{num(0)}
		}
		e.undecided(site.pos, "copy")
		return e.opaqueNamed(e.siteName(site, "copied"), types.Typ[types.Int])
	case "close":
		if p, ok := args[0].(VPtr); ok {
			if ch, ok := e.load(st, p, site.pos).(VChan); ok {
				ch.closed = true
				e.store(st, p, ch, site)
				e.thr.send(e, st, p, true, site)
			}
		}
		return VNil{}
	case "print", "println":
		ev := e.event("sink", st, site, "print")
		ev.vals = args
		return VNil{}
	case "panic":
		e.event("panic", st, site, "explicit panic")
		st.pc = bFalse
		return VNil{}
	case "recover":
		return VNil{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, ok1 := r.(VInt)
			y, ok2 := a.(VInt)
			if !ok1 || !ok2 {
				return e.opaqueNamed(e.siteName(site, name), c.Signature().Results().At(0).Type())
			}
			le := le0(sub(x.t, y.t))
			if name == "min" {
				r = mkUnion([]Alt{{le, x}, {not(le), y}})
			} else {
				r = mkUnion([]Alt{{le, y}, {not(le), x}})
			}
			if _, ok := r.(*VUnion); ok && len(args) > 2 {
				return e.opaqueNamed(e.siteName(site, name), c.Signature().Results().At(0).Type())
			}
		}
		return r
	case "clear", "delete", "ssa:wrapnilchk":
		if name == "ssa:wrapnilchk" {
			return args[0]
		}
	}
	e.undecided(site.pos, "builtin %s", name)
	return e.opaqueNamed(e.siteName(site, name), resultType(c.Signature()))
}

func appendW(a VArr, w Write) VArr {
	a.w = append(append([]Write{}, a.w...), w)
	return a
}

func (e *Eng) storeContent(st *State, p VPtr, v Val, site *Site) { e.store(st, p, v, site) }

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

// writeBytes overwrites the beginning of the slice d with data (which must fit).
func (e *Eng) writeBytes(st *State, d VSlice, data *T, site *Site) {
	if c, ok := isConst(lenB(data)); ok && c.Sign() == 0 {
		return
	}
	e.thr.rng(e, st, d.arr, d.off, lenB(data), true, site.pos)
	e.thr.quiet(func() {
		cur := e.load(st, d.arr, site.pos)
		nv := e.lift(st, []Val{cur}, func(vs []Val) Val {
			if b, ok := vs[0].(VBytes); ok {
				return VBytes{spliceB(b.t, d.off, data)}
			}
			return VBytes{sym('b', "?written")}
		})
		e.store(st, d.arr, nv, site)
	})
}

// ownRecords tells whether a list of such elements is the private bookkeeping of a type: pointers to an unexported type
// of the project, which no caller can have made.
func ownRecords(el types.Type) bool {
	p, ok := el.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && !n.Obj().Exported()
}

// flatBytes drops the distinction of nil and empty: a slice that is nil only where it would be empty anyway.
func flatBytes(v Val) (Val, bool) {
	u, ok := v.(*VUnion)
	if !ok || len(u.alts) != 2 {
		return v, false
	}
	for i, a := range u.alts {
		s, ok := u.alts[1-i].v.(VSlice)
		if _, isNil := a.v.(VNil); isNil && ok && a.g == le0(s.ln) {
			return s, true
		}
	}
	return v, false
}

func ofNumber(t *T) bool {
	if t.op == "BL" {
		return true
	}
	for _, a := range t.args {
		if ofNumber(a) {
			return true
		}
	}
	return false
}

func flatArgs(args []Val) []Val {
	out := append([]Val{}, args...)
	for i := range out {
		out[i], _ = flatBytes(out[i])
	}
	return out
}

func (e *Eng) appendTo(st *State, args []Val, c *ssa.CallCommon, site *Site) Val {
	t := c.Args[0].Type()
	el := t.Underlying().(*types.Slice).Elem()
	var base VSlice
	hasBase := false
	switch b := args[0].(type) {
	case VSlice:
		base, hasBase = b, true
	case VNil:
	default:
		e.undecided(site.pos, "append to %s", describe(b))
		return e.opaqueNamed(e.siteName(site, "append"), t)
	}
	if len(args) < 2 {
		return args[0]
	}
	oldLen := num(0)
	if hasBase {
		oldLen = base.ln
	}
	if isByte(el) {
		data, ok := e.sliceBytes(st, args[1], site.pos)
		if !ok {
			e.undecided(site.pos, "append of %s", describe(args[1]))
		}
		old := emptyB
		if hasBase {
			old, _ = e.sliceBytes(st, base, site.pos)
		}
		nl := add(oldLen, lenB(data))
		if hasBase && (base.arr.o.input || base.arr.o.global) && decideLe0(sub(base.cp, base.ln)) != 1 {
			// spare capacity of memory that belongs to the caller is overwritten
			if decideLe0(lenB(data)) != 1 {
				e.event("append-input", st, site, base.arr.o.name)
			}
		}
		if hasBase && decideLe0(sub(nl, base.cp)) == 1 {
			if !(base.arr.o.input || base.arr.o.global) {
				e.writeBytes(st, VSlice{base.arr, add(base.off, base.ln), lenB(data), lenB(data)}, data, site)
				return VSlice{base.arr, base.off, nl, base.cp}
			}
		}
		o := e.alloc(site, "append", t)
		st.mem[o] = VBytes{cat(old, data)}
		e.event("make", st, site, "append").ts = []*T{nl}
		res := VSlice{VPtr{o: o, inst: append([]*T{}, o.kappas...)}, num(0), nl, nl}
		// nothing appended to nil is nil; for the bytes of a number, which are only written, it makes no difference
		if !hasBase && !ofNumber(nl) {
			switch empty := le0(nl); {
			case empty == bTrue:
				return args[0]
			case empty != bFalse && feasible(and(st.pc, empty)):
				return mkUnion([]Alt{{empty, args[0]}, {not(empty), res}})
			}
		}
		return res
	}
	var arr VArr
	if hasBase {
		a, ok := e.load(st, base.arr, site.pos).(VArr)
		if !ok {
			e.undecided(site.pos, "append to %s", describe(args[0]))
			return e.opaqueNamed(e.siteName(site, "append"), t)
		}
		if (base.arr.o.input || base.arr.o.global) && decideLe0(sub(base.cp, base.ln)) != 1 && !ownRecords(el) {
			e.event("append-input", st, site, base.arr.o.name)
		}
		arr = a
		if c, ok := isConst(base.off); !ok || c.Sign() != 0 {
			k := e.kappaFor(site, "reslice")
			arr = VArr{elem: el, base: "zero", w: []Write{{v: k, n: base.ln, g: bTrue, idx: k, val: e.selectArr(st, a, add(base.off, k), site.pos, nil)}}}
		}
	} else {
		arr = VArr{elem: el, base: "zero"}
	}
	arr.n = nil
	nl := oldLen
	switch src := args[1].(type) {
	case VNil:
		return args[0]
	case VSlice:
		sa, ok := e.load(st, src.arr, site.pos).(VArr)
		if !ok {
			e.undecided(site.pos, "append of %s", describe(src))
			return e.opaqueNamed(e.siteName(site, "append"), t)
		}
		if n, ok := isConst(src.ln); ok && n.IsInt64() && n.Int64() <= 16 {
			for i := int64(0); i < n.Int64(); i++ {
				arr = appendW(arr, Write{g: bTrue, idx: add(oldLen, num(i)), val: e.selectArr(st, sa, add(src.off, num(i)), site.pos, nil)})
			}
		} else {
			k := e.kappaFor(site, "append")
			arr = appendW(arr, Write{v: k, n: src.ln, g: bTrue, idx: add(oldLen, k), val: e.selectArr(st, sa, add(src.off, k), site.pos, nil)})
		}
		nl = add(oldLen, src.ln)
	default:
		e.undecided(site.pos, "append of %s", describe(src))
		return e.opaqueNamed(e.siteName(site, "append"), t)
	}
	o := e.alloc(site, "append", t)
	st.mem[o] = arr
	return VSlice{VPtr{o: o, inst: append([]*T{}, o.kappas...)}, num(0), nl, nl}
}

// kappaFor is the index variable of the site.
func (e *Eng) kappaFor(site *Site, what string) *T {
	k := what + site.path
	id, ok := e.siteIDs["κ"+k]
	if !ok {
		id = len(e.siteIDs)
		e.siteIDs["κ"+k] = id
	}
	return symRange(fmt.Sprintf("κ%d", 1000000+id), big0, pow2(40))
}
