package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	maxUnroll = 70
	maxUnsure = 6
)

type loopMark struct {
	events, undec, rets, defers, script int
	thr                                 *threads
}

func (e *Eng) mark(fr *Frame) loopMark {
	return loopMark{len(e.events), len(e.undec), len(fr.rets), len(fr.defers), e.script, e.thr.save()}
}
func (e *Eng) rollback(fr *Frame, m loopMark) {
	e.events = e.events[:m.events]
	e.undec = e.undec[:m.undec]
	fr.rets = fr.rets[:m.rets]
	fr.defers = fr.defers[:m.defers]
	e.script = m.script
	e.thr.restore(m.thr)
}

// execLoop runs the loop entered by the edges and returns the edges that leave it.
func (e *Eng) execLoop(fr *Frame, l *Loop, ins []*edge) []*edge {
	m := e.mark(fr)
	if out, ok := e.unrollLoop(fr, l, ins); ok {
		return out
	}
	e.rollback(fr, m)
	return e.sumLoop(fr, l, ins)
}

// unrollLoop runs a loop whose number of iterations is constant.
func (e *Eng) unrollLoop(fr *Frame, l *Loop, ins []*edge) ([]*edge, bool) {
	var exits []*edge
	cur := ins
	unsure := 0
	for i := 0; ; i++ {
		if i > maxUnroll {
			return nil, false
		}
		e.unroll = append(e.unroll, i)
		outs, live := e.execBlocks(fr, l, l.header, cur, false)
		e.unroll = e.unroll[:len(e.unroll)-1]
		var back, out []*edge
		for _, o := range outs {
			if o.to == l.header {
				back = append(back, o)
			} else {
				o.snap = map[ssa.Value]Val{}
				for _, v := range l.liveOut {
					if x, ok := fr.env[v]; ok {
						o.snap[v] = x
					}
				}
				out = append(out, o)
			}
		}
		hasIf := false
		for _, in := range l.header.Instrs {
			if _, ok := in.(*ssa.If); ok {
				hasIf = true
			}
		}
		exits = append(exits, out...)
		if len(back) == 0 {
			e.bindLiveOut(fr, l, exits)
			return exits, true
		}
		if !hasIf {
			return nil, false
		}
		if live > 1 {
			// the number of iterations is not known, but may be one of a few
			if unsure++; unsure > maxUnsure {
				return nil, false
			}
		}
		cur = back
	}
}

func (e *Eng) bindLiveOut(fr *Frame, l *Loop, exits []*edge) {
	for _, v := range l.liveOut {
		var as []Alt
		for _, x := range exits {
			if val, ok := x.snap[v]; ok {
				as = append(as, Alt{x.st.pc, val})
			}
		}
		if len(as) > 0 {
			fr.env[v] = mkUnion(as)
		}
	}
}

// sumLoop summarises a loop by the recurrences of what changes.
func (e *Eng) sumLoop(fr *Frame, l *Loop, ins []*edge) []*edge {
	if e.widen {
		return e.widenLoop(fr, l, ins)
	}
	e.undecided(l.header.Instrs[0].Pos(), "loop is not summarised")
	e.unroll = append(e.unroll, -1)
	outs, _ := e.execBlocks(fr, l, l.header, ins, false)
	e.unroll = e.unroll[:len(e.unroll)-1]
	var out []*edge
	for _, o := range outs {
		if o.to != l.header {
			out = append(out, o)
		}
	}
	return out
}

// widenLoop runs one arbitrary iteration: whatever an iteration changes is unknown at its beginning. The exits of
// that iteration are those of the loop.
func (e *Eng) widenLoop(fr *Frame, l *Loop, ins []*edge) []*edge {
	sts := make([]*State, len(ins))
	for i, x := range ins {
		sts[i] = x.st
	}
	cur := e.mergeStates(sts)
	phis := map[*ssa.Phi]Val{}
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var as []Alt
		for _, x := range ins {
			as = append(as, Alt{restrict(x.st.pc, cur.pc), x.phis[ph]})
		}
		phis[ph] = mkUnion(as)
	}
	name := func(what string) string {
		return "loop:" + fr.path + "/" + instrID(l.header.Instrs[0]) + fmt.Sprint(e.unroll) + what
	}
	m := e.mark(fr)
	first := e.objSeq
	heldAtLoop := map[string]held{}
	for round := 0; ; round++ {
		ps := map[*ssa.Phi]Val{}
		for k, v := range phis {
			ps[k] = v
		}
		e.unroll = append(e.unroll, -1)
		outs, _ := e.execBlocks(fr, l, l.header, []*edge{{from: ins[0].from, to: l.header, phis: ps, st: cur.clone()}}, false)
		e.unroll = e.unroll[:len(e.unroll)-1]
		var exits []*edge
		changed := false
		for _, o := range outs {
			if o.to != l.header {
				o.snap = map[ssa.Value]Val{}
				for _, v := range l.liveOut {
					if x, ok := fr.env[v]; ok {
						o.snap[v] = x
					}
				}
				exits = append(exits, o)
				continue
			}
			if e.thr.keep(heldAtLoop, o.st.pc) {
				changed = true
			}
			for ph, v := range o.phis {
				if !valEq(v, phis[ph]) {
					w := e.opaqueNamed(name(ph.Name()), ph.Type())
					if !valEq(w, phis[ph]) {
						phis[ph] = w
						changed = true
					}
				}
			}
			for ob, v := range o.st.mem {
				before, ok := cur.mem[ob]
				if !ok {
					if before = e.defaultContent(ob); before == nil || ob.id > first && ob.typ == streamType {
						continue // made in the iteration
					}
				}
				if valEq(v, before) || valEq(prune(v, o.st.pc), before) {
					continue
				}
				w := e.widenVal(before, ob.typ, name(fmt.Sprintf("#%d", ob.id)))
				if !valEq(w, before) {
					cur.mem[ob] = w
					changed = true
				}
			}
		}
		if !changed {
			e.bindLiveOut(fr, l, exits)
			return exits
		}
		if round > 8 {
			e.undecided(l.header.Instrs[0].Pos(), "loop is not summarised")
			return exits
		}
		e.rollback(fr, m)
		e.thr.hold(heldAtLoop)
	}
}

// prune leaves out what cannot be under g.
func prune(v Val, g *Node) Val {
	switch x := v.(type) {
	case *VUnion:
		var as []Alt
		for _, a := range x.alts {
			if and(a.g, g) != bFalse {
				as = append(as, Alt{a.g, prune(a.v, g)})
			}
		}
		if len(as) == 1 {
			return as[0].v
		}
		return mkUnion(as)
	case VStruct:
		fs := make([]Val, len(x.f))
		for i := range fs {
			fs[i] = prune(x.f[i], g)
		}
		return VStruct{fs}
	case VArr:
		var ws []Write
		for _, w := range x.w {
			if and(w.g, g) != bFalse {
				ws = append(ws, w)
			}
		}
		x.w = ws
		return x
	}
	return v
}

// widenVal is an unknown content in place of v.
func (e *Eng) widenVal(v Val, t types.Type, name string) Val {
	switch v := v.(type) {
	case VInt:
		if v.t.op == "sym" && v.t.name == name {
			return v
		}
		if _, _, ok := intInfo(t); ok {
			return e.symContent(name, t, nil)
		}
		return VInt{sym('i', name)}
	case VBool:
		return VBool{bsym(name)}
	case VStr:
		return VStr{sym('b', name)}
	case VBytes:
		return VBytes{sym('b', name)}
	case VStruct:
		if s, ok := t.Underlying().(*types.Struct); ok {
			fs := make([]Val, len(v.f))
			for i := range fs {
				fs[i] = e.widenVal(v.f[i], s.Field(i).Type(), fmt.Sprintf("%s.%d", name, i))
			}
			return VStruct{fs}
		}
	case VArr:
		if v.base == "opaque:"+name && len(v.w) == 0 {
			return v
		}
		return VArr{n: v.n, elem: v.elem, base: "opaque:" + name}
	case VStream:
		v.log = sym('b', name+".log")
		if v.rem != nil {
			v.rem = sym('b', name+".rem")
		}
		return v
	case VBuf:
		if v.has {
			return VBuf{log: sym('b', name+".log")}
		}
		v.log = sym('b', name+".log")
		return v
	}
	if t == nil {
		return VOpq{sym('o', name)}
	}
	return e.opaqueNamed(name, t)
}
