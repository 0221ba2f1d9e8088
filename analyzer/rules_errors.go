package main

// C23: no error is dropped. Two rules: an operation that can fail may report success only if every step of it that can
// fail succeeded (abstract interpretation, all packages with such operations), and everywhere, commands
// included, a reported error must be looked at on every way on which success is reported (data flow in the SSA form).

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// steps: under the condition of success every step that can fail succeeded.
func (r *Rep) steps(e *Eng, events []*Event, success *Node, cons string) {
	n := 0
	for _, ev := range events {
		if ev.ok == nil || ev.ok == bTrue {
			continue
		}
		n++
		g := and(success, ev.g)
		if g == bFalse || !feasible(g) {
			r.ob(true, "step-failed", cons, e.where(ev), "")
			continue
		}
		r.ob(impliesF(g, ev.ok), "step-failed", cons+": "+ev.kind+" "+ev.name, e.where(ev), "the operation can succeed although this step failed, under %s", short(and(g, not(ev.ok))))
	}
	r.counts["fallible steps"] += n
}

// recordCall notes that a function of the project returned, and whether it reported an error.
func (e *Eng) recordCall(fn *ssa.Function, st *State, v Val, pos token.Pos) {
	n := fn.Signature.Results().Len()
	if n == 0 || namedPath(fn.Signature.Results().At(n-1).Type()) != "error" {
		return
	}
	ok := bFalse
	for _, a := range e.alts(v, st.pc) {
		_, err := results(fn.Signature, a.v)
		ok = or(ok, and(a.g, e.isNilV(st, err)))
	}
	if ok == bTrue {
		return
	}
	ev := e.event("call", st, &Site{pos: pos}, fn.Name())
	ev.ok = or(not(st.pc), ok)
}

func checkC23(p *Program, r *Rep) {
	p.errorFlow(r)
	p.cryptoSteps(r)
	syncSteps(p, r)
	failRuns(p, r)
}

// cryptoSteps: curve, commitments, proofs over streams and randomness that may fail.
func (p *Program) cryptoSteps(r *Rep) {
	if c := p.newCurve(r); c != nil {
		A := sym('p', "A")
		c.e.recCalls = true
		for _, m := range []string{"Encode", "Decode", "Encode neutral", "Encode the generator"} {
			m := m
			cons := "Group." + m
			r.guard(cons, func() {
				c.fresh(not(eq0(A)))
				var v Val
				if what := strings.TrimPrefix(m, "Encode"); what != m {
					a, _ := c.point("a", A)
					switch what {
					case " neutral":
						a = c.neu
					case " the generator":
						a = c.gen
					}
					m = "Encode"
					v = c.op(r, m, a, c.e.stream("w", false, nil))
				} else {
					v = c.op(r, m, c.e.stream("r", false, nil))
				}
				r.stepsOf(c.e, c.st, cons, c.methodPos(m), v)
			})
		}
	}
	for _, cd := range p.codecs() {
		cd := cd
		for _, m := range []string{"Encode", "Decode"} {
			m := m
			cons := cd.name + "." + m
			fn := cd.enc
			if m == "Decode" {
				fn = cd.dec
			}
			pos := p.pos(fn.Pos())
			r.guard(cons, func() {
				e := newEng(p)
				e.setup()
				e.recCalls = true
				e.sureDraws = true
				st := e.newState()
				if m == "Decode" {
					v := e.callTop(st, "dec", fn, e.zeroObj(cd.t, st, "result"), e.stream("r", false, nil))
					r.stepsOf(e, st, cons, pos, v)
					return
				}
				s, ok := e.subject(cd, st)
				if !ok {
					r.fail("coverage", cons, pos, "no value of the type can be constructed")
					return
				}
				e.touch(st, s, 0)
				e.events = nil
				v := e.callTop(st, "enc", fn, s, e.stream("w", false, nil))
				r.stepsOf(e, st, cons, pos, v)
			})
		}
	}
	if c := p.newEG(r); c != nil {
		c.e.recCalls = true
		for _, s := range sigmas() {
			s := s
			r.guard(s.name, func() {
				c.fresh(bTrue)
				pr := c.prove(s, "proves")
				if pr == nil {
					return
				}
				r.steps(c.e, pr.events, c.st.pc, "zkpok.New"+s.typ)
				c.fresh(bTrue)
				_, _, _, acc, ok := c.verifyArbitrary(pr)
				if ok {
					r.steps(c.e, c.e.events, and(c.st.pc, acc), "zkpok."+s.typ+".Verify")
				}
			})
		}
	}
}

func (r *Rep) stepsOf(e *Eng, st *State, cons, pos string, v Val) {
	if v == nil {
		r.fail("coverage", cons, pos, "the operation cannot return")
		return
	}
	err := v
	if t, ok := v.(VTuple); ok {
		err = t.f[len(t.f)-1]
	}
	ok := and(st.pc, e.isNilV(st, err))
	r.ob(feasible(ok), "coverage", cons, pos, "the operation never succeeds")
	r.steps(e, e.events, ok, cons)
	r.engine(e, cons)
}

// syncSteps: rounds over connections that may fail.
func syncSteps(p *Program, r *Rep) {
	fs := p.committeesOf(r, syncSizes())
	for _, n := range syncSizes() {
		f := fs[n]
		if f == nil {
			continue
		}
		syncArbitrary(p, r, f, false, func(s *syncRun, rd *syncRound, in []*T) {
			s.stepsDone(rd)
			s.st.pc = rd.ok
			curFacts = s.st.pc.Facts()
		})
	}
}

// ---- data flow

// neverFails lists callees whose error is always nil, or is that of writing a log or of closing something.
func (p *Program) neverFails(c *ssa.CallCommon) bool {
	name := ""
	var recv types.Type
	if c.IsInvoke() {
		name = c.Method.Name()
		recv = c.Value.Type()
	} else {
		fn := c.StaticCallee()
		if fn == nil {
			return false
		}
		name = fn.Name()
		if o, ok := fn.Object().(*types.Func); ok && fn.Synthetic != "" { // a method value
			name = o.Name()
			if r := o.Type().(*types.Signature).Recv(); r != nil {
				recv = r.Type()
			}
		}
		if fn.Signature.Recv() != nil {
			recv = fn.Signature.Recv().Type()
		} else if fn.Pkg != nil {
			switch fn.Pkg.Pkg.Path() {
			case "fmt", "log":
				if fn.Pkg.Pkg.Path() == "log" || strings.HasPrefix(name, "Fprint") || strings.HasPrefix(name, "Print") {
					return true // logs; what is written to files and connections is decided by interpretation
				}
			case "io", "encoding/binary":
				if len(c.Args) > 0 && (name == "WriteString" || name == "Write") && sureWriter(c.Args[0]) {
					return true
				}
			}
		}
	}
	if name == "Close" {
		return true
	}
	if recv == nil || !strings.HasPrefix(name, "Write") {
		return false
	}
	return sureType(recv) || c.IsInvoke() && sureWriter(c.Value)
}

func sureType(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	switch namedPath(t) {
	case "bufio.Writer": // keeps its first error for Flush
		return true
	case "bytes.Buffer", "strings.Builder", "hash.Hash", "hash.Hash32", "hash.Hash64", "hash/maphash.Hash":
		return true
	}
	return false
}

func sureWriter(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return sureType(v.X.Type())
	case *ssa.ChangeInterface:
		return sureType(v.X.Type())
	}
	return sureType(v.Type())
}

// errIndex returns the position of an error among results, or -1.
func errIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if namedPath(sig.Results().At(i).Type()) == "error" {
			return i
		}
	}
	return -1
}

func (p *Program) errorFlow(r *Rep) {
	seen := map[string]int{}
	for _, fn := range p.sourceFuncs() {
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				k := errIndex(c.Signature())
				if k < 0 {
					continue
				}
				r.counts["calls that report errors"]++
				callee := calleeName(c)
				cons := fnName(fn) + " calls " + callee
				seen[cons]++
				if seen[cons] > 1 {
					cons += fmt.Sprintf(" (%d)", seen[cons])
				}
				pos := p.pos(in.Pos())
				if p.neverFails(c) {
					r.ob(true, "error-used", cons, pos, "")
					continue
				}
				call, ok := in.(*ssa.Call)
				if !ok {
					r.fail("error-used", cons, pos, "the error of a deferred or concurrent call is lost")
					continue
				}
				f := &errFlow{p: p, call: call, done: map[string]bool{}}
				var v ssa.Value
				at, idx := b, i+1
				if c.Signature().Results().Len() == 1 {
					v = call
				} else {
					for _, ref := range *call.Referrers() {
						if ex, ok := ref.(*ssa.Extract); ok && ex.Index == k {
							v = ex
						} else if _, ok := ref.(*ssa.Return); ok {
							v = call // the whole tuple is returned
						}
					}
				}
				vals := map[ssa.Value]bool{}
				if v != nil {
					vals[v] = true
				}
				f.walk(at, idx, vals, map[ssa.Value]bool{}, map[ssa.Value]bool{})
				sort.Strings(f.bad)
				why := ""
				if len(f.bad) > 0 {
					why = f.bad[0]
				}
				r.ob(len(f.bad) == 0, "error-used", cons, pos, "the error is not looked at before %s", why)
			}
		}
	}
	r.ob(r.counts["calls that report errors"] > 20, "coverage", "calls that report errors", "", "hardly any call reports an error")
}

func fnName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	return strings.TrimPrefix(strings.ReplaceAll(s, modPath+"/", ""), "pkg/")
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if fn := c.StaticCallee(); fn != nil {
		return fn.Name()
	}
	return "a function value"
}

// errFlow follows an error from the call that reports it along all ways to where it is looked at.
type errFlow struct {
	p    *Program
	call *ssa.Call
	done map[string]bool
	bad  []string
}

func keyOf(b *ssa.BasicBlock, idx int, sets ...map[ssa.Value]bool) string {
	s := fmt.Sprint(b.Index, ".", idx)
	for _, m := range sets {
		var ns []string
		for v := range m {
			ns = append(ns, fmt.Sprintf("%p", v))
		}
		sort.Strings(ns)
		s += "|" + strings.Join(ns, ",")
	}
	return s
}

func with(m map[ssa.Value]bool, v ssa.Value) map[ssa.Value]bool {
	n := map[ssa.Value]bool{v: true}
	for k := range m {
		n[k] = true
	}
	return n
}

func without(m map[ssa.Value]bool, v ssa.Value) map[ssa.Value]bool {
	n := map[ssa.Value]bool{}
	for k := range m {
		if k != v {
			n[k] = true
		}
	}
	return n
}

// walk: vals hold the error, cells are variables that hold it, and nonnil are errors known not to be nil.
func (f *errFlow) walk(b *ssa.BasicBlock, idx int, vals, cells, nonnil map[ssa.Value]bool) {
	k := keyOf(b, idx, vals, cells, nonnil)
	if f.done[k] || len(f.done) > 20000 {
		return
	}
	f.done[k] = true
	for ; idx < len(b.Instrs); idx++ {
		in := b.Instrs[idx]
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.Phi:
			continue
		case *ssa.Extract:
			if vals[in.Tuple] && in.Tuple != ssa.Value(f.call) {
				return
			}
			continue
		case *ssa.ChangeInterface:
			if vals[in.X] {
				vals = with(vals, in)
			}
			continue
		case *ssa.Store:
			if vals[in.Val] {
				if root := cellOf(in.Addr); root != nil {
					cells = with(cells, root)
					continue
				}
				return // kept somewhere
			}
			if root := cellOf(in.Addr); root != nil && cells[root] {
				cells = without(cells, root)
			}
			continue
		case *ssa.UnOp:
			if in.Op == token.MUL {
				if root := cellOf(in.X); root != nil && cells[root] {
					return // read again: followed from there only by interpretation
				}
			}
			continue
		case *ssa.Return:
			for _, x := range in.Results {
				if vals[x] {
					return
				}
			}
			for c := range cells {
				if outer(c) {
					return // a variable of the enclosing function
				}
			}
			f.leave(in, nonnil)
			return
		case *ssa.Panic:
			return
		case *ssa.If:
			for s, succ := range b.Succs {
				nn := nonnil
				if op, ok := in.Cond.(*ssa.BinOp); ok && (op.Op == token.NEQ && s == 0 || op.Op == token.EQL && s == 1) {
					if c, ok := op.Y.(*ssa.Const); ok && c.IsNil() {
						nn = with(nn, op.X)
					} else if c, ok := op.X.(*ssa.Const); ok && c.IsNil() {
						nn = with(nn, op.Y)
					}
				}
				f.edge(b, succ, vals, cells, nn)
			}
			return
		case *ssa.Jump:
			f.edge(b, b.Succs[0], vals, cells, nonnil)
			return
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			if fn := ci.Common().StaticCallee(); fn != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == "os" && fn.Name() == "Exit" {
				return
			}
			if len(cells) > 0 {
				if _, isB := ci.Common().Value.(*ssa.Builtin); !isB && f.mayRead(ci, cells) {
					return
				}
			}
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && (vals[*op] || cells[*op] && !isCallArg(in)) {
				return // looked at
			}
			if *op != nil && cells[*op] {
				return // its address is handed on
			}
		}
	}
}

func isCallArg(in ssa.Instruction) bool { _, ok := in.(ssa.CallInstruction); return ok }

// mayRead: the callee may be a closure that reads the variable.
func (f *errFlow) mayRead(ci ssa.CallInstruction, cells map[ssa.Value]bool) bool {
	for c := range cells {
		if outer(c) {
			return true
		}
		if refs := c.Referrers(); refs != nil {
			for _, ref := range *refs {
				if mc, ok := ref.(*ssa.MakeClosure); ok {
					if v := ci.Common().Value; v == ssa.Value(mc) {
						return true
					}
					for _, a := range ci.Common().Args {
						if a == ssa.Value(mc) {
							return true
						}
					}
					if ci.Common().StaticCallee() == nil {
						return true
					}
				}
			}
		}
	}
	return false
}

func outer(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.FreeVar, *ssa.Parameter, *ssa.Global:
		return true
	}
	return false
}

// cellOf returns the variable a store or load goes to, if it is a whole local or captured variable.
func cellOf(a ssa.Value) ssa.Value {
	switch a := a.(type) {
	case *ssa.Alloc:
		return a
	case *ssa.FreeVar:
		return a
	}
	return nil
}

func (f *errFlow) edge(from, to *ssa.BasicBlock, vals, cells, nonnil map[ssa.Value]bool) {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if vals[phi.Edges[k]] {
			vals = with(vals, phi)
		} else {
			vals = without(vals, phi)
		}
		if f.definite(phi.Edges[k], nonnil) {
			nonnil = with(nonnil, phi)
		} else {
			nonnil = without(nonnil, phi)
		}
	}
	// coming round to the call again without having looked at the error
	if f.again(to, vals) {
		f.bad = append(f.bad, "the call is made again")
		return
	}
	f.walk(to, 0, vals, cells, nonnil)
}

// again: the block makes the call once more, and does not look at the error before.
func (f *errFlow) again(b *ssa.BasicBlock, vals map[ssa.Value]bool) bool {
	if b != f.call.Block() {
		return false
	}
	for _, in := range b.Instrs {
		if in == ssa.Instruction(f.call) {
			return true
		}
		for _, op := range in.Operands(nil) {
			if _, isPhi := in.(*ssa.Phi); !isPhi && *op != nil && vals[*op] {
				return false
			}
		}
	}
	return false
}

// leave judges a return on which the error was not looked at.
func (f *errFlow) leave(ret *ssa.Return, nonnil map[ssa.Value]bool) {
	sig := ret.Parent().Signature
	k := errIndex(sig)
	if k >= 0 && k < len(ret.Results) && f.definite(ret.Results[k], nonnil) {
		return // another error is reported
	}
	f.bad = append(f.bad, "the return at "+f.p.pos(ret.Pos()))
}

// definite: the value is certainly an error.
func (f *errFlow) definite(v ssa.Value, nonnil map[ssa.Value]bool) bool {
	if nonnil[v] {
		return true
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		// a result variable that was set just before
		if cell := cellOf(v.X); v.Op == token.MUL && cell != nil {
			var last ssa.Value
			for _, in := range v.Block().Instrs {
				if in == ssa.Instruction(v) {
					break
				}
				if st, ok := in.(*ssa.Store); ok && st.Addr == cell {
					last = st.Val
				}
			}
			return last != nil && f.definite(last, nonnil)
		}
	case *ssa.ChangeInterface:
		return f.definite(v.X, nonnil)
	case *ssa.Call:
		if fn := v.Call.StaticCallee(); fn != nil && fn.Pkg != nil {
			switch fn.Pkg.Pkg.Path() + "." + fn.Name() {
			case "errors.New", "fmt.Errorf":
				return true
			}
			if strings.Contains(fn.Pkg.Pkg.Path(), "xerrors") || strings.HasSuffix(fn.Pkg.Pkg.Path(), "pkg/errors") {
				return true
			}
		}
	}
	return false
}
