package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Rep collects the obligations of one property.
type Rep struct {
	id      string
	p       *Program
	obs     []Ob
	counts  map[string]int
	rules   []string
	samples []string
}

// Ob is one obligation: a rule applied to a construct.
type Ob struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	OK        bool   `json:"ok"`
	Pos       string `json:"pos,omitempty"`
	Msg       string `json:"msg,omitempty"`
	Known     bool   `json:"known,omitempty"`
}

func newRep(p *Program, id string) *Rep { return &Rep{id: id, p: p, counts: map[string]int{}} }

func (r *Rep) ob(ok bool, rule, construct, pos, format string, a ...interface{}) bool {
	o := Ob{Rule: rule, Construct: construct, OK: ok, Pos: pos}
	if !ok {
		o.Msg = fmt.Sprintf(format, a...)
		if len(o.Msg) > 900 {
			o.Msg = o.Msg[:900] + "…"
		}
	}
	r.obs = append(r.obs, o)
	return ok
}

func (r *Rep) fail(rule, construct, pos, format string, a ...interface{}) {
	r.ob(false, rule, construct, pos, format, a...)
}

// engine reports what an interpretation could not decide.
func (r *Rep) failed() (n int) {
	for _, o := range r.obs {
		if !o.OK {
			n++
		}
	}
	return n
}

func (r *Rep) engine(e *Eng, construct string) {
	for _, u := range e.undec {
		r.fail("decidable", construct, "", "the analysis cannot decide: %s", u)
	}
	r.counts["interpreted instructions"] += e.steps
	r.counts["events"] += len(e.events)
}

func (r *Rep) guard(construct string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(undecidedErr); ok {
				r.fail("decidable", construct, "", "the analysis cannot decide: %s", u.msg)
				return
			}
			if os.Getenv("VERIFAN_TRACE") != "" {
				panic(x)
			}
			r.fail("decidable", construct, "", "the analysis failed: %v", x)
		}
	}()
	f()
}

type knownFinding struct{ prop, rule, construct, text string }

// loadKnown reads the committed list of findings: lines "known: property=<id> rule=<rule> construct=<construct> :: text".
func loadKnown(verif string) []knownFinding {
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		k := knownFinding{text: l[i+4:]}
		for _, w := range strings.Fields(l[7:i]) {
			switch {
			case strings.HasPrefix(w, "property="):
				k.prop = w[9:]
			case strings.HasPrefix(w, "rule="):
				k.rule = w[5:]
			case strings.HasPrefix(w, "construct="):
				k.construct = w[10:]
			}
		}
		out = append(out, k)
	}
	return out
}

// finish writes the evidence, prints the verdict and returns the exit status.
// bad says whether there is a violation that is not known.
func (r *Rep) bad(verif string) bool {
	known := loadKnown(verif)
	for _, o := range r.obs {
		if o.OK {
			continue
		}
		listed := false
		for _, k := range known {
			listed = listed || k.prop == r.id && k.rule == o.Rule && k.construct == strings.ReplaceAll(o.Construct, " ", "_")
		}
		if !listed {
			return true
		}
	}
	return false
}

func (r *Rep) finish(verif string, t0 time.Time, explanation string, assumptions []string) int {
	known := loadKnown(verif)
	used := map[int]bool{}
	var bad []Ob
	for i := range r.obs {
		o := &r.obs[i]
		if o.OK {
			continue
		}
		for j, k := range known {
			if k.prop == r.id && k.rule == o.Rule && k.construct == strings.ReplaceAll(o.Construct, " ", "_") {
				o.Known = true
				used[j] = true
			}
		}
		if !o.Known {
			bad = append(bad, *o)
		}
	}
	for j, k := range known {
		if k.prop == r.id && used[j] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, k.text)
		}
	}
	rules := map[string]int{}
	disch := 0
	var samples []string
	seen := map[string]bool{}
	for _, o := range r.obs {
		rules[o.Rule]++
		if o.OK {
			disch++
			if !seen[o.Rule] && len(samples) < 40 {
				seen[o.Rule] = true
				samples = append(samples, o.Rule+" @ "+o.Construct+" ("+o.Pos+")")
			}
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation":    explanation,
		"obligations":    len(r.obs),
		"discharged":     disch,
		"rule_instances": rules,
		"counts":         r.counts,
		"samples":        samples,
		"packages":       len(r.p.order),
		"functions":      len(r.p.allFns),
	}
	ev := map[string]interface{}{
		"property": r.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": len(bad),
	}
	if len(bad) > 0 {
		ev["findings"] = bad
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.id+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d violated\n", r.id, len(r.obs), disch, len(bad))
	if len(bad) == 0 {
		return 0
	}
	rp := filepath.Join(dir, r.id+".violation.txt")
	var sb strings.Builder
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].Rule < bad[j].Rule })
	for _, o := range bad {
		fmt.Fprintf(&sb, "rule %s\n  construct: %s\n  at: %s\n  %s\n", o.Rule, o.Construct, o.Pos, o.Msg)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, rp)
	return 1
}

// ---- running functions on symbolic arguments

func (p *Program) typeOf(path, name string) types.Type {
	seen := map[*types.Package]bool{}
	var find func(q *types.Package) types.Type
	find = func(q *types.Package) types.Type {
		if seen[q] {
			return nil
		}
		seen[q] = true
		if q.Path() == path {
			if o := q.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
		for _, i := range q.Imports() {
			if t := find(i); t != nil {
				return t
			}
		}
		return nil
	}
	for _, q := range p.pkgs {
		if t := find(q); t != nil {
			return t
		}
	}
	return nil
}

func topSite(what string) *Site { return &Site{path: "top:" + what} }

func (e *Eng) newState() *State { return &State{pc: bTrue, mem: map[*Obj]Val{}} }

// callTop calls a function on the arguments; the state is updated. It returns nil when the call cannot return.
func (e *Eng) callTop(st *State, what string, fn *ssa.Function, args ...Val) Val {
	old := curFacts
	curFacts = st.pc.Facts()
	defer func() { curFacts = old }()
	v := e.callFn(st, fn, nil, args, topSite(fmt.Sprintf("%s%d", what, e.topSeq())))
	if st.pc == bFalse {
		return nil
	}
	return v
}

// methodOf finds a method of the dynamic type of an interface value or pointer.
func (e *Eng) methodOf(t types.Type, name string) *ssa.Function {
	ms := e.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (e *Eng) callMethod(st *State, what string, recv Val, name string, args ...Val) (Val, error) {
	i, ok := recv.(VIface)
	if !ok || i.typ == nil {
		return nil, fmt.Errorf("receiver of %s is %s", name, describe(recv))
	}
	fn := e.methodOf(i.typ, name)
	if fn == nil {
		return nil, fmt.Errorf("no method %s on %s", name, i.typ)
	}
	return e.callTop(st, what, fn, append([]Val{i.v}, args...)...), nil
}

// runInits interprets the package initialisers, so that package variables have their initial values.
func (e *Eng) runInits() {
	st := e.newState()
	for _, path := range e.p.order {
		pk := e.p.ssaPk[path]
		if pk == nil {
			continue
		}
		if f := pk.Func("init"); f != nil && len(f.Blocks) > 0 {
			n := len(e.undec)
			e.inInit = true
			_, s2 := e.run(f, nil, nil, st, "init:"+path, f.Pos())
			e.inInit = false
			e.undec = e.undec[:n]
			if s2 != nil {
				st = s2
			}
		}
	}
	for o, v := range st.mem {
		e.globalMem[o] = v
		o.global = true
	}
	e.events = nil
	e.forget()
}

func (e *Eng) panics() []*Event {
	var out []*Event
	for _, ev := range e.events {
		if ev.kind == "panic" && feasible(ev.g) {
			out = append(out, ev)
		}
	}
	return out
}

func (e *Eng) where(ev *Event) string {
	s := e.p.pos(ev.pos)
	if len(ev.chain) > 0 {
		s += " via " + strings.Join(ev.chain, ">")
	}
	return s
}

// topSeq numbers the calls a rule makes, so that each has its own objects.
func (e *Eng) topSeq() int { e.calls++; return e.calls }
