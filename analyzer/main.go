package main

import (
	"encoding/json"
	"flag"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"time"
)

type checkDef struct {
	run         func(p *Program, r *Rep)
	technique   string
	explain     string
	assumptions []string
}

var checks = map[string]checkDef{}

func main() {
	repo := flag.String("repo", "/repo", "the project")
	verif := flag.String("verif", "/verif", "this directory")
	all := flag.Bool("all", false, "run every check")
	list := flag.Bool("list", false, "print the registered checks")
	flag.Parse()
	if *list {
		listChecks()
		return
	}
	stop := profile()
	code := runMain(*repo, *verif, *all, flag.Args())
	stop()
	os.Exit(code)
}

func runMain(repo, verif string, all bool, ids []string) (code int) {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	t0 := time.Now()
	if all {
		ids = nil
		for id, d := range checks {
			if d.explain == "" { // for development only
				continue
			}
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	p, err := load(repo, verif)
	for _, id := range ids {
		if c := runCheck(p, err, verif, id, t0); c != 0 {
			code = c
		}
		t0 = time.Now()
	}
	return code
}

func runCheck(p *Program, lerr error, verif, id string, t0 time.Time) int {
	d, ok := checks[id]
	if p == nil {
		p = &Program{}
	}
	r := newRep(p, id)
	if !ok {
		r.fail("check", id, "", "no such check")
		return r.finish(verif, t0, "no such check", nil)
	}
	if lerr != nil {
		r.fail("load", "project", "", "the project does not load: %v", lerr)
		return r.finish(verif, t0, d.explain, d.assumptions)
	}
	for _, e := range p.errs {
		r.fail("load", "project", "", "type checking: %s", e)
	}
	over := watch(r, verif, func(r *Rep) { os.Exit(r.finish(verif, t0, d.explain, d.assumptions)) })
	r.guard(id, func() { d.run(p, r) })
	close(over)
	if len(r.obs) == 0 {
		r.fail("coverage", id, "", "no obligation was found")
	}
	return r.finish(verif, t0, d.explain, d.assumptions)
}

const (
	enoughTime = 150 * time.Second
	maxTime    = 780 * time.Second
	maxHeap    = 14 << 30
)

// watch ends a check that takes too long or too much memory: what cannot be decided is reported.
func watch(r *Rep, verif string, stop func(r *Rep)) chan struct{} {
	over := make(chan struct{})
	start := time.Now()
	go func() {
		for {
			select {
			case <-over:
				return
			case <-time.After(time.Second):
			}
			sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
			metrics.Read(sample)
			t, m := time.Since(start), sample[0].Value.Uint64()
			r2 := newRep(r.p, r.id)
			r2.obs = append(r2.obs, r.obs[:len(r.obs):len(r.obs)]...)
			if t > enoughTime && r2.bad(verif) {
				stop(r2) // enough was found
			}
			if t > maxTime || m > maxHeap {
				r2.fail("decidable", r.id, "", "the analysis did not come to an end within its limits of time and memory")
				stop(r2)
			}
		}
	}()
	return over
}

func listChecks() {
	type entry struct {
		ID, Technique, Explain string
		Assumptions            []string
	}
	var out []entry
	for id, d := range checks {
		if d.explain == "" { // for development only
			continue
		}
		out = append(out, entry{id, d.technique, d.explain, d.assumptions})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	json.NewEncoder(os.Stdout).Encode(out)
}
