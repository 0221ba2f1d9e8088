package main

// Which committees are interpreted.

type committee struct {
	n  int
	ts []int
}

// committees lists the sizes and thresholds that are interpreted; the thorough tier adds larger ones.
func committees() []committee {
	cs := []committee{{2, []int{1, 2}}, {3, []int{1, 2, 3}}, {4, []int{4}}, {5, []int{3}}}
	if thorough() {
		cs = append(cs, committee{4, []int{1, 2, 3, 4}}, committee{5, []int{1, 2, 4, 5}}, committee{6, []int{4}}, committee{7, []int{2, 5}})
	}
	return cs
}

// signers lists the committees (with one threshold each) that run the signing protocol.
func signers() []committee {
	cs := []committee{{2, []int{1}}, {2, []int{2}}, {3, []int{2}}}
	if thorough() {
		cs = append(cs, committee{3, []int{1}}, committee{3, []int{3}}, committee{4, []int{3}}, committee{5, []int{3}})
	}
	return cs
}

func honestRuns(p *Program, r *Rep) {
	for _, c := range committees() {
		honestRun(p, r, c.n, c.ts)
	}
}

func signingRuns(p *Program, r *Rep) {
	for _, c := range signers() {
		signing(p, r, c.n, c.ts[0])
	}
}

func protocolRuns(p *Program, r *Rep) {
	honestRuns(p, r)
	signingRuns(p, r)
}

// failRuns runs one party among peers that do anything.
func failRuns(p *Program, r *Rep) {
	failingRuns(p, r, 3, 2)
	failingRuns(p, r, 2, 1)
	if thorough() {
		failingRuns(p, r, 2, 2)
		failingRuns(p, r, 3, 3)
	}
	if r.id != "C11" {
		failingSigners(p, r)
	}
}

func failingSigners(p *Program, r *Rep) {
	failingSigner(p, r, 2, 2)
	if thorough() {
		failingSigner(p, r, 2, 1)
	}
}
