package main

// Conditions: reduced ordered decision diagrams over atomic conditions (terms).

import (
	"fmt"
	"math/big"
	"strings"
)

type Node struct {
	id     int
	v      *T // atom
	lo, hi *Node
	facts  *Facts
	supp   []*T
	lits   map[*T]bool
	feas   int8 // 1 may hold, 2 cannot
}

var (
	bFalse  = &Node{id: 0}
	bTrue   = &Node{id: 1}
	nodes   = map[[3]int]*Node{}
	nodeSeq = 2
	iteMemo = map[[3]int]*Node{}
)

func mkNode(v *T, lo, hi *Node) *Node {
	if lo == hi {
		return lo
	}
	k := [3]int{v.id, lo.id, hi.id}
	if n, ok := nodes[k]; ok {
		return n
	}
	n := &Node{id: nodeSeq, v: v, lo: lo, hi: hi}
	nodeSeq++
	nodes[k] = n
	return n
}

func ite(c, a, b *Node) *Node {
	if c == bTrue {
		return a
	}
	if c == bFalse {
		return b
	}
	if a == b {
		return a
	}
	if a == bTrue && b == bFalse {
		return c
	}
	k := [3]int{c.id, a.id, b.id}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	v := c.v
	if a.v != nil && a.v.id < v.id {
		v = a.v
	}
	if b.v != nil && b.v.id < v.id {
		v = b.v
	}
	cof := func(n *Node, hi bool) *Node {
		if n.v == v {
			if hi {
				return n.hi
			}
			return n.lo
		}
		return n
	}
	r := mkNode(v, ite(cof(c, false), cof(a, false), cof(b, false)), ite(cof(c, true), cof(a, true), cof(b, true)))
	iteMemo[k] = r
	return r
}

func and(a, b *Node) *Node    { return ite(a, b, bFalse) }
func or(a, b *Node) *Node     { return ite(a, bTrue, b) }
func not(a *Node) *Node       { return ite(a, bFalse, bTrue) }
func implies(a, b *Node) bool { return and(a, not(b)) == bFalse }

func bAtom(t *T) *Node { return mkNode(t, bFalse, bTrue) }

func (n *Node) support() []*T {
	if n.v == nil {
		return nil
	}
	if n.supp != nil {
		return n.supp
	}
	seen := map[*T]bool{}
	vis := map[*Node]bool{}
	var walk func(n *Node)
	walk = func(n *Node) {
		if n.v == nil || vis[n] {
			return
		}
		vis[n] = true
		if !seen[n.v] {
			seen[n.v] = true
			n0 := n.v
			_ = n0
		}
		walk(n.lo)
		walk(n.hi)
	}
	walk(n)
	for t := range seen {
		n.supp = append(n.supp, t)
	}
	sortTerms(n.supp)
	return n.supp
}

func sortTerms(ts []*T) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

// literals that hold wherever n holds
func (n *Node) literals() map[*T]bool {
	if n.lits != nil {
		return n.lits
	}
	r := map[*T]bool{}
	if n.v != nil {
		switch {
		case n.lo == bFalse:
			for k, v := range n.hi.literals() {
				r[k] = v
			}
			r[n.v] = true
		case n.hi == bFalse:
			for k, v := range n.lo.literals() {
				r[k] = v
			}
			r[n.v] = false
		default:
			l := n.lo.literals()
			for k, v := range n.hi.literals() {
				if w, ok := l[k]; ok && w == v {
					r[k] = v
				}
			}
		}
	}
	n.lits = r
	return r
}

// Facts that hold wherever n holds.
func (n *Node) Facts() *Facts {
	if n.facts != nil {
		return n.facts
	}
	f := &Facts{}
	var ks []*T
	lits := n.literals()
	for k := range lits {
		ks = append(ks, k)
	}
	sortTerms(ks)
	for _, k := range ks {
		v := lits[k]
		switch k.op {
		case "le0":
			if v {
				f.le = append(f.le, k.args[0])
			} else {
				f.le = append(f.le, add(neg(k.args[0]), num(1)))
			}
		case "eq0":
			if v {
				f.eq = append(f.eq, k.args[0])
			} else {
				f.ne = append(f.ne, k.args[0])
			}
		}
	}
	n.facts = f
	return f
}

// ---- atomic conditions

// le0 is the condition p <= 0.
func le0(p *T) *Node {
	switch decideLe0(p) {
	case 1:
		return bTrue
	case -1:
		return bFalse
	}
	// divide by the content of the non-constant part: g*q + k <= 0 iff q <= floor(-k/g)
	g := new(big.Int)
	k := new(big.Int)
	for _, m := range toMon(p) {
		if len(m.f) == 0 {
			k = m.c
		} else {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
		}
	}
	if g.Cmp(big1) > 0 {
		b := newPolyB()
		for _, m := range toMon(p) {
			if len(m.f) > 0 {
				b.add(new(big.Int).Quo(m.c, g), m.f)
			}
		}
		fl := new(big.Int)
		fl.Div(new(big.Int).Neg(k), g) // Euclidean: floor for positive g
		b.add(new(big.Int).Neg(fl), nil)
		p = b.done(nil)
	}
	// share one atom between p <= 0 and its negation
	ms := toMon(p)
	for _, m := range ms {
		if len(m.f) > 0 {
			if m.c.Sign() < 0 {
				// p <= 0 iff not (-p + 1 <= 0)
				return not(bAtom(mkTerm("le0", 'o', "", add(neg(p), num(1)))))
			}
			break
		}
	}
	return bAtom(mkTerm("le0", 'o', "", p))
}

func lt(a, b *T) *Node { return le0(add(sub(a, b), num(1))) }

// eq0 is the condition p = 0 (integers or points).
func eq0(p *T) *Node {
	if p.sort == 'p' {
		p = ptCanon(redN(p))
		if c, ok := isConst(p); ok {
			if c.Sign() == 0 {
				return bTrue
			}
			return bFalse
		}
		// a single generator with non-zero constant coefficient is not neutral
		if ms := toMon(p); len(ms) == 1 && len(ms[0].f) == 1 && ms[0].f[0].a == ptG {
			return bFalse
		}
		switch decideEq0(p) {
		case 1:
			return bTrue
		case -1:
			return bFalse
		}
		// a product is neutral iff one of its scalars vanishes modulo the order, or the point is neutral
		if ms := toMon(p); len(ms) == 1 && (len(ms[0].f) > 1 || ms[0].f[0].e != 1) {
			r := bFalse
			okp := true
			for _, f := range ms[0].f {
				if f.e < 0 {
					continue
				}
				if f.a.sort == 'p' {
					r = or(r, eq0(f.a))
				} else if f.a.sort == 'i' {
					r = or(r, eq0(mod(f.a, cst(curveN))))
				} else {
					okp = false
				}
			}
			if okp {
				return r
			}
		}
		return bAtom(mkTerm("eq0", 'o', "", p))
	}
	if ms := toMon(p); len(ms) == 1 && len(ms[0].f) == 1 && ms[0].f[0].e == 1 && ms[0].f[0].a.op == "mod" && isPrimeConst(ms[0].f[0].a.args[1]) {
		// x mod m = 0 does not depend on a constant factor of x
		a := ms[0].f[0].a
		m, _ := isConst(a.args[1])
		if xs := toMon(a.args[0]); len(xs) > 0 {
			if c := new(big.Int).ModInverse(xs[0].c, m); c != nil && c.Cmp(big1) != 0 {
				b := newPolyB()
				b.addT(c, a.args[0])
				x := b.done(m)
				if q := mod(x, a.args[1]); q != a {
					if q.op != "mod" {
						return eq0(q)
					}
					p = q
				}
			}
		}
	}
	if q := unwrapEq(p); q != nil {
		return eq0(q)
	}
	if c := coordEq(p); c != nil {
		return c
	}
	switch decideEq0(p) {
	case 1:
		return bTrue
	case -1:
		return bFalse
	}
	// curve membership written out
	if oc := asOnCurve(p); oc != nil {
		return oc
	}
	ms := toMon(p)
	g := new(big.Int)
	for _, m := range ms {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	neg1 := false
	for _, m := range ms {
		if len(m.f) > 0 {
			neg1 = m.c.Sign() < 0
			break
		}
	}
	b := newPolyB()
	for _, m := range ms {
		c := new(big.Int).Quo(m.c, g)
		if neg1 {
			c.Neg(c)
		}
		b.add(c, m.f)
	}
	p = b.done(nil)
	// x mod m = 0 for a product with the single factor structure
	return bAtom(mkTerm("eq0", 'o', "", p))
}

// unwrapEq turns wrap(x) = c into an equation for x where the range of x leaves one solution.
func unwrapEq(p *T) *T {
	for _, m := range toMon(p) {
		if len(m.f) != 1 || m.f[0].e != 1 || m.f[0].a.op != "wrap" || new(big.Int).Abs(m.c).Cmp(big1) != 0 {
			continue
		}
		w := m.f[0].a
		var bits int
		fmt.Sscanf(w.name[1:], "%d", &bits)
		rest := sub(w, p) // w = rest
		if m.c.Sign() < 0 {
			rest = add(w, p)
		}
		lo, hi := typeRange(bits, w.name[0] == 's')
		l, h := bounds(rest)
		if l == nil || h == nil || l.Cmp(lo) < 0 || h.Cmp(hi) > 0 {
			continue
		}
		for _, d := range []*big.Int{big0, pow2(bits)} {
			q := sub(sub(w.args[0], rest), cst(d))
			l, h := bounds(q)
			if l != nil && h != nil && l.Cmp(new(big.Int).Neg(pow2(bits))) > 0 && h.Cmp(pow2(bits)) < 0 {
				return q
			}
		}
	}
	return nil
}

// coordEq recognises equations between coordinates of points.
func coordEq(p *T) *Node {
	var cs []*T
	var co []int
	k := big0
	for _, m := range toMon(p) {
		if len(m.f) == 0 {
			k = m.c
			continue
		}
		if len(m.f) != 1 || m.f[0].e != 1 || m.c.CmpAbs(big1) != 0 || (m.f[0].a.op != "X" && m.f[0].a.op != "Y") {
			return nil
		}
		cs = append(cs, m.f[0].a)
		co = append(co, m.c.Sign())
	}
	if len(cs) == 1 { // a coordinate of a fixed point
		gx := ptG
		if cs[0].op == "X" && new(big.Int).Abs(k).Cmp(curveGx) == 0 && k.Sign() == -co[0] {
			a := cs[0].args[0]
			return or(eq0(sub(a, gx)), eq0(add(a, gx)))
		}
		return nil
	}
	if len(cs) != 2 || cs[0].op != cs[1].op {
		return nil
	}
	a, b := cs[0].args[0], cs[1].args[0]
	if a.sort != 'p' || b.sort != 'p' {
		return nil
	}
	eq, op := eq0(sub(a, b)), eq0(add(a, b))
	if cs[0].op == "X" {
		if co[0] != co[1] && k.Sign() == 0 {
			return or(eq, op)
		}
		return nil
	}
	if a.id > b.id {
		a, b = b, a
	}
	if co[0] != co[1] && k.Sign() == 0 {
		return or(eq, and(not(op), bAtom(mkTerm("sameY", 'o', "", a, b))))
	}
	if co[0] == co[1] && k.CmpAbs(curveP) == 0 && k.Sign() == -co[0] {
		return or(op, and(not(eq), bAtom(mkTerm("oppY", 'o', "", a, b))))
	}
	return nil
}

func onCurve(x, y *T) *Node {
	if asPoint(x, y) != nil {
		return bTrue
	}
	return bAtom(mkTerm("oncurve", 'o', "", x, y))
}

// asOnCurve recognises y^2 = x^3 + 7 modulo P.
func asOnCurve(p *T) *Node {
	q := red(p, curveP)
	ms := toMon(q)
	if len(ms) != 3 {
		return nil
	}
	var x, y *T
	var sx, sy, s7 *big.Int
	for i := range ms {
		m := ms[i]
		switch {
		case len(m.f) == 0:
			s7 = m.c
		case len(m.f) == 1 && m.f[0].e == 3:
			x, sx = m.f[0].a, m.c
		case len(m.f) == 1 && m.f[0].e == 2:
			y, sy = m.f[0].a, m.c
		}
	}
	if x == nil || y == nil || s7 == nil {
		return nil
	}
	neg := new(big.Int).Neg(sy)
	if sx.Cmp(neg) != 0 || sx.CmpAbs(big1) != 0 || new(big.Int).Mul(sx, big.NewInt(7)).Cmp(s7) != 0 {
		return nil
	}
	return onCurve(x, y)
}

func bsym(name string, args ...*T) *Node { return bAtom(mkTerm("bsym", 'o', name, args...)) }

// under evaluates f with the facts of pc.
func under(pc *Node, f func()) {
	old := curFacts
	curFacts = pc.Facts()
	defer func() { curFacts = old }()
	f()
}

// decide c under pc: 1 holds, -1 fails, 0 unknown; conditions are re-evaluated with the facts of pc.
func decideCond(pc, c *Node) int {
	if implies(pc, c) {
		return 1
	}
	if and(pc, c) == bFalse {
		return -1
	}
	r := simplify(pc, c)
	if r == bTrue {
		return 1
	}
	if r == bFalse {
		return -1
	}
	return 0
}

// simplify re-evaluates the atoms of c under the facts of pc.
func simplify(pc, c *Node) *Node {
	if c.v == nil {
		return c
	}
	old := curFacts
	curFacts = pc.Facts()
	defer func() { curFacts = old }()
	memo := map[*Node]*Node{}
	lits := pc.literals()
	var walk func(n *Node) *Node
	walk = func(n *Node) *Node {
		if n.v == nil {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		d := 0
		if v, ok := lits[n.v]; ok {
			d = -1
			if v {
				d = 1
			}
		} else {
			switch n.v.op {
			case "le0":
				d = decideLe0(n.v.args[0])
			case "eq0":
				d = decideEq0(n.v.args[0])
			}
		}
		var r *Node
		switch d {
		case 1:
			r = walk(n.hi)
		case -1:
			r = walk(n.lo)
		default:
			r = mkNode(n.v, walk(n.lo), walk(n.hi))
		}
		memo[n] = r
		return r
	}
	return walk(c)
}

// feasible reports whether pc can hold, as far as bounds tell.
func feasible(pc *Node) bool {
	if pc == bFalse {
		return false
	}
	if pc.feas == 0 {
		pc.feas = 1
		if !feasible0(pc) || !feasiblePaths(pc) {
			pc.feas = 2
		}
	}
	return pc.feas == 1
}

// maxPaths bounds the cases a condition is split into.
const maxPaths = 48

// feasiblePaths looks at the cases of a condition one by one, if there are not too many.
func feasiblePaths(pc *Node) bool {
	n := pathCount(pc)
	if n < 2 || n > maxPaths {
		return true
	}
	var walk func(x, cube *Node) bool
	walk = func(x, cube *Node) bool {
		if x == bFalse {
			return false
		}
		if x == bTrue {
			return feasible0(cube)
		}
		a := bAtom(x.v)
		return walk(x.lo, and(cube, not(a))) || walk(x.hi, and(cube, a))
	}
	return walk(pc, bTrue)
}

// pathCount counts the cases of a condition, up to one more than maxPaths.
func pathCount(pc *Node) int {
	n := 0
	var count func(x *Node)
	count = func(x *Node) {
		if n > maxPaths || x == bFalse {
			return
		}
		if x == bTrue {
			n++
			return
		}
		count(x.lo)
		count(x.hi)
	}
	count(pc)
	return n
}

// cases splits a condition into those of its cases that can hold, if there are not too many.
func cases(pc *Node) []*Node {
	if n := pathCount(pc); n < 2 || n > maxPaths {
		return []*Node{pc}
	}
	var out []*Node
	var walk func(x, cube *Node)
	walk = func(x, cube *Node) {
		if x == bFalse {
			return
		}
		if x == bTrue {
			if feasible(cube) {
				out = append(out, cube)
			}
			return
		}
		a := bAtom(x.v)
		walk(x.lo, and(cube, not(a)))
		walk(x.hi, and(cube, a))
	}
	walk(pc, bTrue)
	return out
}

// oneLiteral replaces a condition on two or three atoms by a single one that means the same where pc holds.
func oneLiteral(pc, c *Node) *Node {
	if c.v == nil || c.lo.v == nil && c.hi.v == nil {
		return c
	}
	s := c.support()
	if len(s) > 3 {
		return c
	}
	for _, a := range s {
		if a.op != "le0" && a.op != "eq0" {
			return c
		}
	}
	for _, a := range s {
		x := bAtom(a)
		for _, l := range []*Node{x, not(x)} {
			if !feasible(and(pc, and(c, not(l)))) && !feasible(and(pc, and(l, not(c)))) {
				return l
			}
		}
	}
	return c
}

func feasible0(pc *Node) bool {
	lits := pc.literals()
	f := pc.Facts()
	comp := groupFacts(f)
	for k, v := range lits {
		if k.op != "le0" && k.op != "eq0" {
			continue
		}
		// check the literal against the others that share an unknown with it
		rest := &Facts{}
		self := k.args[0]
		selfn := add(neg(self), num(1))
		in := comp(self)
		for i, p := range f.le {
			if in[i] && !(k.op == "le0" && (p == self || p == selfn)) {
				rest.le = append(rest.le, p)
			}
		}
		for i, p := range f.eq {
			if in[len(f.le)+i] && !(k.op == "eq0" && p == self) {
				rest.eq = append(rest.eq, p)
			}
		}
		for _, p := range f.ne {
			if !(k.op == "eq0" && p == self) {
				rest.ne = append(rest.ne, p)
			}
		}
		old := curFacts
		curFacts = rest
		d := 0
		if k.op == "le0" {
			d = decideLe0(k.args[0])
		} else {
			d = decideEq0(k.args[0])
		}
		curFacts = old
		if (d == 1 && !v) || (d == -1 && v) {
			return false
		}
	}
	return true
}

var unknownMemo = map[*T][]*T{}

// unknowns lists the symbols and reads a term is made of.
func unknowns(t *T) []*T {
	if r, ok := unknownMemo[t]; ok {
		return r
	}
	set := map[*T]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if r, ok := unknownMemo[t]; ok {
			for _, x := range r {
				set[x] = true
			}
			return
		}
		if len(t.args) == 0 && len(t.mon) == 0 {
			set[t] = true
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, m := range t.mon {
			for _, f := range m.f {
				walk(f.a)
			}
		}
	}
	walk(t)
	r := []*T{}
	for x := range set {
		if x.op != "lit" && x.op != "const" {
			r = append(r, x)
		}
	}
	sortTerms(r)
	unknownMemo[t] = r
	return r
}

// groupFacts tells which facts are connected with a term by shared unknowns.
func groupFacts(f *Facts) func(t *T) []bool {
	n := len(f.le) + len(f.eq)
	parent := map[*T]*T{}
	var find func(x *T) *T
	find = func(x *T) *T {
		p, ok := parent[x]
		if !ok {
			parent[x] = x
			return x
		}
		if p == x {
			return x
		}
		r := find(p)
		parent[x] = r
		return r
	}
	at := func(i int) *T {
		if i < len(f.le) {
			return f.le[i]
		}
		return f.eq[i-len(f.le)]
	}
	rep := make([]*T, n)
	for i := 0; i < n; i++ {
		us := unknowns(at(i))
		for _, u := range us {
			parent[find(u)] = find(us[0])
		}
		if len(us) > 0 {
			rep[i] = us[0]
		}
	}
	memo := map[*T][]bool{}
	return func(t *T) []bool {
		us := unknowns(t)
		var key *T
		if len(us) > 0 {
			key = find(us[0])
		}
		one := true
		for _, u := range us {
			one = one && find(u) == key
		}
		if one {
			if r, ok := memo[key]; ok {
				return r
			}
		}
		in := make([]bool, n)
		for i := range in {
			if rep[i] == nil {
				in[i] = true
				continue
			}
			for _, u := range us {
				in[i] = in[i] || find(rep[i]) == find(u)
			}
		}
		if one {
			memo[key] = in
		}
		return in
	}
}

// ---- substitution in conditions

func (s *subster) n(n *Node) *Node {
	if n.v == nil {
		return n
	}
	if r, ok := s.nmemo[n]; ok {
		return r
	}
	c := s.atom(n.v)
	r := ite(c, s.n(n.hi), s.n(n.lo))
	s.nmemo[n] = r
	return r
}

func (s *subster) atom(a *T) *Node {
	if !s.affects(a) {
		return bAtom(a)
	}
	switch a.op {
	case "le0":
		return le0(s.t(a.args[0]))
	case "eq0":
		return eq0(s.t(a.args[0]))
	case "oncurve":
		return onCurve(s.t(a.args[0]), s.t(a.args[1]))
	}
	r := s.t(a)
	return bAtom(r)
}

func substN(n *Node, m map[*T]*T) *Node { return newSubst(m).n(n) }

func (n *Node) String() string {
	if n == bTrue {
		return "true"
	}
	if n == bFalse {
		return "false"
	}
	var parts []string
	count := 0
	var walk func(n *Node, acc []string)
	walk = func(n *Node, acc []string) {
		if count > 8 {
			return
		}
		if n == bFalse {
			return
		}
		if n == bTrue {
			count++
			parts = append(parts, strings.Join(acc, " ∧ "))
			return
		}
		a := append([]string{}, acc...)
		walk(n.hi, append(a, n.v.String()))
		b := append([]string{}, acc...)
		walk(n.lo, append(b, "¬"+n.v.String()))
	}
	walk(n, nil)
	s := strings.Join(parts, " | ")
	if count > 8 {
		s += fmt.Sprintf(" | …#%d", n.id)
	}
	return fmt.Sprintf("{%s}", s)
}
