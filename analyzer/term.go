package main

// Hash-consed terms: integers in polynomial normal form, byte strings as concatenations, points as
// linear combinations over the integers modulo the order of the group.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type fac struct {
	a *T
	e int
}
type mon struct {
	c *big.Int
	f []fac
}

// T is a term. Two terms are equal iff they are the same pointer.
type T struct {
	id    int
	op    string
	name  string
	args  []*T
	mon   []mon
	nd    *Node
	sort  byte // 'i' int, 'b' bytes, 'p' point, 'o' other
	depth int  // nesting depth of binders inside
	vars  map[*T]bool
}

var (
	terms   = map[string]*T{}
	termSeq []*T
	symLo   = map[*T]*big.Int{}
	symHi   = map[*T]*big.Int{}
	big0    = big.NewInt(0)
	big1    = big.NewInt(1)
)

func hexInt(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return n
}

// The parameters of secp256k1 (trusted).
var (
	curveN  = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	curveP  = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	curveGx = hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	curveGy = hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")
)

func intern(key string, mk func() *T) *T {
	if t, ok := terms[key]; ok {
		return t
	}
	t := mk()
	t.id = len(termSeq)
	terms[key] = t
	termSeq = append(termSeq, t)
	t.vars = map[*T]bool{}
	add := func(a *T) {
		for v := range a.vars {
			t.vars[v] = true
		}
		if a.depth > t.depth {
			t.depth = a.depth
		}
	}
	for _, a := range t.args {
		add(a)
	}
	for _, m := range t.mon {
		for _, f := range m.f {
			add(f.a)
		}
	}
	if t.nd != nil {
		for _, a := range t.nd.support() {
			add(a)
		}
	}
	if t.op == "sym" && strings.HasPrefix(t.name, "κ") {
		t.vars[t] = true
	}
	switch t.op {
	case "sum", "prod", "rep", "fold", "all":
		t.depth++
		delete(t.vars, boundVar(t.depth))
	}
	return t
}

func mkTerm(op string, sort byte, name string, args ...*T) *T {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteByte(sort)
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte(1)
		sb.WriteString(strconv.Itoa(a.id))
	}
	return intern(sb.String(), func() *T { return &T{op: op, name: name, args: args, sort: sort} })
}

func sym(sort byte, name string, args ...*T) *T { return mkTerm("sym", sort, name, args...) }

func symRange(name string, lo, hi *big.Int, args ...*T) *T {
	t := sym('i', name, args...)
	symLo[t], symHi[t] = lo, hi
	return t
}

// boundVar is the canonical variable of a binder whose body has binder depth d-1.
func boundVar(d int) *T { return sym('i', "κ#"+strconv.Itoa(d)) }

// ---- polynomials

func isConst(t *T) (*big.Int, bool) {
	if t.op == "poly" {
		if len(t.mon) == 0 {
			return big0, true
		}
		if len(t.mon) == 1 && len(t.mon[0].f) == 0 {
			return t.mon[0].c, true
		}
	}
	return nil, false
}

func facKey(f []fac) string {
	var sb strings.Builder
	for _, x := range f {
		sb.WriteString(strconv.Itoa(x.a.id))
		sb.WriteByte('^')
		sb.WriteString(strconv.Itoa(x.e))
		sb.WriteByte('.')
	}
	return sb.String()
}

type polyB struct {
	m map[string]*mon
}

func newPolyB() *polyB { return &polyB{map[string]*mon{}} }

func (b *polyB) add(c *big.Int, f []fac) {
	if c.Sign() == 0 {
		return
	}
	k := facKey(f)
	if m, ok := b.m[k]; ok {
		m.c = new(big.Int).Add(m.c, c)
		return
	}
	b.m[k] = &mon{new(big.Int).Set(c), f}
}

func (b *polyB) addT(c *big.Int, t *T) {
	for _, m := range toMon(t) {
		b.add(new(big.Int).Mul(c, m.c), m.f)
	}
}

func (b *polyB) done(modulus *big.Int) *T {
	var ms []mon
	for _, m := range b.m {
		c := m.c
		if modulus != nil {
			c = new(big.Int).Mod(c, modulus)
			if new(big.Int).Lsh(c, 1).Cmp(modulus) > 0 {
				c = new(big.Int).Sub(c, modulus)
			}
		}
		if c.Sign() != 0 {
			ms = append(ms, mon{c, m.f})
		}
	}
	return fromMon(ms)
}

func toMon(t *T) []mon {
	if t.op == "poly" {
		return t.mon
	}
	return []mon{{big1, []fac{{t, 1}}}}
}

func fromMon(ms []mon) *T {
	if len(ms) == 1 && len(ms[0].f) == 1 && ms[0].f[0].e == 1 && ms[0].c.Cmp(big1) == 0 {
		return ms[0].f[0].a
	}
	keys := make([]string, len(ms))
	for i, m := range ms {
		keys[i] = facKey(m.f)
	}
	idx := make([]int, len(ms))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(i, j int) bool {
		a, b := keys[idx[i]], keys[idx[j]]
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	})
	out := make([]mon, len(ms))
	var sb strings.Builder
	sb.WriteString("poly\x00")
	so := byte('i')
	for i, j := range idx {
		out[i] = ms[j]
		sb.WriteString(ms[j].c.String())
		sb.WriteByte('*')
		sb.WriteString(keys[j])
		sb.WriteByte('+')
		for _, f := range ms[j].f {
			if f.a.sort == 'p' {
				so = 'p'
			}
		}
	}
	return intern(sb.String(), func() *T { return &T{op: "poly", mon: out, sort: so} })
}

func cst(n *big.Int) *T {
	if n.Sign() == 0 {
		return fromMon(nil)
	}
	return fromMon([]mon{{new(big.Int).Set(n), nil}})
}
func num(n int64) *T { return cst(big.NewInt(n)) }

func add(a, b *T) *T {
	p := newPolyB()
	p.addT(big1, a)
	p.addT(big1, b)
	return p.done(nil)
}
func sub(a, b *T) *T {
	if a == b {
		return num(0)
	}
	p := newPolyB()
	p.addT(big1, a)
	p.addT(big.NewInt(-1), b)
	return p.done(nil)
}
func neg(a *T) *T { return sub(num(0), a) }
func scale(c *big.Int, a *T) *T {
	p := newPolyB()
	p.addT(c, a)
	return p.done(nil)
}

func mulFac(a, b []fac) []fac {
	out := make([]fac, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || (i < len(a) && a[i].a.id < b[j].a.id):
			out = append(out, a[i])
			i++
		case i == len(a) || b[j].a.id < a[i].a.id:
			out = append(out, b[j])
			j++
		default:
			if e := a[i].e + b[j].e; e != 0 {
				out = append(out, fac{a[i].a, e})
			}
			i++
			j++
		}
	}
	return out
}

func mul(a, b *T) *T {
	p := newPolyB()
	for _, x := range toMon(a) {
		for _, y := range toMon(b) {
			p.add(new(big.Int).Mul(x.c, y.c), mulFac(x.f, y.f))
		}
	}
	return p.done(nil)
}

// ---- arithmetic modulo a constant

var redMemo = map[string]*T{}

// red normalises t modulo the constant m: inner reductions modulo m disappear, inverses modulo m become powers.
func red(t *T, m *big.Int) *T {
	key := strconv.Itoa(t.id) + "%" + m.String()
	if r, ok := redMemo[key]; ok {
		return r
	}
	p := newPolyB()
	for _, mn := range toMon(t) {
		r := cst(mn.c)
		for _, f := range mn.f {
			a := redAtom(f.a, m)
			if f.e < 0 {
				a = invMod(a, m)
			}
			e := f.e
			if e < 0 {
				e = -e
			}
			for i := 0; i < e; i++ {
				r = mul(r, a)
			}
		}
		p.addT(big1, r)
	}
	r := p.done(m)
	redMemo[key] = r
	return r
}

func redAtom(a *T, m *big.Int) *T {
	switch a.op {
	case "mod":
		if c, ok := isConst(a.args[1]); ok && c.Cmp(m) == 0 {
			return red(a.args[0], m)
		}
	case "inv":
		if c, ok := isConst(a.args[1]); ok && c.Cmp(m) == 0 {
			return invMod(red(a.args[0], m), m)
		}
	case "sum":
		return mkSumCanon(a.args[0], a.args[1], a.depth, func(b *T) *T { return red(b, m) })
	case "prod":
		return mkProdCanon(a.args[0], a.args[1], a.depth, func(b *T) *T { return red(b, m) })
	case "abs":
		return a
	}
	return a
}

// invMod inverts a normalised term modulo a prime m, as negative powers where it is a monomial.
func invMod(t *T, m *big.Int) *T {
	if c, ok := isConst(t); ok {
		n := new(big.Int).ModInverse(c, m)
		if n == nil {
			return mkTerm("inv", 'i', "", t, cst(m))
		}
		return cst(n)
	}
	ms := toMon(t)
	if len(ms) == 1 {
		c := new(big.Int).ModInverse(ms[0].c, m)
		if c != nil {
			f := make([]fac, len(ms[0].f))
			for i, x := range ms[0].f {
				f[i] = fac{x.a, -x.e}
			}
			p := newPolyB()
			p.add(c, f)
			return p.done(m)
		}
	}
	// make the leading coefficient one
	lc := ms[0].c
	c := new(big.Int).ModInverse(lc, m)
	if c == nil {
		return mkTerm("inv", 'i', "", t, cst(m))
	}
	p := newPolyB()
	p.addT(c, t)
	n := p.done(m)
	// an inverted sum becomes an opaque atom with exponent -1
	at := mkTerm("grp", 'i', "", n)
	q := newPolyB()
	q.add(c, []fac{{at, -1}})
	return q.done(m)
}

func redN(t *T) *T { return red(t, curveN) }

// mod is Euclidean reduction.
func mod(x, m *T) *T {
	mc, mok := isConst(m)
	if xc, ok := isConst(x); ok && mok && mc.Sign() != 0 {
		return cst(new(big.Int).Mod(xc, mc))
	}
	if mok && mc.Sign() > 0 {
		lo, hi := bounds(x)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(mc) < 0 {
			return x
		}
		r := red(x, mc)
		if rc, ok := isConst(r); ok {
			return cst(new(big.Int).Mod(rc, mc))
		}
		if r.op == "mod" && r.args[1] == m {
			return r
		}
		lo, hi = bounds(r)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(mc) < 0 {
			return r
		}
		return mkTerm("mod", 'i', "", r, m)
	}
	if decideLe0(neg(x)) == 1 && decideLe0(add(sub(x, m), num(1))) == 1 {
		return x
	}
	return mkTerm("mod", 'i', "", x, m)
}

func inverse(x, m *T) *T {
	if mc, ok := isConst(m); ok && mc.Sign() > 0 {
		r := red(x, mc)
		if c, ok := isConst(r); ok {
			if n := new(big.Int).ModInverse(c, mc); n != nil {
				return cst(n)
			}
		}
		return mkTerm("inv", 'i', "", r, m)
	}
	return mkTerm("inv", 'i', "", x, m)
}

func absT(x *T) *T {
	if c, ok := isConst(x); ok {
		return cst(new(big.Int).Abs(c))
	}
	lo, hi := bounds(x)
	if lo != nil && lo.Sign() >= 0 {
		return x
	}
	if hi != nil && hi.Sign() <= 0 {
		return neg(x)
	}
	return mkTerm("abs", 'i', "", x)
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big1, uint(n)) }

func typeRange(bits int, signed bool) (*big.Int, *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), big1)
	}
	return big0, new(big.Int).Sub(pow2(bits), big1)
}

func wrapInt(x *T, bits int, signed bool) *T {
	lo, hi := typeRange(bits, signed)
	if c, ok := isConst(x); ok {
		r := new(big.Int).Mod(c, pow2(bits))
		if signed && r.Cmp(hi) > 0 {
			r.Sub(r, pow2(bits))
		}
		return cst(r)
	}
	l, h := bounds(x)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return x
	}
	if len(toMon(x)) > 1 && (l != nil && l.Cmp(lo) >= 0 || decideLe0(sub(cst(lo), x)) == 1) && decideLe0(sub(x, cst(hi))) == 1 {
		return x
	}
	if _, r := splitMul(x, pow2(bits)); r != x {
		return wrapInt(r, bits, signed)
	}
	sg := "u"
	if signed {
		sg = "s"
	}
	if x.op == "wrap" { // only the low bits matter
		var b2 int
		fmt.Sscanf(x.name[1:], "%d", &b2)
		if b2 >= bits {
			return wrapInt(x.args[0], bits, signed)
		}
	}
	return mkTerm("wrap", 'i', sg+strconv.Itoa(bits), x)
}

func quo(x, y *T) *T {
	xc, ok1 := isConst(x)
	yc, ok2 := isConst(y)
	if ok1 && ok2 && yc.Sign() != 0 {
		return cst(new(big.Int).Quo(xc, yc))
	}
	if ok2 && yc.Cmp(big1) == 0 {
		return x
	}
	if ok2 && yc.Sign() > 0 {
		if l, _ := bounds(x); l != nil && l.Sign() >= 0 {
			q, r := splitMul(x, yc)
			if lo, hi := bounds(r); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(yc) < 0 {
				return q
			}
		}
	}
	return mkTerm("quo", 'i', "", x, y)
}

// splitMul writes x as q*m + r, with the multiples of m among the terms of x in q.
func splitMul(x *T, m *big.Int) (q, r *T) {
	qb, rb := newPolyB(), newPolyB()
	for _, t := range toMon(x) {
		if d, z := new(big.Int).QuoRem(t.c, m, new(big.Int)); z.Sign() == 0 {
			qb.add(d, t.f)
		} else {
			rb.add(t.c, t.f)
		}
	}
	return qb.done(nil), rb.done(nil)
}

// ---- points

func ptAdd(a, b *T) *T { return redN(add(a, b)) }
func ptMul(k, a *T) *T {
	return redN(mul(redN(k), a))
}

// ptCanon returns a canonical representative of the line through t (for t = 0 tests), and its sign.
func ptCanon(t *T) *T {
	ms := toMon(t)
	if len(ms) == 0 {
		return t
	}
	c := new(big.Int).ModInverse(ms[0].c, curveN)
	if c == nil {
		return t
	}
	p := newPolyB()
	p.addT(c, t)
	return p.done(curveN)
}

func coordX(p *T) *T {
	c, _ := signCanon(p)
	t := mkTerm("X", 'i', "", c)
	return t
}
func coordY(p *T) *T {
	c, s := signCanon(p)
	t := mkTerm("Y", 'i', "", c)
	if s {
		return sub(cst(curveP), t)
	}
	return t
}

func signCanon(p *T) (*T, bool) {
	ms := toMon(p)
	if len(ms) > 0 && ms[0].c.Sign() < 0 {
		return redN(neg(p)), true
	}
	return p, false
}

var ptG = sym('p', "G")

// asPoint recognises affine coordinates of a known point.
func asPoint(x, y *T) *T {
	if xc, ok := isConst(x); ok {
		if yc, ok := isConst(y); ok && xc.Cmp(curveGx) == 0 {
			if yc.Cmp(curveGy) == 0 {
				return ptG
			}
			if new(big.Int).Sub(curveP, curveGy).Cmp(yc) == 0 {
				return redN(neg(ptG))
			}
		}
		return nil
	}
	if x.op != "X" {
		return nil
	}
	p := x.args[0]
	y2 := y
	if y.op == "mod" { // P - y reduced modulo P
		y2 = y.args[0]
	}
	if y == coordY(p) {
		return p
	}
	n := redN(neg(p))
	if y == coordY(n) || (y.op == "mod" && red(coordY(n), curveP) == red(y2, curveP)) {
		return n
	}
	return nil
}

// ---- sums, products, repetitions over a bounded index

func substT(t *T, m map[*T]*T) *T { return newSubst(m).t(t) }

type subster struct {
	m     map[*T]*T
	memo  map[*T]*T
	nmemo map[*Node]*Node
	all   bool // substitute syms that are not loop variables too
}

func (s *subster) affects(t *T) bool {
	if s.all {
		return true
	}
	for v := range s.m {
		if t.vars[v] {
			return true
		}
	}
	return false
}

func newSubst(m map[*T]*T) *subster {
	s := &subster{m: m, memo: map[*T]*T{}, nmemo: map[*Node]*Node{}}
	for k := range m {
		if !(k.op == "sym" && strings.HasPrefix(k.name, "κ")) {
			s.all = true
		}
	}
	return s
}

func (s *subster) t(t *T) *T {
	if t == nil {
		return nil
	}
	if r, ok := s.m[t]; ok {
		return r
	}
	if !s.affects(t) {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	r := s.t1(t)
	s.memo[t] = r
	return r
}

func (s *subster) t1(t *T) *T {
	if t.op == "poly" {
		var r *T = num(0)
		for _, mn := range t.mon {
			x := cst(mn.c)
			for _, f := range mn.f {
				a := s.t(f.a)
				e := f.e
				if e < 0 {
					a = invMod(a, curveN)
					e = -e
				}
				for i := 0; i < e; i++ {
					x = mul(x, a)
				}
			}
			r = add(r, x)
		}
		if t.sort == 'p' {
			r = redN(r)
		}
		return r
	}
	switch t.op {
	case "sum", "prod", "rep", "fold", "all":
		// rename the bound variable to a fresh one, substitute, rebuild
		fv := freshKappa()
		body := substT(t.args[1], map[*T]*T{boundVar(t.depth): fv})
		n := s.t(t.args[0])
		b2 := s.t(body)
		switch t.op {
		case "sum":
			return mkSum(fv, n, b2)
		case "prod":
			return mkProd(fv, n, b2)
		case "rep":
			return mkRep(fv, n, b2)
		case "fold":
			return mkBinder("fold", t.sort, t.name, fv, n, b2, s.t(t.args[2]))
		}
		return mkBinder("all", t.sort, t.name, fv, n, b2)
	}
	args := make([]*T, len(t.args))
	for i, a := range t.args {
		args[i] = s.t(a)
	}
	var nd *Node
	if t.nd != nil {
		nd = s.n(t.nd)
	}
	return rebuild(t, args, nd)
}

var kappaCount = 0

func freshKappa() *T {
	kappaCount++
	return symRange("κ"+strconv.Itoa(kappaCount), big0, pow2(40))
}

func rebuild(t *T, args []*T, nd *Node) *T {
	switch t.op {
	case "mod":
		return mod(args[0], args[1])
	case "inv":
		return inverse(args[0], args[1])
	case "grp":
		return args[0]
	case "abs":
		return absT(args[0])
	case "wrap":
		var b int
		fmt.Sscanf(t.name[1:], "%d", &b)
		return wrapInt(args[0], b, t.name[0] == 's')
	case "quo":
		return quo(args[0], args[1])
	case "pow":
		return powT(args[0], args[1])
	case "frombytes":
		return fromBytes(args[0])
	case "big":
		return bigBytes(args[0])
	case "fill":
		return fillBytes(args[0], args[1])
	case "cat":
		return cat(args...)
	case "slice":
		return sliceB(args[0], args[1], args[2])
	case "zero":
		return zeroB(args[0])
	case "enc":
		return encP(args[0])
	case "int":
		return encInt(t.name, args[0])
	case "dec":
		return decInt(t.name, args[0])
	case "len":
		return lenB(args[0])
	case "BL":
		return byteLen(args[0])
	case "X":
		return coordX(args[0])
	case "Y":
		return coordY(args[0])
	case "le0":
		panic("bool term outside a condition")
	case "ind":
		return indicator(nd)
	}
	if nd != nil {
		return mkNodeTerm(t.op, t.sort, t.name, nd, args...)
	}
	r := mkTerm(t.op, t.sort, t.name, args...)
	if t.op == "sym" {
		if _, ok := symLo[r]; !ok {
			if lo, ok := symLo[t]; ok {
				symLo[r], symHi[r] = lo, symHi[t]
			}
		}
	}
	return r
}

func mkNodeTerm(op string, sort byte, name string, nd *Node, args ...*T) *T {
	var sb strings.Builder
	sb.WriteString(op + "\x02" + string(sort) + name + "\x03" + strconv.Itoa(nd.id))
	for _, a := range args {
		sb.WriteByte(1)
		sb.WriteString(strconv.Itoa(a.id))
	}
	return intern(sb.String(), func() *T { return &T{op: op, name: name, args: args, sort: sort, nd: nd} })
}

// indicator is 1 where the condition holds, else 0.
func indicator(nd *Node) *T {
	if nd == bTrue {
		return num(1)
	}
	if nd == bFalse {
		return num(0)
	}
	return mkNodeTerm("ind", 'i', "", nd)
}

// mkBinder binds v in body.
func mkBinder(op string, sort byte, name string, v, n, body *T, extra ...*T) *T {
	d := body.depth + 1
	for _, e := range extra {
		if e.depth+1 > d {
			d = e.depth + 1
		}
	}
	// the bound variable's level must exceed every level inside; renaming may change nothing else
	b := substT(body, map[*T]*T{v: boundVar(d)})
	for b.depth+1 != d {
		d = b.depth + 1
		b = substT(body, map[*T]*T{v: boundVar(d)})
	}
	args := append([]*T{n, b}, extra...)
	return mkTerm(op, sort, name, args...)
}

func freeIn(v, t *T) bool { return t.vars[v] }

// mkSum is the sum of body over 0 <= v < n.
func mkSum(v, n, body *T) *T {
	if c, ok := isConst(n); ok && c.IsInt64() && c.Int64() <= 4 {
		r := num(0)
		for i := int64(0); i < c.Int64(); i++ {
			r = add(r, substT(body, map[*T]*T{v: num(i)}))
		}
		return r
	}
	res := num(0)
	for _, m := range toMon(body) {
		var in, out []fac
		for _, f := range m.f {
			if freeIn(v, f.a) {
				in = append(in, f)
			} else {
				out = append(out, f)
			}
		}
		coef := fromMon([]mon{{m.c, out}})
		if len(in) == 0 {
			res = add(res, mul(coef, n))
			continue
		}
		inner := fromMon([]mon{{big1, in}})
		res = add(res, mul(coef, mkBinder("sum", inner.sort, "", v, n, inner)))
	}
	return res
}

func mkSumCanon(n, body *T, depth int, f func(*T) *T) *T {
	fv := freshKappa()
	b := substT(body, map[*T]*T{boundVar(depth): fv})
	return mkSum(fv, n, f(b))
}

// mkProd is the product of body over 0 <= v < n.
func mkProd(v, n, body *T) *T {
	if c, ok := isConst(n); ok && c.IsInt64() && c.Int64() <= 4 {
		r := num(1)
		for i := int64(0); i < c.Int64(); i++ {
			r = mul(r, substT(body, map[*T]*T{v: num(i)}))
		}
		return r
	}
	ms := toMon(body)
	if len(ms) == 1 {
		if ms[0].c.Cmp(big1) == 0 && len(ms[0].f) > 1 {
			r := num(1)
			for _, f := range ms[0].f {
				r = mul(r, mkProd(v, n, fromMon([]mon{{big1, []fac{f}}})))
			}
			return r
		}
	}
	return mkBinder("prod", 'i', "", v, n, body)
}

func mkProdCanon(n, body *T, depth int, f func(*T) *T) *T {
	fv := freshKappa()
	b := substT(body, map[*T]*T{boundVar(depth): fv})
	return mkProd(fv, n, f(b))
}

// powT is integer exponentiation x^k for k >= 0.
func powT(x, k *T) *T {
	if c, ok := isConst(k); ok && c.IsInt64() && c.Int64() >= 0 && c.Int64() <= 16 {
		r := num(1)
		for i := int64(0); i < c.Int64(); i++ {
			r = mul(r, x)
		}
		return r
	}
	return mkTerm("pow", 'i', "", x, k)
}

// ---- byte strings

var emptyB = mkTerm("lit", 'b', "")

func lit(s string) *T { return mkTerm("lit", 'b', s) }

func lenB(b *T) *T {
	switch b.op {
	case "lit":
		return num(int64(len(b.name)))
	case "cat":
		r := num(0)
		for _, a := range b.args {
			r = add(r, lenB(a))
		}
		return r
	case "int":
		w, _ := strconv.Atoi(b.name[1:])
		return num(int64(w))
	case "big":
		return byteLen(b.args[0])
	case "fill":
		return b.args[1]
	case "zero":
		return b.args[0]
	case "slice":
		return sub(b.args[2], b.args[1])
	case "hash":
		n, _ := strconv.Atoi(b.name[strings.LastIndex(b.name, ":")+1:])
		return num(int64(n))
	case "kdf":
		return b.args[0]
	case "rd":
		return b.args[0]
	case "rep":
		return mkSumCanon(b.args[0], b.args[1], b.depth, lenB)
	}
	return mkTerm("len", 'i', "", b)
}

func byteLen(x *T) *T {
	if c, ok := isConst(x); ok {
		return num(int64((c.BitLen() + 7) / 8))
	}
	return mkTerm("BL", 'i', "", x)
}

func bigBytes(x *T) *T {
	if c, ok := isConst(x); ok {
		return lit(string(c.Bytes()))
	}
	return mkTerm("big", 'b', "", absT(x))
}

func fillBytes(x, n *T) *T {
	if c, ok := isConst(x); ok {
		if k, ok := isConst(n); ok && k.IsInt64() && k.Int64() < 4096 && int64((c.BitLen()+7)/8) <= k.Int64() {
			return lit(string(c.FillBytes(make([]byte, k.Int64()))))
		}
	}
	return mkTerm("fill", 'b', "", absT(x), n)
}

func zeroB(n *T) *T {
	if c, ok := isConst(n); ok && c.IsInt64() && c.Int64() >= 0 && c.Int64() <= 1<<12 {
		return lit(string(make([]byte, c.Int64())))
	}
	return mkTerm("zero", 'b', "", n)
}

func encP(p *T) *T { return mkTerm("enc", 'b', "", p) }

func fromBytes(b *T) *T {
	switch b.op {
	case "lit":
		return cst(new(big.Int).SetBytes([]byte(b.name)))
	case "big", "fill":
		return b.args[0]
	case "zero":
		return num(0)
	case "int":
		if b.name[0] == 'B' {
			return b.args[0]
		}
	case "cat":
		if b.args[0].op == "zero" || (b.args[0].op == "lit" && strings.Trim(b.args[0].name, "\x00") == "") {
			return fromBytes(cat(b.args[1:]...))
		}
	}
	return mkTerm("frombytes", 'i', "", b)
}

// encInt is the fixed-width encoding of x; kind is e.g. "B4" (big-endian, 4 bytes) or "L8".
func encInt(kind string, x *T) *T {
	w, _ := strconv.Atoi(kind[1:])
	x = wrapInt(x, 8*w, false)
	if c, ok := isConst(x); ok {
		buf := c.FillBytes(make([]byte, w))
		if kind[0] == 'L' {
			for i, j := 0, w-1; i < j; i, j = i+1, j-1 {
				buf[i], buf[j] = buf[j], buf[i]
			}
		}
		return lit(string(buf))
	}
	if x.op == "dec" && x.name == kind && x.args[0].op != "cat" {
		return x.args[0]
	}
	if x.op == "wrap" && x.name == "u"+strconv.Itoa(8*w) && x.args[0].op == "wrap" {
		return mkTerm("int", 'b', kind, x)
	}
	return mkTerm("int", 'b', kind, x)
}

func decInt(kind string, b *T) *T {
	if b.op == "int" && b.name == kind {
		return b.args[0]
	}
	if b.op == "lit" {
		w, _ := strconv.Atoi(kind[1:])
		if len(b.name) >= w {
			buf := []byte(b.name[:w])
			if kind[0] == 'L' {
				for i, j := 0, w-1; i < j; i, j = i+1, j-1 {
					buf[i], buf[j] = buf[j], buf[i]
				}
			}
			return cst(new(big.Int).SetBytes(buf))
		}
	}
	if b.op == "zero" {
		return num(0)
	}
	if b.op == "cat" {
		// numbers side by side are digits of one number
		w, _ := strconv.Atoi(kind[1:])
		x, n := num(0), 0
		for _, p := range b.args {
			l, ok := isConst(lenB(p))
			if !ok || !l.IsInt64() || n+int(l.Int64()) > w {
				n = -1
				break
			}
			k := int(l.Int64())
			d := decInt(fmt.Sprintf("%c%d", kind[0], k), p)
			if kind[0] == 'L' {
				x = add(x, scale(pow2(8*n), d))
			} else {
				x = add(scale(pow2(8*k), x), d)
			}
			n += k
		}
		if n == w {
			return x
		}
	}
	return mkTerm("dec", 'i', kind, b)
}

func cat(parts ...*T) *T {
	var out []*T
	var push func(p *T)
	push = func(p *T) {
		if p.op == "cat" {
			for _, a := range p.args {
				push(a)
			}
			return
		}
		if p == emptyB {
			return
		}
		if c, ok := isConst(lenB(p)); ok && c.Sign() == 0 {
			return
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			if l.op == "lit" && p.op == "lit" {
				out[len(out)-1] = lit(l.name + p.name)
				return
			}
			if l.op == "slice" && p.op == "slice" && l.args[0] == p.args[0] && l.args[2] == p.args[1] {
				out = out[:len(out)-1]
				push(sliceB(l.args[0], l.args[1], p.args[2]))
				return
			}
			if l.op == "zero" && p.op == "zero" {
				out[len(out)-1] = zeroB(add(l.args[0], p.args[0]))
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		push(p)
	}
	if len(out) == 0 {
		return emptyB
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkTerm("cat", 'b', "", out...)
}

// sliceB is b[lo:hi].
func sliceB(b, lo, hi *T) *T {
	n := lenB(b)
	if lo == hi {
		return emptyB
	}
	if c, ok := isConst(lo); ok && c.Sign() == 0 && hi == n {
		return b
	}
	switch b.op {
	case "slice":
		return sliceB(b.args[0], add(b.args[1], lo), add(b.args[1], hi))
	case "zero":
		return zeroB(sub(hi, lo))
	case "lit":
		if l, ok := isConst(lo); ok {
			if h, ok := isConst(hi); ok && l.Sign() >= 0 && h.IsInt64() && l.Cmp(h) <= 0 && h.Int64() <= int64(len(b.name)) {
				return lit(b.name[l.Int64():h.Int64()])
			}
		}
	case "cat":
		// drop whole segments in front of lo, and behind hi
		pos := num(0)
		var res []*T
		started := false
		for _, a := range b.args {
			end := add(pos, lenB(a))
			if !started {
				if r := decideLe0(sub(end, lo)); r == 1 { // end <= lo
					pos = end
					continue
				} else if r == 0 && end != lo { // unknown
					if decideLe0(sub(lo, pos)) != 1 && !(decideLe0(sub(lo, end)) == 1) {
						return mkTerm("slice", 'b', "", b, lo, hi)
					}
				}
				if end == lo {
					pos = end
					continue
				}
			}
			l := pos
			if !started {
				l = lo
				started = true
				if decideLe0(sub(pos, lo)) != 1 {
					return mkTerm("slice", 'b', "", b, lo, hi)
				}
			}
			// segment part [l, min(end,hi))
			if end == hi || decideLe0(sub(end, hi)) == 1 {
				res = append(res, sliceB(a, sub(l, pos), lenB(a)))
				if end == hi {
					return cat(res...)
				}
			} else if decideLe0(sub(hi, end)) == 1 {
				res = append(res, sliceB(a, sub(l, pos), sub(hi, pos)))
				return cat(res...)
			} else {
				return mkTerm("slice", 'b', "", b, lo, hi)
			}
			pos = end
		}
		return mkTerm("slice", 'b', "", b, lo, hi)
	}
	return mkTerm("slice", 'b', "", b, lo, hi)
}

// mkRep is the concatenation of body over 0 <= v < n.
func mkRep(v, n, body *T) *T {
	if body == emptyB {
		return emptyB
	}
	if c, ok := isConst(n); ok && c.IsInt64() && c.Int64() <= 4 {
		var ps []*T
		for i := int64(0); i < c.Int64(); i++ {
			ps = append(ps, substT(body, map[*T]*T{v: num(i)}))
		}
		return cat(ps...)
	}
	return mkBinder("rep", 'b', "", v, n, body)
}

// ---- printing

func (t *T) String() string { return t.str(0) }

func (t *T) str(d int) string {
	if d > 12 {
		return "…"
	}
	if t.op == "poly" {
		if len(t.mon) == 0 {
			return "0"
		}
		var sb strings.Builder
		for i, m := range t.mon {
			if i > 0 {
				sb.WriteString(" + ")
			}
			if len(m.f) == 0 {
				sb.WriteString(cstr(m.c))
				continue
			}
			if m.c.Cmp(big1) != 0 {
				sb.WriteString(cstr(m.c) + "·")
			}
			for j, f := range m.f {
				if j > 0 {
					sb.WriteString("·")
				}
				sb.WriteString(f.a.str(d + 1))
				if f.e != 1 {
					fmt.Fprintf(&sb, "^%d", f.e)
				}
			}
		}
		if len(t.mon) > 1 && d > 0 {
			return "(" + sb.String() + ")"
		}
		return sb.String()
	}
	if t.op == "sym" && len(t.args) == 0 {
		return t.name
	}
	if t.op == "lit" {
		return fmt.Sprintf("%q", t.name)
	}
	var as []string
	if t.nd != nil {
		as = append(as, t.nd.String())
	}
	for _, a := range t.args {
		as = append(as, a.str(d+1))
	}
	n := t.op
	if t.op == "sym" {
		return t.name + "[" + strings.Join(as, ",") + "]"
	}
	if t.name != "" {
		n += ":" + t.name
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}

func cstr(c *big.Int) string {
	if c.Cmp(curveN) == 0 {
		return "N"
	}
	if c.Cmp(curveP) == 0 {
		return "P"
	}
	if new(big.Int).Add(c, big1).Cmp(curveN) == 0 {
		return "(N-1)"
	}
	return c.String()
}

// ---- bounds

type Facts struct {
	le []*T // p <= 0
	eq []*T // p = 0
	ne []*T // p != 0
}

var noFacts = &Facts{}
var curFacts = noFacts

type bkey struct {
	t *T
	f *Facts
	d int
}

var hiMemo = map[bkey]*big.Int{}

func bounds(t *T) (lo, hi *big.Int) {
	h := upper(t, 2)
	l := upper(neg(t), 2)
	if l != nil {
		l = new(big.Int).Neg(l)
	}
	return l, h
}

// upper is an upper bound of t under the current facts, or nil.
func upper(t *T, depth int) *big.Int {
	if c, ok := isConst(t); ok {
		return c
	}
	k := bkey{t, curFacts, depth}
	if r, ok := hiMemo[k]; ok {
		return r
	}
	hiMemo[k] = nil
	best := upperBase(t)
	if depth > 0 {
		ms := t.mon2()
		keys := make([]string, len(ms))
		for i, m := range ms {
			keys[i] = facKey(m.f)
		}
		try := func(p *T) {
			idx := coefIdx(p)
			for i, m := range ms {
				if len(m.f) == 0 {
					continue
				}
				c := idx[keys[i]]
				if c == nil || c.Sign() != m.c.Sign() {
					continue
				}
				l, r := new(big.Int).QuoRem(m.c, c, new(big.Int))
				if r.Sign() != 0 || l.Sign() <= 0 {
					continue
				}
				var u *big.Int
				if depth == 1 {
					u = upperDiff(ms, keys, l, p, idx)
				} else {
					u = upper(sub(t, scale(l, p)), depth-1)
				}
				if u != nil && (best == nil || u.Cmp(best) < 0) {
					best = u
				}
			}
		}
		for _, p := range curFacts.le {
			try(p)
		}
		for _, p := range curFacts.eq {
			try(p)
			try(neg(p))
		}
	}
	hiMemo[k] = best
	return best
}

var coefMemo = map[*T]map[string]*big.Int{}

// coefIdx lists the coefficients of a polynomial by monomial.
func coefIdx(p *T) map[string]*big.Int {
	if r, ok := coefMemo[p]; ok {
		return r
	}
	r := map[string]*big.Int{}
	for _, m := range toMon(p) {
		r[facKey(m.f)] = m.c
	}
	coefMemo[p] = r
	return r
}

func (t *T) mon2() []mon { return toMon(t) }

func coefOf(p *T, f []fac) *big.Int {
	k := facKey(f)
	for _, m := range toMon(p) {
		if facKey(m.f) == k {
			return m.c
		}
	}
	return nil
}

// monUpper bounds c times a product from above.
func monUpper(c *big.Int, fs []fac) *big.Int {
	lo, hi := big1, big1
	for _, f := range fs {
		if f.e < 0 {
			return nil
		}
		l, h := atomBounds(f.a)
		for i := 0; i < f.e; i++ {
			lo, hi = imul(lo, hi, l, h)
		}
	}
	u := lo
	if c.Sign() > 0 {
		u = hi
	}
	if u == nil {
		return nil
	}
	return new(big.Int).Mul(c, u)
}

// upperDiff is upperBase(t - l·p) for a t with the given monomials.
func upperDiff(ms []mon, keys []string, l *big.Int, p *T, idx map[string]*big.Int) *big.Int {
	sum := new(big.Int)
	both := 0
	for i, m := range ms {
		c := m.c
		if o := idx[keys[i]]; o != nil {
			both++
			c = new(big.Int).Sub(c, new(big.Int).Mul(l, o))
			if c.Sign() == 0 {
				continue
			}
		}
		u := monUpper(c, m.f)
		if u == nil {
			return nil
		}
		sum.Add(sum, u)
	}
	if both == len(idx) {
		return sum
	}
	in := map[string]bool{}
	for _, k := range keys {
		in[k] = true
	}
	for _, m := range toMon(p) {
		if in[facKey(m.f)] {
			continue
		}
		u := monUpper(new(big.Int).Neg(new(big.Int).Mul(l, m.c)), m.f)
		if u == nil {
			return nil
		}
		sum.Add(sum, u)
	}
	return sum
}

func upperBase(t *T) *big.Int {
	sum := new(big.Int)
	for _, m := range toMon(t) {
		u := monUpper(m.c, m.f)
		if u == nil {
			return nil
		}
		sum.Add(sum, u)
	}
	return sum
}

func imul(a, b, c, d *big.Int) (lo, hi *big.Int) {
	if a != nil && b != nil && c != nil && d != nil {
		for _, x := range []*big.Int{a, b} {
			for _, y := range []*big.Int{c, d} {
				p := new(big.Int).Mul(x, y)
				if lo == nil || p.Cmp(lo) < 0 {
					lo = p
				}
				if hi == nil || p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
		return
	}
	if a != nil && c != nil && a.Sign() >= 0 && c.Sign() >= 0 {
		return new(big.Int).Mul(a, c), nil
	}
	return nil, nil
}

type abKey struct {
	t *T
	f *Facts
}

var abMemo = map[abKey][2]*big.Int{}
var abBusy = map[abKey]bool{}

// atomBounds bounds an atom, using single facts about it.
func atomBounds(a *T) (*big.Int, *big.Int) {
	k := abKey{a, curFacts}
	if r, ok := abMemo[k]; ok {
		return r[0], r[1]
	}
	if abBusy[k] {
		return atomBounds0(a)
	}
	abBusy[k] = true
	lo, hi := atomBounds0(a)
	use := func(p *T) {
		if len(toMon(p)) > 2 {
			return
		}
		c := coefOf(p, []fac{{a, 1}})
		if c == nil || c.CmpAbs(big1) != 0 {
			return
		}
		rest := sub(p, scale(c, a))
		// c*a + rest <= 0
		rc, ok := isConst(rest)
		if !ok {
			return
		}
		if c.Sign() > 0 {
			u := new(big.Int).Neg(rc)
			if hi == nil || u.Cmp(hi) < 0 {
				hi = u
			}
		} else if lo == nil || rc.Cmp(lo) > 0 {
			lo = rc
		}
	}
	for _, p := range curFacts.le {
		use(p)
	}
	for _, p := range curFacts.eq {
		use(p)
		use(neg(p))
	}
	for _, p := range curFacts.ne {
		if p == a && lo != nil && lo.Sign() == 0 {
			lo = big1
		}
	}
	delete(abBusy, k)
	abMemo[k] = [2]*big.Int{lo, hi}
	return lo, hi
}

func atomBounds0(a *T) (*big.Int, *big.Int) {
	switch a.op {
	case "sym":
		return symLo[a], symHi[a]
	case "mod":
		_, h := bounds(a.args[1])
		if h != nil {
			h = new(big.Int).Sub(h, big1)
		}
		return big0, h
	case "inv":
		_, h := bounds(a.args[1])
		return big0, h
	case "len":
		if lo, ok := symLo[a]; ok {
			return lo, symHi[a]
		}
		if a.args[0].op == "enc" {
			return big.NewInt(4), big.NewInt(72)
		}
		if a.args[0].op == "encprf" {
			return big1, big.NewInt(4096)
		}
		if h := symHi[a]; h != nil {
			return big0, h
		}
		return big0, pow2(40)
	case "BL":
		l, h := bounds(a.args[0])
		lo := big0
		if l != nil && l.Sign() > 0 {
			lo = big.NewInt(int64((l.BitLen() + 7) / 8))
		}
		if h != nil && h.Sign() >= 0 {
			return lo, big.NewInt(int64((h.BitLen() + 7) / 8))
		}
		return lo, pow2(40)
	case "frombytes":
		_, h := bounds(lenB(a.args[0]))
		if h != nil && h.IsInt64() && h.Int64() >= 0 && h.Int64() <= 1<<16 {
			return big0, new(big.Int).Sub(pow2(int(h.Int64())*8), big1)
		}
		return big0, nil
	case "dec":
		w, _ := strconv.Atoi(a.name[1:])
		return big0, new(big.Int).Sub(pow2(8*w), big1)
	case "wrap":
		var b int
		fmt.Sscanf(a.name[1:], "%d", &b)
		return typeRange(b, a.name[0] == 's')
	case "X", "Y":
		return big1, new(big.Int).Sub(curveP, big1)
	case "abs":
		return big0, nil
	case "byte":
		return big0, big.NewInt(255)
	case "ind":
		return big0, big1
	case "pow":
		l, _ := bounds(a.args[0])
		if l != nil && l.Sign() >= 0 {
			return big0, nil
		}
	case "quo":
		l, h := bounds(a.args[0])
		yl, _ := bounds(a.args[1])
		if l != nil && l.Sign() >= 0 && yl != nil && yl.Sign() > 0 {
			return big0, h
		}
	case "and":
		// bitwise and with a non-negative operand
		for _, x := range a.args {
			l, h := bounds(x)
			if l != nil && l.Sign() >= 0 && h != nil {
				return big0, h
			}
		}
	case "sum":
		fv := freshKappa()
		b := substT(a.args[1], map[*T]*T{boundVar(a.depth): fv})
		l, h := bounds(b)
		_, nh := bounds(a.args[0])
		var lo, hi *big.Int
		if l != nil && l.Sign() >= 0 {
			lo = big0
			if h != nil && nh != nil {
				hi = new(big.Int).Mul(h, nh)
				if hi.Sign() < 0 {
					hi = big0
				}
			}
		}
		return lo, hi
	case "max":
		l1, h1 := bounds(a.args[0])
		l2, h2 := bounds(a.args[1])
		lo := l1
		if lo == nil || (l2 != nil && l2.Cmp(lo) > 0) {
			lo = l2
		}
		var hi *big.Int
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(hi) > 0 {
				hi = h2
			}
		}
		return lo, hi
	}
	return symLo[a], symHi[a]
}

// decideLe0: 1 if p <= 0 holds, -1 if it fails, 0 unknown, under the current facts.
func decideLe0(p *T) int {
	if c, ok := isConst(p); ok {
		if c.Sign() <= 0 {
			return 1
		}
		return -1
	}
	if u := upper(p, 2); u != nil && u.Sign() <= 0 {
		return 1
	}
	if u := upper(neg(p), 2); u != nil && u.Sign() < 0 {
		return -1
	}
	return 0
}

func decideEq0(p *T) int {
	if c, ok := isConst(p); ok {
		if c.Sign() == 0 {
			return 1
		}
		return -1
	}
	for _, e := range curFacts.eq {
		if e == p || e == neg(p) {
			return 1
		}
	}
	for _, e := range curFacts.ne {
		if e == p || e == neg(p) {
			return -1
		}
	}
	if p.sort == 'i' {
		// divisibility
		g := new(big.Int)
		k := new(big.Int)
		for _, m := range toMon(p) {
			if len(m.f) == 0 {
				k = m.c
			} else {
				g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
			}
		}
		if g.Sign() != 0 && new(big.Int).Mod(k, g).Sign() != 0 {
			return -1
		}
		if u := upper(p, 2); u != nil && u.Sign() < 0 {
			return -1
		}
		if u := upper(neg(p), 2); u != nil && u.Sign() < 0 {
			return -1
		}
	}
	return 0
}
