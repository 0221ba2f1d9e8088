package main

// C21: the files that gen_keys writes are what tecdsa reads.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const genPkg, nodePkg = "cmd/gen_keys", "cmd/tecdsa"

func checkC21(p *Program, r *Rep) {
	sizes := []int{2, 3}
	if thorough() {
		sizes = append(sizes, 5, 11)
	}
	for _, n := range sizes {
		for _, given := range []bool{false, true} {
			n, given := n, given
			what := fmt.Sprintf("%d parties", n)
			if given {
				what += " with given addresses"
			}
			r.guard("gen_keys for "+what, func() { p.keyFiles(r, n, given, what) })
		}
	}
	r.guard("malformed files", func() { p.malformedFiles(r) })
}

// word is a text without separators.
func word(name string) *T {
	t := sym('b', "word:"+name)
	symLo[lenB(t)], symHi[lenB(t)] = big1, pow2(40)
	return t
}

// readers finds the functions of the node that read the key file and the committee file, by what they return.
func (p *Program) readers(r *Rep) (member, committee *ssa.Function) {
	pk := p.ssaPk[modPath+"/"+nodePkg]
	if pk == nil {
		r.fail("anchor", nodePkg, "", "the command was not found")
		return
	}
	var names []string
	for n := range pk.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fn, ok := pk.Members[n].(*ssa.Function)
		if !ok || len(fn.Blocks) == 0 || !opensFile(fn, map[*ssa.Function]bool{}) {
			continue
		}
		res := fn.Signature.Results()
		if fn.Signature.Params().Len() != 1 || res.Len() < 2 || namedPath(res.At(res.Len()-1).Type()) != "error" {
			continue
		}
		priv, pub := false, false
		for i := 0; i < res.Len(); i++ {
			walkType(res.At(i).Type(), func(t types.Type) {
				priv = priv || strings.HasSuffix(namedPath(t), "paillier.PrivateKey")
				pub = pub || strings.HasSuffix(namedPath(t), "paillier.PublicKey")
			}, map[types.Type]bool{})
		}
		switch {
		case priv && member == nil:
			member = fn
		case pub && !priv && committee == nil:
			committee = fn
		}
	}
	if member == nil {
		r.fail("anchor", nodePkg, "", "no function that reads a private key from a file was found")
	}
	if committee == nil {
		r.fail("anchor", nodePkg, "", "no function that reads the keys and addresses of the committee from a file was found")
	}
	return
}

func walkType(t types.Type, f func(types.Type), seen map[types.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		walkType(u.Elem(), f, seen)
	case *types.Slice:
		walkType(u.Elem(), f, seen)
	case *types.Array:
		walkType(u.Elem(), f, seen)
	case *types.Map:
		walkType(u.Elem(), f, seen)
	case *types.Struct:
		if strings.Contains(namedPath(t), "paillier.") {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			walkType(u.Field(i).Type(), f, seen)
		}
	}
}

func opensFile(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			callee := c.Common().StaticCallee()
			if callee == nil {
				continue
			}
			switch callee.String() {
			case "os.Open", "os.OpenFile", "os.ReadFile", "io/ioutil.ReadFile":
				return true
			}
			if opensFile(callee, seen) {
				return true
			}
		}
	}
	return false
}

// found is what a result holds, in order.
type found struct {
	priv  []*cmdKey
	pub   []*T
	strs  []*T
	ints  []*T
	other int
}

func (c *cmdRun) collect(v Val, t types.Type, f *found, depth int) {
	if depth > 8 {
		return
	}
	intAt := func(v Val) *T {
		if as := c.e.alts(v, c.st.pc); len(as) == 1 {
			v = as[0].v
		}
		if p, ok := v.(VPtr); ok {
			if i, ok := c.e.load(c.st, p, 0).(VInt); ok {
				return i.t
			}
		}
		return sym('i', "no number: "+describe(v))
	}
	np := namedPath(t)
	if s, ok := v.(VStruct); ok {
		if strings.HasSuffix(np, "paillier.PublicKey") && len(s.f) == 1 {
			f.pub = append(f.pub, intAt(s.f[0]))
			return
		}
		if strings.HasSuffix(np, "paillier.PrivateKey") && len(s.f) == 3 {
			k := &cmdKey{lambda: intAt(s.f[1]), phi: intAt(s.f[2])}
			if in, ok := s.f[0].(VStruct); ok {
				k.n = intAt(in.f[0])
			}
			f.priv = append(f.priv, k)
			return
		}
	}
	switch x := v.(type) {
	case VPtr:
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			c.collect(c.e.load(c.st, x, 0), pt.Elem(), f, depth+1)
			return
		}
	case VStruct:
		if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == len(x.f) {
			for i, y := range x.f {
				c.collect(y, st.Field(i).Type(), f, depth+1)
			}
			return
		}
	case VSlice:
		sl, ok := t.Underlying().(*types.Slice)
		n, okc := isConst(x.ln)
		if ok && okc && n.IsInt64() && n.Int64() < 64 {
			cv := c.e.load(c.st, x.arr, 0)
			if a, ok := cv.(VArr); ok {
				for i := int64(0); i < n.Int64(); i++ {
					c.collect(c.e.selectArr(c.st, a, add(x.off, num(i)), 0, nil), sl.Elem(), f, depth+1)
				}
				return
			}
		}
	case VStr:
		f.strs = append(f.strs, x.t)
		return
	case VInt:
		f.ints = append(f.ints, x.t)
		return
	case *VUnion:
		as := c.e.alts(x, c.st.pc)
		if len(as) == 1 {
			c.collect(as[0].v, t, f, depth+1)
			return
		}
	case VNil:
	}
	f.other++
}

// read runs a reader on a file; ok tells whether it surely succeeds, may that it may.
func (p *Program) read(r *Rep, cons string, fn *ssa.Function, nm string, have map[string]*T, breaks bool) (c *cmdRun, f *found, good *Node) {
	c = p.newCmd("tecdsa")
	c.have, c.breaks = have, breaks
	v := c.e.callTop(c.st, "read", fn, VStr{lit(nm)})
	r.engine(c.e, cons)
	for _, ev := range c.e.panics() {
		r.fail("no-crash", cons, c.e.where(ev), "reading can crash: %s", ev.name)
	}
	for _, ev := range c.e.events {
		if ev.kind == "exit" && feasible(ev.g) {
			r.fail("no-crash", cons, c.e.where(ev), "reading ends the program")
		}
	}
	if v == nil {
		r.fail("read", cons, p.pos(fn.Pos()), "reading cannot return")
		return c, nil, bFalse
	}
	good = bFalse
	f = &found{}
	for _, a := range c.e.alts(v, c.st.pc) {
		tup, ok := a.v.(VTuple)
		if !ok {
			continue
		}
		g := and(a.g, and(c.st.pc, c.e.isNilV(c.st, tup.f[len(tup.f)-1])))
		if g == bFalse || !feasible(g) {
			continue
		}
		good = or(good, g)
		old := c.st
		c.st = &State{g, old.mem}
		x := &found{}
		for i := 0; i < len(tup.f)-1; i++ {
			c.collect(tup.f[i], fn.Signature.Results().At(i).Type(), x, 0)
		}
		c.st = old
		f = x
	}
	return
}

// keyFiles generates keys, and reads the files that were written.
func (p *Program) keyFiles(r *Rep, n int, given bool, what string) {
	main := p.fn(genPkg, "main")
	if main == nil {
		r.fail("anchor", genPkg, "", "the key generator was not found")
		return
	}
	member, committee := p.readers(r)
	if member == nil || committee == nil {
		return
	}
	gpos := p.pos(main.Pos())
	c := p.newCmd("gen_keys", fmt.Sprint(n))
	var addrs []*T
	if given {
		c.args = append(c.args, "addresses")
		text := emptyB
		for i := 0; i < n; i++ {
			a := cat(word(fmt.Sprintf("host%d", i)), lit(":"), word(fmt.Sprintf("port%d", i)))
			addrs = append(addrs, a)
			text = cat(text, a, lit("\n"))
		}
		c.have["addresses"] = text
	}
	c.e.callTop(c.st, "gen", main)
	cons := "gen_keys for " + what
	r.engine(c.e, cons)
	for _, ev := range c.e.panics() {
		r.fail("no-crash", cons, c.e.where(ev), "the generator can crash: %s", ev.name)
	}
	secrets := func(t *T) bool {
		for _, k := range c.keys {
			if includes(t, k.lambda) || includes(t, k.phi) {
				return true
			}
		}
		return false
	}
	r.ob(len(c.keys) == n, "keys", cons, gpos, "%d keys are generated for %d parties", len(c.keys), n)
	have := map[string]*T{}
	var priv, pub []string
	for _, f := range c.files {
		s, ok := c.st.mem[f.o].(VStream)
		if !ok {
			r.fail("written", cons, gpos, "the content of %s is unknown", f.name)
			continue
		}
		have[f.name] = s.log
		for _, at := range f.kept {
			r.fail("written", cons, at, "%s keeps what an earlier run wrote to it, so it is not read back as written", f.name)
		}
		if !secrets(s.log) {
			pub = append(pub, f.name)
			continue
		}
		priv = append(priv, f.name)
		for i, m := range f.perms {
			k, ok := isConst(m)
			r.ob(ok && new(big.Int).And(k, big.NewInt(0o077)).Sign() == 0, "private", cons, f.poss[i], "%s holds a private key and is made with the mode %s, so others can read it", f.name, mode(m))
		}
		r.ob(len(f.perms) > 0, "private", cons, gpos, "the mode of %s is not set", f.name)
	}
	for _, ev := range c.e.events {
		if (ev.kind == "sink" || ev.kind == "extern") && feasible(ev.g) {
			if len(ev.vals) > 0 && (c.bufio(c.st, ev.vals[0]) != nil || c.isFile(c.st, ev.vals[0])) {
				continue // the files are read below
			}
			for _, v := range ev.vals {
				s := c.e.findIn(c.st, v, 0, func(t *T) *T {
					if secrets(t) {
						return t
					}
					return nil
				})
				r.ob(s == nil, "private", cons, c.e.where(ev), "%s shows a private key", ev.name)
			}
		}
	}
	r.ob(len(priv) == n, "files", cons, gpos, "%d files with private keys are written for %d parties", len(priv), n)
	if !r.ob(len(pub) >= 1, "files", cons, gpos, "no file with the keys and addresses of the committee is written") {
		return
	}
	// the committee
	var com *found
	for _, nm := range pub {
		cn := fmt.Sprintf("reading %s, %s", nm, what)
		_, f, good := p.read(r, cn, committee, nm, have, false)
		if f == nil {
			return
		}
		r.ob(implies(bTrue, good), "read-back", cn, p.pos(committee.Pos()), "%s, which holds %s, is not accepted", nm, have[nm])
		com = f
	}
	cn := "the committee of " + what
	cpos := p.pos(committee.Pos())
	if r.ob(len(com.pub) == n && len(com.strs) == n, "read-back", cn, cpos, "%d keys and %d addresses are read", len(com.pub), len(com.strs)) {
		for i, k := range c.keys {
			if i < n {
				r.ob(com.pub[i] == k.n, "read-back", cn, cpos, "key %d is %s, not %s", i, com.pub[i], k.n)
			}
		}
		seen := map[*T]bool{}
		for i, a := range com.strs {
			if given {
				r.ob(a == addrs[i], "read-back", cn, cpos, "address %d is %s, not %s", i, a, addrs[i])
			}
			r.ob(!seen[a], "read-back", cn, cpos, "the address %s belongs to two parties", a)
			seen[a] = true
		}
	}
	// the keys
	who := map[int64]bool{}
	for _, nm := range priv {
		cn := fmt.Sprintf("reading %s, %s", nm, what)
		mpos := p.pos(member.Pos())
		_, f, good := p.read(r, cn, member, nm, have, false)
		if f == nil {
			return
		}
		r.ob(implies(bTrue, good), "read-back", cn, mpos, "%s, which holds %s, is not accepted under %s", nm, have[nm], not(good))
		if !r.ob(len(f.priv) == 1 && len(f.ints) == 1, "read-back", cn, mpos, "%d private keys and %d numbers are read", len(f.priv), len(f.ints)) {
			continue
		}
		id, ok := isConst(f.ints[0])
		if !r.ob(ok && id.Sign() >= 0 && id.Cmp(big.NewInt(int64(n))) < 0, "read-back", cn, mpos, "the number of the party is %s", f.ints[0]) {
			continue
		}
		r.ob(!who[id.Int64()], "read-back", cn, mpos, "the number %s belongs to two parties", id)
		who[id.Int64()] = true
		k := c.keys[id.Int64()]
		got := f.priv[0]
		r.ob(got.n == k.n, "read-back", cn, mpos, "the modulus is %s, not %s", got.n, k.n)
		r.ob(got.lambda == k.lambda, "read-back", cn, mpos, "lambda is %s, not %s", got.lambda, k.lambda)
		r.ob(got.phi == k.phi, "read-back", cn, mpos, "phi is %s, not %s", got.phi, k.phi)
		r.counts["keys read back"]++
	}
}

func mode(m *T) string {
	if k, ok := isConst(m); ok {
		return "0" + k.Text(8)
	}
	return m.String()
}

func includes(t, x *T) bool {
	if t == x {
		return true
	}
	for _, m := range t.mon {
		for _, f := range m.f {
			if includes(f.a, x) {
				return true
			}
		}
	}
	for _, a := range t.args {
		if includes(a, x) {
			return true
		}
	}
	return false
}

// malformedFiles: what is not a key or committee file is reported.
func (p *Program) malformedFiles(r *Rep) {
	member, committee := p.readers(r)
	if member == nil || committee == nil {
		return
	}
	std := "encoding/base64.StdEncoding"
	b64 := func(t *T) *T { return encoded("b64", std, t) }
	D := sym('b', "data")
	symLo[lenB(D)] = big0
	good64 := b64(bigBytes(symRange("M", big1, pow2(2048))))
	addr := func(i int) *T {
		return cat(word(fmt.Sprintf("host%d", i)), lit(":"), word(fmt.Sprintf("port%d", i)))
	}
	nl, bar := lit("\n"), lit("|")
	line := func(i int) *T { return cat(good64, bar, addr(i), nl) }
	breaks := false
	bad := func(what string, fn *ssa.Function, t *T) {
		have := map[string]*T{}
		if t != nil {
			have["f"] = t
		}
		_, _, good := p.read(r, what, fn, "f", have, breaks)
		r.ob(good == bFalse, "malformed", what, p.pos(fn.Pos()), "the file is accepted under %s", good)
		r.counts["malformed files"]++
	}
	bad("a missing key file", member, nil)
	bad("an empty key file", member, emptyB)
	bad("a key file with a blank line", member, nl)
	bad("a key file without a number", member, cat(b64(D), nl))
	bad("a key file whose number is a word", member, cat(b64(D), lit(" x\n")))
	bad("a key file whose number is too large", member, cat(b64(D), lit(" 99999999999999999999\n")))
	bad("a key file whose key is no encoding", member, lit("!!!! 0\n"))
	bad("a key file with an empty key", member, lit("AA== 0\n"))
	bad("a missing committee file", committee, nil)
	bad("an empty committee file", committee, emptyB)
	bad("a committee of one", committee, line(0))
	for _, x := range []struct {
		what string
		t    *T
	}{
		{"without an address", cat(good64, nl)},
		{"with an empty address", cat(good64, bar, nl)},
		{"with an empty key", cat(bar, addr(2), nl)},
		{"with an address without a port", cat(good64, bar, word("host2"), nl)},
		{"with a key that is no encoding", cat(lit("!!!!"), bar, addr(2), nl)},
		{"with three parts", cat(good64, bar, addr(2), bar, word("more"), nl)},
	} {
		bad("a committee file with a line "+x.what, committee, cat(line(0), line(1), x.t))
		bad("a committee file whose first line is one "+x.what, committee, cat(x.t, line(0), line(1)))
	}
	breaks = true
	bad("a key file that cannot be read to its end", member, cat(b64(cat(lit("\x01\x00\x05\x01\x00\x05\x01\x00\x05"))), lit(" 1")))
	bad("a committee file that cannot be read to its end", committee, cat(line(0), line(1)))
	breaks = false
	_, _, ok := p.read(r, "a good key file", member, "f", map[string]*T{"f": cat(b64(lit("\x01\x00\x05\x01\x00\x05\x01\x00\x05")), lit(" 1"))}, false)
	r.ob(ok == bTrue, "coverage", "a good key file", p.pos(member.Pos()), "the file of comparison is not accepted")
	// a key made of any bytes: all of them are part of the three numbers
	cons := "a key file with any bytes"
	c, f, good := p.read(r, cons, member, "f", map[string]*T{"f": cat(b64(D), lit(" 0\n"))}, false)
	mpos := p.pos(member.Pos())
	if f == nil || !r.ob(good != bFalse && len(f.priv) == 1, "coverage", cons, mpos, "no key is read") {
		return
	}
	old := curFacts
	curFacts = good.Facts()
	defer func() { curFacts = old }()
	k := f.priv[0]
	type piece struct{ lo, hi *T }
	var ps []piece
	for _, t := range []*T{k.n, k.lambda, k.phi} {
		if b := fullBytes(t); b != nil && b.op == "slice" && b.args[0] == D {
			ps = append(ps, piece{b.args[1], b.args[2]})
		}
	}
	if !r.ob(len(ps) == 3, "malformed", cons, mpos, "the key (%s, %s, %s) is not made of parts of the data", k.n, k.lambda, k.phi) {
		return
	}
	for i, x := range ps {
		next := lenB(D)
		if i < 2 {
			next = ps[i+1].lo
		}
		gap := sub(next, x.hi)
		g, isC := isConst(gap)
		okGap := isC && g.Sign() >= 0 && g.Cmp(big.NewInt(8)) <= 0
		if i == 2 {
			okGap = gap == num(0) || implies(good, le0(gap))
		}
		r.ob(okGap, "malformed", cons, mpos, "%s bytes behind part %d of the key are ignored", gap, i+1)
	}
	_ = c
}

// ---- C32: what the node starts

type nodeCase struct {
	what            string
	n, pid, t, sigs int
	idText          string
	missing         string // file or flag that is missing
	ok              bool
}

func checkC32(p *Program, r *Rep) {
	main := p.fn(nodePkg, "main")
	if main == nil {
		r.fail("anchor", nodePkg, "", "the node was not found")
		return
	}
	cases := []nodeCase{
		{"party 1 of 3, threshold 2, 3 signatures", 3, 1, 2, 3, "1", "", true},
		{"party 0 of 2, threshold 1, 2 signatures", 2, 0, 1, 2, "0", "", true},
		{"party 2 of 3, threshold 3, 1 signature", 3, 2, 3, 1, "2", "", true},
		{"a number that is the size of the committee", 3, 3, 2, 1, "3", "", false},
		{"a number beyond the committee", 3, 7, 2, 1, "7", "", false},
		{"a negative number", 3, -1, 2, 1, "-1", "", false},
		{"a number that is no number", 3, 1, 2, 1, "one", "", false},
		{"threshold 0", 3, 1, 0, 1, "1", "", false},
		{"a negative threshold", 3, 1, -1, 1, "1", "", false},
		{"a threshold above the size of the committee", 3, 1, 4, 1, "1", "", false},
		{"a threshold that does not fit", 3, 1, 65538, 1, "1", "", false},
		{"no key file", 3, 1, 2, 1, "1", "me", false},
		{"no committee file", 3, 1, 2, 1, "1", "them", false},
		{"no name of a key file", 3, 1, 2, 1, "1", "pk", false},
		{"no name of a committee file", 3, 1, 2, 1, "1", "keys_addrs", false},
	}
	if thorough() {
		cases = append(cases, nodeCase{"party 6 of 7, threshold 4, 5 signatures", 7, 6, 4, 5, "6", "", true})
	}
	for _, x := range cases {
		x := x
		r.guard(x.what, func() { p.nodeStarts(r, main, x) })
	}
}

func (p *Program) nodeStarts(r *Rep, main *ssa.Function, x nodeCase) {
	pos := p.pos(main.Pos())
	std := "encoding/base64.StdEncoding"
	c := p.newCmd("tecdsa")
	c.node = true
	e := c.e
	var addrs []*T
	text := emptyB
	for i := 0; i < x.n; i++ {
		a := cat(word(fmt.Sprintf("host%d", i)), lit(":"), word(fmt.Sprintf("port%d", i)))
		addrs = append(addrs, a)
		text = cat(text, encoded("b64", std, bigBytes(symRange(fmt.Sprintf("N%d", i), big1, pow2(2048)))), lit("|"), a, lit("\n"))
	}
	c.have["them"] = text
	c.have["me"] = cat(encoded("b64", std, lit("\x01\x00\x05\x01\x00\x05\x01\x00\x05")), lit(" "+x.idText+"\n"))
	c.flags = map[string]Val{"pk": VStr{lit("me")}, "keys_addrs": VStr{lit("them")}, "threshold": VInt{num(int64(x.t))}, "sigNumber": VInt{num(int64(x.sigs))},
		"startTime": VStr{sym('b', "start text")}, "roundDuration": VStr{sym('b', "duration text")}}
	delete(c.have, x.missing)
	delete(c.flags, x.missing)
	e.callTop(c.st, "main", main)
	r.engine(e, x.what)
	for _, ev := range e.panics() {
		if ev.ingo == 0 {
			r.fail("no-crash", x.what, e.where(ev), "the node can crash: %s under %s", ev.name, ev.g)
		}
	}
	var net, srv, start, ini []*Event
	var pre, sig []*Event
	for _, ev := range e.events {
		if !feasible(ev.g) {
			continue
		}
		switch {
		case ev.kind == "node" && ev.name == "network":
			net = append(net, ev)
		case ev.kind == "node" && ev.name == "server":
			srv = append(srv, ev)
		case ev.kind == "node" && ev.name == "Init":
			ini = append(ini, ev)
		case ev.kind == "node" && ev.name == "Presign":
			pre = append(pre, ev)
		case ev.kind == "node" && ev.name == "Sign":
			sig = append(sig, ev)
		case ev.kind == "invoke" && ev.name == "Start":
			start = append(start, ev)
		}
	}
	r.counts["configurations"]++
	if !x.ok {
		for _, ev := range append(append(append(append([]*Event{}, srv...), start...), ini...), append(pre, sig...)...) {
			r.fail("refused", x.what, e.where(ev), "%s is called in spite of it under %s", ev.name, ev.g)
		}
		said := bFalse
		for _, ev := range e.events {
			if (ev.kind == "write" || ev.kind == "sink") && ev.ingo == 0 {
				said = or(said, ev.g)
			}
		}
		r.ob(said == bTrue || implies(bTrue, said), "reported", x.what, pos, "nothing is reported under %s", not(said))
		return
	}
	one := func(evs []*Event, what string, n int) bool {
		return r.ob(len(evs) == n, "started", x.what, pos, "%s is called %d times, not %d", what, len(evs), n)
	}
	if !one(net, "tcp.NewServer", 1) || !one(srv, "sync.NewServer", 1) || !one(start, "Start", 1) || !one(ini, "tecdsa.Init", 1) {
		return
	}
	isInt := func(v Val, n int) bool {
		i, ok := v.(VInt)
		if !ok {
			return false
		}
		k, ok := isConst(i.t)
		return ok && k.Cmp(big.NewInt(int64(n))) == 0
	}
	local := strT(net[0].vals[0])
	r.ob(x.pid < len(addrs) && local == addrs[x.pid], "addresses", x.what, e.where(net[0]), "the node listens at %s, not at %s", local, addrs[x.pid])
	if tup, ok := net[0].vals[1].(VTuple); r.ob(ok && len(tup.f) == x.n, "addresses", x.what, e.where(net[0]), "the addresses of the peers are %s", describe(net[0].vals[1])) {
		for i, v := range tup.f {
			r.ob(strT(v) == addrs[i], "addresses", x.what, e.where(net[0]), "the address of party %d is %s, not %s", i, strT(v), addrs[i])
		}
	}
	ints := func(ev *Event, what string) {
		r.ob(len(ev.vals) > 2 && isInt(ev.vals[0], x.pid) && isInt(ev.vals[1], x.n), "identity", x.what, e.where(ev), "%s is called for party %s of %s", what, describe(ev.vals[0]), describe(ev.vals[1]))
	}
	ints(srv[0], "sync.NewServer")
	ints(ini[0], "tecdsa.Init")
	for _, v := range srv[0].vals[2:] {
		if i, ok := v.(VIface); ok {
			r.ob(i.typ == netType, "network", x.what, e.where(srv[0]), "the server uses %s", describe(v))
		}
		if o, ok := v.(VOpq); ok {
			r.ob(includes(o.t, sym('b', "start text")), "schedule", x.what, e.where(srv[0]), "the start is %s", o.t)
		}
		if i, ok := v.(VInt); ok {
			r.ob(i.t == mkTerm("duration", 'i', "", sym('b', "duration text")), "schedule", x.what, e.where(srv[0]), "the duration of a round is %s", i.t)
		}
	}
	isServer := func(v Val) bool {
		i, ok := v.(VIface)
		o, ok2 := i.v.(VOpq)
		return ok && ok2 && o.t == sym('o', "server")
	}
	r.ob(isServer(start[0].vals[0]) && isServer(ini[0].vals[len(ini[0].vals)-1]), "identity", x.what, e.where(ini[0]), "Init gets %s", describe(ini[0].vals[len(ini[0].vals)-1]))
	r.ob(net[0].seq < srv[0].seq && start[0].seq < ini[0].seq && implies(start[0].g, net[0].ok), "order", x.what, e.where(ini[0]), "the network is started too late, or though it could not be made")
	r.ob(implies(start[0].g, bsym("ok:time.ParseDuration", sym('b', "duration text"))), "refused", x.what+", a duration that is none", e.where(start[0]), "the network is started under %s", start[0].g)
	tok := false
	for _, a := range start[0].g.support() {
		if strings.HasPrefix(a.name, "ok:time.Parse") && !strings.HasPrefix(a.name, "ok:time.ParseD") && includes(a, sym('b', "start text")) && implies(start[0].g, bAtom(a)) {
			tok = true
		}
	}
	r.ob(tok, "refused", x.what+", a start that is no time", e.where(start[0]), "the network is started under %s", start[0].g)
	if !one(pre, "Presign", x.sigs) || !one(sig, "Sign", x.sigs) {
		return
	}
	for i, ev := range pre {
		r.ob(isInt(ev.vals[1], x.t), "threshold", x.what, e.where(ev), "the threshold is %s, not %d", describe(ev.vals[1]), x.t)
		r.ob(implies(ev.g, ini[0].ok), "failed-step", x.what, e.where(ev), "presigning goes on after a failed Init")
		if i > 0 {
			r.ob(implies(ev.g, pre[i-1].ok), "failed-step", x.what, e.where(ev), "presigning goes on after a failed Presign")
		}
		r.ob(ev.seq < sig[0].seq && implies(sig[0].g, ev.ok), "failed-step", x.what, e.where(sig[0]), "signing starts without a presignature")
		r.ob(implies(and(c.goesOn(ini, pre[:i]), start[0].g), ev.g), "started", x.what, e.where(ev), "Presign %d is left out under %s", i+1, not(ev.g))
	}
	for i, ev := range sig {
		r.ob(implies(and(c.goesOn(ini, pre), start[0].g), ev.g), "started", x.what, e.where(ev), "Sign %d is left out under %s", i+1, not(ev.g))
	}
}

// goesOn: all these steps succeeded.
func (c *cmdRun) goesOn(evs ...[]*Event) *Node {
	g := bTrue
	for _, es := range evs {
		for _, ev := range es {
			g = and(g, ev.ok)
		}
	}
	return g
}
