package main

// Models of files, text and flags for the commands.

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cmdFile is a file that a command opened.
type cmdFile struct {
	name  string
	o     *Obj
	perms []*T     // the modes under which it may have been made
	kept  []string // where it is opened for writing without removing what it held before
	poss  []string
	wrote bool
}

// cmdRun is the run of a command, or of one of its functions.
type cmdRun struct {
	e      *Eng
	st     *State
	args   []string
	have   map[string]*T // files that can be read
	files  []*cmdFile    // files written
	keys   []*cmdKey
	absent bool // files cannot be opened
	breaks bool // reading fails before the end of the file
	calls  []*Event
	flags  map[string]Val
	node   bool            // the parts of the node are not entered
	fresh  map[string]bool // files opened for writing before
}

type cmdKey struct{ n, lambda, phi *T }

func (p *Program) newCmd(args ...string) *cmdRun {
	c := &cmdRun{args: args, have: map[string]*T{}, flags: map[string]Val{}}
	e := newEng(p)
	c.e = e
	e.extraGlobal = c.global
	e.runInits()
	e.events, e.undec = nil, nil
	e.callHook = c.hook
	c.st = e.newState()
	return c
}

func (c *cmdRun) global(g *ssa.Global) (Val, bool) {
	if g.String() == "os.Args" {
		o := c.e.newObj("os.Args", types.NewSlice(types.Typ[types.String]))
		o.global = true
		var vs []Val
		for _, a := range c.args {
			vs = append(vs, VStr{lit(a)})
		}
		c.e.globalMem[o] = listOf(types.Typ[types.String], vs)
		n := num(int64(len(vs)))
		return VSlice{VPtr{o: o}, num(0), n, n}, true
	}
	return nil, false
}

func listOf(elem types.Type, vs []Val) VArr {
	a := VArr{elem: elem, base: "zero", n: num(int64(len(vs)))}
	for i, v := range vs {
		a = appendW(a, Write{g: bTrue, idx: num(int64(i)), val: v})
	}
	return a
}

func (c *cmdRun) strings(st *State, site *Site, ts []*T) Val {
	var vs []Val
	for _, t := range ts {
		vs = append(vs, VStr{t})
	}
	o := c.e.alloc(site, "strings", types.NewSlice(types.Typ[types.String]))
	st.mem[o] = listOf(types.Typ[types.String], vs)
	n := num(int64(len(ts)))
	return VSlice{VPtr{o: o, inst: append([]*T{}, o.kappas...)}, num(0), n, n}
}

// ---- text

// plain tells that no character of set occurs in the text; known is false if that is not clear.
func plain(t *T, set string) (free, known bool) {
	switch t.op {
	case "lit":
		return !strings.ContainsAny(t.name, set), true
	case "b64":
		return !strings.ContainsAny("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_", set), true
	case "hex":
		return !strings.ContainsAny("0123456789abcdef", set), true
	case "itoa":
		return !strings.ContainsAny("0123456789-", set), true
	case "sym":
		if strings.HasPrefix(t.name, "word:") {
			// parts of names and numbers that contain no separators
			return !strings.ContainsAny("abc019.", set), true
		}
	}
	return false, false
}

// splitT splits the text at each sep; at most n parts if n > 0.
func splitT(t *T, sep string, n int) ([]*T, bool) {
	if sep == "" || n == 0 {
		return nil, false
	}
	out := []*T{emptyB}
	for _, p := range parts(t) {
		if p.op == "lit" {
			rest := p.name
			for n < 0 || len(out) < n {
				i := strings.Index(rest, sep)
				if i < 0 {
					break
				}
				out[len(out)-1] = cat(out[len(out)-1], lit(rest[:i]))
				out = append(out, emptyB)
				rest = rest[i+len(sep):]
			}
			if len(sep) > 1 && p != t {
				// a separator might cross into the next part
				return nil, false
			}
			out[len(out)-1] = cat(out[len(out)-1], lit(rest))
			continue
		}
		free, known := plain(p, sep)
		if n > 0 && len(out) == n {
			free, known = true, true
		}
		if !known || !free {
			return nil, false
		}
		out[len(out)-1] = cat(out[len(out)-1], p)
	}
	return out, true
}

const spaces = " \t\n\v\f\r"

// wordsT splits at runs of white space.
func wordsT(t *T) ([]*T, bool) {
	var out []*T
	cur := emptyB
	for _, p := range parts(t) {
		if p.op != "lit" {
			if free, known := plain(p, spaces); !free || !known {
				return nil, false
			}
			cur = cat(cur, p)
			continue
		}
		start := 0
		for i := 0; i <= len(p.name); i++ {
			if i < len(p.name) && strings.IndexByte(spaces, p.name[i]) < 0 {
				continue
			}
			cur = cat(cur, lit(p.name[start:i]))
			if i < len(p.name) {
				if cur != emptyB {
					out = append(out, cur)
				}
				cur = emptyB
			}
			start = i + 1
		}
	}
	if cur != emptyB {
		out = append(out, cur)
	}
	return out, true
}

// linesT splits at line ends, like bufio.ScanLines.
func linesT(t *T) ([]*T, bool) {
	out, ok := splitT(t, "\n", -1)
	if !ok {
		return nil, false
	}
	for i, l := range out {
		ps := parts(l)
		if len(ps) > 0 && ps[len(ps)-1].op == "lit" {
			out[i] = cat(append(append([]*T{}, ps[:len(ps)-1]...), lit(strings.TrimSuffix(ps[len(ps)-1].name, "\r")))...)
		}
	}
	if out[len(out)-1] == emptyB {
		out = out[:len(out)-1]
	}
	return out, true
}

// trimT removes characters of set from the ends.
func trimT(t *T, set string, left, right bool) (*T, bool) {
	ps := append([]*T{}, parts(t)...)
	for left && len(ps) > 0 {
		if ps[0].op != "lit" {
			if free, known := plain(ps[0], set); !free || !known {
				return nil, false
			}
			break
		}
		s := strings.TrimLeft(ps[0].name, set)
		if s != "" {
			ps[0] = lit(s)
			break
		}
		ps = ps[1:]
	}
	for right && len(ps) > 0 {
		l := len(ps) - 1
		if ps[l].op != "lit" {
			if free, known := plain(ps[l], set); !free || !known {
				return nil, false
			}
			break
		}
		s := strings.TrimRight(ps[l].name, set)
		if s != "" {
			ps[l] = lit(s)
			break
		}
		ps = ps[:l]
	}
	return cat(ps...), true
}

func itoa(x *T) *T {
	if k, ok := isConst(x); ok {
		return lit(k.String())
	}
	return mkTerm("itoa", 'b', "", x)
}

// text is what fmt makes of a value with the verb.
func (c *cmdRun) text(v Val, verb byte) (*T, bool) {
	if i, ok := v.(VIface); ok {
		v = i.v
		if verb == 'v' || verb == 'd' {
			if b, ok := i.typ.(*types.Basic); !ok || b.Info()&(types.IsInteger|types.IsString) == 0 {
				return nil, false
			}
		}
	}
	switch x := v.(type) {
	case VStr:
		if verb == 's' || verb == 'v' {
			return x.t, true
		}
	case VInt:
		if verb == 'd' || verb == 'v' {
			return itoa(x.t), true
		}
	}
	return nil, false
}

func (c *cmdRun) format(f string, vs []Val) (*T, bool) {
	out := emptyB
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = cat(out, lit(f[i:i+j]))
			i += j - 1
			continue
		}
		i++
		if i < len(f) && f[i] == '%' {
			out = cat(out, lit("%"))
			continue
		}
		if i >= len(f) || len(vs) == 0 {
			return nil, false
		}
		t, ok := c.text(vs[0], f[i])
		if !ok {
			return nil, false
		}
		vs = vs[1:]
		out = cat(out, t)
	}
	return out, len(vs) == 0
}

// ---- calls of the standard library

func (c *cmdRun) hook(e *Eng, st *State, fn *ssa.Function, args []Val, site *Site) (Val, bool) {
	if e.inInit {
		return nil, false
	}
	name := fn.String()
	m := c.modelOf(name)
	if c.node {
		if n := c.nodeModel(name); n != nil {
			m = n
		}
	}
	if m == nil && fn.Pkg != nil && isRepo(fn.Pkg.Pkg.Path()) {
		return nil, false
	}
	if m == nil {
		return nil, false
	}
	done := true
	v := e.fork(st, args, func(st *State, args []Val) Val {
		v, ok := m(st, args, site, fn)
		if !ok {
			done = false
			return e.model(st, name, fn, args, site)
		}
		return v
	})
	_ = done
	return v, true
}

type cmdModel func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool)

func strT(v Val) *T {
	if s, ok := v.(VStr); ok {
		return s.t
	}
	return nil
}

func litOf(v Val) (string, bool) {
	if t := strT(v); t != nil && t.op == "lit" {
		return t.name, true
	}
	return "", false
}

func (c *cmdRun) modelOf(name string) cmdModel {
	e := c.e
	switch name {
	case "github.com/binance-chain/tss-lib/crypto/paillier.GenerateKeyPair":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			i := len(c.keys)
			hi := pow2(8192)
			if k, ok := isConst(e.intArg(args[0])); ok && k.IsInt64() {
				hi = pow2(int(k.Int64()))
			}
			k := &cmdKey{symRange(fmt.Sprintf("N%d", i), big1, hi), symRange(fmt.Sprintf("lambda%d", i), big1, hi), symRange(fmt.Sprintf("phi%d", i), big1, hi)}
			c.keys = append(c.keys, k)
			res := fn.Signature.Results()
			priv := res.At(0).Type().(*types.Pointer).Elem()
			pub := res.At(1).Type().(*types.Pointer).Elem()
			n := e.newInt(st, site, "N", k.n)
			a := e.ptrTo(st, site, "priv", priv, VStruct{[]Val{VStruct{[]Val{n}}, e.newInt(st, site, "lambda", k.lambda), e.newInt(st, site, "phi", k.phi)}})
			b := e.ptrTo(st, site, "pub", pub, VStruct{[]Val{n}})
			return VTuple{[]Val{a, b, VNil{}}}, true
		}
	case "os.OpenFile", "os.Create", "os.Open":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			nm, ok := litOf(args[0])
			if !ok {
				e.undecided(site.pos, "the name of a file is %s", describe(args[0]))
				return nil, false
			}
			ft := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			flags, perm := int64(0), num(0o666)
			switch name {
			case "os.Create":
				flags = 2 | 0x40 | 0x200
			case "os.OpenFile":
				k, ok := isConst(e.intArg(args[1]))
				if !ok {
					return nil, false
				}
				flags, perm = k.Int64(), e.intArg(args[2])
			}
			if flags&3 == 0 { // reading
				t, ok := c.have[nm]
				if c.absent || !ok {
					return VTuple{[]Val{VNil{}, e.freshErr(site)}}, true
				}
				p := e.ptrTo(st, site, "file", ft, VStream{name: "file:" + nm, rem: t, log: emptyB, sure: true})
				return VTuple{[]Val{p, VNil{}}}, true
			}
			f := c.file(nm, ft)
			if flags&0x40 != 0 {
				f.perms, f.poss = append(f.perms, perm), append(f.poss, e.p.pos(site.pos))
			}
			old := emptyB
			if cur, ok := st.mem[f.o].(VStream); ok && flags&0x200 == 0 {
				old = cur.log
			}
			if flags&0x200 == 0 && flags&0x80 == 0 && !c.fresh[nm] {
				f.kept = append(f.kept, e.p.pos(site.pos))
			}
			if c.fresh == nil {
				c.fresh = map[string]bool{}
			}
			c.fresh[nm] = true
			if flags&0x200 == 0 && flags&0x400 == 0 && old != emptyB {
				e.undecided(site.pos, "writing over a file")
			}
			st.mem[f.o] = VStream{name: "file:" + nm, rem: nil, log: old, sure: true}
			return VTuple{[]Val{VPtr{o: f.o}, VNil{}}}, true
		}
	case "os.WriteFile", "io/ioutil.WriteFile":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			nm, ok := litOf(args[0])
			data, ok2 := e.sliceBytes(st, args[1], site.pos)
			if !ok || !ok2 {
				return nil, false
			}
			f := c.file(nm, bigType)
			f.perms, f.poss = append(f.perms, e.intArg(args[2])), append(f.poss, e.p.pos(site.pos))
			st.mem[f.o] = VStream{name: "file:" + nm, log: data, sure: true}
			return VNil{}, true
		}
	case "os.ReadFile", "io/ioutil.ReadFile":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			nm, ok := litOf(args[0])
			if !ok {
				return nil, false
			}
			t, ok := c.have[nm]
			if c.absent || !ok || c.breaks {
				return VTuple{[]Val{VNil{}, e.freshErr(site)}}, true
			}
			return VTuple{[]Val{e.newBytes(st, site, "file", t), VNil{}}}, true
		}
	case "io.ReadAll", "io/ioutil.ReadAll":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			p, t := c.rest(st, args[0], site)
			if t == nil {
				return nil, false
			}
			if i, ok := args[0].(VIface); ok && c.breaks && c.isFile(st, i) {
				return VTuple{[]Val{e.newBytes(st, site, "file", t), e.freshErr(site)}}, true
			}
			_ = p
			return VTuple{[]Val{e.newBytes(st, site, "file", t), VNil{}}}, true
		}
	case "(*os.File).Write", "(*os.File).WriteString":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			if !c.isFile(st, args[0]) {
				return nil, false
			}
			data, ok := e.sliceBytes(st, args[1], site.pos)
			if !ok {
				return nil, false
			}
			err := e.writeTo(st, args[0], data, site)
			return VTuple{[]Val{VInt{lenB(data)}, err}}, true
		}
	case "(*os.File).Read":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			d, ok := args[1].(VSlice)
			if !ok || !c.isFile(st, args[0]) {
				return nil, false
			}
			return e.readFrom(st, args[0], d, false, site), true
		}
	case "(*os.File).Close", "(*os.File).Sync":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) { return VNil{}, true }
	case "(*os.File).Chmod":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			if p, ok := args[0].(VPtr); ok {
				for _, f := range c.files {
					if f.o == p.o && f.wrote {
						f.perms, f.poss = append(f.perms, e.intArg(args[1])), append(f.poss, e.p.pos(site.pos))
					}
				}
			}
			return VNil{}, true
		}
	case "os.Chmod":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			nm, _ := litOf(args[0])
			for _, f := range c.files {
				if f.name == nm {
					f.perms, f.poss = append(f.perms, e.intArg(args[1])), append(f.poss, e.p.pos(site.pos))
				}
			}
			return VNil{}, true
		}
	case "io.WriteString":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			data := strT(args[1])
			if data == nil {
				return nil, false
			}
			if p := c.bufio(st, args[0]); p != nil {
				return c.pend(st, *p, data), true
			}
			if !c.isFile(st, args[0]) {
				return nil, false
			}
			err := e.writeTo(st, args[0], data, site)
			return VTuple{[]Val{VInt{lenB(data)}, err}}, true
		}
	case "bufio.NewWriter", "bufio.NewWriterSize":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			if !c.isFile(st, args[0]) {
				return nil, false
			}
			wt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			return e.ptrTo(st, site, "bufio", wt, VTuple{[]Val{args[0], VStr{emptyB}}}), true
		}
	case "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			p := c.bufio(st, args[0])
			if p == nil {
				return nil, false
			}
			if strings.HasSuffix(name, "Byte") || strings.HasSuffix(name, "Rune") {
				k, ok := isConst(e.intArg(args[1]))
				if !ok || !k.IsInt64() || k.Int64() > 127 {
					return nil, false
				}
				v := c.pend(st, *p, lit(string([]byte{byte(k.Int64())})))
				if strings.HasSuffix(name, "Byte") {
					return VNil{}, true
				}
				return v, true
			}
			data, ok := e.sliceBytes(st, args[1], site.pos)
			if !ok {
				return nil, false
			}
			return c.pend(st, *p, data), true
		}
	case "(*bufio.Writer).Flush":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			p := c.bufio(st, args[0])
			if p == nil {
				return nil, false
			}
			b := st.mem[p.o].(VTuple)
			data := b.f[1].(VStr).t
			st.mem[p.o] = VTuple{[]Val{b.f[0], VStr{emptyB}}}
			return e.writeTo(st, b.f[0], data, site), true
		}
	case "bufio.NewScanner", "bufio.NewReader", "bufio.NewReaderSize":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			_, t := c.rest(st, args[0], site)
			if t == nil {
				return nil, false
			}
			wt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			// what is left, the current token, and whether tokens are words
			return e.ptrTo(st, site, "scanner", wt, VTuple{[]Val{VStr{t}, VStr{emptyB}, VInt{num(0)}}}), true
		}
	case "(*bufio.Scanner).Split":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			f, ok := args[1].(VFunc)
			s := c.scanner(st, args[0])
			if !ok || f.fn == nil || s == nil {
				return nil, false
			}
			b := st.mem[s.o].(VTuple)
			switch f.fn.String() {
			case "bufio.ScanWords":
				st.mem[s.o] = VTuple{[]Val{b.f[0], b.f[1], VInt{num(1)}}}
			case "bufio.ScanLines":
				st.mem[s.o] = VTuple{[]Val{b.f[0], b.f[1], VInt{num(0)}}}
			default:
				e.undecided(site.pos, "a scanner of %s", f.fn)
			}
			return VNil{}, true
		}
	case "(*bufio.Scanner).Buffer":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) { return VNil{}, true }
	case "(*bufio.Scanner).Scan":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			s := c.scanner(st, args[0])
			if s == nil {
				return nil, false
			}
			b := st.mem[s.o].(VTuple)
			t, ok := b.f[0].(VStr)
			if !ok {
				return nil, false
			}
			words := b.f[2] == Val(VInt{num(1)})
			toks, ok := linesT(t.t)
			sep := "\n"
			if words {
				toks, ok = wordsT(t.t)
				sep = " "
			}
			if !ok {
				e.undecided(site.pos, "scanning %s", t.t)
				return nil, false
			}
			if len(toks) == 0 {
				st.mem[s.o] = VTuple{[]Val{VStr{emptyB}, VStr{emptyB}, b.f[2]}}
				return VBool{bFalse}, true
			}
			rest := emptyB
			for _, x := range toks[1:] {
				rest = cat(rest, x, lit(sep))
			}
			st.mem[s.o] = VTuple{[]Val{VStr{rest}, VStr{toks[0]}, b.f[2]}}
			return VBool{bTrue}, true
		}
	case "(*bufio.Scanner).Text", "(*bufio.Scanner).Bytes":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			s := c.scanner(st, args[0])
			if s == nil {
				return nil, false
			}
			t, ok := st.mem[s.o].(VTuple).f[1].(VStr)
			if !ok {
				return nil, false
			}
			if strings.HasSuffix(name, "Bytes") {
				return e.newBytes(st, site, "token", t.t), true
			}
			return t, true
		}
	case "(*bufio.Scanner).Err":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			if c.breaks {
				return e.freshErr(site), true
			}
			return VNil{}, true
		}
	case "(*bufio.Reader).ReadString":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			s := c.scanner(st, args[0])
			d, okd := isConst(e.intArg(args[1]))
			if s == nil || !okd {
				return nil, false
			}
			b := st.mem[s.o].(VTuple)
			t, ok := b.f[0].(VStr)
			if !ok {
				return nil, false
			}
			sep := string([]byte{byte(d.Int64())})
			ps, ok := splitT(t.t, sep, 2)
			if !ok {
				return nil, false
			}
			if len(ps) == 1 {
				st.mem[s.o] = VTuple{[]Val{VStr{emptyB}, b.f[1], b.f[2]}}
				if c.breaks {
					return VTuple{[]Val{VStr{ps[0]}, e.freshErr(site)}}, true
				}
				return VTuple{[]Val{VStr{ps[0]}, VErr{t: sym('o', "io.EOF")}}}, true
			}
			st.mem[s.o] = VTuple{[]Val{VStr{ps[1]}, b.f[1], b.f[2]}}
			return VTuple{[]Val{VStr{cat(ps[0], lit(sep))}, VNil{}}}, true
		}
	case "(*encoding/base64.Encoding).EncodeToString", "encoding/hex.EncodeToString":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			op, enc := "hex", ""
			if len(args) > 1 {
				op, enc = "b64", encodingOf(args[0])
			}
			data, ok := e.sliceBytes(st, args[len(args)-1], site.pos)
			if !ok {
				return nil, false
			}
			return VStr{encoded(op, enc, data)}, true
		}
	case "(*encoding/base64.Encoding).DecodeString", "encoding/hex.DecodeString":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			op, enc := "hex", ""
			if len(args) > 1 {
				op, enc = "b64", encodingOf(args[0])
			}
			t := strT(args[len(args)-1])
			if t == nil {
				return nil, false
			}
			if t.op == op && t.name == enc {
				return VTuple{[]Val{e.newBytes(st, site, "decoded", t.args[0]), VNil{}}}, true
			}
			if t.op == "lit" && (op == "hex" || strings.HasSuffix(enc, "StdEncoding")) {
				var b []byte
				var err error
				switch {
				case op == "hex":
					b, err = hex.DecodeString(t.name)
				case strings.HasSuffix(enc, "RawStdEncoding"):
					b, err = base64.RawStdEncoding.DecodeString(t.name)
				default:
					b, err = base64.StdEncoding.DecodeString(t.name)
				}
				if err != nil {
					return VTuple{[]Val{VNil{}, e.freshErr(site)}}, true
				}
				return VTuple{[]Val{e.newBytes(st, site, "decoded", lit(string(b))), VNil{}}}, true
			}
			ok := bsym("ok:"+op+enc, t)
			return e.fork1(st, VBoolSplit(ok), func(st *State, b Val) Val {
				if b.(VBool).b == bTrue {
					return VTuple{[]Val{e.newBytes(st, site, "decoded", mkTerm("un"+op, 'b', enc, t)), VNil{}}}
				}
				return VTuple{[]Val{VNil{}, e.freshErr(site)}}
			}), true
		}
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			if len(args) > 1 && e.intArg(args[1]) != num(10) {
				return nil, false
			}
			return VStr{itoa(e.intArg(args[0]))}, true
		}
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			base, bits := 10, 64
			if len(args) > 1 {
				b, ok := isConst(e.intArg(args[1]))
				s, ok2 := isConst(e.intArg(args[2]))
				if !ok || !ok2 {
					return nil, false
				}
				base, bits = int(b.Int64()), int(s.Int64())
			}
			t := strT(args[0])
			if t == nil {
				return nil, false
			}
			if t.op == "itoa" && base == 10 {
				return VTuple{[]Val{VInt{t.args[0]}, VNil{}}}, true
			}
			if t.op != "lit" {
				return nil, false
			}
			x := new(big.Int)
			var err error
			if strings.HasSuffix(name, "Uint") {
				var u uint64
				u, err = strconv.ParseUint(t.name, base, bits)
				x.SetUint64(u)
			} else {
				var i int64
				i, err = strconv.ParseInt(t.name, base, bits)
				x.SetInt64(i)
			}
			if err != nil {
				return VTuple{[]Val{VInt{cst(x)}, e.freshErr(site)}}, true
			}
			return VTuple{[]Val{VInt{cst(x)}, VNil{}}}, true
		}
	case "strings.Split", "strings.SplitN", "strings.Fields", "strings.Cut":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			t := strT(args[0])
			if t == nil {
				return nil, false
			}
			if name == "strings.Fields" {
				ws, ok := wordsT(t)
				if !ok {
					return nil, false
				}
				return c.strings(st, site, ws), true
			}
			sep, ok := litOf(args[1])
			if !ok {
				return nil, false
			}
			n := -1
			if name == "strings.Cut" {
				n = 2
			} else if len(args) > 2 {
				k, ok := isConst(e.intArg(args[2]))
				if !ok {
					return nil, false
				}
				n = int(k.Int64())
			}
			ps, ok := splitT(t, sep, n)
			if !ok {
				return nil, false
			}
			if name == "strings.Cut" {
				if len(ps) == 1 {
					return VTuple{[]Val{VStr{t}, VStr{emptyB}, VBool{bFalse}}}, true
				}
				return VTuple{[]Val{VStr{ps[0]}, VStr{ps[1]}, VBool{bTrue}}}, true
			}
			return c.strings(st, site, ps), true
		}
	case "strings.TrimSpace", "strings.Trim", "strings.TrimRight", "strings.TrimLeft", "strings.TrimSuffix", "strings.TrimPrefix":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			t := strT(args[0])
			if t == nil {
				return nil, false
			}
			set := spaces
			if len(args) > 1 {
				s, ok := litOf(args[1])
				if !ok {
					return nil, false
				}
				set = s
			}
			switch name {
			case "strings.TrimSuffix", "strings.TrimPrefix":
				ps := append([]*T{}, parts(t)...)
				i := 0
				if name == "strings.TrimSuffix" {
					i = len(ps) - 1
				}
				if len(ps) == 0 {
					return VStr{t}, true
				}
				if ps[i].op != "lit" {
					free, known := plain(ps[i], set)
					return VStr{t}, free && known
				}
				if name == "strings.TrimSuffix" {
					ps[i] = lit(strings.TrimSuffix(ps[i].name, set))
				} else {
					ps[i] = lit(strings.TrimPrefix(ps[i].name, set))
				}
				return VStr{cat(ps...)}, true
			}
			r, ok := trimT(t, set, !strings.HasSuffix(name, "Right"), !strings.HasSuffix(name, "Left"))
			return VStr{r}, ok
		}
	case "strings.Contains", "strings.Count", "strings.ContainsRune", "strings.IndexByte", "strings.Index", "strings.LastIndex", "strings.LastIndexByte":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			t := strT(args[0])
			sep, ok := litOf(args[1])
			if !ok {
				if k, okk := isConst(e.intArg(args[1])); okk && k.IsInt64() && k.Int64() < 128 {
					sep, ok = string([]byte{byte(k.Int64())}), true
				}
			}
			if t == nil || !ok {
				return nil, false
			}
			ps, ok := splitT(t, sep, -1)
			if !ok {
				return nil, false
			}
			switch name {
			case "strings.Contains", "strings.ContainsRune":
				return VBool{boolN(len(ps) > 1)}, true
			case "strings.Count":
				return VInt{num(int64(len(ps) - 1))}, true
			}
			if len(ps) == 1 {
				return VInt{num(-1)}, true
			}
			if strings.HasPrefix(name, "strings.Last") {
				return VInt{sub(sub(lenB(t), lenB(ps[len(ps)-1])), num(int64(len(sep))))}, true
			}
			return VInt{lenB(ps[0])}, true
		}
	case "strings.Join":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			sep := strT(args[1])
			if sep == nil {
				return nil, false
			}
			out := emptyB
			for i, v := range e.variadic(st, args[0]) {
				s := strT(v)
				if s == nil {
					return nil, false
				}
				if i > 0 {
					out = cat(out, sep)
				}
				out = cat(out, s)
			}
			return VStr{out}, true
		}
	case "fmt.Sprintf", "fmt.Fprintf", "fmt.Sprint", "fmt.Fprint", "fmt.Fprintln", "fmt.Sprintln":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			var w Val
			k := 0
			if strings.HasPrefix(name, "fmt.F") {
				w, k = args[0], 1
				if c.bufio(st, w) == nil && !c.isFile(st, w) {
					return nil, false
				}
			}
			var t *T
			ok := false
			if strings.HasSuffix(name, "f") {
				f, okf := litOf(args[k])
				if !okf {
					return nil, false
				}
				t, ok = c.format(f, e.variadic(st, args[k+1]))
			} else {
				t, ok = emptyB, true
				for i, v := range e.variadic(st, args[k]) {
					x, okx := c.text(v, 'v')
					ok = ok && okx
					if !ok {
						break
					}
					if i > 0 {
						if !strings.HasSuffix(name, "ln") {
							ok = false // spaces depend on the types
							break
						}
						t = cat(t, lit(" "))
					}
					t = cat(t, x)
				}
				if strings.HasSuffix(name, "ln") {
					t = cat(t, lit("\n"))
				}
			}
			if !ok {
				return nil, false
			}
			if w == nil {
				return VStr{t}, true
			}
			if p := c.bufio(st, w); p != nil {
				return c.pend(st, *p, t), true
			}
			err := e.writeTo(st, w, t, site)
			return VTuple{[]Val{VInt{lenB(t)}, err}}, true
		}
	}
	return nil
}

func boolN(b bool) *Node {
	if b {
		return bTrue
	}
	return bFalse
}

func encodingOf(v Val) string {
	if p, ok := v.(VPtr); ok {
		return strings.TrimSuffix(p.o.name, "*")
	}
	return describe(v)
}

func (c *cmdRun) file(nm string, t types.Type) *cmdFile {
	for _, f := range c.files {
		if f.name == nm {
			return f
		}
	}
	f := &cmdFile{name: nm, o: c.e.newObj("file "+nm, t)}
	c.files = append(c.files, f)
	return f
}

func ptrIn(v Val) (VPtr, bool) {
	if i, ok := v.(VIface); ok {
		v = i.v
	}
	p, ok := v.(VPtr)
	return p, ok
}

func (c *cmdRun) isFile(st *State, v Val) bool {
	p, ok := ptrIn(v)
	if !ok {
		return false
	}
	s, ok := st.mem[p.o].(VStream)
	for _, f := range c.files {
		if f.o == p.o {
			f.wrote = true
		}
	}
	return ok && strings.HasPrefix(s.name, "file:")
}

// rest takes all that is left of a reader.
func (c *cmdRun) rest(st *State, v Val, site *Site) (VPtr, *T) {
	p, cv := c.e.readerContent(st, v, site)
	switch x := cv.(type) {
	case VStream:
		if x.rem == nil {
			return p, nil
		}
		t := x.rem
		x.rem = emptyB
		st.mem[p.o] = x
		return p, t
	case VBuf:
		if !x.has {
			return p, emptyB
		}
		t, ok := c.e.sliceBytes(st, x.sl, site.pos)
		if !ok {
			return p, nil
		}
		return p, t
	}
	return p, nil
}

func (c *cmdRun) tupleAt(st *State, v Val, n int) *VPtr {
	p, ok := ptrIn(v)
	if !ok {
		return nil
	}
	if b, ok := st.mem[p.o].(VTuple); ok && len(b.f) == n {
		return &p
	}
	return nil
}

func (c *cmdRun) bufio(st *State, v Val) *VPtr   { return c.tupleAt(st, v, 2) }
func (c *cmdRun) scanner(st *State, v Val) *VPtr { return c.tupleAt(st, v, 3) }

func (c *cmdRun) pend(st *State, p VPtr, data *T) Val {
	b := st.mem[p.o].(VTuple)
	st.mem[p.o] = VTuple{[]Val{b.f[0], VStr{cat(b.f[1].(VStr).t, data)}}}
	return VTuple{[]Val{VInt{lenB(data)}, VNil{}}}
}

// encoded is the text of bytes; that of a non-empty string is not empty.
func encoded(op, enc string, data *T) *T {
	t := mkTerm(op, 'b', enc, data)
	if lo, _ := bounds(lenB(data)); lo != nil && lo.Sign() > 0 {
		symLo[lenB(t)] = big1
	} else {
		symLo[lenB(t)] = big0
	}
	symHi[lenB(t)] = pow2(40)
	return t
}

// nodeModel replaces the network and the protocol, whose calls are noted.
func (c *cmdRun) nodeModel(name string) cmdModel {
	e := c.e
	note := func(st *State, args []Val, site *Site, what string) *Event {
		ev := e.event("node", st, site, what)
		ev.vals = args
		ev.ok = e.okAtom(site, what)
		return ev
	}
	switch name {
	case "gitlab.com/alephledger/core-go/pkg/network/tcp.NewServer":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			// what the addresses are now
			args = append([]Val{}, args...)
			for i, a := range args {
				if _, ok := a.(VSlice); ok {
					args[i] = VTuple{e.variadic(st, a)}
				}
			}
			ev := note(st, args, site, "network")
			return VTuple{[]Val{mkUnion([]Alt{{ev.ok, VIface{netType, VOpq{sym('o', "network")}}}, {not(ev.ok), VNil{}}}), e.errUnion(ev.ok, e.freshErr(site))}}, true
		}
	case modPath + "/pkg/sync.NewServer":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			note(st, args, site, "server").ok = bTrue
			return VIface{serverType, VOpq{sym('o', "server")}}, true
		}
	case modPath + "/pkg/tecdsa.Init":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			ev := note(st, args, site, "Init")
			pt, ok := fn.Signature.Results().At(0).Type().(*types.Pointer)
			if !ok {
				return nil, false
			}
			p := e.ptrTo(st, site, "protocol", pt.Elem(), VOpq{sym('o', "protocol")})
			return VTuple{[]Val{mkUnion([]Alt{{ev.ok, p}, {not(ev.ok), VNil{}}}), e.errUnion(ev.ok, e.freshErr(site))}}, true
		}
	case "(*" + modPath + "/pkg/tecdsa.Protocol).Presign", "(*" + modPath + "/pkg/tecdsa.Protocol).Sign":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			if _, isNil := args[0].(VNil); isNil {
				e.mayPanic(st, site, bFalse, "nil protocol")
				return VNil{}, true
			}
			ev := note(st, args, site, fn.Name())
			err := e.errUnion(ev.ok, e.freshErr(site))
			if fn.Signature.Results().Len() == 1 {
				return err, true
			}
			return VTuple{[]Val{e.opaqueNamed(e.siteName(site, "signature"), fn.Signature.Results().At(0).Type()), err}}, true
		}
	case "flag.Parse":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) { return VNil{}, true }
	case "flag.StringVar", "flag.IntVar", "flag.UintVar", "flag.Int64Var", "flag.Uint64Var", "flag.String", "flag.Int", "flag.Uint", "flag.Int64", "flag.Uint64":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			k := 0
			if strings.HasSuffix(name, "Var") {
				k = 1
			}
			nm, ok := litOf(args[k])
			if !ok {
				return nil, false
			}
			v, ok := c.flags[nm]
			if !ok {
				v = args[k+1]
			}
			if k == 1 {
				p, ok := args[0].(VPtr)
				if !ok {
					return nil, false
				}
				e.store(st, p, v, site)
				return VNil{}, true
			}
			return e.ptrTo(st, site, "flag", fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), v), true
		}
	case "time.Parse", "time.ParseDuration":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			t := strT(args[len(args)-1])
			if t == nil {
				return nil, false
			}
			ok := bsym("ok:"+name, t)
			var v Val = VOpq{mkTerm("time", 'o', name, t)}
			if name == "time.ParseDuration" {
				x := mkTerm("duration", 'i', "", t)
				v = VInt{x}
			}
			return VTuple{[]Val{v, e.errUnion(ok, e.freshErr(site))}}, true
		}
	case "strings.ReplaceAll":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			t := strT(args[0])
			a, ok := litOf(args[1])
			b, ok2 := litOf(args[2])
			if t == nil || !ok || !ok2 {
				return nil, false
			}
			ps, ok := splitT(t, a, -1)
			if !ok {
				return VStr{mkTerm("replaced", 'b', a+"/"+b, t)}, true
			}
			out := ps[0]
			for _, p := range ps[1:] {
				out = cat(out, lit(b), p)
			}
			return VStr{out}, true
		}
	case "syscall.Dup2", "syscall.Dup3":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			return e.errUnion(e.okAtom(site, "dup"), e.freshErr(site)), true
		}
	case "(*os.File).Fd":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			return VInt{sym('i', "fd")}, true
		}
	case "os/signal.Notify":
		return func(st *State, args []Val, site *Site, fn *ssa.Function) (Val, bool) {
			// a signal may arrive
			if p, ok := args[0].(VPtr); ok {
				if ch, ok := st.mem[p.o].(VChan); ok {
					ch.items = append(append([]Write{}, ch.items...), Write{g: bTrue, val: VOpq{sym('o', "signal")}})
					st.mem[p.o] = ch
				}
			}
			return VNil{}, true
		}
	}
	return nil
}
