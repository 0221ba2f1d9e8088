package main

// Abstract values, objects and memory.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type VInt struct{ t *T }
type VBool struct{ b *Node }
type VStr struct{ t *T }
type VNil struct{}
type VPtr struct {
	o    *Obj
	inst []*T
	path []Step
}
type VSlice struct {
	arr         VPtr
	off, ln, cp *T
}
type VIface struct {
	typ types.Type
	v   Val
}
type VFunc struct {
	fn   *ssa.Function
	bind []Val
	name string // builtin or symbolic function
}
type VStruct struct{ f []Val }
type VTuple struct{ f []Val }
type VBytes struct{ t *T } // content of a byte array
type VPoint struct{ t *T } // abstract group element
type VOpq struct {
	t *T
}
type VErr struct { // a non-nil error value
	t    *T
	args []Val
}

// VArr is the content of an array: a base overlaid with writes, oldest first.
type VArr struct {
	n    *T
	elem types.Type
	base string // "zero", "sym:<name>", "opaque:<name>"
	idx  []*T   // leading instance indices of a symbolic base
	w    []Write
}
type Write struct {
	v   *T    // bound variable, nil for a single write
	n   *T    // 0 <= v < n
	g   *Node // the write happens iff g
	idx *T
	val Val
}

// VBuf is the content of a bytes.Buffer, bytes.Reader or strings.Builder: the unread part.
type VBuf struct {
	sl    VSlice // storage; invalid while nothing was written
	has   bool
	stale bool // reset since the last write
	log   *T   // what was read, as a byte string
}

// VStream is the content of an abstract reader or writer.
type VStream struct {
	name  string
	rem   *T // remaining content (readers)
	log   *T // what was read or written
	read  bool
	chunk bool // reads may be short
	sure  bool // never fails
}

// VChan is the content of a channel.
type VChan struct {
	items  []Write
	closed bool
}

type Alt struct {
	g *Node
	v Val
}
type VUnion struct{ alts []Alt }

type Step struct {
	f   int
	idx *T
}

type Obj struct {
	id     int
	name   string
	typ    types.Type
	kappas []*T
	input  bool // belongs to the caller, or shared
	global bool
	pos    token.Pos
	fn     *ssa.Function
	symb   string // symbolic base name
}

type State struct {
	pc  *Node
	mem map[*Obj]Val
}

func (s *State) clone() *State {
	m := make(map[*Obj]Val, len(s.mem)+4)
	for k, v := range s.mem {
		m[k] = v
	}
	return &State{s.pc, m}
}

func samePath(a, b []Step) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func sameTs(a, b []*T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func valEq(a, b Val) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case VInt:
		b, ok := b.(VInt)
		return ok && a.t == b.t
	case VBool:
		b, ok := b.(VBool)
		return ok && a.b == b.b
	case VStr:
		b, ok := b.(VStr)
		return ok && a.t == b.t
	case VNil:
		_, ok := b.(VNil)
		return ok
	case VPtr:
		b, ok := b.(VPtr)
		return ok && a.o == b.o && sameTs(a.inst, b.inst) && samePath(a.path, b.path)
	case VSlice:
		b, ok := b.(VSlice)
		return ok && valEq(a.arr, b.arr) && a.off == b.off && a.ln == b.ln && a.cp == b.cp
	case VIface:
		b, ok := b.(VIface)
		return ok && ((a.typ == nil && b.typ == nil) || (a.typ != nil && b.typ != nil && types.Identical(a.typ, b.typ))) && valEq(a.v, b.v)
	case VFunc:
		b, ok := b.(VFunc)
		if !ok || a.fn != b.fn || a.name != b.name || len(a.bind) != len(b.bind) {
			return false
		}
		return valsEq(a.bind, b.bind)
	case VStruct:
		b, ok := b.(VStruct)
		return ok && valsEq(a.f, b.f)
	case VTuple:
		b, ok := b.(VTuple)
		return ok && valsEq(a.f, b.f)
	case VBytes:
		b, ok := b.(VBytes)
		return ok && a.t == b.t
	case VPoint:
		b, ok := b.(VPoint)
		return ok && a.t == b.t
	case VOpq:
		b, ok := b.(VOpq)
		return ok && a.t == b.t
	case VErr:
		b, ok := b.(VErr)
		return ok && a.t == b.t
	case VArr:
		b, ok := b.(VArr)
		if !ok || a.n != b.n || a.base != b.base || len(a.w) != len(b.w) || !sameTs(a.idx, b.idx) {
			return false
		}
		for i := range a.w {
			if !writeEq(a.w[i], b.w[i]) {
				return false
			}
		}
		return true
	case VBuf:
		b, ok := b.(VBuf)
		return ok && a.has == b.has && a.stale == b.stale && a.log == b.log && (!a.has || valEq(a.sl, b.sl))
	case VStream:
		b, ok := b.(VStream)
		return ok && a == b
	case VChan:
		b, ok := b.(VChan)
		if !ok || a.closed != b.closed || len(a.items) != len(b.items) {
			return false
		}
		for i := range a.items {
			if !writeEq(a.items[i], b.items[i]) {
				return false
			}
		}
		return true
	case *VUnion:
		b, ok := b.(*VUnion)
		if !ok || len(a.alts) != len(b.alts) {
			return false
		}
		for i := range a.alts {
			if a.alts[i].g != b.alts[i].g || !valEq(a.alts[i].v, b.alts[i].v) {
				return false
			}
		}
		return true
	}
	panic(fmt.Sprintf("valEq %T", a))
}

func writeEq(a, b Write) bool {
	return a.v == b.v && a.n == b.n && a.g == b.g && a.idx == b.idx && valEq(a.val, b.val)
}

func valsEq(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !valEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

// mkUnion builds a value from alternatives with disjoint guards.
func mkUnion(alts []Alt) Val {
	var flat []Alt
	var push func(g *Node, v Val)
	push = func(g *Node, v Val) {
		if g == bFalse {
			return
		}
		if u, ok := v.(*VUnion); ok {
			for _, a := range u.alts {
				push(and(g, a.g), a.v)
			}
			return
		}
		for i := range flat {
			if valEq(flat[i].v, v) {
				flat[i].g = or(flat[i].g, g)
				return
			}
		}
		flat = append(flat, Alt{g, v})
	}
	for _, a := range alts {
		push(a.g, a.v)
	}
	if len(flat) == 0 {
		return nil
	}
	if len(flat) == 1 {
		return flat[0].v
	}
	// structural merging
	allBool, allStruct, allTuple, allArr := true, true, true, true
	for _, a := range flat {
		if _, ok := a.v.(VBool); !ok {
			allBool = false
		}
		if s, ok := a.v.(VStruct); !ok || len(s.f) != lenStruct(flat[0].v) {
			allStruct = false
		}
		if s, ok := a.v.(VTuple); !ok || len(s.f) != lenTuple(flat[0].v) {
			allTuple = false
		}
		if _, ok := a.v.(VArr); !ok {
			allArr = false
		}
	}
	if allBool {
		r := bFalse
		for _, a := range flat {
			r = or(r, and(a.g, a.v.(VBool).b))
		}
		return VBool{r}
	}
	if allStruct || allTuple {
		var n int
		get := func(v Val, i int) Val {
			if allStruct {
				return v.(VStruct).f[i]
			}
			return v.(VTuple).f[i]
		}
		if allStruct {
			n = lenStruct(flat[0].v)
		} else {
			n = lenTuple(flat[0].v)
		}
		fs := make([]Val, n)
		for i := range fs {
			as := make([]Alt, len(flat))
			for j, a := range flat {
				as[j] = Alt{a.g, get(a.v, i)}
			}
			fs[i] = mkUnion(as)
		}
		if allStruct {
			return VStruct{fs}
		}
		return VTuple{fs}
	}
	if allArr {
		if r, ok := mergeArr(flat); ok {
			return r
		}
	}
	return &VUnion{flat}
}

func lenStruct(v Val) int {
	if s, ok := v.(VStruct); ok {
		return len(s.f)
	}
	return -1
}
func lenTuple(v Val) int {
	if s, ok := v.(VTuple); ok {
		return len(s.f)
	}
	return -1
}

func mergeArr(flat []Alt) (Val, bool) {
	a0 := flat[0].v.(VArr)
	common := len(a0.w)
	for _, a := range flat[1:] {
		b := a.v.(VArr)
		if b.base != a0.base || b.n != a0.n || !sameTs(a0.idx, b.idx) {
			return nil, false
		}
		i := 0
		for i < common && i < len(b.w) && writeEq(a0.w[i], b.w[i]) {
			i++
		}
		common = i
	}
	out := a0
	out.w = append([]Write{}, a0.w[:common]...)
	for _, a := range flat {
		for _, w := range a.v.(VArr).w[common:] {
			w.g = and(w.g, a.g)
			out.w = append(out.w, w)
		}
	}
	return out, true
}

// ---- substitution in values

func (s *subster) v(v Val) Val {
	ts := func(a []*T) []*T {
		r := make([]*T, len(a))
		for i := range a {
			r[i] = s.t(a[i])
		}
		return r
	}
	vs := func(a []Val) []Val {
		r := make([]Val, len(a))
		for i := range a {
			r[i] = s.v(a[i])
		}
		return r
	}
	ws := func(a []Write) []Write {
		r := make([]Write, len(a))
		for i, w := range a {
			r[i] = Write{w.v, s.t(w.n), s.n(w.g), s.t(w.idx), s.v(w.val)}
		}
		return r
	}
	switch v := v.(type) {
	case nil, VNil:
		return v
	case VInt:
		return VInt{s.t(v.t)}
	case VBool:
		return VBool{s.n(v.b)}
	case VStr:
		return VStr{s.t(v.t)}
	case VPtr:
		p := make([]Step, len(v.path))
		for i, x := range v.path {
			p[i] = Step{x.f, s.t(x.idx)}
		}
		return VPtr{v.o, ts(v.inst), p}
	case VSlice:
		return VSlice{s.v(v.arr).(VPtr), s.t(v.off), s.t(v.ln), s.t(v.cp)}
	case VIface:
		return VIface{v.typ, s.v(v.v)}
	case VFunc:
		return VFunc{v.fn, vs(v.bind), v.name}
	case VStruct:
		return VStruct{vs(v.f)}
	case VTuple:
		return VTuple{vs(v.f)}
	case VBytes:
		return VBytes{s.t(v.t)}
	case VPoint:
		return VPoint{s.t(v.t)}
	case VOpq:
		return VOpq{s.t(v.t)}
	case VErr:
		return VErr{s.t(v.t), vs(v.args)}
	case VArr:
		return VArr{s.t(v.n), v.elem, v.base, ts(v.idx), ws(v.w)}
	case VBuf:
		if v.has {
			return VBuf{s.v(v.sl).(VSlice), true, v.stale, s.t(v.log)}
		}
		return VBuf{has: false, stale: v.stale, log: s.t(v.log)}
	case VStream:
		return VStream{v.name, s.t(v.rem), s.t(v.log), v.read, v.chunk, v.sure}
	case VChan:
		return VChan{ws(v.items), v.closed}
	case *VUnion:
		as := make([]Alt, len(v.alts))
		for i, a := range v.alts {
			as[i] = Alt{s.n(a.g), s.v(a.v)}
		}
		return mkUnion(as)
	}
	panic(fmt.Sprintf("subst %T", v))
}

func substV(v Val, m map[*T]*T) Val { return newSubst(m).v(v) }

// ---- types

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func intInfo(t types.Type) (bits int, signed, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 64, false, true
}

// opaqueTypes are library types whose content is one unit.
func (e *Eng) zero(t types.Type) Val {
	switch namedPath(t) {
	case "math/big.Int":
		return VInt{num(0)}
	case "bytes.Buffer", "bytes.Reader", "strings.Builder", "strings.Reader":
		return VBuf{log: emptyB}
	case "time.Time", "sync.WaitGroup", "sync.Mutex", "sync.RWMutex", "sync.Once":
		return VOpq{sym('o', "zero:"+namedPath(t))}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{bFalse}
		case u.Info()&types.IsInteger != 0:
			return VInt{num(0)}
		case u.Info()&types.IsString != 0:
			return VStr{emptyB}
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return VNil{}
		}
		return VOpq{sym('o', "zero:"+t.String())}
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = e.zero(u.Field(i).Type())
		}
		return VStruct{fs}
	case *types.Array:
		if isByte(u.Elem()) {
			return VBytes{zeroB(num(u.Len()))}
		}
		return VArr{n: num(u.Len()), elem: u.Elem(), base: "zero"}
	case *types.Tuple:
		fs := make([]Val, u.Len())
		for i := range fs {
			fs[i] = e.zero(u.At(i).Type())
		}
		return VTuple{fs}
	}
	return VNil{}
}

// symContent is the symbolic content of a variable of type t.
func (e *Eng) symContent(name string, t types.Type, idx []*T) Val {
	np := namedPath(t)
	switch np {
	case "math/big.Int":
		return VInt{e.symInt(name, idx)}
	case "bytes.Buffer", "bytes.Reader", "strings.Builder":
		return VBuf{log: emptyB}
	case "time.Time", "sync.WaitGroup", "sync.Mutex", "sync.RWMutex", "sync.Once":
		return VOpq{sym('o', name, idx...)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{bsym(name, idx...)}
		case u.Info()&types.IsInteger != 0:
			b, s, _ := intInfo(t)
			lo, hi := typeRange(b, s)
			r := symRange(name, lo, hi, idx...)
			return VInt{r}
		case u.Info()&types.IsString != 0:
			return VStr{sym('b', name, idx...)}
		}
		return VOpq{sym('o', name, idx...)}
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = e.symContent(name+"."+u.Field(i).Name(), u.Field(i).Type(), idx)
		}
		return VStruct{fs}
	case *types.Array:
		if isByte(u.Elem()) {
			return VBytes{mkTerm("rd", 'b', name, append([]*T{num(u.Len())}, idx...)...)}
		}
		return VArr{n: num(u.Len()), elem: u.Elem(), base: "sym:" + name, idx: idx}
	case *types.Pointer:
		return VPtr{o: e.inputObj(name, u.Elem(), len(idx)), inst: idx}
	case *types.Slice:
		ln := symRange(name+".len", big0, pow2(40), idx...)
		if isByte(u.Elem()) {
			b := sym('b', name, idx...)
			ln = lenB(b)
			o := e.inputObj(name+"[]", types.NewSlice(u.Elem()), len(idx))
			e.bytesOf[o] = name
			return VSlice{VPtr{o: o, inst: idx}, num(0), ln, symRange(name+".cap", big0, pow2(40), idx...)}
		}
		o := e.inputObj(name+"[]", types.NewSlice(u.Elem()), len(idx))
		return VSlice{VPtr{o: o, inst: idx}, num(0), ln, symRange(name+".cap", big0, pow2(40), idx...)}
	case *types.Interface:
		if np == "error" {
			return VErr{t: sym('o', name, idx...)}
		}
		if np == modPath+"/pkg/curve.Point" && !e.concreteGroup {
			return VPoint{sym('p', name, idx...)}
		}
		if np == modPath+"/pkg/curve.Group" && !e.concreteGroup {
			return VIface{absGroup, VNil{}}
		}
		if np == "io.Reader" || np == "io.Writer" {
			o := e.inputObj(name, streamType, len(idx))
			return VIface{streamType, VPtr{o: o, inst: idx}}
		}
		return VIface{nil, VOpq{sym('o', name, idx...)}}
	case *types.Signature:
		return VFunc{name: "sym:" + name}
	}
	return VOpq{sym('o', name, idx...)}
}

var absGroup types.Type = types.NewNamed(types.NewTypeName(token.NoPos, nil, "AbstractGroup", nil), types.NewStruct(nil, nil), nil)
var streamType types.Type = types.NewNamed(types.NewTypeName(token.NoPos, nil, "AbstractStream", nil), types.NewStruct(nil, nil), nil)
var randType types.Type = types.NewNamed(types.NewTypeName(token.NoPos, nil, "CryptoRand", nil), types.NewStruct(nil, nil), nil)

func (e *Eng) symInt(name string, idx []*T) *T {
	if e.symIntHook != nil {
		if lo, hi, ok := e.symIntHook(name); ok {
			return symRange(name, lo, hi, idx...)
		}
	}
	return sym('i', name, idx...)
}

func (e *Eng) inputObj(name string, t types.Type, nidx int) *Obj {
	if o, ok := e.inputs[name]; ok {
		return o
	}
	o := e.newObj(name, t)
	o.input = true
	o.symb = name
	for i := 0; i < nidx; i++ {
		o.kappas = append(o.kappas, sym('i', fmt.Sprintf("κin%d", i)))
	}
	e.inputs[name] = o
	return o
}

func (e *Eng) newObj(name string, t types.Type) *Obj {
	e.objSeq++
	return &Obj{id: e.objSeq, name: name, typ: t}
}

// content returns the content of the object at the instance, materialising symbolic content.
func (e *Eng) baseContent(o *Obj, inst []*T) Val {
	if o.symb == "" {
		return nil
	}
	if sl, ok := o.typ.(*types.Slice); ok { // backing array of a symbolic slice
		if isByte(sl.Elem()) {
			return VBytes{sym('b', o.symb[:len(o.symb)-2], inst...)}
		}
		return VArr{elem: sl.Elem(), base: "sym:" + o.symb, idx: inst}
	}
	if o.typ == streamType {
		return VStream{name: o.symb, log: emptyB, rem: sym('b', "in:"+o.symb, inst...), read: true, chunk: true}
	}
	return e.symContent(o.symb, o.typ, inst)
}

func describe(v Val) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case VNil:
		return "nil"
	case VInt:
		return v.t.String()
	case VBool:
		return v.b.String()
	case VStr:
		return "str:" + v.t.String()
	case VPoint:
		return "pt:" + v.t.String()
	case VBytes:
		return "bytes:" + v.t.String()
	case VOpq:
		return "?" + v.t.String()
	case VErr:
		return "error(" + v.t.String() + ")"
	case VPtr:
		s := "&" + v.o.name + fmt.Sprintf("#%d", v.o.id)
		for _, i := range v.inst {
			s += "<" + i.String() + ">"
		}
		for _, p := range v.path {
			if p.idx != nil {
				s += "[" + p.idx.String() + "]"
			} else {
				s += fmt.Sprintf(".%d", p.f)
			}
		}
		return s
	case VSlice:
		return describe(v.arr) + "[" + v.off.String() + ":+" + v.ln.String() + "]"
	case VIface:
		if v.typ == nil {
			return "iface(?," + describe(v.v) + ")"
		}
		return "iface(" + v.typ.String() + "," + describe(v.v) + ")"
	case VStruct:
		var s []string
		for _, f := range v.f {
			s = append(s, describe(f))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case VTuple:
		var s []string
		for _, f := range v.f {
			s = append(s, describe(f))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case VFunc:
		if v.fn != nil {
			return "func " + v.fn.Name()
		}
		return "func " + v.name
	case VArr:
		s := "arr(" + v.base
		for _, w := range v.w {
			s += "; "
			if w.v != nil {
				s += "∀" + w.v.String() + "<" + w.n.String() + " "
			}
			if w.g != bTrue {
				s += w.g.String() + "? "
			}
			s += "[" + w.idx.String() + "]=" + describe(w.val)
		}
		return s + ")"
	case VBuf:
		if v.has {
			return "buf(" + describe(v.sl) + ")"
		}
		return "buf()"
	case VStream:
		return "stream(" + v.name + ", log=" + v.log.String() + ")"
	case *VUnion:
		var s []string
		for _, a := range v.alts {
			s = append(s, a.g.String()+" ? "+describe(a.v))
		}
		return "⟨" + strings.Join(s, " | ") + "⟩"
	}
	return fmt.Sprintf("%T", v)
}
