package main

// Values, memory regions and symbolic states.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Unsupported is thrown (as a Go panic) for constructs outside the verified subset; it becomes a failed obligation.
type Unsupported struct{ msg string }

func unsupported(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

type Value interface{}

type StructV struct {
	typ types.Type
	f   []Value
}
type SliceV struct{ arr, off, len, cap *Term }
type TupleV []Value
type ClosureV struct {
	fn    *ssa.Function
	binds []Value
	id    *Term
}
type IterV struct {
	m      *Term
	mt     *types.Map
	region string
}
type BuiltinV struct{ b *ssa.Builtin }

// Addr is an address; ref/idx are nil for globals.
type Addr struct {
	kind byte // 'o' object, 'e' element, 'g' global
	root types.Type
	ref  *Term
	idx  *Term
	path string
	name string // global
	typ  types.Type
}

// Mem is a persistent function from argument terms to terms.
type Mem struct {
	name string
	prev *Mem
	cond func(a []*Term) *Term
	val  func(a []*Term) *Term
	base *Sym
	memo map[string]*Term
}

func (m *Mem) read(b *TB, a []*Term) *Term {
	if m.base != nil {
		return b.App(m.base, a...)
	}
	if len(a) > 0 && a[0].op == OIte {
		x, y := append([]*Term{}, a...), append([]*Term{}, a...)
		x[0], y[0] = a[0].args[1], a[0].args[2]
		return b.Ite(a[0].args[0], m.read(b, x), m.read(b, y))
	}
	var sb strings.Builder
	for _, t := range a {
		fmt.Fprintf(&sb, "%d,", t.id)
	}
	k := sb.String()
	if t, ok := m.memo[k]; ok {
		return t
	}
	c := m.cond(a)
	var r *Term
	switch c {
	case b.True:
		r = m.val(a)
	case b.False:
		r = m.prev.read(b, a)
	default:
		r = b.Ite(c, m.val(a), m.prev.read(b, a))
	}
	if m.memo == nil {
		m.memo = map[string]*Term{}
	}
	m.memo[k] = r
	return r
}

// ---- types

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func tname(t types.Type) string {
	if al, ok := t.(*types.Alias); ok {
		return tname(types.Unalias(al))
	}
	if bt, ok := t.(*types.Basic); ok {
		switch bt.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
	}
	if s, ok := tnames.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(unnamed(t), func(p *types.Package) string {
		if p.Path() == repoPath {
			return ""
		}
		return p.Path()
	})
	s = strings.ReplaceAll(s, "interface {}", "any")
	s = strings.ReplaceAll(s, "interface{}", "any")
	tnames.Store(t, s)
	return s
}

var tnames sync.Map

// unnamed: the same type without the names of parameters, which do not make types different
func unnamed(t types.Type) types.Type {
	switch x := t.(type) {
	case *types.Alias:
		return unnamed(types.Unalias(x))
	case *types.Basic:
		if x.Kind() == types.Uint8 || x.Kind() == types.Int32 {
			return types.Typ[x.Kind()]
		}
	case *types.Pointer:
		return types.NewPointer(unnamed(x.Elem()))
	case *types.Slice:
		return types.NewSlice(unnamed(x.Elem()))
	case *types.Array:
		return types.NewArray(unnamed(x.Elem()), x.Len())
	case *types.Chan:
		return types.NewChan(x.Dir(), unnamed(x.Elem()))
	case *types.Map:
		return types.NewMap(unnamed(x.Key()), unnamed(x.Elem()))
	case *types.Signature:
		tuple := func(u *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < u.Len(); i++ {
				vs = append(vs, types.NewVar(0, nil, "", unnamed(u.At(i).Type())))
			}
			return types.NewTuple(vs...)
		}
		return types.NewSignatureType(nil, nil, nil, tuple(x.Params()), tuple(x.Results()), x.Variadic())
	}
	return t
}

type leafKind uint8

const (
	kInt leafKind = iota
	kBool
	kStr
	kRef   // pointer, map, chan, slice backing array
	kIface // interface value
	kFunc
	kOpaque
	kLen // slice len/cap/off
)

type Leaf struct {
	path string
	kind leafKind
	typ  types.Type
}

var maxLen = pow2(47)

// opaque struct types are handled as one integer
func isOpaque(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil || n.Obj().Pkg().Path() == repoPath {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			return true
		}
	}
	return false
}

func leavesOf(t types.Type) []Leaf {
	if isOpaque(t) {
		return []Leaf{{"", kOpaque, t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", kBool, t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", kStr, t}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", kInt, t}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", kRef, t}}
		}
		return []Leaf{{"", kOpaque, t}}
	case *types.Pointer, *types.Map, *types.Chan:
		return []Leaf{{"", kRef, t}}
	case *types.Interface:
		return []Leaf{{"", kIface, t}}
	case *types.Signature:
		return []Leaf{{"", kFunc, t}}
	case *types.Slice:
		return []Leaf{{"#arr", kRef, t}, {"#off", kLen, t}, {"#len", kLen, t}, {"#cap", kLen, t}}
	case *types.Struct:
		var r []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leavesOf(f.Type()) {
				r = append(r, Leaf{"." + f.Name() + l.path, l.kind, l.typ})
			}
		}
		return r
	case *types.Array:
		return []Leaf{{"", kOpaque, t}}
	}
	return []Leaf{{"", kOpaque, t}}
}

func leafSort(l Leaf) Sort {
	if l.kind == kBool {
		return SBool
	}
	return SInt
}

// integer type description: bits, signed
func intInfo(t types.Type) (uint, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func intRange(t types.Type) (*big.Int, *big.Int) {
	w, s := intInfo(t)
	if s {
		return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), big1)
	}
	return big0, new(big.Int).Sub(pow2(w), big1)
}

func (l Leaf) apply(s *Sym) {
	switch l.kind {
	case kInt:
		s.lo, s.hi = intRange(l.typ)
	case kRef:
		s.ref = true
	case kIface, kFunc, kStr:
		s.lo = big0
	case kLen:
		s.lo, s.hi = big0, maxLen
	}
}

// groupSyms makes base symbols for all leaves of a cell type together (so that slice facts can relate them).
func (t *Task) groupSyms(prefix string, ls []Leaf, arity int, clock int, heap bool) []*Sym {
	b := t.b
	out := make([]*Sym, len(ls))
	for i, l := range ls {
		s := b.NewSym(prefix+l.path, leafSort(l), arity)
		if clock > 0 {
			s.clock = clock
		}
		s.heap = heap
		l.apply(s)
		out[i] = s
	}
	for i, l := range ls {
		if strings.HasSuffix(l.path, "#arr") && l.kind == kRef && i+3 < len(ls)+0 && strings.HasSuffix(ls[i+3].path, "#cap") {
			arr, ln, cp := out[i], out[i+2], out[i+3]
			f := func(x *Term) []*Term {
				a := x.args
				A, L, C := b.App(arr, a...), b.App(ln, a...), b.App(cp, a...)
				return []*Term{
					b.mk(&Term{op: OLe0, sort: SBool, args: []*Term{b.Sub(L, C)}}),
					b.Or(b.mk(&Term{op: ONot, sort: SBool, args: []*Term{b.mk(&Term{op: OEq0, sort: SBool, args: []*Term{A}})}}), b.mk(&Term{op: OEq0, sort: SBool, args: []*Term{C}})),
				}
			}
			ln.facts, cp.facts, arr.facts = f, f, f
		}
	}
	return out
}

// freshVal makes an arbitrary value of the type.
func (t *Task) freshVal(name string, typ types.Type) Value {
	ls := leavesOf(typ)
	if tp, ok := typ.(*types.Tuple); ok {
		tv := TupleV{}
		for i := 0; i < tp.Len(); i++ {
			tv = append(tv, t.freshVal(fmt.Sprintf("%s.%d", name, i), tp.At(i).Type()))
		}
		return tv
	}
	syms := t.groupSyms(name, ls, 0, 0, false)
	ts := make([]*Term, len(ls))
	for i := range ls {
		ts[i] = t.b.App(syms[i])
	}
	return t.unflatten(ts, typ)
}

func (t *Task) zeroVal(typ types.Type) Value {
	if tp, ok := typ.(*types.Tuple); ok {
		tv := TupleV{}
		for i := 0; i < tp.Len(); i++ {
			tv = append(tv, t.zeroVal(tp.At(i).Type()))
		}
		return tv
	}
	ls := leavesOf(typ)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = t.zeroLeaf(l)
	}
	return t.unflatten(ts, typ)
}
func (t *Task) zeroLeaf(l Leaf) *Term {
	if l.kind == kBool {
		return t.b.False
	}
	return t.b.Zero
}

func (t *Task) unflatten(ts []*Term, typ types.Type) Value {
	v, rest := t.unfl(ts, typ)
	if len(rest) != 0 {
		panic("unflatten")
	}
	return v
}
func (t *Task) unfl(ts []*Term, typ types.Type) (Value, []*Term) {
	if isOpaque(typ) {
		return ts[0], ts[1:]
	}
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Struct:
		sv := &StructV{typ: typ}
		for i := 0; i < u.NumFields(); i++ {
			var v Value
			v, ts = t.unfl(ts, u.Field(i).Type())
			sv.f = append(sv.f, v)
		}
		return sv, ts
	case *types.Signature:
		return ts[0], ts[1:]
	}
	return ts[0], ts[1:]
}

func (t *Task) flatten(v Value) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SliceV:
		return []*Term{x.arr, x.off, x.len, x.cap}
	case *StructV:
		var r []*Term
		for _, f := range x.f {
			r = append(r, t.flatten(f)...)
		}
		return r
	case *ClosureV:
		return []*Term{x.id}
	case *Addr:
		if x.kind == 'o' && x.path == "" {
			return []*Term{x.ref}
		}
		if x.kind == 'g' && x.path == "" {
			return []*Term{t.globalRef(x.name)}
		}
		unsupported("storing an interior pointer (%c %s%s)", x.kind, tname(x.root), x.path)
	case nil:
		unsupported("nil value")
	}
	unsupported("flatten %T", v)
	return nil
}

func (t *Task) globalRef(name string) *Term {
	s := t.b.Fn("gref_"+name, SInt, 0)
	s.ref = true
	s.lo = big1
	return t.b.App(s)
}

// ---- state

type pcNode struct {
	t    *Term
	prev *pcNode
	n    int
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	site ssa.Instruction
}

type activeLoop struct{ l *Loop }

type Frame struct {
	fn          *ssa.Function
	env         map[ssa.Value]Value
	block       *ssa.BasicBlock
	pred        *ssa.BasicBlock
	ip          int
	defers      []*deferred
	retTo       ssa.Value // value in the caller that receives the result
	isDefer     bool      // called as a deferred function
	unwind      bool      // running defers because of a panic
	loops       []*Loop
	recovers    bool
	unwindSaved *pendingPanic
	result      Value
	depthID     int
	afterRet    func(st *State, res Value) // run when this frame returns normally
}

type State struct {
	t         *Task
	pc        *pcNode
	mem       map[string]*Mem
	epoch     *epochT
	frames    []*Frame
	panicV    Value // *Term when panicking
	panicAt   string
	iters     map[string]*IterV
	acq       []acqRec
	acqMem    map[string]*Snapshot
	term      string
	joins     []joinPt
	steps     int
	trace     []string
	goro      bool
	goFn      *ssa.Function
	run       bool             // a function run by a hook
	constRefs []*Term          // cells known never to change (captured variables written once)
	logic     map[string]Value // entry values named by the contract
	entry     *Snapshot
	dead      bool
	ghostB    map[string]*Term
	names     map[string]Value
}

type acqRec struct {
	lock *Term
	snap *Snapshot
	w    bool
}

type epochT struct {
	id    int
	clock int
	bases map[string]*Mem
	prev  *epochT
	merge *mergeEp
}

type Snapshot struct {
	mem   map[string]*Mem
	epoch *epochT
}

func (st *State) snap() *Snapshot {
	m := make(map[string]*Mem, len(st.mem))
	for k, v := range st.mem {
		m[k] = v
	}
	return &Snapshot{m, st.epoch}
}

func (st *State) assume(c *Term) {
	if c == st.t.b.True {
		return
	}
	if c == st.t.b.False {
		st.dead = true
	}
	n := 0
	if st.pc != nil {
		n = st.pc.n
	}
	// avoid duplicates cheaply
	for p, i := st.pc, 0; p != nil && i < 40; p, i = p.prev, i+1 {
		if p.t == c {
			return
		}
	}
	st.pc = &pcNode{c, st.pc, n + 1}
}
func (st *State) pcList() []*Term {
	var r []*Term
	for p := st.pc; p != nil; p = p.prev {
		r = append(r, p.t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) fork() *State {
	n := *st
	n.mem = make(map[string]*Mem, len(st.mem))
	for k, v := range st.mem {
		n.mem[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Value, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]*deferred{}, f.defers...)
		g.loops = append([]*Loop{}, f.loops...)
		n.frames[i] = &g
	}
	n.acq = append([]acqRec{}, st.acq...)
	n.trace = append([]string{}, st.trace...)
	return &n
}

// region returns the current memory of a region, creating its base lazily.
// mk describes how to create base symbols: the group of leaves sharing prefix.
func (st *State) region(name string, arity int, srt Sort) *Mem {
	if m, ok := st.mem[name]; ok {
		return m
	}
	return st.t.baseRegion(st.epoch, name, arity, srt)
}
func (s *Snapshot) region(t *Task, name string, arity int, srt Sort) *Mem {
	if m, ok := s.mem[name]; ok {
		return m
	}
	return t.baseRegion(s.epoch, name, arity, srt)
}

func (t *Task) baseRegion(e *epochT, name string, arity int, srt Sort) *Mem {
	for e.prev != nil && t.isStable(name) {
		e = e.prev
	}
	if m, ok := e.bases[name]; ok {
		return m
	}
	if e.merge != nil {
		g, u, v := e.merge, e.merge.a.region(t, name, arity, srt), e.merge.b.region(t, name, arity, srt)
		m := u
		if u != v {
			m = &Mem{name: name, prev: u, cond: func(a []*Term) *Term { return t.b.Not(g.sel) }, val: func(a []*Term) *Term { return v.read(t.b, a) }}
		}
		e.bases[name] = m
		return m
	}
	// ghost locks start released, iterators start empty
	if info, ok := t.regInfo[name]; ok {
		syms := t.groupSyms(fmt.Sprintf("%s@%d", info.prefix, e.id), info.leaves, info.arity, e.clock, true)
		for i, l := range info.leaves {
			n := info.prefix + l.path
			if _, ok := e.bases[n]; !ok {
				e.bases[n] = &Mem{name: n, base: syms[i]}
			}
		}
		return e.bases[name]
	}
	s := t.b.NewSym(fmt.Sprintf("%s@%d", name, e.id), srt, arity)
	s.clock = e.clock
	s.heap = true
	m := &Mem{name: name, base: s}
	e.bases[name] = m
	return m
}

type regionInfo struct {
	prefix string
	leaves []Leaf
	arity  int
}

// declare a group of regions for a cell type
func (t *Task) declRegion(prefix string, ls []Leaf, arity int) {
	for _, l := range ls {
		n := prefix + l.path
		if _, ok := t.regInfo[n]; !ok {
			// group by maximal cell: slices must stay together
			t.regInfo[n] = &regionInfo{prefix, ls, arity}
			t.regArity[n] = arity
			t.regSort[n] = leafSort(l)
		}
	}
}

func (a *Addr) prefix() string {
	switch a.kind {
	case 'o':
		return "o:" + tname(a.root) + a.path
	case 'e':
		return "e:" + tname(a.root) + a.path
	}
	return "g:" + a.name + a.path
}
func (a *Addr) args() []*Term {
	switch a.kind {
	case 'o':
		return []*Term{a.ref}
	case 'e':
		return []*Term{a.ref, a.idx}
	}
	return nil
}

func (st *State) loadAt(sn *Snapshot, a *Addr) Value {
	t := st.t
	ls := leavesOf(a.typ)
	p := a.prefix()
	if a.kind == 'g' && strings.Contains(a.name, ".") {
		// globals of other packages are constants
		ts := make([]*Term, len(ls))
		for i, l := range ls {
			s := t.b.Fn("ext_"+a.name+a.path+l.path, leafSort(l), 0)
			l.apply(s)
			if l.kind == kRef || l.kind == kIface || l.kind == kFunc {
				s.lo = big1
			}
			ts[i] = t.b.App(s)
		}
		return t.unflatten(ts, a.typ)
	}
	if _, ok := a.typ.Underlying().(*types.Array); ok && a.kind != 'e' {
		unsupported("load of array value")
	}
	t.declRegion(p, ls, len(a.args()))
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		var m *Mem
		if sn != nil {
			m = sn.region(t, p+l.path, len(a.args()), leafSort(l))
		} else {
			m = st.region(p+l.path, len(a.args()), leafSort(l))
		}
		ts[i] = m.read(t.b, a.args())
	}
	v := t.unflatten(ts, a.typ)
	return t.reclosure(v, a.typ)
}

// reclosure turns a known function id back into a closure
func (t *Task) reclosure(v Value, typ types.Type) Value {
	if x, ok := v.(*Term); ok {
		if c, ok := t.closures[x]; ok {
			return c
		}
	}
	return v
}

func (st *State) load(a *Addr) Value { return st.loadAt(nil, a) }

func (st *State) store(a *Addr, v Value) {
	t := st.t
	ls := leavesOf(a.typ)
	p := a.prefix()
	t.declRegion(p, ls, len(a.args()))
	ts := t.flatten(v)
	if len(ts) != len(ls) {
		unsupported("store mismatch %s: %d leaves, %d terms", tname(a.typ), len(ls), len(ts))
	}
	for i, l := range ls {
		st.write(p+l.path, a.args(), ts[i], leafSort(l))
	}
}

// write updates one location of a region.
func (st *State) write(region string, args []*Term, v *Term, srt Sort) {
	t := st.t
	prev := st.region(region, len(args), srt)
	st.note(region, args)
	args = append([]*Term{}, args...)
	st.mem[region] = &Mem{name: region, prev: prev, cond: func(a []*Term) *Term {
		cs := make([]*Term, len(a))
		for i := range a {
			cs[i] = t.b.Eq(a[i], args[i])
			if cs[i] == t.b.False {
				return t.b.False
			}
		}
		return t.b.And(cs...)
	}, val: func(a []*Term) *Term { return v }}
}

// update writes a whole set of locations under condition cond; ref is the reference concerned (nil: unknown/any).
func (st *State) update(region string, arity int, srt Sort, ref *Term, cond func(a []*Term) *Term, val func(a []*Term) *Term) {
	prev := st.region(region, arity, srt)
	if ref != nil {
		st.note(region, []*Term{ref})
	} else {
		st.note(region, nil)
	}
	st.mem[region] = &Mem{name: region, prev: prev, cond: cond, val: val}
}

// note tells the active write recorders which location changes.
func (st *State) note(region string, args []*Term) {
	for _, r := range st.t.recorders {
		r.add(region, args)
	}
}

type recorder struct {
	clock int
	regs  map[string]map[*Term]bool // region -> refs
	all   map[string]bool
	newer map[string]bool // region written at freshly allocated references
	star  bool
}

func (r *recorder) add(region string, args []*Term) {
	if region == "*" {
		r.star = true
		return
	}
	if len(args) == 0 {
		r.all[region] = true
		return
	}
	x := args[0]
	if isAlloc(x) && x.clock > r.clock {
		r.newer[region] = true
		return
	}
	if maxSymClock(x) > r.clock {
		r.all[region] = true
		return
	}
	if r.regs[region] == nil {
		r.regs[region] = map[*Term]bool{}
	}
	r.regs[region][x] = true
}

func maxSymClock(t *Term) int {
	seen := map[*Term]bool{}
	m := 0
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.sym != nil && t.sym.clock > m {
			m = t.sym.clock
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(t)
	return m
}

// refNewer: is the reference allocated after mark?
func (b *TB) refNewer(ref, mark *Term) *Term {
	if ref.op == OIte {
		return b.Ite(ref.args[0], b.refNewer(ref.args[1], mark), b.refNewer(ref.args[2], mark))
	}
	if ref == b.Zero {
		return b.False
	}
	if isAlloc(ref) {
		return b.Bool(ref.clock > mark.clock)
	}
	if refLike(ref) && ref.clock < mark.clock {
		return b.False
	}
	return b.Lt(mark, ref)
}

// ---- pointers

func (st *State) addrOf(v Value, pointee types.Type) *Addr {
	switch x := v.(type) {
	case *Addr:
		return x
	case *Term:
		return &Addr{kind: 'o', root: pointee, ref: x, typ: pointee}
	}
	unsupported("address of %T", v)
	return nil
}

func (a *Addr) field(i int) *Addr {
	s := a.typ.Underlying().(*types.Struct)
	n := *a
	n.path = a.path + "." + s.Field(i).Name()
	n.typ = s.Field(i).Type()
	return &n
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
