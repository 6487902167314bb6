package main

// Symbolic execution of go/ssa instructions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	fn     *ssa.Function
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	res := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, fn: fn}
					res[s] = l
				}
				// walk predecessors from b
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	return res
}

type analysis struct {
	depth int
	loop  *Loop
}

func (t *Task) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := t.loopCache[fn]; ok {
		return l
	}
	l := findLoops(fn)
	t.loopCache[fn] = l
	return l
}

// explore runs all paths from st; onTerm is called with the kind of ending:
// return, panic, backedge, exit, dead, halt
func (t *Task) explore(st *State, an *analysis, onTerm func(st *State, kind string)) {
	saveW, saveA := t.work, t.an
	t.work = []*State{st}
	t.an = an
	defer func() { t.work, t.an = saveW, saveA }()
	for len(t.work) > 0 {
		s := t.work[len(t.work)-1]
		t.work = t.work[:len(t.work)-1]
		t.npaths++
		if t.npaths > t.maxPaths {
			unsupported("path limit exceeded (%d)", t.maxPaths)
		}
		kind := t.runPath(s)
		if kind != "dead" {
			onTerm(s, kind)
		}
	}
}

func (t *Task) push(st *State) { t.work = append(t.work, st) }

func (t *Task) runPath(st *State) string {
	for {
		if st.dead {
			return "dead"
		}
		if st.term != "" {
			return st.term
		}
		st.steps++
		if st.steps > 20000 {
			unsupported("step limit")
		}
		if st.panicV != nil {
			t.unwind(st)
			continue
		}
		f := st.top()
		if f.unwind {
			// a deferred call made while unwinding has completed
			t.afterDefer(st)
			continue
		}
		if f.ip >= len(f.block.Instrs) {
			panic("fell off block")
		}
		in := f.block.Instrs[f.ip]
		f.ip++
		t.cur = in
		t.curSt = st
		t.step(st, f, in)
	}
}

// unwind advances a panicking state by one step.
func (t *Task) unwind(st *State) {
	f := st.top()
	if t.an != nil && len(st.frames)-1 < t.an.depth {
		st.term = "exit"
		return
	}
	if t.an != nil && len(st.frames)-1 == t.an.depth {
		// leaving the analysed loop by panic
		st.term = "exit"
		return
	}
	f.loops = nil
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		f.unwind = true
		pv := st.panicV
		pa := st.panicAt
		st.panicV = nil
		t.pendPanic(st, pv, pa)
		t.callDeferred(st, d)
		return
	}
	// pop the frame
	if len(st.frames) == 1 {
		st.term = "panic"
		return
	}
	st.frames = st.frames[:len(st.frames)-1]
	for n := len(st.joins); n > 0 && st.joins[n-1].depth >= len(st.frames); n-- {
		st.joins = st.joins[:n-1]
	}
	// a deferred function that panics itself: the caller keeps unwinding with the new panic
	top := st.top()
	top.unwindSaved = nil
}

type pendingPanic struct {
	v  Value
	at string
}

func (t *Task) pendPanic(st *State, v Value, at string) {
	st.top().unwindSaved = &pendingPanic{v, at}
}

func (t *Task) callDeferred(st *State, d *deferred) {
	t.invoke(st, d.call, d.fn, d.args, nil, true)
}

// afterDefer: a deferred call of the top frame has finished normally.
func (t *Task) afterDefer(st *State) {
	f := st.top()
	if !f.unwind {
		return
	}
	if f.unwindSaved != nil {
		p := f.unwindSaved
		f.unwindSaved = nil
		st.panicV, st.panicAt = p.v, p.at
		return
	}
	// recovered: run remaining defers, then return through the recover block
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		t.callDeferred(st, d)
		return
	}
	f.unwind = false
	if f.fn.Recover != nil {
		f.pred = nil
		f.block = f.fn.Recover
		f.ip = 0
		return
	}
	t.ret(st, t.zeroVal(f.fn.Signature.Results()))
}

// ret pops the top frame with a result.
func (t *Task) ret(st *State, res Value) {
	f := st.top()
	if len(st.frames) == 1 {
		f.result = res
		st.term = "return"
		return
	}
	if t.an != nil && len(st.frames)-1 == t.an.depth {
		st.term = "exit"
		return
	}
	st.frames = st.frames[:len(st.frames)-1]
	for n := len(st.joins); n > 0 && st.joins[n-1].depth >= len(st.frames); n-- {
		st.joins = st.joins[:n-1]
	}
	caller := st.top()
	if f.retTo != nil {
		caller.env[f.retTo] = res
	}
	if f.afterRet != nil {
		f.afterRet(st, res)
	}
}

func single(tp *types.Tuple, v TupleV) Value {
	if len(v) == 1 {
		return v[0]
	}
	return v
}

// ---- branching

const feasMS = 2000

func (t *Task) feasible(st *State, c *Term) bool {
	if c == t.b.True {
		return true
	}
	if c == t.b.False {
		return false
	}
	// syntactic
	nc := t.b.Not(c)
	for p := st.pc; p != nil; p = p.prev {
		if p.t == nc {
			return false
		}
	}
	as := append(st.pcList(), c)
	return t.s.Check(as, feasMS, 1) != RUnsat
}

// split forks on c; either may be nil.
func (t *Task) split(st *State, c *Term) (*State, *State) {
	if c == t.b.True {
		return st, nil
	}
	if c == t.b.False {
		return nil, st
	}
	ft := t.feasible(st, c)
	ff := t.feasible(st, t.b.Not(c))
	if ft && ff {
		o := st.fork()
		o.assume(t.b.Not(c))
		st.assume(c)
		return st, o
	}
	if ft {
		st.assume(c)
		return st, nil
	}
	if ff {
		st.assume(t.b.Not(c))
		return nil, st
	}
	st.dead = true
	return nil, nil
}

func (t *Task) site(st *State) string {
	// innermost position inside the repository
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.ip > 0 && f.ip <= len(f.block.Instrs) {
			p := f.block.Instrs[f.ip-1].Pos()
			if p.IsValid() {
				ps := t.v.fset.Position(p)
				fn := ps.Filename
				if k := strings.LastIndex(fn, "/"); k >= 0 {
					fn = fn[k+1:]
				}
				return fmt.Sprintf("%s:%d", fn, ps.Line)
			}
		}
	}
	return "?"
}

// guard: the operation panics when c holds.
func (t *Task) guard(st *State, c *Term, what string) {
	if c == t.b.False {
		t.safety++
		return
	}
	if t.contract != nil && t.contract.assumeSafe && t.an == nil && false {
		return
	}
	if t.feasible(st, c) {
		o := st.fork()
		o.assume(c)
		o.panicV = t.b.Fresh("panic", SInt)
		o.panicAt = what + " at " + t.site(st)
		o.trace = append(o.trace, "panic: "+o.panicAt)
		t.push(o)
	} else {
		t.safety++
	}
	st.assume(t.b.Not(c))
	if c == t.b.True {
		st.dead = true
	}
}

func (t *Task) raise(st *State, v Value, what string) {
	st.panicV = v
	st.panicAt = what + " at " + t.site(st)
	st.trace = append(st.trace, "panic: "+st.panicAt)
}

// ---- values

func (t *Task) constVal(c *ssa.Const) Value {
	b := t.b
	if c.Value == nil {
		return t.zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return b.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return b.Str(constant.StringVal(c.Value))
	case constant.Int:
		if bt, ok := c.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			return b.Big(n)
		}
	}
	return b.App(b.Fn("const_"+c.Value.ExactString(), SInt, 0))
}

func (t *Task) val(st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return t.constVal(x)
	case *ssa.Function:
		return t.funcVal(x)
	case *ssa.Global:
		return &Addr{kind: 'g', name: globalName(x), typ: deref(x.Type())}
	case *ssa.Builtin:
		return &BuiltinV{x}
	}
	f := st.top()
	r, ok := f.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), f.fn))
	}
	return r
}

func globalName(g *ssa.Global) string {
	if g.Pkg.Pkg.Path() == repoPath {
		return g.Name()
	}
	return g.Pkg.Pkg.Path() + "." + g.Name()
}

func (t *Task) funcVal(fn *ssa.Function) *ClosureV {
	s := t.b.Fn("fn_"+fn.String(), SInt, 0)
	s.lo = big1
	id := t.b.App(s)
	if c, ok := t.closures[id]; ok {
		return c
	}
	c := &ClosureV{fn: fn, id: id}
	t.closures[id] = c
	return c
}

func (t *Task) term(st *State, v ssa.Value) *Term { return t.asTerm(t.val(st, v)) }
func (t *Task) asTerm(v Value) *Term {
	ts := t.flatten(v)
	if len(ts) != 1 {
		unsupported("expected a scalar, got %T", v)
	}
	return ts[0]
}

func (t *Task) slice(st *State, v ssa.Value) *SliceV {
	x, ok := t.val(st, v).(*SliceV)
	if !ok {
		unsupported("expected a slice, got %T", t.val(st, v))
	}
	return x
}

// wrap brings a mathematical result into the range of the type.
func (t *Task) wrap(st *State, x *Term, typ types.Type) *Term {
	b := t.b
	lo, hi := intRange(typ)
	l, h := b.bounds(x)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return x
	}
	w, signed := intInfo(typ)
	if st != nil {
		in := b.And(b.Le(b.Big(lo), x), b.Le(x, b.Big(hi)))
		if t.s.Valid(st.pcList(), in, 2000, 1) == RUnsat {
			return x
		}
	}
	if signed {
		half := pow2(w - 1)
		y := b.Mod(b.Add(x, b.Big(half)), pow2(w))
		return b.Sub(y, b.Big(half))
	}
	return b.Mod(x, pow2(w))
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func pick(x, y *Addr) *Addr {
	if x != nil {
		return x
	}
	return y
}

func (t *Task) eqVal(x, y Value) *Term {
	a, c := t.flatten(x), t.flatten(y)
	if len(a) != len(c) {
		unsupported("comparison of different shapes")
	}
	var cs []*Term
	for i := range a {
		cs = append(cs, t.b.Eq(a[i], c[i]))
	}
	return t.b.And(cs...)
}

func (t *Task) binop(st *State, in *ssa.BinOp) Value {
	b := t.b
	xt := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		xv, yv := t.val(st, in.X), t.val(st, in.Y)
		var r *Term
		if sx, ok := xv.(*SliceV); ok {
			// only comparison with nil is legal
			_ = yv
			r = b.Eq(sx.arr, b.Zero)
			if sy, ok := yv.(*SliceV); ok && sy.arr != b.Zero {
				r = b.Eq(sy.arr, b.Zero)
			}
		} else if _, ok := xv.(*Addr); ok || isAddr(yv) {
			ax, okx := xv.(*Addr)
			ay, oky := yv.(*Addr)
			if okx && oky {
				r = b.Bool(ax.prefix() == ay.prefix())
				if len(ax.args()) == len(ay.args()) && ax.prefix() == ay.prefix() {
					for i := range ax.args() {
						r = b.And(r, b.Eq(ax.args()[i], ay.args()[i]))
					}
				}
			} else if a := pick(ax, ay); a.kind == 'o' && a.path == "" || a.kind == 'g' && a.path == "" {
				r = t.eqVal(xv, yv)
			} else {
				// interior pointers are never nil
				r = b.False
			}
		} else {
			// interface versus concrete: go/ssa inserts MakeInterface
			r = t.eqVal(xv, yv)
		}
		if in.Op == token.NEQ {
			r = b.Not(r)
		}
		return r
	}
	if isString(xt) {
		x, y := t.term(st, in.X), t.term(st, in.Y)
		if in.Op == token.ADD {
			return t.concat(x, y)
		}
		return b.AppS(b.Fn("str"+in.Op.String(), SBool, 2), x, y)
	}
	if !isInt(xt) {
		if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			x, y := t.term(st, in.X), t.term(st, in.Y)
			switch in.Op {
			case token.AND, token.LAND:
				return b.And(x, y)
			case token.OR, token.LOR:
				return b.Or(x, y)
			}
		}
		r := t.freshVal("op", in.Type())
		return r
	}
	x, y := t.term(st, in.X), t.term(st, in.Y)
	rt := in.Type()
	switch in.Op {
	case token.LSS:
		return b.Lt(x, y)
	case token.LEQ:
		return b.Le(x, y)
	case token.GTR:
		return b.Lt(y, x)
	case token.GEQ:
		return b.Le(y, x)
	case token.ADD:
		return t.wrap(st, b.Add(x, y), rt)
	case token.SUB:
		return t.wrap(st, b.Sub(x, y), rt)
	case token.MUL:
		return t.wrap(st, b.Mul(x, y), rt)
	case token.QUO, token.REM:
		if y.op == OConst && y.c.Sign() > 0 {
			// truncated division
			lo, _ := b.bounds(x)
			var q *Term
			if lo != nil && lo.Sign() >= 0 {
				q = b.Div(x, y.c)
			} else {
				neg := b.Div(b.lin(big0, []*Term{x}, []*big.Int{bi(-1)}), y.c)
				q = b.Ite(b.Le(b.Zero, x), b.Div(x, y.c), b.lin(big0, []*Term{neg}, []*big.Int{bi(-1)}))
			}
			if in.Op == token.QUO {
				return t.wrap(st, q, rt)
			}
			return b.Sub(x, b.MulC(q, y.c))
		}
		t.guard(st, b.Eq(y, b.Zero), "division by zero")
		return t.freshVal("div", rt)
	case token.SHL:
		if y.op == OConst && y.c.IsInt64() && y.c.Int64() < 64 && y.c.Sign() >= 0 {
			return t.wrap(st, b.MulC(x, pow2(uint(y.c.Int64()))), rt)
		}
	case token.SHR:
		if y.op == OConst && y.c.IsInt64() && y.c.Int64() < 64 && y.c.Sign() >= 0 {
			return b.Div(x, pow2(uint(y.c.Int64())))
		}
	case token.AND:
		for k := 0; k < 2; k++ {
			if y.op == OConst && y.c.Sign() >= 0 {
				m := new(big.Int).Add(y.c, big1)
				if m.TrailingZeroBits() == uint(m.BitLen()-1) {
					return t.wrap(st, b.Mod(x, m), rt)
				}
			}
			x, y = y, x
		}
		return t.wrap(st, b.AppS(b.Fn("bitand", SInt, 2), x, y), rt)
	case token.OR, token.XOR:
		// disjoint bits: addition
		if t.disjoint(x, y) || t.disjoint(y, x) {
			return t.wrap(st, b.Add(x, y), rt)
		}
		return t.wrap(st, b.AppS(b.Fn("bit"+in.Op.String(), SInt, 2), x, y), rt)
	}
	return t.freshVal("op", rt)
}

// disjoint: x is a multiple of 2^k and 0 <= y < 2^k
func (t *Task) disjoint(x, y *Term) bool {
	lo, hi := t.b.bounds(y)
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return false
	}
	k := uint(hi.BitLen())
	m := pow2(k)
	div := func(c *big.Int) bool { return new(big.Int).Mod(c, m).Sign() == 0 }
	switch x.op {
	case OConst:
		return div(x.c)
	case OLin:
		if !div(x.c) {
			return false
		}
		for _, c := range x.coefs {
			if !div(c) {
				return false
			}
		}
		return true
	}
	return false
}

func isAddr(v Value) bool { _, ok := v.(*Addr); return ok }

// ---- strings

func (t *Task) strLen(s *Term) *Term {
	if l, ok := t.b.StrLit(s); ok {
		return t.b.Int(int64(len(l)))
	}
	if tk, ok := tokOf(s); ok && tk.kind == "bytes" {
		return tk.n
	}
	return t.b.AppS(t.blen(), s)
}
func (t *Task) blen() *Sym {
	s := t.b.Fn("blen", SInt, 1)
	s.lo, s.hi = big0, maxLen
	if s.facts == nil {
		b := t.b
		s.facts = func(x *Term) []*Term {
			a := x.args[0]
			if l, ok := b.StrLit(a); ok {
				return []*Term{b.mk(&Term{op: OEq0, sort: SBool, args: []*Term{b.Sub(x, b.Int(int64(len(l))))}})}
			}
			// the empty string is 0
			return []*Term{b.Iff(b.Eq(a, b.Zero), b.mk(&Term{op: OEq0, sort: SBool, args: []*Term{x}}))}
		}
	}
	return s
}
func (t *Task) bat() *Sym {
	s := t.b.Fn("bat", SInt, 2)
	s.lo, s.hi = big0, bi(255)
	return s
}
func (t *Task) concat(x, y *Term) *Term {
	b := t.b
	if lx, ok := b.StrLit(x); ok {
		if ly, ok := b.StrLit(y); ok {
			return b.Str(lx + ly)
		}
		if lx == "" {
			return y
		}
	}
	if ly, ok := b.StrLit(y); ok && ly == "" {
		return x
	}
	return b.AppS(b.Fn("concat", SInt, 2), x, y)
}
func (t *Task) substr(s, lo, hi *Term) *Term {
	b := t.b
	if l, ok := b.StrLit(s); ok && lo.op == OConst && hi.op == OConst {
		i, j := lo.c.Int64(), hi.c.Int64()
		if i >= 0 && i <= j && j <= int64(len(l)) {
			return b.Str(l[i:j])
		}
	}
	if lo == b.Zero && hi == t.strLen(s) {
		return s
	}
	return b.AppS(b.Fn("substr", SInt, 3), s, lo, hi)
}

// byteTok: the contents of a byte slice as an abstract byte string
func (st *State) byteTok(s *SliceV) *Term { return st.byteTokAt(nil, s) }
func (st *State) byteTokAt(sn *Snapshot, s *SliceV) *Term {
	t := st.t
	b := t.b
	n := "e:uint8"
	t.declRegion(n, leavesOf(types.Typ[types.Uint8]), 2)
	var m *Mem
	if sn != nil {
		m = sn.region(t, n, 2, SInt)
	} else {
		m = st.region(n, 2, SInt)
	}
	if s.len == b.Zero {
		return b.Zero
	}
	k := fmt.Sprintf("tok|%p|%d|%d|%d", m, s.arr.id, s.off.id, s.len.id)
	if x, ok := t.tokMemo[k]; ok {
		return x
	}
	sy := b.NewSym("bytes", SInt, 0)
	sy.lo = big0
	x := b.App(sy)
	arr, off := s.arr, s.off
	x.tok = &tokInfo{kind: "bytes", n: s.len, at: func(i *Term) *Term { return m.read(b, []*Term{arr, b.Add(off, i)}) }}
	t.blen()
	t.bat()
	t.tokMemo[k] = x
	return x
}

// ---- maps

func mapPrefix(mt *types.Map) string { return tname(mt.Key()) + "," + tname(mt.Elem()) }

func (t *Task) mapKey(v Value) *Term { return t.asTerm(v) }

func (st *State) mapRegs(mt *types.Map) (string, string, string, []Leaf) {
	p := mapPrefix(mt)
	ls := leavesOf(mt.Elem())
	t := st.t
	t.declRegion("mv:"+p, ls, 2)
	t.declRegion("md:"+p, []Leaf{{"", kBool, types.Typ[types.Bool]}}, 2)
	t.declRegion("ml:"+p, []Leaf{{"", kLen, types.Typ[types.Int]}}, 1)
	return "md:" + p, "mv:" + p, "ml:" + p, ls
}

func (st *State) memOf(sn *Snapshot, name string, arity int, srt Sort) *Mem {
	if sn != nil {
		return sn.region(st.t, name, arity, srt)
	}
	return st.region(name, arity, srt)
}

// mapDom: is k in m?  (a nil map is empty)
func (st *State) mapDom(sn *Snapshot, mt *types.Map, m, k *Term) *Term {
	d, _, _, _ := st.mapRegs(mt)
	r := st.memOf(sn, d, 2, SBool).read(st.t.b, []*Term{m, k})
	return st.t.b.And(st.t.b.Ne(m, st.t.b.Zero), r)
}
func (st *State) mapRaw(sn *Snapshot, mt *types.Map, m, k *Term) Value {
	_, v, _, ls := st.mapRegs(mt)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = st.memOf(sn, v+l.path, 2, leafSort(l)).read(st.t.b, []*Term{m, k})
	}
	return st.t.unflatten(ts, mt.Elem())
}

// mapGet with Go semantics: zero value if absent
func (st *State) mapGet(sn *Snapshot, mt *types.Map, m, k *Term) (Value, *Term) {
	t := st.t
	d := st.mapDom(sn, mt, m, k)
	raw := t.flatten(st.mapRaw(sn, mt, m, k))
	ls := leavesOf(mt.Elem())
	ts := make([]*Term, len(raw))
	for i := range raw {
		ts[i] = t.b.Ite(d, raw[i], t.zeroLeaf(ls[i]))
	}
	return t.reclosure(t.unflatten(ts, mt.Elem()), mt.Elem()), d
}
func (st *State) mapLen(sn *Snapshot, mt *types.Map, m *Term) *Term {
	_, _, l, _ := st.mapRegs(mt)
	t := st.t
	r := st.memOf(sn, l, 1, SInt).read(t.b, []*Term{m})
	return t.b.Ite(t.b.Eq(m, t.b.Zero), t.b.Zero, r)
}
func (st *State) mapSet(mt *types.Map, m, k *Term, v Value) {
	t := st.t
	d, vr, lr, ls := st.mapRegs(mt)
	old := st.mapDom(nil, mt, m, k)
	l0 := st.mapLen(nil, mt, m)
	ts := t.flatten(v)
	for i, l := range ls {
		st.write(vr+l.path, []*Term{m, k}, ts[i], leafSort(l))
	}
	st.write(d, []*Term{m, k}, t.b.True, SBool)
	st.write(lr, []*Term{m}, t.b.Ite(old, l0, t.b.AddC(l0, 1)), SInt)
}
func (st *State) mapDel(mt *types.Map, m, k *Term) {
	t := st.t
	d, _, lr, _ := st.mapRegs(mt)
	old := st.mapDom(nil, mt, m, k)
	l0 := st.mapLen(nil, mt, m)
	st.write(d, []*Term{m, k}, t.b.False, SBool)
	st.write(lr, []*Term{m}, t.b.Ite(old, t.b.AddC(l0, -1), l0), SInt)
}
func (st *State) newMap(mt *types.Map) *Term {
	t := st.t
	r := t.b.NewAlloc("map")
	d, _, lr, _ := st.mapRegs(mt)
	st.update(d, 2, SBool, r, func(a []*Term) *Term { return t.b.Eq(a[0], r) }, func(a []*Term) *Term { return t.b.False })
	st.write(lr, []*Term{r}, t.b.Zero, SInt)
	return r
}

// map emptiness: len==0 => no key
func (st *State) mapLenFacts(mt *types.Map, m *Term, k *Term) {
	t := st.t
	d := st.mapDom(nil, mt, m, k)
	st.assume(t.b.Implies(d, t.b.Lt(t.b.Zero, st.mapLen(nil, mt, m))))
}

// mapTok: the contents of a map as an abstract value
func (st *State) mapTok(sn *Snapshot, mt *types.Map, m *Term) *Term {
	t := st.t
	b := t.b
	d, vr, _, ls := st.mapRegs(mt)
	dm := st.memOf(sn, d, 2, SBool)
	var vm []*Mem
	kk := fmt.Sprintf("mtok|%p|%d", dm, m.id)
	for _, l := range ls {
		x := st.memOf(sn, vr+l.path, 2, leafSort(l))
		vm = append(vm, x)
		kk += fmt.Sprintf("|%p", x)
	}
	if x, ok := t.tokMemo[kk]; ok {
		return x
	}
	sy := b.NewSym("mapval", SInt, 0)
	sy.lo = big0
	x := b.App(sy)
	x.tok = &tokInfo{kind: "map", nilm: b.Eq(m, b.Zero),
		dom: func(k *Term) *Term { return b.And(b.Ne(m, b.Zero), dm.read(b, []*Term{m, k})) },
		val: func(k *Term) []*Term {
			var r []*Term
			for _, v := range vm {
				r = append(r, v.read(b, []*Term{m, k}))
			}
			return r
		}}
	t.tokMemo[kk] = x
	return x
}

// ---- allocation

func (st *State) newObj(typ types.Type, name string) Value {
	t := st.t
	r := t.b.NewAlloc(name)
	if at, ok := typ.Underlying().(*types.Array); ok {
		st.zeroElems(at.Elem(), r)
		return r
	}
	a := &Addr{kind: 'o', root: typ, ref: r, typ: typ}
	st.store(a, t.zeroVal(typ))
	if tname(typ) == "sync.Map" {
		t.declSM()
		st.update("gh:smdom", 2, SBool, r, func(a []*Term) *Term { return t.b.Eq(a[0], r) }, func(a []*Term) *Term { return t.b.False })
	}
	return r
}
func (t *Task) declSM() {
	t.declRegion("gh:smdom", []Leaf{{"", kBool, types.Typ[types.Bool]}}, 2)
}
func (st *State) zeroElems(et types.Type, r *Term) {
	t := st.t
	ls := leavesOf(et)
	p := "e:" + tname(et)
	t.declRegion(p, ls, 2)
	for _, l := range ls {
		z := t.zeroLeaf(l)
		st.update(p+l.path, 2, leafSort(l), r, func(a []*Term) *Term { return t.b.Eq(a[0], r) }, func(a []*Term) *Term { return z })
	}
}

// copyElems: dst[doff..doff+n) := src[soff..) (source memory read before the copy)
func (st *State) copyElems(et types.Type, dst, doff, src, soff, n *Term) {
	t := st.t
	b := t.b
	ls := leavesOf(et)
	p := "e:" + tname(et)
	t.declRegion(p, ls, 2)
	for _, l := range ls {
		m := st.region(p+l.path, 2, leafSort(l))
		st.update(p+l.path, 2, leafSort(l), dst, func(a []*Term) *Term {
			e := b.Eq(a[0], dst)
			if e == b.False {
				return e
			}
			return b.And(e, b.Le(doff, a[1]), b.Lt(a[1], b.Add(doff, n)))
		}, func(a []*Term) *Term { return m.read(b, []*Term{src, b.Add(b.Sub(a[1], doff), soff)}) })
	}
}

// ---- interfaces

func (t *Task) box(v Value, typ types.Type) *Term {
	b := t.b
	n := tname(typ)
	var ts []*Term
	if a, ok := v.(*Addr); ok && !(a.kind == 'o' && a.path == "") {
		// interior pointer: opaque non-nil value, remembered so that it can be recovered
		x := b.AppS(b.Fn("box_"+n, SInt, 1), b.Fresh("iptr", SInt))
		t.ifacePtr[x] = a
		return x
	}
	ts = t.flatten(v)
	t.s.boxAr[n] = len(ts)
	bx := b.AppS(b.Fn("box_"+n, SInt, len(ts)), ts...)
	t.boxType[n] = typ
	return bx
}
func (t *Task) typeofT(x *Term) *Term {
	s := t.b.Fn("typeof", SInt, 1)
	s.lo = big0
	return t.b.AppS(s, x)
}
func (t *Task) isType(x *Term, typ types.Type) *Term {
	if types.IsInterface(typ) {
		if dt := t.dynType(x); dt != nil {
			return t.b.Bool(types.Implements(dt, typ.Underlying().(*types.Interface)))
		}
		return t.b.And(t.b.Ne(x, t.b.Zero), t.b.AppS(t.b.Fn("implements_"+tname(typ), SBool, 1), t.typeofT(x)))
	}
	return t.b.Eq(t.typeofT(x), t.b.Int(t.b.typeID(tname(typ))))
}
func (t *Task) unbox(x *Term, typ types.Type) Value {
	if a, ok := t.ifacePtr[x]; ok {
		return a
	}
	ls := leavesOf(typ)
	n := tname(typ)
	t.s.boxAr[n] = len(ls)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		s := t.b.Fn(fmt.Sprintf("unbox_%d_%s", i, n), leafSort(l), 1)
		l.apply(s)
		ts[i] = t.b.AppS(s, x)
	}
	return t.reclosure(t.unflatten(ts, typ), typ)
}

// concrete type of an interface term, if it is known syntactically
func (t *Task) dynType(x *Term) types.Type {
	if x.op == OApp && strings.HasPrefix(x.sym.name, "box_") {
		return t.boxType[strings.TrimPrefix(x.sym.name, "box_")]
	}
	return nil
}

// ---- the instruction step

func (t *Task) step(st *State, f *Frame, in ssa.Instruction) {
	b := t.b
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		f.env[x] = st.newObj(deref(x.Type()), strings.ReplaceAll(x.Comment, " ", "_"))
	case *ssa.BinOp:
		f.env[x] = t.binop(st, x)
	case *ssa.UnOp:
		t.unop(st, f, x)
	case *ssa.ChangeType:
		v := t.val(st, x.X)
		if sv, ok := v.(*StructV); ok {
			v = &StructV{typ: x.Type(), f: sv.f}
		}
		f.env[x] = v
	case *ssa.ChangeInterface:
		f.env[x] = t.val(st, x.X)
	case *ssa.Convert:
		f.env[x] = t.convert(st, x)
	case *ssa.MakeInterface:
		f.env[x] = t.box(t.val(st, x.X), x.X.Type())
	case *ssa.MakeClosure:
		c := &ClosureV{fn: x.Fn.(*ssa.Function)}
		for _, bv := range x.Bindings {
			c.binds = append(c.binds, t.val(st, bv))
		}
		s := b.NewSym("closure_"+x.Fn.Name(), SInt, 0)
		s.lo = big1
		c.id = b.App(s)
		t.closures[c.id] = c
		f.env[x] = c
	case *ssa.MakeMap:
		f.env[x] = st.newMap(x.Type().Underlying().(*types.Map))
	case *ssa.MakeChan:
		f.env[x] = st.newChan(t.term(st, x.Size))
		t.event(st, "makechan", TV{f.env[x], x.Type()})
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		n, c := t.term(st, x.Len), t.term(st, x.Cap)
		t.guard(st, b.Or(b.Lt(n, b.Zero), b.Lt(b.Big(maxLen), n)), "makeslice: len out of range")
		if st.dead {
			return
		}
		t.guard(st, b.Or(b.Lt(c, n), b.Lt(b.Big(maxLen), c)), "makeslice: cap out of range")
		r := b.NewAlloc("slice")
		st.zeroElems(et, r)
		t.event(st, "make", TV{c, nil}, TV{t.sizeOf(et), nil})
		f.env[x] = &SliceV{r, b.Zero, n, c}
	case *ssa.FieldAddr:
		v := t.val(st, x.X)
		if tm, ok := v.(*Term); ok {
			t.guard(st, b.Eq(tm, b.Zero), "nil pointer dereference")
			if st.dead {
				return
			}
		}
		a := st.addrOf(v, deref(x.X.Type()))
		f.env[x] = a.field(x.Field)
	case *ssa.Field:
		sv, ok := t.val(st, x.X).(*StructV)
		if !ok {
			unsupported("field of opaque struct %s", tname(x.X.Type()))
		}
		f.env[x] = sv.f[x.Field]
	case *ssa.IndexAddr:
		i := t.term(st, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := t.slice(st, x.X)
			t.guard(st, b.Or(b.Lt(i, b.Zero), b.Le(s.len, i)), "index out of range")
			f.env[x] = &Addr{kind: 'e', root: u.Elem(), ref: s.arr, idx: b.Add(s.off, i), typ: u.Elem()}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			v := t.val(st, x.X)
			tm, ok := v.(*Term)
			if !ok {
				unsupported("array field address")
			}
			t.guard(st, b.Or(b.Lt(i, b.Zero), b.Le(b.Int(at.Len()), i)), "index out of range")
			f.env[x] = &Addr{kind: 'e', root: at.Elem(), ref: tm, idx: i, typ: at.Elem()}
		default:
			unsupported("IndexAddr %s", tname(x.X.Type()))
		}
	case *ssa.Index:
		if isString(x.X.Type()) {
			s, i := t.term(st, x.X), t.term(st, x.Index)
			t.guard(st, b.Or(b.Lt(i, b.Zero), b.Le(t.strLen(s), i)), "index out of range")
			if l, ok := b.StrLit(s); ok && i.op == OConst {
				f.env[x] = b.Int(int64(l[i.c.Int64()]))
				return
			}
			f.env[x] = b.AppS(t.bat(), s, i)
			return
		}
		unsupported("Index")
	case *ssa.Lookup:
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			m := t.term(st, x.X)
			k := t.mapKey(t.val(st, x.Index))
			st.mapLenFacts(mt, m, k)
			t.event(st, "maplookup", TV{m, x.X.Type()}, TV{k, mt.Key()})
			v, d := st.mapGet(nil, mt, m, k)
			if x.CommaOk {
				f.env[x] = TupleV{v, d}
			} else {
				f.env[x] = v
			}
			return
		}
		s, i := t.term(st, x.X), t.term(st, x.Index)
		t.guard(st, b.Or(b.Lt(i, b.Zero), b.Le(t.strLen(s), i)), "index out of range")
		if l, ok := b.StrLit(s); ok && i.op == OConst {
			f.env[x] = b.Int(int64(l[i.c.Int64()]))
			return
		}
		f.env[x] = b.AppS(t.bat(), s, i)
	case *ssa.MapUpdate:
		mt := x.Map.Type().Underlying().(*types.Map)
		m := t.term(st, x.Map)
		t.guard(st, b.Eq(m, b.Zero), "assignment to entry in nil map")
		if st.dead {
			return
		}
		t.event(st, "mapwrite", TV{m, x.Map.Type()})
		t.event(st, "mapset", TV{m, x.Map.Type()}, TV{t.val(st, x.Key), mt.Key()}, TV{t.val(st, x.Value), mt.Elem()})
		st.mapSet(mt, m, t.mapKey(t.val(st, x.Key)), t.val(st, x.Value))
	case *ssa.Range:
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			m := t.term(st, x.X)
			name := fmt.Sprintf("it:%s:%s:%d", x.Parent().String(), x.Name(), len(st.frames))
			st.mem[name] = &Mem{name: name, cond: func(a []*Term) *Term { return b.True }, val: func(a []*Term) *Term { return b.False }}
			st.note(name, nil)
			t.regInfo[name] = &regionInfo{name, []Leaf{{"", kBool, types.Typ[types.Bool]}}, 1}
			t.regArity[name] = 1
			t.regSort[name] = SBool
			f.env[x] = &IterV{m: m, mt: mt, region: name}
			return
		}
		unsupported("range over %s", tname(x.X.Type()))
	case *ssa.Next:
		it, ok := t.val(st, x.Iter).(*IterV)
		if !ok {
			unsupported("next on string")
		}
		t.event(st, "maplookup", TV{it.m, it.mt}, TV{b.Zero, nil})
		vis := st.region(it.region, 1, SBool)
		// end of iteration
		o := st.fork()
		kb := b.FreshBound("k")
		o.assume(b.Forall([]*Term{kb}, b.Implies(o.mapDom(nil, it.mt, it.m, kb), vis.read(b, []*Term{kb}))))
		o.top().env[x] = TupleV{b.False, t.zeroVal(it.mt.Key()), t.zeroVal(it.mt.Elem())}
		t.push(o)
		kv := t.freshVal("key", it.mt.Key())
		k := t.mapKey(kv)
		st.assume(st.mapDom(nil, it.mt, it.m, k))
		st.assume(b.Not(vis.read(b, []*Term{k})))
		st.mapLenFacts(it.mt, it.m, k)
		v, _ := st.mapGet(nil, it.mt, it.m, k)
		st.update(it.region, 1, SBool, nil, func(a []*Term) *Term { return b.Eq(a[0], k) }, func(a []*Term) *Term { return b.True })
		f.env[x] = TupleV{b.True, kv, v}
	case *ssa.Extract:
		tv, ok := t.val(st, x.Tuple).(TupleV)
		if !ok {
			unsupported("extract from %T", t.val(st, x.Tuple))
		}
		f.env[x] = tv[x.Index]
	case *ssa.Slice:
		t.sliceOp(st, f, x)
	case *ssa.Store:
		a := t.ptr(st, x.Addr)
		if st.dead {
			return
		}
		v := t.val(st, x.Val)
		t.accessEvent(st, a, true)
		if a.kind == 'g' {
			t.event(st, "gstore:"+a.name, TV{v, a.typ})
		}
		st.store(a, v)
	case *ssa.TypeAssert:
		t.typeAssert(st, f, x)
	case *ssa.Phi:
		panic("phi not at block entry: " + x.String())
	case *ssa.If:
		c := t.term(st, x.Cond)
		yes, no := t.split(st, c)
		if yes != nil && no != nil && t.contract != nil && t.contract.merge && t.joinBranch(st, yes, no) {
			return
		}
		if yes != nil && no != nil {
			t.jump(no, no.top().block.Succs[1])
			if !no.dead {
				t.push(no)
			}
			t.jump(yes, yes.top().block.Succs[0])
		} else if yes != nil {
			t.jump(yes, f.block.Succs[0])
		} else if no != nil {
			t.jump(no, f.block.Succs[1])
		}
	case *ssa.Jump:
		t.jump(st, f.block.Succs[0])
	case *ssa.Return:
		var tv TupleV
		for _, r := range x.Results {
			tv = append(tv, t.val(st, r))
		}
		var res Value = tv
		if len(tv) == 1 {
			res = tv[0]
		}
		t.ret(st, res)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			f.ip-- // come back
			t.callDeferred(st, d)
		}
	case *ssa.Panic:
		t.raise(st, t.term(st, x.X), "explicit panic")
	case *ssa.Defer:
		d := &deferred{call: &x.Call, site: x}
		d.fn, d.args = t.evalCall(st, &x.Call)
		f.defers = append(f.defers, d)
	case *ssa.Go:
		fn, args := t.evalCall(st, &x.Call)
		t.goStmt(st, &x.Call, fn, args)
	case *ssa.Call:
		fn, args := t.evalCall(st, &x.Call)
		t.invoke(st, &x.Call, fn, args, x, false)
	case *ssa.Send:
		c, v := t.term(st, x.Chan), t.val(st, x.X)
		t.event(st, "send", TV{c, x.Chan.Type()}, TV{v, x.X.Type()})
	case *ssa.Select:
		t.selectOp(st, f, x)
	default:
		unsupported("instruction %T: %s", in, in)
	}
}

func (t *Task) sizeOf(et types.Type) *Term {
	return t.b.Int(types.SizesFor("gc", "amd64").Sizeof(et))
}

// ptr evaluates a pointer for a load or store, with the nil check.
func (t *Task) ptr(st *State, v ssa.Value) *Addr {
	x := t.val(st, v)
	if tm, ok := x.(*Term); ok {
		t.guard(st, t.b.Eq(tm, t.b.Zero), "nil pointer dereference")
	}
	return st.addrOf(x, deref(v.Type()))
}

func (t *Task) unop(st *State, f *Frame, x *ssa.UnOp) {
	b := t.b
	switch x.Op {
	case token.MUL:
		a := t.ptr(st, x.X)
		if st.dead {
			return
		}
		t.accessEvent(st, a, false)
		f.env[x] = st.load(a)
	case token.NOT:
		f.env[x] = b.Not(t.term(st, x.X))
	case token.SUB:
		v := t.term(st, x.X)
		f.env[x] = t.wrap(st, b.lin(big0, []*Term{v}, []*big.Int{bi(-1)}), x.Type())
	case token.XOR:
		v := t.term(st, x.X)
		f.env[x] = t.wrap(st, b.lin(bi(-1), []*Term{v}, []*big.Int{bi(-1)}), x.Type())
	case token.ARROW:
		c := t.term(st, x.X)
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		v := t.freshVal("recv", et)
		t.event(st, "listen", TV{c, x.X.Type()})
		t.event(st, "select")
		t.event(st, "recv", TV{c, x.X.Type()}, TV{v, et})
		if x.CommaOk {
			f.env[x] = TupleV{v, b.Fresh("recvok", SBool)}
		} else {
			f.env[x] = v
		}
	default:
		unsupported("unop %s", x.Op)
	}
}

func (t *Task) convert(st *State, x *ssa.Convert) Value {
	b := t.b
	from, to := x.X.Type(), x.Type()
	v := t.val(st, x.X)
	if isInt(from) && isInt(to) {
		return t.wrap(st, v.(*Term), to)
	}
	if isString(to) {
		if s, ok := v.(*SliceV); ok {
			if bt, ok := from.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
				return st.byteTok(s)
			}
		}
		if isString(from) {
			return v
		}
		return t.freshVal("str", to)
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && isString(from) {
		s := v.(*Term)
		r := b.NewAlloc("bytes")
		n := t.strLen(s)
		p := "e:" + tname(sl.Elem())
		t.declRegion(p, leavesOf(sl.Elem()), 2)
		bat := t.bat()
		st.update(p, 2, SInt, r, func(a []*Term) *Term { return b.Eq(a[0], r) }, func(a []*Term) *Term { return b.AppS(bat, s, a[1]) })
		return &SliceV{r, b.Zero, n, n}
	}
	return t.freshVal("conv", to)
}

func (t *Task) sliceOp(st *State, f *Frame, x *ssa.Slice) {
	b := t.b
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return t.term(st, v)
	}
	if isString(x.X.Type()) {
		s := t.term(st, x.X)
		n := t.strLen(s)
		lo, hi := opt(x.Low, b.Zero), opt(x.High, n)
		t.guard(st, b.Or(b.Lt(lo, b.Zero), b.Lt(hi, lo), b.Lt(n, hi)), "slice bounds out of range")
		f.env[x] = t.substr(s, lo, hi)
		return
	}
	var s *SliceV
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s = t.slice(st, x.X)
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		tm, ok := t.val(st, x.X).(*Term)
		if !ok {
			unsupported("slicing array field")
		}
		n := b.Int(at.Len())
		s = &SliceV{tm, b.Zero, n, n}
	default:
		unsupported("slice of %s", tname(x.X.Type()))
	}
	lo, hi := opt(x.Low, b.Zero), opt(x.High, s.len)
	mx := opt(x.Max, s.cap)
	t.guard(st, b.Or(b.Lt(lo, b.Zero), b.Lt(hi, lo), b.Lt(mx, hi), b.Lt(s.cap, mx)), "slice bounds out of range")
	f.env[x] = &SliceV{s.arr, b.Add(s.off, lo), b.Sub(hi, lo), b.Sub(mx, lo)}
}

func (t *Task) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) {
	b := t.b
	v := t.term(st, x.X)
	var ok *Term
	var val Value
	if types.IsInterface(x.AssertedType) {
		if dt := t.dynType(v); dt != nil {
			ok = b.Bool(types.Implements(dt, x.AssertedType.Underlying().(*types.Interface)))
		} else {
			ok = b.And(b.Ne(v, b.Zero), b.AppS(b.Fn("implements_"+tname(x.AssertedType), SBool, 1), t.typeofT(v)))
		}
		val = v
		if x.CommaOk {
			f.env[x] = TupleV{b.Ite(ok, v, b.Zero), ok}
			return
		}
	} else {
		ok = t.isType(v, x.AssertedType)
		val = t.unbox(v, x.AssertedType)
		if x.CommaOk {
			if ok == b.True {
				f.env[x] = TupleV{val, ok}
				return
			}
			vs := t.flatten(val)
			ls := leavesOf(x.AssertedType)
			r := make([]*Term, len(vs))
			for i := range vs {
				r[i] = b.Ite(ok, vs[i], t.zeroLeaf(ls[i]))
			}
			f.env[x] = TupleV{t.unflatten(r, x.AssertedType), ok}
			return
		}
	}
	t.guard(st, b.Not(ok), "interface conversion")
	f.env[x] = val
}

func (st *State) newChan(size *Term) *Term {
	t := st.t
	r := t.b.NewAlloc("chan")
	t.declRegion("ch:closed", []Leaf{{"", kBool, types.Typ[types.Bool]}}, 1)
	st.write("ch:closed", []*Term{r}, t.b.False, SBool)
	return r
}

func (t *Task) selectOp(st *State, f *Frame, x *ssa.Select) {
	b := t.b
	if len(x.States) == 0 && x.Blocking {
		st.term = "halt"
		return
	}
	for _, sc := range x.States {
		if sc.Dir == types.RecvOnly {
			t.event(st, "listen", TV{t.term(st, sc.Chan), sc.Chan.Type()})
		}
	}
	t.event(st, "select")
	if st.dead {
		return
	}
	// result: (index, recvOk, r_0 ... r_n-1)
	mk := func(s *State, idx int) {
		tv := TupleV{b.Int(int64(idx)), b.Fresh("recvok", SBool)}
		for i, sc := range x.States {
			if sc.Dir == types.RecvOnly {
				et := sc.Chan.Type().Underlying().(*types.Chan).Elem()
				if i == idx {
					v := t.freshVal("recv", et)
					tv = append(tv, v)
					t.event(s, "recv", TV{t.term(s, sc.Chan), sc.Chan.Type()}, TV{v, et})
				} else {
					tv = append(tv, t.zeroVal(et))
				}
			} else if i == idx {
				t.event(s, "send", TV{t.term(s, sc.Chan), sc.Chan.Type()}, TV{t.val(s, sc.Send), sc.Send.Type()})
			}
		}
		s.top().env[x] = tv
	}
	n := len(x.States)
	for i := 0; i < n; i++ {
		// a nil channel is never ready
		c := t.term(st, x.States[i].Chan)
		rdy := b.Ne(c, b.Zero)
		if rdy == b.False || !t.feasible(st, rdy) {
			continue
		}
		o := st.fork()
		o.assume(rdy)
		o.trace = append(o.trace, fmt.Sprintf("select case %d at %s", i, t.site(o)))
		mk(o, i)
		if !o.dead {
			t.push(o)
		}
	}
	if !x.Blocking {
		tv := TupleV{b.Int(-1), b.False}
		for _, sc := range x.States {
			if sc.Dir == types.RecvOnly {
				tv = append(tv, t.zeroVal(sc.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
		st.top().env[x] = tv
		t.event(st, "default")
		return
	}
	st.dead = true
}

// ---- control flow

func (t *Task) jump(st *State, target *ssa.BasicBlock) {
	f := st.top()
	pred := f.block
	for len(f.loops) > 0 && !f.loops[len(f.loops)-1].blocks[target] {
		f.loops = f.loops[:len(f.loops)-1]
	}
	if t.an != nil && len(st.frames)-1 == t.an.depth && !t.an.loop.blocks[target] {
		st.term = "exit"
		return
	}
	f.pred = pred
	f.block = target
	f.ip = 0
	if len(f.loops) > 0 && f.loops[len(f.loops)-1].header == target {
		st.term = "backedge"
		return
	}
	if n := len(st.joins); n > 0 && st.joins[n-1].block == target && st.joins[n-1].depth == len(st.frames)-1 {
		t.phis(st, f, func(phi *ssa.Phi, i int) Value { return t.val(st, phi.Edges[i]) })
		st.term = "join"
		return
	}
	if l, ok := t.loopsOf(f.fn)[target]; ok {
		t.enterLoop(st, l)
		return
	}
	t.phis(st, f, func(phi *ssa.Phi, i int) Value { return t.val(st, phi.Edges[i]) })
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	panic("pred")
}

func (t *Task) phis(st *State, f *Frame, get func(phi *ssa.Phi, i int) Value) {
	if f.pred == nil {
		return
	}
	i := -1
	vals := map[*ssa.Phi]Value{}
	n := 0
	for _, in := range f.block.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if i < 0 {
			i = predIndex(f.block, f.pred)
		}
		vals[phi] = get(phi, i)
		n++
	}
	for p, v := range vals {
		f.env[p] = v
	}
	f.ip = n
}

func (t *Task) pushFrame(st *State, fn *ssa.Function, args []Value, binds []Value, retTo ssa.Value, isDefer bool) *Frame {
	if len(fn.Blocks) == 0 {
		unsupported("function %s has no body", fn)
	}
	if len(st.frames) > 40 {
		unsupported("inlining too deep at %s", fn)
	}
	for _, g := range st.frames {
		if g.fn == fn {
			unsupported("recursive call of %s without a contract", fn)
		}
	}
	t.visited[fn] = true
	f := &Frame{fn: fn, env: map[ssa.Value]Value{}, block: fn.Blocks[0], retTo: retTo, isDefer: isDefer}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = binds[i]
	}
	st.frames = append(st.frames, f)
	// the entry block may itself be a loop header
	if l, ok := t.loopsOf(fn)[f.block]; ok {
		t.enterLoop(st, l)
	}
	return f
}
