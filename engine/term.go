package main

// Hash-consed terms over two sorts (Int, Bool) with eager simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
)

type Op uint8

const (
	OConst  Op = iota // integer constant (c)
	OTrue             // true
	OFalse            // false
	OApp              // sym applied to args (arity 0: a constant)
	OLin              // c + sum coefs[i]*args[i]
	ODiv              // floor(args[0] / c), c>0
	OMod              // args[0] mod c, c>0, result in [0,c)
	OMul              // non linear product (kept opaque)
	OLe0              // args[0] <= 0
	OEq0              // args[0] == 0
	OIff              // args[0] <=> args[1]
	ONot              // not
	OAnd              // and
	OOr               // or
	OIte              // ite (Int or Bool)
	OForall           // forall bvars . args[0]
)

type Sym struct {
	name  string
	sort  Sort
	arity int
	clock int
	lo    *big.Int
	hi    *big.Int
	ref   bool // values are references (0 = nil) existing at clock
	heap  bool // base of a memory region: clock of an application is the clock of the symbol
	bound bool // bound variable
	alloc bool // freshly allocated reference: distinct from everything older
	facts func(t *Term) []*Term
}

type Term struct {
	op    Op
	sort  Sort
	sym   *Sym
	args  []*Term
	coefs []*big.Int
	c     *big.Int
	bv    []*Term
	id    int
	clock int
	bound bool // contains a free bound variable
	lo    *big.Int
	hi    *big.Int
	bnd   bool // bounds computed
	tok   interface{}
}

// TB is a term builder: one per verification task.
type TB struct {
	tab    map[string]*Term
	n      int
	clock  int
	symtab map[string]*Sym
	nsym   int
	True   *Term
	False  *Term
	Zero   *Term
	One    *Term
	strs   map[string]*Term
	strOf  map[int64]string
	fresh  map[string]int
	// tokens for extensional snapshots
	toks []*Term
}

func NewTB() *TB {
	b := &TB{tab: map[string]*Term{}, symtab: map[string]*Sym{}, strs: map[string]*Term{}, strOf: map[int64]string{0: ""}, fresh: map[string]int{}}
	b.True = b.mk(&Term{op: OTrue, sort: SBool})
	b.False = b.mk(&Term{op: OFalse, sort: SBool})
	b.Zero = b.Int(0)
	b.One = b.Int(1)
	return b
}

func bi(n int64) *big.Int { return big.NewInt(n) }

var big0 = bi(0)
var big1 = bi(1)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big1, n) }

func (b *TB) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('A' + t.op))
	sb.WriteByte(byte('0' + t.sort))
	if t.sym != nil {
		sb.WriteString(t.sym.name)
		sb.WriteByte('|')
	}
	if t.c != nil {
		sb.WriteString(t.c.Text(36))
	}
	for i, a := range t.args {
		sb.WriteByte(',')
		if t.coefs != nil {
			sb.WriteString(t.coefs[i].Text(36))
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, v := range t.bv {
		sb.WriteByte(';')
		sb.WriteString(strconv.Itoa(v.id))
	}
	k := sb.String()
	if o, ok := b.tab[k]; ok {
		return o
	}
	b.n++
	t.id = b.n
	if t.sym != nil {
		t.clock = t.sym.clock
		t.bound = t.sym.bound
	}
	for _, a := range t.args {
		if t.sym == nil || !t.sym.heap {
			if a.clock > t.clock {
				t.clock = a.clock
			}
		}
		if a.bound {
			t.bound = true
		}
	}
	if t.op == OForall {
		// recompute: bound only if other bound variables remain free
		t.bound = len(freeBound(t.args[0], t.bv)) > 0
	}
	b.tab[k] = t
	return t
}

func freeBound(t *Term, except []*Term) map[*Term]bool {
	res := map[*Term]bool{}
	seen := map[*Term]bool{}
	var w func(t *Term, ex map[*Term]bool)
	w = func(t *Term, ex map[*Term]bool) {
		if !t.bound || seen[t] {
			return
		}
		if t.op == OForall {
			ex2 := map[*Term]bool{}
			for k := range ex {
				ex2[k] = true
			}
			for _, v := range t.bv {
				ex2[v] = true
			}
			w(t.args[0], ex2)
			return
		}
		seen[t] = true
		if t.op == OApp && t.sym.bound {
			if !ex[t] {
				res[t] = true
			}
			return
		}
		for _, a := range t.args {
			w(a, ex)
		}
	}
	ex := map[*Term]bool{}
	for _, v := range except {
		ex[v] = true
	}
	w(t, ex)
	return res
}

func (b *TB) Int(n int64) *Term { return b.mk(&Term{op: OConst, sort: SInt, c: bi(n)}) }
func (b *TB) Big(n *big.Int) *Term {
	return b.mk(&Term{op: OConst, sort: SInt, c: new(big.Int).Set(n)})
}
func (b *TB) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}

// Str interns a string literal. Distinct literals are distinct integers.
func (b *TB) Str(s string) *Term {
	if s == "" {
		b.strOf[0] = ""
		return b.Zero
	}
	if t, ok := b.strs[s]; ok {
		return t
	}
	n := int64(1000000 + len(b.strs))
	t := b.Int(n)
	b.strs[s] = t
	b.strOf[n] = s
	return t
}
func (b *TB) StrLit(t *Term) (string, bool) {
	if t.op != OConst || !t.c.IsInt64() {
		return "", false
	}
	s, ok := b.strOf[t.c.Int64()]
	return s, ok
}

func (b *TB) NewSym(name string, sort Sort, arity int) *Sym {
	b.fresh[name]++
	n := name
	if k := b.fresh[name]; k > 1 {
		n = fmt.Sprintf("%s!%d", name, k)
	}
	b.clock++
	return &Sym{name: n, sort: sort, arity: arity, clock: b.clock}
}

// Fn returns the (unique) uninterpreted logical function of that name.
func (b *TB) Fn(name string, sort Sort, arity int) *Sym {
	if s, ok := b.symtab[name]; ok {
		return s
	}
	s := &Sym{name: name, sort: sort, arity: arity, clock: 0}
	b.symtab[name] = s
	return s
}

func (b *TB) App(s *Sym, args ...*Term) *Term {
	return b.mk(&Term{op: OApp, sort: s.sort, sym: s, args: args})
}
func (b *TB) Fresh(name string, sort Sort) *Term { return b.App(b.NewSym(name, sort, 0)) }
func (b *TB) FreshBound(name string) *Term {
	s := b.NewSym("?"+name, SInt, 0)
	s.bound = true
	s.clock = 0
	return b.App(s)
}
func (b *TB) NewAlloc(name string) *Term {
	s := b.NewSym("alloc_"+name, SInt, 0)
	s.alloc = true
	s.ref = true
	s.lo = big1
	return b.App(s)
}

// ---- linear arithmetic

func (b *TB) lin(c *big.Int, args []*Term, coefs []*big.Int) *Term {
	// collect
	m := map[*Term]*big.Int{}
	var order []*Term
	cc := new(big.Int).Set(c)
	var add func(t *Term, k *big.Int)
	add = func(t *Term, k *big.Int) {
		if k.Sign() == 0 {
			return
		}
		switch t.op {
		case OConst:
			cc.Add(cc, new(big.Int).Mul(k, t.c))
		case OLin:
			cc.Add(cc, new(big.Int).Mul(k, t.c))
			for i, a := range t.args {
				add(a, new(big.Int).Mul(k, t.coefs[i]))
			}
		default:
			if o, ok := m[t]; ok {
				o.Add(o, k)
			} else {
				m[t] = new(big.Int).Set(k)
				order = append(order, t)
			}
		}
	}
	for i, a := range args {
		add(a, coefs[i])
	}
	var ts []*Term
	for _, t := range order {
		if m[t].Sign() != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 0 {
		return b.Big(cc)
	}
	if len(ts) == 1 && cc.Sign() == 0 && m[ts[0]].Cmp(big1) == 0 {
		return ts[0]
	}
	cs := make([]*big.Int, len(ts))
	for i, t := range ts {
		cs[i] = m[t]
	}
	return b.mk(&Term{op: OLin, sort: SInt, c: cc, args: ts, coefs: cs})
}

func (b *TB) Add(x, y *Term) *Term { return b.lin(big0, []*Term{x, y}, []*big.Int{big1, big1}) }
func (b *TB) Sub(x, y *Term) *Term { return b.lin(big0, []*Term{x, y}, []*big.Int{big1, bi(-1)}) }
func (b *TB) AddC(x *Term, n int64) *Term {
	return b.lin(bi(n), []*Term{x}, []*big.Int{big1})
}
func (b *TB) MulC(x *Term, n *big.Int) *Term { return b.lin(big0, []*Term{x}, []*big.Int{n}) }
func (b *TB) Mul(x, y *Term) *Term {
	if x.op == OConst {
		return b.MulC(y, x.c)
	}
	if y.op == OConst {
		return b.MulC(x, y.c)
	}
	return b.mk(&Term{op: OMul, sort: SInt, args: []*Term{x, y}})
}

// bounds returns a context-free interval (nil = unbounded).
func (b *TB) bounds(t *Term) (*big.Int, *big.Int) {
	if t.bnd {
		return t.lo, t.hi
	}
	var lo, hi *big.Int
	switch t.op {
	case OConst:
		lo, hi = t.c, t.c
	case OApp:
		lo, hi = t.sym.lo, t.sym.hi
		if t.sym.ref && lo == nil {
			lo = big0
		}
	case OLin:
		lo, hi = new(big.Int).Set(t.c), new(big.Int).Set(t.c)
		for i, a := range t.args {
			al, ah := b.bounds(a)
			k := t.coefs[i]
			if k.Sign() < 0 {
				al, ah = ah, al
			}
			if lo != nil {
				if al == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(k, al))
				}
			}
			if hi != nil {
				if ah == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(k, ah))
				}
			}
		}
	case OMod:
		lo, hi = big0, new(big.Int).Sub(t.c, big1)
	case ODiv:
		al, ah := b.bounds(t.args[0])
		if al != nil {
			lo = fdiv(al, t.c)
		}
		if ah != nil {
			hi = fdiv(ah, t.c)
		}
	case OIte:
		al, ah := b.bounds(t.args[1])
		bl, bh := b.bounds(t.args[2])
		if al != nil && bl != nil {
			lo = al
			if bl.Cmp(al) < 0 {
				lo = bl
			}
		}
		if ah != nil && bh != nil {
			hi = ah
			if bh.Cmp(ah) > 0 {
				hi = bh
			}
		}
	}
	t.lo, t.hi, t.bnd = lo, hi, true
	return lo, hi
}

func fdiv(a, c *big.Int) *big.Int {
	q, r := new(big.Int), new(big.Int)
	q.DivMod(a, c, r) // Euclidean, c>0 => floor
	return q
}

func (b *TB) Div(x *Term, c *big.Int) *Term {
	if c.Cmp(big1) == 0 {
		return x
	}
	if x.op == OConst {
		return b.Big(fdiv(x.c, c))
	}
	lo, hi := b.bounds(x)
	if lo != nil && hi != nil {
		ql, qh := fdiv(lo, c), fdiv(hi, c)
		if ql.Cmp(qh) == 0 {
			return b.Big(ql)
		}
	}
	if x.op == OLin {
		// pull out multiples of c
		var keepA []*Term
		var keepC []*big.Int
		var outA []*Term
		var outC []*big.Int
		for i, a := range x.args {
			q, r := new(big.Int), new(big.Int)
			q.DivMod(x.coefs[i], c, r)
			if r.Sign() == 0 {
				outA = append(outA, a)
				outC = append(outC, q)
			} else {
				keepA = append(keepA, a)
				keepC = append(keepC, x.coefs[i])
			}
		}
		if len(outA) > 0 {
			q, r := new(big.Int), new(big.Int)
			q.DivMod(x.c, c, r)
			rest := b.Div(b.lin(r, keepA, keepC), c)
			return b.lin(q, append(outA, rest), append(outC, big1))
		}
	}
	if x.op == ODiv {
		return b.Div(x.args[0], new(big.Int).Mul(c, x.c))
	}
	if x.op == OIte && x.args[1].op == OConst && x.args[2].op == OConst {
		return b.Ite(x.args[0], b.Div(x.args[1], c), b.Div(x.args[2], c))
	}
	if c.Cmp(pow2(24)) == 0 && lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(32)) < 0 {
		return b.byteOf(x, 3)
	}
	return b.mk(&Term{op: ODiv, sort: SInt, args: []*Term{x}, c: c})
}

// byteOf(y, k) is byte k of y, 0 <= y < 2^32. The four bytes of y sum up to y (see facts), which keeps
// encoding and decoding of integers linear.
func (b *TB) byteOf(y *Term, k int) *Term {
	if y.op == OConst {
		return b.Big(new(big.Int).And(new(big.Int).Rsh(y.c, uint(8*k)), bi(255)))
	}
	s := b.Fn(fmt.Sprintf("byte%d", k), SInt, 1)
	if s.facts == nil {
		s.lo, s.hi = big0, bi(255)
		s.facts = func(t *Term) []*Term {
			y := t.args[0]
			var a []*Term
			var c []*big.Int
			for j := 0; j < 4; j++ {
				a = append(a, b.byteOf(y, j))
				c = append(c, pow2(uint(8*j)))
			}
			lo, hi := b.bounds(y)
			if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(32)) < 0 {
				return []*Term{b.Eq(b.lin(big0, a, c), y)}
			}
			return []*Term{b.Or(b.Lt(y, b.Zero), b.Le(b.Big(pow2(32)), y), b.Eq(b.lin(big0, a, c), y))}
		}
	}
	return b.App(s, y)
}

func (b *TB) Mod(x *Term, c *big.Int) *Term {
	if x.op == OConst {
		return b.Big(new(big.Int).Mod(x.c, c))
	}
	lo, hi := b.bounds(x)
	if lo != nil && hi != nil && fdiv(lo, c).Cmp(fdiv(hi, c)) == 0 {
		return b.lin(new(big.Int).Neg(new(big.Int).Mul(fdiv(lo, c), c)), []*Term{x}, []*big.Int{big1})
	}
	if x.op == OMod && new(big.Int).Mod(x.c, c).Sign() == 0 {
		return b.Mod(x.args[0], c)
	}
	if x.op == OLin {
		var A []*Term
		var C []*big.Int
		ch := false
		for i, a := range x.args {
			r := new(big.Int).Mod(x.coefs[i], c)
			if r.Cmp(x.coefs[i]) != 0 {
				ch = true
			}
			if r.Sign() != 0 {
				// mod inside mod with unit coefficient
				if a.op == OMod && new(big.Int).Mod(a.c, c).Sign() == 0 {
					a = a.args[0]
					ch = true
				}
				A = append(A, a)
				C = append(C, r)
			}
		}
		r := new(big.Int).Mod(x.c, c)
		if r.Cmp(x.c) != 0 {
			ch = true
		}
		if ch {
			return b.Mod(b.lin(r, A, C), c)
		}
	}
	if c.Cmp(bi(256)) == 0 {
		y, k := x, 0
		if x.op == ODiv {
			for k = 1; k < 4; k++ {
				if x.c.Cmp(pow2(uint(8*k))) == 0 {
					y = x.args[0]
					break
				}
			}
		}
		if k < 4 {
			return b.byteOf(b.Mod(y, pow2(32)), k)
		}
	}
	return b.mk(&Term{op: OMod, sort: SInt, args: []*Term{x}, c: c})
}

// ---- booleans

func (b *TB) Not(x *Term) *Term {
	switch x.op {
	case OTrue:
		return b.False
	case OFalse:
		return b.True
	case ONot:
		return x.args[0]
	case OLe0:
		// not(t<=0)  =  1-t <= 0
		return b.le0(b.lin(big1, []*Term{x.args[0]}, []*big.Int{bi(-1)}))
	}
	return b.mk(&Term{op: ONot, sort: SBool, args: []*Term{x}})
}

func (b *TB) nary(op Op, xs []*Term) *Term {
	unit, zero := b.True, b.False
	if op == OOr {
		unit, zero = b.False, b.True
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		if seen[b.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return b.mk(&Term{op: op, sort: SBool, args: out})
}
func (b *TB) And(xs ...*Term) *Term    { return b.nary(OAnd, xs) }
func (b *TB) Or(xs ...*Term) *Term     { return b.nary(OOr, xs) }
func (b *TB) Implies(x, y *Term) *Term { return b.Or(b.Not(x), y) }
func (b *TB) Iff(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x == b.True {
		return y
	}
	if y == b.True {
		return x
	}
	if x == b.False {
		return b.Not(y)
	}
	if y == b.False {
		return b.Not(x)
	}
	if b.Not(x) == y {
		return b.False
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: OIff, sort: SBool, args: []*Term{x, y}})
}

func (b *TB) Ite(c, x, y *Term) *Term {
	if c == b.True {
		return x
	}
	if c == b.False {
		return y
	}
	if x == y {
		return x
	}
	if x.sort == SBool {
		if x == b.True {
			return b.Or(c, y)
		}
		if x == b.False {
			return b.And(b.Not(c), y)
		}
		if y == b.True {
			return b.Or(b.Not(c), x)
		}
		if y == b.False {
			return b.And(c, x)
		}
	}
	if c.op == ONot {
		return b.Ite(c.args[0], y, x)
	}
	if x.op == OIte && x.args[0] == c {
		x = x.args[1]
	}
	if y.op == OIte && y.args[0] == c {
		y = y.args[2]
	}
	if x == y {
		return x
	}
	return b.mk(&Term{op: OIte, sort: x.sort, args: []*Term{c, x, y}})
}

// isAlloc: t is exactly an allocation constant
func isAlloc(t *Term) bool { return t.op == OApp && t.sym.alloc }

// refLike: the term denotes references only through known reference symbols, so that its clock bounds it.
func refLike(t *Term) bool {
	switch t.op {
	case OApp:
		return t.sym.ref
	case OConst:
		return t.c.Sign() == 0
	case OIte:
		return refLike(t.args[1]) && refLike(t.args[2])
	}
	return false
}

func (b *TB) Eq(x, y *Term) *Term {
	if x.sort == SBool {
		return b.Iff(x, y)
	}
	if x == y {
		return b.True
	}
	// push through ite when one side is a constant or allocation
	simple := func(t *Term) bool { return t.op == OConst || isAlloc(t) }
	if x.op == OIte && simple(y) && (iteSimple(x, 6)) {
		return b.Ite(x.args[0], b.Eq(x.args[1], y), b.Eq(x.args[2], y))
	}
	if y.op == OIte && simple(x) && (iteSimple(y, 6)) {
		return b.Ite(y.args[0], b.Eq(x, y.args[1]), b.Eq(x, y.args[2]))
	}
	if isAlloc(x) && refLike(y) && (isAlloc(y) || y.clock < x.clock) {
		return b.False
	}
	if isAlloc(y) && refLike(x) && (isAlloc(x) || x.clock < y.clock) {
		return b.False
	}
	// injective constructors
	if x.op == OApp && y.op == OApp && len(x.args) > 0 && len(y.args) > 0 && strings.HasPrefix(x.sym.name, "box_") && strings.HasPrefix(y.sym.name, "box_") {
		if x.sym != y.sym {
			return b.False
		}
		var cs []*Term
		for i := range x.args {
			cs = append(cs, b.Eq(x.args[i], y.args[i]))
		}
		return b.And(cs...)
	}
	if x.op == OApp && y.op == OApp && strings.HasPrefix(x.sym.name, "box_") && strings.HasPrefix(y.sym.name, "box_") && x.sym != y.sym {
		return b.False
	}
	t := b.Sub(x, y)
	if t.op == OConst {
		return b.Bool(t.c.Sign() == 0)
	}
	lo, hi := b.bounds(t)
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return b.False
	}
	if t.op == OLin {
		g := new(big.Int)
		for _, k := range t.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(big1) > 0 {
			if new(big.Int).Mod(t.c, g).Sign() != 0 {
				return b.False
			}
		} else {
			g.Set(big1)
		}
		if t.coefs[0].Sign() < 0 {
			g.Neg(g)
		}
		if g.Cmp(big1) != 0 {
			cs := make([]*big.Int, len(t.coefs))
			for i, k := range t.coefs {
				cs[i] = new(big.Int).Quo(k, g)
			}
			t = b.lin(new(big.Int).Quo(t.c, g), t.args, cs)
		}
	}
	return b.mk(&Term{op: OEq0, sort: SBool, args: []*Term{t}})
}

func iteSimple(t *Term, d int) bool {
	if t.op != OIte {
		return true
	}
	if d == 0 {
		return false
	}
	return iteSimple(t.args[1], d-1) && iteSimple(t.args[2], d-1)
}

func (b *TB) le0(t *Term) *Term {
	if t.op == OConst {
		return b.Bool(t.c.Sign() <= 0)
	}
	lo, hi := b.bounds(t)
	if hi != nil && hi.Sign() <= 0 {
		return b.True
	}
	if lo != nil && lo.Sign() > 0 {
		return b.False
	}
	if t.op == OLin {
		g := new(big.Int)
		for _, k := range t.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(big1) > 0 {
			cs := make([]*big.Int, len(t.coefs))
			for i, k := range t.coefs {
				cs[i] = new(big.Int).Quo(k, g)
			}
			// c + g*s <= 0  <=>  s <= floor(-c/g) <=> s + ceil(c/g) <= 0
			cc := fdiv(new(big.Int).Neg(t.c), g)
			t = b.lin(new(big.Int).Neg(cc), t.args, cs)
		}
	}
	return b.mk(&Term{op: OLe0, sort: SBool, args: []*Term{t}})
}
func (b *TB) Le(x, y *Term) *Term { return b.le0(b.Sub(x, y)) }
func (b *TB) Lt(x, y *Term) *Term { return b.le0(b.AddC(b.Sub(x, y), 1)) }
func (b *TB) Ne(x, y *Term) *Term { return b.Not(b.Eq(x, y)) }

func (b *TB) Forall(bv []*Term, body *Term) *Term {
	if body == b.True || body == b.False {
		return body
	}
	if !body.bound {
		return body
	}
	return b.mk(&Term{op: OForall, sort: SBool, args: []*Term{body}, bv: bv})
}

// forallUnder: s implies the quantified fact, with the quantifier outside
func (b *TB) forallUnder(s, q *Term) *Term {
	return b.Forall(q.bv, b.Implies(s, q.args[0]))
}
func (b *TB) Exists(bv []*Term, body *Term) *Term {
	return b.Not(b.Forall(bv, b.Not(body)))
}

// Subst replaces terms (typically bound variables).
func (b *TB) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return b.subst(t, m, memo)
}
func (b *TB) subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = b.subst(a, m, memo)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = b.rebuild(t, na)
	}
	memo[t] = r
	return r
}
func (b *TB) rebuild(t *Term, na []*Term) *Term {
	switch t.op {
	case OApp:
		return b.AppS(t.sym, na...)
	case OLin:
		return b.lin(t.c, na, t.coefs)
	case ODiv:
		return b.Div(na[0], t.c)
	case OMod:
		return b.Mod(na[0], t.c)
	case OMul:
		return b.Mul(na[0], na[1])
	case OLe0:
		return b.le0(na[0])
	case OEq0:
		return b.Eq(na[0], b.Zero)
	case OIff:
		return b.Iff(na[0], na[1])
	case ONot:
		return b.Not(na[0])
	case OAnd:
		return b.And(na...)
	case OOr:
		return b.Or(na...)
	case OIte:
		return b.Ite(na[0], na[1], na[2])
	case OForall:
		return b.Forall(t.bv, na[0])
	}
	panic("rebuild")
}

// AppS applies a symbol with constructor/selector simplification.
func (b *TB) AppS(s *Sym, args ...*Term) *Term {
	// prefix, suffix and substring tests of literals (see contracts/strings.spec)
	if len(args) == 2 && (s.name == "uf_hp" || s.name == "uf_hs" || s.name == "uf_has") {
		x, ok1 := b.StrLit(args[0])
		y, ok2 := b.StrLit(args[1])
		if ok2 && y == "" {
			return b.True
		}
		if ok1 && ok2 {
			switch s.name {
			case "uf_hp":
				return b.Bool(strings.HasPrefix(x, y))
			case "uf_hs":
				return b.Bool(strings.HasSuffix(x, y))
			}
			return b.Bool(strings.Contains(x, y))
		}
		if a := args[0]; ok2 && a.op == OIte {
			return b.Ite(a.args[0], b.AppS(s, a.args[1], args[1]), b.AppS(s, a.args[2], args[1]))
		}
	}
	if len(args) == 1 {
		x := args[0]
		if s.name == "typeof" {
			if x.op == OApp && strings.HasPrefix(x.sym.name, "box_") {
				return b.Int(b.typeID(strings.TrimPrefix(x.sym.name, "box_")))
			}
			if x == b.Zero {
				return b.Zero
			}
			if x.op == OIte {
				return b.Ite(x.args[0], b.AppS(s, x.args[1]), b.AppS(s, x.args[2]))
			}
		}
		if strings.HasPrefix(s.name, "unbox_") {
			// unbox_<k>_<T>
			if x.op == OApp && strings.HasPrefix(x.sym.name, "box_") {
				p := strings.SplitN(s.name, "_", 3)
				if "box_"+p[2] == x.sym.name {
					k, _ := strconv.Atoi(p[1])
					return x.args[k]
				}
			}
			if x.op == OIte {
				return b.Ite(x.args[0], b.AppS(s, x.args[1]), b.AppS(s, x.args[2]))
			}
		}
	}
	return b.App(s, args...)
}

var typeIDs = map[string]int64{}
var typeIDMu = make(chan struct{}, 1)

func (b *TB) typeID(n string) int64 {
	typeIDMu <- struct{}{}
	defer func() { <-typeIDMu }()
	if k, ok := typeIDs[n]; ok {
		return k
	}
	k := int64(len(typeIDs) + 1)
	typeIDs[n] = k
	return k
}

// ---- printing

func (t *Term) String() string { return t.str(12) }
func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	js := func(sep string) string {
		var p []string
		for _, a := range t.args {
			p = append(p, a.str(d-1))
		}
		return strings.Join(p, sep)
	}
	switch t.op {
	case OConst:
		return t.c.String()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OApp:
		if len(t.args) == 0 {
			return t.sym.name
		}
		return t.sym.name + "(" + js(", ") + ")"
	case OLin:
		var p []string
		for i, a := range t.args {
			k := t.coefs[i]
			if k.Cmp(big1) == 0 {
				p = append(p, a.str(d-1))
			} else if k.Cmp(bi(-1)) == 0 {
				p = append(p, "-"+a.str(d-1))
			} else {
				p = append(p, k.String()+"*"+a.str(d-1))
			}
		}
		if t.c.Sign() != 0 {
			p = append(p, t.c.String())
		}
		return "(" + strings.Join(p, " + ") + ")"
	case ODiv:
		return "(" + js("") + " / " + t.c.String() + ")"
	case OMod:
		return "(" + js("") + " % " + t.c.String() + ")"
	case OMul:
		return "(" + js("*") + ")"
	case OLe0:
		return t.args[0].str(d-1) + " <= 0"
	case OEq0:
		return t.args[0].str(d-1) + " == 0"
	case OIff:
		return "(" + js(" <=> ") + ")"
	case ONot:
		return "!(" + js("") + ")"
	case OAnd:
		return "(" + js(" && ") + ")"
	case OOr:
		return "(" + js(" || ") + ")"
	case OIte:
		return "(" + t.args[0].str(d-1) + " ? " + t.args[1].str(d-1) + " : " + t.args[2].str(d-1) + ")"
	case OForall:
		var p []string
		for _, v := range t.bv {
			p = append(p, v.sym.name)
		}
		return "(forall " + strings.Join(p, ",") + " :: " + t.args[0].str(d-1) + ")"
	}
	return "?"
}
