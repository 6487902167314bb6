package main

// Evaluation of specification expressions over symbolic states.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type TV struct {
	v Value
	t types.Type
}

type Env struct {
	st   *State
	sn   *Snapshot // nil: current
	old  *Snapshot
	vars map[string]TV
	mark *Term // entry mark for fresh()
	inst map[string]bool
	d    int
	loc  map[string]*ghostDecl
}

type specError struct{ msg string }

func (t *Task) specFail(n *Node, f string, a ...interface{}) {
	panic(specError{fmt.Sprintf("%s: %s in %s", n.pos, fmt.Sprintf(f, a...), n)})
}

func (e *Env) with(k string, v TV) *Env {
	n := *e
	n.vars = map[string]TV{}
	for a, b := range e.vars {
		n.vars[a] = b
	}
	n.vars[k] = v
	return &n
}

func (t *Task) evBool(n *Node, e *Env) *Term {
	r := t.ev(n, e)
	x, ok := r.v.(*Term)
	if !ok || x.sort != SBool {
		t.specFail(n, "boolean expected")
	}
	return x
}
func (t *Task) evInt(n *Node, e *Env) *Term {
	r := t.ev(n, e)
	x := t.asTerm(r.v)
	if x.sort != SInt {
		t.specFail(n, "integer expected")
	}
	return x
}

func (t *Task) ghostRegion(g *ghostDecl) (string, Leaf) {
	name := "gh:" + g.name
	l := Leaf{"", kOpaque, types.Typ[types.Int]}
	switch g.kind {
	case "bool":
		l.kind = kBool
	case "nat":
		l.kind = kIface // lo = 0
	case "str":
		l.kind = kStr
	case "int":
	default:
		l.kind = kRef
		if strings.HasPrefix(g.kind, "any") || g.kind == "error" || g.kind == "func" {
			l.kind = kIface
		}
	}
	t.declRegion(name, []Leaf{l}, len(g.params))
	return name, l
}
func (t *Task) ghostType(kind string) types.Type {
	switch kind {
	case "int", "nat", "ref", "":
		return nil
	case "bool":
		return types.Typ[types.Bool]
	case "str":
		return types.Typ[types.String]
	case "any":
		return types.NewInterfaceType(nil, nil)
	}
	return t.v.typ(kind)
}

func (t *Task) ev(n *Node, e *Env) TV {
	b := t.b
	switch n.k {
	case "int":
		return TV{b.Big(n.n), nil}
	case "str":
		return TV{b.Str(n.s), types.Typ[types.String]}
	case "id":
		return t.evIdent(n, e)
	case "un":
		switch n.s {
		case "!":
			return TV{b.Not(t.evBool(n.a[0], e)), types.Typ[types.Bool]}
		case "-":
			return TV{b.lin(big0, []*Term{t.evInt(n.a[0], e)}, []*big.Int{bi(-1)}), nil}
		case "*":
			x := t.ev(n.a[0], e)
			if x.t == nil {
				t.specFail(n, "dereference of an untyped value")
			}
			a := e.st.addrOf(x.v, deref(x.t))
			return TV{e.st.loadAt(e.sn, a), a.typ}
		}
	case "ite":
		c := t.evBool(n.a[0], e)
		x, y := t.ev(n.a[1], e), t.ev(n.a[2], e)
		fx, fy := t.flatten(x.v), t.flatten(y.v)
		if len(fx) != len(fy) {
			t.specFail(n, "shapes differ")
		}
		r := make([]*Term, len(fx))
		for i := range fx {
			r[i] = b.Ite(c, fx[i], fy[i])
		}
		ty := x.t
		if ty == nil {
			ty = y.t
		}
		if len(r) == 1 {
			return TV{r[0], ty}
		}
		return TV{t.unflatten(r, ty), ty}
	case "forall", "exists":
		ne := *e
		ne.vars = map[string]TV{}
		for k, v := range e.vars {
			ne.vars[k] = v
		}
		var bv []*Term
		for _, v := range n.vs {
			x := b.FreshBound(v.name)
			bv = append(bv, x)
			ne.vars[v.name] = TV{x, t.ghostType(v.typ)}
		}
		body := t.evBool(n.a[0], &ne)
		if n.k == "forall" {
			return TV{b.Forall(bv, body), types.Typ[types.Bool]}
		}
		return TV{b.Exists(bv, body), types.Typ[types.Bool]}
	case "is":
		x := t.evInt(n.a[0], e)
		return TV{t.isType(x, t.v.typ(n.s)), types.Typ[types.Bool]}
	case "as":
		x := t.evInt(n.a[0], e)
		ty := t.v.typ(n.s)
		return TV{t.unbox(x, ty), ty}
	case "field":
		x := t.ev(n.a[0], e)
		return t.evField(n, x, e)
	case "index":
		x := t.ev(n.a[0], e)
		if x.t == nil {
			t.specFail(n, "indexing an untyped value")
		}
		switch u := x.t.Underlying().(type) {
		case *types.Slice:
			i := t.evInt(n.a[1], e)
			s := x.v.(*SliceV)
			a := &Addr{kind: 'e', root: u.Elem(), ref: s.arr, idx: b.Add(s.off, i), typ: u.Elem()}
			return TV{e.st.loadAt(e.sn, a), u.Elem()}
		case *types.Map:
			k := t.mapKey(t.ev(n.a[1], e).v)
			v, _ := e.st.mapGet(e.sn, u, t.asTerm(x.v), k)
			return TV{v, u.Elem()}
		case *types.Basic:
			i := t.evInt(n.a[1], e)
			return TV{t.strAt(t.asTerm(x.v), i), nil}
		}
		t.specFail(n, "cannot index %s", tname(x.t))
	case "slice":
		x := t.ev(n.a[0], e)
		lo, hi := t.evInt(n.a[1], e), t.evInt(n.a[2], e)
		if s, ok := x.v.(*SliceV); ok {
			return TV{&SliceV{s.arr, b.Add(s.off, lo), b.Sub(hi, lo), b.Sub(s.cap, lo)}, x.t}
		}
		return TV{t.substr(t.asTerm(x.v), lo, hi), x.t}
	case "call":
		return t.evCall(n, e)
	case "bin":
		return t.evBin(n, e)
	}
	t.specFail(n, "cannot evaluate %s", n.k)
	return TV{}
}

func (t *Task) strAt(s, i *Term) *Term {
	if l, ok := t.b.StrLit(s); ok && i.op == OConst && i.c.IsInt64() && i.c.Int64() >= 0 && i.c.Int64() < int64(len(l)) {
		return t.b.Int(int64(l[i.c.Int64()]))
	}
	return t.b.AppS(t.bat(), s, i)
}

func (t *Task) evField(n *Node, x TV, e *Env) TV {
	if x.t == nil {
		t.specFail(n, "field of an untyped value")
	}
	if sv, ok := x.v.(*StructV); ok {
		st := sv.typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n.s {
				return TV{sv.f[i], st.Field(i).Type()}
			}
		}
		t.specFail(n, "no field %s", n.s)
	}
	pt := deref(x.t)
	st, ok := pt.Underlying().(*types.Struct)
	if !ok {
		t.specFail(n, "not a struct: %s", tname(x.t))
	}
	a := e.st.addrOf(x.v, pt)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n.s {
			f := a.field(i)
			return TV{e.st.loadAt(e.sn, f), f.typ}
		}
	}
	t.specFail(n, "no field %s in %s", n.s, tname(pt))
	return TV{}
}

func (t *Task) evIdent(n *Node, e *Env) TV {
	b := t.b
	if v, ok := e.vars[n.s]; ok {
		return v
	}
	switch n.s {
	case "true":
		return TV{b.True, types.Typ[types.Bool]}
	case "false":
		return TV{b.False, types.Typ[types.Bool]}
	case "nil":
		return TV{b.Zero, nil}
	}
	if g, ok := t.spec.ghosts[n.s]; ok && len(g.params) == 0 {
		return t.readGhost(g, nil, e)
	}
	if g, ok := t.spec.ufuncs[n.s]; ok && len(g.params) == 0 {
		return t.evUfunc(g, nil)
	}
	if d, ok := t.spec.defs[n.s]; ok && len(d.params) == 0 {
		return t.ev(d.body, e)
	}
	if m, ok := t.v.pkg.Members[n.s]; ok {
		switch x := m.(type) {
		case *ssa.Global:
			a := &Addr{kind: 'g', name: globalName(x), typ: deref(x.Type())}
			return TV{e.st.loadAt(e.sn, a), a.typ}
		case *ssa.NamedConst:
			return TV{t.constVal(x.Value), x.Value.Type()}
		case *ssa.Function:
			return TV{t.funcVal(x), x.Type()}
		}
	}
	t.specFail(n, "unknown name %s", n.s)
	return TV{}
}

func (t *Task) readGhost(g *ghostDecl, args []*Term, e *Env) TV {
	name, l := t.ghostRegion(g)
	m := e.st.memOf(e.sn, name, len(g.params), leafSort(l))
	return TV{m.read(t.b, args), t.ghostType(g.kind)}
}

func (t *Task) evUfunc(g *ghostDecl, args []*Term) TV {
	srt := SInt
	if g.kind == "bool" {
		srt = SBool
	}
	s := t.b.Fn("uf_"+g.name, srt, len(args))
	switch g.kind {
	case "nat", "str", "any", "error":
		s.lo = big0
	case "ref":
		s.ref = true
	}
	return TV{t.b.AppS(s, args...), t.ghostType(g.kind)}
}

func (t *Task) evArgs(n *Node, e *Env) []*Term {
	var r []*Term
	for _, a := range n.a {
		v := t.ev(a, e)
		x, ok := v.v.(*Term)
		if !ok {
			r = append(r, t.flatten(v.v)...)
			continue
		}
		if x.sort == SBool {
			x = t.b.Ite(x, t.b.One, t.b.Zero)
		}
		r = append(r, x)
	}
	return r
}

func (t *Task) evCall(n *Node, e *Env) TV {
	b := t.b
	tb := types.Typ[types.Bool]
	switch n.s {
	case "old":
		if e.old == nil {
			t.specFail(n, "no old state here")
		}
		ne := *e
		ne.sn = e.old
		return t.ev(n.a[0], &ne)
	case "at":
		sn, ok := e.st.acqMem[n.a[0].s]
		if !ok {
			t.specFail(n, "no snapshot %s", n.a[0].s)
		}
		ne := *e
		ne.sn = sn
		return t.ev(n.a[1], &ne)
	case "hassnap":
		_, ok := e.st.acqMem[n.a[0].s]
		return TV{b.Bool(ok), tb}
	case "len", "cap":
		x := t.ev(n.a[0], e)
		switch v := x.v.(type) {
		case *SliceV:
			if n.s == "cap" {
				return TV{v.cap, nil}
			}
			return TV{v.len, nil}
		case *Term:
			if x.t == nil {
				return TV{t.strLen(v), nil}
			}
			if mt, ok := x.t.Underlying().(*types.Map); ok {
				return TV{e.st.mapLen(e.sn, mt, v), nil}
			}
			return TV{t.strLen(v), nil}
		}
		t.specFail(n, "len of %T", x.v)
	case "blen":
		return TV{t.strLen(t.evInt(n.a[0], e)), nil}
	case "bat":
		return TV{t.strAt(t.evInt(n.a[0], e), t.evInt(n.a[1], e)), nil}
	case "bytes":
		x := t.ev(n.a[0], e)
		s, ok := x.v.(*SliceV)
		if !ok {
			if tm, ok := x.v.(*Term); ok {
				return TV{tm, types.Typ[types.String]}
			}
			t.specFail(n, "bytes of %T", x.v)
		}
		return TV{e.st.byteTokAt(e.sn, s), types.Typ[types.String]}
	case "concat":
		return TV{t.concat(t.evInt(n.a[0], e), t.evInt(n.a[1], e)), types.Typ[types.String]}
	case "content":
		x := t.ev(n.a[0], e)
		return TV{t.content(x, e), nil}
	case "arr":
		return TV{t.ev(n.a[0], e).v.(*SliceV).arr, nil}
	case "off":
		return TV{t.ev(n.a[0], e).v.(*SliceV).off, nil}
	case "dom":
		x := t.ev(n.a[0], e)
		mt := x.t.Underlying().(*types.Map)
		return TV{e.st.mapDom(e.sn, mt, t.asTerm(x.v), t.evInt(n.a[1], e)), tb}
	case "fresh":
		x := t.ev(n.a[0], e)
		if e.mark == nil {
			t.specFail(n, "fresh() has no entry mark here")
		}
		return TV{b.refNewer(t.flatten(x.v)[0], e.mark), tb}
	case "now":
		// a mark in the order of allocations: everything allocated so far is older
		return TV{b.NewAlloc("now"), nil}
	case "newer":
		x := t.ev(n.a[0], e)
		m := t.evInt(n.a[1], e)
		if isAlloc(m) {
			return TV{b.refNewer(t.flatten(x.v)[0], m), tb}
		}
		return TV{b.Lt(m, t.flatten(x.v)[0]), tb}
	case "boxed":
		ty := t.v.typ(n.a[0].s)
		x := t.ev(n.a[1], e)
		return TV{t.box(x.v, ty), types.NewInterfaceType(nil, nil)}
	case "zero":
		ty := t.v.typ(n.a[0].s)
		return TV{t.zeroVal(ty), ty}
	case "boxzero":
		ty := t.v.typ(n.a[0].s)
		return TV{t.box(t.zeroVal(ty), ty), types.NewInterfaceType(nil, nil)}
	case "typeid":
		return TV{b.Int(b.typeID(tname(t.v.typ(n.a[0].s)))), nil}
	case "typeof":
		return TV{t.typeofT(t.evInt(n.a[0], e)), nil}
	case "fn":
		f := t.v.fns[n.a[0].s]
		if f == nil {
			t.specFail(n, "unknown function %s", n.a[0].s)
		}
		return TV{t.funcVal(f), f.Type()}
	case "global":
		return TV{t.extGlobal(n.a[0].s, 1), nil}
	case "cast":
		return TV{t.ev(n.a[1], e).v, t.v.typ(n.a[0].s)}
	case "known":
		// is the closure's code known?
		_, ok := t.ev(n.a[0], e).v.(*ClosureV)
		return TV{b.Bool(ok), tb}
	case "isnil":
		x := t.ev(n.a[0], e)
		return TV{b.Eq(t.flatten(x.v)[0], b.Zero), tb}
	case "visited":
		x := t.ev(n.a[0], e)
		it, ok := x.v.(*IterV)
		if !ok {
			t.specFail(n, "visited of %T", x.v)
		}
		m := e.st.memOf(e.sn, it.region, 1, SBool)
		return TV{m.read(b, []*Term{t.evInt(n.a[1], e)}), tb}
	case "itmap":
		x := t.ev(n.a[0], e)
		it := x.v.(*IterV)
		return TV{it.m, it.mt}
	case "mdom":
		return TV{b.App(b.Fn("mdom", SBool, 2), t.evInt(n.a[0], e), t.evInt(n.a[1], e)), tb}
	case "mnil":
		return TV{b.App(b.Fn("mnil", SBool, 1), t.evInt(n.a[0], e)), tb}
	case "mval":
		s := b.Fn("mval0", SInt, 2)
		s.lo = big0
		return TV{b.App(s, t.evInt(n.a[0], e), t.evInt(n.a[1], e)), types.NewInterfaceType(nil, nil)}
	case "modn":
		m := t.evInt(n.a[1], e)
		if m.op != OConst {
			t.specFail(n, "constant modulus expected")
		}
		return TV{b.Mod(t.evInt(n.a[0], e), m.c), nil}
	case "divn":
		m := t.evInt(n.a[1], e)
		return TV{b.Div(t.evInt(n.a[0], e), m.c), nil}
	case "i32":
		x := t.evInt(n.a[0], e)
		return TV{t.wrap(nil, x, types.Typ[types.Int32]), nil}
	case "u32":
		x := t.evInt(n.a[0], e)
		return TV{b.Mod(x, pow2(32)), nil}
	case "min":
		x, y := t.evInt(n.a[0], e), t.evInt(n.a[1], e)
		return TV{b.Ite(b.Le(x, y), x, y), nil}
	case "max":
		x, y := t.evInt(n.a[0], e), t.evInt(n.a[1], e)
		return TV{b.Ite(b.Le(x, y), y, x), nil}
	case "closed":
		t.declRegion("ch:closed", []Leaf{{"", kBool, tb}}, 1)
		return TV{e.st.memOf(e.sn, "ch:closed", 1, SBool).read(b, []*Term{t.evInt(n.a[0], e)}), tb}
	}
	if g, ok := e.loc[n.s]; ok {
		return t.evUfunc(g, t.evArgs(n, e))
	}
	if g, ok := t.spec.ghosts[n.s]; ok {
		a := t.evArgs(n, e)
		if len(a) != len(g.params) {
			t.specFail(n, "%d arguments expected", len(g.params))
		}
		return t.readGhost(g, a, e)
	}
	if g, ok := t.spec.ufuncs[n.s]; ok {
		a := t.evArgs(n, e)
		if len(a) != len(g.params) {
			t.specFail(n, "%d arguments expected", len(g.params))
		}
		return t.evUfunc(g, a)
	}
	if d, ok := t.spec.defs[n.s]; ok {
		if len(n.a) != len(d.params) {
			t.specFail(n, "%d arguments expected", len(d.params))
		}
		if e.d > 30 {
			t.specFail(n, "recursive definition")
		}
		ne := *e
		ne.d++
		ne.vars = map[string]TV{}
		for k, v := range e.vars {
			ne.vars[k] = v
		}
		for i, p := range d.params {
			ne.vars[p] = t.ev(n.a[i], e)
		}
		return t.ev(d.body, &ne)
	}
	t.specFail(n, "unknown function %s", n.s)
	return TV{}
}

// content: the value an encoder sees, abstracting from addresses of maps and byte slices.
func (t *Task) content(x TV, e *Env) *Term {
	tm, isT := x.v.(*Term)
	if s, ok := x.v.(*SliceV); ok {
		return e.st.byteTokAt(e.sn, s)
	}
	if !isT {
		return t.asTerm(x.v)
	}
	if x.t != nil {
		if mt, ok := x.t.Underlying().(*types.Map); ok {
			return e.st.mapTok(e.sn, mt, tm)
		}
	}
	if dt := t.dynType(tm); dt != nil {
		if mt, ok := dt.Underlying().(*types.Map); ok {
			return e.st.mapTok(e.sn, mt, tm.args[0])
		}
	}
	return tm
}

func (t *Task) extGlobal(name string, lo int64) *Term {
	s := t.b.Fn("ext_"+name, SInt, 0)
	s.lo = bi(lo)
	return t.b.App(s)
}

func (t *Task) evBin(n *Node, e *Env) TV {
	b := t.b
	tb := types.Typ[types.Bool]
	switch n.s {
	case "&&":
		x := t.evBool(n.a[0], e)
		if x == b.False {
			return TV{x, tb}
		}
		return TV{b.And(x, t.evBool(n.a[1], e)), tb}
	case "||":
		x := t.evBool(n.a[0], e)
		if x == b.True {
			return TV{x, tb}
		}
		return TV{b.Or(x, t.evBool(n.a[1], e)), tb}
	case "==>":
		x := t.evBool(n.a[0], e)
		if x == b.False {
			return TV{b.True, tb}
		}
		return TV{b.Implies(x, t.evBool(n.a[1], e)), tb}
	case "<==>":
		return TV{b.Iff(t.evBool(n.a[0], e), t.evBool(n.a[1], e)), tb}
	case "==", "!=":
		x, y := t.ev(n.a[0], e), t.ev(n.a[1], e)
		r := t.specEq(n, x, y)
		if n.s == "!=" {
			r = b.Not(r)
		}
		return TV{r, tb}
	case "in":
		k, m := t.ev(n.a[0], e), t.ev(n.a[1], e)
		if m.t == nil {
			t.specFail(n, "map expected")
		}
		mt, ok := m.t.Underlying().(*types.Map)
		if !ok {
			t.specFail(n, "map expected")
		}
		return TV{e.st.mapDom(e.sn, mt, t.asTerm(m.v), t.mapKey(k.v)), tb}
	case "++":
		return TV{t.concat(t.evInt(n.a[0], e), t.evInt(n.a[1], e)), types.Typ[types.String]}
	}
	x, y := t.evInt(n.a[0], e), t.evInt(n.a[1], e)
	switch n.s {
	case "<":
		return TV{b.Lt(x, y), tb}
	case "<=":
		return TV{b.Le(x, y), tb}
	case ">":
		return TV{b.Lt(y, x), tb}
	case ">=":
		return TV{b.Le(y, x), tb}
	case "+":
		return TV{b.Add(x, y), nil}
	case "-":
		return TV{b.Sub(x, y), nil}
	case "*":
		return TV{b.Mul(x, y), nil}
	case "/":
		return TV{b.Div(x, y.c), nil}
	case "%":
		return TV{b.Mod(x, y.c), nil}
	}
	t.specFail(n, "operator %s", n.s)
	return TV{}
}

func (t *Task) specEq(n *Node, x, y TV) *Term {
	b := t.b
	sx, okx := x.v.(*SliceV)
	sy, oky := y.v.(*SliceV)
	if okx && !oky {
		return b.Eq(sx.arr, t.asTerm(y.v))
	}
	if oky && !okx {
		return b.Eq(sy.arr, t.asTerm(x.v))
	}
	ax, aok := x.v.(*Addr)
	ay, bok := y.v.(*Addr)
	if aok && bok {
		if ax.prefix() != ay.prefix() {
			return b.False
		}
		r := b.True
		for i := range ax.args() {
			r = b.And(r, b.Eq(ax.args()[i], ay.args()[i]))
		}
		return r
	}
	if a := pick(ax, ay); a != nil && !((a.kind == 'o' || a.kind == 'g') && a.path == "") {
		// interior pointers are never nil
		return b.False
	}
	fx, fy := t.flatten(x.v), t.flatten(y.v)
	if len(fx) != len(fy) {
		t.specFail(n, "comparing different shapes")
	}
	var cs []*Term
	for i := range fx {
		if fx[i].sort != fy[i].sort {
			t.specFail(n, "comparing different sorts")
		}
		cs = append(cs, b.Eq(fx[i], fy[i]))
	}
	return b.And(cs...)
}

// ---- locations

type Loc struct {
	kind   string // regions at args; all; star
	prefix string
	leaves []Leaf
	arity  int
	cond   func(a []*Term) *Term // nil: every argument
	ref    *Term
	exact  []*Term
}

func (t *Task) evLoc(n *Node, e *Env) []Loc {
	b := t.b
	obj := func(a *Addr) Loc {
		ls := leavesOf(a.typ)
		args := a.args()
		t.declRegion(a.prefix(), ls, len(args))
		var ref *Term
		if len(args) > 0 {
			ref = args[0]
		}
		return Loc{prefix: a.prefix(), leaves: ls, arity: len(args), ref: ref, exact: args, cond: func(x []*Term) *Term {
			r := b.True
			for i := range args {
				r = b.And(r, b.Eq(x[i], args[i]))
			}
			return r
		}}
	}
	mapLoc := func(mt *types.Map, m *Term) []Loc {
		d, v, l, ls := e.st.mapRegs(mt)
		at := func(x []*Term) *Term { return b.Eq(x[0], m) }
		return []Loc{{prefix: d, leaves: []Leaf{{"", kBool, types.Typ[types.Bool]}}, arity: 2, ref: m, cond: at},
			{prefix: v, leaves: ls, arity: 2, ref: m, cond: at}, {prefix: l, leaves: []Leaf{{"", kLen, types.Typ[types.Int]}}, arity: 1, ref: m, cond: at, exact: []*Term{m}}}
	}
	switch n.k {
	case "field":
		if n.a[0].k == "id" && n.a[0].s == "all" {
			break
		}
		x := t.ev(n.a[0], e)
		if x.t == nil {
			t.specFail(n, "untyped location")
		}
		pt := deref(x.t)
		a := e.st.addrOf(x.v, pt)
		if n.s == "*" {
			return []Loc{obj(a)}
		}
		st := pt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n.s {
				return []Loc{obj(a.field(i))}
			}
		}
		t.specFail(n, "no such field")
	case "un":
		x := t.ev(n.a[0], e)
		return []Loc{obj(e.st.addrOf(x.v, deref(x.t)))}
	case "id":
		if g, ok := t.spec.ghosts[n.s]; ok {
			name, l := t.ghostRegion(g)
			return []Loc{{prefix: name, leaves: []Leaf{l}, arity: len(g.params)}}
		}
		if m, ok := t.v.pkg.Members[n.s].(*ssa.Global); ok {
			return []Loc{obj(&Addr{kind: 'g', name: globalName(m), typ: deref(m.Type())})}
		}
	case "call":
		switch n.s {
		case "elems":
			x := t.ev(n.a[0], e)
			s, ok := x.v.(*SliceV)
			if !ok {
				t.specFail(n, "slice expected")
			}
			et := x.t.Underlying().(*types.Slice).Elem()
			p := "e:" + tname(et)
			ls := leavesOf(et)
			t.declRegion(p, ls, 2)
			return []Loc{{prefix: p, leaves: ls, arity: 2, ref: s.arr, cond: func(a []*Term) *Term {
				return b.And(b.Eq(a[0], s.arr), b.Le(s.off, a[1]), b.Lt(a[1], b.Add(s.off, s.len)))
			}}}
		case "next":
			// the cell behind the last element, inside the capacity: where an append in place writes
			x := t.ev(n.a[0], e)
			s := x.v.(*SliceV)
			et := x.t.Underlying().(*types.Slice).Elem()
			p := "e:" + tname(et)
			ls := leavesOf(et)
			t.declRegion(p, ls, 2)
			return []Loc{{prefix: p, leaves: ls, arity: 2, ref: s.arr, cond: func(a []*Term) *Term {
				return b.And(b.Eq(a[0], s.arr), b.Eq(a[1], b.Add(s.off, s.len)), b.Lt(s.len, s.cap))
			}}}
		case "allelems":
			x := t.ev(n.a[0], e)
			s := x.v.(*SliceV)
			et := x.t.Underlying().(*types.Slice).Elem()
			p := "e:" + tname(et)
			ls := leavesOf(et)
			t.declRegion(p, ls, 2)
			return []Loc{{prefix: p, leaves: ls, arity: 2, ref: s.arr, cond: func(a []*Term) *Term { return b.Eq(a[0], s.arr) }}}
		case "pointee":
			x := t.evInt(n.a[0], e)
			if dt := t.dynType(x); dt != nil {
				if p, ok := dt.Underlying().(*types.Pointer); ok {
					return []Loc{obj(e.st.addrOf(t.unbox(x, dt), p.Elem()))}
				}
			}
			return nil
		case "map":
			x := t.ev(n.a[0], e)
			return mapLoc(x.t.Underlying().(*types.Map), t.asTerm(x.v))
		case "all":
			// all("Type.field") or all("Type")
			s := n.a[0].s
			i := strings.LastIndex(s, ".")
			if i > 0 && t.v.tryTyp(s) == nil {
				ty := t.v.typ(s[:i])
				a := &Addr{kind: 'o', root: ty, ref: b.Zero, typ: ty}
				st := ty.Underlying().(*types.Struct)
				for j := 0; j < st.NumFields(); j++ {
					if st.Field(j).Name() == s[i+1:] {
						l := obj(a.field(j))
						l.cond, l.ref, l.exact = nil, nil, nil
						return []Loc{l}
					}
				}
			}
			ty := t.v.typ(s)
			l := obj(&Addr{kind: 'o', root: ty, ref: b.Zero, typ: ty})
			l.cond, l.ref, l.exact = nil, nil, nil
			return []Loc{l}
		case "allmaps":
			mt := t.v.typ(n.a[0].s).Underlying().(*types.Map)
			ls := mapLoc(mt, b.Zero)
			for i := range ls {
				ls[i].cond, ls[i].ref, ls[i].exact = nil, nil, nil
			}
			return ls
		case "alle":
			et := t.v.typ(n.a[0].s)
			p := "e:" + tname(et)
			ls := leavesOf(et)
			t.declRegion(p, ls, 2)
			return []Loc{{prefix: p, leaves: ls, arity: 2}}
		case "closed":
			c := t.evInt(n.a[0], e)
			l := Leaf{"", kBool, types.Typ[types.Bool]}
			t.declRegion("ch:closed", []Leaf{l}, 1)
			return []Loc{{prefix: "ch:closed", leaves: []Leaf{l}, arity: 1, ref: c, exact: []*Term{c}, cond: func(a []*Term) *Term { return b.Eq(a[0], c) }}}
		case "allclosed":
			l := Leaf{"", kBool, types.Typ[types.Bool]}
			t.declRegion("ch:closed", []Leaf{l}, 1)
			return []Loc{{prefix: "ch:closed", leaves: []Leaf{l}, arity: 1}}
		}
		if g, ok := t.spec.ghosts[n.s]; ok {
			name, l := t.ghostRegion(g)
			// underscore arguments range over everything
			args := make([]*Term, len(n.a))
			for i, a := range n.a {
				if a.k == "id" && a.s == "_" {
					continue
				}
				args[i] = t.evInt(a, e)
			}
			var ref *Term
			if len(args) > 0 {
				ref = args[0]
			}
			exact := args
			for _, a := range args {
				if a == nil {
					exact = nil
				}
			}
			return []Loc{{prefix: name, leaves: []Leaf{l}, arity: len(g.params), ref: ref, exact: exact, cond: func(a []*Term) *Term {
				r := b.True
				for i := range args {
					if args[i] != nil {
						r = b.And(r, b.Eq(a[i], args[i]))
					}
				}
				return r
			}}}
		}
	}
	t.specFail(n, "not a location")
	return nil
}

// havocLoc assigns arbitrary values to a location set.
func (st *State) havocLoc(l Loc) {
	t := st.t
	b := t.b
	syms := t.groupSyms("hv_"+l.prefix, l.leaves, l.arity, 0, true)
	for _, s := range syms {
		s.clock = b.clock
	}
	for i, lf := range l.leaves {
		s := syms[i]
		if l.cond == nil {
			st.note(l.prefix+lf.path, nil)
			st.mem[l.prefix+lf.path] = &Mem{name: l.prefix + lf.path, base: s}
			continue
		}
		st.update(l.prefix+lf.path, l.arity, leafSort(lf), l.ref, l.cond, func(a []*Term) *Term { return b.App(s, a...) })
	}
}

// havocAll forgets everything except stable regions.
func (st *State) havocAll() {
	t := st.t
	b := t.b
	st.note("*", nil)
	b.clock++
	old := st.epoch
	keep := map[string]*Mem{}
	for k, m := range st.mem {
		if t.isStable(k) || strings.HasPrefix(k, "it:") {
			keep[k] = m
		}
	}
	bases := map[string]*Mem{}
	for k, m := range old.bases {
		if t.isStable(k) {
			bases[k] = m
		}
	}
	t.epochs++
	ne := &epochT{id: t.epochs, clock: b.clock, bases: bases, prev: old}
	// objects private to this activation keep their contents
	priv := st.privRefs()
	if len(priv) > 0 {
		for k, m := range st.mem {
			if _, ok := keep[k]; ok {
				continue
			}
			m := m
			ar, so := t.regArity[k], t.regSort[k]
			if ar == 0 {
				continue
			}
			used := false
			for _, r := range priv {
				if regionMayHold(k, r) {
					used = true
				}
			}
			if !used {
				continue
			}
			base := t.baseRegion(ne, k, ar, so)
			keep[k] = &Mem{name: k, prev: base, cond: func(a []*Term) *Term {
				r := b.False
				for _, p := range priv {
					r = b.Or(r, b.Eq(a[0], p))
				}
				return r
			}, val: func(a []*Term) *Term { return m.read(b, a) }}
		}
	}
	st.mem = keep
	st.epoch = ne
	// global invariants hold again
	t.assumeGlobals(st)
}

func regionMayHold(k string, r *Term) bool { return true }

// privRefs: cells of local variables whose address never escaped to the callee (only captured by known closures is not private).
func (st *State) privRefs() []*Term {
	var r []*Term
	for _, f := range st.frames {
		for v, x := range f.env {
			al, ok := v.(*ssa.Alloc)
			free := false
			if fv, is := v.(*ssa.FreeVar); is {
				if al = boundAlloc(fv); al != nil {
					ok, free = true, true
				}
			}
			if !ok {
				continue
			}
			tm, ok := x.(*Term)
			if !ok || !isAlloc(tm) {
				continue
			}
			if (!free && !st.t.v.escapes(al)) || st.t.v.constCell(al) {
				r = append(r, tm)
			}
		}
	}
	return append(r, st.constRefs...)
}

func (t *Task) isStable(region string) bool {
	if t.spec.stable[region] {
		return true
	}
	if strings.HasPrefix(region, "g:") {
		n := strings.TrimPrefix(region, "g:")
		if i := strings.IndexAny(n, ".#"); i > 0 && !strings.Contains(n, "/") {
			n = n[:i]
		}
		if t.v.immutableGlobal(n) {
			return true
		}
	}
	for s := range t.spec.stable {
		if strings.HasPrefix(region, s) && len(region) > len(s) && (region[len(s)] == '#' || region[len(s)] == '.') {
			return true
		}
	}
	return false
}

func constInt(c *ssa.Const) (int64, bool) {
	if c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(c.Value)
	return n, ok
}
