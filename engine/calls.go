package main

// Calls: contracts, inlining, builtins, models of a few externals, events.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (t *Task) evalCall(st *State, c *ssa.CallCommon) (Value, []Value) {
	fn := t.val(st, c.Value)
	var args []Value
	for _, a := range c.Args {
		args = append(args, t.val(st, a))
	}
	return fn, args
}

// event runs the specification hooks attached to an event.
func (t *Task) event(st *State, name string, args ...TV) {
	hs := t.spec.hooks[name]
	if len(hs) == 0 || st.dead {
		return
	}
	for _, h := range hs {
		e := t.env(st)
		e.vars = map[string]TV{}
		for k, v := range t.entryVars {
			e.vars[k] = v
		}
		for i, p := range h.params {
			if i < len(args) {
				e.vars[p] = args[i]
			}
		}
		t.hookHits[h.pos]++
		t.runStmts(st, h.body, e, t.b.True, h)
		if st.dead || st.term != "" {
			return
		}
	}
}

func (t *Task) env(st *State) *Env {
	e := &Env{st: st, old: t.entrySnap, vars: t.entryVars, mark: t.entryMark}
	if t.contract != nil {
		e.loc = t.contract.locals
	}
	return e
}

func (t *Task) runStmts(st *State, body []*Stmt, e *Env, cond *Term, h *Hook) {
	b := t.b
	for _, s := range body {
		if st.dead {
			return
		}
		e.sn = nil
		switch s.k {
		case "assert":
			g := b.Implies(cond, t.evBool(s.e, e))
			l := s.label
			if l == "" {
				l = s.e.String()
			}
			t.prove(st, g, "assert", l, h.event+" ("+s.pos+")")
		case "assume":
			st.assume(b.Implies(cond, t.evBool(s.e, e)))
		case "set":
			t.setLoc(st, s.loc, s.e, e, cond)
		case "snap":
			n := map[string]*Snapshot{}
			for k, v := range st.acqMem {
				n[k] = v
			}
			n[s.label] = st.snap()
			st.acqMem = n
		case "havoc":
			for _, l := range t.evLoc(s.loc, e) {
				if cond != b.True {
					oc := l.cond
					l.cond = func(a []*Term) *Term {
						if oc == nil {
							return cond
						}
						return b.And(cond, oc(a))
					}
				}
				st.havocLoc(l)
			}
		case "run":
			v := t.ev(s.e, e).v
			var args []Value
			for _, a := range s.args {
				args = append(args, t.ev(a, e).v)
			}
			c, ok := v.(*ClosureV)
			if tm, isT := v.(*Term); isT {
				c, ok = t.closures[tm]
			}
			if !ok || len(c.fn.Blocks) == 0 {
				t.prove(st, b.Not(cond), "assert", "the function "+s.e.String()+" is known", h.event+" ("+s.pos+")")
			} else if t.quiet == 0 && !st.goro {
				o := st.fork()
				o.assume(cond)
				if !o.dead {
					t.spawn(o, c, args, true)
				}
			}
		case "stop":
			// not evaluated conditionally
			if cond == b.True {
				st.term = "halt"
				return
			}
		case "if":
			c := t.evBool(s.e, e)
			t.runStmts(st, s.body, e, b.And(cond, c), h)
			t.runStmts(st, s.els, e, b.And(cond, b.Not(c)), h)
		}
	}
}

func (t *Task) setLoc(st *State, loc, val *Node, e *Env, cond *Term) {
	v := t.flatten(t.ev(val, e).v)
	ls := t.evLoc(loc, e)
	for _, l := range ls {
		if l.exact == nil && l.arity > 0 {
			t.specFail(loc, "not a single location")
		}
		if len(v) != len(l.leaves) {
			t.specFail(loc, "value does not fit")
		}
		for i, lf := range l.leaves {
			x := v[i]
			if cond != t.b.True {
				old := st.region(l.prefix+lf.path, l.arity, leafSort(lf)).read(t.b, l.exact)
				x = t.b.Ite(cond, x, old)
			}
			st.write(l.prefix+lf.path, l.exact, x, leafSort(lf))
		}
	}
}

// accessEvent: a load or a store of a struct field.
func (t *Task) accessEvent(st *State, a *Addr, w bool) {
	if a.kind != 'o' {
		return
	}
	n := tname(a.root) + a.path
	if w {
		t.event(st, "write:"+n, TV{a.ref, types.NewPointer(a.root)})
	} else {
		t.event(st, "read:"+n, TV{a.ref, types.NewPointer(a.root)})
	}
}

func (t *Task) fnName(fn *ssa.Function) string {
	if fn.Pkg != nil && fn.Pkg == t.v.pkg {
		return fn.RelString(t.v.pkg.Pkg)
	}
	if fn.Pkg == nil && fn.Signature.Recv() == nil && fn.Parent() != nil {
		return fn.RelString(t.v.pkg.Pkg)
	}
	return fn.RelString(t.v.pkg.Pkg)
}

func (t *Task) lookup(name string) *Contract {
	c := t.spec.contracts[name]
	if c == nil || c.verifyOnly {
		return nil
	}
	return c
}

func (t *Task) setRes(st *State, retTo ssa.Value, v Value) {
	if retTo != nil && len(st.frames) > 0 {
		st.top().env[retTo] = v
	}
}

func (t *Task) invoke(st *State, call *ssa.CallCommon, fn Value, args []Value, retTo ssa.Value, isDefer bool) {
	if bi, ok := fn.(*BuiltinV); ok {
		t.builtin(st, call, bi.b, args, retTo, isDefer)
		return
	}
	if call.IsInvoke() {
		recv := t.asTerm(fn)
		t.invokeIface(st, call, recv, args, retTo, isDefer)
		return
	}
	t.callValue(st, call.Signature(), fn, args, retTo, isDefer)
}

func (t *Task) invokeIface(st *State, call *ssa.CallCommon, recv *Term, args []Value, retTo ssa.Value, isDefer bool) {
	b := t.b
	if recv.op == OIte && (t.dynType(recv.args[1]) != nil || t.dynType(recv.args[2]) != nil || recv.args[1] == b.Zero || recv.args[2] == b.Zero) {
		// case split on the receiver
		yes, no := t.split(st, recv.args[0])
		if yes != nil && no != nil {
			o := no
			t.resume(o, func() { t.invokeIface(o, call, recv.args[2], args, retTo, isDefer) })
			t.invokeIface(yes, call, recv.args[1], args, retTo, isDefer)
		} else if yes != nil {
			t.invokeIface(st, call, recv.args[1], args, retTo, isDefer)
		} else if no != nil {
			t.invokeIface(st, call, recv.args[2], args, retTo, isDefer)
		}
		return
	}
	t.guard(st, b.Eq(recv, b.Zero), "method call on a nil interface")
	if st.dead {
		return
	}
	it := call.Value.Type()
	name := "(" + tname(it) + ")." + call.Method.Name()
	if dt := t.dynType(recv); dt != nil {
		m := t.v.method(dt, call.Method)
		if m != nil {
			mn := t.fnName(m)
			if len(m.Blocks) > 0 || t.lookup(mn) != nil {
				var rv Value
				if _, isp := dt.Underlying().(*types.Pointer); isp {
					rv = t.unbox(recv, dt)
				} else {
					rv = t.unbox(recv, dt)
				}
				t.callFn(st, m, append([]Value{rv}, args...), nil, retTo, isDefer)
				return
			}
		}
	}
	sig := call.Signature()
	tvs := []TV{{recv, it}}
	for i, a := range args {
		tvs = append(tvs, TV{a, sig.Params().At(i).Type()})
	}
	if c := t.lookup(name); c != nil {
		t.event(st, "call:"+name, tvs...)
		if st.dead {
			return
		}
		t.apply(st, c, name, tvs, sig.Results(), retTo)
		return
	}
	if t.model(st, name, tvs, sig.Results(), retTo) {
		return
	}
	t.unknownCall(st, name, sig.Results(), retTo)
}

// resume: push a forked state whose pending call must be performed now.
func (t *Task) resume(o *State, f func()) {
	f()
	if !o.dead {
		t.push(o)
	}
}

func (t *Task) callValue(st *State, sig *types.Signature, fn Value, args []Value, retTo ssa.Value, isDefer bool) {
	b := t.b
	switch x := fn.(type) {
	case *ClosureV:
		t.callFn(st, x.fn, args, x.binds, retTo, isDefer)
		return
	case *Term:
		if c, ok := t.closures[x]; ok {
			t.callFn(st, c.fn, args, c.binds, retTo, isDefer)
			return
		}
		if x.op == OIte {
			yes, no := t.split(st, x.args[0])
			if yes != nil && no != nil {
				o := no
				t.resume(o, func() { t.callValue(o, sig, x.args[2], args, retTo, isDefer) })
				t.callValue(yes, sig, x.args[1], args, retTo, isDefer)
			} else if yes != nil {
				t.callValue(st, sig, x.args[1], args, retTo, isDefer)
			} else if no != nil {
				t.callValue(st, sig, x.args[2], args, retTo, isDefer)
			}
			return
		}
		t.guard(st, b.Eq(x, b.Zero), "call of a nil function")
		if st.dead {
			return
		}
		name := "callback:" + tname(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()))
		tvs := []TV{{x, sig}}
		for i, a := range args {
			tvs = append(tvs, TV{a, sig.Params().At(i).Type()})
		}
		if c := t.lookup(stripNames(name, sig)); c != nil {
			t.event(st, "call:"+stripNames(name, sig), tvs...)
			if st.dead {
				return
			}
			t.apply(st, c, name, tvs, sig.Results(), retTo)
			return
		}
		t.unknownCall(st, stripNames(name, sig), sig.Results(), retTo)
		return
	default:
		unsupported("call of %T", fn)
	}
}

// stripNames: a signature name without parameter names
func stripNames(_ string, sig *types.Signature) string {
	var p []string
	for i := 0; i < sig.Params().Len(); i++ {
		p = append(p, tname(sig.Params().At(i).Type()))
	}
	s := "callback:func(" + strings.Join(p, ", ") + ")"
	var r []string
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, tname(sig.Results().At(i).Type()))
	}
	if len(r) == 1 {
		s += " " + r[0]
	} else if len(r) > 1 {
		s += " (" + strings.Join(r, ", ") + ")"
	}
	return s
}

func (t *Task) paramTVs(fn *ssa.Function, args []Value) []TV {
	var r []TV
	if len(fn.Params) == len(args) {
		for i, p := range fn.Params {
			r = append(r, TV{args[i], p.Type()})
		}
		return r
	}
	sig := fn.Signature
	i := 0
	if sig.Recv() != nil {
		r = append(r, TV{args[0], sig.Recv().Type()})
		i = 1
	}
	for j := 0; j < sig.Params().Len() && i < len(args); j++ {
		r = append(r, TV{args[i], sig.Params().At(j).Type()})
		i++
	}
	return r
}

func (t *Task) callFn(st *State, fn *ssa.Function, args, binds []Value, retTo ssa.Value, isDefer bool) {
	name := t.fnName(fn)
	tvs := t.paramTVs(fn, args)
	t.event(st, "call:"+name, tvs...)
	if st.dead || st.term != "" {
		return
	}
	if c := t.lookup(name); c != nil && (fn.Synthetic == "" || len(fn.Blocks) == 0) {
		t.apply(st, c, name, tvs, fn.Signature.Results(), retTo)
		return
	}
	if len(fn.Blocks) > 0 && t.v.inRepo(fn) {
		f := t.pushFrame(st, fn, args, binds, retTo, isDefer)
		if len(t.spec.hooks["ret:"+name]) > 0 {
			f.afterRet = func(s *State, res Value) {
				t.event(s, "ret:"+name, append(append([]TV{}, tvs...), resTVs(fn.Signature.Results(), res)...)...)
			}
		}
		t.inlined[name]++
		return
	}
	if t.model(st, name, tvs, fn.Signature.Results(), retTo) {
		return
	}
	t.unknownCall(st, name, fn.Signature.Results(), retTo)
}

// unknownCall: code without a contract may do anything to the shared state and return anything
func (t *Task) unknownCall(st *State, name string, results *types.Tuple, retTo ssa.Value) {
	t.pureUsed["(arbitrary effect) "+name]++
	st.havocAll()
	t.pureFresh(st, results, retTo, name)
}

func resTVs(tp *types.Tuple, v Value) []TV {
	switch tp.Len() {
	case 0:
		return nil
	case 1:
		return []TV{{v, tp.At(0).Type()}}
	}
	var r []TV
	for i, x := range v.(TupleV) {
		r = append(r, TV{x, tp.At(i).Type()})
	}
	return r
}

func (t *Task) instLocals(c *Contract) map[string]*ghostDecl {
	if len(c.locals) == 0 {
		return nil
	}
	t.locN++
	r := map[string]*ghostDecl{}
	for k, g := range c.locals {
		n := *g
		n.name = fmt.Sprintf("%s'%d", g.name, t.locN)
		r[k] = &n
	}
	return r
}

// apply: a call is replaced by the contract of the callee.
func (t *Task) apply(st *State, c *Contract, name string, args []TV, results *types.Tuple, retTo ssa.Value) {
	b := t.b
	t.used[name] = c
	vars := map[string]TV{}
	for i, p := range c.params {
		if i < len(args) {
			vars[p] = args[i]
		}
	}
	loc := t.instLocals(c)
	e := &Env{st: st, vars: vars, loc: loc}
	for i, r := range c.req {
		l := r.label
		if l == "" {
			l = fmt.Sprintf("requires %d", i+1)
		}
		t.prove(st, t.evBool(r.e, e), "precondition", name+": "+l, r.e.String())
		if st.dead {
			return
		}
	}
	for _, d := range c.defines {
		st.assume(t.evBool(d, e))
	}
	pre := st.snap()
	e.old = pre
	mark := b.NewAlloc("call")
	e.mark = mark
	// evaluate locations and new ghost values in the pre-state
	var locs []Loc
	for _, m := range c.mods {
		locs = append(locs, t.evLoc(m, e)...)
	}
	// results
	var vals []Value
	for i := 0; i < results.Len(); i++ {
		ty := results.At(i).Type()
		isFresh := false
		rn := resName(c, i, results.Len())
		for _, f := range c.fresh {
			if f == rn {
				isFresh = true
			}
		}
		var v Value
		if isFresh {
			v = t.freshRef(st, name, ty)
		}
		vals = append(vals, v)
	}
	if c.modStar {
		st.havocAll()
	}
	for _, l := range locs {
		st.havocLoc(l)
	}
	for i := range vals {
		ty := results.At(i).Type()
		if vals[i] == nil {
			vals[i] = t.freshVal("ret_"+shortName(name), ty)
		} else {
			t.freshContents(st, vals[i], ty)
		}
		vars[resName(c, i, results.Len())] = TV{vals[i], ty}
	}
	// the callee may panic
	if c.mayPanic || len(c.panics) > 0 {
		o := st.fork()
		oe := &Env{st: o, sn: pre, vars: vars, old: pre, mark: mark, loc: loc}
		if !c.mayPanic {
			d := b.False
			for _, p := range c.panics {
				d = b.Or(d, t.evBool(p, oe))
			}
			o.assume(d)
			if d != b.False && !t.feasible(o, d) {
				o.dead = true
			}
		}
		oe.sn = nil
		for _, x := range c.onpanic {
			o.assume(t.evBool(x.e, oe))
		}
		if !o.dead {
			t.raise(o, b.Fresh("panicval", SInt), "panic in "+name)
			t.push(o)
		}
		if !c.mayPanic {
			ne := &Env{st: st, sn: pre, vars: vars, old: pre, mark: mark, loc: loc}
			for _, p := range c.panics {
				st.assume(b.Not(t.evBool(p, ne)))
			}
		}
	}
	if c.noReturn {
		st.dead = true
		return
	}
	e.st = st
	// functional ghost updates: values in terms of the pre-state and results
	for _, s := range c.sets {
		cond := b.True
		pe := &Env{st: st, sn: pre, vars: vars, old: pre, mark: mark, loc: loc}
		if s.cond != nil {
			cond = t.evBool(s.cond, pe)
		}
		v := t.flatten(t.ev(s.val, pe).v)
		for _, l := range t.evLoc(s.loc, pe) {
			for i, lf := range l.leaves {
				x := v[i]
				if cond != b.True {
					x = b.Ite(cond, x, st.region(l.prefix+lf.path, l.arity, leafSort(lf)).read(b, l.exact))
				}
				st.write(l.prefix+lf.path, l.exact, x, leafSort(lf))
			}
		}
	}
	for _, x := range c.ens {
		st.assume(t.evBool(x.e, e))
	}
	var res Value
	if len(vals) == 1 {
		res = vals[0]
	} else {
		tv := TupleV{}
		tv = append(tv, vals...)
		res = tv
	}
	t.setRes(st, retTo, res)
	t.event(st, "ret:"+name, append(append([]TV{}, args...), resTVs(results, res)...)...)
}

func shortName(n string) string {
	if i := strings.LastIndexAny(n, "./)"); i >= 0 {
		return n[i+1:]
	}
	return n
}

func resName(c *Contract, i, n int) string {
	if i < len(c.results) {
		return c.results[i]
	}
	if n == 1 {
		return "res"
	}
	return fmt.Sprintf("res%d", i)
}

// freshRef: a newly allocated result
func (t *Task) freshRef(st *State, name string, ty types.Type) Value {
	b := t.b
	switch ty.Underlying().(type) {
	case *types.Slice:
		r := b.NewAlloc("res_" + shortName(name))
		ls := t.groupSyms("res_"+shortName(name), []Leaf{{"#len", kLen, ty}, {"#cap", kLen, ty}}, 0, 0, false)
		n, c := b.App(ls[0]), b.App(ls[1])
		st.assume(b.Le(n, c))
		return &SliceV{r, b.Zero, n, c}
	case *types.Interface:
		s := b.NewSym("iface_"+shortName(name), SInt, 0)
		s.lo = big1
		return b.App(s)
	}
	return b.NewAlloc("res_" + shortName(name))
}

// freshContents: the contents of a newly allocated object are arbitrary.
func (t *Task) freshContents(st *State, v Value, ty types.Type) {
	b := t.b
	switch u := ty.Underlying().(type) {
	case *types.Slice:
		s := v.(*SliceV)
		p := "e:" + tname(u.Elem())
		ls := leavesOf(u.Elem())
		t.declRegion(p, ls, 2)
		st.havocLoc(Loc{prefix: p, leaves: ls, arity: 2, ref: s.arr, cond: func(a []*Term) *Term { return b.Eq(a[0], s.arr) }})
	case *types.Pointer:
		r := v.(*Term)
		if _, ok := u.Elem().Underlying().(*types.Array); ok {
			return
		}
		p := "o:" + tname(u.Elem())
		if su, ok := u.Elem().Underlying().(*types.Struct); ok && isOpaque(u.Elem()) {
			// the accessible fields of a type of another package
			for i := 0; i < su.NumFields(); i++ {
				f := su.Field(i)
				if !f.Exported() {
					continue
				}
				fp, fl := p+"."+f.Name(), leavesOf(f.Type())
				t.declRegion(fp, fl, 1)
				st.havocLoc(Loc{prefix: fp, leaves: fl, arity: 1, ref: r, cond: func(a []*Term) *Term { return b.Eq(a[0], r) }})
			}
		}
		ls := leavesOf(u.Elem())
		t.declRegion(p, ls, 1)
		st.havocLoc(Loc{prefix: p, leaves: ls, arity: 1, ref: r, cond: func(a []*Term) *Term { return b.Eq(a[0], r) }})
	case *types.Map:
		r := v.(*Term)
		d, vr, lr, ls := st.mapRegs(u)
		at := func(a []*Term) *Term { return b.Eq(a[0], r) }
		st.havocLoc(Loc{prefix: d, leaves: []Leaf{{"", kBool, types.Typ[types.Bool]}}, arity: 2, ref: r, cond: at})
		st.havocLoc(Loc{prefix: vr, leaves: ls, arity: 2, ref: r, cond: at})
		st.havocLoc(Loc{prefix: lr, leaves: []Leaf{{"", kLen, types.Typ[types.Int]}}, arity: 1, ref: r, cond: at})
	case *types.Chan:
		t.declRegion("ch:closed", []Leaf{{"", kBool, types.Typ[types.Bool]}}, 1)
		st.write("ch:closed", []*Term{v.(*Term)}, b.False, SBool)
	}
}

// ---- builtins

func (t *Task) builtin(st *State, call *ssa.CallCommon, bt *ssa.Builtin, args []Value, retTo ssa.Value, isDefer bool) {
	b := t.b
	switch bt.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if bt.Name() == "cap" {
				t.setRes(st, retTo, x.cap)
			} else {
				t.setRes(st, retTo, x.len)
			}
			return
		case *Term:
			ty := call.Args[0].Type()
			switch u := ty.Underlying().(type) {
			case *types.Map:
				t.event(st, "maplen", TV{x, ty})
				{
					kb := b.FreshBound("k")
					st.assume(b.Forall([]*Term{kb}, b.Implies(st.mapDom(nil, u, x, kb), b.Lt(b.Zero, st.mapLen(nil, u, x)))))
				}
				t.setRes(st, retTo, st.mapLen(nil, u, x))
				return
			case *types.Basic:
				t.setRes(st, retTo, t.strLen(x))
				return
			case *types.Chan:
				s := b.NewSym("chanlen", SInt, 0)
				s.lo, s.hi = big0, maxLen
				t.setRes(st, retTo, b.App(s))
				return
			}
		}
		unsupported("len of %T", args[0])
	case "append":
		t.appendOp(st, call, args, retTo)
	case "copy":
		d := args[0].(*SliceV)
		et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		if s, ok := args[1].(*SliceV); ok {
			n := b.Ite(b.Le(d.len, s.len), d.len, s.len)
			st.copyElems(et, d.arr, d.off, s.arr, s.off, n)
			t.setRes(st, retTo, n)
			return
		}
		s := args[1].(*Term)
		sl := t.strLen(s)
		n := b.Ite(b.Le(d.len, sl), d.len, sl)
		st.writeStr(d.arr, d.off, s, n)
		t.setRes(st, retTo, n)
	case "delete":
		mt := call.Args[0].Type().Underlying().(*types.Map)
		m := t.asTerm(args[0])
		yes, no := t.split(st, b.Ne(m, b.Zero))
		if no != nil && yes != nil {
			t.push(no)
		}
		if yes == nil {
			return
		}
		t.event(st, "mapwrite", TV{m, call.Args[0].Type()})
		t.event(st, "mapdelete", TV{m, call.Args[0].Type()}, TV{args[1], call.Args[1].Type()})
		st.mapDel(mt, m, t.mapKey(args[1]))
	case "close":
		c := t.asTerm(args[0])
		t.declRegion("ch:closed", []Leaf{{"", kBool, types.Typ[types.Bool]}}, 1)
		t.event(st, "close", TV{c, call.Args[0].Type()})
		if st.dead {
			return
		}
		t.guard(st, b.Eq(c, b.Zero), "close of nil channel")
		if st.dead {
			return
		}
		m := st.region("ch:closed", 1, SBool)
		t.guard(st, m.read(b, []*Term{c}), "close of closed channel")
		if st.dead {
			return
		}
		st.write("ch:closed", []*Term{c}, b.True, SBool)
	case "recover":
		n := len(st.frames)
		f := st.top()
		if n >= 2 && f.isDefer && st.frames[n-2].unwindSaved != nil {
			p := st.frames[n-2].unwindSaved
			st.frames[n-2].unwindSaved = nil
			v := b.Fresh("recovered", SInt)
			v.sym.lo = big1
			_ = p
			t.setRes(st, retTo, v)
			return
		}
		if isDefer && n >= 1 && f.unwindSaved != nil {
			// defer recover()
			f.unwindSaved = nil
			return
		}
		t.setRes(st, retTo, b.Zero)
	case "panic":
		t.raise(st, args[0], "explicit panic")
	case "print", "println":
	case "min", "max":
		x, y := t.asTerm(args[0]), t.asTerm(args[1])
		if bt.Name() == "min" {
			t.setRes(st, retTo, b.Ite(b.Le(x, y), x, y))
		} else {
			t.setRes(st, retTo, b.Ite(b.Le(x, y), y, x))
		}
	case "clear":
		mt, ok := call.Args[0].Type().Underlying().(*types.Map)
		if !ok {
			unsupported("clear")
		}
		m := t.asTerm(args[0])
		t.event(st, "mapwrite", TV{m, call.Args[0].Type()})
		d, _, lr, _ := st.mapRegs(mt)
		st.update(d, 2, SBool, m, func(a []*Term) *Term { return b.Eq(a[0], m) }, func(a []*Term) *Term { return b.False })
		st.write(lr, []*Term{m}, b.Zero, SInt)
	case "ssa:wrapnilchk":
		tm := t.asTerm(args[0])
		t.guard(st, b.Eq(tm, b.Zero), "nil pointer dereference")
		t.setRes(st, retTo, args[0])
	default:
		unsupported("builtin %s", bt.Name())
	}
}

func (st *State) writeStr(arr, off, s, n *Term) {
	t := st.t
	b := t.b
	t.declRegion("e:uint8", leavesOf(types.Typ[types.Uint8]), 2)
	st.update("e:uint8", 2, SInt, arr, func(a []*Term) *Term {
		e := b.Eq(a[0], arr)
		if e == b.False {
			return e
		}
		return b.And(e, b.Le(off, a[1]), b.Lt(a[1], b.Add(off, n)))
	}, func(a []*Term) *Term { return t.strAt(s, b.Sub(a[1], off)) })
}

// unaliased: the slice value has no other use than this append, and neither has its array.
func unaliased(v ssa.Value) bool {
	refs := v.Referrers()
	cnt := 0
	if refs != nil {
		for _, r := range *refs {
			if _, ok := r.(*ssa.DebugRef); !ok {
				cnt++
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeSlice:
		return cnt == 1
	case *ssa.Slice:
		if cnt != 1 {
			return false
		}
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		n := 0
		for _, r := range *al.Referrers() {
			if _, ok := r.(*ssa.DebugRef); !ok {
				n++
			}
		}
		return n == 1
	case *ssa.Call:
		if bt, ok := x.Call.Value.(*ssa.Builtin); ok && bt.Name() == "append" {
			return cnt == 1 && unaliased(x.Call.Args[0])
		}
	}
	return false
}

func (t *Task) appendOp(st *State, call *ssa.CallCommon, args []Value, retTo ssa.Value) {
	b := t.b
	s := args[0].(*SliceV)
	et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
	var n *Term
	xs, isS := args[1].(*SliceV)
	var str *Term
	if isS {
		n = xs.len
	} else {
		str = args[1].(*Term)
		n = t.strLen(str)
	}
	if n == b.Zero {
		t.setRes(st, retTo, s)
		return
	}
	nl := b.Add(s.len, n)
	// the address space bounds every slice
	st.assume(b.Le(nl, b.Big(maxLen)))
	fits := b.Le(nl, s.cap)
	if unaliased(call.Args[0]) && isAllocOrNil(s.arr) {
		fits = b.False
	}
	inplace := func(o *State) {
		if isS {
			o.copyElems(et, s.arr, b.Add(s.off, s.len), xs.arr, xs.off, n)
		} else {
			o.writeStr(s.arr, b.Add(s.off, s.len), str, n)
		}
		t.setRes(o, retTo, &SliceV{s.arr, s.off, nl, s.cap})
	}
	realloc := func(o *State) {
		r := b.NewAlloc("append")
		o.copyElems2(et, r, s, xs, str, n)
		sy := b.NewSym("cap", SInt, 0)
		sy.lo, sy.hi = big0, maxLen
		c := b.App(sy)
		o.assume(b.Le(nl, c))
		t.setRes(o, retTo, &SliceV{r, b.Zero, nl, c})
	}
	// with path merging, the outcomes of append are one state: in both, the result holds s followed by what is appended
	if t.contract != nil && t.contract.merge && fits != b.False {
		if !t.feasible(st, fits) {
			realloc(st)
			return
		}
		if !t.feasible(st, b.Not(fits)) {
			inplace(st)
			return
		}
		r := b.NewAlloc("append")
		arr, off := b.Ite(fits, s.arr, r), b.Ite(fits, s.off, b.Zero)
		p := "e:" + tname(et)
		ls := leavesOf(et)
		t.declRegion(p, ls, 2)
		for _, l := range ls {
			m := st.region(p+l.path, 2, leafSort(l))
			z := t.zeroLeaf(l)
			st.note(p+l.path, []*Term{s.arr})
			st.note(p+l.path, []*Term{r})
			st.mem[p+l.path] = &Mem{name: p + l.path, prev: m, cond: func(a []*Term) *Term { return b.Eq(a[0], arr) }, val: func(a []*Term) *Term {
				i := b.Sub(a[1], off)
				var tail *Term
				if isS {
					tail = m.read(b, []*Term{xs.arr, b.Add(b.Sub(i, s.len), xs.off)})
				} else {
					tail = t.strAt(str, b.Sub(i, s.len))
				}
				out := b.Ite(fits, m.read(b, []*Term{s.arr, a[1]}), z)
				in := b.Ite(b.Lt(i, s.len), m.read(b, []*Term{s.arr, b.Add(s.off, i)}), tail)
				return b.Ite(b.And(b.Le(b.Zero, i), b.Lt(i, nl)), in, out)
			}}
		}
		sy := b.NewSym("cap", SInt, 0)
		sy.lo, sy.hi = big0, maxLen
		c := b.App(sy)
		st.assume(b.Le(nl, c))
		t.setRes(st, retTo, &SliceV{arr, off, nl, b.Ite(fits, s.cap, c)})
		return
	}
	// nothing appended to a nil slice gives nil
	if lo, _ := b.bounds(nl); lo == nil || lo.Sign() <= 0 {
		if s.arr.op == OConst || s.len == b.Zero {
			nz, z := t.split(st, b.Ne(n, b.Zero))
			if z != nil {
				t.setRes(z, retTo, s)
				if nz == nil {
					return
				}
				t.push(z)
			}
			if nz == nil {
				return
			}
		}
	}
	yes, no := t.split(st, fits)
	if yes != nil && no != nil {
		realloc(no)
		t.push(no)
		inplace(yes)
	} else if yes != nil {
		inplace(yes)
	} else if no != nil {
		realloc(no)
	}
}

func isAllocOrNil(t *Term) bool { return isAlloc(t) || t.op == OConst }

// copyElems2: a fresh array r holding s followed by xs (or the string)
func (st *State) copyElems2(et types.Type, r *Term, s, xs *SliceV, str, n *Term) {
	t := st.t
	b := t.b
	ls := leavesOf(et)
	p := "e:" + tname(et)
	t.declRegion(p, ls, 2)
	for _, l := range ls {
		m := st.region(p+l.path, 2, leafSort(l))
		z := t.zeroLeaf(l)
		st.update(p+l.path, 2, leafSort(l), r, func(a []*Term) *Term { return b.Eq(a[0], r) }, func(a []*Term) *Term {
			i := a[1]
			var tail *Term
			if xs != nil {
				tail = m.read(b, []*Term{xs.arr, b.Add(b.Sub(i, s.len), xs.off)})
			} else {
				tail = t.strAt(str, b.Sub(i, s.len))
			}
			in := b.Ite(b.Lt(i, b.Add(s.len, n)), tail, z)
			if s.len == b.Zero {
				return in
			}
			return b.Ite(b.Lt(i, s.len), m.read(b, []*Term{s.arr, b.Add(s.off, i)}), in)
		})
	}
}

// ---- models of externals (everything else needs an extern contract)

var purePkgs = map[string]bool{"fmt": true, "log": true, "strings": true, "strconv": true, "errors": true, "github.com/fwhezfwhez/errorx": true,
	"os": true, "runtime": true, "runtime/debug": true, "reflect": true, "path": true, "path/filepath": true, "unicode": true, "unicode/utf8": true, "math": true,
	"math/rand": true, "time": true, "bytes": true, "sort": false, "math/bits": true, "sync/atomic": false}

func pkgOf(name string) string {
	// fmt.Sprintf, (*strings.Builder).String, (encoding/binary.bigEndian).Uint32
	s := strings.TrimLeft(name, "(*")
	i := strings.LastIndex(s, "/")
	j := strings.Index(s[i+1:], ".")
	if j < 0 {
		return ""
	}
	return s[:i+1+j]
}

func (t *Task) model(st *State, name string, args []TV, results *types.Tuple, retTo ssa.Value) bool {
	b := t.b
	pk := pkgOf(name)
	errT := types.Universe.Lookup("error").Type()
	newErr := func() *Term {
		r := b.NewAlloc("error")
		t.boxType["*errors.errorString"] = nil
		return b.AppS(b.Fn("box_*errors.errorString", SInt, 1), r)
	}
	switch {
	case strings.HasPrefix(name, "(encoding/binary.bigEndian).") || strings.HasPrefix(name, "(encoding/binary.littleEndian)."):
		m := name[strings.LastIndex(name, ".")+1:]
		big_ := strings.Contains(name, "bigEndian")
		w := 0
		switch {
		case strings.HasSuffix(m, "16"):
			w = 2
		case strings.HasSuffix(m, "32"):
			w = 4
		case strings.HasSuffix(m, "64"):
			w = 8
		}
		if w == 0 {
			return false
		}
		s, ok := args[1].v.(*SliceV)
		if !ok {
			return false
		}
		u8 := types.Typ[types.Uint8]
		at := func(i int) *Addr {
			k := i
			if !big_ {
				k = w - 1 - i
			}
			return &Addr{kind: 'e', root: u8, ref: s.arr, idx: b.AddC(s.off, int64(k)), typ: u8}
		}
		if strings.HasPrefix(m, "Append") {
			return false
		}
		t.guard(st, b.Lt(s.len, b.Int(int64(w))), "index out of range in encoding/binary")
		if st.dead {
			return true
		}
		if strings.HasPrefix(m, "Put") {
			v := t.asTerm(args[2].v)
			for i := 0; i < w; i++ {
				st.store(at(i), b.Mod(b.Div(v, pow2(uint(8*(w-1-i)))), bi(256)))
			}
			return true
		}
		r := b.Zero
		for i := 0; i < w; i++ {
			r = b.Add(r, b.MulC(st.load(at(i)).(*Term), pow2(uint(8*(w-1-i)))))
		}
		t.setRes(st, retTo, r)
		return true
	case name == "errors.New" || name == "fmt.Errorf" || strings.HasPrefix(name, "github.com/fwhezfwhez/errorx.New"):
		v := newErr()
		if results.Len() == 1 && types.Identical(results.At(0).Type(), errT) {
			t.setRes(st, retTo, v)
		} else {
			return t.pureFresh(st, results, retTo, name)
		}
		return true
	case name == "github.com/fwhezfwhez/errorx.Wrap" || name == "github.com/fwhezfwhez/errorx.ReplaceError":
		x := t.asTerm(args[0].v)
		v := newErr()
		t.setRes(st, retTo, b.Ite(b.Eq(x, b.Zero), b.Zero, v))
		return true
	case name == "os.Exit" || strings.HasPrefix(name, "log.Fatal"):
		t.event(st, "call:"+name, args...)
		st.dead = true
		return true
	case strings.HasPrefix(name, "log.Panic"):
		t.raise(st, b.Fresh("panicval", SInt), "log.Panic")
		return true
	case name == "(error).Error":
		t.setRes(st, retTo, t.freshVal("errtext", types.Typ[types.String]))
		return true
	case strings.HasSuffix(name, ".init") && results.Len() == 0 && len(args) == 0:
		return true
	}
	if strings.HasPrefix(name, "(*sync.") {
		switch name[strings.LastIndex(name, ".")+1:] {
		case "Lock", "Unlock", "RLock", "RUnlock", "Add", "Done", "Wait", "Signal", "Broadcast":
			return true
		}
	}
	if strings.HasPrefix(name, "(net.Error).") || strings.HasPrefix(name, "(net.Addr).") || strings.HasSuffix(name, ".LocalAddr") || strings.HasSuffix(name, ".RemoteAddr") {
		t.pureUsed[name]++
		return t.pureFresh(st, results, retTo, name)
	}
	if purePkgs[pk] {
		t.pureUsed[name]++
		return t.pureFresh(st, results, retTo, name)
	}
	return false
}

func (t *Task) pureFresh(st *State, results *types.Tuple, retTo ssa.Value, name string) bool {
	var vals TupleV
	for i := 0; i < results.Len(); i++ {
		v := t.freshVal("ret_"+shortName(name), results.At(i).Type())
		vals = append(vals, v)
	}
	if len(vals) == 1 {
		t.setRes(st, retTo, vals[0])
	} else {
		t.setRes(st, retTo, vals)
	}
	return true
}

// ---- goroutines

// spawn executes the body of c on its own, in a state in which anything not stable may have changed:
// a new goroutine, or a function that a hook asks to run at some later time
func (t *Task) spawn(st *State, c *ClosureV, args []Value, run bool) {
	o := st.fork()
	o.goro = true
	o.run = run
	o.constRefs = nil
	for i, fv := range c.fn.FreeVars {
		if al := boundAlloc(fv); al != nil && t.v.constCell(al) && i < len(c.binds) {
			if tm, ok := c.binds[i].(*Term); ok {
				o.constRefs = append(o.constRefs, tm)
			}
		}
	}
	o.frames = nil
	o.panicV = nil
	o.havocAll()
	o.acqMem = nil
	if run {
		t.event(o, "runstart", t.paramTVs(c.fn, args)...)
	} else {
		t.event(o, "gostart", TV{c, c.fn.Type()})
	}
	if o.dead {
		return
	}
	t.spawned[c.fn] = t.spawned[c.fn] || false
	t.pushFrame(o, c.fn, args, c.binds, nil, false)
	o.goFn = c.fn
	o.trace = append(o.trace, "in goroutine "+t.fnName(c.fn))
	if !o.dead {
		t.push(o)
	}
}

func (t *Task) goStmt(st *State, call *ssa.CallCommon, fn Value, args []Value) {
	var sig *types.Signature = call.Signature()
	if call.IsInvoke() {
		name := "(" + tname(call.Value.Type()) + ")." + call.Method.Name()
		t.event(st, "go:"+name, TV{fn, call.Value.Type()})
		return
	}
	if c, ok := fn.(*ClosureV); ok {
		name := t.fnName(c.fn)
		tvs := t.paramTVs(c.fn, args)
		t.event(st, "go", TV{c, c.fn.Type()})
		t.event(st, "go:"+name, tvs...)
		if st.dead {
			return
		}
		if ct := t.lookup(name); ct != nil {
			// the goroutine will run under its contract: its precondition must hold now
			vars := map[string]TV{}
			for i, p := range ct.params {
				if i < len(tvs) {
					vars[p] = tvs[i]
				}
			}
			e := &Env{st: st, vars: vars}
			for i, r := range ct.req {
				l := r.label
				if l == "" {
					l = fmt.Sprintf("requires %d", i+1)
				}
				t.prove(st, t.evBool(r.e, e), "precondition", "go "+name+": "+l, r.e.String())
			}
			t.used[name] = ct
			return
		}
		if t.quiet > 0 {
			return
		}
		if t.contract != nil && t.contract.goExplore && len(c.fn.Blocks) > 0 && !st.goro {
			t.spawn(st, c, args, false)
		}
		return
	}
	t.event(st, "go:"+stripNames("", sig), TV{fn, sig})
}

// ---- loops

type cand struct {
	name string
	ev   func(st *State) *Term
	dead bool
}

func (t *Task) loopPhis(l *Loop) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

func (t *Task) enterLoop(st *State, l *Loop) {
	b := t.b
	f := st.top()
	phis := t.loopPhis(l)
	init := map[*ssa.Phi]Value{}
	if f.pred != nil {
		i := predIndex(l.header, f.pred)
		for _, p := range phis {
			init[p] = t.val(st, p.Edges[i])
		}
	}
	for p, v := range init {
		f.env[p] = v
	}
	depth := len(st.frames) - 1
	mark := b.NewAlloc("loop")
	cands := t.loopCands(st, l, phis)
	// initially
	for _, c := range cands {
		g := t.safeCand(c, st)
		if g == nil {
			c.dead = true
			continue
		}
		if t.s.Valid(st.pcList(), g, 3000, 1) != RUnsat {
			if t.debug {
				fmt.Printf("  loop %s: init fails %s\n", l.header, c.name)
			}
			c.dead = true
		}
	}
	W := &recorder{clock: mark.clock, regs: map[string]map[*Term]bool{}, all: map[string]bool{}, newer: map[string]bool{}}
	base := st.fork()
	mk := func() *State {
		s := base.fork()
		g := s.top()
		for _, p := range phis {
			switch iv := init[p].(type) {
			case *Addr:
				same := true
				for _, e := range p.Edges {
					if e != ssa.Value(p) {
						if v, ok := g.env[e].(*Addr); !ok || v != iv {
							same = false
						}
					}
				}
				if !same {
					unsupported("loop variable %s is an interior pointer", p.Name())
				}
				g.env[p] = iv
			case *IterV:
				g.env[p] = iv
			default:
				g.env[p] = t.freshVal(phiName(p), p.Type())
			}
		}
		t.havocW(s, W, mark)
		g.loops = append(g.loops, l)
		g.block = l.header
		g.ip = len(phis)
		for _, c := range cands {
			if !c.dead {
				if x := t.safeCand(c, s); x != nil {
					s.assume(x)
				}
			}
		}
		return s
	}
	t.quiet++
	for round := 0; ; round++ {
		if round > 40 {
			unsupported("loop analysis does not converge at %s", l.header)
		}
		rec := &recorder{clock: mark.clock, regs: map[string]map[*Term]bool{}, all: map[string]bool{}, newer: map[string]bool{}}
		s := mk()
		t.recorders = append(t.recorders, rec)
		killed := 0
		t.explore(s, &analysis{depth: depth, loop: l}, func(e *State, kind string) {
			if kind != "backedge" || len(e.frames)-1 != depth || e.top().block != l.header {
				return
			}
			g := e.top()
			i := predIndex(l.header, g.pred)
			nv := map[*ssa.Phi]Value{}
			for _, p := range phis {
				nv[p] = t.val(e, p.Edges[i])
			}
			for p, v := range nv {
				g.env[p] = v
			}
			pcl := e.pcList()
			for _, c := range cands {
				if c.dead {
					continue
				}
				x := t.safeCand(c, e)
				if x == nil || t.s.Valid(pcl, x, 5000, 1) != RUnsat {
					if t.debug {
						fmt.Printf("  loop %s round %d: kills %s  :: %v\n", l.header, round, c.name, x)
					}
					c.dead = true
					killed++
				}
			}
		})
		t.recorders = t.recorders[:len(t.recorders)-1]
		grew := W.merge(rec)
		if !grew && killed == 0 {
			break
		}
	}
	t.quiet--
	if t.debug {
		for _, c := range cands {
			if !c.dead {
				fmt.Printf("  loop %s keeps %s\n", l.header, c.name)
			}
		}
	}
	for _, c := range cands {
		if !c.dead && t.quiet == 0 {
			t.loopInvs++
		}
	}
	s := mk()
	tr := st.trace
	*st = *s
	st.trace = append(append([]string{}, tr...), "loop at "+t.loopPos(l))
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (t *Task) loopPos(l *Loop) string {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			ps := t.v.fset.Position(in.Pos())
			return fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
		}
	}
	return l.fn.Name()
}
func shortFile(fn string) string {
	if k := strings.LastIndex(fn, "/"); k >= 0 {
		return fn[k+1:]
	}
	return fn
}

func (t *Task) safeCand(c *cand, st *State) (r *Term) {
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case specError, Unsupported:
				r = nil
			default:
				panic(x)
			}
		}
	}()
	return c.ev(st)
}

func (w *recorder) merge(r *recorder) bool {
	grew := false
	if r.star && !w.star {
		w.star = true
		grew = true
	}
	for k := range r.all {
		if !w.all[k] {
			w.all[k] = true
			grew = true
		}
	}
	for k := range r.newer {
		if !w.newer[k] {
			w.newer[k] = true
			grew = true
		}
	}
	for k, m := range r.regs {
		for x := range m {
			if w.regs[k] == nil {
				w.regs[k] = map[*Term]bool{}
			}
			if !w.regs[k][x] {
				w.regs[k][x] = true
				grew = true
			}
		}
	}
	return grew
}

func (t *Task) havocW(st *State, w *recorder, mark *Term) {
	b := t.b
	if w.star {
		st.havocAll()
	}
	names := map[string]bool{}
	for k := range w.all {
		names[k] = true
	}
	for k := range w.newer {
		names[k] = true
	}
	for k := range w.regs {
		names[k] = true
	}
	// group slices: their parts are related by facts of the group
	done := map[string]bool{}
	for _, k := range sortedKeys(names) {
		if done[k] {
			continue
		}
		if w.star && !t.isStable(k) && !strings.HasPrefix(k, "it:") {
			continue
		}
		grp := []string{k}
		leaves := []Leaf{{"", kOpaque, types.Typ[types.Int]}}
		if info, ok := t.regInfo[k]; ok {
			for _, l := range info.leaves {
				if info.prefix+l.path == k {
					leaves[0] = l
				}
			}
			if i := strings.LastIndex(k, "#"); i > 0 {
				stem := k[:i]
				grp = nil
				leaves = nil
				for _, l := range info.leaves {
					if strings.HasPrefix(info.prefix+l.path, stem+"#") {
						grp = append(grp, info.prefix+l.path)
						leaves = append(leaves, l)
					}
				}
			}
		}
		arity := t.regArity[k]
		syms := t.groupSyms("lp", leaves, arity, 0, true)
		for _, s := range syms {
			s.clock = b.clock
		}
		for i, g := range grp {
			done[g] = true
			s := syms[i]
			lf := leaves[i]
			if w.all[k] || arity == 0 {
				st.note(g, nil)
				st.mem[g] = &Mem{name: g, base: s}
				continue
			}
			refs := w.regs[k]
			nw := w.newer[k]
			prev := st.region(g, arity, leafSort(lf))
			for r := range refs {
				st.note(g, []*Term{r})
			}
			if nw {
				st.note(g, []*Term{mark})
			}
			rl := make([]*Term, 0, len(refs))
			for r := range refs {
				rl = append(rl, r)
			}
			st.mem[g] = &Mem{name: g, prev: prev, cond: func(a []*Term) *Term {
				c := b.False
				for _, r := range rl {
					c = b.Or(c, b.Eq(a[0], r))
				}
				if nw {
					c = b.Or(c, b.refNewer(a[0], mark))
				}
				return c
			}, val: func(a []*Term) *Term { return b.App(s, a...) }}
		}
	}
}

// evalPure evaluates a side-effect free SSA value in the current state (for bounds such as len(x.f)).
func (t *Task) evalPure(st *State, v ssa.Value, l *Loop, d int) Value {
	if d > 8 {
		return nil
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !l.blocks[in.Block()] || in.Parent() != l.fn {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function:
			return t.val(st, v)
		}
		return st.top().env[v]
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == l.header {
			return st.top().env[v]
		}
	case *ssa.FieldAddr:
		p := t.evalPure(st, x.X, l, d+1)
		if p == nil {
			return nil
		}
		return st.addrOf(p, deref(x.X.Type())).field(x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			p := t.evalPure(st, x.X, l, d+1)
			if p == nil {
				return nil
			}
			return st.load(st.addrOf(p, deref(x.X.Type())))
		}
	case *ssa.Call:
		if bt, ok := x.Call.Value.(*ssa.Builtin); ok && bt.Name() == "len" {
			p := t.evalPure(st, x.Call.Args[0], l, d+1)
			switch y := p.(type) {
			case *SliceV:
				return y.len
			case *Term:
				if isString(x.Call.Args[0].Type()) {
					return t.strLen(y)
				}
				if mt, ok := x.Call.Args[0].Type().Underlying().(*types.Map); ok {
					return st.mapLen(nil, mt, y)
				}
			}
		}
	case *ssa.Convert:
		p := t.evalPure(st, x.X, l, d+1)
		if y, ok := p.(*Term); ok && isInt(x.X.Type()) && isInt(x.Type()) {
			return t.wrap(nil, y, x.Type())
		}
	case *ssa.BinOp:
		if isInt(x.Type()) && (x.Op == token.ADD || x.Op == token.SUB) {
			p, _ := t.evalPure(st, x.X, l, d+1).(*Term)
			q, _ := t.evalPure(st, x.Y, l, d+1).(*Term)
			if p != nil && q != nil {
				if x.Op == token.ADD {
					return t.b.Add(p, q)
				}
				return t.b.Sub(p, q)
			}
		}
	}
	return nil
}

type metaVal struct {
	name string
	get  func(st *State) TV
}

// metas collects what a metavariable of the class may stand for at this loop.
func (t *Task) metas(st *State, l *Loop, class string) []metaVal {
	f := st.top()
	var r []metaVal
	fits := func(ty types.Type) bool {
		switch class {
		case "i", "j", "k", "n":
			return isInt(ty)
		case "s", "S":
			_, ok := ty.Underlying().(*types.Slice)
			return ok
		case "m":
			_, ok := ty.Underlying().(*types.Map)
			return ok
		case "p", "P":
			_, ok := ty.Underlying().(*types.Pointer)
			return ok
		case "b":
			bt, ok := ty.Underlying().(*types.Basic)
			return ok && bt.Info()&types.IsBoolean != 0
		case "t":
			return isString(ty)
		case "e":
			return types.IsInterface(ty)
		case "f":
			_, ok := ty.Underlying().(*types.Signature)
			return ok
		}
		return false
	}
	addEnv := func(v ssa.Value) {
		v2 := v
		r = append(r, metaVal{v.Name(), func(s *State) TV { return TV{s.top().env[v2], v2.Type()} }})
	}
	if class == "it" {
		var ks []ssa.Value
		for v, x := range f.env {
			if _, ok := x.(*IterV); ok {
				ks = append(ks, v)
			}
		}
		sortVals(ks)
		for _, v := range ks {
			addEnv(v)
		}
		return r
	}
	var phis []*ssa.Phi
	phis = append(phis, t.loopPhis(l)...)
	for _, o := range f.loops {
		phis = append(phis, t.loopPhis(o)...)
	}
	seen := map[ssa.Value]bool{}
	for _, p := range phis {
		if fits(p.Type()) && !seen[p] {
			seen[p] = true
			addEnv(p)
		}
	}
	var keys []ssa.Value
	for v := range f.env {
		keys = append(keys, v)
	}
	sortVals(keys)
	for _, v := range keys {
		if al, ok := v.(*ssa.Alloc); ok {
			et := deref(al.Type())
			if fits(et) {
				al := al
				r = append(r, metaVal{"*" + al.Name(), func(s *State) TV {
					return TV{s.load(s.addrOf(s.top().env[al], et)), et}
				}})
			}
		}
		if fv, ok := v.(*ssa.FreeVar); ok {
			et := deref(fv.Type())
			if _, isp := fv.Type().Underlying().(*types.Pointer); isp && fits(et) {
				fv := fv
				r = append(r, metaVal{"*" + fv.Name(), func(s *State) TV {
					return TV{s.load(s.addrOf(s.top().env[fv], et)), et}
				}})
			}
		}
	}
	if class == "m" || class == "S" || class == "P" {
		for _, v := range keys {
			if !seen[v] && fits(v.Type()) {
				if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
					continue
				}
				addEnv(v)
			}
		}
	}
	return r
}

func sortVals(k []ssa.Value) {
	for i := 1; i < len(k); i++ {
		for j := i; j > 0 && k[j].Name() < k[j-1].Name(); j-- {
			k[j], k[j-1] = k[j-1], k[j]
		}
	}
}

func metaNames(n *Node, out map[string]bool) {
	if n == nil {
		return
	}
	if n.k == "id" && strings.HasPrefix(n.s, "$") {
		out[n.s] = true
	}
	for _, a := range n.a {
		metaNames(a, out)
	}
}

func (t *Task) expandDefs(n *Node) *Node { return n }

func (t *Task) loopCands(st *State, l *Loop, phis []*ssa.Phi) []*cand {
	b := t.b
	f := st.top()
	var cs []*cand
	add := func(name string, ev func(s *State) *Term) { cs = append(cs, &cand{name: name, ev: ev}) }
	// counters
	type ctr struct {
		name string
		get  func(s *State) *Term
		init *Term
	}
	var ctrs []ctr
	for _, p := range phis {
		p := p
		iv := f.env[p]
		switch {
		case isInt(p.Type()):
			if x, ok := iv.(*Term); ok {
				ctrs = append(ctrs, ctr{phiName(p), func(s *State) *Term { return s.top().env[p].(*Term) }, x})
			}
		default:
			if sl, ok := iv.(*SliceV); ok {
				ctrs = append(ctrs, ctr{"len(" + phiName(p) + ")", func(s *State) *Term { return s.top().env[p].(*SliceV).len }, sl.len})
				ctrs = append(ctrs, ctr{"off(" + phiName(p) + ")", func(s *State) *Term { return s.top().env[p].(*SliceV).off }, sl.off})
				add("arr("+phiName(p)+") unchanged", func(s *State) *Term { return b.Eq(s.top().env[p].(*SliceV).arr, sl.arr) })
				add("end("+phiName(p)+") unchanged", func(s *State) *Term {
					x := s.top().env[p].(*SliceV)
					return b.Eq(b.Add(x.off, x.len), b.Add(sl.off, sl.len))
				})
				add("capend("+phiName(p)+") unchanged", func(s *State) *Term {
					x := s.top().env[p].(*SliceV)
					return b.Eq(b.Add(x.off, x.cap), b.Add(sl.off, sl.cap))
				})
				mk := st.t.b.NewAlloc("lm")
				add("arr("+phiName(p)+") new or initial", func(s *State) *Term {
					a := s.top().env[p].(*SliceV).arr
					return b.Or(b.Eq(a, sl.arr), b.refNewer(a, mk))
				})
			} else if x, ok := iv.(*Term); ok {
				add(phiName(p)+" unchanged", func(s *State) *Term { return b.Eq(s.top().env[p].(*Term), x) })
				if x.sort == SInt && x != b.Zero {
					add(phiName(p)+" non-nil", func(s *State) *Term { return b.Ne(s.top().env[p].(*Term), b.Zero) })
				}
			}
		}
	}
	// local integer cells
	var cells []ssa.Value
	for v := range f.env {
		if al, ok := v.(*ssa.Alloc); ok && isInt(deref(al.Type())) {
			cells = append(cells, v)
		}
	}
	sortVals(cells)
	if len(cells) <= 4 {
		for _, v := range cells {
			v := v
			get := func(s *State) *Term { return s.load(s.addrOf(s.top().env[v], deref(v.Type()))).(*Term) }
			ctrs = append(ctrs, ctr{"*" + v.Name(), get, get(st)})
		}
	}
	for i, c := range ctrs {
		c := c
		add(c.name+" >= init", func(s *State) *Term { return b.Le(c.init, c.get(s)) })
		add(c.name+" <= init", func(s *State) *Term { return b.Le(c.get(s), c.init) })
		for _, d := range ctrs[i+1:] {
			d := d
			add(c.name+" - "+d.name, func(s *State) *Term {
				return b.Eq(b.Sub(c.get(s), d.get(s)), b.Sub(c.init, d.init))
			})
			add(c.name+" + "+d.name, func(s *State) *Term {
				return b.Eq(b.Add(c.get(s), d.get(s)), b.Add(c.init, d.init))
			})
		}
	}
	// comparisons in the loop
	for blk := range l.blocks {
		for _, in := range blk.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || !isInt(bo.X.Type()) {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			for k := 0; k < 2; k++ {
				lim := bo.Y
				if k == 1 {
					lim = bo.X
				}
				if lp, ok := lim.(*ssa.Phi); ok && lp.Block() == l.header {
					continue
				}
				if t.evalPure(st, lim, l, 0) == nil {
					continue
				}
				for _, c := range ctrs {
					c := c
					L := func(s *State) *Term {
						x, _ := t.evalPure(s, lim, l, 0).(*Term)
						if x == nil {
							unsupported("bound")
						}
						return x
					}
					add(c.name+" <= "+lim.Name(), func(s *State) *Term { return b.Le(c.get(s), L(s)) })
					add(c.name+" < "+lim.Name(), func(s *State) *Term { return b.Lt(c.get(s), L(s)) })
					add(c.name+"+1 <= "+lim.Name(), func(s *State) *Term { return b.Le(b.AddC(c.get(s), 1), L(s)) })
					add(c.name+" >= "+lim.Name(), func(s *State) *Term { return b.Le(L(s), c.get(s)) })
				}
			}
		}
	}
	// a map iteration visits keys of the map only (they may be deleted again while iterating)
	for _, m := range t.metas(st, l, "it") {
		m := m
		add("visited keys of "+m.name, func(s *State) *Term {
			it := m.get(s).v.(*IterV)
			k := b.FreshBound("vk")
			mem := s.memOf(nil, it.region, 1, SBool)
			return b.Forall([]*Term{k}, b.Implies(mem.read(b, []*Term{k}), s.mapDom(nil, it.mt, it.m, k)))
		})
	}
	// elements outside the modifies clause keep their values
	if t.contract != nil && !t.contract.modStar && !t.contract.frameOff && t.entrySnap != nil {
		pe := t.env(st)
		pe.sn = t.entrySnap
		allowed := map[string][]Loc{}
		for _, m := range t.contract.mods {
			func() {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(specError); !ok {
							panic(x)
						}
					}
				}()
				for _, l := range t.evLoc(m, pe) {
					for _, lf := range l.leaves {
						allowed[l.prefix+lf.path] = append(allowed[l.prefix+lf.path], l)
					}
				}
			}()
		}
		for k, ls := range allowed {
			k, ls := k, ls
			if !strings.HasPrefix(k, "e:") || t.regArity[k] != 2 {
				continue
			}
			whole := false
			for _, l := range ls {
				if l.cond == nil {
					whole = true
				}
			}
			if whole {
				continue
			}
			add("frame "+k, func(s *State) *Term {
				x, y := b.FreshBound("fa"), b.FreshBound("fi")
				a := []*Term{x, y}
				ok := b.False
				for _, l := range ls {
					ok = b.Or(ok, l.cond(a))
				}
				now := s.region(k, 2, t.regSort[k]).read(b, a)
				was := t.entrySnap.region(t, k, 2, t.regSort[k]).read(b, a)
				old := b.Not(b.refNewer(x, t.entryMark))
				return b.Forall([]*Term{x, y}, b.Or(b.Not(old), ok, b.Eq(now, was)))
			})
		}
	}
	// templates
	tmpl := append(append([]*Node{}, t.spec.loopinv...), t.contractLoopInv()...)
	for _, n := range tmpl {
		n := n
		names := map[string]bool{}
		metaNames(n, names)
		ks := sortedKeys(names)
		combos := []map[string]metaVal{{}}
		for _, k := range ks {
			cl := strings.TrimRight(k[1:], "0123456789")
			ms := t.metas(st, l, cl)
			var nc []map[string]metaVal
			for _, c := range combos {
				for _, m := range ms {
					d := map[string]metaVal{k: m}
					for a, v := range c {
						d[a] = v
					}
					nc = append(nc, d)
				}
			}
			combos = nc
			if len(combos) > 300 {
				combos = combos[:300]
			}
		}
		for _, c := range combos {
			c := c
			nm := n.String()
			for k, m := range c {
				nm += " [" + k + "=" + m.name + "]"
			}
			add(nm, func(s *State) *Term {
				e := t.env(s)
				vars := map[string]TV{}
				for k, v := range t.entryVars {
					vars[k] = v
				}
				for k, m := range c {
					vars[k] = m.get(s)
				}
				e.vars = vars
				return t.evBool(n, e)
			})
		}
	}
	return cs
}

func (t *Task) contractLoopInv() []*Node {
	if t.contract == nil {
		return nil
	}
	return t.contract.loopinv
}

var _ = big.NewInt
