package main

// Verification of one function against its contract.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoPath string

type Verifier struct {
	fset               *token.FileSet
	prog               *ssa.Program
	pkg                *ssa.Package
	fns                map[string]*ssa.Function
	all                []*ssa.Function
	mu                 sync.Mutex
	typs               map[string]types.Type
	escMemo, constMemo map[*ssa.Alloc]bool
	immMemo            map[string]bool
	repo               string
}

func loadRepo(dir string, modfile string) (*Verifier, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+modfile, "GOPROXY=off", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s", e)
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	v := &Verifier{fset: prog.Fset, prog: prog, pkg: sp[0], fns: map[string]*ssa.Function{}, typs: map[string]types.Type{}, escMemo: map[*ssa.Alloc]bool{}, constMemo: map[*ssa.Alloc]bool{}, immMemo: map[string]bool{}, repo: dir}
	repoPath = sp[0].Pkg.Path()
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == v.pkg || v.inRepo(f) {
			if len(f.Blocks) > 0 && f.Synthetic == "" || f.Name() == "init" {
				v.fns[f.RelString(v.pkg.Pkg)] = f
				v.all = append(v.all, f)
			}
		}
	}
	sort.Slice(v.all, func(i, j int) bool { return v.all[i].String() < v.all[j].String() })
	return v, nil
}

func (v *Verifier) inRepo(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg == v.pkg
		}
	}
	// synthetic wrappers (bound methods, promoted methods) belong to no package
	return f.Synthetic != "" && len(f.Blocks) > 0
}

func (v *Verifier) method(dt types.Type, m *types.Func) *ssa.Function {
	v.mu.Lock()
	defer v.mu.Unlock()
	sel := v.prog.MethodSets.MethodSet(dt).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return v.prog.MethodValue(sel)
}

func (v *Verifier) tryTyp(s string) types.Type {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.typ0(s)
}
func (v *Verifier) typ(s string) types.Type {
	t := v.tryTyp(s)
	if t == nil {
		panic(specError{"unknown type " + s})
	}
	return t
}
func (v *Verifier) typ0(s string) types.Type {
	if t, ok := v.typs[s]; ok {
		return t
	}
	var r types.Type
	switch {
	case strings.HasPrefix(s, "*"):
		if e := v.typ0(s[1:]); e != nil {
			r = types.NewPointer(e)
		}
	case strings.HasPrefix(s, "[]"):
		if e := v.typ0(s[2:]); e != nil {
			r = types.NewSlice(e)
		}
	case s == "any":
		r = types.NewInterfaceType(nil, nil)
	case strings.HasPrefix(s, "map["):
		d, i := 1, 4
		for ; d > 0; i++ {
			if s[i] == '[' {
				d++
			} else if s[i] == ']' {
				d--
			}
		}
		k, e := v.typ0(s[4:i-1]), v.typ0(s[i:])
		if k != nil && e != nil {
			r = types.NewMap(k, e)
		}
	case strings.HasPrefix(s, "chan "):
		if e := v.typ0(s[5:]); e != nil {
			r = types.NewChan(types.SendRecv, e)
		}
	default:
		if i := strings.LastIndex(s, "."); i > 0 && !strings.HasPrefix(s, "func") {
			for _, p := range v.prog.AllPackages() {
				if p.Pkg.Path() == s[:i] {
					if o := p.Pkg.Scope().Lookup(s[i+1:]); o != nil {
						r = o.Type()
					}
				}
			}
		} else if tv, err := types.Eval(v.fset, v.pkg.Pkg, token.NoPos, s); err == nil && tv.IsType() {
			r = tv.Type
		}
	}
	if r != nil {
		v.typs[s] = r
	}
	return r
}

// escapes: may the address of the variable be known outside this function activation?
func (v *Verifier) escapes(al *ssa.Alloc) bool {
	v.mu.Lock()
	defer v.mu.Unlock()
	if r, ok := v.escMemo[al]; ok {
		return r
	}
	v.escMemo[al] = true
	r := addrEscapes(al, 0)
	v.escMemo[al] = r
	return r
}

func addrEscapes(x ssa.Value, d int) bool {
	if d > 6 {
		return true
	}
	if x.Referrers() == nil {
		return true
	}
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if u.Val == x {
				return true
			}
		case *ssa.UnOp:
		case *ssa.FieldAddr:
			if addrEscapes(u, d+1) {
				return true
			}
		case *ssa.IndexAddr:
			if addrEscapes(u, d+1) {
				return true
			}
		case *ssa.MakeClosure:
			// fine when the closure is only called or deferred here
			for _, q := range *u.Referrers() {
				switch c := q.(type) {
				case *ssa.DebugRef:
				case *ssa.Defer:
					if c.Call.Value != ssa.Value(u) {
						return true
					}
				case *ssa.Call:
					if c.Call.Value != ssa.Value(u) {
						return true
					}
				default:
					return true
				}
			}
			fn := u.Fn.(*ssa.Function)
			for i, bnd := range u.Bindings {
				if bnd == x && addrEscapes(fn.FreeVars[i], d+1) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// constCell: a variable stored once, before any closure captures it, and only read otherwise
// (by this function and by the closures): its contents never change after that store.
func (v *Verifier) constCell(al *ssa.Alloc) bool {
	v.mu.Lock()
	defer v.mu.Unlock()
	if r, ok := v.constMemo[al]; ok {
		return r
	}
	var store *ssa.Store
	ok := al.Referrers() != nil
	if ok {
		for _, r := range *al.Referrers() {
			if u, is := r.(*ssa.Store); is && u.Addr == ssa.Value(al) && u.Val != ssa.Value(al) {
				if store != nil {
					ok = false
				}
				store = u
			}
		}
	}
	ok = ok && store != nil && onlyRead(al, store, 0)
	v.constMemo[al] = ok
	return ok
}

func onlyRead(x ssa.Value, store *ssa.Store, d int) bool {
	if d > 6 || x.Referrers() == nil {
		return false
	}
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if u != store {
				return false
			}
		case *ssa.UnOp:
		case *ssa.FieldAddr:
			if !onlyRead(u, nil, d+1) {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyRead(u, nil, d+1) {
				return false
			}
		case *ssa.MakeClosure:
			if store != nil && !before(store, u) {
				return false
			}
			fn := u.Fn.(*ssa.Function)
			for i, bnd := range u.Bindings {
				if bnd == x && !onlyRead(fn.FreeVars[i], nil, d+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// before: a is executed before b on every path to b
func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// boundAlloc: the variable a free variable of a closure stands for
func boundAlloc(fv *ssa.FreeVar) *ssa.Alloc {
	fn := fv.Parent()
	if fn == nil || fn.Parent() == nil {
		return nil
	}
	idx := -1
	for i, x := range fn.FreeVars {
		if x == fv {
			idx = i
		}
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) && idx >= 0 {
				switch y := mc.Bindings[idx].(type) {
				case *ssa.Alloc:
					return y
				case *ssa.FreeVar:
					return boundAlloc(y)
				}
				return nil
			}
		}
	}
	return nil
}

// immutableGlobal: assigned only by package initialisation, address never taken.
func (v *Verifier) immutableGlobal(name string) bool {
	v.mu.Lock()
	defer v.mu.Unlock()
	if r, ok := v.immMemo[name]; ok {
		return r
	}
	g, ok := v.pkg.Members[name].(*ssa.Global)
	r := ok
	if ok {
		for _, f := range v.all {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op != ssa.Value(g) {
							continue
						}
						switch u := in.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if u.Addr != ssa.Value(g) || f.Name() != "init" || f.Parent() != nil {
								r = false
							}
						default:
							r = false
						}
					}
				}
			}
		}
	}
	v.immMemo[name] = r
	return r
}

// ---- tasks

type Obligation struct {
	Name   string
	Kind   string
	Site   string
	OK     bool
	Result string
	Detail string
	Trace  []string
	Model  string
	Time   float64
}

type Task struct {
	v         *Verifier
	b         *TB
	s         *Solver
	spec      *SpecSet
	contract  *Contract
	fn        *ssa.Function
	name      string
	work      []*State
	an        *analysis
	cur       ssa.Instruction
	curSt     *State
	npaths    int
	maxPaths  int
	safety    int
	regInfo   map[string]*regionInfo
	regArity  map[string]int
	regSort   map[string]Sort
	closures  map[*Term]*ClosureV
	recorders []*recorder
	loopCache map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	tokMemo   map[string]*Term
	ifacePtr  map[*Term]*Addr
	boxType   map[string]types.Type
	quiet     int
	locN      int
	debug     bool
	entryVars map[string]TV
	ipd       map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	entrySnap *Snapshot
	entryMark *Term
	hookHits  map[string]int
	inlined   map[string]int
	visited   map[*ssa.Function]bool
	used      map[string]*Contract
	pureUsed  map[string]int
	epochs    int
	loopInvs  int
	obls      []*Obligation
	failed    int
	returns   int
	spawned   map[*ssa.Function]bool // goroutines executed: does some path reach their end?
	err       string
	wall      float64
	timeoutMS int
	proved    map[string]bool
	inGlobals bool
	deadline  time.Time
}

func (v *Verifier) newTask(spec *SpecSet, c *Contract, fn *ssa.Function, name string) *Task {
	b := NewTB()
	t := &Task{v: v, b: b, s: NewSolver(b), spec: spec, contract: c, fn: fn, name: name, maxPaths: 6000, regInfo: map[string]*regionInfo{}, regArity: map[string]int{}, regSort: map[string]Sort{},
		spawned: map[*ssa.Function]bool{}, closures: map[*Term]*ClosureV{}, loopCache: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, tokMemo: map[string]*Term{}, ifacePtr: map[*Term]*Addr{}, boxType: map[string]types.Type{},
		hookHits: map[string]int{}, inlined: map[string]int{}, visited: map[*ssa.Function]bool{}, used: map[string]*Contract{}, pureUsed: map[string]int{}, timeoutMS: tmo(), proved: map[string]bool{}}
	t.debug = os.Getenv("GCV_DEBUG") != ""
	t.s.debug = t.debug
	t.s.native = c != nil && c.native
	return t
}

func (t *Task) record(o *Obligation) {
	t.obls = append(t.obls, o)
	if !o.OK {
		t.failed++
	}
}

// prove discharges an obligation on the current path and then assumes it.
func (t *Task) prove(st *State, goal *Term, kind, label, detail string) {
	if st.dead {
		return
	}
	if t.quiet > 0 {
		st.assume(goal)
		return
	}
	t0 := time.Now()
	r := RUnsat
	if goal != t.b.True {
		r = t.s.Valid(st.pcList(), goal, t.timeoutMS, 2)
	}
	o := &Obligation{Name: t.name + ": " + label, Kind: kind, Site: t.site(st), OK: r == RUnsat, Result: r.String(), Detail: detail, Time: time.Since(t0).Seconds()}
	if !o.OK {
		o.Trace = append([]string{}, st.trace...)
		if len(t.obls) < 4000 && t.failed < 5 {
			o.Model = t.s.Model(append(st.pcList(), t.b.Not(t.s.lastGoal)))
			if t.debug {
				fmt.Printf("GOAL %v\n", t.s.lastGoal)
				for _, p := range st.pcList() {
					fmt.Printf("  PC %v\n", p)
				}
			}
		}
	}
	t.record(o)
	if goal == t.b.False {
		st.dead = true
		return
	}
	st.assume(goal)
}

func (t *Task) assumeGlobals(st *State) {
	if t.inGlobals {
		return
	}
	t.inGlobals = true
	defer func() { t.inGlobals = false }()
	if t.name == "init" {
		return
	}
	for _, c := range t.spec.globalInv {
		st.assume(t.evBool(c.e, &Env{st: st, vars: map[string]TV{}}))
	}
}

func (t *Task) run() {
	t0 := time.Now()
	defer func() {
		t.wall = time.Since(t0).Seconds()
		t.s.Close()
	}()
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case Unsupported:
				site := ""
				if t.curSt != nil && len(t.curSt.frames) > 0 {
					site = t.site(t.curSt)
				}
				t.record(&Obligation{Name: t.name + ": within the verified subset", Kind: "subset", Site: site, Result: "unsupported", Detail: e.msg})
			case specError:
				t.record(&Obligation{Name: t.name + ": specification applies to the code", Kind: "spec", Result: "error", Detail: e.msg})
			default:
				panic(x)
			}
		}
	}()
	t.verify()
}

func (t *Task) verify() {
	b := t.b
	c := t.contract
	fn := t.fn
	ep := &epochT{id: 0, clock: b.clock, bases: map[string]*Mem{}}
	st := &State{t: t, mem: map[string]*Mem{}, epoch: ep}
	for _, a := range t.spec.axioms {
		t.s.axioms = append(t.s.axioms, t.evBool(a, &Env{st: st, vars: map[string]TV{}}))
	}
	// parameters
	var args []Value
	vars := map[string]TV{}
	for i, p := range fn.Params {
		v := t.freshVal(p.Name(), p.Type())
		args = append(args, v)
		if i < len(c.params) {
			vars[c.params[i]] = TV{v, p.Type()}
		}
	}
	var binds []Value
	for _, fv := range fn.FreeVars {
		v := t.freshVal(fv.Name(), fv.Type())
		if tm, ok := v.(*Term); ok {
			if _, isp := fv.Type().Underlying().(*types.Pointer); isp {
				tm.sym.lo = big1
			}
		}
		binds = append(binds, v)
		vars["fv_"+fv.Name()] = TV{v, fv.Type()}
	}
	for _, g := range c.ghosts {
		l := Leaf{"", kOpaque, types.Typ[types.Int]}
		switch g.typ {
		case "bool":
			l.kind = kBool
		case "str", "nat", "any":
			l.kind = kIface
		case "int":
		default:
			l.kind = kRef
		}
		s := t.groupSyms("ghost_"+g.name, []Leaf{l}, 0, 0, false)[0]
		vars[g.name] = TV{b.App(s), t.ghostType(g.typ)}
	}
	t.entryVars = vars
	if t.name == "init" {
		// package initialisation runs once
		if g, ok := t.v.pkg.Members["init$guard"].(*ssa.Global); ok {
			t.initGuard(st, g)
		}
	}
	mark := b.NewAlloc("entry")
	ep.clock = mark.clock - 1
	t.entryMark = mark
	t.entrySnap = st.snap()
	t.assumeGlobals(st)
	for _, r := range c.req {
		st.assume(t.evBool(r.e, t.env(st)))
	}
	for _, d := range c.defines {
		st.assume(t.evBool(d, t.env(st)))
	}
	// the precondition must be satisfiable
	r := t.s.Check(st.pcList(), 10000, 1)
	t.record(&Obligation{Name: t.name + ": precondition satisfiable", Kind: "vacuity", OK: r != RUnsat, Result: r.String()})
	t.pushFrame(st, fn, args, binds, nil, false)
	if c.maxPaths > 0 {
		t.maxPaths = c.maxPaths
	}
	t.explore(st, nil, func(s *State, kind string) { t.finish(s, kind) })
	if !c.noReturn && !c.deadOK {
		t.record(&Obligation{Name: t.name + ": some path reaches the end", Kind: "vacuity", OK: t.returns > 0, Result: fmt.Sprint(t.returns)})
	}
	if !c.deadOK {
		var gs []string
		for f, done := range t.spawned {
			if !done {
				gs = append(gs, t.fnName(f))
			}
		}
		sort.Strings(gs)
		for _, g := range gs {
			t.record(&Obligation{Name: t.name + ": some path of goroutine " + g + " reaches its end", Kind: "vacuity", Result: "0"})
		}
	}
	if t.safety > 0 {
		o := &Obligation{Name: t.name + ": run-time checks discharged", Kind: "safety", OK: true, Result: fmt.Sprint(t.safety)}
		t.record(o)
	}
}

func (t *Task) initGuard(st *State, g *ssa.Global) {
	st.store(st.addrOf(t.val(st, g), types.Typ[types.Bool]), t.b.False)
}

func (t *Task) finish(s *State, kind string) {
	c := t.contract
	b := t.b
	if s.dead {
		return
	}
	if s.goro {
		t.spawned[s.goFn] = true
	}
	switch kind {
	case "return":
		if s.goro {
			if s.run {
				t.event(s, "runend")
			} else {
				t.event(s, "goend")
			}
			t.returns++
			return
		}
		t.returns++
		vars := map[string]TV{}
		for k, v := range t.entryVars {
			vars[k] = v
		}
		rs := t.fn.Signature.Results()
		f := s.frames[0]
		for i, tv := range resTVs(rs, f.result) {
			vars[resName(c, i, rs.Len())] = tv
		}
		e := t.env(s)
		e.vars = vars
		if t.name != "init" {
			t.event(s, "end")
		}
		for i, x := range c.ens {
			l := x.label
			if l == "" {
				l = fmt.Sprintf("ensures %d", i+1)
			}
			t.prove(s, t.evBool(x.e, e), "postcondition", l, x.e.String())
		}
		if len(c.panics) > 0 {
			d := b.False
			oe := t.env(s)
			oe.sn = t.entrySnap
			for _, p := range c.panics {
				d = b.Or(d, t.evBool(p, oe))
			}
			t.prove(s, b.Not(d), "postcondition", "panics when it must", "")
		}
		for _, st := range c.sets {
			pe := t.env(s)
			pe.vars = vars
			pe.sn = t.entrySnap
			cond := b.True
			if st.cond != nil {
				cond = t.evBool(st.cond, pe)
			}
			v := t.flatten(t.ev(st.val, pe).v)
			for _, l := range t.evLoc(st.loc, pe) {
				for i, lf := range l.leaves {
					now := s.region(l.prefix+lf.path, l.arity, leafSort(lf)).read(b, l.exact)
					t.prove(s, b.Implies(cond, b.Eq(now, v[i])), "postcondition", "sets "+st.loc.String(), "")
				}
			}
		}
		t.frame(s, vars)
	case "panic":
		if s.goro {
			if !c.mayPanic {
				t.prove(s, b.False, "safety", "no panic escapes the goroutine: "+s.panicAt, "")
			}
			return
		}
		if c.mayPanic {
			t.returns++
		} else {
			d := b.False
			oe := t.env(s)
			oe.sn = t.entrySnap
			for _, p := range c.panics {
				d = b.Or(d, t.evBool(p, oe))
			}
			at := s.panicAt
			if i := strings.LastIndex(at, " at "); i > 0 {
				at = at[:i]
			}
			if len(c.panics) > 0 {
				t.returns++
			}
			t.prove(s, d, "safety", "no panic ("+at+")", s.panicAt)
		}
		e := t.env(s)
		for i, x := range c.onpanic {
			l := x.label
			if l == "" {
				l = fmt.Sprintf("onpanic %d", i+1)
			}
			t.prove(s, t.evBool(x.e, e), "postcondition", l, x.e.String())
		}
		if len(c.onpanic) > 0 || len(c.panics) > 0 {
			t.frame(s, t.entryVars)
		}
	case "halt":
		t.returns++
	}
}

// frame: nothing that existed at entry changed, except what the contract lets change.
func (t *Task) frame(s *State, vars map[string]TV) {
	c := t.contract
	b := t.b
	if c.modStar || c.frameOff || s.dead {
		return
	}
	pe := t.env(s)
	pe.vars = vars
	pe.sn = t.entrySnap
	allowed := map[string][]Loc{}
	addL := func(ls []Loc) {
		for _, l := range ls {
			for _, lf := range l.leaves {
				allowed[l.prefix+lf.path] = append(allowed[l.prefix+lf.path], l)
			}
		}
	}
	for _, m := range c.mods {
		addL(t.evLoc(m, pe))
	}
	for _, x := range c.sets {
		addL(t.evLoc(x.loc, pe))
	}
	var names []string
	if s.epoch != t.entrySnap.epoch {
		t.record(&Obligation{Name: t.name + ": frame", Kind: "frame", Result: "unknown", Detail: "a callee may modify anything"})
		return
	}
	for k := range s.mem {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		if strings.HasPrefix(k, "it:") {
			continue
		}
		m := s.mem[k]
		arity, srt := t.regArity[k], t.regSort[k]
		old := t.entrySnap.region(t, k, arity, srt)
		if m == old {
			continue
		}
		args := make([]*Term, arity)
		pre := b.True
		for i := range args {
			sy := b.NewSym("fr", SInt, 0)
			if i == 0 {
				sy.clock = t.entryMark.clock - 1
				if !strings.HasPrefix(k, "gh:") {
					sy.ref = true
				} else {
					// ghost arguments are arbitrary, references among them existed at entry
					sy.ref = true
				}
			}
			args[i] = b.App(sy)
		}
		_ = pre
		ok := b.False
		for _, l := range allowed[k] {
			if l.cond == nil {
				ok = b.True
			} else {
				ok = b.Or(ok, l.cond(args))
			}
		}
		if ok == b.True {
			continue
		}
		g := b.Or(ok, b.Eq(m.read(b, args), old.read(b, args)))
		if g == b.True {
			t.record(&Obligation{Name: t.name + ": frame " + k, Kind: "frame", OK: true, Result: "unsat"})
			continue
		}
		t.prove(s, g, "frame", "frame "+k, "only the locations in modifies change")
	}
}

func tmo() int {
	if thoroughMode {
		return 60000
	}
	return 20000
}
