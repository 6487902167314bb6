package main

// Validity queries: ground instantiation of quantified hypotheses, facts of base symbols, SMT-LIB emission,
// and a persistent z3 process with one-shot cvc5 / z3-4.8 as a second opinion.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	RUnsat Result = iota
	RSat
	RUnknown
)

func (r Result) String() string { return []string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	b         *TB
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *bufio.Reader
	cache     map[string]Result
	Queries   int
	Time      time.Duration
	ByBack    map[string]int
	instCap   int
	rounds    int
	axioms    []*Term // global axioms (spec)
	debug     bool
	native    bool
	strictSat bool // a model of the quantified hypotheses needs a second opinion
	lastTime  time.Duration
	lastGoal  *Term
	lastSMT   string
	boxAr     map[string]int
	patMemo   map[*Term][]*Term
	skMemo    map[*Term]*Term
	instMem   map[string]*Term
}

var totalQueries int64

func NewSolver(b *TB) *Solver {
	return &Solver{b: b, cache: map[string]Result{}, ByBack: map[string]int{}, instCap: 400, rounds: 4, boxAr: map[string]int{},
		patMemo: map[*Term][]*Term{}, skMemo: map[*Term]*Term{}, instMem: map[string]*Term{}}
}

func (s *Solver) start() error {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	s.out = bufio.NewReaderSize(o, 1<<20)
	return s.cmd.Start()
}
func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Valid: do the assumptions imply the goal?
func (s *Solver) Valid(pc []*Term, goal *Term, timeoutMS int, effort int) Result {
	if goal == s.b.True {
		return RUnsat
	}
	parts := s.b.conjuncts(goal, 3)
	for i, g := range parts {
		if g == s.b.True {
			continue
		}
		if s.witness(pc, g, timeoutMS, effort) {
			continue
		}
		as := append(append([]*Term{}, pc...), s.b.Not(g))
		r := s.Check(as, timeoutMS, effort)
		if s.debug {
			if r != RUnsat && os.Getenv("GCV_DUMP") != "" {
				os.WriteFile("/tmp/gcv_fail.smt2", []byte(s.lastSMT), 0644)
			}
			fmt.Printf("  query %d/%d: %v size %d time %.2fs\n", i+1, len(parts), r, len(s.lastSMT), s.lastTime.Seconds())
		}
		if r != RUnsat {
			s.lastGoal = g
			return r
		}
	}
	return RUnsat
}

// witness tries to prove an existential goal by naming a witness that occurs in the path condition.
func (s *Solver) witness(pc []*Term, g *Term, timeoutMS, effort int) bool {
	b := s.b
	ds := []*Term{g}
	if g.op == OOr {
		ds = g.args
	}
	var ex *Term
	var rest []*Term
	for _, d := range ds {
		if ex == nil && d.op == ONot && d.args[0].op == OForall && len(d.args[0].bv) == 1 {
			ex = d.args[0]
		} else {
			rest = append(rest, d)
		}
	}
	if ex == nil {
		return false
	}
	q := &query{s: s, strict: true, uf: map[*Term]*Term{}, aset: map[*Term]bool{}, seen: map[*Term]int{}, gset: map[*Term]bool{}, bySym: map[*Sym][]*Term{},
		fset: map[*Term]int{}, insts: map[string]bool{}, ninst: map[*Term]int{}, facted: map[*Term]bool{}}
	as := append(append([]*Term{}, pc...), b.Not(g))
	for _, a := range as {
		q.walk(a, 1)
	}
	seen := map[*Term]bool{}
	var cands []*Term
	for _, p := range s.patterns(ex) {
		for _, gt := range q.bySym[p.sym] {
			sub := map[*Term]*Term{}
			ok := true
			for i := range p.args {
				if sub, ok = q.match(p.args[i], gt.args[i], sub); !ok {
					break
				}
			}
			if c := sub[ex.bv[0]]; ok && c != nil && !seen[c] {
				seen[c] = true
				cands = append(cands, c)
			}
		}
	}
	for i := len(cands) - 1; i >= 0 && i >= len(cands)-4; i-- {
		c := cands[i]
		x := b.Or(append([]*Term{b.Not(b.Subst(ex.args[0], map[*Term]*Term{ex.bv[0]: c}))}, rest...)...)
		if s.Valid(pc, x, min(timeoutMS, 4000), 1) == RUnsat {
			return true
		}
	}
	return false
}

// conjuncts splits a goal into goals that together are equivalent to it.
func (b *TB) conjuncts(g *Term, d int) []*Term {
	if d == 0 {
		return []*Term{g}
	}
	switch g.op {
	case OAnd:
		var r []*Term
		for _, a := range g.args {
			r = append(r, b.conjuncts(a, d)...)
		}
		return r
	case OOr:
		for i, a := range g.args {
			if a.op != OAnd {
				continue
			}
			var rest []*Term
			for j, x := range g.args {
				if j != i {
					rest = append(rest, x)
				}
			}
			var r []*Term
			for _, x := range a.args {
				r = append(r, b.conjuncts(b.Or(append([]*Term{x}, rest...)...), d-1)...)
			}
			return r
		}
	case OIff:
		return append(b.conjuncts(b.Implies(g.args[0], g.args[1]), d-1), b.conjuncts(b.Implies(g.args[1], g.args[0]), d-1)...)
	}
	return []*Term{g}
}

func key(as []*Term) string {
	ids := make([]int, len(as))
	for i, a := range as {
		ids[i] = a.id
	}
	sort.Ints(ids)
	var sb strings.Builder
	p := -1
	for _, i := range ids {
		if i != p {
			fmt.Fprintf(&sb, "%d,", i)
		}
		p = i
	}
	return sb.String()
}

// Check: effort 1 tries the cheap instantiation levels only, effort 2 everything.
func (s *Solver) Check(as []*Term, timeoutMS int, effort int) Result {
	for _, a := range as {
		if a == s.b.False {
			return RUnsat
		}
	}
	k := key(as)
	if effort < 2 {
		if r, ok := s.cache[k]; ok && r == RUnsat {
			return r
		}
		k = fmt.Sprintf("q%d,", effort) + k
	}
	if r, ok := s.cache[k]; ok {
		return r
	}
	t0 := time.Now()
	r := s.check(as, timeoutMS, effort)
	s.lastTime = time.Since(t0)
	s.Time += s.lastTime
	s.Queries++
	atomic.AddInt64(&totalQueries, 1)
	s.cache[k] = r
	return r
}

type query struct {
	extra   []*Term // facts about every cell of a region, for solvers that take quantifiers
	s       *Solver
	strict  bool
	cap     int
	eqs     []*Term
	uf      map[*Term]*Term
	asserts []*Term
	aset    map[*Term]bool
	seen    map[*Term]int // polarity bits 1=pos 2=neg
	ground  []*Term
	gset    map[*Term]bool
	bySym   map[*Sym][]*Term
	foralls []*Term // positive ones, in order
	fset    map[*Term]int
	insts   map[string]bool
	ninst   map[*Term]int
	facted  map[*Term]bool
	work    []*Term
}

func (q *query) assert(t *Term) {
	if t == q.s.b.True || q.aset[t] {
		return
	}
	q.aset[t] = true
	q.asserts = append(q.asserts, t)
	q.walk(t, 1)
}

func (q *query) walk(t *Term, pol int) {
	if t.bound {
		return
	}
	if q.seen[t]&pol == pol {
		return
	}
	first := q.seen[t] == 0
	q.seen[t] |= pol
	switch t.op {
	case ONot:
		q.walk(t.args[0], flip(pol))
		return
	case OAnd, OOr:
		for _, a := range t.args {
			q.walk(a, pol)
		}
		return
	case OIff:
		for _, a := range t.args {
			q.walk(a, 3)
		}
		return
	case OIte:
		q.walk(t.args[0], 3)
		q.walk(t.args[1], pol)
		q.walk(t.args[2], pol)
		return
	case OForall:
		old := q.fset[t]
		q.fset[t] |= pol
		if pol&1 != 0 && old&1 == 0 {
			q.foralls = append(q.foralls, t)
		}
		if pol&2 != 0 && old&2 == 0 {
			// not p => not body[sk]
			q.assert(q.s.b.Or(t, q.s.b.Not(q.s.skolem(t))))
		}
		// ground subterms inside the body are useful for matching
		if first {
			q.groundIn(t.args[0], map[*Term]bool{})
		}
		return
	}
	if t.op == OEq0 && t.args[0].op == OLin && len(t.args[0].args) == 1 && t.args[0].coefs[0].CmpAbs(big1) == 0 {
		// an equation with a string literal
		l := t.args[0]
		c := q.s.b.Big(new(big.Int).Abs(l.c))
		if str, ok := q.s.b.StrLit(c); ok && l.c.Sign() != 0 {
			b := q.s.b
			if sy, ok := b.symtab["blen"]; ok {
				q.walk(b.App(sy, c), 3)
			}
			if sy, ok := b.symtab["bat"]; ok && len(str) <= 16 {
				for i := 0; i < len(str); i++ {
					x := b.App(sy, c, b.Int(int64(i)))
					q.assert(b.mk(&Term{op: OEq0, sort: SBool, args: []*Term{b.Sub(x, b.Int(int64(str[i])))}}))
				}
			}
		}
	}
	for _, a := range t.args {
		q.walk(a, 3)
	}
	if t.op == OApp && !q.gset[t] {
		q.addGround(t)
	}
}

func (q *query) groundIn(t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if !t.bound {
		q.walk(t, 3)
		return
	}
	for _, a := range t.args {
		q.groundIn(a, seen)
	}
}

func (q *query) addGround(t *Term) {
	q.gset[t] = true
	q.ground = append(q.ground, t)
	q.bySym[t.sym] = append(q.bySym[t.sym], t)
	q.work = append(q.work, t)
}

func flip(p int) int {
	r := 0
	if p&1 != 0 {
		r |= 2
	}
	if p&2 != 0 {
		r |= 1
	}
	return r
}

func (s *Solver) skolem(f *Term) *Term {
	if t, ok := s.skMemo[f]; ok {
		return t
	}
	m := map[*Term]*Term{}
	for _, v := range f.bv {
		sk := s.b.NewSym("sk_"+strings.TrimPrefix(v.sym.name, "?"), SInt, 0)
		// a skolem constant denotes any existing value
		m[v] = s.b.App(sk)
	}
	t := s.b.Subst(f.args[0], m)
	s.skMemo[f] = t
	return t
}

func (q *query) factsOf(t *Term) {
	b := q.s.b
	sy := t.sym
	if sy.lo != nil {
		q.assert(b.mk(&Term{op: OLe0, sort: SBool, args: []*Term{b.Sub(b.Big(sy.lo), t)}}))
	} else if sy.ref {
		q.assert(b.mk(&Term{op: OLe0, sort: SBool, args: []*Term{b.Sub(b.Zero, t)}}))
	}
	if sy.hi != nil {
		q.assert(b.mk(&Term{op: OLe0, sort: SBool, args: []*Term{b.Sub(t, b.Big(sy.hi))}}))
	}
	if sy.facts != nil {
		for _, f := range sy.facts(t) {
			q.assert(f)
		}
	}
	if strings.HasPrefix(sy.name, "box_") {
		n := strings.TrimPrefix(sy.name, "box_")
		ty := b.App(b.Fn("typeof", SInt, 1), t)
		q.assert(b.mk(&Term{op: OEq0, sort: SBool, args: []*Term{b.Sub(ty, b.Int(b.typeID(n)))}}))
		q.assert(b.Lt(b.Zero, t))
		q.s.boxAr[n] = len(t.args)
		if len(t.args) == 1 && t.args[0].op == OApp && t.args[0].sym.name == "unbox_0_"+n {
			return
		}
		for i, a := range t.args {
			u := b.App(b.Fn(fmt.Sprintf("unbox_%d_%s", i, n), a.sort, 1), t)
			if a.sort == SInt {
				q.assert(b.mk(&Term{op: OEq0, sort: SBool, args: []*Term{b.Sub(u, a)}}))
			} else {
				q.assert(b.mk(&Term{op: OIff, sort: SBool, args: []*Term{u, a}}))
			}
		}
	}
	if sy.name == "typeof" {
		x := t.args[0]
		q.assert(b.Iff(b.Eq(x, b.Zero), b.mk(&Term{op: OEq0, sort: SBool, args: []*Term{t}})))
	}
	if strings.HasPrefix(sy.name, "unbox_") {
		p := strings.SplitN(sy.name, "_", 3)
		if ar, ok := q.s.boxAr[p[2]]; ok || true {
			if !ok {
				ar = 1
				if p[1] != "0" {
					return
				}
			}
			x := t.args[0]
			if ar == 1 && !(x.op == OApp && x.sym.name == "box_"+p[2]) {
				bx := b.App(b.Fn("box_"+p[2], SInt, ar), t)
				ty := b.AppS(b.Fn("typeof", SInt, 1), x)
				q.assert(b.Implies(b.Eq(ty, b.Int(b.typeID(p[2]))), b.mk(&Term{op: OEq0, sort: SBool, args: []*Term{b.Sub(bx, x)}})))
			}
		}
	}
	if tk, ok := tokOf(t); ok {
		bl := b.App(b.Fn("blen", SInt, 1), t)
		if tk.kind == "bytes" {
			q.assert(b.mk(&Term{op: OEq0, sort: SBool, args: []*Term{b.Sub(bl, tk.n)}}))
			i := b.FreshBoundMemo("tok", t)
			bat := b.App(b.Fn("bat", SInt, 2), t, i)
			q.assert(b.Forall([]*Term{i}, b.Implies(b.And(b.Le(b.Zero, i), b.Lt(i, tk.n)), b.Eq(bat, tk.at(i)))))
		}
		if tk.kind == "map" {
			k := b.FreshBoundMemo("mtok", t)
			q.assert(b.Forall([]*Term{k}, b.Iff(b.App(b.Fn("mdom", SBool, 2), t, k), tk.dom(k))))
			for i, v := range tk.val(k) {
				q.assert(b.Forall([]*Term{k}, b.Implies(tk.dom(k), b.Eq(b.App(b.Fn(fmt.Sprintf("mval%d", i), v.sort, 2), t, k), v))))
			}
			q.assert(b.Iff(b.App(b.Fn("mnil", SBool, 1), t), tk.nilm))
		}
	}
}

// A token stands for the contents of a byte slice or a map at one moment; equal contents, equal tokens.
type tokInfo struct {
	kind string // bytes, map
	n    *Term
	at   func(i *Term) *Term
	// maps
	nilm *Term
	dom  func(k *Term) *Term
	val  func(k *Term) []*Term
}

func tokOf(t *Term) (*tokInfo, bool) {
	if t.tok == nil {
		return nil, false
	}
	k, ok := t.tok.(*tokInfo)
	return k, ok
}

func (b *TB) FreshBoundMemo(n string, t *Term) *Term {
	k := fmt.Sprintf("?%s#%d", n, t.id)
	if s, ok := b.symtab[k]; ok {
		return b.App(s)
	}
	s := &Sym{name: k, sort: SInt, bound: true}
	b.symtab[k] = s
	return b.App(s)
}

// extensionality between byte strings and between map values that are compared in the query or are
// arguments of the same function
func (q *query) extensionality(done map[string]bool) bool {
	b := q.s.b
	added := false
	blen, bat := b.Fn("blen", SInt, 1), b.Fn("bat", SInt, 2)
	pair := func(x, y *Term) {
		tx, xc := tokOf(x)
		ty, yc := tokOf(y)
		if !xc && !yc || x == y {
			return
		}
		if x.id > y.id {
			x, y, tx, ty, xc, yc = y, x, ty, tx, yc, xc
		}
		isMap := xc && tx.kind == "map" || yc && ty.kind == "map"
		kk := fmt.Sprintf("s%d-%d", x.id, y.id)
		if done[kk] {
			return
		}
		done[kk] = true
		added = true
		eq := b.mk(&Term{op: OEq0, sort: SBool, args: []*Term{b.Sub(x, y)}})
		k := b.App(b.Fn("ext_"+kk, SInt, 0))
		if !isMap {
			q.assert(b.Or(eq, b.Ne(b.App(blen, x), b.App(blen, y)),
				b.And(b.Le(b.Zero, k), b.Lt(k, b.App(blen, x)), b.Ne(b.App(bat, x, k), b.App(bat, y, k)))))
			return
		}
		if !xc || !yc {
			return
		}
		dx, dy := tx.dom(k), ty.dom(k)
		alts := []*Term{eq, b.Not(b.Iff(dx, dy)), b.Not(b.Iff(tx.nilm, ty.nilm))}
		vx, vy := tx.val(k), ty.val(k)
		for j := range vx {
			alts = append(alts, b.And(dx, b.Not(b.Eq(vx[j], vy[j]))))
		}
		q.assert(b.Or(alts...))
	}
	for t := range q.seen {
		if t.op == OEq0 && t.args[0].op == OLin && len(t.args[0].args) == 2 && !t.bound {
			q.eqs = append(q.eqs, t)
		}
	}
	sort.Slice(q.eqs, func(i, j int) bool { return q.eqs[i].id < q.eqs[j].id })
	for _, t := range q.eqs {
		pair(t.args[0].args[0], t.args[0].args[1])
	}
	q.eqs = nil
	var syms []*Sym
	for sy := range q.bySym {
		if sy != blen && sy != bat && len(q.bySym[sy]) > 1 {
			syms = append(syms, sy)
		}
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i].name < syms[j].name })
	for _, sy := range syms {
		gs := q.bySym[sy]
		for i, x := range gs {
			for _, y := range gs[i+1:] {
				for k := range x.args {
					pair(x.args[k], y.args[k])
				}
			}
		}
	}
	return added
}

func (q *query) drainFacts() {
	for len(q.work) > 0 {
		t := q.work[0]
		q.work = q.work[1:]
		q.factsOf(t)
	}
}

func (s *Solver) patterns(f *Term) []*Term {
	if p, ok := s.patMemo[f]; ok {
		return p
	}
	var pats []*Term
	seen := map[*Term]bool{}
	bv := map[*Term]bool{}
	for _, v := range f.bv {
		bv[v] = true
	}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.op == OApp && !t.sym.bound {
			// usable if every argument is ground or linear in one variable of f
			ok := true
			has := false
			for _, a := range t.args {
				if !a.bound {
					continue
				}
				fb := freeBound(a, nil)
				for v := range fb {
					if !bv[v] {
						ok = false
					} else {
						has = true
					}
				}
			}
			if ok && has {
				pats = append(pats, t)
			}
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(f.args[0])
	s.patMemo[f] = pats
	return pats
}

func (q *query) match(p, g *Term, sub map[*Term]*Term) (map[*Term]*Term, bool) {
	b := q.s.b
	if !p.bound {
		if p == g {
			return sub, true
		}
		if p.sort != g.sort {
			return nil, false
		}
		if q.strict && q.find(p) != q.find(g) || b.Eq(p, g) == b.False {
			return nil, false
		}
		return sub, true
	}
	if p.op == OApp && p.sym.bound {
		if o, ok := sub[p]; ok {
			if q.strict && o != g && q.find(o) != q.find(g) || b.Eq(o, g) == b.False {
				return nil, false
			}
			return sub, true
		}
		n := map[*Term]*Term{p: g}
		for k, v := range sub {
			n[k] = v
		}
		return n, true
	}
	if p.op == OLin {
		var v *Term
		var k *big.Int
		var ra []*Term
		var rc []*big.Int
		for i, a := range p.args {
			if a.bound {
				if v != nil || !(a.op == OApp && a.sym.bound) {
					return nil, false
				}
				v, k = a, p.coefs[i]
			} else {
				ra = append(ra, a)
				rc = append(rc, p.coefs[i])
			}
		}
		if k.CmpAbs(big1) != 0 {
			return nil, false
		}
		rest := b.lin(p.c, ra, rc)
		x := b.Sub(g, rest)
		if k.Sign() < 0 {
			x = b.Sub(rest, g)
		}
		return q.match(v, x, sub)
	}
	if p.op == OApp && g.op == OApp && p.sym == g.sym {
		for i := range p.args {
			var ok bool
			sub, ok = q.match(p.args[i], g.args[i], sub)
			if !ok {
				return nil, false
			}
		}
		return sub, true
	}
	return nil, false
}

// union-find over equalities asserted outright
func (q *query) find(t *Term) *Term {
	r, ok := q.uf[t]
	if !ok || r == t {
		return t
	}
	r = q.find(r)
	q.uf[t] = r
	return r
}
func (q *query) closeEq() {
	b := q.s.b
	q.uf = map[*Term]*Term{}
	for _, a := range q.asserts {
		if a.op != OEq0 {
			continue
		}
		l := a.args[0]
		if l.op == OApp {
			q.uf[q.find(l)] = q.find(b.Zero)
			continue
		}
		if l.op != OLin {
			continue
		}
		switch {
		case len(l.args) == 1 && l.coefs[0].CmpAbs(big1) == 0:
			c := new(big.Int).Mul(l.c, l.coefs[0])
			q.uf[q.find(l.args[0])] = q.find(b.Big(c.Neg(c)))
		case len(l.args) == 2 && l.c.Sign() == 0 && l.coefs[0].CmpAbs(big1) == 0 && new(big.Int).Add(l.coefs[0], l.coefs[1]).Sign() == 0:
			x, y := q.find(l.args[0]), q.find(l.args[1])
			if x != y {
				q.uf[x] = y
			}
		}
	}
}

func (q *query) instantiate() bool {
	s, b := q.s, q.s.b
	if q.strict {
		q.closeEq()
	}
	added := false
	fs := append([]*Term{}, q.foralls...)
	for _, f := range fs {
		pats := s.patterns(f)
		var fullS, partial []map[*Term]*Term
		for _, p := range pats {
			gs := q.bySym[p.sym]
			for _, g := range append([]*Term{}, gs...) {
				sub := map[*Term]*Term{}
				ok := true
				for i := range p.args {
					sub, ok = q.match(p.args[i], g.args[i], sub)
					if !ok {
						break
					}
				}
				if !ok {
					continue
				}
				if len(sub) >= len(f.bv) {
					fullS = append(fullS, sub)
				} else if len(sub) > 0 {
					partial = append(partial, sub)
				}
			}
		}
		if len(f.bv) > 1 && len(partial) > 0 {
			for i, x := range partial {
				for _, y := range partial[i+1:] {
					m := map[*Term]*Term{}
					for k, v := range x {
						m[k] = v
					}
					ok := true
					for k, v := range y {
						if o, h := m[k]; h && o != v {
							ok = false
						}
						m[k] = v
					}
					if ok && len(m) >= len(f.bv) {
						fullS = append(fullS, m)
					}
				}
				if len(fullS) > 400 {
					break
				}
			}
		}
		for _, sub := range fullS {
			if q.ninst[f] >= q.cap {
				break
			}
			var sb strings.Builder
			fmt.Fprintf(&sb, "%d", f.id)
			for _, v := range f.bv {
				fmt.Fprintf(&sb, ":%d", sub[v].id)
			}
			k := sb.String()
			if q.insts[k] {
				continue
			}
			q.insts[k] = true
			q.ninst[f]++
			inst, ok := s.instMem[k]
			if !ok {
				inst = b.Subst(f.args[0], sub)
				s.instMem[k] = inst
			}
			t := b.Or(b.Not(f), inst)
			if !q.aset[t] && t != b.True {
				q.assert(t)
				added = true
			}
		}
	}
	return added
}

// unitProp rewrites assertions with the atoms asserted outright (equivalence preserving).
func (s *Solver) unitProp(as []*Term) []*Term {
	b := s.b
	lits := map[*Term]*Term{}
	var units, rest []*Term
	var add func(t *Term)
	add = func(t *Term) {
		switch t.op {
		case OAnd:
			for _, a := range t.args {
				add(a)
			}
		case OTrue:
		case OOr, OIff, OIte, OFalse:
			rest = append(rest, t)
		default:
			a, v := t, b.True
			if t.op == ONot {
				a, v = t.args[0], b.False
				if a.op == OAnd || a.op == OOr || a.op == OIff || a.op == OIte {
					rest = append(rest, t)
					return
				}
			}
			if o, ok := lits[a]; ok {
				if o != v {
					rest = append(rest, b.False)
				}
				return
			}
			lits[a] = v
			units = append(units, t)
		}
	}
	for _, a := range as {
		add(a)
	}
	for r := 0; r < 5; r++ {
		n := len(units)
		old := rest
		rest = nil
		memo := map[*Term]*Term{}
		ch := false
		for _, t := range old {
			x := b.subst(t, lits, memo)
			if x != t {
				ch = true
			}
			add(x)
		}
		// units themselves may contain decided atoms (if-then-else)
		for i, u := range units[:n] {
			x := u
			neg := u.op == ONot
			if neg {
				x = u.args[0]
			}
			if len(x.args) > 0 {
				na := make([]*Term, len(x.args))
				d := false
				for j, a := range x.args {
					na[j] = b.subst(a, lits, memo)
					d = d || na[j] != a
				}
				if d {
					x = b.rebuild(x, na)
					if neg {
						x = b.Not(x)
					}
					units[i] = b.True
					add(x)
					ch = true
				}
			}
		}
		if !ch && len(units) == n {
			break
		}
	}
	return append(units, rest...)
}

func (s *Solver) build(as []*Term, level int) *query {
	q := &query{strict: level == 1, s: s, aset: map[*Term]bool{}, seen: map[*Term]int{}, gset: map[*Term]bool{}, bySym: map[*Sym][]*Term{},
		fset: map[*Term]int{}, insts: map[string]bool{}, ninst: map[*Term]int{}, facted: map[*Term]bool{}}
	for _, a := range s.unitProp(as) {
		q.assert(a)
	}
	for _, a := range s.axioms {
		q.assert(a)
	}
	q.drainFacts()
	rounds := []int{1, 3, 2, s.rounds, 0}[level]
	full := level > 0
	q.cap = []int{60, s.instCap, 80, s.instCap, 0}[level]
	maxA := []int{1000, 4000, 2000, 6000, 0}[level]
	done := map[string]bool{}
	for r := 0; r < rounds; r++ {
		a := false
		if full {
			a = q.extensionality(done)
		}
		q.drainFacts()
		c := q.instantiate()
		q.drainFacts()
		if !a && !c {
			break
		}
		if len(q.asserts) > maxA {
			break
		}
	}
	// allocation order
	b := s.b
	var allocs, refs []*Term
	for _, t := range q.ground {
		if isAlloc(t) {
			allocs = append(allocs, t)
		} else if t.sym.ref {
			refs = append(refs, t)
		}
	}
	sort.Slice(allocs, func(i, j int) bool { return allocs[i].clock < allocs[j].clock })
	for i := 1; i < len(allocs); i++ {
		q.asserts = append(q.asserts, b.mk(&Term{op: OLe0, sort: SBool, args: []*Term{b.AddC(b.Sub(allocs[i-1], allocs[i]), 1)}}))
	}
	for _, r := range refs {
		i := sort.Search(len(allocs), func(i int) bool { return allocs[i].clock > r.clock })
		if i < len(allocs) {
			q.asserts = append(q.asserts, b.mk(&Term{op: OLe0, sort: SBool, args: []*Term{b.AddC(b.Sub(r, allocs[i]), 1)}}))
		}
	}
	if level == 4 {
		q.quantifiedFacts(allocs)
	}
	return q
}

// quantifiedFacts: what is known of every cell of a memory region, for the regions read under a quantifier.
func (q *query) quantifiedFacts(allocs []*Term) {
	b := q.s.b
	seen := map[*Term]bool{}
	done := map[*Sym]bool{}
	var syms []*Sym
	kinds := map[*Sym][]Sort{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && t.bound && t.sym.heap && len(t.args) > 0 && !done[t.sym] {
			done[t.sym] = true
			syms = append(syms, t.sym)
			for _, a := range t.args {
				kinds[t.sym] = append(kinds[t.sym], a.sort)
			}
		}
		for _, a := range t.args {
			w(a)
		}
	}
	for _, a := range q.asserts {
		w(a)
	}
	le := func(x, y *Term) *Term { return b.mk(&Term{op: OLe0, sort: SBool, args: []*Term{b.Sub(x, y)}}) }
	var out []*Term
	for _, sy := range syms {
		var vs []*Term
		ok := true
		for i, k := range kinds[sy] {
			if k != SInt {
				ok = false
			}
			vs = append(vs, b.FreshBoundMemo("cell", b.Int(int64(i))))
		}
		if !ok {
			continue
		}
		x := b.App(sy, vs...)
		var fs []*Term
		if sy.lo != nil {
			fs = append(fs, le(b.Big(sy.lo), x))
		} else if sy.ref {
			fs = append(fs, le(b.Zero, x))
		}
		if sy.hi != nil {
			fs = append(fs, le(x, b.Big(sy.hi)))
		}
		if sy.facts != nil {
			fs = append(fs, sy.facts(x)...)
		}
		if sy.ref {
			i := sort.Search(len(allocs), func(i int) bool { return allocs[i].clock > sy.clock })
			if i < len(allocs) {
				fs = append(fs, le(b.AddC(x, 1), allocs[i]))
			}
		}
		if len(fs) > 0 {
			out = append(out, b.Forall(vs, b.And(fs...)))
		}
	}
	q.extra = out
}

func (s *Solver) attempt(as []*Term, level, timeoutMS int) Result {
	q := s.build(as, level)
	for _, a := range q.asserts {
		if a == s.b.False {
			return RUnsat
		}
	}
	smt := emit(q.asserts, timeoutMS, false)
	s.lastSMT = smt
	t0 := time.Now()
	r := s.runZ3(smt, timeoutMS)
	if s.debug {
		fmt.Printf("    level %d: %v size %d %.2fs\n", level, r, len(smt), time.Since(t0).Seconds())
	}
	if r == RUnsat {
		s.ByBack["z3-5"]++
	}
	return r
}

func (s *Solver) check(as []*Term, timeoutMS int, effort int) Result {
	// quantified hypotheses handed to the solver as such: a refutation found with them is final
	nativeSat := false
	if s.native {
		q := s.build(as, 4)
		plain := emitQ(nil, q.asserts, 0, false, true)
		smt := emitQ(s.b, append(q.asserts[:len(q.asserts):len(q.asserts)], q.extra...), 0, false, true)
		s.lastSMT = smt
		t0 := time.Now()
		x, back := race(plain, smt, min(3000, timeoutMS), min(8000, timeoutMS))
		if s.debug {
			if d := os.Getenv("GCV_DUMP"); d != "" && x == RUnknown {
				os.WriteFile(fmt.Sprintf("%s/%d.smt2", d, time.Now().UnixNano()), []byte(smt), 0o644)
			}
			fmt.Printf("    native: %v size %d %.2fs\n", x, len(smt), time.Since(t0).Seconds())
		}
		if x == RUnsat {
			s.ByBack[back]++
			return x
		}
		nativeSat = x == RSat
		if nativeSat && effort < 2 && !s.strictSat {
			return x
		}
	}
	// cheap instantiations first: a refutation found with them is final
	tmo := min(3000, timeoutMS)
	if nativeSat {
		tmo = min(1000, timeoutMS)
	}
	r := s.attempt(as, 1, tmo)
	if r == RUnsat {
		return r
	}
	if nativeSat {
		return RSat
	}
	r = s.attempt(as, 2, min(5000, timeoutMS))
	if r == RUnsat {
		return r
	}
	if effort < 2 {
		return r
	}
	level, full := 3, true
	q := s.build(as, level)
	for _, a := range q.asserts {
		if a == s.b.False {
			return RUnsat
		}
	}
	smt := emit(q.asserts, timeoutMS, false)
	s.lastSMT = smt
	r = s.runZ3(smt, timeoutMS)
	if r != RUnknown {
		s.ByBack["z3-5"]++
		return r
	}
	if full {
		// second opinions
		if r := oneShot("cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", timeoutMS)}, smt, timeoutMS); r != RUnknown {
			s.ByBack["cvc5"]++
			return r
		}
		if r := oneShot("z3", []string{"-in", "-smt2", fmt.Sprintf("-T:%d", timeoutMS/1000+1)}, smt, timeoutMS); r != RUnknown {
			s.ByBack["z3-4.8"]++
			return r
		}
	}
	return RUnknown
}

// Model returns (get-model) output for a satisfiable query.
func (s *Solver) Model(as []*Term) string {
	q := s.build(as, 3)
	smt := emit(q.asserts, 10000, true)
	cmd := exec.Command("z3-new", "-in", "-smt2", "-T:20")
	cmd.Stdin = strings.NewReader(smt)
	o, _ := cmd.Output()
	return string(o)
}

// race: several strategies side by side; the first answer counts.
func race(plain, smt string, t1, t2 int) (Result, string) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type answer struct {
		r    Result
		back string
	}
	const plainB, trig = "z3-5 (quantifiers, plain)", "z3-5 (triggers)"
	ch := make(chan answer, 5)
	run := func(delay time.Duration, back string, argv ...string) {
		select {
		case <-ctx.Done():
			ch <- answer{RUnknown, back}
			return
		case <-time.After(delay):
		}
		cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
		if back == plainB {
			cmd.Stdin = strings.NewReader(plain)
		} else {
			cmd.Stdin = strings.NewReader(smt)
		}
		o, _ := cmd.Output()
		r := RUnknown
		switch {
		case strings.HasPrefix(string(o), "unsat"):
			r = RUnsat
		case strings.HasPrefix(string(o), "sat"):
			r = RSat
		}
		ch <- answer{r, back}
	}
	z3 := func(ms int, opts ...string) []string {
		return append([]string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms), fmt.Sprintf("-T:%d", ms/1000+2)}, opts...)
	}
	const d = 300 * time.Millisecond
	go run(0, plainB, z3(t1)...)
	go run(0, trig, z3(t2, "smt.auto_config=false", "smt.mbqi=false", "smt.case_split=1")...)
	go run(0, trig, z3(t2, "smt.auto_config=false", "smt.mbqi=false", "smt.case_split=3")...)
	go run(d, "z3-5 (quantifiers)", z3(t1)...)
	go run(d, "cvc5 (quantifiers)", "cvc5", "-q", "--lang=smt2", fmt.Sprintf("--tlimit=%d", t2))
	// the plain form has a model and matching of triggers ends without a refutation: taken for satisfiable
	plainSat, gaveUp := false, 0
	t0 := time.Now()
	for i := 0; i < 5; i++ {
		a := <-ch
		switch {
		case a.r == RUnsat || a.r == RSat && a.back != plainB:
			return a.r, a.back
		case a.r == RSat:
			plainSat = true
		case a.back == trig && time.Since(t0) < time.Duration(t2)*time.Millisecond*9/10:
			gaveUp++
		}
		if plainSat && gaveUp == 2 {
			return RSat, plainB
		}
	}
	return RUnknown, ""
}

func oneShot(bin string, args []string, smt string, timeoutMS int) Result {
	cmd := exec.Command(bin, args...)
	cmd.Stdin = strings.NewReader(smt)
	done := time.AfterFunc(time.Duration(timeoutMS+3000)*time.Millisecond, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	o, _ := cmd.Output()
	done.Stop()
	switch {
	case strings.HasPrefix(string(o), "unsat"):
		return RUnsat
	case strings.HasPrefix(string(o), "sat"):
		return RSat
	}
	return RUnknown
}

func (s *Solver) runZ3(smt string, timeoutMS int) Result {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			fmt.Fprintln(os.Stderr, "cannot start z3-new:", err)
			os.Exit(3)
		}
	}
	cmd := s.cmd
	timer := time.AfterFunc(time.Duration(timeoutMS*2+5000)*time.Millisecond, func() { cmd.Process.Kill() })
	defer timer.Stop()
	io.WriteString(s.in, "(reset)\n"+smt+"(echo \"#done\")\n")
	res := RUnknown
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			return RUnknown
		}
		line = strings.TrimSpace(line)
		switch {
		case line == "unsat":
			res = RUnsat
		case line == "sat":
			res = RSat
		case line == "#done":
			return res
		case strings.HasPrefix(line, "(error"):
			fmt.Fprintln(os.Stderr, "z3:", line)
			if os.Getenv("GCV_DUMP") != "" {
				os.WriteFile("/tmp/gcv_err.smt2", []byte(smt), 0644)
			}
		}
	}
}

func smtName(n string) string { return "|" + strings.ReplaceAll(n, "|", "!") + "|" }

func emit(asserts []*Term, timeoutMS int, model bool) string {
	return emitQ(nil, asserts, timeoutMS, model, false)
}

// matchable gives bodies equivalent to the body of the quantifier in which the variables are likelier to
// occur as direct arguments: conditionals are decided by the guards, and x[off+i] is read at i by a change
// of the variable.
func (b *TB) matchable(t *Term) []*Term {
	if strings.HasPrefix(t.bv[0].sym.name, "?cell") {
		return []*Term{t.args[0]}
	}
	body := b.underGuards(t.args[0])
	offs := map[*Term][]*Term{}
	bv := map[*Term]bool{}
	for _, v := range t.bv {
		bv[v] = true
	}
	seen := map[*Term]bool{}
	n := 1
	add := func(v, o *Term) {
		for _, x := range offs[v] {
			if x == o {
				return
			}
		}
		offs[v] = append(offs[v], o)
		n = max(n, len(offs[v]))
	}
	var w func(x *Term)
	w = func(x *Term) {
		if seen[x] || !x.bound {
			return
		}
		seen[x] = true
		if x.op == OApp && !x.sym.bound {
			for _, a := range x.args {
				if bv[a] {
					add(a, b.Zero)
				}
				if a.op != OLin {
					continue
				}
				for j, v := range a.args {
					if !bv[v] || a.coefs[j].Cmp(big1) != 0 {
						continue
					}
					o := b.Sub(a, v)
					if fb := freeBound(o, nil); fb[v] {
						continue
					}
					// one variable at a time
					shared := false
					for u := range freeBound(o, nil) {
						for _, y := range a.args {
							if y == u && bv[u] {
								shared = true
							}
						}
					}
					if !shared {
						add(v, o)
					}
				}
			}
		}
		for _, a := range x.args {
			w(a)
		}
	}
	w(body)
	n = min(n, 4)
	var out []*Term
	done := map[*Term]bool{}
	for k := 0; k < n; k++ {
		f := body
		for _, v := range t.bv {
			if os := offs[v]; len(os) > 0 {
				if o := os[min(k, len(os)-1)]; o != b.Zero {
					f = b.Subst(f, map[*Term]*Term{v: b.Sub(v, o)})
				}
			}
		}
		if !done[f] {
			done[f] = true
			out = append(out, f)
		}
	}
	return out
}

// underGuards simplifies each disjunct by the negation of the others.
func (b *TB) underGuards(t *Term) *Term {
	if t.op != OOr {
		return t
	}
	// a conjunction whose atoms serve as facts for the conjuncts with conditionals
	conj := func(x *Term) []*Term {
		if x.op == OAnd {
			return x.args
		}
		return []*Term{x}
	}
	facts := map[*Term]*Term{}
	src := map[*Term]int{}
	for i, a := range t.args {
		if a.op == ONot {
			for _, c := range conj(a.args[0]) {
				if c.op == ONot {
					facts[c.args[0]], src[c.args[0]] = b.False, i
				} else {
					facts[c], src[c] = b.True, i
				}
			}
		} else if a.op != OAnd && a.op != OOr && a.op != OForall {
			facts[a], src[a] = b.False, i
		}
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		m := map[*Term]*Term{}
		for f, v := range facts {
			if src[f] != i {
				m[f] = v
			}
		}
		if a.op != ONot {
			args[i] = b.Subst(a, m)
			continue
		}
		cs := conj(a.args[0])
		m2 := map[*Term]*Term{}
		for f, v := range m {
			m2[f] = v
		}
		for _, c := range cs {
			if !hasIte(c) {
				if c.op == ONot {
					m2[c.args[0]] = b.False
				} else {
					m2[c] = b.True
				}
			}
		}
		nc := make([]*Term, len(cs))
		for j, c := range cs {
			if hasIte(c) {
				nc[j] = b.Subst(c, m2)
			} else {
				nc[j] = b.Subst(c, m)
			}
		}
		args[i] = b.Not(b.And(nc...))
	}
	return b.Or(args...)
}

func hasIte(t *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OIte {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// emitQ: with native set, quantified hypotheses are also handed to the solver as such.
func emitQ(b *TB, asserts []*Term, timeoutMS int, model, native bool) string {
	var sb strings.Builder
	if model {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	if timeoutMS > 0 {
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeoutMS)
	}
	sb.WriteString("(set-logic ALL)\n")
	decl := map[string]bool{}
	done := map[*Term]string{}
	var out strings.Builder
	srt := func(s Sort) string {
		if s == SBool {
			return "Bool"
		}
		return "Int"
	}
	num := func(c *big.Int) string {
		if c.Sign() < 0 {
			return "(- " + new(big.Int).Neg(c).String() + ")"
		}
		return c.String()
	}
	// reference counts for sharing
	rc := map[*Term]int{}
	var cnt func(t *Term)
	cnt = func(t *Term) {
		rc[t]++
		if rc[t] > 1 || t.op == OForall {
			return
		}
		for _, a := range t.args {
			cnt(a)
		}
	}
	for _, a := range asserts {
		cnt(a)
	}
	nd := 0
	var qs []*Term
	tooBig := false
	var pr func(t *Term) string
	pr = func(t *Term) string {
		if n, ok := done[t]; ok {
			return n
		}
		var e string
		switch t.op {
		case OConst:
			return num(t.c)
		case OTrue:
			return "true"
		case OFalse:
			return "false"
		case OApp:
			n := smtName(t.sym.name)
			if !decl[n] && !t.sym.bound {
				decl[n] = true
				fmt.Fprintf(&sb, "(declare-fun %s (", n)
				for i, a := range t.args {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(srt(a.sort))
				}
				fmt.Fprintf(&sb, ") %s)\n", srt(t.sort))
			}
			if len(t.args) == 0 {
				done[t] = n
				return n
			}
			var p []string
			for _, a := range t.args {
				p = append(p, pr(a))
			}
			e = "(" + n + " " + strings.Join(p, " ") + ")"
		case OLin:
			var p []string
			for i, a := range t.args {
				k := t.coefs[i]
				if k.Cmp(big1) == 0 {
					p = append(p, pr(a))
				} else {
					p = append(p, "(* "+num(k)+" "+pr(a)+")")
				}
			}
			if t.c.Sign() != 0 {
				p = append(p, num(t.c))
			}
			if len(p) == 1 {
				e = p[0]
			} else {
				e = "(+ " + strings.Join(p, " ") + ")"
			}
		case ODiv:
			e = "(div " + pr(t.args[0]) + " " + num(t.c) + ")"
		case OMod:
			e = "(mod " + pr(t.args[0]) + " " + num(t.c) + ")"
		case OMul:
			e = "(* " + pr(t.args[0]) + " " + pr(t.args[1]) + ")"
		case OLe0:
			// split positive and negative parts for readability
			e = leStr(t.args[0], "<=", pr, num)
		case OEq0:
			e = leStr(t.args[0], "=", pr, num)
		case OIff:
			e = "(= " + pr(t.args[0]) + " " + pr(t.args[1]) + ")"
		case ONot:
			e = "(not " + pr(t.args[0]) + ")"
		case OAnd, OOr:
			var p []string
			for _, a := range t.args {
				p = append(p, pr(a))
			}
			op := "and"
			if t.op == OOr {
				op = "or"
			}
			e = "(" + op + " " + strings.Join(p, " ") + ")"
		case OIte:
			e = "(ite " + pr(t.args[0]) + " " + pr(t.args[1]) + " " + pr(t.args[2]) + ")"
		case OForall:
			if t.bound {
				e = "(forall ("
				for _, v := range t.bv {
					e += "(" + smtName(v.sym.name) + " Int)"
				}
				e += ") " + pr(t.args[0]) + ")"
				break
			}
			n := fmt.Sprintf("|forall#%d|", t.id)
			if !decl[n] {
				decl[n] = true
				fmt.Fprintf(&sb, "(declare-fun %s () Bool)\n", n)
				if native {
					qs = append(qs, t)
				}
			}
			done[t] = n
			return n
		}
		if t.bound {
			if len(e) > 20000 {
				tooBig = true
				e = "0"
				if t.sort == SBool {
					e = "true"
				}
			}
			done[t] = e
			return e
		}
		if rc[t] > 1 {
			nd++
			n := fmt.Sprintf("$%d", nd)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, srt(t.sort), e)
			done[t] = n
			return n
		}
		return e
	}
	for _, a := range asserts {
		e := pr(a)
		fmt.Fprintf(&sb, "(assert %s)\n", e)
	}
	for i := 0; i < len(qs); i++ {
		t := qs[i]
		fs := []*Term{t.args[0]}
		if b != nil {
			fs = b.matchable(t)
		}
		for _, f := range fs {
			tooBig = false
			body := pr(f)
			if tooBig {
				continue
			}
			fmt.Fprintf(&sb, "(assert (=> |forall#%d| (forall (", t.id)
			for _, v := range t.bv {
				fmt.Fprintf(&sb, "(%s Int)", smtName(v.sym.name))
			}
			fmt.Fprintf(&sb, ") %s)))\n", body)
		}
	}
	_ = out
	sb.WriteString("(check-sat)\n")
	if model {
		sb.WriteString("(get-model)\n")
	}
	return sb.String()
}

func leStr(t *Term, op string, pr func(*Term) string, num func(*big.Int) string) string {
	if t.op != OLin {
		return "(" + op + " " + pr(t) + " 0)"
	}
	var l, r []string
	for i, a := range t.args {
		k := t.coefs[i]
		s := pr(a)
		ab := new(big.Int).Abs(k)
		if ab.Cmp(big1) != 0 {
			s = "(* " + ab.String() + " " + s + ")"
		}
		if k.Sign() > 0 {
			l = append(l, s)
		} else {
			r = append(r, s)
		}
	}
	if t.c.Sign() > 0 {
		l = append(l, t.c.String())
	} else if t.c.Sign() < 0 {
		r = append(r, new(big.Int).Neg(t.c).String())
	}
	j := func(p []string) string {
		switch len(p) {
		case 0:
			return "0"
		case 1:
			return p[0]
		}
		return "(+ " + strings.Join(p, " ") + ")"
	}
	return "(" + op + " " + j(l) + " " + j(r) + ")"
}
