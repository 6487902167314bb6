package main

// Joining of paths: the two arms of a branch are explored up to the point where they meet again,
// and the states arriving there are merged into one (values become conditional terms).

import (
	"golang.org/x/tools/go/ssa"
)

type joinPt struct {
	block *ssa.BasicBlock
	depth int
}

type mergeEp struct {
	sel  *Term
	a, b *Snapshot
}

// ipdoms: immediate post-dominators on the normal control flow (blocks that only panic are ignored).
func ipdoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	panics := make([]bool, n)
	for ch := true; ch; {
		ch = false
		for i, b := range fn.Blocks {
			if panics[i] {
				continue
			}
			p := false
			if len(b.Succs) == 0 {
				_, p = b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
			} else {
				p = true
				for _, s := range b.Succs {
					if !panics[s.Index] {
						p = false
					}
				}
			}
			if p {
				panics[i] = true
				ch = true
			}
		}
	}
	// sets of post-dominators; n is the virtual exit
	pd := make([]map[int]bool, n)
	full := func() map[int]bool {
		m := map[int]bool{}
		for i := 0; i <= n; i++ {
			m[i] = true
		}
		return m
	}
	for i := range pd {
		pd[i] = full()
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			var m map[int]bool
			if len(b.Succs) == 0 {
				m = map[int]bool{n: true}
			} else {
				for _, s := range b.Succs {
					if panics[s.Index] {
						continue
					}
					if m == nil {
						m = map[int]bool{}
						for k := range pd[s.Index] {
							m[k] = true
						}
					} else {
						for k := range m {
							if !pd[s.Index][k] {
								delete(m, k)
							}
						}
					}
				}
				if m == nil {
					m = map[int]bool{n: true}
				}
			}
			m[i] = true
			if len(m) != len(pd[i]) {
				pd[i] = m
				ch = true
			}
		}
	}
	r := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		// the nearest strict post-dominator has the most post-dominators itself
		best, bn := -1, -1
		for k := range pd[i] {
			if k == i || k == n {
				continue
			}
			if len(pd[k]) > bn {
				best, bn = k, len(pd[k])
			}
		}
		if best >= 0 {
			r[b] = fn.Blocks[best]
		}
	}
	return r
}

func (t *Task) joinOf(fn *ssa.Function, b *ssa.BasicBlock) *ssa.BasicBlock {
	if t.ipd == nil {
		t.ipd = map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}
	}
	m, ok := t.ipd[fn]
	if !ok {
		m = ipdoms(fn)
		t.ipd[fn] = m
	}
	if m[b] != nil || len(b.Succs) != 2 {
		return m[b]
	}
	// an arm that leaves the function: the first block that both arms may reach
	reach := func(from *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(x *ssa.BasicBlock)
		walk = func(x *ssa.BasicBlock) {
			if seen[x] || x.Dominates(b) {
				return
			}
			seen[x] = true
			for _, y := range x.Succs {
				walk(y)
			}
		}
		walk(from)
		return seen
	}
	p, q := reach(b.Succs[0]), reach(b.Succs[1])
	var best *ssa.BasicBlock
	for x := range p {
		if !q[x] {
			continue
		}
		// x comes first when it reaches every other common block
		r := reach(x)
		first := true
		for y := range p {
			if q[y] && !r[y] {
				first = false
			}
		}
		if first && (best == nil || x.Index < best.Index) && !(best != nil && reach(best)[x] && !r[best]) {
			best = x
		}
	}
	m[b] = best
	return best
}

// joinBranch explores both arms of a branch and merges the states where they meet.
// It reports false when the branch cannot be treated that way.
func (t *Task) joinBranch(st, yes, no *State) bool {
	f := yes.top()
	j := t.joinOf(f.fn, f.block)
	if j == nil {
		return false
	}
	if _, isLoop := t.loopsOf(f.fn)[j]; isLoop {
		return false
	}
	if len(f.loops) > 0 && !f.loops[len(f.loops)-1].blocks[j] {
		return false
	}
	depth := len(yes.frames) - 1
	a, o := yes.fork(), no.fork()
	save := t.work
	jp := joinPt{j, depth}
	var joined, rest []*State
	for _, s := range []*State{a, o} {
		s.joins = append(append([]joinPt{}, s.joins...), jp)
	}
	nj := len(a.joins)
	t.jump(a, a.top().block.Succs[0])
	t.jump(o, o.top().block.Succs[1])
	t.work = []*State{o, a}
	for len(t.work) > 0 {
		s := t.work[len(t.work)-1]
		t.work = t.work[:len(t.work)-1]
		t.npaths++
		if t.npaths > t.maxPaths {
			unsupported("path limit exceeded (%d)", t.maxPaths)
		}
		kind := t.runPath(s)
		if kind == "dead" {
			continue
		}
		if kind == "join" && len(s.joins) == nj {
			s.term = ""
			s.joins = s.joins[:nj-1]
			joined = append(joined, s)
		} else {
			rest = append(rest, s)
		}
	}
	t.work = save
	for i := len(rest) - 1; i >= 0; i-- {
		t.push(rest[i])
	}
	var groups []*State
	for _, s := range joined {
		done := false
		for i, g := range groups {
			if m := t.mergeStates(g, s); m != nil {
				groups[i] = m
				done = true
				break
			}
		}
		if !done {
			groups = append(groups, s)
		}
	}
	if len(groups) == 0 {
		st.dead = true
		return true
	}
	for _, g := range groups[1:] {
		t.push(g)
	}
	*st = *groups[0]
	return true
}

func sameVal(x, y Value) bool {
	switch a := x.(type) {
	case *Addr:
		b, ok := y.(*Addr)
		return ok && (a == b || a.kind == b.kind && a.ref == b.ref && a.idx == b.idx && a.path == b.path && a.name == b.name)
	case *SliceV:
		b, ok := y.(*SliceV)
		return ok && *a == *b
	case *StructV:
		b, ok := y.(*StructV)
		if !ok || len(a.f) != len(b.f) {
			return false
		}
		for i := range a.f {
			if !sameVal(a.f[i], b.f[i]) {
				return false
			}
		}
		return true
	case TupleV:
		b, ok := y.(TupleV)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameVal(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	return x == y
}

func (t *Task) mergeVal(sel *Term, x, y Value) (Value, bool) {
	if sameVal(x, y) {
		return x, true
	}
	b := t.b
	switch a := x.(type) {
	case *Term:
		if c, ok := y.(*ClosureV); ok {
			return b.Ite(sel, a, c.id), true
		}
		if c, ok := y.(*Term); ok {
			if a.sort != c.sort {
				return nil, false
			}
			return b.Ite(sel, a, c), true
		}
	case *ClosureV:
		switch c := y.(type) {
		case *ClosureV:
			return b.Ite(sel, a.id, c.id), true
		case *Term:
			return b.Ite(sel, a.id, c), true
		}
	case *SliceV:
		if c, ok := y.(*SliceV); ok {
			return &SliceV{b.Ite(sel, a.arr, c.arr), b.Ite(sel, a.off, c.off), b.Ite(sel, a.len, c.len), b.Ite(sel, a.cap, c.cap)}, true
		}
	case *StructV:
		if c, ok := y.(*StructV); ok && len(a.f) == len(c.f) {
			r := &StructV{typ: a.typ}
			for i := range a.f {
				v, ok := t.mergeVal(sel, a.f[i], c.f[i])
				if !ok {
					return nil, false
				}
				r.f = append(r.f, v)
			}
			return r, true
		}
	case TupleV:
		if c, ok := y.(TupleV); ok && len(a) == len(c) {
			r := TupleV{}
			for i := range a {
				v, ok := t.mergeVal(sel, a[i], c[i])
				if !ok {
					return nil, false
				}
				r = append(r, v)
			}
			return r, true
		}
	}
	return nil, false
}

// mergeStates: one state that stands for both, or nil.
func (t *Task) mergeStates(x, y *State) *State {
	b := t.b
	if x.dead || y.dead || len(x.frames) != len(y.frames) || x.goro != y.goro || (x.panicV != nil) != (y.panicV != nil) || x.panicV != nil || len(x.joins) != len(y.joins) {
		return nil
	}
	if len(x.acqMem) != len(y.acqMem) {
		return nil
	}
	for k, v := range x.acqMem {
		if y.acqMem[k] != v {
			return nil
		}
	}
	for i, f := range x.frames {
		g := y.frames[i]
		if f.fn != g.fn || f.block != g.block || f.ip != g.ip || len(f.defers) != len(g.defers) || len(f.loops) != len(g.loops) || f.unwind != g.unwind || f.unwindSaved != g.unwindSaved {
			return nil
		}
		for k := range f.defers {
			if f.defers[k] != g.defers[k] {
				return nil
			}
		}
	}
	// path conditions
	p, q := x.pc, y.pc
	var rx, ry []*Term
	for p != q {
		if q == nil || p != nil && p.n >= q.n {
			rx = append(rx, p.t)
			p = p.prev
		} else {
			ry = append(ry, q.t)
			q = q.prev
		}
	}
	rev := func(r []*Term) {
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
	}
	rev(rx)
	rev(ry)
	var sel *Term
	if len(rx) > 0 && len(ry) > 0 && rx[0] == b.Not(ry[0]) {
		sel = rx[0]
	} else {
		sel = b.Fresh("way", SBool)
	}
	m := x.fork()
	for i, f := range x.frames {
		g := y.frames[i]
		h := m.frames[i]
		h.env = map[ssa.Value]Value{}
		for k, v := range f.env {
			w, ok := g.env[k]
			if !ok {
				continue
			}
			r, ok := t.mergeVal(sel, v, w)
			if !ok {
				if t.debug {
					println("no merge for", k.Name(), k.String())
				}
				return nil
			}
			h.env[k] = r
		}
	}
	m.pc = p
	under := func(s *Term, r *Term) {
		if r == s {
			return
		}
		if r.op == OForall {
			m.assume(b.forallUnder(s, r))
			return
		}
		m.assume(b.Implies(s, r))
	}
	for _, r := range rx {
		under(sel, r)
	}
	ns := b.Not(sel)
	for _, r := range ry {
		under(ns, r)
	}
	// memory
	mix := func(k string, u, v *Mem) *Mem {
		if u == v {
			return u
		}
		return &Mem{name: k, prev: u, cond: func(a []*Term) *Term { return b.Not(sel) }, val: func(a []*Term) *Term { return v.read(b, a) }}
	}
	names := map[string]bool{}
	for k := range x.mem {
		names[k] = true
	}
	for k := range y.mem {
		names[k] = true
	}
	m.mem = map[string]*Mem{}
	for k := range names {
		if len(k) > 3 && k[:3] == "it:" {
			u, ok1 := x.mem[k]
			v, ok2 := y.mem[k]
			if ok1 && ok2 {
				m.mem[k] = mix(k, u, v)
			} else if ok1 {
				m.mem[k] = u
			} else {
				m.mem[k] = v
			}
			continue
		}
		ar, so := t.regArity[k], t.regSort[k]
		m.mem[k] = mix(k, x.region(k, ar, so), y.region(k, ar, so))
	}
	if x.epoch != y.epoch {
		b.clock++
		t.epochs++
		m.epoch = &epochT{id: t.epochs, clock: b.clock, bases: map[string]*Mem{}, prev: x.epoch, merge: &mergeEp{sel, x.snap(), y.snap()}}
	}
	m.trace = nil
	for i := 0; i < len(x.trace) && i < len(y.trace) && x.trace[i] == y.trace[i]; i++ {
		m.trace = append(m.trace, x.trace[i])
	}
	return m
}
