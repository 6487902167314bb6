package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	Name        string            `json:"name"`
	Obligations int               `json:"obligations"`
	Discharged  int               `json:"discharged"`
	Paths       int               `json:"paths"`
	Queries     int               `json:"queries"`
	SolverS     float64           `json:"solver_s"`
	WallS       float64           `json:"wall_s"`
	LoopInvs    int               `json:"loop_invariants"`
	Inlined     []string          `json:"inlined,omitempty"`
	Contracts   []string          `json:"callee_contracts,omitempty"`
	Pure        []string          `json:"pure_externals,omitempty"`
	Hooks       map[string]int    `json:"hook_events,omitempty"`
	Back        map[string]int    `json:"back_ends,omitempty"`
	Kinds       map[string]int    `json:"kinds,omitempty"`
	Failures    []*Obligation     `json:"failures,omitempty"`
	Slow        map[string]string `json:"-"`
	obls        []*Obligation
}

type Result_ struct {
	Functions   []*FnResult         `json:"functions"`
	Missing     []string            `json:"missing,omitempty"`
	Obligations int                 `json:"obligations"`
	Discharged  int                 `json:"discharged"`
	Failed      int                 `json:"failed"`
	SolverS     float64             `json:"solver_s"`
	Queries     int                 `json:"queries"`
	Load        float64             `json:"load_s"`
	Wall        float64             `json:"wall_s"`
	Back        map[string]int      `json:"back_ends"`
	Externs     []string            `json:"assumed_externals"`
	From        map[string]string   `json:"contracts_from_other_checks"`
	Trusted     map[string]string   `json:"trusted,omitempty"`
	Assumptions []string            `json:"assumptions,omitempty"`
	Specs       []string            `json:"spec_files"`
	Pure        []string            `json:"pure_externals"`
	Axioms      []string            `json:"axioms,omitempty"`
	Stable      []string            `json:"stable_regions,omitempty"`
	kinds       map[string][]string `json:"-"`
}

func keysOf(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (v *Verifier) verifyAll(set *SpecSet, only string, jobs int) *Result_ {
	res := &Result_{Back: map[string]int{}, From: map[string]string{}, Trusted: map[string]string{}, Assumptions: set.assume, Specs: set.loaded}
	var tasks []*Task
	names := append([]string{}, set.order...)
	if len(set.globalInv) > 0 && set.contracts["init"] == nil {
		c := &Contract{name: "init", frameOff: true, mayPanic: true}
		for _, g := range set.globalInv {
			c.ens = append(c.ens, g)
		}
		set.contracts["init"] = c
		names = append(names, "init")
	}
	for _, n := range names {
		c := set.contracts[n]
		if c == nil || c.extern || c.from != "" || c.trusted != "" || (only != "" && n != only) {
			continue
		}
		fn := v.fns[n]
		if fn == nil {
			if c.optional {
				continue
			}
			res.Missing = append(res.Missing, n)
			continue
		}
		tasks = append(tasks, v.newTask(set, c, fn, n))
	}
	sem := make(chan struct{}, jobs)
	var w sync.WaitGroup
	for _, t := range tasks {
		w.Add(1)
		sem <- struct{}{}
		go func(t *Task) {
			defer func() { <-sem; w.Done() }()
			t.run()
		}(t)
	}
	w.Wait()
	ext := map[string]int{}
	pure := map[string]int{}
	for _, t := range tasks {
		f := &FnResult{Name: t.name, Paths: t.npaths, Queries: t.s.Queries, SolverS: t.s.Time.Seconds(), WallS: t.wall, LoopInvs: t.loopInvs, Hooks: t.hookHits, Back: t.s.ByBack, Kinds: map[string]int{}, obls: t.obls}
		for _, o := range t.obls {
			n := 1
			if o.Kind == "safety" && o.OK && o.Name == t.name+": run-time checks discharged" {
				n = t.safety
			}
			f.Obligations += n
			f.Kinds[o.Kind] += n
			if o.OK {
				f.Discharged += n
			} else {
				f.Failures = append(f.Failures, o)
			}
		}
		f.Obligations += t.loopInvs
		f.Discharged += t.loopInvs
		f.Inlined = keysOf(t.inlined)
		f.Pure = keysOf(t.pureUsed)
		for k := range t.pureUsed {
			pure[k]++
		}
		for k, c := range t.used {
			f.Contracts = append(f.Contracts, k)
			switch {
			case c.extern:
				ext[k]++
			case c.from != "":
				res.From[k] = c.from
			case c.trusted != "":
				res.Trusted[k] = c.trusted
			}
		}
		sort.Strings(f.Contracts)
		res.Functions = append(res.Functions, f)
		res.Obligations += f.Obligations
		res.Discharged += f.Discharged
		res.Failed += len(f.Failures)
		res.SolverS += f.SolverS
		res.Queries += f.Queries
		for k, n := range f.Back {
			res.Back[k] += n
		}
	}
	res.Externs = keysOf(ext)
	res.Pure = keysOf(pure)
	for _, a := range set.axioms {
		res.Axioms = append(res.Axioms, a.String())
	}
	for k := range set.stable {
		res.Stable = append(res.Stable, k)
	}
	sort.Strings(res.Stable)
	// a contract whose function is gone cannot be discharged
	for _, m := range res.Missing {
		res.Obligations++
		res.Failed++
		res.Functions = append(res.Functions, &FnResult{Name: m, Obligations: 1, Failures: []*Obligation{{Name: m + ": function exists", Kind: "missing", Result: "missing", Detail: "the function under contract is not in the source"}}})
	}
	if only == "" {
		for _, field := range set.accesses {
			f := &FnResult{Name: "accesses to " + field}
			for _, fn := range v.touching(field) {
				ok := false
				for _, t := range tasks {
					ok = ok || t.visited[fn]
				}
				f.Obligations++
				if ok {
					f.Discharged++
				} else {
					f.Failures = append(f.Failures, &Obligation{Name: fn.RelString(v.pkg.Pkg) + ": its accesses to " + field + " are under contract", Kind: "access", Result: "uncovered", Detail: "no function under contract executes it"})
				}
			}
			res.Functions = append(res.Functions, f)
			res.Obligations += f.Obligations
			res.Discharged += f.Discharged
			res.Failed += len(f.Failures)
		}
	}
	return res
}

// touching: the functions of the package that address or read the given field ("Type.field")
func (v *Verifier) touching(field string) []*ssa.Function {
	var r []*ssa.Function
	var visit func(fn *ssa.Function)
	is := func(t types.Type, i int) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() != v.pkg.Pkg {
			return false
		}
		st, ok := n.Underlying().(*types.Struct)
		return ok && n.Obj().Name()+"."+st.Field(i).Name() == field
	}
	visit = func(fn *ssa.Function) {
		hit := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					hit = hit || is(x.X.Type(), x.Field)
				case *ssa.Field:
					hit = hit || is(x.X.Type(), x.Field)
				}
			}
		}
		if hit {
			r = append(r, fn)
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	var names []string
	for n, fn := range v.fns {
		if fn.Parent() == nil && fn.Pkg == v.pkg {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		visit(v.fns[n])
	}
	return r
}

func (r *Result_) write(path string) {
	d, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(path, d, 0644)
}

func (r *Result_) print(verbose bool) {
	for _, f := range r.Functions {
		st := "ok"
		if len(f.Failures) > 0 {
			st = "FAILED"
		}
		fmt.Printf("%-50s %-6s obligations %d/%d paths %d queries %d solver %.1fs wall %.1fs\n", f.Name, st, f.Discharged, f.Obligations, f.Paths, f.Queries, f.SolverS, f.WallS)
		if verbose {
			for _, o := range f.obls {
				fmt.Printf("    [%v] %s %s (%s) %.2fs\n", o.OK, o.Kind, o.Name, o.Site, o.Time)
			}
		}
		for i, o := range f.Failures {
			if i > 12 {
				fmt.Printf("    ... %d more\n", len(f.Failures)-i)
				break
			}
			fmt.Printf("    FAILED %s: %s at %s: %s [%s]\n", o.Kind, o.Name, o.Site, o.Detail, o.Result)
			for _, x := range o.Trace {
				fmt.Printf("        %s\n", x)
			}
		}
	}
	fmt.Printf("total: %d/%d obligations discharged, %d failed, %d queries, solver %.1fs, load %.1fs, wall %.1fs, back ends %v\n", r.Discharged, r.Obligations, r.Failed, r.Queries, r.SolverS, r.Load, r.Wall, r.Back)
}
