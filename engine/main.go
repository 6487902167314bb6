package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	modfile := flag.String("modfile", "", "modfile for loading the repository")
	spec := flag.String("spec", "", "specification file")
	only := flag.String("only", "", "verify only this function")
	out := flag.String("out", "", "result file (JSON)")
	dump := flag.String("dump", "", "dump SSA of function")
	jobs := flag.Int("j", runtime.NumCPU(), "parallel tasks")
	thorough := flag.Bool("thorough", false, "longer solver limits")
	flag.BoolVar(&lateInv, "late", false, "with the additional invariant candidates")
	verbose := flag.Bool("v", false, "print every obligation")
	flag.Parse()
	t0 := time.Now()
	v, err := loadRepo(*repo, *modfile)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(4)
	}
	loadT := time.Since(t0)
	if *dump != "" {
		if f := v.fns[*dump]; f != nil {
			f.WriteTo(os.Stdout)
			for _, a := range f.AnonFuncs {
				a.WriteTo(os.Stdout)
			}
		} else {
			for k := range v.fns {
				fmt.Println(k)
			}
		}
		return
	}
	thoroughMode = *thorough
	set := newSpecSet()
	set.load(*spec, true)
	res := v.verifyAll(set, *only, *jobs)
	res.Load = loadT.Seconds()
	res.Wall = time.Since(t0).Seconds()
	if *out != "" {
		res.write(*out)
	}
	res.print(*verbose)
	if res.Failed > 0 {
		os.Exit(1)
	}
}

var wg sync.WaitGroup
var thoroughMode bool
