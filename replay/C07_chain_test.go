package tcpx

import (
	"fmt"
	"testing"
)

// every chain of up to four handlers, each with up to two actions out of Next, Abort, and longer chains
func TestReplayC07(t *testing.T) {
	progs := []string{"", "N", "A", "NN", "NA", "AN", "AA"}
	run := func(chain []string) {
		var started []int
		aborted := false
		bad := ""
		c := NewContext(&vConn{}, JsonMarshaller{})
		for i := range chain {
			i := i
			c.handlers = append(c.handlers, func(c *Context) {
				if aborted {
					bad = fmt.Sprintf("handler %d started after Abort", i)
				}
				started = append(started, i)
				if len(started) > 10000 {
					panic("handlers started forever")
				}
				for _, a := range chain[i] {
					if a == 'N' {
						c.Next()
					} else {
						c.Abort()
						aborted = true
					}
				}
			})
		}
		if p := vPanics(func() { c.Next() }); p != nil {
			vFail(t, "chain %q: panic %v", chain, p)
		}
		if bad != "" {
			vFail(t, "chain %q (N: Next, A: Abort): %s", chain, bad)
		}
		for i, h := range started {
			if h != i {
				vFail(t, "chain %q (N: Next, A: Abort): handlers started %v", chain, started)
			}
		}
		if !aborted && len(started) != len(chain) {
			vFail(t, "chain %q (N: Next, A: Abort): only handlers %v started", chain, started)
		}
	}
	var rec func(chain []string, n int)
	rec = func(chain []string, n int) {
		run(chain)
		if n == 0 {
			return
		}
		for _, p := range progs {
			rec(append(append([]string{}, chain...), p), n-1)
		}
	}
	rec(nil, 4)
	r := vRand()
	for n := 0; n < 3000; n++ {
		chain := make([]string, r.Intn(40))
		for i := range chain {
			chain[i] = progs[r.Intn(4)]
			if r.Intn(10) > 0 && (chain[i] == "A" || chain[i] == "NA") {
				chain[i] = "N"
			}
		}
		run(chain)
	}
	for _, l := range []int{10, 11, 64, 255, 256, 257, 1000} {
		run(make([]string, l))
		c := make([]string, l)
		for i := range c {
			c[i] = "N"
		}
		run(c)
		c[l/2] = "A"
		run(c)
	}
}
