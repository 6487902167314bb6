package tcpx

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"sync"
	"testing"
	"time"
)

// for every combination of configured deadlines: reading (writing) on an accepted connection
// times out shortly after exactly when the deadline in force for it is near
func TestReplayC20(t *testing.T) {
	near := 400 * time.Millisecond
	var wg sync.WaitGroup
	var mu sync.Mutex
	problem := ""
	bad := func(f string, a ...interface{}) {
		mu.Lock()
		if problem == "" {
			problem = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	kinds := []string{"zero", "near", "far"}
	at := func(k string, now time.Time) time.Time {
		switch k {
		case "near":
			return now.Add(near)
		case "far":
			return now.Add(time.Hour)
		}
		return time.Time{}
	}
	for _, server := range []string{"tcp", "raw"} {
		for _, g := range kinds {
			for _, r := range kinds {
				for _, w := range kinds {
					server, g, r, w := server, g, r, w
					what := fmt.Sprintf("%s server, deadline %s, read deadline %s, write deadline %s", server, g, r, w)
					wantR, wantW := r, w
					if r == "zero" {
						wantR = g
					}
					if w == "zero" {
						wantW = g
					}
					srv := NewTcpX(nil)
					now := time.Now()
					if g != "zero" {
						srv.SetDeadline(at(g, now))
					}
					if r != "zero" {
						srv.SetReadDeadline(at(r, now))
					}
					if w != "zero" {
						srv.SetWriteDeadline(at(w, now))
					}
					closed := make(chan time.Time, 1)
					var cn *Context
					got := make(chan *Context, 1)
					srv.OnConnect = func(c *Context) { got <- c }
					srv.OnClose = func(c *Context) { closed <- time.Now() }
					srv.HandleRaw = func(c *Context) {
						buf := make([]byte, 10)
						for {
							if _, e := c.ConnReader.Read(buf); e != nil {
								return
							}
						}
					}
					serve := srv.ListenAndServeTCP
					if server == "raw" {
						serve = srv.ListenAndServeRaw
					}
					addr, _ := vServe(t, srv, "tcp", serve)
					client := vDial(t, "tcp", addr)
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer client.Close()
						cn = <-got
						select {
						case <-closed:
							if wantR != "near" {
								bad("%s: reading ended although the read deadline is %s", what, wantR)
							}
						case <-time.After(time.Until(now.Add(near + 700*time.Millisecond))):
							if wantR == "near" {
								bad("%s: reading goes on after the deadline", what)
							}
						}
						time.Sleep(time.Until(now.Add(near + 50*time.Millisecond)))
						if wantR == "near" {
							return
						}
						_, e := cn.Conn.Write([]byte("x"))
						if timeout := errors.Is(e, os.ErrDeadlineExceeded); timeout != (wantW == "near") {
							bad("%s: writing gives %v", what, e)
						}
					}()
				}
			}
		}
	}
	// when reading is ended by its own deadline, the write deadline is observed on the connect callback instead
	for _, w := range kinds {
		for _, g := range kinds {
			srv := NewTcpX(nil)
			past := time.Now().Add(-time.Second)
			if g == "near" {
				srv.SetDeadline(past)
			} else {
				srv.SetDeadline(at(g, time.Now()))
			}
			want := w
			if w == "near" {
				srv.SetWriteDeadline(past)
			} else if w == "far" {
				srv.SetWriteDeadline(at(w, time.Now()))
			} else {
				want = g
			}
			res := make(chan error, 1)
			srv.OnConnect = func(c *Context) { _, e := c.Conn.Write([]byte("x")); res <- e }
			addr, _ := vServe(t, srv, "tcp", srv.ListenAndServeTCP)
			client := vDial(t, "tcp", addr)
			e := <-res
			if errors.Is(e, os.ErrDeadlineExceeded) != (want == "near") {
				bad("general deadline %s, write deadline %s (near: past): writing in the connect callback gives %v", g, w, e)
			}
			client.Close()
			vStop(srv)
		}
	}
	// datagram socket: with a read deadline in the past nothing is ever handled
	for _, c := range []struct {
		g, r time.Time
		want bool
	}{{time.Time{}, time.Time{}, true}, {time.Now().Add(-time.Second), time.Time{}, false}, {time.Time{}, time.Now().Add(-time.Second), false},
		{time.Now().Add(-time.Second), time.Now().Add(time.Hour), true}, {time.Now().Add(time.Hour), time.Now().Add(-time.Second), false}} {
		srv := NewTcpX(nil)
		if !c.g.IsZero() {
			srv.SetDeadline(c.g)
		}
		if !c.r.IsZero() {
			srv.SetReadDeadline(c.r)
		}
		hit := make(chan int, 10)
		srv.OnMessage = func(c *Context) { hit <- 1 }
		old := Logger
		addr, _ := vServe(t, srv, "udp", func(n, a string) error { return srv.ListenAndServeUDP(n, a) })
		client := vDial(t, "udp", addr)
		client.Write(vBlock(1, []byte("{}"), nil))
		ok := false
		select {
		case <-hit:
			ok = true
		case <-time.After(300 * time.Millisecond):
		}
		srv.stopState()
		Logger = old
		client.Close()
		if ok != c.want {
			bad("datagram socket, deadline %v, read deadline %v: handled %v", c.g, c.r, ok)
		}
	}
	wg.Wait()
	if problem != "" {
		vFail(t, "%s", strings.TrimSpace(problem))
	}
}
