package tcpx

import (
	"fmt"
	"net"
	"sync"
	"testing"
	"time"
)

func TestReplayC15(t *testing.T) {
	const D = 300 * time.Millisecond
	var mu sync.Mutex
	bad := ""
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	par := func(f func()) { wg.Add(1); go func() { defer wg.Done(); f() }() }
	for _, copied := range []bool{false, true} {
		for _, how := range []string{"none", "pass", "deny", "signal", "ended", "off", "late pass", "early deny", "early pass"} {
			for di, delay := range []time.Duration{0, D / 3, 0, D / 3} {
				copied, how, delay, named := copied, how, delay, di > 1
				par(func() {
					srv := NewTcpX(nil)
					srv.WithBroadCastSignal(true)
					f := func(c *Context) {}
					srv.WithAuthDetail(how != "off", D, delay > 0, 9, f)
					if srv.auth != (how != "off") || srv.authDeadline != D || srv.AuthMessageID != 9 || srv.AuthThroughMiddleware != (delay > 0) {
						fail("%s: not configured as asked for", how)
					}
					if (srv.Mux.Handlers[9] != nil) != (how != "off") {
						fail("%s: handler registered: %v", how, srv.Mux.Handlers[9] != nil)
					}
					conn := &vConn{}
					ctx := NewContext(conn, JsonMarshaller{})
					if named {
						srv.WithBuiltInPool(true)
						ctx.poolRef = srv.pool
						ctx.Online("tom")
					}
					other := ctx
					if copied {
						other = copyContext(*ctx)
					}
					t0 := time.Now()
					done := make(chan int)
					if how == "early deny" || how == "early pass" {
						f := other.RecvAuthPass
						if how == "early deny" {
							f = other.RecvAuthDeny
						}
						go f()
						time.Sleep(D / 3)
					}
					go func() { authWatch(ctx, srv); close(done) }()
					if delay > 0 {
						time.Sleep(delay)
					}
					what := fmt.Sprintf("%s after %v (copied context: %v, named: %v), deadline %v", how, delay, copied, named, D)
					if how != "off" && how != "early deny" && conn.nclosed() > 0 {
						fail("%s: closed before anything happened", what)
					}
					closes := false
					switch how {
					case "none", "late pass":
						closes = true
					case "pass":
						if !vWithin(time.Second, other.RecvAuthPass) {
							fail("%s: reporting blocks", what)
						}
					case "early deny":
						closes = true
					case "deny":
						closes = true
						if !vWithin(time.Second, other.RecvAuthDeny) {
							fail("%s: reporting blocks", what)
						}
					case "signal":
						closes = true
						close(srv.closeAllSignal)
					case "ended":
						close(ctx.recvEnd)
					}
					if how == "deny" || how == "signal" || how == "early deny" {
						if !vWait(D/2, func() bool { return conn.nclosed() > 0 }) {
							fail("%s: not closed at once", what)
						}
					}
					select {
					case <-done:
					case <-time.After(D + 3*time.Second):
						fail("%s: the watch does not end", what)
						return
					}
					if closes != (conn.nclosed() > 0) {
						fail("%s: closed: %v", what, conn.nclosed() > 0)
					}
					if (how == "none" || how == "late pass") && time.Since(t0) < D-D/10 {
						fail("%s: closed after %v", what, time.Since(t0))
					}
					time.Sleep(D + D/2)
					if closes != (conn.nclosed() > 0) {
						fail("%s: closed later: %v", what, conn.nclosed() > 0)
					}
				})
			}
		}
	}
	for _, how := range []string{"none", "pass", "deny", "other"} {
		how := how
		par(func() {
			srv := NewTcpX(nil)
			srv.WithAuthDetail(true, D, false, 9, func(c *Context) {
				if how == "pass" {
					c.RecvAuthPass()
				} else {
					c.RecvAuthDeny()
				}
			})
			srv.AddHandler(3, func(c *Context) {})
			addr, _ := vServe(t, srv, "tcp", srv.ListenAndServeTCP)
			for i := 0; i < 2; i++ {
				c, e := net.Dial("tcp", addr)
				if e != nil {
					return
				}
				switch how {
				case "pass", "deny":
					c.Write(vBlock(9, []byte("{}"), nil))
				case "other":
					c.Write(vBlock(3, []byte("{}"), nil))
				}
				c.SetReadDeadline(time.Now().Add(4 * D))
				_, e = c.Read(make([]byte, 1))
				ne, ok := e.(net.Error)
				open := ok && ne.Timeout()
				if open != (how == "pass") {
					fail("connection %d, %s: still open: %v", i, how, open)
				}
				c.Close()
			}
		})
	}
	// every reported verdict arrives, also when several are reported before the watch listens
	for n := 1; n <= 3; n++ {
		for bits := 0; bits < 1<<uint(n); bits++ {
			n, bits := n, bits
			par(func() {
				ctx := NewContext(&vConn{}, JsonMarshaller{})
				go func() {
					for i := 0; i < n; i++ {
						if bits>>uint(i)&1 == 1 {
							ctx.RecvAuthPass()
						} else {
							ctx.RecvAuthDeny()
						}
					}
				}()
				time.Sleep(D / 3)
				for i := 0; i < n; i++ {
					select {
					case v := <-ctx.AuthChan():
						if (v >= 0) != (bits>>uint(i)&1 == 1) {
							fail("verdict %d of %d (passes %b): arrived as %d", i, n, bits, v)
						}
					case <-time.After(2 * time.Second):
						fail("verdict %d of %d (passes %b) was not delivered", i, n, bits)
					}
				}
			})
		}
	}
	wg.Wait()
	if bad != "" {
		vFail(t, "%s", bad)
	}
}
