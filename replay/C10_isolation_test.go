package tcpx

import (
	"bytes"
	"fmt"
	"net"
	"sync"
	"testing"
	"time"
)

// every handler sees exactly its own bytes, an empty request space, and the shared connection space,
// also while later messages are received
func TestReplayC10(t *testing.T) {
	for _, pipe := range []bool{false, true} {
		srv := NewTcpX(nil)
		srv.WithBuiltInPool(true)
		var mu sync.Mutex
		problem := ""
		bad := func(f string, a ...interface{}) {
			mu.Lock()
			if problem == "" {
				problem = fmt.Sprintf(f, a...)
			}
			mu.Unlock()
		}
		var conn *Context
		seen := map[*Context]bool{}
		spaces := map[*sync.Map]bool{}
		ran := 0
		srv.OnConnect = func(c *Context) { conn = c; c.SetCtxPerConn("conn", "yes"); c.SetCtxPerRequest("leak", "connect"); c.SetUsername("name") }
		block := func(i int) []byte {
			h := []byte("{}")
			if pipe && i%10 == 0 {
				h = []byte(`{"` + PIPED + `":"enable;10"}`)
			}
			return vBlock(int32(1+i%3), h, []byte(fmt.Sprintf("%d:%s", i, bytes.Repeat([]byte{byte('a' + i%26)}, i%50))))
		}
		handler := func(c *Context) {
			own := append([]byte{}, c.Stream...)
			var i int
			body, _ := c.RawStream()
			fmt.Sscanf(string(body), "%d:", &i)
			if !bytes.Equal(own, block(i)) {
				bad("message %d handled with the bytes % x", i, own)
			}
			mu.Lock()
			if seen[c] || spaces[c.PerRequestContext] || c == conn || c.PerRequestContext == conn.PerRequestContext {
				mu.Unlock()
				bad("message %d: context or request space shared with another request", i)
				mu.Lock()
			}
			seen[c] = true
			spaces[c.PerRequestContext] = true
			mu.Unlock()
			c.PerRequestContext.Range(func(k, v interface{}) bool {
				if k != "router_type" && k != "url_pattern" && k != "mid" {
					bad("message %d: request space starts with %v", i, k)
				}
				return true
			})
			if v, ok := c.GetCtxPerRequest("mid"); !ok || v != 1 {
				bad("message %d: what its middleware stored is %v", i, v)
			}
			c.SetCtxPerRequest("leak", i)
			c.SetCtxPerRequest("mid", 7)
			if v, ok := c.GetCtxPerConn("conn"); !ok || v != "yes" {
				bad("message %d: connection space is not shared: %v", i, v)
			}
			if _, ok := c.GetCtxPerRequest("conn"); ok {
				bad("message %d: connection keys visible in the request space", i)
			}
			if u, _ := c.Username(); u != "name" {
				bad("message %d: user name %q", i, u)
			}
			if c.poolRef != srv.pool || c.userState != conn.userState || c.Conn != conn.Conn {
				bad("message %d: connection state is not shared", i)
			}
			if !pipe {
				time.Sleep(time.Duration(i%7) * 3 * time.Millisecond)
			}
			if !bytes.Equal(own, c.Stream) {
				bad("message %d: its bytes changed while it was handled", i)
			}
			if v, _ := c.GetCtxPerRequest("leak"); v != i {
				bad("message %d: its request value became %v", i, v)
			}
			mu.Lock()
			ran++
			mu.Unlock()
			if i%4 == 1 {
				c.Abort()
			}
		}
		srv.UseGlobal(func(c *Context) {
			if _, ok := c.GetCtxPerRequest("mid"); ok {
				bad("middleware ran twice on a request space")
			}
			c.SetCtxPerRequest("mid", 1)
			c.Next()
		})
		for i := 1; i <= 3; i++ {
			srv.AddHandler(int32(i), handler)
		}
		addr, _ := vServe(t, srv, "tcp", srv.ListenAndServeTCP)
		c := vDial(t, "tcp", addr)
		n := 60
		for i := 0; i < n; i++ {
			c.Write(block(i))
		}
		ok := vWait(5*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return ran == n || problem != "" })
		mu.Lock()
		if problem != "" {
			vFail(t, "%d messages on a connection (pipes: %v): %s", n, pipe, problem)
		}
		if !ok || ran != n {
			vFail(t, "%d messages on a connection (pipes: %v): %d handled", n, pipe, ran)
		}
		mu.Unlock()
		c.Close()
		vStop(srv)
	}
	// datagrams
	{
		srv := NewTcpX(nil)
		var mu sync.Mutex
		problem, ran := "", 0
		block := func(i int) []byte { return vBlock(1, []byte("{}"), []byte(fmt.Sprintf("%03d", i))) }
		srv.AddHandler(1, func(c *Context) {
			own := append([]byte{}, c.Stream...)
			var i int
			body, _ := c.RawStream()
			fmt.Sscanf(string(body), "%d", &i)
			_, old := c.GetCtxPerConn("k")
			c.SetCtxPerConn("k", i)
			time.Sleep(20 * time.Millisecond)
			v, _ := c.GetCtxPerConn("k")
			mu.Lock()
			defer mu.Unlock()
			ran++
			if old || v != i || !bytes.Equal(own, block(i)) || !bytes.Equal(c.Stream, own) {
				problem = fmt.Sprintf("datagram %d: old value %v, value %v, bytes %q", i, old, v, c.Stream)
			}
		})
		addr, _ := vServe(t, srv, "udp", func(n, a string) error { return srv.ListenAndServeUDP(n, a) })
		c, e := net.Dial("udp", addr)
		if e != nil {
			t.Fatal(e)
		}
		for i := 0; i < 10; i++ {
			c.Write(block(i))
			time.Sleep(time.Millisecond)
		}
		vWait(3*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return ran == 10 || problem != "" })
		mu.Lock()
		defer mu.Unlock()
		if problem != "" {
			vFail(t, "%s", problem)
		}
		if ran < 5 {
			vFail(t, "10 datagrams: %d handled", ran)
		}
	}
	// the accessors
	for _, udp := range []bool{false, true} {
		mk := func() *Context {
			if udp {
				return NewUDPContext(&vPacketConn{}, vAddr("x:1"), nil)
			}
			return NewContext(&vConn{}, nil)
		}
		c := mk()
		o := copyContext(*c)
		type K struct{ a int }
		for i, k := range []interface{}{"a", "", 1, K{1}, "tcpx", "Tcpx-username", "x-tcpx-username"} {
			c.SetCtxPerConn(k, i)
			if v, ok := c.GetCtxPerConn(k); !ok || v != i {
				vFail(t, "SetCtxPerConn(%v, %d), then GetCtxPerConn gives %v %v (udp: %v)", k, i, v, ok, udp)
			}
			if _, ok := c.GetCtxPerRequest(k); ok != udp {
				vFail(t, "SetCtxPerConn(%v) visible in the request space: %v (udp: %v)", k, ok, udp)
			}
			if v, ok := o.GetCtxPerConn(k); !udp && (!ok || v != i) {
				vFail(t, "SetCtxPerConn(%v, %d): another request of the connection sees %v %v", k, i, v, ok)
			}
			if v, ok := o.GetCtxPerRequest(k); ok {
				vFail(t, "another request sees %v", v)
			}
			c.SetCtxPerRequest(k, i+100)
			if v, ok := c.GetCtxPerRequest(k); !ok || v != i+100 {
				vFail(t, "SetCtxPerRequest(%v): %v %v", k, v, ok)
			}
			if v, _ := c.GetCtxPerConn(k); !udp && v != i {
				vFail(t, "SetCtxPerRequest(%v) changed the connection value to %v", k, v)
			}
			if v, ok := o.GetCtxPerRequest(k); ok {
				vFail(t, "SetCtxPerRequest(%v): another request sees %v", k, v)
			}
		}
		if p := vPanics(func() { c.SetCtxPerConn("tcpx-username", "x") }); p == nil {
			vFail(t, "SetCtxPerConn stores under tcpx-username")
		}
		if u, ok := c.Username(); u != "" || ok || c.GetUsername() != "" {
			vFail(t, "anonymous connection has the user name %q", u)
		}
		c.SetUsername("u")
		if u, ok := c.Username(); u != "u" || !ok || c.GetUsername() != "u" {
			vFail(t, "SetUsername(u): Username gives %q %v", u, ok)
		}
		if u, ok := o.Username(); !udp && (u != "u" || !ok) {
			vFail(t, "SetUsername(u): another request of the connection sees %q %v", u, ok)
		}
		if !c.IsOnline() || c.IsOffline() || !o.IsOnline() {
			vFail(t, "a new connection is not online")
		}
		c.CloseConn()
		if c.IsOnline() || !c.IsOffline() || o.IsOnline() || !o.IsOffline() {
			vFail(t, "closing is not seen by every request of the connection")
		}
	}
}
