package tcpx

import (
	"encoding/binary"
	"fmt"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestReplayC22(t *testing.T) {
	big := make([]byte, 4)
	binary.BigEndian.PutUint32(big, 5000)
	ends := []struct {
		name string
		data []byte
		msgs int
		open bool // the client keeps the connection open
	}{
		{"end of stream at once", nil, 0, false},
		{"two messages", append(vBlock(1, []byte("{}"), nil), vBlock(1, []byte("{}"), nil)...), 2, false},
		{"end inside the prefix", []byte{0, 0}, 0, false},
		{"end inside a block", vBlock(1, []byte("{}"), nil)[:17], 0, false},
		{"oversized block", big, 0, true},
		{"block too short", []byte{0, 0, 0, 1, 0}, 0, true},
		{"unreadable header", vBlock(1, []byte("{x"), nil), 0, true},
		{"malformed pipe", vBlock(1, []byte(`{"`+PIPED+`":"x"}`), nil), 0, true},
		{"pipe cut short", vBlock(1, []byte(`{"`+PIPED+`":"enable;3"}`), nil), 1, false},
		{"oversized inside a pipe", append(vBlock(1, []byte(`{"`+PIPED+`":"enable;3"}`), nil), big...), 1, true},
		{"handler panics", vBlock(2, []byte("{}"), nil), 0, false},
		{"close callback panics", []byte{9}, 0, false},
	}
	for _, raw := range []bool{false, true} {
		for _, pool := range []bool{false, true} {
			for _, cb := range []bool{true, false} {
				for _, end := range ends {
					what := fmt.Sprintf("raw %v, pool %v, callbacks %v, %s", raw, pool, cb, end.name)
					srv := NewTcpX(nil)
					if pool {
						srv.WithBuiltInPool(true)
					}
					srv.SetMaxBytePerMessage(1000)
					var mu sync.Mutex
					var log []string
					add := func(s string) { mu.Lock(); log = append(log, s); mu.Unlock() }
					msgs := int32(0)
					var ctx *Context
					if cb {
						srv.OnConnect = func(c *Context) {
							time.Sleep(5 * time.Millisecond)
							if pool && c.poolRef != srv.pool || !pool && c.poolRef != nil {
								add("wrong-pool")
							}
							ctx = c
							add("connect")
						}
						srv.OnClose = func(c *Context) {
							if c != ctx {
								add("other-context")
							}
							if c.IsOffline() {
								add("closed-before")
							}
							add("close")
							if end.name == "close callback panics" {
								panic("on close")
							}
						}
					}
					srv.AddHandler(1, func(c *Context) {
						if (c.poolRef != nil) != pool {
							add("wrong-pool")
						}
						atomic.AddInt32(&msgs, 1)
					})
					srv.AddHandler(2, func(c *Context) {
						defer func() { recover() }()
						panic("handler")
					})
					srv.HandleRaw = func(c *Context) {
						b := make([]byte, 1000)
						add("read")
						if end.open || end.name == "handler panics" {
							panic("raw")
						}
						for {
							if _, e := c.ConnReader.Read(b); e != nil {
								return
							}
						}
					}
					serve := srv.ListenAndServeTCP
					if raw {
						serve = srv.ListenAndServeRaw
					}
					addr, _ := vServe(t, srv, "tcp", serve)
					client := vDial(t, "tcp", addr)
					client.Write(end.data)
					if !end.open {
						client.(*net.TCPConn).CloseWrite()
					}
					client.SetReadDeadline(time.Now().Add(3 * time.Second))
					if _, e := client.Read(make([]byte, 1)); e == nil || strings.Contains(e.Error(), "timeout") {
						vFail(t, "%s: the connection is not closed: %v", what, e)
					}
					want := ""
					if cb {
						want = "connect close"
						if raw {
							want = "connect read close"
						}
					} else if raw {
						want = "read"
					}
					get := func() string { mu.Lock(); defer mu.Unlock(); return strings.Join(log, " ") }
					ok := vWait(time.Second, func() bool { return get() == want && (raw || int(atomic.LoadInt32(&msgs)) == end.msgs) })
					time.Sleep(2 * time.Millisecond)
					if !ok || get() != want {
						vFail(t, "%s: [%s] with %d messages, want [%s] with %d", what, get(), atomic.LoadInt32(&msgs), want, end.msgs)
					}
					if cb && !ctx.IsOffline() {
						vFail(t, "%s: the context is still online", what)
					}
					client.Close()
					vStop(srv)
				}
			}
		}
	}
	// watchers run exactly when their feature is on
	for _, hb := range []bool{false, true} {
		for _, auth := range []bool{false, true} {
			srv := NewTcpX(nil)
			if hb {
				srv.HeartBeatMode(true, 60*time.Millisecond)
			}
			if auth {
				srv.WithAuthDetail(true, 100*time.Millisecond, false, 5, func(c *Context) {})
			}
			closed := make(chan int, 10)
			srv.OnClose = func(c *Context) { closed <- 1 }
			addr, _ := vServe(t, srv, "tcp", srv.ListenAndServeTCP)
			client := vDial(t, "tcp", addr)
			got := false
			select {
			case <-closed:
				got = true
			case <-time.After(900 * time.Millisecond):
			}
			if got != (hb || auth) {
				vFail(t, "heartbeat %v, authentication %v, silent client: closed %v", hb, auth, got)
			}
			client.Close()
			vStop(srv)
		}
	}
}
