package tcpx

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"
)

type vListener struct {
	mu sync.Mutex
	n  int
}

func (l *vListener) Accept() (net.Conn, error) { return nil, errV }
func (l *vListener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.n++
	return nil
}
func (l *vListener) Addr() net.Addr { return vAddr("x") }

func TestReplayC13(t *testing.T) {
	// what is recorded
	srv := NewTcpX(nil)
	type key struct{ n, a string }
	want := map[key]interface{}{}
	var order []key
	rnd := vRand()
	for i := 0; i < 60; i++ {
		k := key{[]string{"tcp", "udp", "unix", "tcp4"}[rnd.Intn(4)], fmt.Sprint(":", rnd.Intn(3))}
		var l interface{} = &vListener{}
		if rnd.Intn(2) == 0 {
			l = &vPacketConn{}
		}
		if _, ok := want[k]; !ok {
			order = append(order, k)
		}
		want[k] = l
		srv.fillProperty(k.n, k.a, l)
		got := ""
		for _, p := range srv.properties {
			got += p.Network + p.Port + " "
			if want[key{p.Network, p.Port}] != p.Listener {
				vFail(t, "recording %d listeners: the entry %s %s has the wrong listener", i+1, p.Network, p.Port)
			}
		}
		if len(srv.properties) != len(want) {
			vFail(t, "recording listeners on %v: the server has %s", order, got)
		}
	}
	// Stop
	for _, state := range []int{0, STATE_RUNNING, STATE_STOP} {
		for _, all := range []bool{false, true} {
			for _, sig := range []bool{false, true} {
				for _, pool := range []bool{false, true} {
					name := fmt.Sprintf("Stop(%v) in state %d, signals %v, pool %v", all, state, sig, pool)
					srv := NewTcpX(nil)
					if pool {
						srv.WithBuiltInPool(true)
					}
					srv.WithBroadCastSignal(sig)
					var ls []*vListener
					var ps []*vPacketConn
					for i := 0; i < 4; i++ {
						l, p := &vListener{}, &vPacketConn{}
						ls, ps = append(ls, l), append(ps, p)
						srv.fillProperty([]string{"tcp", "unix", "tcp6", "x"}[i], ":1", l)
						srv.fillProperty([]string{"udp", "udp4", "unixgram", "ip"}[i], ":1", p)
					}
					srv.state = state
					old := srv.pool
					u := vUsers(5, srv.pool)
					for i := range u {
						u[i][0].Online(fmt.Sprint("n", i))
					}
					closed := func(c chan int) bool {
						select {
						case _, ok := <-c:
							return !ok
						default:
							return false
						}
					}
					sigc := srv.closeAllSignal
					var e error
					if !vWithin(10*time.Second, func() { e = srv.Stop(all) }) {
						vFail(t, "%s: does not end", name)
					}
					refused := state == STATE_STOP
					if (e != nil) != refused {
						vFail(t, "%s: %v", name, e)
					}
					if srv.State() != STATE_STOP {
						vFail(t, "%s: state %d", name, srv.State())
					}
					n := 1
					if refused {
						n = 0
					}
					for i := range ls {
						if ls[i].n != n || ps[i].nclosed() != n {
							vFail(t, "%s: listener %d closed %d times, socket %d times", name, i, ls[i].n, ps[i].nclosed())
						}
					}
					if closed(sigc) != (!refused && all && sig) {
						vFail(t, "%s: the close signal is broadcast: %v", name, closed(sigc))
					}
					if pool {
						gone := !refused && all && !sig
						if gone && !vWait(5*time.Second, func() bool {
							for i := range u {
								if u[i][0].Conn.(*vConn).nclosed() == 0 {
									return false
								}
							}
							return true
						}) {
							vFail(t, "%s: not every pooled connection is closed", name)
						}
						for i := range u {
							k := fmt.Sprint("n", i)
							if in := srv.pool.GetClientPool(k) != nil; in != !gone {
								vFail(t, "%s: %s is in the pool: %v", name, k, in)
							}
							if !gone && u[i][0].Conn.(*vConn).nclosed() != 0 {
								vFail(t, "%s: connection of %s is closed", name, k)
							}
						}
						if !vWithin(5*time.Second, func() { old.isOnline("x"); srv.pool.isOnline("x") }) {
							vFail(t, "%s: the pool stays locked", name)
						}
					}
					if srv.Stop(all) == nil {
						vFail(t, "%s: then stopping again is not refused", name)
					}
				}
			}
		}
	}
	// real listeners, stopped and started again
	dir, e := os.MkdirTemp("", "tcpxv")
	if e != nil {
		t.Fatal(e)
	}
	defer os.RemoveAll(dir)
	free := func() string {
		l, e := net.Listen("tcp", "127.0.0.1:0")
		if e != nil {
			t.Fatal(e)
		}
		defer l.Close()
		return l.Addr().String()
	}
	for round := 0; round < 2; round++ {
		sig := round == 1
		srv = NewTcpX(nil)
		srv.WithBuiltInPool(true)
		srv.WithBroadCastSignal(sig)
		srv.AddHandler(1, func(c *Context) { c.Online("u"); c.JSON(2, "pong") })
		addrs := []key{{"tcp", free()}, {"tcp4", free()}, {"unix", filepath.Join(dir, fmt.Sprint("s", round))}, {"udp", free()}}
		for _, a := range addrs {
			go srv.ListenAndServe(a.n, a.a)
			time.Sleep(30 * time.Millisecond)
		}
		ping := func(a key) (net.Conn, bool) {
			c, e := net.DialTimeout(a.n, a.a, time.Second)
			if e != nil {
				return nil, false
			}
			c.SetDeadline(time.Now().Add(2 * time.Second))
			c.Write(vBlock(1, []byte("{}"), []byte("\"x\"")))
			b := make([]byte, 100)
			n, e := c.Read(b)
			return c, e == nil && n > 0
		}
		for cycle := 0; cycle < 2; cycle++ {
			if srv.Start() == nil {
				vFail(t, "signals %v: starting a running server is not refused", sig)
			}
			var conns []net.Conn
			for _, a := range addrs {
				var c net.Conn
				if !vWait(5*time.Second, func() (ok bool) { c, ok = ping(a); return ok }) {
					vFail(t, "signals %v, cycle %d: nothing is served on %s %s", sig, cycle, a.n, a.a)
				}
				if a.n != "udp" {
					conns = append(conns, c)
				}
			}
			if !vWithin(10*time.Second, func() { srv.Stop(sig) }) {
				vFail(t, "signals %v, cycle %d: Stop does not end", sig, cycle)
			}
			time.Sleep(50 * time.Millisecond)
			for _, a := range addrs {
				if c, ok := ping(a); ok {
					c.Close()
					vFail(t, "signals %v, cycle %d: %s %s is served after Stop", sig, cycle, a.n, a.a)
				}
			}
			if sig {
				for i, c := range conns {
					c.SetReadDeadline(time.Now().Add(3 * time.Second))
					if _, e := c.Read(make([]byte, 1)); e == nil || os.IsTimeout(e) {
						vFail(t, "cycle %d: connection %d lives on after Stop(true) with signals", cycle, i)
					}
				}
			}
			if e := srv.Start(); e != nil {
				vFail(t, "signals %v, cycle %d: Start of a stopped server: %v", sig, cycle, e)
			}
			vWait(5*time.Second, func() bool { return srv.State() == STATE_RUNNING })
			if len(srv.properties) != len(addrs) {
				vFail(t, "signals %v, cycle %d: %d addresses recorded, want %d", sig, cycle, len(srv.properties), len(addrs))
			}
		}
		vStop(srv)
	}
	// Restart
	srv = NewTcpX(nil)
	srv.state = STATE_STOP
	if srv.Restart(false) == nil {
		vFail(t, "Restart of a stopped server is not refused")
	}
	srv.state = STATE_RUNNING
	got := ""
	f := func(s string) func() { return func() { got += fmt.Sprint(s, srv.State(), " ") } }
	if e := srv.Restart(false, f("a"), f("b")); e != nil || got != "a2 b2 " {
		vFail(t, "Restart: %v, before start: %q", e, got)
	}
}
