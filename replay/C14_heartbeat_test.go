package tcpx

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestReplayC14(t *testing.T) {
	const I = 150 * time.Millisecond
	var mu sync.Mutex
	bad := ""
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	par := func(f func()) { wg.Add(1); go func() { defer wg.Done(); f() }() }
	mk := func(on bool) (*TcpX, *Context, *vConn, *int32) {
		srv := NewTcpX(nil)
		srv.HeartBeatModeDetail(on, I, false, 77)
		srv.WithBroadCastSignal(true)
		srv.openState()
		conn := &vConn{}
		ctx := NewContext(conn, JsonMarshaller{})
		loss := new(int32)
		srv.SetEventOnHeartbeatLoss(func(c *Context) {
			if conn.nclosed() > 0 {
				fail("the heartbeat-loss callback ran after the connection was closed")
			}
			if c.Conn != net.Conn(conn) {
				fail("the heartbeat-loss callback got another connection")
			}
			atomic.AddInt32(loss, 1)
		})
		return srv, ctx, conn, loss
	}
	beat := func(srv *TcpX, ctx *Context) {
		if !vWithin(time.Second, func() { srv.Mux.Handlers[77](copyContext(*ctx)) }) {
			fail("the heartbeat handler blocks")
		}
	}
	// sequences of beats, in tenths of an interval
	for _, beats := range [][]int{{}, {25}, {5, 10, 15}, {25, 50, 75}, {15, 30, 45, 60}, {8, 33}} {
		beats := beats
		par(func() {
			srv, ctx, conn, loss := mk(true)
			t0 := time.Now()
			heartBeatWatch(ctx, srv)
			last := t0
			for _, b := range beats {
				at := t0.Add(time.Duration(b) * I / 10)
				time.Sleep(time.Until(at))
				if conn.nclosed() > 0 {
					fail("beats at %v tenths of an interval: closed before beat %d", beats, b)
					return
				}
				last = time.Now()
				beat(srv, ctx)
			}
			if !vWait(3*I+3*time.Second, func() bool { return conn.nclosed() > 0 }) {
				fail("beats at %v tenths of an interval: never closed", beats)
				return
			}
			if d := time.Since(last); d < 3*I-I/4 {
				fail("beats at %v tenths of an interval: closed %v after the last beat, the interval is %v", beats, d, I)
			}
			time.Sleep(I)
			if n := atomic.LoadInt32(loss); n != 1 {
				fail("beats at %v tenths of an interval: %d calls of the heartbeat-loss callback", beats, n)
			}
		})
	}
	for _, how := range []string{"signal", "stop", "ended", "off"} {
		for _, late := range []bool{false, true} {
			how, late := how, late
			par(func() {
				srv, ctx, conn, loss := mk(how != "off")
				heartBeatWatch(ctx, srv)
				if late {
					time.Sleep(I + I/2)
				}
				switch how {
				case "signal":
					close(srv.closeAllSignal)
				case "stop":
					srv.stopState()
					beat(srv, ctx)
				case "ended":
					close(ctx.recvEnd)
				}
				if how == "signal" || how == "stop" {
					if !vWait(2*time.Second, func() bool { return conn.nclosed() > 0 }) {
						fail("%s: not closed", how)
					}
				}
				time.Sleep(4 * I)
				if how == "ended" && conn.nclosed() > 0 {
					fail("closed by the watch although the connection had ended by itself")
				}
				if how == "off" && conn.nclosed() > 0 {
					fail("closed by the watch although heartbeat checking is off")
				}
				if n := atomic.LoadInt32(loss); n != 0 {
					fail("%s: the heartbeat-loss callback ran %d times", how, n)
				}
			})
		}
	}
	for _, how := range []string{"mode", "detail"} {
		how := how
		par(func() {
			srv := NewTcpX(nil)
			id := int32(DEFAULT_HEARTBEAT_MESSAGEID)
			if how == "mode" {
				srv.HeartBeatMode(true, I)
			} else {
				id = 5
				srv.HeartBeatModeDetail(true, I, true, id)
			}
			if !srv.HeartBeatOn || srv.HeatBeatInterval != I || srv.HeartBeatMessageID != id || srv.ThroughMiddleware != (how == "detail") {
				fail("%s: not configured as asked for", how)
			}
			h := srv.Mux.Handlers[id]
			if h == nil {
				fail("%s: no heartbeat handler", how)
				return
			}
			for _, first := range []bool{true, false} {
				ctx := NewContext(&vConn{}, JsonMarshaller{})
				var ch chan int
				if first {
					ch = ctx.HeartBeatChan()
				}
				h(copyContext(*ctx))
				if !first {
					ch = ctx.HeartBeatChan()
				}
				select {
				case <-ch:
				case <-time.After(time.Second):
					fail("%s: a heartbeat does not reach the watch", how)
				}
				select {
				case <-ch:
					fail("%s: one heartbeat signalled twice", how)
				default:
				}
			}
		})
	}
	for _, raw := range []bool{false, true} {
		for _, n := range []int{1, 3} {
			raw, n := raw, n
			par(func() {
				srv := NewTcpX(nil)
				srv.HeartBeatModeDetail(true, I, false, 77)
				var loss int32
				srv.SetEventOnHeartbeatLoss(func(c *Context) { atomic.AddInt32(&loss, 1) })
				if raw {
					srv.HandleRaw = func(c *Context) {
						p := make([]byte, 1)
						for {
							if _, e := c.Conn.Read(p); e != nil {
								return
							}
						}
					}
				}
				serve := srv.ListenAndServeTCP
				if raw {
					serve = srv.ListenAndServeRaw
				}
				addr, _ := vServe(t, srv, "tcp", serve)
				for i := 0; i < n; i++ {
					c, e := net.Dial("tcp", addr)
					if e != nil {
						return
					}
					t0 := time.Now()
					c.SetReadDeadline(time.Now().Add(5 * time.Second))
					_, e = c.Read(make([]byte, 1))
					if ne, ok := e.(net.Error); ok && ne.Timeout() {
						fail("raw %v: connection %d without heartbeats is never closed", raw, i)
					} else if d := time.Since(t0); d < 3*I-I/4 {
						fail("raw %v: connection %d without heartbeats closed after %v, the interval is %v", raw, i, d, I)
					}
					c.Close()
				}
				if m := atomic.LoadInt32(&loss); bad == "" && m != int32(n) {
					fail("raw %v: %d connections lost, %d callbacks", raw, n, m)
				}
			})
		}
	}
	// a server that broadcasts its end
	par(func() {
		srv := NewTcpX(nil)
		srv.WithBroadCastSignal(true)
		conn := &vConn{}
		ctx := NewContext(conn, JsonMarshaller{})
		go broadcastSignalWatch(ctx, srv)
		time.Sleep(I)
		if conn.nclosed() > 0 {
			fail("the shutdown watch closed a connection of a running server")
		}
		close(srv.closeAllSignal)
		if !vWait(2*time.Second, func() bool { return conn.nclosed() > 0 }) {
			fail("the shutdown watch did not close the connection")
		}
		conn2 := &vConn{}
		ctx2 := NewContext(conn2, JsonMarshaller{})
		srv2 := NewTcpX(nil)
		srv2.WithBroadCastSignal(true)
		done := make(chan int)
		go func() { broadcastSignalWatch(ctx2, srv2); close(done) }()
		close(ctx2.recvEnd)
		select {
		case <-done:
		case <-time.After(2 * time.Second):
			fail("the shutdown watch outlives its connection")
		}
		if conn2.nclosed() > 0 {
			fail("the shutdown watch closed a connection that had ended by itself")
		}
	})
	wg.Wait()
	if bad != "" {
		vFail(t, "%s", bad)
	}
}
