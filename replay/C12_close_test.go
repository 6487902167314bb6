package tcpx

import (
	"fmt"
	"sync"
	"testing"
	"time"
)

func TestReplayC12(t *testing.T) {
	for _, kind := range []string{"tcp", "udp"} {
		for _, pool := range []string{"none", "anonymous", "user", "taken over"} {
			for _, times := range []int{1, 2, 3} {
				for _, par := range []bool{false, true} {
					for _, fail := range []bool{false, true} {
						name := fmt.Sprintf("%s, pool %s, closed %d times, in parallel %v, failing transport %v", kind, pool, times, par, fail)
						conn, pconn := &vConn{}, &vPacketConn{}
						if fail {
							conn.closeErr = errV
						}
						var c *Context
						if kind == "tcp" {
							c = NewContext(conn, nil)
						} else {
							c = NewUDPContext(pconn, vAddr("peer"), nil)
						}
						var p *ClientPool
						if pool != "none" {
							p = NewClientPool()
							c.poolRef = p
						}
						other := NewContext(&vConn{}, nil)
						other.poolRef = p
						all := []*Context{c, copyContext(*c), copyContext(*c)}
						if kind == "udp" {
							// the user name of a datagram context is kept with the request
							all = []*Context{c, c, c}
						}
						if pool == "user" || pool == "taken over" {
							all[1].Online("u")
						}
						if pool == "taken over" {
							other.Online("u")
						}
						var w sync.WaitGroup
						if !vWithin(10*time.Second, func() {
							for i := 0; i < times; i++ {
								w.Add(1)
								f := func(i int) {
									defer w.Done()
									if pan := vPanics(func() { all[(i+1)%3].CloseConn() }); pan != nil {
										vFail(t, "%s: panic %v", name, pan)
									}
								}
								if par {
									go f(i)
								} else {
									f(i)
								}
							}
							w.Wait()
						}) {
							vFail(t, "%s: CloseConn does not end", name)
						}
						if (kind == "tcp" && conn.nclosed() == 0) || (kind == "udp" && pconn.nclosed() == 0) {
							vFail(t, "%s: the transport is not closed", name)
						}
						if !vWithin(10*time.Second, func() {
							for i, x := range all {
								if !x.IsOffline() || x.IsOnline() {
									vFail(t, "%s: context %d reports offline %v online %v", name, i, x.IsOffline(), x.IsOnline())
								}
								select {
								case <-x.recvEnd:
								default:
									vFail(t, "%s: context %d: the watchers are not told to end", name, i)
								}
								select {
								case <-x.recvEnd:
								default:
									vFail(t, "%s: context %d: only one watcher is told to end", name, i)
								}
								x.GetPoolRef()
								x.L.Lock()
								x.L.Unlock()
							}
							if p != nil {
								got := p.GetClientPool("u")
								if pool == "taken over" && got != other {
									vFail(t, "%s: the entry of another connection is %p, want %p", name, got, other)
								}
								if pool == "user" && got != nil {
									vFail(t, "%s: the user is still in the pool", name)
								}
								p.SetClientPool("v", c)
							}
						}) {
							vFail(t, "%s: a lock is not released", name)
						}
						all[0].Online("w")
						if !all[0].IsOffline() {
							vFail(t, "%s: Online revived the closed connection", name)
						}
					}
				}
			}
		}
	}
}
