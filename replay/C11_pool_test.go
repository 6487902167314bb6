package tcpx

import (
	"fmt"
	"sync"
	"testing"
	"time"
)

func TestReplayC11(t *testing.T) {
	rnd := vRand()
	names := []string{"a", "b", "", "tcpx", "a "}
	for round := 0; round < 400; round++ {
		p := NewClientPool()
		users := vUsers(3, p)
		want := map[string]*Context{}
		name := map[int]string{}
		var log []string
		for step := 0; step < 25; step++ {
			i := rnd.Intn(len(users))
			c := users[i][rnd.Intn(len(users[i]))]
			n := names[rnd.Intn(len(names))]
			op := rnd.Intn(7)
			log = append(log, fmt.Sprintf("%d:%s:%d", op, n, i))
			done := vWithin(10*time.Second, func() {
				switch op {
				case 0, 1, 2:
					e := c.Online(n)
					if (e != nil) != (n == "") {
						vFail(t, "%v: Online(%q): %v", log, n, e)
					}
					if n != "" {
						want[n] = c
						name[i] = n
					}
				case 3:
					e := c.Offline()
					if u, ok := name[i]; (e == nil) != ok {
						vFail(t, "%v: Offline of user %q %v: %v", log, u, ok, e)
					} else if ok && want[u] != nil && want[u].userState == c.userState {
						delete(want, u)
					}
				case 4:
					c.CloseConn()
					if u, ok := name[i]; ok && want[u] != nil && want[u].userState == c.userState {
						delete(want, u)
					}
				case 5:
					p.Offline(n)
					delete(want, n)
				case 6:
					p.SetClientPool(n, c)
					want[n] = c
				}
			})
			if !done {
				vFail(t, "%v: does not end", log)
			}
			if !vWithin(10*time.Second, func() {
				for _, n := range names {
					if got := p.GetClientPool(n); got != want[n] {
						vFail(t, "%v: the pool has %p for %q, want %p", log, got, n, want[n])
					}
					if p.isOnline(n) != (want[n] != nil) {
						vFail(t, "%v: isOnline(%q) is %v", log, n, p.isOnline(n))
					}
				}
			}) {
				vFail(t, "%v: a lookup does not end: the lock was not released", log)
			}
		}
	}
	// without a pool
	c := NewContext(&vConn{}, nil)
	if c.Online("x") == nil || c.Offline() == nil {
		vFail(t, "Online/Offline without a pool is not refused")
	}
	// two connections compete for a name: the one that came last stays
	for i := 0; i < 3000; i++ {
		p := NewClientPool()
		u := vUsers(2, p)
		u[0][0].Online("n")
		var w sync.WaitGroup
		w.Add(2)
		go func() { defer w.Done(); u[0][1].CloseConn() }()
		go func() { defer w.Done(); u[1][0].Online("n") }()
		w.Wait()
		if p.GetClientPool("n") != u[1][0] {
			vFail(t, "Online of a second connection while the first closes: its entry is %p, want %p", p.GetClientPool("n"), u[1][0])
		}
	}
	// concurrent use of the pool
	p := NewClientPool()
	u := vUsers(8, p)
	var w sync.WaitGroup
	for i := range u {
		w.Add(1)
		go func(i int) {
			defer w.Done()
			for k := 0; k < 400; k++ {
				u[i][k%3].Online(fmt.Sprint("n", (i+k)%4))
				u[i][0].SendToUsername(fmt.Sprint("n", k%4), 1, "x")
				p.isOnline("n1")
				u[i][(k+1)%3].Offline()
			}
		}(i)
	}
	if !vWithin(30*time.Second, w.Wait) {
		vFail(t, "concurrent Online, Offline and SendToUsername do not end")
	}
	// the same while everything is closed
	srv := NewTcpX(nil)
	srv.WithBuiltInPool(true)
	old := srv.pool
	u = vUsers(20, old)
	for i := range u {
		u[i][0].Online(fmt.Sprint("n", i))
	}
	if !vWithin(10*time.Second, srv.closeAllConnection) {
		vFail(t, "closing all connections does not end")
	}
	if !vWait(5*time.Second, func() bool {
		for i := range u {
			if u[i][0].Conn.(*vConn).nclosed() == 0 {
				return false
			}
		}
		return true
	}) {
		vFail(t, "closing all connections leaves a connection open")
	}
	if !vWithin(5*time.Second, func() {
		for i := range u {
			if old.GetClientPool(fmt.Sprint("n", i)) != nil || srv.pool.GetClientPool(fmt.Sprint("n", i)) != nil {
				vFail(t, "closing all connections leaves n%d in the pool", i)
			}
		}
	}) {
		vFail(t, "after closing all connections the pool is locked")
	}
}
