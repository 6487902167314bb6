package tcpx

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"
)

func TestReplayC17(t *testing.T) {
	var mu sync.Mutex
	var log []string
	srv := NewTcpX(nil)
	h := func(c *Context) {
		b, _ := c.RawStream()
		mu.Lock()
		log = append(log, "<"+string(b))
		mu.Unlock()
		if strings.HasSuffix(string(b), "s") {
			time.Sleep(15 * time.Millisecond)
		}
		mu.Lock()
		log = append(log, string(b)+">")
		mu.Unlock()
		if strings.HasSuffix(string(b), "p") {
			c.Abort()
		}
	}
	srv.AddHandler(1, h)
	srv.AddHandler(2, h)
	addr, _ := vServe(t, srv, "tcp", srv.ListenAndServeTCP)
	msg := func(i int, arg string) []byte {
		hd := []byte("{}")
		if arg != "" {
			hd = vJSON(map[string]interface{}{PIPED: arg})
		}
		suf := ""
		if i%2 == 0 && i < 12 {
			suf = "s"
		}
		return vBlock(int32(1+i%2), hd, []byte(fmt.Sprintf("%d%s", i, suf)))
	}
	for _, n := range []int{1, 2, 3, 4, 5, 6, 9, 17, 33, 65, 130} {
		for after := 0; after <= 2; after++ {
			for cut := -1; cut <= n; cut++ {
				if cut >= 0 && after > 0 || n > 6 && (after > 0 || cut > 0 && cut < n-1) {
					continue
				}
				mu.Lock()
				log = nil
				mu.Unlock()
				c := vDial(t, "tcp", addr)
				want := ""
				k := n
				if cut >= 0 {
					k = cut
				}
				var all []byte
				for i := 0; i < k; i++ {
					arg := ""
					if i == 0 {
						arg = fmt.Sprintf("enable;%d", n)
					}
					all = append(all, msg(i, arg)...)
					suf := ""
					if i%2 == 0 && i < 12 {
						suf = "s"
					}
					want += fmt.Sprintf("<%d%s %d%s> ", i, suf, i, suf)
				}
				if cut >= 0 && cut < n {
					arg := ""
					if cut == 0 {
						arg = fmt.Sprintf("enable;%d", n)
					}
					m := msg(cut, arg)
					all = append(all, m[:len(m)-1]...)
				}
				c.Write(all)
				if after > 0 {
					time.Sleep(time.Duration(n*20) * time.Millisecond)
					for i := 0; i < after; i++ {
						c.Write(msg(100+2*i+1, ""))
						time.Sleep(10 * time.Millisecond)
						want += fmt.Sprintf("<%d %d> ", 100+2*i+1, 100+2*i+1)
					}
				}
				if cut >= 0 {
					c.Close()
				}
				get := func() string { mu.Lock(); defer mu.Unlock(); return strings.Join(log, " ") }
				ok := vWait(3*time.Second, func() bool { return get() == strings.TrimSpace(want) })
				time.Sleep(3 * time.Millisecond)
				if !ok || get() != strings.TrimSpace(want) {
					vFail(t, "pipe of %d, %d messages after it, cut after %d: handled [%s], want [%s]", n, after, cut, get(), strings.TrimSpace(want))
				}
				c.Close()
			}
		}
	}
	// malformed arguments: the connection ends, the server lives
	for _, arg := range []interface{}{"enable;0", "enable;-1", "enable;-9223372036854775808", "enable;9223372036854775807", "enable;9223372036854775808", "enable", "", ";", "enable;x", "enable;1;2", "disable;2", "enable; 2", 3, nil, true, []int{1}} {
		c := vDial(t, "tcp", addr)
		c.Write(vBlock(1, vJSON(map[string]interface{}{PIPED: arg}), []byte("bad")))
		time.Sleep(3 * time.Millisecond)
		c.Close()
		if pan := vPanics(func() {
			ok, n, e := isPipe(vBlock(1, vJSON(map[string]interface{}{PIPED: arg}), nil))
			if e == nil && ok && n < 0 {
				vFail(t, "pipe argument %v: %d further messages", arg, n)
			}
			s, isS := arg.(string)
			wantOK := isS && s == "enable;9223372036854775807"
			if (e == nil && ok) != wantOK {
				vFail(t, "pipe argument %v: taken as a pipe: %v %v", arg, ok, e)
			}
			if (e != nil) != (!wantOK && !(isS && s == "disable;2")) {
				vFail(t, "pipe argument %v: error %v", arg, e)
			}
		}); pan != nil {
			vFail(t, "pipe argument %v: panic %v", arg, pan)
		}
	}
	mu.Lock()
	log = nil
	mu.Unlock()
	c := vDial(t, "tcp", addr)
	c.Write(msg(1, ""))
	if !vWait(3*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return len(log) == 2 }) {
		vFail(t, "after malformed pipes the server handles nothing")
	}
	c.Close()
	vStop(srv)
	// what the client sends
	for n := 1; n <= 4; n++ {
		conn := &vConn{}
		var args []interface{}
		for i := 0; i < n; i++ {
			args = append(args, i+1, fmt.Sprint("b", i))
		}
		if e := PipeJSON(conn, args...); e != nil {
			vFail(t, "PipeJSON of %d: %v", n, e)
		}
		rest := conn.all()
		for i := 0; i < n; i++ {
			b, e := FirstBlockOfBytes(rest)
			if e != nil {
				vFail(t, "PipeJSON of %d: message %d: %v", n, i, e)
			}
			rest = rest[len(b):]
			id, _ := MessageIDOf(b)
			body, _ := BodyBytesOf(b)
			ok, k, e := isPipe(b)
			if int(id) != i+1 || string(body) != fmt.Sprintf(`"b%d"`, i) || e != nil || ok != (i == 0) || (ok && k != n-1) {
				vFail(t, "PipeJSON of %d: message %d is id %d body %s pipe %v %d %v", n, i, id, body, ok, k, e)
			}
		}
		if len(rest) != 0 {
			vFail(t, "PipeJSON of %d: %d bytes too many", n, len(rest))
		}
	}
}
