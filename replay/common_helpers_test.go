package tcpx

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"testing"
	"time"
)

// vSeed is the seed of every random choice of the harnesses
func vSeed() int64 {
	n, e := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if e != nil {
		n = 1
	}
	return n
}

func vRand() *rand.Rand { return rand.New(rand.NewSource(vSeed())) }

// vFail reports a failing input on the real code
func vFail(t *testing.T, format string, args ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(format, args...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	fmt.Println("\nFAILING-INPUT: " + s)
	t.FailNow()
}

// vWithin runs f and reports whether it ended in time
func vWithin(d time.Duration, f func()) bool {
	ch := make(chan struct{})
	go func() { defer close(ch); f() }()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}

// vPanics runs f and returns the panic value, if any
func vPanics(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func vWait(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		if cond() {
			return true
		}
		time.Sleep(2 * time.Millisecond)
	}
	return cond()
}

// vBlock: the documented layout
func vBlock(id int32, header, body []byte) []byte {
	b := make([]byte, 16)
	binary.BigEndian.PutUint32(b[0:], uint32(12+len(header)+len(body)))
	binary.BigEndian.PutUint32(b[4:], uint32(id))
	binary.BigEndian.PutUint32(b[8:], uint32(len(header)))
	binary.BigEndian.PutUint32(b[12:], uint32(len(body)))
	return append(append(b, header...), body...)
}

func vJSON(v interface{}) []byte {
	b, e := json.Marshal(v)
	if e != nil {
		panic(e)
	}
	return b
}

// vReader delivers data in the given fragments; the end (err) comes alone or together with the last bytes
type vReader struct {
	data  []byte
	sizes []int
	with  bool
	err   error
	n     int
	reads int
}

func (r *vReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	r.reads++
	if r.reads > 1000000 {
		panic("reads forever")
	}
	if len(r.data) == 0 {
		return 0, r.err
	}
	k := len(p)
	if len(r.sizes) > 0 {
		if r.sizes[0] < k {
			k = r.sizes[0]
		}
		r.sizes = r.sizes[1:]
	}
	if k > len(r.data) {
		k = len(r.data)
	}
	copy(p, r.data[:k])
	r.data = r.data[k:]
	r.n += k
	if len(r.data) == 0 && r.with {
		return k, r.err
	}
	return k, nil
}

var errV = errors.New("transport failed")

// vConn is a recording connection
type vConn struct {
	mu       sync.Mutex
	in       io.Reader
	writes   [][]byte
	split    []int
	failAt   int // fail the write with this index (from 1)
	failN    int // bytes the failing write still takes
	failOnce bool
	failErr  error
	failed   bool
	closed   int
	rd, wd   time.Time
	closeErr error
	onClose  func()
	onRead   func()
}

func (c *vConn) Read(p []byte) (int, error) {
	if c.onRead != nil {
		c.onRead()
	}
	if c.in == nil {
		return 0, io.EOF
	}
	return c.in.Read(p)
}
func (c *vConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.writes) > 100000 {
		panic("writes forever")
	}
	n := len(p)
	if len(c.split) > 0 {
		if c.split[0] < n {
			n = c.split[0]
		}
		c.split = c.split[1:]
	}
	if c.failAt > 0 && len(c.writes)+1 >= c.failAt && !(c.failed && c.failOnce) {
		c.failed = true
		if n > c.failN {
			n = c.failN
		}
		c.writes = append(c.writes, append([]byte{}, p[:n]...))
		if c.failErr != nil {
			return n, c.failErr
		}
		return n, errV
	}
	c.writes = append(c.writes, append([]byte{}, p[:n]...))
	return n, nil
}
func (c *vConn) all() []byte { return bytes.Join(c.writes, nil) }
func (c *vConn) Close() error {
	c.mu.Lock()
	c.closed++
	c.mu.Unlock()
	if c.onClose != nil {
		c.onClose()
	}
	return c.closeErr
}
func (c *vConn) nclosed() int       { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }
func (c *vConn) LocalAddr() net.Addr  { return vAddr("local:1") }
func (c *vConn) RemoteAddr() net.Addr { return vAddr("10.1.1.1:99") }
func (c *vConn) SetDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rd, c.wd = t, t
	return nil
}
func (c *vConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rd = t
	return nil
}
func (c *vConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wd = t
	return nil
}

type vAddr string

func (a vAddr) Network() string { return "v" }
func (a vAddr) String() string  { return string(a) }

// vPacketConn is a recording datagram connection
type vPacketConn struct {
	vConn
	to []net.Addr
}

func (c *vPacketConn) ReadFrom(p []byte) (int, net.Addr, error) { return 0, nil, io.EOF }
func (c *vPacketConn) WriteTo(p []byte, a net.Addr) (int, error) {
	n, e := c.vConn.Write(p)
	if e == nil {
		c.to = append(c.to, a)
	}
	return n, e
}

// vServe starts a stream server on a free port and returns its address
func vServe(t *testing.T, srv *TcpX, network string, serve func(network, addr string) error) (string, chan error) {
	t.Helper()
	addr := "127.0.0.1:0"
	if network == "unix" {
		d, e := os.MkdirTemp("", "tcpxv")
		if e != nil {
			t.Fatal(e)
		}
		t.Cleanup(func() { os.RemoveAll(d) })
		addr = filepath.Join(d, "s")
	}
	done := make(chan error, 1)
	n0 := len(srv.properties)
	go func() { done <- serve(network, addr) }()
	var real string
	ok := vWait(5*time.Second, func() bool {
		srv.pLock.RLock()
		defer srv.pLock.RUnlock()
		if len(srv.properties) <= n0 && n0 != 0 || len(srv.properties) == 0 || srv.state != STATE_RUNNING {
			return false
		}
		p := srv.properties[len(srv.properties)-1]
		switch l := p.Listener.(type) {
		case net.Listener:
			real = l.Addr().String()
		case net.PacketConn:
			real = l.LocalAddr().String()
		}
		return true
	})
	if !ok {
		t.Fatalf("server did not start on %s", network)
	}
	return real, done
}

func vStop(srv *TcpX) { vWithin(3*time.Second, func() { srv.Stop(false) }) }

func vDial(t *testing.T, network, addr string) net.Conn {
	t.Helper()
	c, e := net.DialTimeout(network, addr, 3*time.Second)
	if e != nil {
		t.Fatal(e)
	}
	return c
}

// vUsers makes n contexts of different connections with the given pool, each with copies
func vUsers(n int, p *ClientPool) [][]*Context {
	var r [][]*Context
	for i := 0; i < n; i++ {
		c := NewContext(&vConn{}, nil)
		c.poolRef = p
		r = append(r, []*Context{c, copyContext(*c), copyContext(*c)})
	}
	return r
}
