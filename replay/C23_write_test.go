package tcpx

import (
	"bytes"
	"io"
	"os"
	"syscall"
	"testing"
	"time"
)

func TestReplayC23(t *testing.T) {
	r := vRand()
	fs := map[string]func(b []byte, c *vConn) error{
		"WriteConn": func(b []byte, c *vConn) error { return WriteConn(b, c) },
		"write":     func(b []byte, c *vConn) error { return write(c, b) },
	}
	for what, f := range fs {
		for n := 0; n < 3000; n++ {
			b := make([]byte, r.Intn(30))
			if n%50 == 0 {
				b = make([]byte, r.Intn(5000))
			}
			r.Read(b)
			var split []int
			for k := r.Intn(12); k > 0; k-- {
				split = append(split, r.Intn(9))
			}
			fail := 0
			if r.Intn(3) == 0 {
				fail = 1 + r.Intn(6)
			}
			c := &vConn{split: append([]int{}, split...), failAt: fail, failN: r.Intn(4), failOnce: r.Intn(2) == 0, failErr: []error{nil, io.EOF, os.ErrDeadlineExceeded, io.ErrShortWrite, syscall.EAGAIN, syscall.EINTR}[r.Intn(6)]}
			in := append([]byte{}, b...)
			var e error
			var p interface{}
			if !vWithin(3*time.Second, func() { p = vPanics(func() { e = f(b, c) }) }) {
				vFail(t, "%s of %d bytes with partial writes %v does not end", what, len(b), split)
			}
			if p != nil {
				vFail(t, "%s of %d bytes with partial writes %v: panic %v", what, len(b), split, p)
			}
			got := c.all()
			if e == nil && !bytes.Equal(got, in) {
				vFail(t, "%s of %v with partial writes %v (failing from write %d): reported success, written %v", what, in, split, fail, got)
			}
			if e == nil && c.failed {
				vFail(t, "%s of %v: write %d failed (%v), no error", what, in, fail, c.failErr)
			}
			if e != nil && !c.failed {
				vFail(t, "%s of %v with partial writes %v: error %v", what, in, split, e)
			}
			if !bytes.HasPrefix(in, got) {
				vFail(t, "%s of %v with partial writes %v: written %v", what, in, split, got)
			}
			if !bytes.Equal(in, b) {
				vFail(t, "%s alters the buffer", what)
			}
		}
	}
}
