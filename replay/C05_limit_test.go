package tcpx

import (
	"bytes"
	"encoding/binary"
	"io"
	"runtime"
	"sync/atomic"
	"testing"
	"time"
)

func TestReplayC05(t *testing.T) {
	p := *packx
	fs := map[string]func(io.Reader, int32) ([]byte, error){
		"FirstBlockOfLimitMaxByte":       FirstBlockOfLimitMaxByte,
		"Packx.FirstBlockOfLimitMaxByte": p.FirstBlockOfLimitMaxByte,
		"UnpackToBlockFromReaderLimitMaxLengthOfByte": func(r io.Reader, m int32) ([]byte, error) {
			if m <= 0 {
				return UnpackToBlockFromReader(r)
			}
			return UnpackToBlockFromReaderLimitMaxLengthOfByte(r, int(m))
		},
	}
	for what, f := range fs {
		for _, max := range []int32{-1 << 31, -1, 0, 1, 2, 3, 4, 5, 12, 16, 17, 100, 255, 256, 257, 1000, 65535, 65536, 1 << 20, 1<<31 - 1} {
			for _, l := range []uint32{0, 1, 2, 3, 4, 5, 11, 12, 13, 15, 16, 17, 18, 99, 100, 101, 103, 104, 105, 255, 256, 257, 258, 999, 1000, 1001, 1004, 1005, 65535, 65536, 65537, 65540, 1 << 20, 1<<20 + 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
				over := max > 0 && l > uint32(max)
				if !over && l > 1<<21 {
					continue
				}
				n := int(l)
				if over {
					n = 64
				}
				b := make([]byte, 4+n)
				for i := range b {
					b[i] = byte(i + 3)
				}
				binary.BigEndian.PutUint32(b, l)
				rd := &vReader{data: append([]byte{}, b...), err: io.EOF}
				var m0, m1 runtime.MemStats
				if over && l > 1<<20 {
					runtime.ReadMemStats(&m0)
				}
				var o []byte
				var e error
				if p := vPanics(func() { o, e = f(rd, max) }); p != nil {
					vFail(t, "%s: limit %d, announced %d: panic %v", what, max, l, p)
				}
				if over {
					if l > 1<<20 {
						runtime.ReadMemStats(&m1)
						if m1.TotalAlloc-m0.TotalAlloc > 1<<19 {
							vFail(t, "%s: limit %d, announced %d: %d bytes allocated", what, max, l, m1.TotalAlloc-m0.TotalAlloc)
						}
					}
					if e == nil || len(o) != 0 {
						vFail(t, "%s: limit %d, announced %d: not refused", what, max, l)
					}
					if rd.n != 4 {
						vFail(t, "%s: limit %d, announced %d: %d bytes read before refusing", what, max, l, rd.n)
					}
				} else if e != nil || !bytes.Equal(o, b) {
					vFail(t, "%s: limit %d, announced %d: %d bytes, %v", what, max, l, len(o), e)
				}
			}
		}
	}
	// the server applies its limit to single and to piped messages
	for _, max := range []int32{0, -5, 40, 64, 1000} {
		srv := NewTcpX(nil)
		srv.SetMaxBytePerMessage(max)
		var got int64
		srv.OnMessage = func(c *Context) { atomic.AddInt64(&got, int64(len(c.Stream))) }
		addr, _ := vServe(t, srv, "tcp", srv.ListenAndServeTCP)
		for _, pipe := range []bool{false, true} {
			for _, n := range []int{40, 41, 64, 65, 1000, 1001, 5000} {
				atomic.StoreInt64(&got, 0)
				c := vDial(t, "tcp", addr)
				b := vBlock(1, []byte("{}"), make([]byte, n-14))
				want := int64(len(b))
				if max > 0 && int32(n) > max {
					want = 0
				}
				if pipe {
					first := vBlock(1, []byte(`{"`+PIPED+`":"enable;2"}`), nil)
					if max > 0 && len(first)-4 > int(max) {
						c.Close()
						continue
					}
					b = append(first, b...)
					want += int64(len(first))
				}
				c.Write(b)
				c.SetReadDeadline(time.Now().Add(3 * time.Second))
				if max > 0 && int32(n) > max {
					if _, e := c.Read(make([]byte, 1)); e == nil {
						vFail(t, "server: limit %d, message of %d: answered", max, n)
					}
				}
				ok := vWait(2*time.Second, func() bool { return atomic.LoadInt64(&got) == want })
				time.Sleep(5 * time.Millisecond)
				if g := atomic.LoadInt64(&got); !ok || g != want {
					vFail(t, "server: limit %d, message announcing %d (in a pipe: %v): handler saw %d bytes, want %d", max, n, pipe, g, want)
				}
				c.Close()
			}
		}
		vStop(srv)
	}
}
