package tcpx

import (
	"bytes"
	"encoding/binary"
	"io"
	"testing"
)

func vFrags(r interface{ Intn(int) int }, n int) []int {
	switch r.Intn(4) {
	case 0:
		return nil
	case 1:
		s := make([]int, 2*n+8)
		for i := range s {
			s[i] = 1
		}
		return s
	}
	var s []int
	for k := 0; k < n+4; k++ {
		s = append(s, r.Intn(8)) // reads of zero bytes included
	}
	return s
}

func vReaders() map[string]func(io.Reader) ([]byte, error) {
	p := *packx
	return map[string]func(io.Reader) ([]byte, error){
		"FirstBlockOf":                               FirstBlockOf,
		"Packx.FirstBlockOf":                         p.FirstBlockOf,
		"UnpackToBlockFromReader":                    UnpackToBlockFromReader,
		"FirstBlockOfLimitMaxByte(0)":                func(r io.Reader) ([]byte, error) { return FirstBlockOfLimitMaxByte(r, 0) },
		"FirstBlockOfLimitMaxByte(1<<20)":            func(r io.Reader) ([]byte, error) { return FirstBlockOfLimitMaxByte(r, 1<<20) },
		"Packx.FirstBlockOfLimitMaxByte(1<<20)":      func(r io.Reader) ([]byte, error) { return p.FirstBlockOfLimitMaxByte(r, 1<<20) },
		"UnpackToBlockFromReaderLimitMaxLengthOfByte": func(r io.Reader) ([]byte, error) { return UnpackToBlockFromReaderLimitMaxLengthOfByte(r, 1<<20) },
		"Recv": func(r io.Reader) ([]byte, error) { b, e := Recv(&vConn{in: r}); return b, e },
	}
}

func TestReplayC04(t *testing.T) {
	r := vRand()
	for what, f := range vReaders() {
		for n := 0; n < 400; n++ {
			var data []byte
			var blocks [][]byte
			for k := 1 + r.Intn(3); k > 0; k-- {
				l := r.Intn(40)
				if n%40 == 0 {
					l = 1000 + r.Intn(9000)
				}
				b := make([]byte, 4+l)
				r.Read(b[4:])
				binary.BigEndian.PutUint32(b, uint32(l))
				blocks = append(blocks, b)
				data = append(data, b...)
			}
			end, with := io.EOF, r.Intn(2) == 0
			if r.Intn(3) == 0 {
				end = errV
			}
			cut := len(data)
			if n%2 == 1 {
				cut = r.Intn(len(data))
			}
			fr := vFrags(r, cut)
			rd := &vReader{data: append([]byte{}, data[:cut]...), sizes: append([]int{}, fr...), with: with, err: end}
			var got [][]byte
			pos := 0
			for i := 0; i <= len(blocks); i++ {
				var b []byte
				var e error
				if p := vPanics(func() { b, e = f(rd) }); p != nil {
					vFail(t, "%s: stream of %d blocks cut at %d of %d bytes, fragments %v: panic %v", what, len(blocks), cut, len(data), fr, p)
				}
				complete := i < len(blocks) && pos+len(blocks[i]) <= cut
				if complete {
					if e != nil || !bytes.Equal(b, blocks[i]) {
						vFail(t, "%s: block %d of a stream, first %d of %d bytes in fragments %v, end %v with bytes %v: got %d bytes, %v, want %d bytes", what, i, cut, len(data), fr, end, with, len(b), e, len(blocks[i]))
					}
					pos += len(blocks[i])
					if rd.n != pos {
						vFail(t, "%s: block %d: consumed %d bytes of the stream, want %d (fragments %v)", what, i, rd.n, pos, fr)
					}
					got = append(got, b)
				} else {
					if e == nil {
						vFail(t, "%s: stream of %d bytes cut at %d, fragments %v: partial block of %d bytes delivered", what, len(data), cut, fr, len(b))
					}
					if len(b) != 0 {
						vFail(t, "%s: stream cut at %d: bytes %v delivered together with an error", what, cut, b)
					}
					break
				}
			}
			// fresh memory
			for i := range got {
				for j := range got[i] {
					got[i][j] ^= 0x5a
				}
				for k := i + 1; k < len(got); k++ {
					if !bytes.Equal(got[k], blocks[k]) {
						vFail(t, "%s: blocks share memory", what)
					}
				}
			}
		}
	}
	for n := 0; n < 2000; n++ {
		l := r.Intn(60)
		b := make([]byte, 4+l+r.Intn(10))
		r.Read(b)
		binary.BigEndian.PutUint32(b, uint32(l+r.Intn(3)*r.Intn(20)))
		in := append([]byte{}, b...)
		want := 4 + int(binary.BigEndian.Uint32(b))
		o, e := FirstBlockOfBytes(b)
		if e == nil && (want > len(b) || !bytes.Equal(o, b[:want])) {
			vFail(t, "FirstBlockOfBytes(%v): %v", b, o)
		}
		if e != nil && len(b) >= 16 && want <= len(b) {
			vFail(t, "FirstBlockOfBytes(%v): error %v", b, e)
		}
		if !bytes.Equal(in, b) {
			vFail(t, "FirstBlockOfBytes alters the buffer %v", in)
		}
	}
}
