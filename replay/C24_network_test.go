package tcpx

import (
	"net"
	"strings"
	"testing"
	"time"
)

func vIn(s string, arr []string) bool {
	for _, v := range arr {
		switch {
		case !strings.Contains(v, "%"):
			if v == s {
				return true
			}
		case len(v) > 1 && v[0] == '%' && v[len(v)-1] == '%':
			if strings.Contains(s, v[1:len(v)-1]) {
				return true
			}
		case v[0] == '%':
			if strings.HasSuffix(s, v[1:]) {
				return true
			}
		case v[len(v)-1] == '%':
			if strings.HasPrefix(s, v[:len(v)-1]) {
				return true
			}
		}
	}
	return false
}

func TestReplayC24(t *testing.T) {
	r := vRand()
	al := "ab%"
	word := func(n int) string {
		b := make([]byte, r.Intn(n))
		for i := range b {
			b[i] = al[r.Intn(len(al))]
		}
		return string(b)
	}
	for n := 0; n < 200000; n++ {
		s := word(5)
		var arr []string
		for k := r.Intn(4); k > 0; k-- {
			arr = append(arr, word(5))
		}
		var got bool
		if p := vPanics(func() { got = In(s, arr) }); p != nil {
			vFail(t, "In(%q, %q) panics: %v", s, arr, p)
		}
		if got != vIn(s, arr) {
			vFail(t, "In(%q, %q) = %v", s, arr, got)
		}
	}
	kinds := map[string]string{}
	for _, n := range []string{"tcp", "tcp4", "tcp6", "unix", "unixpacket"} {
		kinds[n] = "stream"
	}
	for _, n := range []string{"udp", "udp4", "udp6", "unixgram", "ip", "ip4", "ip6", "ip4:icmp", "ip:1", "ipx"} {
		kinds[n] = "datagram"
	}
	for _, n := range []string{"", "kcp", "http", "https", "grpc", "TCP", "Udp", "tcp5", "tcpp", "atcp", "unixx", "uni", "udp5", "uip", "%", "ip%x%", "tcp,udp", "kcp4", "quic", " tcp", "unixgrams"} {
		kinds[n] = "refused"
		if strings.HasPrefix(n, "ip") {
			kinds[n] = "datagram"
		}
	}
	addr := "/no-such-dir-tcpx/no such host:::no such port"
	for n, want := range kinds {
		srv := NewTcpX(nil)
		var e error
		var p interface{}
		if !vWithin(10*time.Second, func() { p = vPanics(func() { e = srv.ListenAndServe(n, addr) }) }) {
			vFail(t, "ListenAndServe(%q, %q) serves", n, addr)
		}
		got := "refused"
		_, isOp := e.(*net.OpError)
		_, isAddr := e.(*net.AddrError)
		_, isDNS := e.(*net.DNSError)
		if p != nil {
			got = "datagram"
		} else if e == nil {
			got = "no error"
		} else if isOp || isAddr || isDNS || strings.Contains(e.Error(), "no such") || strings.Contains(e.Error(), "address") {
			got = "stream"
		}
		if got != want {
			vFail(t, "ListenAndServe(%q, %q): %s (%v, panic %v), want %s", n, addr, got, e, p, want)
		}
		if len(srv.properties) != 0 {
			vFail(t, "ListenAndServe(%q, bad address): %d servers started", n, len(srv.properties))
		}
	}
	for n, want := range map[string]string{"tcp": "stream", "tcp4": "stream", "unix": "stream", "udp": "datagram", "udp4": "datagram"} {
		srv := NewTcpX(nil)
		vServe(t, srv, n, srv.ListenAndServe)
		pr := srv.properties[0]
		got := ""
		switch l := pr.Listener.(type) {
		case net.Listener:
			got = "stream " + l.Addr().Network()
		case net.PacketConn:
			got = "datagram " + l.LocalAddr().Network()
		}
		if !strings.HasPrefix(got, want+" "+n[:3]) || pr.Network != n {
			vFail(t, "ListenAndServe(%q): opened %s, recorded %s", n, got, pr.Network)
		}
		vStop(srv)
	}
}
