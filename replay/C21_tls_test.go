package tcpx

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func vCert(t *testing.T, name string) tls.Certificate {
	k, e := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if e != nil {
		t.Fatal(e)
	}
	c := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), DNSNames: []string{name}}
	der, e := x509.CreateCertificate(rand.Reader, c, c, &k.PublicKey, k)
	if e != nil {
		t.Fatal(e)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
}

func TestReplayC21(t *testing.T) {
	cert := vCert(t, "one")
	for _, network := range []string{"tcp", "tcp4", "unix"} {
		for _, raw := range []bool{false, true} {
			for _, secure := range []bool{true, false} {
				for _, restart := range []bool{false, true} {
					if restart && (raw || network == "unix") {
						continue
					}
					srv := NewTcpX(nil)
					if secure {
						srv.TLSConfig = &tls.Config{Certificates: []tls.Certificate{cert}, MinVersion: tls.VersionTLS13}
					}
					hit := make(chan int, 10)
					srv.OnMessage = func(c *Context) { hit <- 1 }
					srv.HandleRaw = func(c *Context) {
						b := make([]byte, 4)
						if n, _ := c.ConnReader.Read(b); n > 0 {
							hit <- 1
						}
					}
					serve := srv.ListenAndServe
					if raw {
						serve = srv.ListenAndServeRaw
					}
					addr, _ := vServe(t, srv, network, serve)
					if restart {
						// the address of the listener is chosen by the system: register it as such
						srv.pLock.Lock()
						srv.properties[0].Port = addr
						srv.pLock.Unlock()
						srv.Stop(false)
						time.Sleep(50 * time.Millisecond)
						go srv.Start()
						time.Sleep(150 * time.Millisecond)
					}
					nw := network
					if nw == "tcp4" {
						nw = "tcp"
					}
					try := func(c net.Conn) bool {
						defer c.Close()
						c.Write(vBlock(1, []byte("{}"), []byte("hello")))
						select {
						case <-hit:
							return true
						case <-time.After(400 * time.Millisecond):
							return false
						}
					}
					c, e := net.Dial(nw, addr)
					plain := e == nil && try(c)
					c, e = net.Dial(nw, addr)
					overTLS := false
					if e == nil {
						tc := tls.Client(c, &tls.Config{InsecureSkipVerify: true})
						tc.SetDeadline(time.Now().Add(time.Second))
						if tc.Handshake() == nil {
							overTLS = tc.ConnectionState().Version == tls.VersionTLS13 && try(tc)
						}
					}
					if plain == secure || overTLS != secure {
						vFail(t, "network %s, raw %v, TLS configured %v, restarted %v: a plain client is served: %v, a TLS client: %v", network, raw, secure, restart, plain, overTLS)
					}
					// a version the configuration does not allow
					if secure {
						c, e = net.Dial(nw, addr)
						if e == nil {
							tc := tls.Client(c, &tls.Config{InsecureSkipVerify: true, MaxVersion: tls.VersionTLS12})
							tc.SetDeadline(time.Now().Add(time.Second))
							if tc.Handshake() == nil {
								vFail(t, "network %s, raw %v: a client below the configured minimum version is served", network, raw)
							}
							c.Close()
						}
					}
					vStop(srv)
				}
			}
		}
	}
	// failures to listen are returned
	l, e := net.Listen("tcp", "127.0.0.1:0")
	if e != nil {
		t.Fatal(e)
	}
	defer l.Close()
	for _, cfg := range []*tls.Config{nil, {Certificates: []tls.Certificate{cert}}, {}} {
		for _, raw := range []bool{false, true} {
			for _, addr := range []string{l.Addr().String(), "127.0.0.1:0", "127.0.0.1:99999"} {
				if addr == "127.0.0.1:0" && (cfg == nil || len(cfg.Certificates) > 0) {
					continue
				}
				srv := NewTcpX(nil)
				srv.TLSConfig = cfg
				serve := srv.ListenAndServe
				if raw {
					serve = srv.ListenAndServeRaw
				}
				var e error
				if !vWithin(time.Second, func() { e = serve("tcp", addr) }) {
					vFail(t, "listening on %s (taken or invalid, raw %v, TLS %v) serves", addr, raw, cfg != nil)
				}
				if e == nil {
					vFail(t, "listening on %s (taken or invalid, raw %v, TLS %v): the failure is not returned", addr, raw, cfg != nil)
				}
			}
		}
	}
	// certificates from files
	d := t.TempDir()
	kb, _ := x509.MarshalECPrivateKey(cert.PrivateKey.(*ecdsa.PrivateKey))
	cf, kf := filepath.Join(d, "cert.pem"), filepath.Join(d, "key.pem")
	os.WriteFile(cf, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: cert.Certificate[0]}), 0600)
	os.WriteFile(kf, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0600)
	srv := NewTcpX(nil)
	if e := srv.LoadTLSFile(cf, kf); e != nil || srv.TLSConfig == nil || len(srv.TLSConfig.Certificates) != 1 {
		vFail(t, "LoadTLSFile of a good pair: %v", e)
	}
	was := srv.TLSConfig
	if e := srv.LoadTLSFile(kf, cf); e == nil || srv.TLSConfig != was {
		vFail(t, "LoadTLSFile of a bad pair: %v, configuration changed: %v", e, srv.TLSConfig != was)
	}
}
