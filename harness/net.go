package main

// A fake internet: an HTTP proxy (with TLS interception using a throw-away CA) and
// plain HTTP server on the loopback. Every request, connection attempt and answer is
// recorded against the scenario (identified by the proxy user or by the /r/<token>/
// path prefix) it belongs to.

import (
	"bufio"
	"compress/gzip"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type Net struct {
	Addr   string
	CAFile string
	ca     *x509.Certificate
	caKey  *ecdsa.PrivateKey
	key    *ecdsa.PrivateKey
	mu     sync.Mutex
	certs  map[string]*tls.Certificate
	scen   map[string]*Scenario
	conns  chan net.Conn
	stray  []string
}

// Req is one recorded request.
type Req struct {
	Seq     int
	Method  string
	URL     string
	Host    string
	Path    string
	Header  http.Header
	Body    []byte
	Via     string // "proxy", "tls" or "direct"
	Handled bool
}

// Scenario answers the requests of one or more runs.
type Scenario struct {
	Token   string
	mu      sync.Mutex
	Reqs    []*Req
	Connect []string // hosts that connections were asked for
	Handle  func(w http.ResponseWriter, q *Req)
}

func (s *Scenario) Reset() {
	s.mu.Lock()
	s.Reqs, s.Connect = nil, nil
	s.mu.Unlock()
}

func (s *Scenario) Requests() []*Req {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Req{}, s.Reqs...)
}

func (s *Scenario) Activity() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var l []string
	for _, h := range s.Connect {
		l = append(l, "CONNECT "+h)
	}
	for _, q := range s.Reqs {
		l = append(l, q.Method+" "+q.URL)
	}
	return l
}

type tokConn struct {
	net.Conn
	token string
}

type chanListener struct {
	ch   chan net.Conn
	addr net.Addr
}

func (l chanListener) Accept() (net.Conn, error) {
	c, ok := <-l.ch
	if !ok {
		return nil, io.EOF
	}
	return c, nil
}
func (l chanListener) Close() error   { return nil }
func (l chanListener) Addr() net.Addr { return l.addr }

type ctxKey struct{}

func (c *Ctx) startNet() {
	n := &Net{certs: map[string]*tls.Certificate{}, scen: map[string]*Scenario{}, conns: make(chan net.Conn)}
	var err error
	n.caKey, err = ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	n.key, err = ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif throw-away CA"},
		NotBefore: time.Now().Add(-24 * 365 * time.Hour), NotAfter: time.Now().Add(24 * 365 * time.Hour),
		IsCA: true, KeyUsage: x509.KeyUsageCertSign, BasicConstraintsValid: true,
	}
	der, err := x509.CreateCertificate(crand.Reader, tmpl, tmpl, &n.caKey.PublicKey, n.caKey)
	must(err)
	n.ca, err = x509.ParseCertificate(der)
	must(err)
	n.CAFile = filepath.Join(c.Work, "ca.pem")
	must(os.WriteFile(n.CAFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644))

	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	n.Addr = ln.Addr().String()
	srv := &http.Server{Handler: http.HandlerFunc(n.serve), ErrorLog: nolog()}
	go srv.Serve(ln)
	inner := &http.Server{Handler: http.HandlerFunc(n.serveTLS), ErrorLog: nolog()}
	inner.ConnContext = connContext
	go inner.Serve(chanListener{n.conns, ln.Addr()})
	c.net = n
}

func (n *Net) cert(host string) (*tls.Certificate, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if c := n.certs[host]; c != nil {
		return c, nil
	}
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(int64(len(n.certs) + 2)), Subject: pkix.Name{CommonName: host}, DNSNames: []string{host},
		NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * 300 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	der, err := x509.CreateCertificate(crand.Reader, tmpl, n.ca, &n.key.PublicKey, n.caKey)
	if err != nil {
		return nil, err
	}
	c := &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: n.key}
	n.certs[host] = c
	return c, nil
}

// Scenario registers a handler and returns its token.
func (c *Ctx) Scenario(h func(w http.ResponseWriter, q *Req)) *Scenario {
	s := &Scenario{Token: fmt.Sprintf("t%d", c.seq.Add(1)), Handle: h}
	c.net.mu.Lock()
	c.net.scen[s.Token] = s
	c.net.mu.Unlock()
	return s
}

func (c *Ctx) EndScenario(s *Scenario) {
	c.net.mu.Lock()
	delete(c.net.scen, s.Token)
	c.net.mu.Unlock()
}

// URL is a plain http URL on the loopback that reaches the scenario directly.
func (c *Ctx) URL(s *Scenario, path string) string {
	return "http://" + c.net.Addr + "/r/" + s.Token + path
}

func (n *Net) find(token string) *Scenario {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.scen[token]
}

func proxyToken(r *http.Request) string {
	a := strings.TrimPrefix(r.Header.Get("Proxy-Authorization"), "Basic ")
	b, _ := base64.StdEncoding.DecodeString(a)
	u, _, _ := strings.Cut(string(b), ":")
	return u
}

func (n *Net) serve(w http.ResponseWriter, r *http.Request) {
	if r.Method == http.MethodConnect {
		tok := proxyToken(r)
		s := n.find(tok)
		if s == nil {
			http.Error(w, "unknown scenario", http.StatusForbidden)
			return
		}
		s.mu.Lock()
		s.Connect = append(s.Connect, r.Host)
		s.mu.Unlock()
		host, _, _ := net.SplitHostPort(r.Host)
		conn, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		_, _ = conn.Write([]byte("HTTP/1.1 200 Connection Established\r\n\r\n"))
		tc := tls.Server(conn, &tls.Config{GetCertificate: func(ci *tls.ClientHelloInfo) (*tls.Certificate, error) {
			return n.cert(orDefault(ci.ServerName, host))
		}})
		n.conns <- tokConn{tc, tok}
		return
	}
	if r.URL.IsAbs() { // plain http through the proxy
		s := n.find(proxyToken(r))
		if s == nil {
			http.Error(w, "unknown scenario", http.StatusForbidden)
			return
		}
		n.dispatch(w, r, s, "proxy", r.URL.String(), r.URL.Host, r.URL.RequestURI())
		return
	}
	rest, ok := strings.CutPrefix(r.URL.EscapedPath(), "/r/")
	tok, path, _ := strings.Cut(rest, "/")
	s := n.find(tok)
	if !ok || s == nil {
		http.Error(w, "unknown scenario", http.StatusForbidden)
		return
	}
	p := "/" + path
	if r.URL.RawQuery != "" {
		p += "?" + r.URL.RawQuery
	}
	n.dispatch(w, r, s, "direct", "http://"+r.Host+r.URL.RequestURI(), r.Host, p)
}

func (n *Net) serveTLS(w http.ResponseWriter, r *http.Request) {
	tok, _ := r.Context().Value(ctxKey{}).(string)
	s := n.find(tok)
	if s == nil {
		http.Error(w, "unknown scenario", http.StatusForbidden)
		return
	}
	n.dispatch(w, r, s, "tls", "https://"+r.Host+r.URL.RequestURI(), r.Host, r.URL.RequestURI())
}

func (n *Net) dispatch(w http.ResponseWriter, r *http.Request, s *Scenario, via, url, host, path string) {
	body, _ := io.ReadAll(r.Body)
	q := &Req{Method: r.Method, URL: url, Host: host, Path: path, Header: r.Header.Clone(), Body: body, Via: via}
	s.mu.Lock()
	q.Seq = len(s.Reqs)
	s.Reqs = append(s.Reqs, q)
	s.mu.Unlock()
	// any server may compress its answers when the client says that it understands that
	if strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") && (q.Seq+len(s.Token)+int(s.Token[len(s.Token)-1]))%3 == 0 {
		z := &zipped{ResponseWriter: w}
		s.Handle(z, q)
		z.Close()
		return
	}
	s.Handle(w, q)
}

// zipped compresses successful answers whose length was not announced.
type zipped struct {
	http.ResponseWriter
	gz   *gzip.Writer
	done bool
}

func (z *zipped) WriteHeader(code int) {
	if !z.done {
		z.done = true
		if h := z.Header(); code == http.StatusOK && h.Get("Content-Length") == "" && h.Get("Content-Encoding") == "" {
			h.Set("Content-Encoding", "gzip")
			z.gz = gzip.NewWriter(z.ResponseWriter)
		}
	}
	z.ResponseWriter.WriteHeader(code)
}

func (z *zipped) Write(b []byte) (int, error) {
	if !z.done {
		z.WriteHeader(http.StatusOK)
	}
	if z.gz != nil {
		return z.gz.Write(b)
	}
	return z.ResponseWriter.Write(b)
}

func (z *zipped) Flush() {
	if !z.done {
		z.WriteHeader(http.StatusOK)
	}
	if z.gz != nil {
		_ = z.gz.Flush()
	}
	if f, ok := z.ResponseWriter.(http.Flusher); ok {
		f.Flush()
	}
}

func (z *zipped) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	h, ok := z.ResponseWriter.(http.Hijacker)
	if !ok {
		return nil, nil, http.ErrNotSupported
	}
	z.done = true
	return h.Hijack()
}

func (z *zipped) Close() {
	if z.gz != nil {
		_ = z.gz.Close()
	}
}

// abort drops the connection without (or in the middle of) an answer.
func abort(w http.ResponseWriter, head string) {
	conn, rw, err := w.(http.Hijacker).Hijack()
	if err != nil {
		panic(http.ErrAbortHandler)
	}
	if head != "" {
		_, _ = rw.WriteString(head)
		_ = rw.Flush()
	}
	_ = conn.Close()
}

var _ = bufio.NewReader
