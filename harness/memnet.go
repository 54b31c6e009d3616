package main

import (
	"context"
	"errors"
	"net"
	"net/http"
	"sync"
)

// In-memory network for code that runs in a worker process: every https host is answered by one handler.

type memListener struct {
	ch   chan net.Conn
	once sync.Once
	done chan struct{}
}

type memAddr struct{}

func (memAddr) Network() string { return "mem" }
func (memAddr) String() string  { return "mem" }

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, errors.New("closed")
	}
}
func (l *memListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *memListener) Addr() net.Addr { return memAddr{} }

// serveAllHosts redirects all traffic of the default transport to the handler.
func serveAllHosts(h http.Handler) {
	l := &memListener{ch: make(chan net.Conn), done: make(chan struct{})}
	srv := &http.Server{Handler: h}
	srv.SetKeepAlivesEnabled(false)
	go func() { _ = srv.Serve(l) }()
	dial := func(ctx context.Context, network, addr string) (net.Conn, error) {
		a, b := net.Pipe()
		select {
		case l.ch <- b:
			return a, nil
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	}
	t := http.DefaultTransport.(*http.Transport)
	t.Proxy = nil
	t.DialContext = dial
	t.DialTLSContext = dial
	t.DisableKeepAlives = true
	t.ForceAttemptHTTP2 = false
}

// abort answers with a connection that breaks at once or inside the body.
func abort(w http.ResponseWriter, headers string, body []byte) {
	conn, buf, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	_, _ = buf.WriteString(headers)
	_, _ = buf.Write(body)
	_ = buf.Flush()
	_ = conn.Close()
}
