// Package simhttp is net/http's Server on the simulated network.
package simhttp

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"syscall"
	"time"

	"recengine/internal/zzsim/rt"
	"recengine/internal/zzsim/simcontext"
	"recengine/internal/zzsim/simlog"
	"recengine/internal/zzsim/simnet"
	"recengine/internal/zzsim/simtime"
)

// Server is http.Server.
type Server struct {
	Addr              string
	Handler           http.Handler
	TLSConfig         *tls.Config
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
	ConnState         func(net.Conn, http.ConnState)
	ErrorLog          *simlog.Logger
	BaseContext       func(net.Listener) context.Context
	ConnContext       func(ctx context.Context, c net.Conn) context.Context

	TLSNextProto map[string]func(*http.Server, *tls.Conn, http.Handler)

	DisableGeneralOptionsHandler bool

	lns        []*simnet.Listener
	inflight   int
	shutdown   bool
	onShutdown []func()
	reqs       []*Pending
	vc         rt.VC // of those who set the server up
	endVC      rt.VC // of the requests that ended
	stopVC     rt.VC // of Shutdown and Close
}

// Pending is a request in flight.
type Pending struct {
	done   bool
	resp   *Response
	err    error
	q      rt.WaitQ
	cancel func()
}

// Response is what a client got.
type Response struct {
	Status int
	Body   []byte
}

// ListenAndServe is (*http.Server).ListenAndServe.
func (s *Server) ListenAndServe() error {
	rt.Yield(61)
	if s.shutdown {
		return http.ErrServerClosed
	}
	addr := s.Addr
	if addr == "" {
		addr = ":http"
	}
	ln, err := simnet.Listen("tcp", addr)
	if err != nil {
		return err
	}
	return s.Serve(ln)
}

// Serve is (*http.Server).Serve.
func (s *Server) Serve(l net.Listener) error {
	rt.Yield(62)
	ln, ok := l.(*simnet.Listener)
	if !ok {
		panic("simhttp: not a simulated listener")
	}
	if s.shutdown {
		ln.Close()
		return http.ErrServerClosed
	}
	s.lns = append(s.lns, ln)
	rt.Release(&s.vc)
	ln.Accept_ = s
	defer ln.Close()
	for !ln.Closed {
		ln.Q.Wait("serve")
	}
	rt.Acquire(s.stopVC)
	if s.shutdown {
		return http.ErrServerClosed
	}
	return &net.OpError{Op: "accept", Err: net.ErrClosed}
}

// RegisterOnShutdown is (*http.Server).RegisterOnShutdown.
func (s *Server) RegisterOnShutdown(f func()) {
	rt.Release(&s.vc)
	s.onShutdown = append(s.onShutdown, f)
}

// SetKeepAlivesEnabled is (*http.Server).SetKeepAlivesEnabled.
func (s *Server) SetKeepAlivesEnabled(bool) {}

func (s *Server) closeListeners() {
	s.shutdown = true
	rt.Release(&s.stopVC)
	for _, l := range s.lns {
		l.Close()
	}
	s.lns = nil
}

// Shutdown is (*http.Server).Shutdown.
func (s *Server) Shutdown(ctx context.Context) error {
	rt.Yield(63)
	if rt.Killed() {
		return nil
	}
	s.closeListeners()
	for _, f := range s.onShutdown {
		rt.Go(f)
	}
	poll := time.Millisecond
	for {
		if s.inflight == 0 {
			rt.Acquire(s.endVC)
			return nil
		}
		t := simtime.NewTimer(poll)
		switch rt.Select(false, rt.RecvCase(ctx.Done()), rt.RecvCase(t.C)) {
		case 0:
			return ctx.Err()
		}
		if poll *= 2; poll > 500*time.Millisecond {
			poll = 500 * time.Millisecond
		}
	}
}

// Close is (*http.Server).Close.
func (s *Server) Close() error {
	rt.Yield(64)
	if rt.Killed() {
		return nil
	}
	s.closeListeners()
	for _, p := range s.reqs {
		if !p.done {
			p.done, p.err = true, io.ErrUnexpectedEOF
			p.cancel()
			p.q.WakeAll()
		}
	}
	return nil
}

// conn is what a hook of the server sees of a connection.
type conn struct{ net.Conn }

func (conn) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 40000} }
func (conn) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 80} }

// TimeoutHandler is http.TimeoutHandler.
func TimeoutHandler(h http.Handler, dt time.Duration, msg string) http.Handler {
	if msg == "" {
		msg = "<html><head><title>Timeout</title></head><body><h1>Timeout</h1></body></html>"
	}
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		ctx, cancel := simcontext.WithTimeout(r.Context(), dt)
		defer cancel()
		tw := &timeoutWriter{rec: httptest.NewRecorder()}
		done := make(chan struct{})
		panicked := make(chan interface{}, 1)
		rt.Go(func() {
			defer func() {
				if rt.Killed() {
					return
				}
				if p := recover(); p != nil {
					rt.S.TrySend(panicked, p)
				}
			}()
			h.ServeHTTP(tw, r.WithContext(ctx))
			rt.S.CloseChan(done)
		})
		pc := rt.RecvCase(panicked)
		switch rt.Select(false, pc, rt.RecvCase(done), rt.RecvCase(ctx.Done())) {
		case 0:
			panic(pc.Val())
		case 1:
			for k, v := range tw.rec.Header() {
				w.Header()[k] = v
			}
			w.WriteHeader(tw.rec.Code)
			w.Write(tw.rec.Body.Bytes())
		case 2:
			tw.late = true
			w.WriteHeader(http.StatusServiceUnavailable)
			io.WriteString(w, msg)
		}
	})
}

type timeoutWriter struct {
	rec  *httptest.ResponseRecorder
	late bool
}

func (t *timeoutWriter) Header() http.Header { return t.rec.Header() }
func (t *timeoutWriter) WriteHeader(c int) {
	if !t.late {
		t.rec.WriteHeader(c)
	}
}
func (t *timeoutWriter) Write(b []byte) (int, error) {
	if t.late {
		return 0, http.ErrHandlerTimeout
	}
	return t.rec.Write(b)
}

// ListenAndServe is http.ListenAndServe.
func ListenAndServe(addr string, h http.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}

// Serve is http.Serve.
func Serve(l net.Listener, h http.Handler) error { return (&Server{Handler: h}).Serve(l) }

// ErrTimeout is what a client reports that gave up.
var ErrTimeout = errors.New("client gave up waiting")

// Upload is how the body of a request arrives.
type Upload struct {
	Cut   bool          // the connection breaks
	CutAt int           // after this many bytes
	Piece int           // bytes per piece, all at once if zero
	Gap   time.Duration // before each piece but the first
	Type  string        // content type; empty for JSON, "-" for none
}

type upload struct {
	Upload
	data   []byte
	pos    int
	begun  time.Duration
	limit  time.Duration
	closed bool
}

func (u *upload) Read(b []byte) (int, error) {
	rt.Yield(66)
	if u.closed {
		return 0, http.ErrBodyReadAfterClose
	}
	end := len(u.data)
	if u.Cut && u.CutAt < end {
		end = u.CutAt
	}
	if u.Piece > 0 && u.pos > 0 && u.pos < end && u.Gap > 0 {
		rt.Sleep(u.Gap)
	}
	if u.limit > 0 && rt.S.Now()-u.begun > u.limit {
		return 0, os.ErrDeadlineExceeded
	}
	if u.pos >= end {
		if end < len(u.data) || u.Cut {
			rt.S.Stat("fault.request-cut")
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	if u.Piece > 0 && end > u.pos+u.Piece {
		end = u.pos + u.Piece
	}
	n := copy(b, u.data[u.pos:end])
	u.pos += n
	return n, nil
}

func (u *upload) Close() error { u.closed = true; return nil }

// Do is one request by a simulated client (of another process). delay is the
// one-way latency; loseReq and loseResp drop the message.
func Do(addr, method, path string, body []byte, delay time.Duration, loseReq, loseResp bool, patience time.Duration, how ...Upload) (*Response, error) {
	rt.Yield(65)
	if delay > 0 {
		rt.S.Stat("fault.net-delay")
		rt.Sleep(delay)
	}
	l := simnet.Cur.Bound[simnet.Canon(addr)]
	if l == nil || l.Closed || l.Proc.Dead || l.Accept_ == nil {
		return nil, syscall.ECONNREFUSED
	}
	if loseReq {
		rt.S.Stat("fault.lost-request")
		rt.Sleep(patience)
		return nil, ErrTimeout
	}
	s := l.Accept_.(*Server)
	p := &Pending{}
	proc := l.Proc
	s.inflight++
	s.reqs = append(s.reqs, p)
	proc.OnKill = append(proc.OnKill, func() {
		if !p.done {
			p.done, p.err = true, io.ErrUnexpectedEOF
			p.q.WakeAll()
		}
	})
	rt.S.GoProc(proc, "http "+method, func() {
		rt.Forget()
		rt.Acquire(s.vc)
		base := context.Background()
		if s.BaseContext != nil {
			base = s.BaseContext(l)
		}
		if s.ConnContext != nil {
			base = s.ConnContext(base, conn{})
		}
		ctx, cancel := simcontext.WithCancel(base)
		defer func() {
			if !rt.Killed() {
				cancel()
			}
		}()
		p.cancel = cancel
		rec := httptest.NewRecorder()
		ok := false
		late := false
		if s.WriteTimeout > 0 {
			// What is written after the deadline never reaches the client.
			d := rt.S.AfterTimer(s.WriteTimeout, func() { late = true })
			defer d.Stop()
		}
		defer func() {
			if rt.Killed() {
				return
			}
			s.inflight--
			rt.Release(&s.endVC)
			for i, x := range s.reqs {
				if x == p {
					s.reqs = append(s.reqs[:i], s.reqs[i+1:]...)
					break
				}
			}
			if !ok {
				if r := recover(); r != nil {
					rt.S.Stat("handler-panic")
					rt.S.Ev("handler panic", fmt.Sprint(r))
				}
				if !p.done {
					p.done, p.err = true, io.ErrUnexpectedEOF
					p.q.WakeAll()
				}
				return
			}
			if !p.done && late {
				p.done, p.err = true, io.ErrUnexpectedEOF
				p.q.WakeAll()
			}
			if !p.done && !loseResp {
				p.done, p.resp = true, &Response{rec.Code, rec.Body.Bytes()}
				p.q.WakeAll()
			}
		}()
		up := &upload{data: body, begun: rt.S.Now(), limit: s.ReadTimeout}
		if len(how) > 0 {
			up.Upload = how[0]
		}
		req := httptest.NewRequest(method, path, bytes.NewReader(body)).WithContext(ctx)
		if len(body) > 0 {
			req.Body = up
		}
		switch up.Type {
		case "":
			req.Header.Set("Content-Type", "application/json")
		case "-":
		default:
			req.Header.Set("Content-Type", up.Type)
		}
		h := s.Handler
		if h == nil {
			h = http.DefaultServeMux
		}
		h.ServeHTTP(rec, req)
		ok = true
	})
	if loseResp {
		rt.S.Stat("fault.lost-response")
	}
	tm := rt.S.AfterTimer(patience, func() {
		if !p.done {
			p.done, p.err = true, ErrTimeout
			p.q.WakeAll()
			if p.cancel != nil && !proc.Dead { // the client closes the connection
				rt.S.GoProc(proc, "disconnect", p.cancel)
			}
		}
	})
	for !p.done {
		p.q.Wait("response")
	}
	tm.Stop()
	if p.resp != nil && delay > 0 {
		rt.Sleep(delay)
	}
	return p.resp, p.err
}
