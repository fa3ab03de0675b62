// Package simnet is the simulated network: addresses, listeners, and requests
// that travel with a delay and may get lost.
package simnet

import (
	"context"
	"errors"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"

	"recengine/internal/zzsim/rt"
)

// Net is the network of one run.
type Net struct {
	Bound map[string]*Listener
	// ListenErr decides whether binding an address fails.
	ListenErr func(p *rt.Proc, addr string) error
}

// Cur is the network of the current run.
var Cur *Net

// New makes an empty network.
func New() *Net { return &Net{Bound: map[string]*Listener{}} }

// Listener is a bound address.
type Listener struct {
	Raw     string // the address as given
	AddrS   string
	Proc    *rt.Proc
	Closed  bool
	Accept_ interface{} // the server that accepts here
	Q       rt.WaitQ
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Accept is net.Listener.Accept; only the simulated HTTP server accepts.
func (l *Listener) Accept() (net.Conn, error) {
	for !l.Closed {
		l.Q.Wait("accept")
	}
	return nil, net.ErrClosed
}

// Close is net.Listener.Close.
func (l *Listener) Close() error {
	if l.Closed {
		return net.ErrClosed
	}
	l.Closed = true
	if Cur.Bound[l.AddrS] == l {
		delete(Cur.Bound, l.AddrS)
	}
	l.Q.WakeAll()
	return nil
}

// Addr is net.Listener.Addr.
func (l *Listener) Addr() net.Addr { return addr(l.AddrS) }

// Canon normalises host:port.
func Canon(a string) string {
	if strings.HasPrefix(a, "127.0.0.1:") || strings.HasPrefix(a, "0.0.0.0:") {
		a = a[strings.Index(a, ":"):]
	}
	if strings.HasPrefix(a, "localhost:") {
		a = a[len("localhost"):]
	}
	return a
}

// Listen is net.Listen.
func Listen(network, address string) (net.Listener, error) {
	rt.Yield(51)
	if rt.Killed() {
		return nil, errors.New("process is dead")
	}
	p := rt.CurProc()
	if _, port, err := net.SplitHostPort(address); err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	} else if n, err := strconv.Atoi(port); err == nil && (n < 0 || n > 65535) {
		return nil, &net.OpError{Op: "listen", Net: network, Err: &net.AddrError{Err: "invalid port", Addr: port}}
	}
	a := Canon(address)
	if Cur.ListenErr != nil {
		if err := Cur.ListenErr(p, a); err != nil {
			rt.S.Stat("fault.listen")
			rt.S.Ev("listen-failed", a, err)
			return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", err)}
		}
	}
	if l := Cur.Bound[a]; l != nil && !l.Proc.Dead {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &Listener{AddrS: a, Raw: address, Proc: p}
	Cur.Bound[a] = l
	rt.S.Ev("listen", a)
	return l, nil
}

// ListenConfig is net.ListenConfig.
type ListenConfig struct{}

// Listen is (*net.ListenConfig).Listen.
func (*ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}
