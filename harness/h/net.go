package h

import (
	"errors"
	"io"
	"net"
	"sync"
	"time"

	"github.com/singchia/geminio/zzverif/v"
)

type addr string

func (a addr) Network() string { return "pipe" }
func (a addr) String() string  { return string(a) }

var errReset = errors.New("connection reset by peer")

// dir is one direction of a transport.
type dir struct {
	mu   sync.Mutex
	buf  []byte
	fin  bool // the writer closed
	wake chan struct{}
	// cut is how many more bytes get through before the transport fails;
	// negative for no failure
	cut int
	// stalled writes block until the transport is closed or takes on
	stalled bool
	resume  chan struct{}
	// lost writes succeed and get nowhere
	lost  bool
	total int
}

// wire is a transport: an in-memory byte stream each way, without loss or
// reordering unless it is cut.
type wire struct {
	a, b   *end
	broken bool
	quiet  bool // a broken transport reads as ended, not as reset
	lost   chan struct{}
	mu     sync.Mutex
}

// end is one side of a wire, a net.Conn.
type end struct {
	w        *wire
	in, out  *dir
	name     string
	peer     string
	closed   bool
	closes   int
	done     chan struct{}
	frag     int // bytes per Read; 0 for as many as there are
	readErrs int
}

func newWire() *wire {
	ab := &dir{wake: make(chan struct{}, 1), resume: make(chan struct{}), cut: -1}
	ba := &dir{wake: make(chan struct{}, 1), resume: make(chan struct{}), cut: -1}
	w := &wire{lost: make(chan struct{})}
	w.a = &end{w: w, in: ba, out: ab, name: "client", peer: "server", done: make(chan struct{})}
	w.b = &end{w: w, in: ab, out: ba, name: "server", peer: "client", done: make(chan struct{})}
	return w
}

func (d *dir) signal() {
	select {
	case d.wake <- struct{}{}:
	default:
	}
}

// sever breaks the transport: what was written before still arrives.
func (w *wire) sever() {
	w.mu.Lock()
	if !w.broken {
		w.broken = true
		close(w.lost)
	}
	w.mu.Unlock()
	w.a.in.signal()
	w.b.in.signal()
}

func (w *wire) isBroken() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.broken
}

func (e *end) other() *end {
	if e == e.w.a {
		return e.w.b
	}
	return e.w.a
}

func (e *end) isClosed() bool {
	e.w.mu.Lock()
	defer e.w.mu.Unlock()
	return e.closed
}

func (e *end) Read(p []byte) (int, error) {
	for {
		if e.isClosed() {
			return 0, net.ErrClosed
		}
		d := e.in
		d.mu.Lock()
		if len(p) == 0 {
			d.mu.Unlock()
			return 0, nil
		}
		if len(d.buf) > 0 {
			q := p
			if e.frag > 0 && len(q) > e.frag {
				q = q[:e.frag]
			}
			n := copy(q, d.buf)
			d.buf = d.buf[n:]
			d.mu.Unlock()
			return n, nil
		}
		fin := d.fin
		d.mu.Unlock()
		if e.w.isBroken() {
			if e.w.quiet {
				return 0, io.EOF
			}
			return 0, errReset
		}
		if fin {
			return 0, io.EOF
		}
		<-d.wake
	}
}

func (e *end) Write(p []byte) (int, error) {
	if e.isClosed() {
		return 0, net.ErrClosed
	}
	if e.w.isBroken() {
		return 0, errReset
	}
	d := e.out
	d.mu.Lock()
	if d.stalled {
		d.mu.Unlock()
		select {
		case <-e.done:
			return 0, errReset
		case <-e.other().done:
			return 0, errReset
		case <-e.w.lost:
			return 0, errReset
		case <-d.resume:
		}
		d.mu.Lock()
	}
	n := len(p)
	if d.lost {
		d.mu.Unlock()
		return n, nil
	}
	if d.cut >= 0 && n >= d.cut {
		n = d.cut
		d.buf = append(d.buf, p[:n]...)
		d.cut = 0
		d.total += n
		d.mu.Unlock()
		e.w.sever()
		return n, errReset
	}
	if d.cut >= 0 {
		d.cut -= n
	}
	d.buf = append(d.buf, p...)
	d.total += n
	d.mu.Unlock()
	d.signal()
	return n, nil
}

// unstall lets stalled writes go on.
func (d *dir) unstall() {
	d.mu.Lock()
	d.stalled = false
	d.mu.Unlock()
	close(d.resume)
}

func (e *end) Close() error {
	e.w.mu.Lock()
	e.closes++
	if e.closed {
		e.w.mu.Unlock()
		return net.ErrClosed
	}
	e.closed = true
	close(e.done)
	e.w.mu.Unlock()
	e.out.mu.Lock()
	e.out.fin = !e.out.lost
	e.out.mu.Unlock()
	e.out.signal()
	e.in.signal()
	return nil
}

func (e *end) LocalAddr() net.Addr              { return addr(e.name) }
func (e *end) RemoteAddr() net.Addr             { return addr(e.peer) }
func (e *end) SetDeadline(time.Time) error      { return nil }
func (e *end) SetReadDeadline(time.Time) error  { return nil }
func (e *end) SetWriteDeadline(time.Time) error { return nil }

// within runs f and reports label if it has not returned after d.
func within(d time.Duration, label string, f func()) bool {
	done := make(chan struct{})
	go func() {
		f()
		close(done)
	}()
	return wait(d, label, done)
}

func wait(d time.Duration, label string, done <-chan struct{}) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		v.Assert(false, label)
		return false
	}
}

// async runs f and returns a channel closed when it is done.
func async(f func()) <-chan struct{} {
	done := make(chan struct{})
	go func() {
		f()
		close(done)
	}()
	return done
}

func isDone(d <-chan struct{}) bool {
	select {
	case <-d:
		return true
	default:
		return false
	}
}
