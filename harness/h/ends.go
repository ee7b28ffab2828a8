package h

import (
	"context"
	"errors"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"github.com/singchia/geminio/zzverif/v"
)

var bg = context.Background()

// ends is a client end and a server end over one wire.
type ends struct {
	w          *wire
	c, s       geminio.End
	cErr, sErr error
	cd, sd     *rec
}

func meet(w *wire, co *client.EndOptions, so *server.EndOptions) *ends {
	e := &ends{w: w}
	if co == nil {
		co = client.NewEndOptions()
	}
	if so == nil {
		so = server.NewEndOptions()
	}
	s := async(func() { e.s, e.sErr = server.NewEndWithConn(w.b, so) })
	c := async(func() { e.c, e.cErr = client.NewEndWithConn(w.a, co) })
	wait(time.Minute, "creating the client end did not return", c)
	wait(time.Minute, "creating the server end did not return", s)
	return e
}

// joined is two connected ends with recording delegates.
func joined() *ends {
	cd, sd := &rec{}, &rec{}
	co, so := client.NewEndOptions(), server.NewEndOptions()
	co.SetDelegate(cd)
	so.SetDelegate(sd)
	co.SetMeta([]byte("conn")) // the connection's, no stream's
	e := meet(newWire(), co, so)
	e.cd, e.sd = cd, sd
	v.Assert(e.cErr == nil && e.sErr == nil, "ends not connected")
	v.Assume(e.cErr == nil && e.sErr == nil)
	return e
}

// sides returns the ends, the server's first if swap is 1.
func (e *ends) sides(swap int) (geminio.End, geminio.End) {
	if swap == 1 {
		return e.s, e.c
	}
	return e.c, e.s
}

// open opens a stream at from, which to accepts.
func open(from, to geminio.End, oo ...*options.OpenStreamOptions) (geminio.Stream, geminio.Stream) {
	near, err := from.OpenStream(oo...)
	v.Assert(err == nil, "stream not opened")
	v.Assume(err == nil)
	var far geminio.Stream
	within(time.Minute, "accept did not return", func() { far, err = to.AcceptStream() })
	v.Assert(err == nil && far != nil, "opened stream not accepted")
	v.Assume(err == nil && far != nil)
	return near, far
}

// streams returns the two sides of a stream: kind 0 the ends themselves, 1 and
// 2 streams opened by a and by b.
func streams(a, b geminio.End, kind int) (geminio.Stream, geminio.Stream) {
	switch kind {
	case 1:
		return open(a, b)
	case 2:
		far, near := open(b, a)
		return near, far
	}
	return a, b
}

// quit closes both ends and checks that nothing stays behind.
func (e *ends) quit() {
	within(time.Minute, "closing an end did not return", func() { e.c.Close() })
	within(time.Minute, "closing an end did not return", func() { e.s.Close() })
	gone("goroutines left after closing both ends")
}

func isTimeout(err error) bool {
	for ; err != nil; err = errors.Unwrap(err) {
		if t, ok := err.(interface{ Timeout() bool }); ok && t.Timeout() {
			return true
		}
		if err.Error() == "timeout" {
			return true
		}
	}
	return false
}
