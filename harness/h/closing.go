package h

import (
	"context"
	"io"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/zzverif/v"
)

// pending is operations blocked on one side of a stream.
type pending struct {
	ds  []<-chan struct{}
	who []string
}

func (p *pending) add(what string, f func() error) {
	p.who = append(p.who, what)
	p.ds = append(p.ds, async(func() {
		v.Assert(f() != nil, what+" pending on a closed stream succeeded")
	}))
}

// end checks that all have ended.
func (p *pending) end() {
	for i, d := range p.ds {
		wait(time.Second, p.who[i]+" pending on a closed stream did not return", d)
	}
}

// block leaves operations of the kinds in set blocked on sm, whose peer serves
// the method "never".
func block(sm geminio.Stream, set ...int) *pending {
	p := &pending{}
	for _, k := range set {
		switch k {
		case 0:
			p.add("call", func() error { _, err := sm.Call(bg, "never", sm.NewRequest([]byte("c"))); return err })
		case 1:
			p.add("asynchronous call", func() error {
				c, err := sm.CallAsync(bg, "never", sm.NewRequest([]byte("c")), nil)
				if err != nil {
					return err
				}
				c = <-c.Done
				return c.Error
			})
		case 2:
			p.add("publish", func() error { return sm.Publish(bg, sm.NewMessage([]byte("p"))) })
		case 3:
			p.add("asynchronous publish", func() error {
				c, err := sm.PublishAsync(bg, sm.NewMessage([]byte("p")), nil)
				if err != nil {
					return err
				}
				c = <-c.Done
				return c.Error
			})
		case 4:
			p.add("receive", func() error { _, err := sm.Receive(bg); return err })
		case 5:
			p.add("read", func() error { _, err := sm.Read(make([]byte, 1)); return err })
		}
	}
	return p
}

// never serves calls that are not answered before the stream's end.
func never(sm geminio.Stream) {
	sm.Register(bg, "never", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		select {
		case <-ctx.Done():
		case <-time.After(20 * time.Second):
		}
	})
}

// dead checks that nothing works on sm any more.
func dead(sm geminio.Stream) {
	ops := []struct {
		what string
		f    func() error
	}{
		{"call", func() error { _, err := sm.Call(bg, "never", sm.NewRequest([]byte("c"))); return err }},
		{"asynchronous call", func() error {
			c, err := sm.CallAsync(bg, "never", sm.NewRequest([]byte("c")), nil)
			if err != nil {
				return err
			}
			c = <-c.Done
			return c.Error
		}},
		{"publish", func() error { return sm.Publish(bg, sm.NewMessage([]byte("p"))) }},
		{"asynchronous publish", func() error {
			c, err := sm.PublishAsync(bg, sm.NewMessage([]byte("p")), nil)
			if err != nil {
				return err
			}
			c = <-c.Done
			return c.Error
		}},
		{"receive", func() error { _, err := sm.Receive(bg); return err }},
		{"read", func() error { _, err := sm.Read(make([]byte, 1)); return err }},
		{"write", func() error { _, err := sm.Write([]byte("w")); return err }},
		{"register", func() error {
			return sm.Register(bg, "late", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {})
		}},
	}
	for _, op := range ops {
		op := op
		within(time.Second, op.what+" on a closed stream did not return", func() {
			v.Assert(op.f() != nil, op.what+" on a closed stream succeeded")
		})
	}
}

// closeBy closes a stream in one of several ways and waits for it.
func closeBy(near, far geminio.Stream, how int) {
	var ds []<-chan struct{}
	cl := func(sm geminio.Stream) { ds = append(ds, async(func() { sm.Close() })) }
	switch how {
	case 0:
		cl(near)
	case 1:
		cl(far)
	case 2:
		cl(near)
		cl(far)
	case 3:
		cl(near)
		cl(near)
	case 4:
		cl(far)
		cl(near)
		cl(far)
	}
	for _, d := range ds {
		wait(time.Second, "closing a stream did not return", d)
	}
}

// closing: a stream is closed with operations pending on it and data on its
// way, beside another one.
func closing(wide bool) {
	e := joined()
	near, far := streams(e.c, e.s, 1+v.Choice("opener", 2))
	never(near)
	never(far)
	n2, f2 := streams(e.c, e.s, 1)
	var ps []*pending
	what := v.Choice("what", 4)
	how := v.Choice("how", 5)
	x := v.Bytes("x", 2)
	all := []int{0, 1, 2, 3, 4, 5}
	v.Window(!wide)
	switch what {
	case 0:
	case 1:
		ps = append(ps, block(near, 0, 1, 4, 5), block(far, 0, 1, 4, 5))
	case 2:
		if wide {
			ps = append(ps, block(near, all[:4]...), block(far, all[:4]...))
		} else {
			ps = append(ps, block(near, 0, 2), block(far, 5))
		}
	case 3:
		// data before the close
		near.Write(x[:1])
		near.Write(x[1:])
	}
	if wide && v.Choice("when", 2) == 1 {
		time.Sleep(time.Second)
	}
	closeBy(near, far, how)
	for _, p := range ps {
		p.end()
	}
	time.Sleep(time.Second)
	v.Window(false)
	if what == 3 && how == 0 {
		var got []byte
		var err error
		within(time.Second, "read on a closed stream did not return", func() { got, err = io.ReadAll(far) })
		v.Assert(err == nil && v.Eq(got, x), "data received before the close lost")
	} else if what == 3 {
		within(time.Second, "read on a closed stream did not return", func() { io.ReadAll(far) })
	}
	if what == 2 {
		// messages received before the close may still be taken
		for _, sm := range []geminio.Stream{near, far} {
			sm := sm
			within(time.Second, "receive on a closed stream did not return", func() {
				for i := 0; i < 3; i++ {
					if _, err := sm.Receive(bg); err != nil {
						return
					}
				}
				v.Assert(false, "more messages received than were sent")
			})
		}
	}
	dead(near)
	dead(far)
	lc, ls := listed(e.c), listed(e.s)
	v.Assert(!lc[near.StreamID()] && !ls[near.StreamID()], "closed stream still listed")
	v.Assert(lc[n2.StreamID()] && ls[n2.StreamID()], "stream not listed after another one was closed")
	within(time.Second, "closing a closed stream did not return", func() { near.Close(); far.Close() })
	talk(n2, f2, 7)
	talk(e.c, e.s, 8)
	n3, f3 := streams(e.s, e.c, 1)
	talk(n3, f3, 9)
	for _, r := range []*rec{e.cd, e.sd} {
		v.Assert(r.count("dlgoffline") == 1, "delegate not told of a closed stream exactly once")
		v.Assert(r.count("dlgonline") == 3, "delegate not told of exactly the opened streams")
	}
	e.quit()
	counted(e, 3)
	v.Reach("closed")
}

// H_Closing: every way of closing.
func H_Closing() { closing(true) }

// H_ClosingRace: the same under every schedule.
func H_ClosingRace() { closing(false) }

// H_ClosingTraffic: a stream is closed while its peer sends.
func H_ClosingTraffic() {
	e := joined()
	a, b := e.sides(v.Choice("side", 2))
	near, far := streams(a, b, 1)
	x := v.Bytes("x", 1)
	far.Register(bg, "echo", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		rsp.SetData(req.Data())
	})
	for _, end := range []geminio.End{e.c, e.s} {
		end.Register(bg, "echo", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
			v.Assert(false, "request seen on another stream")
		})
	}
	what := v.Choice("what", 4)
	by := v.Choice("closer", 2)
	var sent, got int
	var err error
	v.Window(true)
	var d, r <-chan struct{}
	switch what {
	case 0: // calls until one fails
		d = async(func() {
			for i := 0; i < 3; i++ {
				var rsp geminio.Response
				rsp, err = near.Call(bg, "echo", near.NewRequest(x))
				if err != nil {
					return
				}
				v.Assert(v.Eq(rsp.Data(), x), "caller got data its handler did not give")
			}
		})
	case 1: // messages
		d = async(func() {
			for i := 0; i < 3; i++ {
				if err = near.Publish(bg, near.NewMessage(x)); err != nil {
					return
				}
				sent++
			}
		})
		r = async(func() {
			for {
				m, err := far.Receive(bg)
				if err != nil {
					return
				}
				v.Assert(v.Eq(m.Data(), x), "message altered, lost or out of order")
				got++
				m.Done()
			}
		})
	case 2: // bytes
		d = async(func() {
			for i := 0; i < 3; i++ {
				var k int
				if k, err = near.Write(x); err != nil {
					return
				}
				v.Assert(k == 1, "write failed or was short on an open stream")
				sent++
			}
		})
		r = async(func() {
			buf := make([]byte, 4)
			for {
				k, err := far.Read(buf)
				if err != nil {
					return
				}
				for i := 0; i < k; i++ {
					v.Assert(buf[i] == x[0], "bytes read altered, lost or out of order")
				}
				got += k
			}
		})
	}
	if what == 3 { // messages nobody waits for
		d = async(func() {
			for i := 0; i < 100; i++ {
				o := options.NewMessage()
				o.SetCnss(options.CnssAtMostOnce)
				if err = near.Publish(bg, near.NewMessage(x, o)); err != nil {
					return
				}
				if i%4 == 3 {
					time.Sleep(time.Nanosecond)
				}
			}
		})
		r = async(func() {
			for {
				m, err := far.Receive(bg)
				if err != nil {
					return
				}
				v.Assert(v.Eq(m.Data(), x), "message altered, lost or out of order")
			}
		})
	}
	sm := near
	if by == 1 {
		sm = far
	}
	within(time.Second, "closing a stream did not return", func() { sm.Close() })
	wait(time.Second, "operation pending on a closed stream did not return", d)
	if r != nil {
		wait(time.Second, "operation pending on a closed stream did not return", r)
	}
	time.Sleep(time.Second)
	v.Window(false)
	switch what {
	case 1:
		v.Assert(got >= sent && got <= 3, "publish succeeded for a message that was not received")
	case 2:
		v.Assert(got <= 3, "bytes read altered, lost or out of order")
		if by == 0 && err == nil {
			v.Assert(got <= sent, "bytes read altered, lost or out of order")
		}
	}
	silent(e.c)
	silent(e.s)
	dead(near)
	dead(far)
	e.quit()
	counted(e, 1)
	v.Reach("closed")
}

// silent checks that nothing was sent on an end itself.
func silent(end geminio.End) {
	ctx, cancel := context.WithTimeout(bg, 50*time.Millisecond)
	m, err := end.Receive(ctx)
	cancel()
	v.Assert(m == nil && err == context.DeadlineExceeded, "message seen on another stream")
	end.SetReadDeadline(time.Now().Add(50 * time.Millisecond))
	k, err := end.Read(make([]byte, 2))
	v.Assert(k == 0 && isDeadline(err), "bytes seen on another stream")
}
