package h

import (
	"context"
	"errors"
	"net"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"github.com/singchia/geminio/zzverif/v"
	"github.com/singchia/go-timer/v2"
)

// site is a server that a client dials again and again.
type site struct {
	mu    sync.Mutex
	dials int
	fail  int           // so many dials fail
	hold  chan struct{} // dials wait for it, if set
	ws    []*wire
	ends  []geminio.End
	got   chan geminio.Stream // streams the client accepted
	// called with the first connection's wire, dialled and accepted
	dialled, accepted func(*wire)
}

func (s *site) dial() (net.Conn, error) {
	s.mu.Lock()
	s.dials++
	hold := s.hold
	if s.fail > 0 {
		s.fail--
		s.mu.Unlock()
		return nil, errors.New("connection refused")
	}
	w := newWire()
	s.ws = append(s.ws, w)
	s.mu.Unlock()
	if hold != nil {
		<-hold
	}
	first := len(s.ws) == 1
	if first && s.dialled != nil {
		s.dialled(w)
	}
	go func() {
		so := server.NewEndOptions()
		e, err := server.NewEndWithConn(w.b, so)
		if err != nil {
			return
		}
		e.Register(bg, "echo", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
			rsp.SetData(req.Data())
		})
		s.mu.Lock()
		s.ends = append(s.ends, e)
		s.mu.Unlock()
		if first && s.accepted != nil {
			s.accepted(w)
		}
	}()
	return w.a, nil
}

// last is the newest connection's server end and wire.
func (s *site) last() (geminio.End, *wire) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.ends) == 0 {
		return nil, s.ws[len(s.ws)-1]
	}
	return s.ends[len(s.ends)-1], s.ws[len(s.ws)-1]
}

func (s *site) count() (dials, ends int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.dials, len(s.ends)
}

// serving checks that all works between the client and the site.
func (s *site) serving(re geminio.End, x []byte, hijack bool) {
	se, _ := s.last()
	v.Assert(se != nil, "client did not connect again")
	v.Assume(se != nil)
	within(time.Second, "call after reconnecting did not return", func() {
		rsp, err := re.Call(bg, "echo", re.NewRequest(x))
		v.Assert(err == nil, "call after reconnecting failed")
		if err == nil {
			v.Assert(v.Eq(rsp.Data(), x), "call after reconnecting got other data")
		}
	})
	within(time.Second, "call of the client after reconnecting did not return", func() {
		for _, m := range []string{"m", "m2"} {
			rsp, err := se.Call(bg, m, se.NewRequest(x))
			v.Assert(err == nil, "method registered before the loss not called after reconnecting")
			if err == nil {
				v.Assert(v.Eq(rsp.Data(), append([]byte(m), x...)), "call of the client after reconnecting got other data")
			}
		}
		if hijack {
			rsp, err := se.Call(bg, "hm", se.NewRequest(x))
			v.Assert(err == nil, "hijacker set before the loss not called after reconnecting")
			if err == nil {
				v.Assert(v.Eq(rsp.Data(), append([]byte("hijack"), x...)), "call of the client after reconnecting got other data")
			}
		}
	})
	within(time.Second, "message after reconnecting not delivered", func() {
		d := async(func() { v.Assert(re.Publish(bg, re.NewMessage(x)) == nil, "publish after reconnecting failed") })
		m, err := se.Receive(bg)
		v.Assert(err == nil, "receive after reconnecting failed")
		if err == nil {
			v.Assert(v.Eq(m.Data(), x), "message after reconnecting altered")
			m.Done()
		}
		<-d
	})
	within(time.Second, "stream after reconnecting not opened", func() {
		sm, err := re.OpenStream()
		v.Assert(err == nil, "stream not opened after reconnecting")
		if err != nil {
			return
		}
		f, err := se.AcceptStream()
		v.Assert(err == nil && f.StreamID() == sm.StreamID(), "stream not accepted after reconnecting")
		sm.Write(x)
		buf := make([]byte, 4)
		k, err := f.Read(buf)
		v.Assert(err == nil && v.Eq(buf[:k], x), "stream after reconnecting carries other data")
	})
	within(time.Second, "stream of the server after reconnecting not accepted", func() {
		f, err := se.OpenStream()
		v.Assert(err == nil, "stream not opened by the server after reconnecting")
		if err != nil {
			return
		}
		// by this or an accept that is pending
		go s.accept(re)
		v.Assert((<-s.got).StreamID() == f.StreamID(), "another stream accepted after reconnecting")
	})
	within(time.Second, "bytes after reconnecting not delivered", func() {
		se.Write(x)
		buf := make([]byte, 4)
		k, err := re.Read(buf)
		v.Assert(err == nil && v.Eq(buf[:k], x), "bytes after reconnecting altered")
	})
}

func (s *site) accept(re geminio.End) {
	if sm, err := re.AcceptStream(); err == nil {
		s.got <- sm
	}
}

// redialer is a reconnecting client of a new site, with methods and a hijacker.
func redialer(cd *rec, hijack bool, tmr timer.Timer) (*site, geminio.End) {
	s := &site{got: make(chan geminio.Stream, 8)}
	co := client.NewEndOptions()
	if cd != nil {
		co.SetDelegate(cd)
	}
	if tmr != nil {
		co.SetTimer(tmr)
	}
	co.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "m2", RPC: prefixed("m2")})
	var re geminio.End
	var err error
	within(time.Minute, "creating the client end did not return", func() { re, err = client.NewRetryEndWithDialer(s.dial, co) })
	v.Assert(err == nil, "ends not connected")
	v.Assume(err == nil)
	time.Sleep(time.Second)
	within(time.Second, "register did not return", func() {
		v.Assert(re.Register(bg, "m", prefixed("m")) == nil, "register failed")
	})
	if hijack {
		err := re.Hijack(func(ctx context.Context, method string, req geminio.Request, rsp geminio.Response) {
			rsp.SetData(append([]byte("hijack"), req.Data()...))
		}, matching("^h"))
		v.Assert(err == nil, "hijack failed")
	}
	return s, re
}

func prefixed(p string) geminio.RPC {
	return func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		rsp.SetData(append([]byte(p), req.Data()...))
	}
}

// retry: the connection is lost, once or more, and dials fail.
func retry(wide bool) {
	cd := &rec{}
	hijack := true
	if wide || v.Thorough() {
		hijack = v.Choice("hijack", 2) == 1
	}
	s, re := redialer(cd, hijack, nil)
	x := v.Bytes("x", 1)
	times := 1
	if wide {
		times = 1 + v.Choice("times", 2)
		if v.Choice("userr", 2) == 1 {
			// what the user's delegate says to the loss does not matter
			cd.offlineErr = errors.New("oh no")
		}
	}
	pend := v.Choice("pending", 4)
	how := v.Choice("how", 3)
	fail := 1
	if wide || v.Thorough() {
		fail = v.Choice("failing", 2) * 2
	}
	v.Window(!wide)
	var ds []<-chan struct{}
	for i := 0; i < times; i++ {
		se, w := s.last()
		s.mu.Lock()
		s.fail = fail
		s.mu.Unlock()
		switch pend {
		case 1:
			ds = append(ds, async(func() { re.Call(bg, "none", re.NewRequest(x)) }))
			ds = append(ds, async(func() { re.Publish(bg, re.NewMessage(x)) }))
		case 2:
			// blocked for as long as they like, but not after the close
			go s.accept(re)
			go s.accept(re)
		case 3:
			go func() {
				time.Sleep(time.Second)
				re.OpenStream()
			}()
			go func() {
				time.Sleep(4 * time.Second)
				re.Call(bg, "none", re.NewRequest(x))
			}()
		}
		switch how {
		case 0:
			w.sever()
		case 1:
			se.Close()
		case 2:
			w.a.out.mu.Lock()
			w.a.out.cut = 9
			w.a.out.mu.Unlock()
			re.Write([]byte("lost"))
		}
		if wide && i == 0 {
			// the next loss may come at any moment of the reconnecting
			time.Sleep([]time.Duration{20 * time.Second, 3100 * time.Millisecond, 4500 * time.Millisecond}[v.Choice("gap", 3)])
		} else {
			time.Sleep(20 * time.Second)
		}
	}
	time.Sleep(20 * time.Second)
	// a message carried out again is to be acknowledged
	ctx, cancel := context.WithCancel(bg)
	se, _ := s.last()
	drained := async(func() {
		for {
			m, err := se.Receive(ctx)
			if err != nil {
				return
			}
			v.Assert(v.Eq(m.Data(), x), "message published while reconnecting altered")
			m.Done()
		}
	})
	for _, d := range ds {
		wait(time.Minute, "operation pending while reconnecting did not return", d)
	}
	cancel()
	<-drained
	v.Window(false)
	s.serving(re, x, hijack)
	v.Assert(cd.count("reonline") >= 1, "delegate not told of the reconnection")
	dials, _ := s.count()
	within(time.Minute, "closing an end did not return", func() { re.Close() })
	time.Sleep(time.Minute)
	d2, _ := s.count()
	v.Assert(d2 == dials, "client dials after it was closed")
	over(re)
	s.quit()
	v.Reach("reconnected")
}

// over checks that a closed reconnecting end is dead.
func over(re geminio.End) {
	within(time.Second, "operation on a closed end did not return", func() {
		_, err := re.AcceptStream()
		v.Assert(err != nil, "accept on a closed end succeeded")
		_, err = re.OpenStream()
		v.Assert(err != nil, "open on a closed end succeeded")
		_, err = re.Receive(bg)
		v.Assert(err != nil, "receive on a closed end succeeded")
		_, err = re.Call(bg, "echo", re.NewRequest(nil))
		v.Assert(err != nil, "call on a closed end succeeded")
	})
}

// quit closes the site's ends and checks that nothing stays behind; the
// connections end by themselves with the client's.
func (s *site) quit() {
	for _, w := range s.ws {
		v.Assert(w.a.isClosed(), "transport left open although the client was closed")
	}
	for _, e := range s.ends {
		e := e
		within(time.Minute, "closing an end did not return", func() { e.Close() })
	}
	gone("goroutines left after closing the client")
}

// H_Retry: every way.
func H_Retry() { retry(true) }

// H_RetryRace: under every schedule.
func H_RetryRace() { retry(false) }

// H_RetryClose: the client is closed at any moment of its reconnecting.
func H_RetryClose() {
	var tmr timer.Timer
	if v.Choice("timer", 2) == 1 {
		tmr = timer.NewTimer()
		defer tmr.Close()
	}
	s, re := redialer(nil, false, tmr)
	_, w := s.last()
	when := v.Choice("when", 6)
	s.mu.Lock()
	if when == 3 {
		s.hold = make(chan struct{})
	}
	s.fail = v.Choice("failing", 2) * 2
	s.mu.Unlock()
	v.Window(true)
	var ds []<-chan struct{}
	ds = append(ds, async(func() {
		for {
			if _, err := re.AcceptStream(); err != nil && re.SetDeadline(time.Time{}) != nil {
				return
			}
		}
	}), async(func() {
		for {
			if _, err := re.Receive(bg); err != nil && re.SetDeadline(time.Time{}) != nil {
				return
			}
		}
	}))
	if when != 0 {
		w.sever()
	}
	switch when {
	case 1: // at once
	case 2:
		time.Sleep(time.Second)
	case 3:
		time.Sleep(3050 * time.Millisecond)
	case 4:
		time.Sleep(3500 * time.Millisecond)
	case 5:
		time.Sleep(20 * time.Second)
	}
	ds = append(ds, async(func() { re.Close() }), async(func() { re.Close() }))
	if when == 3 {
		time.Sleep(time.Second)
		close(s.hold)
	}
	for _, d := range ds {
		wait(time.Minute, "operation pending on a closed end did not return", d)
	}
	time.Sleep(10 * time.Second)
	v.Window(false)
	dials, _ := s.count()
	time.Sleep(time.Minute)
	d2, _ := s.count()
	v.Assert(d2 == dials, "client dials after it was closed")
	over(re)
	s.quit()
	v.Reach("closed")
}

// H_RetryFirst: the first connection is lost while the client is created.
func H_RetryFirst() {
	s := &site{got: make(chan geminio.Stream, 8)}
	s.fail = v.Choice("failing", 2)
	var re geminio.End
	var err error
	x := v.Bytes("x", 1)
	v.Window(true)
	switch v.Choice("lost", 5) {
	case 0: // at once
		s.dialled = func(w *wire) { w.sever() }
	case 1: // within the connect
		s.dialled = func(w *wire) { w.a.out.cut = 30 }
	case 2: // within its acknowledgement
		s.dialled = func(w *wire) { w.b.out.cut = 20 }
	case 3: // just as it is connected
		s.accepted = func(w *wire) { w.sever() }
	case 4:
		s.accepted = func(w *wire) { w.b.Close() }
	}
	d := async(func() { re, err = client.NewRetryEndWithDialer(s.dial, client.NewEndOptions()) })
	wait(time.Minute, "creating the client end did not return", d)
	time.Sleep(20 * time.Second)
	v.Window(false)
	if err != nil {
		dials, _ := s.count()
		time.Sleep(time.Minute)
		d2, _ := s.count()
		v.Assert(d2 == dials, "client dials although it was not created")
		s.quit()
		v.Reach("failed")
		return
	}
	dials, ends := s.count()
	v.Assert(ends >= 2, "client did not connect again")
	v.Assert(dials == 2, "client dials although it is connected")
	re.Register(bg, "m", prefixed("m"))
	re.Register(bg, "m2", prefixed("m2"))
	s.serving(re, x, false)
	within(time.Minute, "closing an end did not return", func() { re.Close() })
	time.Sleep(time.Minute)
	over(re)
	s.quit()
	v.Reach("created")
}

// H_RetryRegister: methods and hijackers are set while the connection is lost.
func H_RetryRegister() {
	s, re := redialer(nil, false, nil)
	_, w := s.last()
	x := v.Bytes("x", 1)
	var rerr, herr error
	v.Window(true)
	ds := []<-chan struct{}{async(func() { rerr = re.Register(bg, "late", prefixed("late")) }),
		async(func() {
			herr = re.Hijack(func(ctx context.Context, method string, req geminio.Request, rsp geminio.Response) {
				rsp.SetData(append([]byte("hijack"), req.Data()...))
			}, matching("^h"))
		})}
	if v.Choice("later", 2) == 1 {
		time.Sleep(time.Millisecond)
	}
	w.sever()
	for _, d := range ds {
		wait(time.Minute, "register while the connection is lost did not return", d)
	}
	time.Sleep(20 * time.Second)
	v.Window(false)
	v.Assert(herr == nil, "hijack failed")
	s.serving(re, x, herr == nil)
	se, _ := s.last()
	if rerr == nil {
		rsp, err := se.Call(bg, "late", se.NewRequest(x))
		v.Assert(err == nil, "method registered before the loss not called after reconnecting")
		if err == nil {
			v.Assert(v.Eq(rsp.Data(), append([]byte("late"), x...)), "call of the client after reconnecting got other data")
		}
	}
	within(time.Minute, "closing an end did not return", func() { re.Close() })
	time.Sleep(time.Minute)
	s.quit()
	v.Reach("registered")
}

func matching(p string) *options.HijackOptions {
	o := options.Hijack()
	o.SetMatch(true, p)
	return o
}

// H_RetryOps: an operation started while the connection is down.
func H_RetryOps() {
	s, re := redialer(nil, false, nil)
	_, w := s.last()
	x := v.Bytes("x", 1)
	req, msg := re.NewRequest(x), re.NewMessage(x)
	fail := v.Choice("failing", 2) * 2
	s.mu.Lock()
	s.fail = fail
	s.mu.Unlock()
	w.sever()
	time.Sleep([]time.Duration{100 * time.Millisecond, 2500 * time.Millisecond}[v.Choice("when", 2)])
	op := v.Choice("op", 8)
	var err error
	var far func(se geminio.End)
	v.Window(true)
	d := async(func() {
		switch op {
		case 0:
			var rsp geminio.Response
			rsp, err = re.Call(bg, "echo", req)
			if err == nil {
				v.Assert(v.Eq(rsp.Data(), x), "call while reconnecting got other data")
			}
		case 1:
			var c *geminio.Call
			c, err = re.CallAsync(bg, "echo", req, nil)
			if err == nil {
				c = <-c.Done
				if err = c.Error; err == nil {
					v.Assert(v.Eq(c.Response.Data(), x), "call while reconnecting got other data")
				}
			}
		case 2:
			err = re.Publish(bg, msg)
		case 3:
			var p *geminio.Publish
			p, err = re.PublishAsync(bg, msg, nil)
			if err == nil {
				p = <-p.Done
				err = p.Error
			}
		case 4:
			var m geminio.Message
			m, err = re.Receive(bg)
			if err == nil {
				v.Assert(v.Eq(m.Data(), x), "message received while reconnecting altered")
				m.Done()
			}
		case 5:
			var sm geminio.Stream
			sm, err = re.AcceptStream()
			if err == nil {
				v.Assert(sm != nil, "no stream accepted while reconnecting")
			}
		case 6:
			buf := make([]byte, 4)
			var k int
			k, err = re.Read(buf)
			if err == nil {
				v.Assert(v.Eq(buf[:k], x), "bytes read while reconnecting altered")
			}
		case 7:
			var k int
			k, err = re.Write(x)
			if err == nil {
				v.Assert(k == 1, "write while reconnecting was short")
			}
		}
	})
	time.Sleep(20 * time.Second)
	se, _ := s.last()
	_, n := s.count()
	v.Assert(n == 2, "client did not connect again, once")
	switch op {
	case 2, 3:
		far = func(se geminio.End) {
			if m, e := se.Receive(bg); e == nil {
				v.Assert(v.Eq(m.Data(), x), "message published while reconnecting altered")
				m.Done()
			}
		}
	case 4:
		far = func(se geminio.End) { se.Publish(bg, se.NewMessage(x)) }
	case 5:
		far = func(se geminio.End) { se.OpenStream() }
	case 6:
		far = func(se geminio.End) { se.Write(x) }
	case 7:
		far = func(se geminio.End) {
			buf := make([]byte, 4)
			if k, e := se.Read(buf); e == nil {
				v.Assert(v.Eq(buf[:k], x), "bytes written while reconnecting altered")
			}
		}
	}
	if far != nil {
		go far(se)
	}
	wait(time.Second, "operation started while reconnecting did not return", d)
	v.Window(false)
	if fail == 0 {
		v.Assert(err == nil, "operation started while reconnecting failed")
	} else {
		v.Assert(err == nil || err.Error() == "connection refused", "operation started while reconnecting failed with another error than the dial's")
	}
	within(time.Minute, "closing an end did not return", func() { re.Close() })
	time.Sleep(time.Minute)
	s.quit()
	v.Reach("carried out")
}
