package h

import (
	"context"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/zzverif/v"
)

// blockEnd leaves accepts blocked on an end.
func blockEnd(e geminio.End) *pending {
	p := &pending{}
	p.add("accept", func() error { _, err := e.AcceptStream(); return err })
	p.add("net accept", func() error { _, err := e.Accept(); return err })
	return p
}

// blockMute leaves the operations blocked that need the peer's answer at once;
// the transport takes nothing.
func blockMute(e geminio.End, sm geminio.Stream) *pending {
	p := &pending{}
	p.add("open", func() error { _, err := e.OpenStream(); return err })
	p.add("register", func() error {
		return sm.Register(bg, "more", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {})
	})
	return p
}

// deadEnd checks that nothing works on an end any more.
func deadEnd(e geminio.End) {
	within(time.Second, "accept on a closed end did not return", func() {
		_, err := e.AcceptStream()
		v.Assert(err != nil, "accept on a closed end succeeded")
	})
	within(time.Second, "open on a closed end did not return", func() {
		_, err := e.OpenStream()
		v.Assert(err != nil, "open on a closed end succeeded")
	})
	dead(e)
}

// down: an end goes down in one of several ways with operations pending at both
// sides.
func down(wide bool) {
	e := joined()
	a, b := e.sides(v.Choice("side", 2))
	aw := e.w.a
	if a == e.s {
		aw = e.w.b
	}
	kind := v.Choice("stream", 3)
	near, far := streams(a, b, kind)
	never(near)
	never(far)
	what := v.Choice("what", 5)
	how := v.Choice("how", 6)
	late := 0
	if wide {
		late = v.Choice("late", 2)
	} else {
		// the set is reduced
		v.Assume(kind != 2)
	}
	v.Window(!wide)
	var ps []*pending
	limit := time.Second
	mute := false
	switch what {
	case 0: // accepts, reads and receives
		ps = append(ps, blockEnd(a), block(near, 4, 5), blockEnd(b), block(far, 4, 5))
	case 1: // calls both ways
		ps = append(ps, block(near, 0, 1), block(far, 0, 1))
	case 2: // publishes both ways
		ps = append(ps, block(near, 2, 3), block(far, 2, 3))
	case 3, 4: // on a transport that takes nothing or loses everything
		mute = true
		aw.out.mu.Lock()
		aw.out.stalled = what == 3
		aw.out.lost = what == 4
		aw.out.mu.Unlock()
		ps = append(ps, blockMute(a, near), block(near, 0, 2, 5))
		if what == 3 && wide && v.Choice("full", 2) == 1 {
			p := &pending{}
			p.add("write", func() error {
				for {
					if _, err := near.Write([]byte("x")); err != nil {
						return err
					}
				}
			})
			ps = append(ps, p)
		}
	}
	if late == 1 {
		time.Sleep(time.Second)
	}
	var ds []<-chan struct{}
	switch how {
	case 0:
		ds = append(ds, async(func() { a.Close() }))
	case 1:
		ds = append(ds, async(func() { b.Close() }))
	case 2:
		ds = append(ds, async(func() { b.Close() }), async(func() { a.Close() }), async(func() { a.Close() }))
	case 3:
		e.w.sever()
	case 4:
		// fails within a packet
		if mute {
			e.w.sever()
		}
		aw.out.mu.Lock()
		aw.out.cut = 7
		aw.out.mu.Unlock()
		near.Write([]byte("x"))
	case 5:
		// one side's transport ends
		aw.Close()
	}
	if mute && how <= 2 {
		// the close has to time out
		limit = 2 * time.Minute
	}
	for _, d := range ds {
		wait(limit, "closing an end did not return", d)
	}
	for _, p := range ps {
		for i, d := range p.ds {
			wait(limit, p.who[i]+" pending on a closed end did not return", d)
		}
	}
	time.Sleep(limit)
	v.Window(false)
	if what == 4 {
		// the other side cannot know
		dead(near)
		deadEnd(a)
		e.w.sever()
		time.Sleep(time.Second)
	}
	if what == 2 || what == 1 {
		for _, sm := range []geminio.Stream{near, far} {
			sm := sm
			within(time.Second, "receive on a closed end did not return", func() {
				for i := 0; i < 3; i++ {
					if _, err := sm.Receive(bg); err != nil {
						return
					}
				}
				v.Assert(false, "more messages received than were sent")
			})
		}
	}
	if mute {
		within(time.Second, "read on a closed end did not return", func() {
			for i := 0; i < 100; i++ {
				if _, err := far.Read(make([]byte, 64)); err != nil {
					return
				}
			}
		})
	}
	if how == 4 {
		within(time.Second, "read on a closed end did not return", func() { far.Read(make([]byte, 64)) })
	}
	dead(near)
	dead(far)
	deadEnd(a)
	deadEnd(b)
	e.quit()
	v.Reach("down")
}

// H_Down: every cause with every operation pending.
func H_Down() { down(true) }

// H_DownRace: the same under every schedule.
func H_DownRace() { down(false) }

// H_DownOpens: an end goes down while streams are being opened by either side.
func H_DownOpens() {
	e := joined()
	a, b := e.sides(v.Choice("side", 2))
	by := v.Choice("by", 3)
	how := v.Choice("how", 4)
	n := 1
	if v.Thorough() {
		n = 2
	}
	accepts := v.Choice("accepts", 2) == 1
	var sms []geminio.Stream
	var acc []<-chan struct{}
	accept := func(e geminio.End) {
		acc = append(acc, async(func() {
			for {
				sm, err := e.AcceptStream()
				if err != nil {
					return
				}
				v.Assert(sm != nil, "accept returned neither stream nor error")
				sms = append(sms, sm)
			}
		}))
	}
	var ds []<-chan struct{}
	open := func(e geminio.End) {
		for i := 0; i < n; i++ {
			ds = append(ds, async(func() {
				sm, err := e.OpenStream()
				v.Assert((sm == nil) == (err != nil), "open returned both or neither of stream and error")
				if err == nil {
					sms = append(sms, sm)
				}
			}))
		}
	}
	v.Window(true)
	if accepts {
		accept(a)
		accept(b)
	}
	if by != 1 {
		open(a)
	}
	if by != 0 {
		open(b)
	}
	var cs []<-chan struct{}
	cs = append(cs, async(func() {
		switch how {
		case 0:
			a.Close()
		case 1:
			e.w.sever()
		case 2:
			e.w.a.Close()
		case 3:
			go b.Close()
			a.Close()
		}
	}))
	for _, d := range cs {
		wait(time.Minute, "closing an end did not return", d)
	}
	for _, d := range ds {
		wait(time.Minute, "open pending on a closed end did not return", d)
	}
	for _, d := range acc {
		wait(time.Minute, "accept pending on a closed end did not return", d)
	}
	time.Sleep(time.Minute)
	v.Window(false)
	for _, e := range []geminio.End{a, b} {
		within(time.Second, "accept on a closed end did not return", func() {
			for i := 0; i < 5; i++ {
				sm, err := e.AcceptStream()
				if err != nil {
					return
				}
				sms = append(sms, sm)
			}
			v.Assert(false, "more streams accepted than were opened")
		})
		deadEnd(e)
	}
	for _, sm := range sms {
		dead(sm)
	}
	e.quit()
	v.Reach("down")
}
