package h

import (
	"context"
	"errors"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/zzverif/v"
)

// note is one message as the harness wants it.
type note struct {
	data, custom []byte
	topic        string
	once         bool // at most once
	msg          geminio.Message
	id           uint64
	err          error
	done         int
	at           time.Time
}

func (n *note) make(sm geminio.Stream, viaOptions bool) geminio.Message {
	o := options.NewMessage()
	if n.once {
		o.SetCnss(options.CnssAtMostOnce)
	}
	if viaOptions {
		o.SetCustom(n.custom)
		o.SetTopic(n.topic)
	}
	m := sm.NewMessage(n.data, o)
	if !viaOptions {
		m.SetCustom(n.custom)
		m.SetTopic(n.topic)
	}
	n.msg, n.id = m, m.ID()
	return m
}

// is checks that m is n as received on sm.
func (n *note) is(m geminio.Message, sm geminio.Stream) {
	v.Assert(v.Eq(m.Data(), n.data), "message altered, lost or out of order")
	v.Assert(v.Eq(m.Custom(), n.custom), "message received with other custom bytes")
	v.Assert(v.EqS(m.Topic(), n.topic), "message received with another topic")
	v.Assert(m.ID() == n.id, "message received with another id")
	v.Assert(m.StreamID() == sm.StreamID() && m.ClientID() == sm.ClientID(), "message received for another stream or client")
}

// post publishes as mode says: 0 synchronously, 1 asynchronously, 2
// asynchronously with the publisher's channel. It returns once the message was
// handed over in order; the channel is closed when the publish completed.
func (n *note) post(sm geminio.Stream, mode int, ctx context.Context, m geminio.Message, oo ...*options.PublishOptions) <-chan struct{} {
	fin := make(chan struct{})
	end := func(err error) {
		n.err = err
		n.done++
		n.at = time.Now()
		close(fin)
	}
	if mode == 0 {
		go func() { end(sm.Publish(ctx, m, oo...)) }()
		return fin
	}
	var ch chan *geminio.Publish
	if mode == 2 {
		ch = make(chan *geminio.Publish, 4)
	}
	p, err := sm.PublishAsync(ctx, m, ch, oo...)
	if err != nil || n.once {
		end(err)
		return fin
	}
	go func() {
		x := <-p.Done
		v.Assert(x == p && x.Message == m, "another publish's completion delivered")
		end(x.Error)
		time.Sleep(10 * time.Second)
		v.Assert(len(p.Done) == 0, "publish completed twice")
	}()
	return fin
}

func take(sm geminio.Stream) geminio.Message {
	var m geminio.Message
	var err error
	within(time.Minute, "published message not received", func() { m, err = sm.Receive(bg) })
	v.Assert(err == nil && m != nil, "receive failed on an open stream")
	v.Assume(err == nil && m != nil)
	return m
}

// none checks that nothing more is received.
func none(sm geminio.Stream, label string) {
	ctx, cancel := context.WithTimeout(bg, time.Second)
	m, err := sm.Receive(ctx)
	cancel()
	v.Assert(m == nil && err == context.DeadlineExceeded, label)
}

func messages(wide bool) {
	e := joined()
	a, b := e.sides(v.Choice("from", 2))
	kind := 1
	if wide {
		kind = v.Choice("stream", 3)
	}
	near, far := streams(a, b, kind)
	n := 3
	var ns []*note
	for i := 0; i < n; i++ {
		x := &note{data: v.Bytes("data", 1)}
		if wide {
			x.custom = v.Bytes("custom", 1)
			x.topic = v.Text("topic", i)
		}
		if wide || i == 0 {
			x.once = v.Choice("atmostonce", 2) == 1
		}
		ns = append(ns, x)
	}
	mode := v.Choice("mode", 3)
	v.Assume(wide || mode < 2)
	v.Window(!wide)
	d := async(func() {
		for _, x := range ns {
			m := x.make(near, wide)
			if mode == 0 {
				x.err = near.Publish(bg, m)
				x.done++
				continue
			}
			x.post(near, mode, bg, m)
		}
	})
	for i := range ns {
		m := take(far)
		ns[i].is(m, far)
		if mode == 0 || !wide || v.Choice("ack", 2) == 1 {
			v.Assert(m.Done() == nil, "marking a message done failed")
		}
	}
	wait(time.Minute, "publish did not return", d)
	v.Window(false)
	none(far, "message received twice")
	for _, x := range ns {
		if x.done > 0 {
			v.Assert(x.err == nil, "publish failed on an open stream")
		}
	}
	v.Reach("received")
}

// H_Messages: three messages of any content, consistency and way of publishing.
func H_Messages() { messages(true) }

// H_MessagesRace: the same under every schedule.
func H_MessagesRace() { messages(false) }

// H_MessagesMany: more messages than any queue holds, before anybody receives.
func H_MessagesMany() {
	e := joined()
	a, b := e.sides(v.Choice("from", 2))
	near, far := streams(a, b, v.Choice("stream", 2))
	x := v.Bytes("x", 1)
	n := 250
	if v.Thorough() {
		n = 600
	}
	o := options.NewMessage()
	o.SetCnss(options.CnssAtMostOnce)
	once := v.Choice("atmostonce", 2) == 1
	var ids []uint64
	d := async(func() {
		for i := 0; i < n; i++ {
			var m geminio.Message
			if once {
				m = near.NewMessage(append([]byte{byte(i)}, x...), o)
			} else {
				m = near.NewMessage(append([]byte{byte(i)}, x...))
			}
			ids = append(ids, m.ID())
			if _, err := near.PublishAsync(bg, m, nil); err != nil {
				v.Assert(false, "publish failed on an open stream")
			}
		}
	})
	if v.Choice("late", 2) == 1 {
		time.Sleep(time.Second)
	}
	for i := 0; i < n; i++ {
		m := take(far)
		v.Assert(v.Eq(m.Data(), append([]byte{byte(i)}, x...)) && m.ID() == ids[i], "message altered, lost or out of order")
		m.Done()
	}
	wait(time.Minute, "publish did not return", d)
	none(far, "message received twice")
	v.Reach("many")
}

// acks: two outstanding messages, each marked done or failed, in any order and
// time, or not at all; with limits.
func acks(wide bool) {
	e := joined()
	a, b := e.sides(v.Choice("from", 2))
	kind := 0
	if wide {
		kind = v.Choice("stream", 2)
	}
	near, far := streams(a, b, kind)
	limit := time.Second
	ns := []*note{{data: []byte{0}}, {data: []byte{1}}}
	// what the receiver does with the first one: done, failed, nothing, late done
	fate := v.Choice("fate", 4)
	fate1 := 0
	if wide {
		fate1 = v.Choice("fate1", 2)
	}
	text := "e" + v.Text("text", 1)
	how := v.Choice("how", 7)
	mode := v.Choice("mode", 3)
	if !wide {
		v.Assume(mode < 2 && how != 1 && how < 5)
	}
	order := v.Choice("order", 2)
	v.Window(!wide)
	ctx, cancel := bg, func() {}
	m0, m1 := ns[0].make(near, false), ns[1].make(near, false)
	var oo []*options.PublishOptions
	start := time.Now()
	switch how {
	case 0:
		o := options.Publish()
		o.SetTimeout(limit)
		oo = append(oo, o)
	case 1:
		m0.SetTimeout(limit)
	case 2:
		ctx, cancel = context.WithDeadline(bg, start.Add(limit))
	case 3:
		ctx, cancel = context.WithCancel(bg)
		go func() {
			time.Sleep(limit)
			cancel()
		}()
	case 5:
		m0.SetTimeout(2 * limit)
		ctx, cancel = context.WithDeadline(bg, start.Add(limit))
	case 6:
		m0.SetTimeout(limit)
		ctx, cancel = context.WithDeadline(bg, start.Add(2*limit))
	}
	d0 := ns[0].post(near, mode, ctx, m0, oo...)
	if mode == 0 {
		time.Sleep(time.Millisecond)
	}
	d1 := ns[1].post(near, mode, bg, m1)
	r0, r1 := take(far), take(far)
	ns[0].is(r0, far)
	ns[1].is(r1, far)
	v.Assert(ns[0].done == 0 && ns[1].done == 0, "publish completed before the receiver acknowledged it")
	ack0 := func() {
		switch fate {
		case 0:
			v.Assert(r0.Done() == nil, "marking a message done failed")
		case 1:
			v.Assert(r0.Error(errors.New(text)) == nil, "marking a message failed failed")
		}
	}
	ack1 := func() {
		if fate1 == 1 {
			v.Assert(r1.Error(errors.New("other")) == nil, "marking a message failed failed")
		} else {
			v.Assert(r1.Done() == nil, "marking a message done failed")
		}
	}
	chk1 := func() {
		wait(time.Second/2, "acknowledged publish did not complete", d1)
		if fate1 == 1 {
			v.Assert(ns[1].err != nil && ns[1].err.Error() == "other", "publish did not return the receiver's error")
		} else {
			v.Assert(ns[1].err == nil, "publish failed although the receiver marked it done")
		}
	}
	if order == 1 {
		ack1()
		chk1()
		v.Assert(ns[0].done == 0, "acknowledging one message completed another")
	}
	ack0()
	limited := how != 4
	if fate < 2 {
		wait(time.Second/2, "acknowledged publish did not complete", d0)
		if fate == 0 {
			v.Assert(ns[0].err == nil, "publish failed although the receiver marked it done")
		} else if ns[0].err == nil {
			v.Assert(false, "publish succeeded although the receiver marked it failed")
		} else {
			v.Assert(v.EqS(ns[0].err.Error(), text), "publish did not return the receiver's error")
		}
	} else if limited {
		wait(time.Minute, "publish did not end at its timeout or cancellation", d0)
		took := ns[0].at.Sub(start)
		v.Assert(took >= limit, "publish ended by its timeout or cancellation before that")
		v.Assert(took <= limit+40*time.Millisecond, "publish outlasted its timeout or cancellation")
		switch how {
		case 0, 1, 6:
			v.Assert(isTimeout(ns[0].err), "publish past its timeout returned another error")
		case 2, 5:
			v.Assert(ns[0].err == context.DeadlineExceeded, "publish past its context's deadline returned another error")
		case 3:
			v.Assert(ns[0].err == context.Canceled, "cancelled publish returned another error")
		}
		if fate == 3 {
			// acknowledged too late
			r0.Done()
			time.Sleep(10 * time.Millisecond)
		}
	} else {
		time.Sleep(2 * limit)
		v.Assert(ns[0].done == 0, "publish completed without acknowledgement")
		r0.Done()
		wait(time.Second/2, "acknowledged publish did not complete", d0)
		v.Assert(ns[0].err == nil, "publish failed although the receiver marked it done")
	}
	if order == 0 {
		v.Assert(ns[1].done == 0, "acknowledging one message completed another")
		ack1()
		chk1()
	}
	time.Sleep(2 * limit)
	v.Window(false)
	cancel()
	v.Assert(ns[0].done == 1 && ns[1].done == 1, "publish did not complete exactly once")
	// and the stream is still good
	n2 := &note{data: []byte{2}}
	d2 := n2.post(near, 0, bg, n2.make(near, false))
	take(far).Done()
	wait(time.Minute, "acknowledged publish did not complete", d2)
	v.Assert(n2.err == nil, "publish failed although the receiver marked it done")
	e.quit()
	v.Reach("acknowledged")
}

// H_Acks: acknowledgements of any kind, order and time.
func H_Acks() { acks(true) }

// H_AcksRace: the same under every schedule.
func H_AcksRace() { acks(false) }

// H_AtMostOnce: publishes that wait for nothing, whatever happens to them.
func H_AtMostOnce() {
	e := joined()
	a, b := e.sides(v.Choice("from", 2))
	near, far := streams(a, b, v.Choice("stream", 2))
	x := &note{data: v.Bytes("data", 1), once: true}
	mode := v.Choice("mode", 3)
	m := x.make(near, v.Choice("options", 2) == 1)
	if v.Choice("timeout", 2) == 1 {
		m.SetTimeout(time.Second)
	}
	v.Window(true)
	start := time.Now()
	d := x.post(near, mode, bg, m)
	wait(time.Minute, "at-most-once publish did not return", d)
	v.Assert(x.err == nil, "at-most-once publish failed on an open stream")
	v.Assert(time.Since(start) < 10*time.Millisecond, "at-most-once publish waited")
	r := take(far)
	x.is(r, far)
	switch v.Choice("ack", 3) {
	case 1:
		r.Done()
	case 2:
		r.Error(errors.New("late"))
	}
	y := &note{data: []byte{9}}
	d = y.post(near, 0, bg, y.make(near, false))
	take(far).Done()
	wait(time.Minute, "acknowledged publish did not complete", d)
	v.Assert(y.err == nil, "publish failed although the receiver marked it done")
	v.Window(false)
	time.Sleep(2 * time.Second)
	v.Assert(x.done == 1, "publish did not complete exactly once")
	v.Reach("at most once")
}

// H_AcksUnread: asynchronous publishes whose completion nobody takes yet, with
// channels of their own or one for both; everything else goes on.
func H_AcksUnread() {
	e := joined()
	a, b := e.sides(v.Choice("from", 2))
	near, far := streams(a, b, v.Choice("stream", 2))
	text := "e" + v.Text("text", 1)
	var chs [2]chan *geminio.Publish
	switch v.Choice("channel", 3) {
	case 1:
		chs[0], chs[1] = make(chan *geminio.Publish, 1), make(chan *geminio.Publish, 1)
	case 2:
		chs[0] = make(chan *geminio.Publish, 2)
		chs[1] = chs[0]
	}
	first, fate := v.Choice("first", 2), v.Choice("fate", 4)
	v.Window(true)
	var got [2]*geminio.Publish
	var ms [2]geminio.Message
	for i := range got {
		ms[i] = near.NewMessage([]byte{byte(i)})
		x, err := near.PublishAsync(bg, ms[i], chs[i])
		if err != nil {
			v.Assert(false, "asynchronous publish failed")
			return
		}
		v.Assert(chs[i] == nil || x.Done == chs[i], "completion goes to another channel than the publisher's")
		got[i] = x
	}
	rs := [2]geminio.Message{take(far), take(far)}
	for _, i := range []int{first, 1 - first} {
		if fate>>uint(i)&1 == 1 {
			rs[i].Error(errors.New(text))
		} else {
			rs[i].Done()
		}
	}
	time.Sleep(time.Second)
	n := &note{data: []byte{2}}
	d := n.post(near, 0, bg, n.make(near, false))
	take(far).Done()
	wait(time.Minute, "acknowledged publish did not complete", d)
	v.Assert(n.err == nil, "publish failed although the receiver marked it done")
	var seen [2]int
	for k := range got {
		i := k
		var x *geminio.Publish
		d := async(func() { x = <-got[k].Done })
		if !wait(time.Minute, "completion of an asynchronous publish is not delivered", d) {
			return
		}
		if x != got[k] {
			i = 1 - k
		}
		if x != got[i] || x.Message != ms[i] {
			v.Assert(false, "another publish's completion delivered")
			return
		}
		seen[i]++
		if fate>>uint(i)&1 == 0 {
			v.Assert(x.Error == nil, "publish failed although the receiver marked it done")
		} else if x.Error == nil {
			v.Assert(false, "publish succeeded although the receiver marked it failed")
		} else {
			v.Assert(v.EqS(x.Error.Error(), text), "publish did not return the receiver's error")
		}
	}
	v.Window(false)
	v.Assert(seen == [2]int{1, 1} && len(got[0].Done) == 0 && len(got[1].Done) == 0, "publish did not complete exactly once")
	v.Reach("unread")
}
