package h

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"github.com/singchia/geminio/zzverif/v"
)

// call is one RPC as the harness wants it.
type call struct {
	data, custom   []byte
	rdata, rcustom []byte
	rerr           string
	ran            int
	done           int
	gate           chan struct{}
}

// serve is a handler for the calls: the first byte of the data is the index.
func serve(cs []*call, mu *sync.Mutex, sm geminio.Stream, method string) geminio.RPC {
	return func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		d := req.Data()
		if len(d) == 0 || int(d[0]) >= len(cs) {
			v.Assert(false, "handler got a request nobody made")
			return
		}
		c := cs[d[0]]
		mu.Lock()
		c.ran++
		mu.Unlock()
		v.Assert(v.Eq(d, c.data), "handler got other data than the caller sent")
		v.Assert(v.Eq(req.Custom(), c.custom), "handler got other custom bytes than the caller sent")
		v.Assert(req.Method() == method, "handler told another method than the one called")
		v.Assert(req.StreamID() == sm.StreamID() && req.ClientID() == sm.ClientID(), "handler told another stream or client")
		if c.gate != nil {
			<-c.gate
		}
		if c.rerr != "" {
			rsp.SetError(errors.New(c.rerr))
		} else {
			rsp.SetData(c.rdata)
			rsp.SetCustom(c.rcustom)
		}
	}
}

func (c *call) check(sm geminio.Stream, id uint64, method string, rsp geminio.Response, err error) {
	c.done++
	if c.rerr != "" {
		v.Assert(err != nil, "handler's error did not reach the caller")
		if err != nil {
			v.Assert(v.EqS(err.Error(), c.rerr), "caller got another error than the handler's")
		}
		return
	}
	v.Assert(err == nil, "call failed although its handler did not")
	if err != nil {
		return
	}
	if rsp == nil {
		v.Assert(false, "call returned neither response nor error")
		return
	}
	v.Assert(v.Eq(rsp.Data(), c.rdata), "caller got other data than its handler returned")
	v.Assert(v.Eq(rsp.Custom(), c.rcustom), "caller got other custom bytes than its handler returned")
	v.Assert(rsp.Error() == nil, "response without error carries one")
	v.Assert(rsp.ID() == id, "response to another request")
	v.Assert(rsp.Method() == method, "response names another method")
	v.Assert(rsp.StreamID() == sm.StreamID() && rsp.ClientID() == sm.ClientID(), "response names another stream or client")
}

func newCall(i int) *call {
	c := &call{data: append([]byte{byte(i)}, v.Bytes("data", 1)...)}
	// the custom bytes and the handler's answer, any of them empty
	switch v.Choice("answer", 5) {
	case 0:
		c.rdata, c.rcustom = v.Bytes("rdata", 1), v.Bytes("rcustom", 1)
	case 1:
		c.rerr, c.custom = "e"+v.Text("error", 1), v.Bytes("custom", 1)
	case 2:
		c.rcustom, c.custom = v.Bytes("rcustom", 1), v.Bytes("custom", 1)
	case 3:
		c.rdata = v.Bytes("rdata", 1)
	case 4:
		c.custom = v.Bytes("custom", 1)
	}
	return c
}

// issue starts a call as mode says, 0 synchronous, 1 asynchronous, 2
// asynchronous with the caller's channel; the channel is closed when the call
// completed. The call must complete once.
func issue(sm geminio.Stream, mode int, ctx context.Context, method string, req geminio.Request,
	done func(geminio.Response, error), oo ...*options.CallOptions) <-chan struct{} {
	if mode == 0 {
		return async(func() {
			rsp, err := sm.Call(ctx, method, req, oo...)
			done(rsp, err)
		})
	}
	var ch chan *geminio.Call
	if mode == 2 {
		ch = make(chan *geminio.Call, 4)
	}
	cl, err := sm.CallAsync(ctx, method, req, ch, oo...)
	if err != nil {
		return async(func() { done(nil, err) })
	}
	fin := make(chan struct{})
	go func() {
		x := <-cl.Done
		v.Assert(x == cl, "another call's completion delivered")
		done(x.Response, x.Error)
		close(fin)
		time.Sleep(10 * time.Second)
		v.Assert(len(cl.Done) == 0, "call completed twice")
	}()
	return fin
}

func calls(wide bool) {
	e := joined()
	a, b := e.sides(v.Choice("caller", 2))
	kind := 1
	if wide {
		kind = v.Choice("stream", 3)
	}
	near, far := streams(a, b, kind)
	var mu sync.Mutex
	n := 2
	if wide && v.Thorough() {
		n = 3
	}
	var cs []*call
	for i := 0; i < n; i++ {
		if wide {
			cs = append(cs, newCall(i))
		} else {
			cs = append(cs, &call{data: append([]byte{byte(i)}, v.Bytes("data", 1)...), rdata: v.Bytes("rdata", 1)})
		}
	}
	for _, c := range cs {
		c.gate = make(chan struct{})
	}
	err := far.Register(bg, "m", serve(cs, &mu, far, "m"))
	v.Assert(err == nil, "register failed")
	mode := 0
	if !wide {
		mode = v.Choice("mode", 2)
	}
	first := v.Choice("first", n)
	v.Window(!wide)
	var ds []<-chan struct{}
	for i, c := range cs {
		c := c
		if wide {
			mode = v.Choice("mode", 3)
		}
		req := near.NewRequest(c.data)
		req.SetCustom(c.custom)
		if i == first && !wide {
			close(c.gate)
		}
		ds = append(ds, issue(near, mode, bg, "m", req, func(rsp geminio.Response, err error) { c.check(near, req.ID(), "m", rsp, err) }))
	}
	if wide {
		close(cs[first].gate)
	}
	wait(time.Minute, "call did not complete although its handler did", ds[first])
	for i := range cs {
		if i != first {
			v.Assert(cs[i].done == 0, "call completed before its handler")
			close(cs[i].gate)
			wait(time.Minute, "call did not complete although its handler did", ds[i])
		}
	}
	v.Window(false)
	for _, c := range cs {
		v.Assert(c.ran == 1, "handler did not run exactly once")
		v.Assert(c.done == 1, "call did not complete exactly once")
	}
	v.Reach("called")
}

// H_Calls: several outstanding calls, of all kinds, finishing in any order.
func H_Calls() { calls(true) }

// H_CallsRace: two calls under every schedule.
func H_CallsRace() { calls(false) }

// H_CallsBothWays: each end calls the other, the handlers calling back.
func H_CallsBothWays() {
	e := joined()
	kind := v.Choice("stream", 2)
	near, far := streams(e.c, e.s, kind)
	x, y := v.Bytes("x", 1), v.Bytes("y", 1)
	back := v.Choice("nested", 2) == 1
	echo := func(peer geminio.Stream, name string) geminio.RPC {
		return func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
			if back {
				r, err := peer.Call(bg, "id", peer.NewRequest(req.Data()))
				v.Assert(err == nil, "nested call failed")
				if err == nil {
					rsp.SetData(append([]byte(name), r.Data()...))
				}
				return
			}
			rsp.SetData(append([]byte(name), req.Data()...))
		}
	}
	ident := func(ctx context.Context, req geminio.Request, rsp geminio.Response) { rsp.SetData(req.Data()) }
	near.Register(bg, "id", ident)
	far.Register(bg, "id", ident)
	near.Register(bg, "m", echo(near, "c"))
	far.Register(bg, "m", echo(far, "s"))
	v.Window(true)
	var r1, r2 geminio.Response
	var e1, e2 error
	d1 := async(func() { r1, e1 = near.Call(bg, "m", near.NewRequest(x)) })
	d2 := async(func() { r2, e2 = far.Call(bg, "m", far.NewRequest(y)) })
	wait(time.Minute, "call did not complete although its handler did", d1)
	wait(time.Minute, "call did not complete although its handler did", d2)
	v.Window(false)
	v.Assert(e1 == nil && e2 == nil, "call failed although its handler did not")
	if e1 == nil && e2 == nil {
		v.Assert(v.Eq(r1.Data(), append([]byte("s"), x...)), "caller got other data than its handler returned")
		v.Assert(v.Eq(r2.Data(), append([]byte("c"), y...)), "caller got other data than its handler returned")
	}
	v.Reach("both ways")
}

// H_Routes: which handler a call runs, for any method name and hijacker.
func H_Routes() {
	e := joined()
	a, b := e.sides(v.Choice("caller", 2))
	near, far := streams(a, b, v.Choice("stream", 2))
	ran := map[string]int{}
	told := ""
	h := func(name string) geminio.RPC {
		return func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
			ran[name]++
			told = req.Method()
			rsp.SetData(append([]byte(name), req.Data()...))
		}
	}
	nreg := v.Choice("registered", 3)
	m1 := v.Text("m1", 1)
	if nreg > 0 {
		v.Assert(far.Register(bg, m1, h("r1")) == nil, "register failed")
	}
	m2 := ""
	if nreg > 1 {
		m2 = v.Text("m2", 1)
		v.Assert(far.Register(bg, m2, h("r2")) == nil, "register failed")
	}
	hij := v.Choice("hijack", 6)
	hijack := func(ctx context.Context, m string, req geminio.Request, rsp geminio.Response) {
		ran["h"]++
		told = m
		v.Assert(v.EqS(req.Method(), m), "hijacker told two methods")
		rsp.SetData(append([]byte("h"), req.Data()...))
	}
	var herr error
	nomatch := false
	switch hij {
	case 1:
		herr = far.Hijack(hijack)
	case 2, 3:
		o := options.Hijack()
		o.SetMatch(hij == 2, "^a$")
		herr = far.Hijack(hijack, o)
	case 4: // one that matches the empty name, too
		o := options.Hijack()
		o.SetMatch(true, "^a?$")
		herr = far.Hijack(hijack, o)
	case 5: // no pattern
		o := options.Hijack()
		nomatch = v.Choice("match", 2) == 0
		match := !nomatch
		o.Match = &match
		herr = far.Hijack(hijack, o)
	}
	v.Assert(herr == nil, "hijack failed")
	m := v.Text("method", 1)
	if hij == 4 && v.Choice("name", 2) == 1 {
		m = ""
	}
	data := v.Bytes("data", 1)
	var rsp geminio.Response
	var err error
	within(time.Minute, "call did not return", func() { rsp, err = near.Call(bg, m, near.NewRequest(data)) })
	want := ""
	switch {
	case hij == 1, hij == 2 && m == "a", hij == 3 && m != "a", hij == 4 && (m == "" || m == "a"), hij == 5:
		want = "h"
	case nreg > 1 && m == m2:
		want = "r2"
	case nreg > 0 && m == m1:
		want = "r1"
	}
	total := 0
	for _, n := range ran {
		total += n
	}
	if nomatch {
		// whether that is all or none of the methods is not said
		v.Assert(total == 1 && err == nil || total == 0 && err != nil, "call ran several handlers or none and succeeded")
		return
	}
	if want == "" {
		v.Assert(err != nil, "call to a method nobody handles succeeded")
		v.Assert(total == 0, "call to a method nobody handles ran a handler")
		// and the stream is still good
		v.Assert(far.Register(bg, "later", h("later")) == nil, "register after a failed call failed")
		o := options.Hijack()
		o.SetMatch(true, "^$")
		v.Assert(far.Hijack(hijack, o) == nil, "hijack failed")
		within(time.Minute, "call after a failed one did not return", func() { rsp, err = near.Call(bg, "later", near.NewRequest(data)) })
		v.Assert(err == nil && ran["later"] == 1, "stream not usable after a call to a method nobody handles")
		within(time.Minute, "close after a failed call did not return", func() { near.Close() })
		v.Reach("unhandled")
		return
	}
	v.Assert(err == nil, "call to a handled method failed")
	v.Assert(ran[want] == 1, "the method's handler did not run exactly once")
	v.Assert(total == 1, "another handler ran as well")
	v.Assert(v.EqS(told, m), "handler told another method than the one called")
	if err == nil {
		v.Assert(v.Eq(rsp.Data(), append([]byte(want), data...)), "caller got other data than its handler returned")
	}
	v.Reach("handled")
}

// H_Registered: methods given as options, waited for by the peer and checked
// before calling.
func H_Registered() {
	co, so := client.NewEndOptions(), server.NewEndOptions()
	cd, sd := &rec{}, &rec{}
	co.SetDelegate(cd)
	so.SetDelegate(sd)
	serverWaits := v.Choice("waits", 2) == 1
	n := 1 + v.Choice("methods", 2)
	names := []string{"m0", "m1"}[:n]
	ran := 0
	h := func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		ran++
		rsp.SetData(req.Data())
	}
	var ms []*geminio.MethodRPC
	for _, m := range names {
		ms = append(ms, &geminio.MethodRPC{Method: m, RPC: h})
	}
	if serverWaits {
		co.SetRegisterLocalRPCs(ms...)
		so.SetWaitRemoteRPCs(names...)
		so.SetRemoteRPCCheck()
	} else {
		so.SetRegisterLocalRPCs(ms...)
		co.SetWaitRemoteRPCs(names...)
		co.SetRemoteRPCCheck()
	}
	v.Window(true)
	e := meet(newWire(), co, so)
	v.Assert(e.cErr == nil && e.sErr == nil, "ends not connected")
	if e.cErr != nil || e.sErr != nil {
		return
	}
	a, b := e.sides(v.Choice("caller", 1))
	if serverWaits {
		a, b = b, a
	}
	var r []geminio.Response
	data := v.Bytes("data", 1)
	for _, m := range names {
		rsp, err := a.Call(bg, m, a.NewRequest(data))
		v.Assert(err == nil, "call to a method waited for failed")
		r = append(r, rsp)
	}
	v.Window(false)
	v.Assert(ran == n, "handler did not run exactly once")
	// one nobody registered is refused without asking
	w := e.w.a.out.total + e.w.b.out.total
	_, err := a.Call(bg, "x", a.NewRequest(data))
	v.Assert(err != nil, "call to an unregistered method succeeded")
	_, err = a.CallAsync(bg, "x", a.NewRequest(data), nil)
	v.Assert(err != nil, "asynchronous call to an unregistered method started")
	v.Assert(e.w.a.out.total+e.w.b.out.total == w, "call to an unregistered method sent although methods are checked")
	// registering it makes it callable
	v.Assert(b.Register(bg, "x", h) == nil, "register failed")
	_, err = a.Call(bg, "x", a.NewRequest(data))
	v.Assert(err == nil, "call to a method registered since failed")
	regs, rd := n+1, cd
	if serverWaits {
		rd = sd
	}
	k := 0
	for _, ev := range rd.log {
		if len(ev.what) > 4 && ev.what[:4] == "reg:" {
			k++
			v.Assert(ev.client == e.c.ClientID() && ev.dlg == 1, "remote registration reported for another client or stream")
		}
	}
	v.Assert(k == regs, "remote registrations not reported once each")
	e.quit()
	v.Reach("registered")
}

// expiry: a call that is answered, times out, or is cancelled at given times.
func expiry(wide bool) {
	e := joined()
	a, b := e.sides(v.Choice("caller", 2))
	near, far := streams(a, b, v.Choice("stream", 2))
	gate := make(chan struct{})
	how := v.Choice("how", 6)
	mode := v.Choice("mode", 2)
	limits := []time.Duration{time.Second, 15 * time.Millisecond, 3 * time.Minute}
	limit := limits[0]
	if wide {
		limit = limits[v.Choice("limit", 3)]
	}
	// the handler answers before, about, after or long after the limit
	var answer time.Duration
	ans := v.Choice("answer", 4)
	switch ans {
	case 0:
		answer = limit / 3
	case 1:
		answer = limit
	case 2:
		answer = limit + 50*time.Millisecond
	case 3:
		answer = 2*limit + time.Second
	}
	start := time.Now()
	var hctx context.Context
	var ended time.Duration
	far.Register(bg, "slow", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		hctx = ctx
		go func() {
			<-ctx.Done()
			ended = time.Since(start)
		}()
		time.Sleep(answer - time.Since(start))
		rsp.SetData(req.Data())
		close(gate)
	})
	far.Register(bg, "quick", func(ctx context.Context, req geminio.Request, rsp geminio.Response) { rsp.SetData(req.Data()) })
	x, y := v.Bytes("x", 1), v.Bytes("y", 1)
	v.Window(!wide)
	ctx, cancel := bg, func() {}
	var oo []*options.CallOptions
	req := near.NewRequest(x)
	start = time.Now()
	switch how {
	case 0:
		o := options.Call()
		o.SetTimeout(limit)
		oo = append(oo, o)
	case 1:
		req.SetTimeout(limit)
	case 2:
		ctx, cancel = context.WithDeadline(bg, start.Add(limit))
	case 4: // both, the context's deadline first
		o := options.Call()
		o.SetTimeout(2 * limit)
		oo = append(oo, o)
		ctx, cancel = context.WithDeadline(bg, start.Add(limit))
	case 5: // both, the timeout first
		req.SetTimeout(limit)
		ctx, cancel = context.WithDeadline(bg, start.Add(2*limit))
	case 3:
		ctx, cancel = context.WithCancel(bg)
		go func() {
			time.Sleep(limit - time.Since(start))
			cancel()
		}()
	}
	var rsp geminio.Response
	var err error
	var took time.Duration
	n := 0
	d := issue(near, mode, ctx, "slow", req, func(r geminio.Response, e error) {
		rsp, err = r, e
		took = time.Since(start)
		n++
	}, oo...)
	if wide && v.Choice("other", 2) == 1 {
		// another one meanwhile
		r2, err2 := near.Call(bg, "quick", near.NewRequest(y))
		v.Assert(err2 == nil, "another call failed")
		if err2 == nil {
			v.Assert(v.Eq(r2.Data(), y), "another call got other data")
		}
	}
	wait(time.Hour, "call did not end at its timeout or cancellation", d)
	if err != nil {
		v.Assert(took >= limit, "call ended by its timeout or cancellation before that")
		v.Assert(took <= limit+40*time.Millisecond, "call outlasted its timeout or cancellation")
		v.Assert(ans != 0, "call failed although it was answered in time")
		switch how {
		case 0, 1, 5:
			v.Assert(isTimeout(err), "call past its timeout returned another error")
		case 2, 4:
			v.Assert(err == context.DeadlineExceeded, "call past its context's deadline returned another error")
		case 3:
			v.Assert(err == context.Canceled, "cancelled call returned another error")
		}
	} else {
		v.Assert(took >= answer, "call completed before its handler")
		v.Assert(took <= answer+40*time.Millisecond, "answered call completed late")
		v.Assert(took <= limit+40*time.Millisecond, "call outlasted its timeout or cancellation")
		v.Assert(v.Eq(rsp.Data(), x), "caller got other data than its handler returned")
	}
	if ans >= 2 {
		v.Assert(err != nil, "call answered after its timeout or cancellation succeeded")
	}
	<-gate
	time.Sleep(time.Second)
	v.Window(false)
	v.Assert(n == 1, "call did not complete exactly once")
	if ans >= 2 {
		v.Assert(hctx.Err() != nil && ended <= limit+40*time.Millisecond, "handler's context outlasted its call's timeout or cancellation")
	}
	cancel()
	// the late answer disturbs nothing
	for i := 0; i < 2; i++ {
		within(time.Minute, "call after one that timed out did not return", func() { rsp, err = near.Call(bg, "quick", near.NewRequest(y)) })
		v.Assert(err == nil, "call after one that timed out failed")
		if err == nil {
			v.Assert(v.Eq(rsp.Data(), y), "call after one that timed out got other data")
		}
	}
	e.quit()
	v.Reach("expired")
}

// H_CallExpiry: answers before, at and after any kind of limit.
func H_CallExpiry() { expiry(true) }

// H_CallExpiryRace: the same under every schedule.
func H_CallExpiryRace() { expiry(false) }

// H_CallOver: calls whose time is over before they start.
func H_CallOver() {
	e := joined()
	a, b := e.sides(v.Choice("caller", 2))
	ran := 0
	b.Register(bg, "m", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		ran++
		rsp.SetData(req.Data())
	})
	ctx, cancel := bg, func() {}
	req := a.NewRequest(v.Bytes("x", 1))
	how := v.Choice("how", 4)
	switch how {
	case 0:
		req.SetTimeout(-time.Duration(1 + v.Choice("past", 2)*100000000))
	case 1:
		ctx, cancel = context.WithDeadline(bg, time.Now().Add(-time.Second))
	case 2:
		ctx, cancel = context.WithCancel(bg)
		cancel()
	case 3:
		req.SetTimeout(time.Duration(1 + v.Choice("soon", 2)*5000000))
	}
	start := time.Now()
	var err error
	d := issue(a, v.Choice("mode", 2), ctx, "m", req, func(r geminio.Response, e error) { err = e })
	wait(time.Minute, "call whose time was over did not return", d)
	if how == 0 {
		v.Assert(err != nil && isTimeout(err), "call with a negative timeout did not time out")
	}
	if how == 1 || how == 2 {
		v.Assert(err == nil || err == ctx.Err(), "call whose context had ended returned another error")
	}
	v.Assert(time.Since(start) <= 40*time.Millisecond, "call whose time was over did not end at once")
	cancel()
	rsp, err := a.Call(bg, "m", a.NewRequest([]byte{7}))
	v.Assert(err == nil && len(rsp.Data()) == 1 && rsp.Data()[0] == 7, "call after one that timed out failed")
	e.quit()
	v.Reach("over")
}

// H_Stalled: calls and publishes on a transport that takes nothing, with every
// queue full.
func H_Stalled() {
	co, so := client.NewEndOptions(), server.NewEndOptions()
	co.SetBufferSize(1, 1)
	so.SetBufferSize(1, 1)
	e := meet(newWire(), co, so)
	v.Assert(e.cErr == nil && e.sErr == nil, "ends not connected")
	if e.cErr != nil || e.sErr != nil {
		return
	}
	side := v.Choice("side", 2)
	a, _ := e.sides(side)
	x := e.w.a
	if side == 1 {
		x = e.w.b
	}
	x.out.stalled = true
	full := v.Choice("full", 2) == 1
	var filled <-chan struct{}
	if full {
		filled = async(func() {
			o := options.NewMessage()
			o.SetCnss(options.CnssAtMostOnce)
			for i := 0; i < 45; i++ {
				if a.Publish(bg, a.NewMessage([]byte{1}, o)) != nil {
					return
				}
			}
		})
		time.Sleep(100 * time.Millisecond)
	}
	v.Window(true)
	limit := time.Second
	ctx, cancel := bg, func() {}
	how := v.Choice("how", 3)
	start := time.Now()
	switch how {
	case 1:
		ctx, cancel = context.WithDeadline(bg, start.Add(limit))
	case 2:
		ctx, cancel = context.WithCancel(bg)
		go func() {
			time.Sleep(limit)
			cancel()
		}()
	}
	var err error
	op := v.Choice("op", 4)
	d := async(func() {
		switch op {
		case 0, 1:
			req := a.NewRequest([]byte{1})
			if how == 0 {
				req.SetTimeout(limit)
			}
			if op == 0 {
				_, err = a.Call(ctx, "m", req)
				return
			}
			var c *geminio.Call
			c, err = a.CallAsync(ctx, "m", req, nil)
			if err == nil {
				err = (<-c.Done).Error
			}
		case 2, 3:
			m := a.NewMessage([]byte{1})
			if how == 0 {
				m.SetTimeout(limit)
			}
			if op == 2 {
				err = a.Publish(ctx, m)
				return
			}
			var p *geminio.Publish
			p, err = a.PublishAsync(ctx, m, nil)
			if err == nil {
				err = (<-p.Done).Error
			}
		}
	})
	wait(10*time.Second, "operation on a stalled transport did not end at its timeout or cancellation", d)
	took := time.Since(start)
	v.Window(false)
	v.Assert(err != nil, "operation on a stalled transport succeeded")
	v.Assert(took >= limit && took <= limit+40*time.Millisecond, "operation on a stalled transport did not end in time")
	switch how {
	case 0:
		v.Assert(isTimeout(err), "call past its timeout returned another error")
	default:
		v.Assert(err == ctx.Err(), "call past its context's end returned another error")
	}
	cancel()
	e.w.sever()
	if full {
		wait(time.Minute, "publish on a lost transport did not return", filled)
	}
	gone("goroutines left after the transport was lost")
	v.Reach("stalled")
}

// H_StalledCancel: calls whose handlers run already when the transport stalls
// and the queues fill are cancelled then. They return at once, their handlers'
// contexts end when the transport goes on, and the stream works as before.
func H_StalledCancel() {
	co, so := client.NewEndOptions(), server.NewEndOptions()
	co.SetBufferSize(1, 1)
	so.SetBufferSize(1, 1)
	e := meet(newWire(), co, so)
	v.Assert(e.cErr == nil && e.sErr == nil, "ends not connected")
	if e.cErr != nil || e.sErr != nil {
		return
	}
	side := v.Choice("side", 2)
	a, b := e.sides(side)
	x := e.w.a
	if side == 1 {
		x = e.w.b
	}
	const fill = 180
	started, ended := make(chan struct{}, 1), make(chan time.Time, 1)
	b.Register(bg, "hang", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		started <- struct{}{}
		<-ctx.Done()
		ended <- time.Now()
		rsp.SetData([]byte{9})
	})
	b.Register(bg, "echo", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		rsp.SetData(req.Data())
	})
	go func() {
		for {
			m, err := b.Receive(bg)
			if err != nil {
				return
			}
			m.Done()
		}
	}()
	ctx, cancel := context.WithCancel(bg)
	var err error
	later := v.Choice("async", 2) == 1
	d := async(func() {
		req := a.NewRequest([]byte{1})
		if !later {
			_, err = a.Call(ctx, "hang", req)
			return
		}
		var c *geminio.Call
		c, err = a.CallAsync(ctx, "hang", req, nil)
		if err == nil {
			err = (<-c.Done).Error
		}
	})
	if !within(time.Minute, "the handler did not start", func() { <-started }) {
		return
	}
	full := v.Choice("full", 2) == 1
	x.out.stalled = true
	var filled <-chan struct{}
	if full {
		filled = async(func() {
			o := options.NewMessage()
			o.SetCnss(options.CnssAtMostOnce)
			for i := 0; i < fill; i++ {
				if a.Publish(bg, a.NewMessage([]byte{1}, o)) != nil {
					return
				}
			}
		})
		time.Sleep(100 * time.Millisecond)
	}
	v.Window(true)
	start := time.Now()
	cancel()
	wait(10*time.Second, "operation on a stalled transport did not end at its timeout or cancellation", d)
	v.Window(false)
	v.Assert(err == context.Canceled && time.Since(start) <= 40*time.Millisecond, "cancelled call did not end at once with its context's error")
	time.Sleep(time.Second)
	on := time.Now()
	x.out.unstall()
	var at time.Time
	if !within(time.Minute, "the handler's context did not end with the call", func() { at = <-ended }) {
		return
	}
	v.Assert(at.Sub(on) <= time.Second, "the handler's context ended late")
	if full {
		wait(time.Minute, "publish did not return although the transport went on", filled)
	}
	rsp, err := a.Call(bg, "echo", a.NewRequest([]byte{3}))
	v.Assert(err == nil && len(rsp.Data()) == 1 && rsp.Data()[0] == 3, "a call after a cancelled one failed")
	v.Reach("went on")
}

// H_CallsUnread: asynchronous calls whose completion nobody takes yet, with
// channels of their own or one for both; everything else goes on.
func H_CallsUnread() {
	e := joined()
	a, b := e.sides(v.Choice("caller", 2))
	near, far := streams(a, b, v.Choice("stream", 2))
	var mu sync.Mutex
	cs := []*call{newCall(0), newCall(1), newCall(2)}
	for _, c := range cs[:2] {
		c.gate = make(chan struct{})
	}
	v.Assert(far.Register(bg, "m", serve(cs, &mu, far, "m")) == nil, "register failed")
	var chs [2]chan *geminio.Call
	switch v.Choice("channel", 3) {
	case 1:
		chs[0], chs[1] = make(chan *geminio.Call, 1), make(chan *geminio.Call, 1)
	case 2:
		chs[0] = make(chan *geminio.Call, 2)
		chs[1] = chs[0]
	}
	first := v.Choice("first", 2)
	v.Window(true)
	var got [2]*geminio.Call
	for i := range got {
		req := near.NewRequest(cs[i].data)
		req.SetCustom(cs[i].custom)
		x, err := near.CallAsync(bg, "m", req, chs[i])
		if err != nil {
			v.Assert(false, "asynchronous call failed")
			return
		}
		v.Assert(chs[i] == nil || x.Done == chs[i], "completion goes to another channel than the caller's")
		got[i] = x
	}
	close(cs[first].gate)
	close(cs[1-first].gate)
	time.Sleep(time.Second)
	req := near.NewRequest(cs[2].data)
	req.SetCustom(cs[2].custom)
	d := issue(near, 0, bg, "m", req, func(rsp geminio.Response, err error) { cs[2].check(near, req.ID(), "m", rsp, err) })
	wait(time.Minute, "call did not complete although its handler did", d)
	for k := range got {
		i := k
		var x *geminio.Call
		d := async(func() { x = <-got[k].Done })
		if !wait(time.Minute, "completion of an asynchronous call is not delivered", d) {
			return
		}
		if x != got[k] {
			i = 1 - k
		}
		if x != got[i] {
			v.Assert(false, "another call's completion delivered")
			return
		}
		cs[i].check(near, x.Request.ID(), "m", x.Response, x.Error)
	}
	v.Window(false)
	for i, c := range cs {
		v.Assert(c.done == 1, "call did not complete exactly once")
		v.Assert(i == 2 || len(got[i].Done) == 0, "call completed twice")
	}
	v.Reach("unread")
}

// H_RegisteredLater: an end waits for methods which its peer registers one by
// one, with others, again, on another stream, or never.
func H_RegisteredLater() {
	co, so := client.NewEndOptions(), server.NewEndOptions()
	serverWaits := v.Choice("waits", 2) == 1
	names := [][]string{{"m0"}, {"m0", "m1"}, {"m0", "m1", "m0"}}[v.Choice("names", 3)]
	check := v.Choice("check", 2) == 1
	if serverWaits {
		so.SetWaitRemoteRPCs(names...)
		if check {
			so.SetRemoteRPCCheck()
		}
	} else {
		co.SetWaitRemoteRPCs(names...)
		if check {
			co.SetRemoteRPCCheck()
		}
	}
	w := newWire()
	e := &ends{w: w}
	s := async(func() { e.s, e.sErr = server.NewEndWithConn(w.b, so) })
	c := async(func() { e.c, e.cErr = client.NewEndWithConn(w.a, co) })
	d, quick := c, s
	if serverWaits {
		d, quick = s, c
	}
	wait(time.Minute, "creating an end that waits for nothing did not return", quick)
	reg := e.s
	if serverWaits {
		reg = e.c
	}
	if reg == nil {
		v.Assert(false, "ends not connected")
		return
	}
	other, err := reg.OpenStream()
	v.Assert(err == nil, "stream not opened")
	v.Window(true)
	ran := map[string]int{}
	have := map[string]bool{}
	all := func() bool { return have["m0"] && (len(names) == 1 || have["m1"]) }
	h := func(name string) geminio.RPC {
		return func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
			ran[name]++
			rsp.SetData([]byte(name))
		}
	}
	k := v.Choice("registrations", 3)
	for i := 0; i < k+1; i++ {
		switch v.Choice("next", 4) {
		case 0:
			v.Assert(reg.Register(bg, "m0", h("m0")) == nil, "register failed")
			have["m0"] = true
		case 1:
			v.Assert(reg.Register(bg, "m1", h("m1")) == nil, "register failed")
			have["m1"] = true
		case 2:
			v.Assert(reg.Register(bg, "x", h("x")) == nil, "register failed")
			have["x"] = true
		case 3:
			// which is done once the stream is accepted
			go other.Register(bg, "m1", h("o"))
		}
		time.Sleep(time.Second)
		v.Assert(isDone(d) == all(), "end returned before the methods it waits for were registered, or not then")
	}
	if !all() {
		switch v.Choice("end", 3) {
		case 0:
			reg.Close()
		case 1:
			w.sever()
		case 2:
			w.quiet = true
			w.sever()
		}
		wait(time.Minute, "end that waits for methods did not return although the connection is lost", d)
		v.Window(false)
		if serverWaits {
			v.Assert(e.s == nil && e.sErr != nil, "end connected without the methods it waits for")
		} else {
			v.Assert(e.c == nil && e.cErr != nil, "end connected without the methods it waits for")
		}
		reg.Close()
		gone("goroutines left after waiting for methods in vain")
		v.Reach("in vain")
		return
	}
	v.Window(false)
	v.Assert(e.cErr == nil && e.sErr == nil, "ends not connected")
	if e.cErr != nil || e.sErr != nil {
		return
	}
	a := e.c
	if serverWaits {
		a = e.s
	}
	for _, m := range []string{"m0", "m1", "x"} {
		r, err := a.Call(bg, m, a.NewRequest(nil))
		if have[m] {
			v.Assert(err == nil && string(r.Data()) == m && ran[m] == 1, "call to a registered method failed or ran another handler")
		} else {
			v.Assert(err != nil && ran[m] == 0, "call to an unregistered method succeeded")
		}
	}
	e.quit()
	v.Reach("later")
}
