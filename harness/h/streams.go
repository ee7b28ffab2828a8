package h

import (
	"context"
	"io"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"github.com/singchia/geminio/zzverif/v"
)

// listed returns the ids of the opened streams an end lists.
func listed(e geminio.End) map[uint64]bool {
	m := map[uint64]bool{}
	for _, sm := range e.ListStreams() {
		if id := sm.StreamID(); id != 1 {
			v.Assert(!m[id], "stream listed twice")
			m[id] = true
		}
	}
	return m
}

// opening is one OpenStream and what was accepted for it.
type opening struct {
	from, to  geminio.End
	meta      []byte
	peer      string
	near, far geminio.Stream
}

// matched checks that the openings and the accepted streams are the same ones.
func matched(ops []*opening, acc map[geminio.End][]geminio.Stream) {
	seen := map[uint64]bool{}
	for _, o := range ops {
		id := o.near.StreamID()
		v.Assert(id != 1 && id != 0, "opened stream takes the id of the default stream")
		v.Assert(!seen[id], "two opened streams have the same id")
		seen[id] = true
		n := 0
		for _, sm := range acc[o.to] {
			if sm.StreamID() == id {
				o.far = sm
				n++
			}
		}
		v.Assert(n == 1, "opened stream not accepted exactly once")
		if n == 0 {
			return
		}
		for _, sm := range []geminio.Stream{o.near, o.far} {
			v.Assert(v.Eq(sm.Meta(), o.meta), "stream reports other metadata than its opener gave")
			v.Assert(v.EqS(sm.Peer(), o.peer), "stream reports another peer than its opener gave")
			v.Assert(sm.ClientID() == o.from.ClientID() && sm.ClientID() == o.to.ClientID(), "stream reports another client")
		}
	}
}

// talk checks that the two streams reach each other.
func talk(near, far geminio.Stream, x byte) {
	for i := 0; i < 2; i++ {
		near, far = far, near
		k, err := near.Write([]byte{x, byte(i)})
		v.Assert(k == 2 && err == nil, "write failed or was short on an open stream")
		buf := make([]byte, 4)
		within(time.Minute, "read did not return although bytes were written", func() { k, err = far.Read(buf) })
		v.Assert(err == nil && k == 2 && buf[0] == x && buf[1] == byte(i), "bytes read altered, lost or out of order")
	}
}

// timely checks that near's limits end what waits, when they should.
func timely(near, far geminio.Stream) {
	far.Register(bg, "slowly", func(ctx context.Context, req geminio.Request, rsp geminio.Response) { time.Sleep(3 * time.Second) })
	from := time.Now()
	q, m := near.NewRequest(nil), near.NewMessage([]byte("m"))
	q.SetTimeout(time.Second)
	m.SetTimeout(time.Second)
	var ds []<-chan struct{}
	ds = append(ds, async(func() {
		_, err := near.Call(bg, "slowly", q)
		v.Assert(isTimeout(err) && time.Since(from) == time.Second, "call ended other than at its timeout")
	}), async(func() {
		err := near.Publish(bg, m)
		v.Assert(isTimeout(err) && time.Since(from) == time.Second, "publish ended other than at its timeout")
	}), async(func() {
		near.SetReadDeadline(from.Add(time.Second))
		_, err := near.Read(make([]byte, 1))
		v.Assert(isTimeout(err) && time.Since(from) == time.Second, "read ended other than at its deadline")
		near.SetReadDeadline(time.Time{})
	}))
	for _, d := range ds {
		wait(time.Minute, "operation outlasts its limit", d)
	}
	time.Sleep(5 * time.Second)
}

// H_Open: streams opened from both sides at once, with any metadata and peer.
func H_Open() {
	e := joined()
	nc := v.Choice("client's", 3)
	ns := v.Choice("server's", 3)
	v.Assume(nc+ns > 0)
	acc := map[geminio.End][]geminio.Stream{}
	var ops []*opening
	for i := 0; i < nc+ns; i++ {
		o := &opening{from: e.c, to: e.s}
		if i >= nc {
			o.from, o.to = e.s, e.c
		}
		o.meta = v.Bytes("meta", v.Choice("metalen", 3))
		o.peer = v.Text("peer", v.Choice("peerlen", 2))
		ops = append(ops, o)
	}
	// all are accepted meanwhile or later
	later := v.Choice("later", 2) == 1
	accept := func(to geminio.End, n int) <-chan struct{} {
		return async(func() {
			for i := 0; i < n; i++ {
				sm, err := to.AcceptStream()
				v.Assert(err == nil, "accept failed on an open end")
				if err != nil {
					return
				}
				acc[to] = append(acc[to], sm)
			}
		})
	}
	var a1, a2 <-chan struct{}
	if !later {
		a1, a2 = accept(e.s, nc), accept(e.c, ns)
	}
	var ds []<-chan struct{}
	for i, o := range ops {
		i, o := i, o
		ds = append(ds, async(func() {
			oo := options.OpenStream()
			oo.SetMeta(o.meta)
			oo.SetPeer(o.peer)
			sm, err := o.from.OpenStream(oo)
			v.Assert(err == nil, "stream not opened")
			if err == nil {
				o.near = sm
				sm.Write([]byte{byte(i)})
			}
		}))
	}
	for _, d := range ds {
		wait(time.Minute, "opening a stream did not return", d)
	}
	for _, o := range ops {
		v.Assume(o.near != nil)
	}
	if later {
		time.Sleep(time.Second)
		a1, a2 = accept(e.s, nc), accept(e.c, ns)
	}
	wait(time.Minute, "opened stream not accepted", a1)
	wait(time.Minute, "opened stream not accepted", a2)
	matched(ops, acc)
	v.Assert(len(acc[e.s]) == nc && len(acc[e.c]) == ns, "stream accepted that nobody opened")
	lc, ls := listed(e.c), listed(e.s)
	v.Assert(len(lc) == len(ops) && len(ls) == len(ops), "streams listed that are not open, or open ones not listed")
	for i, o := range ops {
		id := o.near.StreamID()
		v.Assert(lc[id] && ls[id], "open stream not listed")
		buf := make([]byte, 4)
		var k int
		var err error
		within(time.Minute, "read did not return although bytes were written", func() { k, err = o.far.Read(buf) })
		v.Assert(k == 1 && err == nil && buf[0] == byte(i), "stream got other bytes than its peer wrote")
		talk(o.near, o.far, byte(10+i))
	}
	e.quit()
	within(time.Second, "accept on a closed end did not return", func() {
		_, err := e.s.AcceptStream()
		v.Assert(err != nil, "stream accepted that nobody opened")
		_, err = e.c.AcceptStream()
		v.Assert(err != nil, "stream accepted that nobody opened")
	})
	v.Reach("opened")
}

// H_OpenRace: streams opened from both sides at once, under every schedule,
// used and closed at once.
func H_OpenRace() {
	e := joined()
	x := v.Bytes("x", 1)
	a, b := e.sides(v.Choice("side", 2))
	two := v.Choice("both", 2) == 1
	ops := []*opening{{from: a, to: b, meta: x, peer: "p"}, {from: a, to: b, meta: []byte("m"), peer: ""}}
	if two {
		ops[1].from, ops[1].to = b, a
	}
	how := v.Choice("how", 3)
	acc := map[geminio.End][]geminio.Stream{}
	v.Window(true)
	for i, o := range ops {
		i, o := i, o
		ops[i] = o
		async(func() {
			sm, err := o.to.AcceptStream()
			v.Assert(err == nil, "accept failed on an open end")
			if err == nil {
				acc[o.to] = append(acc[o.to], sm)
			}
		})
	}
	var ds []<-chan struct{}
	for i, o := range ops {
		i, o := i, o
		ds = append(ds, async(func() {
			oo := options.OpenStream()
			oo.SetMeta(o.meta)
			oo.SetPeer(o.peer)
			sm, err := o.from.OpenStream(oo)
			v.Assert(err == nil, "stream not opened")
			if err != nil {
				return
			}
			o.near = sm
			if how > 0 {
				sm.Write([]byte{x[0], byte(i)})
			}
			if how > 1 {
				sm.Close()
			}
		}))
	}
	for _, d := range ds {
		wait(time.Minute, "opening a stream did not return", d)
	}
	time.Sleep(time.Second)
	v.Window(false)
	v.Assume(ops[0].near != nil && ops[1].near != nil)
	matched(ops, acc)
	v.Assert(len(acc[a])+len(acc[b]) == 2, "stream accepted that nobody opened")
	lc, ls := listed(e.c), listed(e.s)
	for i, o := range ops {
		id := o.near.StreamID()
		if o.far == nil {
			return
		}
		buf := make([]byte, 4)
		if how > 0 {
			var k int
			var err error
			within(time.Minute, "read did not return although bytes were written", func() { k, err = o.far.Read(buf) })
			v.Assert(k == 2 && err == nil && buf[0] == x[0] && buf[1] == byte(i), "stream got other bytes than its peer wrote")
		}
		if how > 1 {
			_, err := o.far.Read(buf)
			v.Assert(err == io.EOF, "end of the stream not reported after its last byte")
			v.Assert(!lc[id] && !ls[id], "closed stream still listed")
		} else {
			v.Assert(lc[id] && ls[id], "open stream not listed")
			talk(o.near, o.far, byte(10+i))
		}
	}
	e.quit()
	counted(e, 2)
	v.Reach("opened")
}

// counted checks what the delegates were told of n opened streams and of the
// connection, everything having ended.
func counted(e *ends, n int) {
	for _, r := range []*rec{e.cd, e.sd} {
		v.Assert(r.count("online") == 1 && r.count("offline") == 1, "delegate not told of the connection exactly once each way")
		v.Assert(r.first("online") < r.first("offline"), "delegate told of offline before online")
		on, off := map[uint64]int{}, map[uint64]int{}
		for i, ev := range r.log {
			if ev.what == "dlgonline" || ev.what == "dlgoffline" || ev.what == "online" || ev.what == "offline" {
				v.Assert(ev.client == e.id(), "delegate told of another client")
			}
			switch ev.what {
			case "dlgonline":
				on[ev.dlg]++
				v.Assert(i > r.first("online"), "delegate told of a stream before its connection")
			case "dlgoffline":
				off[ev.dlg]++
				v.Assert(on[ev.dlg] == 1, "delegate told of a stream's offline without online before")
			}
		}
		if n >= 0 {
			v.Assert(len(on) == n, "delegate not told of exactly the opened streams")
		}
		for id, k := range on {
			v.Assert(k == 1, "delegate told of a stream's online more than once")
			v.Assert(off[id] == 1, "delegate not told of a stream's offline exactly once")
		}
		v.Assert(len(off) == len(on), "delegate told of a stream's offline without online before")
	}
}

func (e *ends) id() uint64 { return e.c.ClientID() }

// H_OpenFunc: a server that takes streams by function.
func H_OpenFunc() {
	co, so := client.NewEndOptions(), server.NewEndOptions()
	n := 1 + v.Choice("streams", 2)
	var mu sync.Mutex
	accepted, closed := map[uint64]int{}, map[uint64]int{}
	var metas [][]byte
	slow := v.Choice("slow", 2) == 1
	register := v.Choice("register", 2) == 1
	x := v.Bytes("x", 1)
	end := v.Choice("end", 3)
	ends := end == 0
	so.SetAcceptStreamFunc(func(sm geminio.Stream) {
		if register {
			err := sm.Register(bg, "m", func(ctx context.Context, req geminio.Request, rsp geminio.Response) { rsp.SetData(req.Data()) })
			v.Assert(err == nil || ends, "register failed")
		}
		if slow {
			time.Sleep(100 * time.Millisecond)
		}
		mu.Lock()
		accepted[sm.StreamID()]++
		metas = append(metas, sm.Meta())
		v.Assert(closed[sm.StreamID()] == 0, "stream reported closed before it was accepted")
		mu.Unlock()
	})
	so.SetClosedStreamFunc(func(sm geminio.Stream) {
		mu.Lock()
		closed[sm.StreamID()]++
		v.Assert(accepted[sm.StreamID()] == 1, "stream reported closed before it was accepted")
		mu.Unlock()
	})
	v.Window(true)
	e := meet(newWire(), co, so)
	v.Assert(e.cErr == nil && e.sErr == nil, "ends not connected")
	if e.cErr != nil || e.sErr != nil {
		return
	}
	var sms []geminio.Stream
	for i := 0; i < n; i++ {
		o := options.OpenStream()
		o.SetMeta(x)
		var sm geminio.Stream
		var err error
		within(time.Minute, "opening a stream did not return", func() { sm, err = e.c.OpenStream(o) })
		v.Assert(err == nil, "stream not opened")
		if err != nil {
			return
		}
		sms = append(sms, sm)
	}
	if end == 0 {
		// at once
		for _, sm := range sms {
			sm.Close()
		}
	}
	time.Sleep(time.Second)
	if end > 0 {
		mu.Lock()
		v.Assert(len(accepted) == n && len(closed) == 0, "function not called for each opened stream")
		mu.Unlock()
		if register {
			for _, sm := range sms {
				rsp, err := sm.Call(bg, "m", sm.NewRequest(x))
				v.Assert(err == nil && v.Eq(rsp.Data(), x), "call of a method registered when the stream was accepted failed")
			}
		}
		if end == 1 {
			for _, sm := range sms {
				sm.Close()
			}
			time.Sleep(time.Second)
		}
	}
	e.quit()
	v.Window(false)
	mu.Lock()
	defer mu.Unlock()
	v.Assert(len(accepted) == n, "function not called for each opened stream")
	for _, sm := range sms {
		v.Assert(accepted[sm.StreamID()] == 1, "function not called exactly once for an opened stream")
		v.Assert(closed[sm.StreamID()] == 1, "function not called exactly once for a closed stream")
	}
	for _, m := range metas {
		v.Assert(v.Eq(m, x), "stream reports other metadata than its opener gave")
	}
	v.Reach("functions")
}

// H_OpenGone: opening on an end that is closed or lost.
func H_OpenGone() {
	e := joined()
	a, b := e.sides(v.Choice("side", 2))
	if v.Choice("had", 2) == 1 {
		near, far := open(a, b)
		talk(near, far, 3)
	}
	how := v.Choice("how", 4)
	switch how {
	case 0:
		within(time.Minute, "closing an end did not return", func() { a.Close() })
	case 1:
		within(time.Minute, "closing an end did not return", func() { b.Close() })
	case 2:
		e.w.sever()
	case 3:
		e.w.a.Close()
	}
	time.Sleep(time.Duration(v.Choice("later", 2)) * time.Second)
	if how != 0 {
		time.Sleep(time.Millisecond)
	}
	within(time.Second, "opening a stream on a closed end did not return", func() {
		_, err := a.OpenStream()
		v.Assert(err != nil, "stream opened on a closed or lost connection")
	})
	within(time.Second, "accept on a closed end did not return", func() {
		_, err := b.AcceptStream()
		v.Assert(err != nil, "stream accepted that was not opened")
	})
	e.quit()
	v.Reach("refused")
}

// H_OpenMany: as many streams as may await acceptance, and more in turns.
func H_OpenMany() {
	e := joined()
	a, b := e.sides(v.Choice("side", 2))
	n := 32
	ids := map[uint64]bool{}
	rounds := 2
	for r := 0; r < rounds; r++ {
		var near []geminio.Stream
		for i := 0; i < n; i++ {
			var sm geminio.Stream
			var err error
			within(time.Minute, "opening a stream did not return", func() { sm, err = a.OpenStream() })
			v.Assert(err == nil, "stream not opened")
			if err != nil {
				return
			}
			v.Assert(!ids[sm.StreamID()] && sm.StreamID() != 1, "two opened streams have the same id")
			ids[sm.StreamID()] = true
			near = append(near, sm)
		}
		for i := 0; i < n; i++ {
			var sm geminio.Stream
			var err error
			within(time.Minute, "opened stream not accepted", func() { sm, err = b.AcceptStream() })
			v.Assert(err == nil, "accept failed on an open end")
			if err != nil {
				return
			}
			v.Assert(sm.StreamID() == near[i].StreamID(), "opened stream not accepted exactly once")
			if i%8 == 0 {
				talk(near[i], sm, byte(i))
			}
		}
	}
	e.quit()
	v.Reach("many")
}

// using is traffic in flight on a stream, checked later.
type using struct {
	near, far geminio.Stream
	x         byte
	ds        []<-chan struct{}
	rerr      error
	answer    chan struct{}
}

// use starts a call, a publish and a write from near to far, and a read with a
// deadline at near that gets nothing.
func use(near, far geminio.Stream, x byte) *using {
	u := &using{near: near, far: far, x: x, answer: make(chan struct{})}
	far.Register(bg, "m", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		v.Assert(len(req.Data()) == 1 && req.Data()[0] == x, "request seen on another stream")
		<-u.answer
		rsp.SetData(req.Data())
	})
	return u
}

func (u *using) start() {
	near, far, x := u.near, u.far, u.x
	u.ds = append(u.ds, async(func() {
		rsp, err := near.Call(bg, "m", near.NewRequest([]byte{x}))
		v.Assert(err == nil && len(rsp.Data()) == 1 && rsp.Data()[0] == x, "call on an open stream failed because of another one")
	}))
	u.ds = append(u.ds, async(func() {
		err := near.Publish(bg, near.NewMessage([]byte{x}))
		v.Assert(err == nil, "publish on an open stream failed because of another one")
	}))
	u.ds = append(u.ds, async(func() {
		k, err := near.Write([]byte{x})
		v.Assert(k == 1 && err == nil, "write on an open stream failed because of another one")
	}))
	u.ds = append(u.ds, async(func() {
		start := time.Now()
		near.SetReadDeadline(start.Add(500 * time.Millisecond))
		_, err := near.Read(make([]byte, 1))
		took := time.Since(start)
		v.Assert(isDeadline(err) && took >= 500*time.Millisecond && took <= 540*time.Millisecond, "read deadline on an open stream disturbed by another one")
		near.SetReadDeadline(time.Time{})
	}))
	u.ds = append(u.ds, async(func() {
		start := time.Now()
		req := near.NewRequest([]byte{x})
		req.SetTimeout(300 * time.Millisecond)
		_, err := near.Call(bg, "m", req)
		took := time.Since(start)
		v.Assert(isTimeout(err) && took >= 300*time.Millisecond && took <= 340*time.Millisecond, "call timeout on an open stream disturbed by another one")
	}))
	u.ds = append(u.ds, async(func() {
		m, err := far.Receive(bg)
		v.Assert(err == nil && len(m.Data()) == 1 && m.Data()[0] == x, "message seen on another stream")
		if err == nil {
			m.Done()
		}
	}))
	u.ds = append(u.ds, async(func() {
		b := make([]byte, 2)
		k, err := far.Read(b)
		v.Assert(k == 1 && err == nil && b[0] == x, "bytes seen on another stream")
	}))
}

func (u *using) end() {
	close(u.answer)
	for _, d := range u.ds {
		wait(time.Minute, "operation on an open stream did not return because of another one", d)
	}
	ctx, cancel := context.WithTimeout(bg, 50*time.Millisecond)
	m, err := u.far.Receive(ctx)
	v.Assert(m == nil && err == context.DeadlineExceeded, "message seen on another stream")
	cancel()
	for _, sm := range []geminio.Stream{u.near, u.far} {
		sm.SetReadDeadline(time.Now().Add(50 * time.Millisecond))
		k, err := sm.Read(make([]byte, 2))
		v.Assert(k == 0 && isDeadline(err), "bytes seen on another stream")
		sm.SetReadDeadline(time.Time{})
	}
}

// isolated: one stream in use while another one is opened, used, left unread
// or closed.
func isolated(wide bool) {
	var e *ends
	told := 0
	if v.Choice("function", 2) == 0 {
		e = joined()
	} else {
		so := server.NewEndOptions()
		so.SetClosedStreamFunc(func(geminio.Stream) { told++ })
		e = meet(newWire(), nil, so)
		v.Assert(e.cErr == nil && e.sErr == nil, "ends not connected")
		v.Assume(e.cErr == nil && e.sErr == nil)
	}
	a, b := e.sides(v.Choice("side", 2))
	kind, other := v.Choice("stream", 3), 1
	if wide {
		other = v.Choice("other", 2) + 1
	}
	near, far := streams(a, b, kind)
	x := byte(1)
	what := v.Choice("what", 6)
	var n2, f2 geminio.Stream
	if what > 0 {
		n2, f2 = streams(a, b, other)
	}
	u := use(near, far, x)
	v.Window(!wide)
	u.start()
	if wide {
		time.Sleep(time.Duration(v.Choice("when", 2)) * 100 * time.Millisecond)
	}
	y := byte(2)
	switch what {
	case 0: // opened and used meanwhile
		n2, f2 = streams(a, b, other)
		talk(n2, f2, y)
	case 1: // closed by the one
		n2.Close()
	case 2: // and by the other
		f2.Close()
	case 3: // in use both at once
		u2 := use(n2, f2, y)
		u2.start()
		time.Sleep(time.Second)
		u2.end()
	case 4: // left unread
		for i := 0; i < 30; i++ {
			n2.Write([]byte{y})
			o := options.NewMessage()
			o.SetCnss(options.CnssAtMostOnce)
			n2.Publish(bg, n2.NewMessage([]byte{y}, o))
		}
	case 5: // closed with operations pending
		go n2.Read(make([]byte, 1))
		go f2.Receive(bg)
		go n2.Call(bg, "m", n2.NewRequest([]byte{y}))
		go f2.Publish(bg, f2.NewMessage([]byte{y}))
		if v.Choice("closer", 2) == 0 {
			n2.Close()
		} else {
			f2.Close()
		}
	}
	time.Sleep(time.Second)
	u.end()
	v.Window(false)
	talk(near, far, 9)
	timely(near, far)
	timely(far, near)
	e.quit()
	v.Reach("isolated")
}

// H_Isolated: streams of every kind beside each other.
func H_Isolated() { isolated(true) }

// H_IsolatedRace: the same under every schedule.
func H_IsolatedRace() { isolated(false) }

// H_Sent: what is sent on one of several streams, of any sort and content, is
// seen there only.
func H_Sent() {
	e := joined()
	a, b := e.sides(v.Choice("side", 2))
	var near, far []geminio.Stream
	for i := 0; i < 3; i++ {
		n, f := streams(a, b, i)
		near, far = append(near, n), append(far, f)
	}
	x := v.Bytes("x", 1)
	k := v.Choice("stream", 3)
	ran := make([]int, 3)
	for i := range far {
		i := i
		far[i].Register(bg, "m", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
			ran[i]++
			rsp.SetData(append([]byte{byte(i)}, req.Data()...))
		})
		near[i].Register(bg, "m", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
			v.Assert(false, "request seen at its own sender")
		})
	}
	what := v.Choice("what", 3)
	switch what {
	case 0:
		rsp, err := near[k].Call(bg, "m", near[k].NewRequest(x))
		v.Assert(err == nil, "call failed on an open stream")
		if err == nil {
			v.Assert(v.Eq(rsp.Data(), append([]byte{byte(k)}, x...)), "request seen on another stream")
		}
		for i, n := range ran {
			v.Assert(n == 1 && i == k || n == 0 && i != k, "request seen on another stream")
		}
	case 1:
		d := async(func() { near[k].Publish(bg, near[k].NewMessage(x)) })
		m := take(far[k])
		v.Assert(v.Eq(m.Data(), x), "message altered, lost or out of order")
		m.Done()
		wait(time.Minute, "publish did not return", d)
	case 2:
		n, err := near[k].Write(x)
		v.Assert(n == 1 && err == nil, "write failed or was short on an open stream")
		buf := make([]byte, 2)
		within(time.Minute, "read did not return although bytes were written", func() { n, err = far[k].Read(buf) })
		v.Assert(n == 1 && err == nil && v.Eq(buf[:1], x), "bytes read altered, lost or out of order")
	}
	for _, sm := range append(append([]geminio.Stream{}, near...), far...) {
		ctx, cancel := context.WithTimeout(bg, 50*time.Millisecond)
		m, err := sm.Receive(ctx)
		v.Assert(m == nil && err == context.DeadlineExceeded, "message seen on another stream")
		cancel()
		sm.SetReadDeadline(time.Now().Add(50 * time.Millisecond))
		n, err := sm.Read(make([]byte, 2))
		v.Assert(n == 0 && isDeadline(err), "bytes seen on another stream")
	}
	// methods are a stream's own
	far[k].Register(bg, "own", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {})
	for i := range near {
		_, err := near[i].Call(bg, "own", near[i].NewRequest(x))
		v.Assert((err == nil) == (i == k), "method registered on one stream callable on another")
	}
	e.quit()
	v.Reach("sent")
}
