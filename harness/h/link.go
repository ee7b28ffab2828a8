package h

import (
	"time"

	"github.com/singchia/geminio/conn"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"github.com/singchia/geminio/zzverif/v"
)

// sent describes an upper-layer packet handed to a connection.
type sent struct {
	id   uint64
	data []byte
	kind int
}

// make builds a packet of an upper layer; symbolic content.
func (s *sent) make(pf packet.PacketFactory) packet.Packet {
	switch s.kind {
	case 1:
		p := pf.NewMessagePacket([]byte("k"), s.data)
		s.id = p.ID()
		return p
	default:
		p := pf.NewStreamPacket(s.data)
		s.id = p.ID()
		return p
	}
}

func (s *sent) is(p packet.Packet) bool {
	if p.ID() != s.id {
		return false
	}
	switch x := p.(type) {
	case *packet.MessagePacket:
		return s.kind == 1 && v.Eq(x.Data.Value, s.data) && v.EqS(string(x.Data.Key), "k")
	case *packet.StreamPacket:
		return s.kind == 0 && v.Eq(x.Data, s.data)
	}
	return false
}

func payload(name string, n, kind int) []*sent {
	var out []*sent
	for i := 0; i < n; i++ {
		out = append(out, &sent{data: v.Bytes(name, 2), kind: (kind + i) % 2})
	}
	return out
}

func writeAll(c conn.Conn, pf packet.PacketFactory, ps []*sent, label string) {
	for _, p := range ps {
		if err := c.Write(p.make(pf)); err != nil {
			v.Assert(false, label)
			return
		}
	}
}

// readAll reads until the connection ends.
func readAll(c conn.Conn, out *[]packet.Packet) {
	for {
		p, err := c.Read()
		if err != nil {
			return
		}
		*out = append(*out, p)
	}
}

func delivered(got []packet.Packet, want []*sent, where string) {
	v.Assert(len(got) >= len(want), where+": packet lost")
	v.Assert(len(got) <= len(want), where+": packet delivered that was not written")
	for i := range want {
		if i < len(got) {
			v.Assert(want[i].is(got[i]), where+": packet altered or out of order")
		}
	}
}

// prefix checks that what came is what was written, in order, as far as it came.
func prefix(got []packet.Packet, want []*sent, where string) {
	v.Assert(len(got) <= len(want), where+": packet delivered that was not written")
	for i := range got {
		if i < len(want) {
			v.Assert(want[i].is(got[i]), where+": packet altered or out of order")
		}
	}
}

func pfC() packet.PacketFactory { return packet.NewPacketFactory(id.NewIDCounter(id.Odd)) }
func pfS() packet.PacketFactory { return packet.NewPacketFactory(id.NewIDCounter(id.Even)) }

func sizes(n int) ([]conn.ClientConnOption, []conn.ServerConnOption) {
	if n == 0 {
		return nil, nil
	}
	return []conn.ClientConnOption{conn.OptionClientConnBufferSize(n, n)},
		[]conn.ServerConnOption{conn.OptionServerConnBufferSize(n, n)}
}

// H_ConnTraffic: both sides write from the moment their constructor returns,
// at their own pace, and read everything the other wrote.
func H_ConnTraffic() {
	w := newWire()
	w.a.frag, w.b.frag = v.Choice("frag", 2), v.Choice("frag", 2)
	nc, ns := 1+v.Choice("nc", 3), 1+v.Choice("ns", 3)
	kind := v.Choice("kind", 2)
	fromC, fromS := payload("c", nc, kind), payload("s", ns, kind)
	co, so := sizes(v.Choice("buffers", 2))
	var gotC, gotS []packet.Packet
	c := async(func() {
		cl, err := conn.NewClientConn(w.a, co...)
		if err != nil {
			v.Assert(false, "connection not established")
			return
		}
		d := async(func() { writeAll(cl, pfC(), fromC, "write failed") })
		for len(gotC) < ns {
			p, err := cl.Read()
			if err != nil {
				v.Assert(false, "read failed on an open connection")
				break
			}
			gotC = append(gotC, p)
		}
		<-d
	})
	s := async(func() {
		sv, err := conn.NewServerConn(w.b, so...)
		if err != nil {
			v.Assert(false, "connection not established")
			return
		}
		d := async(func() { writeAll(sv, pfS(), fromS, "write failed") })
		for len(gotS) < nc {
			p, err := sv.Read()
			if err != nil {
				v.Assert(false, "read failed on an open connection")
				break
			}
			gotS = append(gotS, p)
		}
		<-d
	})
	v.Window(true)
	okC := wait(time.Minute, "packets to the client did not arrive", c)
	okS := wait(time.Minute, "packets to the server did not arrive", s)
	v.Window(false)
	if !okC || !okS {
		return
	}
	delivered(gotC, fromS, "to the client")
	delivered(gotS, fromC, "to the server")
	v.Reach("traffic")
}

// H_ConnEcho: one side answers every packet as it reads it; more is under way
// than all buffers hold.
func H_ConnEcho() {
	w := newWire()
	co, so := sizes(v.Choice("buffers", 2))
	var cl, sv conn.Conn
	c := async(func() {
		if x, err := conn.NewClientConn(w.a, co...); err == nil {
			cl = x
		}
	})
	if x, err := conn.NewServerConn(w.b, so...); err == nil {
		sv = x
	}
	wait(time.Minute, "connection not established", c)
	if cl == nil || sv == nil {
		v.Assert(false, "connection not established")
		return
	}
	near, far, pf := cl, sv, pfC()
	if v.Choice("from", 2) == 1 {
		near, far, pf = sv, cl, pfS()
	}
	x := v.U8("x")
	n := 250
	go func() {
		for {
			p, err := far.Read()
			if err != nil {
				return
			}
			far.Write(p)
		}
	}()
	d := async(func() {
		for i := 0; i < n; i++ {
			v.Assert(near.Write(pf.NewStreamPacketWithSessionID(uint64(i)+2, []byte{x, byte(i)})) == nil, "write failed")
		}
	})
	if v.Choice("late", 2) == 1 {
		time.Sleep(time.Second)
	}
	r := async(func() {
		for i := 0; i < n; i++ {
			p, err := near.Read()
			if err != nil {
				v.Assert(false, "read failed on an open connection")
				return
			}
			s, ok := p.(*packet.StreamPacket)
			v.Assert(ok && s.SessionID() == uint64(i)+2 && len(s.Data) == 2 && s.Data[0] == x && s.Data[1] == byte(i), "packet altered, lost or out of order")
		}
	})
	if !wait(time.Minute, "packets sent back did not arrive", r) {
		return
	}
	wait(time.Minute, "write did not return", d)
	v.Reach("echoed")
}

// H_ConnDrain: everything written before the writer closes is read by the
// other side before it is told of the end.
func H_ConnDrain() {
	w := newWire()
	n := 1 + v.Choice("n", 3)
	out := payload("p", n, v.Choice("kind", 2))
	co, so := sizes(v.Choice("buffers", 2))
	cd, sd := &rec{}, &rec{}
	fromClient := v.Choice("fromClient", 2) == 1
	p := dial(w, cd, sd, co, so)
	if p.cErr != nil || p.sErr != nil {
		v.Assert(false, "connection not established")
		return
	}
	var from, to conn.Conn = p.sv, p.cl
	pf := pfS()
	if fromClient {
		from, to = p.cl, p.sv
		pf = pfC()
	}
	if v.Choice("heartbeat", 2) == 1 {
		// a heartbeat exchange is in flight when the connection closes
		time.Sleep(20*time.Second - time.Duration(v.Choice("early", 2)))
	}
	var got, none []packet.Packet
	v.Window(true)
	r := async(func() { readAll(to, &got) })
	rr := async(func() { readAll(from, &none) })
	writeAll(from, pf, out, "write failed on an open connection")
	from.Close()
	ok := wait(time.Minute, "reader not told of the close", r)
	ok = wait(time.Minute, "closer's own reader not told of the close", rr) && ok
	v.Window(false)
	if !ok {
		return
	}
	delivered(got, out, "before the close")
	v.Assert(len(none) == 0, "packet delivered that was not written")
	gone("goroutines left after a close")
	v.Reach("drain")
}

// ended checks both sides of a connection that is over.
func ended(p *pair, label string) {
	if p.cl != nil {
		v.Assert(p.cl.Write(pfC().NewStreamPacket(nil)) != nil, label+": client can still write")
		within(time.Minute, label+": client's read blocks", func() {
			_, err := p.cl.Read()
			v.Assert(err != nil, label+": client reads a packet after the end")
		})
		within(time.Minute, label+": client's second read blocks", func() {
			_, err := p.cl.Read()
			v.Assert(err != nil, label+": client reads a packet after the end")
		})
		within(time.Minute, label+": closing the client again blocks", func() { p.cl.Close() })
	}
	if p.sv != nil {
		v.Assert(p.sv.Write(pfS().NewStreamPacket(nil)) != nil, label+": server can still write")
		within(time.Minute, label+": server's read blocks", func() {
			_, err := p.sv.Read()
			v.Assert(err != nil, label+": server reads a packet after the end")
		})
		within(time.Minute, label+": server's second read blocks", func() {
			_, err := p.sv.Read()
			v.Assert(err != nil, label+": server reads a packet after the end")
		})
		within(time.Minute, label+": closing the server again blocks", func() { p.sv.Close() })
	}
	v.Assert(p.w.a.isClosed(), label+": client's transport left open")
	v.Assert(p.w.b.isClosed(), label+": server's transport left open")
	for i, r := range []*rec{p.cd, p.sd} {
		if r == nil {
			continue
		}
		side := []string{"client", "server"}[i]
		v.Assert(r.count("online") <= 1, label+": "+side+" told online more than once")
		v.Assert(r.count("offline") <= 1, label+": "+side+" told offline more than once")
		v.Assert(r.count("offline") == r.count("online"), label+": "+side+"'s online and offline notifications do not match")
		if r.count("offline") > 0 && r.count("online") > 0 {
			v.Assert(r.first("online") < r.first("offline"), label+": "+side+" told offline before online")
			a, b := r.log[r.first("online")], r.log[r.first("offline")]
			v.Assert(v.And(a.client == b.client, v.Eq(a.meta, b.meta)), label+": "+side+"'s notifications name different connections")
		}
	}
	gone(label + ": goroutines left")
}

// H_ConnClose: closes by either or both sides, with traffic in flight.
func H_ConnClose() {
	w := newWire()
	co, so := sizes(v.Choice("buffers", 2))
	cd, sd := &rec{}, &rec{}
	p := dial(w, cd, sd, co, so)
	if p.cErr != nil || p.sErr != nil {
		v.Assert(false, "connection not established")
		return
	}
	who := v.Choice("who", 7)
	traffic := v.Choice("traffic", 3)
	fromC, fromS := payload("c", traffic, 0), payload("s", traffic, 1)
	var gotC, gotS []packet.Packet
	v.Window(true)
	v.WindowMem(true)
	rc := async(func() { readAll(p.cl, &gotC) })
	rs := async(func() { readAll(p.sv, &gotS) })
	write := func(c conn.Conn, pf packet.PacketFactory, ps []*sent) func() {
		return func() {
			for _, x := range ps {
				if c.Write(x.make(pf)) != nil {
					return
				}
			}
		}
	}
	wc := async(write(p.cl, pfC(), fromC))
	ws := async(write(p.sv, pfS(), fromS))
	switch who {
	case 0:
		p.cl.Close()
	case 1:
		p.sv.Close()
	case 2:
		go p.sv.Close()
		p.cl.Close()
	case 3:
		go p.cl.Close()
		p.cl.Close()
	case 4:
		go p.sv.Close()
		p.sv.Close()
		p.cl.Close()
		p.cl.Close()
	case 5: // the transport is lost at the same time
		go w.sever()
		p.cl.Close()
		p.sv.Close()
	case 6:
		go w.sever()
		p.sv.Close()
		p.cl.Close()
	}
	ok := wait(time.Minute, "client's reader not told of the close", rc)
	ok = wait(time.Minute, "server's reader not told of the close", rs) && ok
	ok = wait(time.Minute, "client's write blocks through a close", wc) && ok
	ok = wait(time.Minute, "server's write blocks through a close", ws) && ok
	v.Window(false)
	v.WindowMem(false)
	if !ok {
		return
	}
	prefix(gotC, fromS, "to the client")
	prefix(gotS, fromC, "to the server")
	v.Assert(cd.count("online") == 1 && sd.count("online") == 1, "online notification missing")
	ended(p, "after close")
	v.Reach("closed")
}

// H_ConnCloseAtOnce: each side closes as soon as its constructor returns.
func H_ConnCloseAtOnce() {
	w := newWire()
	cd, sd := &rec{}, &rec{}
	p := &pair{w: w, cd: cd, sd: sd}
	who := v.Choice("who", 3)
	v.Window(true)
	c := async(func() {
		p.cl, p.cErr = conn.NewClientConn(w.a, conn.OptionClientConnDelegate(cd))
		if p.cErr == nil && who != 1 {
			p.cl.Close()
		}
	})
	s := async(func() {
		p.sv, p.sErr = conn.NewServerConn(w.b, conn.OptionServerConnDelegate(sd))
		if p.sErr == nil && who != 0 {
			p.sv.Close()
		}
	})
	ok := wait(time.Minute, "connect did not return", c)
	ok = wait(time.Minute, "server's wait for the connect did not return", s) && ok
	v.Window(false)
	if !ok {
		return
	}
	v.Assert(p.cErr == nil && p.sErr == nil, "connection not established")
	time.Sleep(time.Minute)
	ended(p, "after close")
	v.Reach("closed")
}

// H_ConnCut: the transport fails after any number of bytes in one direction,
// through handshake, traffic and close.
func H_ConnCut() {
	w := newWire()
	cd, sd := &rec{}, &rec{}
	meta := []byte("m")
	p := &pair{w: w, cd: cd, sd: sd}
	co, so := sizes(v.Choice("buffers", 2))
	co = append(co, conn.OptionClientConnDelegate(cd), conn.OptionClientConnMeta(meta))
	so = append(so, conn.OptionServerConnDelegate(sd))
	closer := v.Choice("closer", 2)
	fromC, fromS := payload("c", 2, 0), payload("s", 2, 1)
	var gotC, gotS []packet.Packet
	w.quiet = v.Choice("quiet", 2) == 1
	if v.Choice("dir", 2) == 0 {
		w.a.out.cut = v.Choice("cut", 140)
	} else {
		w.b.out.cut = v.Choice("cut", 140)
	}
	v.Window(true)
	run := func(c conn.Conn, pf packet.PacketFactory, out []*sent, got *[]packet.Packet, closes bool) {
		r := async(func() { readAll(c, got) })
		for _, x := range out {
			if c.Write(x.make(pf)) != nil {
				break
			}
		}
		if closes {
			c.Close()
		}
		wait(time.Minute, "reader not told of the lost transport", r)
	}
	c := async(func() {
		p.cl, p.cErr = conn.NewClientConn(w.a, co...)
		if p.cErr == nil {
			run(p.cl, pfC(), fromC, &gotC, closer == 0)
		}
	})
	s := async(func() {
		p.sv, p.sErr = conn.NewServerConn(w.b, so...)
		if p.sErr == nil {
			run(p.sv, pfS(), fromS, &gotS, closer == 1)
		}
	})
	okC := wait(2*time.Minute, "client hangs on a lost transport", c)
	okS := wait(2*time.Minute, "server hangs on a lost transport", s)
	v.Window(false)
	if !okC || !okS {
		return
	}
	prefix(gotC, fromS, "to the client")
	prefix(gotS, fromC, "to the server")
	if p.cErr != nil {
		v.Reach("connect failed")
	}
	if w.isBroken() {
		v.Reach("cut")
	}
	time.Sleep(time.Minute)
	ended(p, "after the loss")
}

// H_ConnStall: writes stop getting through and then the transport fails, with
// more packets queued than any buffer holds.
func H_ConnStall() {
	w := newWire()
	cd, sd := &rec{}, &rec{}
	co, so := sizes(1)
	p := dial(w, cd, sd, co, so)
	if p.cErr != nil || p.sErr != nil {
		v.Assert(false, "connection not established")
		return
	}
	var from, to conn.Conn = p.cl, p.sv
	pf := pfC()
	d := w.a.out
	if v.Choice("from", 2) == 1 {
		from, to, pf, d = p.sv, p.cl, pfS(), w.b.out
	}
	stalled := v.Choice("stalled", 2) == 1
	d.mu.Lock()
	if stalled {
		d.stalled = true
	} else {
		d.cut = v.Choice("cut", 30)
	}
	d.mu.Unlock()
	n := 40
	wr := async(func() {
		for i := 0; i < n; i++ {
			if from.Write(pf.NewStreamPacket([]byte{byte(i)})) != nil {
				return
			}
		}
	})
	var got, none []packet.Packet
	rf := async(func() { readAll(from, &none) })
	v.Window(true)
	rt := async(func() { readAll(to, &got) })
	if stalled {
		time.Sleep(time.Second)
		w.sever()
	}
	ok := wait(time.Minute, "write hangs on a lost transport", wr)
	ok = wait(time.Minute, "writer's reader not told of the lost transport", rf) && ok
	ok = wait(time.Minute, "reader not told of the lost transport", rt) && ok
	v.Window(false)
	if !ok {
		return
	}
	v.Reach("stall")
	ended(p, "after the loss")
}

// H_ConnMute: a connection closes towards a peer that takes or answers nothing.
func H_ConnMute() {
	cd, sd := &rec{}, &rec{}
	var co []conn.ClientConnOption
	var so []conn.ServerConnOption
	if v.Choice("small", 2) == 1 {
		co, so = sizes(1)
	}
	p := dial(newWire(), cd, sd, co, so)
	v.Assert(p.cErr == nil && p.sErr == nil, "connection not established")
	v.Assume(p.cErr == nil && p.sErr == nil)
	side := v.Choice("side", 2)
	var c conn.Conn = p.cl
	out, pf := p.w.a.out, pfC()
	if side == 1 {
		c, out, pf = p.sv, p.w.b.out, pfS()
	}
	how := v.Choice("how", 3)
	n := v.Choice("queued", 2) * 3
	v.Window(true)
	out.mu.Lock()
	out.stalled, out.lost = how == 0, how == 1
	out.mu.Unlock()
	if how == 2 {
		// neither is anything heard from it
		p.w.a.out.mu.Lock()
		p.w.a.out.lost = true
		p.w.a.out.mu.Unlock()
		p.w.b.out.mu.Lock()
		p.w.b.out.lost = true
		p.w.b.out.mu.Unlock()
	}
	var ds []<-chan struct{}
	for i := 0; i < n; i++ {
		ds = append(ds, async(func() { c.Write(pf.NewStreamPacket([]byte("x"))) }))
	}
	ds = append(ds, async(func() { c.Close() }))
	for _, d := range ds {
		wait(2*time.Minute, "write or close of a connection whose peer is mute did not return", d)
	}
	time.Sleep(2 * time.Minute)
	v.Window(false)
	own, d := p.w.a, cd
	if side == 1 {
		own, d = p.w.b, sd
	}
	v.Assert(own.isClosed(), "transport left open although the connection was closed towards a mute peer")
	v.Assert(d.count("offline") == 1, "connection closed towards a mute peer not reported offline")
	v.Assert(c.Write(pf.NewStreamPacket(nil)) != nil, "connection closed towards a mute peer takes a write")
	// the peer itself cannot know
	p.w.sever()
	time.Sleep(time.Second)
	ended(p, "after a close towards a mute peer")
	v.Reach("mute")
}
