package h

import (
	"time"

	"github.com/singchia/geminio/conn"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/zzverif/v"
)

// collector reads packets from a raw transport.
type collector struct {
	pkts []packet.Packet
	at   []time.Time
	err  error
	done <-chan struct{}
}

func collect(e *end) *collector {
	c := &collector{}
	c.done = async(func() {
		for {
			p, err := packet.DecodeFromReader(e)
			if err != nil {
				c.err = err
				return
			}
			c.pkts = append(c.pkts, p)
			c.at = append(c.at, time.Now())
		}
	})
	return c
}

func (c *collector) over() bool {
	select {
	case <-c.done:
		return true
	default:
		return false
	}
}

// H_ServerHeartbeat: a client announces an interval and heartbeats for a while
// with any gaps below twice the interval, then is silent.
func H_ServerHeartbeat() {
	kinds := []packet.Heartbeat{packet.Heartbeat5, packet.Heartbeat20, packet.Heartbeat80, packet.Heartbeat320}
	hb := kinds[v.Choice("interval", len(kinds))]
	h := time.Duration(hb) * time.Second
	w := newWire()
	sd := &rec{chooseID: 7}
	var sv *conn.ServerConn
	var err error
	s := async(func() { sv, err = conn.NewServerConn(w.b, conn.OptionServerConnDelegate(sd)) })
	pf := pfC()
	c := collect(w.a)
	packet.EncodeToWriter(pf.NewConnPacket(0, true, hb, []byte("m")), w.a)
	wait(time.Minute, "server's wait for the connect did not return", s)
	if err != nil {
		v.Assert(false, "connection not established")
		return
	}
	var reads []packet.Packet
	r := async(func() { readAll(sv, &reads) })
	v.Window(true)
	n := v.Choice("beats", 3)
	if v.Thorough() {
		n = v.Choice("more", 4)
	}
	var ids []uint64
	data := 0
	for i := 0; i < n; i++ {
		gap := []time.Duration{time.Second, h, 2*h - 100*time.Millisecond}[v.Choice("gap", 3)]
		time.Sleep(gap)
		v.Assert(sd.count("offline") == 0, "client dropped although it kept to its interval")
		p := pf.NewHeartbeatPacket()
		ids = append(ids, p.ID())
		packet.EncodeToWriter(p, w.a)
		if v.Choice("data", 2) == 1 {
			data++
			packet.EncodeToWriter(pf.NewStreamPacket([]byte{1}), w.a)
		}
	}
	switch v.Choice("silence", 3) {
	case 1:
		// the transport swallows what the server sends from here on
		time.Sleep(time.Second)
		w.b.out.mu.Lock()
		w.b.out.stalled = true
		w.b.out.mu.Unlock()
		time.Sleep(2*h - time.Second - 100*time.Millisecond)
	case 2:
		// packets that are no heartbeats keep coming
		time.Sleep(h)
		data++
		packet.EncodeToWriter(pf.NewStreamPacket([]byte{1}), w.a)
		time.Sleep(h - 100*time.Millisecond)
	default:
		time.Sleep(2*h - 100*time.Millisecond)
	}
	v.Assert(sd.count("offline") == 0, "client dropped before twice its interval")
	time.Sleep(time.Second)
	v.Assert(sd.count("offline") == 1, "silent client not dropped after twice its interval")
	v.Window(false)
	v.Assert(w.b.isClosed(), "transport of the dropped client left open")
	if !wait(time.Minute, "reader not told of the dropped client", r) {
		return
	}
	v.Assert(sd.count("online") == 1, "online notification missing")
	v.Assert(sd.hb == n, "heartbeats reported to the delegate are not those received")
	v.Assert(len(reads) == data, "data lost or made up while heartbeating")
	// every heartbeat acknowledged under its own id
	var acks []uint64
	for _, p := range c.pkts {
		if a, ok := p.(*packet.HeartbeatAckPacket); ok {
			acks = append(acks, a.ID())
		}
	}
	v.Assert(len(acks) == n, "heartbeat not acknowledged once")
	for i := range ids {
		if i < len(acks) {
			v.Assert(acks[i] == ids[i], "heartbeat acknowledged under another id")
		}
	}
	v.Reach("dropped")
	w.a.Close()
	gone("goroutines left after a drop")
}

// H_ClientHeartbeat: a client, idle or busy, heartbeats within what it announced.
func H_ClientHeartbeat() {
	w := newWire()
	var cl *conn.ClientConn
	var err error
	s := async(func() { cl, err = conn.NewClientConn(w.a) })
	c := collect(w.b)
	time.Sleep(time.Second)
	if len(c.pkts) != 1 {
		v.Assert(false, "no connect packet")
		return
	}
	cp := c.pkts[0].(*packet.ConnPacket)
	pf := pfS()
	start := time.Now()
	packet.EncodeToWriter(pf.NewConnAckPacket(cp.ID(), 7, nil), w.b)
	wait(time.Minute, "connect did not return", s)
	if err != nil {
		v.Assert(false, "connection not established")
		return
	}
	interval := time.Duration(cp.Heartbeat) * time.Second
	acked := v.Choice("acked", 2) == 1
	busy := v.Choice("busy", 2) == 1
	seen := 1
	v.Window(true)
	for i := 0; i < 30; i++ {
		time.Sleep(4 * time.Second)
		if busy {
			v.Assert(cl.Write(pfC().NewStreamPacket([]byte{1})) == nil, "write failed on an open connection")
		}
		for ; seen < len(c.pkts); seen++ {
			if p, ok := c.pkts[seen].(*packet.HeartbeatPacket); ok && acked {
				packet.EncodeToWriter(pf.NewHeartbeatAckPacket(p.ID()), w.b)
			}
		}
	}
	v.Window(false)
	last := start
	beats := 0
	for i, p := range c.pkts {
		if _, ok := p.(*packet.HeartbeatPacket); ok {
			v.Assert(c.at[i].Sub(last) <= interval+100*time.Millisecond, "heartbeats further apart than announced")
			last = c.at[i]
			beats++
		}
	}
	v.Assert(time.Since(last) <= interval+100*time.Millisecond, "heartbeats stopped")
	v.Assert(cl.Write(pfC().NewStreamPacket([]byte{1})) == nil, "idle client disconnected")
	v.Reach("beating")
	cl.Close()
	time.Sleep(time.Second)
	w.b.Close()
	gone("goroutines left after a close")
}

// H_IdleLive: an idle connection stays up and carries packets afterwards.
func H_IdleLive() {
	cd, sd := &rec{}, &rec{}
	p := established(cd, sd)
	if p.cl == nil || p.sv == nil {
		return
	}
	v.Window(true)
	time.Sleep(time.Duration(1+v.Choice("minutes", 4)) * time.Minute)
	if v.Choice("onbeat", 2) == 1 {
		time.Sleep(20 * time.Second)
	} else {
		time.Sleep(10 * time.Second)
	}
	out := payload("p", 2, 0)
	var back []packet.Packet
	v.Assert(cd.count("offline") == 0 && sd.count("offline") == 0, "idle connection dropped")
	writeAll(p.cl, pfC(), out[:1], "write failed on an idle connection")
	writeAll(p.sv, pfS(), out[1:], "write failed on an idle connection")
	within(time.Minute, "packet on an idle connection did not arrive", func() {
		x, err := p.sv.Read()
		v.Assert(err == nil, "read failed on an idle connection")
		if err == nil {
			back = append(back, x)
		}
	})
	within(time.Minute, "packet on an idle connection did not arrive", func() {
		x, err := p.cl.Read()
		v.Assert(err == nil, "read failed on an idle connection")
		if err == nil {
			back = append(back, x)
		}
	})
	v.Window(false)
	delivered(back, out, "on an idle connection")
	v.Reach("idle")
	p.cl.Close()
	gone("goroutines left after a close")
}
