package h

import (
	"errors"
	"io"
	"time"

	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"github.com/singchia/geminio/zzverif/v"
)

// shortWriter accepts at most max bytes per call.
type shortWriter struct {
	buf []byte
	max int
}

func (w *shortWriter) Write(p []byte) (int, error) {
	n := len(p)
	if w.max > 0 && n > w.max {
		n = w.max
	}
	w.buf = append(w.buf, p[:n]...)
	return n, nil
}

// fragReader delivers the stream in two fragments cut at split, or one byte at
// a time when split is negative, and then fails with io.EOF.
type fragReader struct {
	buf   []byte
	pos   int
	split int
}

func (r *fragReader) Read(p []byte) (int, error) {
	if r.pos == len(r.buf) {
		return 0, io.EOF
	}
	end := len(r.buf)
	if r.split < 0 {
		end = r.pos + 1
	} else if r.pos < r.split {
		end = r.split
	}
	n := copy(p, r.buf[r.pos:end])
	r.pos += n
	return n, nil
}

func assertEqErr(got string, want string, label string) {
	v.Assert(v.EqS(got, want), label)
}

// samePacket asserts that b is a is.
func samePacket(a, b packet.Packet, where string) {
	v.Assert(a.Type() == b.Type(), where+": kind")
	v.Assert(a.ID() == b.ID(), where+": packet id")
	switch x := a.(type) {
	case *packet.ConnPacket:
		y, ok := b.(*packet.ConnPacket)
		v.Assert(ok, where+": kind")
		if !ok {
			return
		}
		v.Assert(x.ClientID == y.ClientID, where+": client id")
		v.Assert(x.ClientIDAcquire() == y.ClientIDAcquire(), where+": client id flag")
		v.Assert(x.Heartbeat == y.Heartbeat, where+": heartbeat")
		v.Assert(v.And(x.Retain == y.Retain, x.Clear == y.Clear), where+": flags")
		v.Assert(v.Eq(x.ConnData.Meta, y.ConnData.Meta), where+": meta")
	case *packet.ConnAckPacket:
		y, ok := b.(*packet.ConnAckPacket)
		v.Assert(ok, where+": kind")
		if !ok {
			return
		}
		v.Assert(x.ClientID == y.ClientID, where+": client id")
		v.Assert(x.RetCode == y.RetCode, where+": code")
		v.Assert(v.EqS(x.ConnData.Error, y.ConnData.Error), where+": error")
	case *packet.DisConnAckPacket:
		y, ok := b.(*packet.DisConnAckPacket)
		v.Assert(ok, where+": kind")
		if !ok {
			return
		}
		v.Assert(x.RetCode == y.RetCode, where+": code")
		v.Assert(v.EqS(x.ConnData.Error, y.ConnData.Error), where+": error")
	case *packet.SessionPacket:
		y, ok := b.(*packet.SessionPacket)
		v.Assert(ok, where+": kind")
		if !ok {
			return
		}
		v.Assert(x.NegotiateID() == y.NegotiateID(), where+": negotiate id")
		v.Assert(x.SessionIDAcquire() == y.SessionIDAcquire(), where+": acquire flag")
		v.Assert(x.Priority == y.Priority, where+": priority")
		v.Assert(v.Eq(x.SessionData.Meta, y.SessionData.Meta), where+": meta")
		v.Assert(v.EqS(x.SessionData.Peer, y.SessionData.Peer), where+": peer")
	case *packet.SessionAckPacket:
		y, ok := b.(*packet.SessionAckPacket)
		v.Assert(ok, where+": kind")
		if !ok {
			return
		}
		v.Assert(x.NegotiateID() == y.NegotiateID(), where+": negotiate id")
		v.Assert(x.SessionID() == y.SessionID(), where+": session id")
		v.Assert(v.EqS(x.SessionData.Error, y.SessionData.Error), where+": error")
	case *packet.DismissPacket:
		y, ok := b.(*packet.DismissPacket)
		v.Assert(ok && x.SessionID() == y.SessionID(), where+": session id")
	case *packet.DismissAckPacket:
		y, ok := b.(*packet.DismissAckPacket)
		v.Assert(ok && x.SessionID() == y.SessionID(), where+": session id")
		v.Assert(ok && v.EqS(x.SessionData.Error, y.SessionData.Error), where+": error")
	case *packet.MessagePacket:
		y, ok := b.(*packet.MessagePacket)
		v.Assert(ok, where+": kind")
		if !ok {
			return
		}
		v.Assert(x.SessionID() == y.SessionID(), where+": session id")
		sameData(x.Data, y.Data, where)
	case *packet.MessageAckPacket:
		y, ok := b.(*packet.MessageAckPacket)
		v.Assert(ok, where+": kind")
		if !ok {
			return
		}
		v.Assert(x.SessionID() == y.SessionID(), where+": session id")
		sameData(x.Data, y.Data, where)
	case *packet.RequestPacket:
		y, ok := b.(*packet.RequestPacket)
		v.Assert(ok, where+": kind")
		if !ok {
			return
		}
		v.Assert(x.SessionID() == y.SessionID(), where+": session id")
		sameData(x.Data, y.Data, where)
	case *packet.ResponsePacket:
		y, ok := b.(*packet.ResponsePacket)
		v.Assert(ok, where+": kind")
		if !ok {
			return
		}
		v.Assert(x.SessionID() == y.SessionID(), where+": session id")
		sameData(x.Data, y.Data, where)
	case *packet.StreamPacket:
		y, ok := b.(*packet.StreamPacket)
		v.Assert(ok, where+": kind")
		if !ok {
			return
		}
		v.Assert(x.SessionID() == y.SessionID(), where+": session id")
		v.Assert(v.Eq(x.Data, y.Data), where+": data")
	case *packet.RegisterPacket:
		y, ok := b.(*packet.RegisterPacket)
		v.Assert(ok, where+": kind")
		if !ok {
			return
		}
		v.Assert(x.SessionID() == y.SessionID(), where+": session id")
		v.Assert(v.EqS(x.Method(), y.Method()), where+": method")
	case *packet.RegisterAckPacket:
		y, ok := b.(*packet.RegisterAckPacket)
		v.Assert(ok, where+": kind")
		if !ok {
			return
		}
		v.Assert(x.SessionID() == y.SessionID(), where+": session id")
		v.Assert(v.EqS(x.RegisterData.Error, y.RegisterData.Error), where+": error")
	}
}

func sameData(a, b *packet.MessageData, where string) {
	v.Assert(v.Eq(a.Key, b.Key), where+": key")
	v.Assert(v.Eq(a.Value, b.Value), where+": value")
	v.Assert(v.Eq(a.Custom, b.Custom), where+": custom")
	v.Assert(v.EqS(a.Topic, b.Topic), where+": topic")
	v.Assert(v.EqS(a.Error, b.Error), where+": error")
	v.Assert(a.Timeout == b.Timeout, where+": timeout")
	v.Assert(a.Deadline.Equal(b.Deadline), where+": deadline")
	v.Assert(a.Context.Deadline.Equal(b.Context.Deadline), where+": context deadline")
}

func maybeErr(name string) error {
	switch v.Choice(name, 3) {
	case 1:
		return errors.New(v.Text(name+".text", 3))
	case 2:
		return errors.New("no such rpc: \"m\" <é> & \\ \t")
	}
	return nil
}

const codecKinds = 18

// anyPacket builds a packet of the given kind with arbitrary content, through
// the factory the library itself uses.
func anyPacket(kind, n int, name string) packet.Packet {
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Odd))
	pid, sid, third := v.U64(name+".pid"), v.U64(name+".sid"), v.U64(name+".third")
	flag := v.Bool(name + ".flag")
	data := func(d *packet.MessageData) {
		d.Custom = v.Bytes(name+".custom", n)
		d.Topic = v.Text(name+".topic", n)
		switch n {
		case 1:
			d.Timeout = 1500 * time.Millisecond
			d.Deadline = time.Unix(1700000000, 123456789)
		case 3:
			d.Topic = "q\"b\\s<t>&é\n\u2028"
			d.Timeout = 1<<63 - 1
			d.Context.Deadline = time.Unix(4000000000, 1)
		}
	}
	switch kind {
	case 0:
		hbs := []packet.Heartbeat{packet.Heartbeat5, packet.Heartbeat20, packet.Heartbeat80, packet.Heartbeat320}
		p := pf.NewConnPacket(sid, flag, hbs[v.Choice(name+".hb", 4)], v.Bytes(name+".meta", n))
		p.Retain, p.Clear = v.Bool(name+".retain"), v.Bool(name+".clear")
		p.PacketID = pid
		return p
	case 1:
		return pf.NewConnAckPacket(pid, sid, maybeErr(name+".err"))
	case 2:
		p := pf.NewDisConnPacket()
		p.PacketID = pid
		return p
	case 3:
		return pf.NewDisConnAckPacket(pid, maybeErr(name+".err"))
	case 4:
		p := pf.NewHeartbeatPacket()
		p.PacketID = pid
		return p
	case 5:
		return pf.NewHeartbeatAckPacket(pid)
	case 6:
		p := pf.NewSessionPacket(sid, flag, v.Bytes(name+".meta", n), v.Text(name+".peer", n))
		p.PacketID = pid
		p.Priority = v.U8(name + ".prio")
		return p
	case 7:
		return pf.NewSessionAckPacket(pid, sid, third, maybeErr(name+".err"))
	case 8:
		p := pf.NewDismissPacket(sid)
		p.PacketID = pid
		return p
	case 9:
		return pf.NewDismissAckPacket(pid, sid, maybeErr(name+".err"))
	case 10:
		p := pf.NewMessagePacketWithIDAndSessionID(pid, sid, v.Bytes(name+".key", n), v.Bytes(name+".value", n))
		data(p.Data)
		return p
	case 11:
		return pf.NewMessageAckPacketWithSessionID(sid, pid, maybeErr(name+".err"))
	case 12:
		p := pf.NewStreamPacketWithSessionID(sid, v.Bytes(name+".data", n))
		p.PacketID = pid
		return p
	case 13:
		p := pf.NewRequestPacketWithIDAndSessionID(pid, sid, v.Bytes(name+".key", n), v.Bytes(name+".value", n))
		data(p.Data)
		return p
	case 14:
		p := pf.NewResponsePacket(pid, v.Bytes(name+".key", n), v.Bytes(name+".value", n), maybeErr(name+".err"))
		p.SetSessionID(sid)
		data(p.Data)
		return p
	case 15:
		p := pf.NewRegisterPacketWithSessionID(sid, v.Bytes(name+".method", n))
		p.PacketID = pid
		return p
	case 16:
		return pf.NewRegisterAckPacketWithSessionID(sid, pid, maybeErr(name+".err"))
	case 17:
		return pf.NewRequestCancelPacketWithIDAndSessionID(pid, sid, packet.RequestCancelType(1+v.Choice(name+".ct", 2)))
	}
	return nil
}

func codecSize() int {
	if v.Thorough() {
		return v.Choice("size", 9)
	}
	return []int{0, 1, 3}[v.Choice("size", 3)]
}

// H_CodecBuffer: Decode(Encode(p)) == p for every kind.
func H_CodecBuffer() {
	kind := v.Choice("kind", codecKinds)
	p := anyPacket(kind, codecSize(), "p")
	enc, err := packet.Encode(p)
	v.Assert(err == nil, "buffer: encodes")
	if err != nil {
		return
	}
	// what follows the packet in the buffer must not matter
	buf := append(append([]byte{}, enc...), v.Bytes("tail", v.Choice("tail", 3))...)
	q, n, err := packet.Decode(buf)
	v.Assert(err == nil, "buffer: decodes")
	if err != nil {
		v.Observe("err", err)
		return
	}
	samePacket(p, q, "buffer")
	v.Assert(int(n) == len(enc)-14, "buffer: length consumed")
	v.Observe("kind", kind)
	v.Observe("enc", enc)
	v.Reach("decoded")
}

// H_CodecStream: two packets written back to back through a writer that
// accepts few bytes at a time come out of a fragmented stream unchanged.
func H_CodecStream() {
	kind := v.Choice("kind", codecKinds)
	p := anyPacket(kind, codecSize(), "p")
	q := anyPacket(v.Choice("kind2", codecKinds), 2, "q")
	w := &shortWriter{max: []int{0, 1, 5}[v.Choice("short", 3)]}
	if packet.EncodeToWriter(p, w) != nil || packet.EncodeToWriter(q, w) != nil {
		v.Assert(false, "stream: encodes")
		return
	}
	enc, _ := packet.Encode(p)
	enc2, _ := packet.Encode(q)
	v.Assert(v.Eq(w.buf, append(append([]byte{}, enc...), enc2...)), "stream: short writes complete")
	r := &fragReader{buf: w.buf, split: -1}
	if k := v.Choice("frag", 4); k > 0 {
		// a cut inside the header, at the boundary, or inside the payload
		cuts := []int{0, 3, 14, 14 + (len(enc)-14)/2}
		r.split = cuts[k]
	}
	g, err := packet.DecodeFromReader(r)
	v.Assert(err == nil, "stream: first packet decodes")
	if err != nil {
		return
	}
	samePacket(p, g, "stream first")
	first := g
	v.Assert(r.pos == len(enc), "stream: exactly the packet's bytes are consumed")
	g, err = packet.DecodeFromReader(r)
	v.Assert(err == nil, "stream: second packet decodes")
	if err != nil {
		return
	}
	samePacket(q, g, "stream second")
	samePacket(p, first, "stream first after the second")
	v.Assert(r.pos == len(r.buf), "stream: exactly the second packet's bytes are consumed")
	_, err = packet.DecodeFromReader(r)
	v.Assert(err != nil, "stream: nothing after the last packet")
	v.Observe("bytes", w.buf)
	v.Reach("streamed")
}

// slowEnd is one end of a byte stream whose writer and reader, moving few bytes
// at a time, let others run in between.
type slowEnd struct {
	ch  chan byte
	max int
}

func (s *slowEnd) Write(p []byte) (int, error) {
	n := len(p)
	if n > s.max {
		n = s.max
	}
	for _, b := range p[:n] {
		s.ch <- b
	}
	return n, nil
}

func (s *slowEnd) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	p[0] = <-s.ch
	return 1, nil
}

// H_CodecTogether: several streams are encoded and decoded at the same time,
// each as if it were alone.
func H_CodecTogether() {
	n := 2
	kinds := [...][2]int{{0, 6}, {1, 16}, {8, 10}, {12, 13}, {14, 12}, {15, 17}, {7, 5}, {3, 14}}[v.Choice("kinds", 8)]
	var sent, got [2]packet.Packet
	var again [2]packet.Packet
	oks := make(chan bool, 4)
	for i := 0; i < n; i++ {
		name := []string{"p", "q"}[i]
		sent[i] = anyPacket(kinds[i], 2, name)
		s := &slowEnd{make(chan byte, 3), []int{1, 2}[i]}
		go func(i int) {
			ok := packet.EncodeToWriter(sent[i], s) == nil
			oks <- packet.EncodeToWriter(sent[i], s) == nil && ok
		}(i)
		go func(i int) {
			var err, err2 error
			got[i], err = packet.DecodeFromReader(s)
			again[i], err2 = packet.DecodeFromReader(s)
			oks <- err == nil && err2 == nil
		}(i)
	}
	for i := 0; i < 2*n; i++ {
		ok := false
		if !within(time.Minute, "together: coding doesn't end", func() { ok = <-oks }) {
			return
		}
		v.Assert(ok, "together: encodes and decodes")
	}
	if got[0] == nil || got[1] == nil || again[0] == nil || again[1] == nil {
		return
	}
	for i := 0; i < n; i++ {
		samePacket(sent[i], got[i], "together")
		samePacket(sent[i], again[i], "together again")
	}
	v.Reach("together")
}

// H_CodecLarge: payloads whose lengths cross the byte boundaries of the length
// field; the ends of the payload are arbitrary.
func H_CodecLarge() {
	n := []int{255, 256, 4096, 65521, 65536, 70001}[v.Choice("n", 6)]
	body := make([]byte, n)
	for i := range body {
		body[i] = byte(i * 7)
	}
	body[0], body[n-1] = v.U8("first"), v.U8("last")
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Odd))
	p := pf.NewStreamPacketWithSessionID(v.U64("sid"), body)
	p.PacketID = v.U64("pid")
	w := &shortWriter{max: []int{0, 1000}[v.Choice("short", 2)]}
	next := pf.NewStreamPacketWithSessionID(1, v.Bytes("next", 2))
	if packet.EncodeToWriter(p, w) != nil || packet.EncodeToWriter(next, w) != nil {
		v.Assert(false, "large: encodes")
		return
	}
	v.Assert(len(w.buf) == 14+8+n+14+8+2, "large: every byte is written once")
	r := &fragReader{buf: w.buf, split: v.Choice("split", 3) * (n / 2)}
	g, err := packet.DecodeFromReader(r)
	v.Assert(err == nil, "large: decodes from a stream")
	if err != nil {
		return
	}
	samePacket(p, g, "large stream")
	v.Assert(r.pos == 14+8+n, "large: consumes its own bytes")
	g, err = packet.DecodeFromReader(r)
	v.Assert(err == nil, "large: the next packet decodes")
	if err != nil {
		return
	}
	samePacket(next, g, "large next")
	g, k, err := packet.Decode(w.buf)
	v.Assert(err == nil, "large: decodes from a buffer")
	if err != nil {
		return
	}
	samePacket(p, g, "large buffer")
	v.Assert(int(k) == 8+n, "large: length consumed")
	v.Reach("large")
}

// H_CodecLargeData: the same for packets whose content is encoded elastically.
func H_CodecLargeData() {
	n := []int{60, 190, 191, 300, 3000}[v.Choice("n", 5)]
	body := make([]byte, n)
	for i := range body {
		body[i] = byte(i * 7)
	}
	body[0], body[n-1] = v.U8("first"), v.U8("last")
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Odd))
	var p packet.Packet
	switch v.Choice("kind", 5) {
	case 0:
		p = pf.NewConnPacket(v.U64("cid"), false, packet.Heartbeat20, body)
	case 1:
		p = pf.NewSessionPacket(v.U64("sid"), false, body, "peer")
	case 2:
		p = pf.NewMessagePacketWithIDAndSessionID(v.U64("pid"), 1, []byte("k"), body)
	case 3:
		p = pf.NewRequestPacketWithIDAndSessionID(v.U64("pid"), 1, []byte("m"), body)
	case 4:
		p = pf.NewRegisterPacketWithSessionID(1, body)
	}
	next := pf.NewStreamPacketWithSessionID(1, v.Bytes("next", 2))
	w := &shortWriter{}
	if packet.EncodeToWriter(p, w) != nil || packet.EncodeToWriter(next, w) != nil {
		v.Assert(false, "large data: encodes")
		return
	}
	r := &fragReader{buf: w.buf, split: n / 2}
	g, err := packet.DecodeFromReader(r)
	v.Assert(err == nil, "large data: decodes from a stream")
	if err != nil {
		return
	}
	samePacket(p, g, "large data stream")
	g, err = packet.DecodeFromReader(r)
	v.Assert(err == nil, "large data: the next packet decodes")
	if err != nil {
		return
	}
	samePacket(next, g, "large data next")
	g, _, err = packet.Decode(w.buf)
	v.Assert(err == nil, "large data: decodes from a buffer")
	if err != nil {
		return
	}
	samePacket(p, g, "large data buffer")
	v.Reach("large")
}

// header builds a header with arbitrary version, id and announced length.
func header(typ uint8, plen uint32) []byte {
	b := make([]byte, 14)
	b[0] = v.U8("version")
	b[1] = typ
	for i := 0; i < 8; i++ {
		b[2+i] = v.U8("pid")
	}
	b[10], b[11], b[12], b[13] = byte(plen>>24), byte(plen>>16), byte(plen>>8), byte(plen)
	return b
}

// H_MalformedStream: arbitrary bytes from a stream, any kind byte, any
// announced length up to the bound, any amount of data behind it.
func H_MalformedStream() {
	typ := v.U8("typ")
	max := 24
	if v.Thorough() {
		max = 40
	}
	plen := v.Choice("plen", max+1)
	have := plen
	if v.Bool("truncated") {
		if plen == 0 {
			return
		}
		have = v.Choice("have", plen)
	}
	body := v.Bytes("body", have)
	r := &fragReader{buf: append(header(typ, uint32(plen)), body...), split: 0}
	p, err := packet.DecodeFromReader(r)
	if err == nil {
		v.Assert(p != nil, "stream: a packet or an error")
		v.Assert(r.pos <= 14+plen, "stream: reads past the announced length")
		consumed := r.pos - 14
		v.Assert(consumed == plen || consumed == 0, "stream: packet built from part of its bytes")
		v.Reach("decoded")
	} else {
		v.Reach("rejected")
	}
}

// H_MalformedBuffer: the same for Decode on a buffer.
func H_MalformedBuffer() {
	typ := v.U8("typ")
	max := 20
	if v.Thorough() {
		max = 32
	}
	plen := v.Choice("plen", max+1)
	have := plen
	if v.Bool("other") {
		have = v.Choice("have", max+1)
	}
	b := append(header(typ, uint32(plen)), v.Bytes("body", have)...)
	if v.Bool("shorthdr") {
		b = b[:v.Choice("hdr", 14)]
	}
	p, n, err := packet.Decode(b)
	if err == nil {
		v.Assert(p != nil, "buffer: a packet or an error")
		v.Assert(int(n) <= len(b)-14, "buffer: consumes more than it was given")
		v.Assert(have >= plen, "buffer: packet built from missing bytes")
		v.Reach("decoded")
	} else {
		v.Reach("rejected")
	}
}

// H_TruncatedValid: a stream that ends inside a well-formed packet.
func H_TruncatedValid() {
	p := anyPacket(v.Choice("kind", codecKinds), 2, "p")
	enc, err := packet.Encode(p)
	if err != nil {
		return
	}
	cut := v.Choice("cut", len(enc))
	r := &fragReader{buf: enc[:cut], split: -1}
	_, err = packet.DecodeFromReader(r)
	v.Assert(err != nil, "truncated: packet built from missing bytes")
	_, _, err = packet.Decode(enc[:cut])
	v.Assert(err != nil, "truncated buffer: packet built from missing bytes")
	v.Reach("cut")
}
