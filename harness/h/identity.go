package h

import (
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"github.com/singchia/geminio/zzverif/v"
)

// face is what a stream should report about itself.
type face struct {
	sm            geminio.Stream
	client, id    uint64
	side          geminio.Side
	meta          []byte
	peer          string
	local, remote string
}

func (f *face) look() {
	v.Assert(f.sm.ClientID() == f.client, "stream reports another client id")
	v.Assert(f.sm.StreamID() == f.id, "stream reports another stream id")
	v.Assert(f.sm.Side() == f.side, "stream reports the wrong side")
	v.Assert(v.Eq(f.sm.Meta(), f.meta), "stream reports other metadata")
	v.Assert(f.sm.Peer() == f.peer, "stream reports another peer")
	v.Assert(f.sm.LocalAddr() != nil && f.sm.LocalAddr().String() == f.local, "stream reports another local address")
	v.Assert(f.sm.RemoteAddr() != nil && f.sm.RemoteAddr().String() == f.remote, "stream reports another remote address")
	if e, ok := f.sm.(geminio.End); ok {
		v.Assert(e.Addr() != nil && e.Addr().String() == f.local, "end reports another address")
	}
	// what is made for it names it
	q, m := f.sm.NewRequest([]byte("q")), f.sm.NewMessage([]byte("m"))
	v.Assert(q.ClientID() == f.client && q.StreamID() == f.id, "new request is of another stream")
	v.Assert(m.ClientID() == f.client && m.StreamID() == f.id, "new message is of another stream")
}

// H_Identity: what both ends and the streams between them report about
// themselves, throughout their life.
func H_Identity() {
	meta := v.Bytes("meta", v.Choice("metalen", 3))
	co, so := client.NewEndOptions(), server.NewEndOptions()
	co.SetMeta(meta)
	e := meet(newWire(), co, so)
	v.Assert(e.cErr == nil && e.sErr == nil, "ends not connected")
	v.Assume(e.cErr == nil && e.sErr == nil)
	id := e.c.ClientID()
	fs := []*face{
		{e.c, id, 1, geminio.InitiatorSide, meta, "", "client", "server"},
		{e.s, id, 1, geminio.RecipientSide, meta, "", "server", "client"},
	}
	n := 2
	if v.Thorough() {
		n = 3
	}
	var ids []uint64
	// 1 the client opens, 2 the server does
	for i := 0; i < n; i++ {
		by := v.Choice("by", 3)
		if by == 0 {
			continue
		}
		from, to := e.c, e.s
		if by == 2 {
			from, to = e.s, e.c
		}
		oo := options.OpenStream()
		m := v.Bytes("streammeta", v.Choice("streammetalen", 2))
		p := v.Text("peer", v.Choice("peerlen", 2))
		oo.SetMeta(m)
		oo.SetPeer(p)
		near, far := open(from, to, oo)
		for _, x := range ids {
			v.Assert(x != near.StreamID(), "two streams have the same id")
		}
		v.Assert(near.StreamID() > 1, "stream has the id of the connection's own")
		ids = append(ids, near.StreamID())
		a, b := "client", "server"
		if by == 2 {
			a, b = b, a
		}
		fs = append(fs, &face{near, id, near.StreamID(), geminio.InitiatorSide, m, p, a, b},
			&face{far, id, near.StreamID(), geminio.RecipientSide, m, p, b, a})
	}
	for _, f := range fs {
		f.look()
	}
	switch v.Choice("then", 4) {
	case 0:
		e.c.Close()
	case 1:
		e.w.sever()
	case 2:
		if len(fs) > 2 {
			fs[2].sm.Close()
		}
	case 3:
		talk(e.c, e.s, 5)
	}
	time.Sleep(time.Minute)
	for _, f := range fs {
		f.look()
	}
	e.quit()
	v.Reach("told")
}

// H_IdentityAgain: a reconnecting client reports what its current connection does.
func H_IdentityAgain() {
	s, re := redialer(nil, false, nil)
	losses := 1 + v.Choice("losses", 2)
	for i := 0; ; i++ {
		se, w := s.last()
		v.Assert(re.ClientID() == se.ClientID(), "ends report different client ids")
		v.Assert(re.StreamID() == 1 && se.StreamID() == 1, "stream reports another stream id")
		v.Assert(re.Side() == geminio.InitiatorSide && se.Side() == geminio.RecipientSide, "stream reports the wrong side")
		v.Assert(re.LocalAddr().String() == w.a.name && re.RemoteAddr().String() == w.a.peer, "reconnecting client reports another address")
		v.Assert(re.Addr().String() == w.a.name, "reconnecting client reports another address")
		v.Assert(v.Eq(re.Meta(), se.Meta()), "ends report different metadata")
		v.Assert(re.Peer() == "", "stream reports another peer")
		q, m := re.NewRequest([]byte("q")), re.NewMessage([]byte("m"))
		v.Assert(q.ClientID() == se.ClientID() && m.ClientID() == se.ClientID(), "new request or message is of another stream")
		// its streams are listed, its deadlines hold
		sm, err := re.OpenStream()
		v.Assert(err == nil, "stream not opened")
		if err != nil {
			return
		}
		fa, err := se.AcceptStream()
		v.Assert(err == nil && fa.StreamID() == sm.StreamID(), "opened stream not accepted")
		v.Assert(len(re.ListStreams()) == 2, "streams listed that are not open, or open ones not listed")
		se.OpenStream()
		in, err := re.Accept()
		v.Assert(err == nil && in != nil, "opened stream not accepted")
		for k := 0; k < 2; k++ {
			at := time.Now().Add(time.Second)
			if k == 0 {
				re.SetReadDeadline(at)
			} else {
				re.SetDeadline(at)
			}
			var rerr error
			within(time.Minute, "read past its deadline did not return", func() { _, rerr = re.Read(make([]byte, 1)) })
			v.Assert(isTimeout(rerr) && time.Now().Equal(at), "read ended other than at its deadline")
			re.SetDeadline(time.Time{})
		}
		if i == losses {
			break
		}
		w.sever()
		time.Sleep(20 * time.Second)
		if _, ends := s.count(); ends != i+2 {
			v.Assert(false, "client did not connect again")
			return
		}
		_, w = s.last()
		w.a.name, w.a.peer = "client again", "server again"
	}
	within(time.Minute, "closing an end did not return", func() { re.Close() })
	time.Sleep(time.Minute)
	over(re)
	s.quit()
	v.Reach("told")
}
