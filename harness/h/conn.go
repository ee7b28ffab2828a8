package h

import (
	"errors"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/conn"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"github.com/singchia/geminio/zzverif/v"
)

// rec is a delegate that records what it is told.
type rec struct {
	mu              sync.Mutex
	log             []event
	chooseID        uint64
	chooseErr       error
	onlineErr       error
	offlineErr      error
	asked           int
	wantedID        uint64
	askedMeta       []byte
	hb              int
	connOnlineCalls int
}

type event struct {
	what   string
	client uint64
	dlg    uint64
	meta   []byte
	at     time.Time
}

func (r *rec) add(what string, c, d uint64, meta []byte) {
	r.mu.Lock()
	r.log = append(r.log, event{what, c, d, append([]byte{}, meta...), time.Now()})
	r.mu.Unlock()
}

func (r *rec) count(what string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, e := range r.log {
		if e.what == what {
			n++
		}
	}
	return n
}

func (r *rec) first(what string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i, e := range r.log {
		if e.what == what {
			return i
		}
	}
	return -1
}

func (r *rec) ConnOnline(c delegate.ConnDescriber) error {
	if r.onlineErr != nil {
		r.add("refused", c.ClientID(), 0, c.Meta())
		return r.onlineErr
	}
	r.add("online", c.ClientID(), 0, c.Meta())
	return nil
}

func (r *rec) ConnOffline(c delegate.ConnDescriber) error {
	r.add("offline", c.ClientID(), 0, c.Meta())
	return r.offlineErr
}

func (r *rec) Heartbeat(c delegate.ConnDescriber) error {
	r.mu.Lock()
	r.hb++
	r.mu.Unlock()
	return nil
}

func (r *rec) GetClientID(wanted uint64, meta []byte) (uint64, error) {
	r.mu.Lock()
	r.asked++
	r.wantedID = wanted
	r.askedMeta = append([]byte{}, meta...)
	r.mu.Unlock()
	return r.chooseID, r.chooseErr
}

func (r *rec) DialogueOnline(d delegate.DialogueDescriber) error {
	r.add("dlgonline", d.ClientID(), d.DialogueID(), d.Meta())
	return nil
}

func (r *rec) DialogueOffline(d delegate.DialogueDescriber) error {
	r.add("dlgoffline", d.ClientID(), d.DialogueID(), d.Meta())
	return nil
}

func (r *rec) EndReOnline(c delegate.ClientDescriber) { r.add("reonline", c.ClientID(), 0, nil) }

func (r *rec) RemoteRegistration(method string, clientID, streamID uint64) {
	r.add("reg:"+method, clientID, streamID, nil)
}

// pair is a client and a server connection over one wire.
type pair struct {
	w          *wire
	cl         *conn.ClientConn
	sv         *conn.ServerConn
	cErr, sErr error
	cd, sd     *rec
}

func dial(w *wire, cd, sd *rec, co []conn.ClientConnOption, so []conn.ServerConnOption) *pair {
	p := &pair{w: w, cd: cd, sd: sd}
	if cd != nil {
		co = append([]conn.ClientConnOption{conn.OptionClientConnDelegate(cd)}, co...)
	}
	if sd != nil {
		so = append([]conn.ServerConnOption{conn.OptionServerConnDelegate(sd)}, so...)
	}
	s := async(func() { p.sv, p.sErr = conn.NewServerConn(w.b, so...) })
	c := async(func() { p.cl, p.cErr = conn.NewClientConn(w.a, co...) })
	wait(time.Minute, "connect did not return", c)
	wait(time.Minute, "server's wait for the connect did not return", s)
	return p
}

// established connects and assumes nothing else happens.
func established(cd, sd *rec) *pair {
	p := dial(newWire(), cd, sd, nil, nil)
	v.Assert(p.cErr == nil && p.sErr == nil, "connection not established")
	return p
}

// gone checks that nothing is left running.
func gone(label string) {
	time.Sleep(2 * time.Minute)
	if v.Goroutines() != 0 {
		v.Observe("left", v.Stacks())
		v.Assert(false, label)
	}
}

// H_Handshake: any ids, metadata and choice of the server's delegate.
func H_Handshake() {
	v.SymRand()
	w := newWire()
	w.a.frag, w.b.frag = v.Choice("frag", 2), v.Choice("frag", 2)
	meta := v.Bytes("meta", v.Choice("metalen", 3))
	var co []conn.ClientConnOption
	co = append(co, conn.OptionClientConnMeta(meta))
	var wanted uint64
	if v.Choice("supplied", 2) == 1 {
		wanted = v.U64("wanted")
		co = append(co, conn.OptionClientConnClientID(wanted))
	}
	var so []conn.ServerConnOption
	cd := &rec{}
	sd := &rec{}
	var preset uint64
	mode := v.Choice("server", 6)
	switch mode {
	case 0:
		sd = nil
	case 1: // leaves the choice open
	case 2:
		sd.chooseID = v.U64("chosen")
	case 3:
		sd.chooseErr = errors.New("no id for you")
	case 4:
		sd.chooseID = v.U64("chosen")
		sd.onlineErr = errors.New("not welcome")
	case 5:
		sd = nil
		preset = v.U64("preset")
		so = append(so, conn.OptionServerConnClientID(preset))
	}
	v.Window(true)
	p := dial(w, cd, sd, co, so)
	v.Window(false)
	if sd != nil {
		v.Assert(sd.asked == 1, "delegate not asked for the client id once")
		v.Assert(sd.wantedID == wanted, "delegate not told the id the client wants")
		v.Assert(v.Eq(sd.askedMeta, meta), "delegate not told the client's metadata")
	}
	if mode == 3 || mode == 4 {
		want := "no id for you"
		if mode == 4 {
			want = "not welcome"
		}
		v.Assert(p.cErr != nil, "refused client connected")
		if p.cErr != nil {
			v.Assert(p.cErr.Error() == want, "client told another error than the refusal")
		}
		v.Assert(p.sErr != nil, "server connected a client it refused")
		time.Sleep(time.Minute)
		v.Assert(w.a.closed && w.b.closed, "transport left open after a refusal")
		v.Assert(sd.count("online") == 0 && sd.count("offline") == 0, "refused connection reported online or offline at the server")
		v.Assert(cd.count("online") == 0 && cd.count("offline") == 0, "refused connection reported online or offline at the client")
		gone("goroutines left after a refusal")
		v.Reach("refused")
		return
	}
	v.Assert(p.cErr == nil && p.sErr == nil, "connection not established")
	if p.cl == nil || p.sv == nil {
		return
	}
	c, s := p.cl.ClientID(), p.sv.ClientID()
	v.Assert(c == s, "ends report different client ids")
	switch mode {
	case 2:
		if sd.chooseID != 0 {
			v.Assert(s == sd.chooseID, "client id is not the one the delegate chose")
		}
	case 5:
		if preset != 0 {
			v.Assert(s == preset, "client id is not the one the server was given")
		}
	}
	v.Assert(s != 0, "null client id")
	v.Assert(v.Eq(p.sv.Meta(), meta), "server sees other metadata than the client sent")
	v.Assert(v.Eq(p.cl.Meta(), meta), "client's metadata changed")
	if sd != nil {
		v.Assert(sd.count("online") == 1, "server's online notification not given once")
		e := sd.log[sd.first("online")]
		v.Assert(v.And(e.client == s, v.Eq(e.meta, meta)), "server's online notification names another client")
	}
	v.Assert(p.cl.Side() == geminio.InitiatorSide && p.sv.Side() == geminio.RecipientSide, "wrong side reported")
	v.Reach("connected")
}

// H_HandshakeInsist: a peer that does not ask for an id keeps its own.
func H_HandshakeInsist() {
	w := newWire()
	meta := v.Bytes("meta", v.Choice("metalen", 3))
	cid := v.U64("cid")
	sd := &rec{}
	var sv *conn.ServerConn
	var err error
	s := async(func() { sv, err = conn.NewServerConn(w.b, conn.OptionServerConnDelegate(sd)) })
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Odd))
	pkt := pf.NewConnPacket(cid, false, packet.Heartbeat20, meta)
	packet.EncodeToWriter(pkt, w.a)
	wait(time.Minute, "server's wait for the connect did not return", s)
	v.Assert(err == nil, "connection not established")
	if err != nil {
		return
	}
	v.Assert(sv.ClientID() == cid, "server does not use the client's id")
	v.Assert(v.Eq(sv.Meta(), meta), "server sees other metadata than the client sent")
	v.Assert(sd.asked == 0, "delegate asked for an id although the client keeps its own")
	a, derr := packet.DecodeFromReader(w.a)
	v.Assert(derr == nil, "no connect acknowledgement")
	if ack, ok := a.(*packet.ConnAckPacket); ok {
		v.Assert(v.And(ack.ClientID == cid, ack.PacketID == pkt.PacketID), "acknowledgement names another client or packet")
		v.Assert(ack.ConnData.Error == "" && ack.RetCode == packet.RetCodeOK, "acknowledgement carries an error")
	} else {
		v.Assert(false, "first packet is not the connect acknowledgement")
	}
	v.Reach("insist")
}

// H_HandshakeMany: clients connecting to one server concurrently get distinct ids.
func H_HandshakeMany() {
	v.SymRand()
	ws := []*wire{newWire(), newWire()}
	ps := make([]*pair, 2)
	var wg sync.WaitGroup
	v.Window(true)
	for i := range ws {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			ps[i] = dial(ws[i], nil, nil, nil, nil)
		}()
	}
	wg.Wait()
	v.Window(false)
	for _, p := range ps {
		if p.cErr != nil || p.sErr != nil {
			v.Assert(false, "connection not established")
			return
		}
		v.Assert(p.cl.ClientID() == p.sv.ClientID(), "ends report different client ids")
	}
	v.Assert(ps[0].cl.ClientID() != ps[1].cl.ClientID(), "two clients got the same id")
	v.Reach("many")
}
