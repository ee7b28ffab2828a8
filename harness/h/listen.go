package h

import (
	"context"
	"errors"
	"net"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/server"
	"github.com/singchia/geminio/zzverif/v"
	"github.com/singchia/geminio/zzverif/vnet"
)

// hall is an in-memory net.Listener and what dials it.
type hall struct {
	mu     sync.Mutex
	q      chan *wire
	done   chan struct{}
	closed bool
	dials  int
	closes int
	where  [2]string
	deny   error
}

var errRefused = errors.New("connection refused")

func newHall() *hall {
	h := &hall{q: make(chan *wire, 8), done: make(chan struct{})}
	vnet.OnListen = func(network, address string) (net.Listener, error) {
		if h.deny != nil {
			return nil, h.deny
		}
		h.where = [2]string{network, address}
		return h, nil
	}
	vnet.OnDial = func(network, address string) (net.Conn, error) {
		v.Assert(network == h.where[0] && address == h.where[1], "another address dialled than given")
		w, err := h.dial()
		if err != nil {
			return nil, err
		}
		return w.a, nil
	}
	return h
}

func (h *hall) dial() (*wire, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.dials++
	if h.closed {
		return nil, errRefused
	}
	w := newWire()
	h.q <- w
	return w, nil
}

func (h *hall) Accept() (net.Conn, error) {
	h.mu.Lock()
	closed := h.closed
	h.mu.Unlock()
	if closed {
		return nil, net.ErrClosed
	}
	select {
	case w := <-h.q:
		return w.b, nil
	case <-h.done:
		return nil, net.ErrClosed
	}
}

func (h *hall) Close() error {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.closes++
	if h.closed {
		return net.ErrClosed
	}
	h.closed = true
	close(h.done)
	for len(h.q) > 0 {
		(<-h.q).b.Close()
	}
	return nil
}

func (h *hall) Addr() net.Addr { return addr(h.where[1]) }

type accepted struct {
	end geminio.End
	err error
}

// guest is one client of a listener.
type guest struct {
	kind int
	meta []byte
	end  geminio.End
	err  error
	d    <-chan struct{}
	w    *wire
}

// come connects guest i, of a kind: 0 properly, 1 and says nothing until it
// leaves after a while, 2 and leaves at once, 3 with bytes that are no packet,
// 4 as 1 but staying longer than any handshake may take.
func (h *hall) come(i int, x *guest) {
	if x.kind == 0 {
		o := client.NewEndOptions()
		o.SetMeta(x.meta)
		o.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "who", RPC: func(_ context.Context, req geminio.Request, rsp geminio.Response) {
			rsp.SetData(append([]byte{byte(i)}, req.Data()...))
		}}, &geminio.MethodRPC{Method: "slow", RPC: func(_ context.Context, req geminio.Request, rsp geminio.Response) {
			time.Sleep(3 * time.Second)
		}})
		x.d = async(func() { x.end, x.err = client.NewEnd("mem", "here", o) })
		return
	}
	w, err := h.dial()
	v.Assert(err == nil, "not listening")
	x.w = w
	x.d = async(func() {
		switch x.kind {
		case 1:
			time.Sleep(3 * time.Second)
		case 4:
			time.Sleep(40 * time.Second)
			v.Assert(w.b.isClosed(), "client that says nothing is not given up")
		case 3:
			w.a.Write([]byte{255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255})
			time.Sleep(time.Second)
		}
		w.a.Close()
	})
}

// H_Listen: clients, well-behaved and not, come to a listener whose user accepts
// concurrently or one by one, and then closes it.
func H_Listen() {
	h := newHall()
	// the options are one value for all ends
	ln, err := server.Listen("mem", "here", server.NewEndOptions())
	v.Assert(err == nil && ln != nil, "listen failed")
	if err != nil {
		return
	}
	v.Assert(ln.Addr().String() == "here", "listener reports another address")
	n := 2
	if v.Thorough() {
		n = 3
	}
	gs := make([]*guest, n)
	good := 0
	for i := range gs {
		gs[i] = &guest{kind: v.Choice("kind", 5), meta: append([]byte{byte(i)}, v.Bytes("meta", 1)...)}
		if gs[i].kind == 0 {
			good++
		}
	}
	how := v.Choice("accept", 3) // one by one, as many as clients, one more than that
	for _, x := range gs {
		// nothing else is accepted meanwhile
		v.Assume(how != 0 || x.kind != 4)
	}
	idle := 0
	got := make(chan accepted, 8)
	accept := func() bool {
		var a accepted
		if how == 1 {
			var c net.Conn
			c, a.err = ln.Accept()
			if a.err == nil {
				a.end, _ = c.(geminio.End)
				v.Assert(a.end != nil, "Accept returned something else than an end")
			}
		} else {
			a.end, a.err = ln.AcceptEnd()
		}
		got <- a
		return a.err != net.ErrClosed
	}
	loop := 1
	switch how {
	case 1:
		loop = n
	case 2:
		loop, idle = n+1, 1
	}
	ended := make(chan struct{}, 8)
	v.Window(true)
	for k := 0; k < loop; k++ {
		go func() {
			if how == 0 {
				for accept() {
				}
			} else {
				accept()
			}
			ended <- struct{}{}
		}()
	}
	for i, x := range gs {
		h.come(i, x)
	}
	for _, x := range gs {
		wait(time.Minute, "connecting to a listener did not end", x.d)
	}
	var srv []geminio.End
	take := func() (accepted, bool) {
		t := time.NewTimer(time.Minute)
		defer t.Stop()
		select {
		case a := <-got:
			return a, true
		case <-t.C:
			v.Assert(false, "accept did not return although a client came or the listener was closed")
			return accepted{}, false
		}
	}
	for range gs {
		a, ok := take()
		if !ok {
			return
		}
		if a.err == nil {
			v.Assert(a.end != nil, "accept returned neither end nor error")
			srv = append(srv, a.end)
		}
	}
	v.Assert(len(srv) == good, "accepted other than the clients that connected")
	if len(srv) != good {
		return
	}
	v.Window(false)
	// each is one client's
	var seen [3]int
	for _, s := range srv {
		m := s.Meta()
		if len(m) != 2 || int(m[0]) >= n || gs[m[0]].kind != 0 {
			v.Assert(false, "accepted end is no client's")
			return
		}
		x := gs[m[0]]
		seen[m[0]]++
		v.Assert(v.Eq(m, x.meta), "accepted end has other metadata than its client")
		v.Assert(x.err == nil && x.end != nil, "client not connected although accepted")
		if x.end == nil {
			return
		}
		v.Assert(x.end.ClientID() == s.ClientID(), "ends report different client ids")
		data := v.Bytes("data", 1)
		r, err := s.Call(bg, "who", s.NewRequest(data))
		v.Assert(err == nil, "call to an accepted client failed")
		if err == nil {
			v.Assert(v.Eq(r.Data(), append([]byte{m[0]}, data...)), "accepted end leads to another client")
		}
	}
	for i, x := range gs {
		if x.kind == 0 {
			v.Assert(seen[i] == 1, "client not accepted exactly once")
		}
	}
	if good == 2 && len(srv) == 2 {
		v.Assert(srv[0].ClientID() != srv[1].ClientID(), "two clients got the same id")
	}
	v.Assert(len(got) == 0, "accept returned without a client")
	// closing ends what waits, and nothing else
	v.Assert(ln.Close() == nil, "closing a listener failed")
	if how == 0 {
		idle = 1
	}
	for k := 0; k < idle; k++ {
		a, ok := take()
		if !ok {
			return
		}
		v.Assert(a.err != nil && a.end == nil, "accept on a closed listener succeeded")
	}
	for k := 0; k < loop; k++ {
		wait(time.Minute, "accept did not return although the listener was closed", async(func() { <-ended }))
	}
	within(time.Minute, "accept on a closed listener did not return", func() {
		x, err := ln.AcceptEnd()
		v.Assert(err != nil && x == nil, "accept on a closed listener succeeded")
		c, err := ln.Accept()
		v.Assert(err != nil, "accept on a closed listener succeeded")
		_ = c
	})
	_, err = client.NewEnd("mem", "here")
	v.Assert(err == errRefused, "client connected to a closed listener, or got another error")
	for _, s := range srv {
		_, err := s.Call(bg, "who", s.NewRequest(nil))
		v.Assert(err == nil, "closing the listener hurt a client")
	}
	for _, s := range srv {
		// the ends share nothing
		r := s.NewRequest(nil)
		r.SetTimeout(time.Second)
		from := time.Now()
		within(time.Minute, "call outlasts its timeout", func() { _, err = s.Call(bg, "slow", r) })
		v.Assert(isTimeout(err) && time.Since(from) == time.Second, "call outlasts its timeout, or is over before it")
		s.Close()
		time.Sleep(time.Second)
	}
	for _, x := range gs {
		if x.kind != 0 {
			v.Assert(x.w.b.isClosed(), "transport of a client that failed to connect left open")
		}
	}
	gone("goroutines left after all ends and the listener were closed")
	v.Assert(h.dials == n+1 && h.closes == 1, "transports opened or listener closed other than once each")
	v.Reach("listened")
}

// H_ListenClose: a listener is closed while clients connect.
func H_ListenClose() {
	h := newHall()
	ln, err := server.Listen("mem", "here")
	if err != nil {
		v.Assert(false, "listen failed")
		return
	}
	gs := []*guest{{meta: []byte{0, 7}, kind: v.Choice("kind", 2)}, {meta: []byte{1, 7}}}
	callers := 1 + v.Choice("accept", 2)
	got := make(chan accepted, 8)
	v.Window(true)
	for k := 0; k < callers; k++ {
		go func() {
			x, err := ln.AcceptEnd()
			got <- accepted{x, err}
		}()
	}
	for i, x := range gs {
		h.come(i, x)
	}
	d := async(func() { ln.Close() })
	wait(time.Minute, "closing a listener did not return", d)
	var srv []geminio.End
	for k := 0; k < callers; k++ {
		var a accepted
		if !wait(time.Minute, "accept did not return although the listener was closed", async(func() { a = <-got })) {
			return
		}
		v.Assert((a.err == nil) == (a.end != nil), "accept returned both or neither of end and error")
		if a.err == nil {
			srv = append(srv, a.end)
		}
	}
	v.Window(false)
	n := 0
	for _, x := range gs {
		wait(time.Minute, "connecting to a listener did not end", x.d)
		if x.end != nil {
			v.Assert(x.err == nil, "client connected with an error")
			n++
		}
	}
	v.Assert(n == len(srv), "client connected to a listener that did not accept it")
	for _, s := range srv {
		r, err := s.Call(bg, "who", s.NewRequest(nil))
		v.Assert(err == nil && len(r.Data()) == 1 && r.Data()[0] == s.Meta()[0], "closing the listener hurt a client")
	}
	for _, s := range srv {
		s.Close()
	}
	gone("goroutines left after all ends and the listener were closed")
	v.Reach("closed")
}

// H_ListenFail: listening and dialling that fail.
func H_ListenFail() {
	h := newHall()
	h.deny = errors.New("address in use")
	ln, err := server.Listen("mem", "here")
	v.Assert(ln == nil && err == h.deny, "failing to listen returned another error or none")
	h.closed = true
	h.where = [2]string{"mem", "here"}
	c, err := client.NewEnd("mem", "here")
	v.Assert(c == nil && err == errRefused, "failing to dial returned another error or none")
	h.closed = false
	// nobody accepts
	wait(time.Minute, "connecting to a listener that accepts nobody did not end", async(func() { c, err = client.NewEnd("mem", "here") }))
	v.Assert(c == nil && err != nil, "client connected although nobody accepted")
	gone("goroutines left after connecting failed")
	v.Reach("failed")
}
