package h

import (
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"github.com/singchia/geminio/zzverif/v"
)

// delegates: streams opened by both sides, that end with their connection or
// before it, in every way.
func delegates(wide bool) {
	cd, sd := &rec{}, &rec{}
	co, so := client.NewEndOptions(), server.NewEndOptions()
	co.SetDelegate(cd)
	so.SetDelegate(sd)
	cm := v.Bytes("client meta", 1)
	co.SetMeta(cm)
	e := meet(newWire(), co, so)
	e.cd, e.sd = cd, sd
	v.Assert(e.cErr == nil && e.sErr == nil, "ends not connected")
	v.Assume(e.cErr == nil && e.sErr == nil)
	sm := v.Bytes("stream meta", 1)
	open := map[uint64]bool{}
	opens := func(from geminio.End) (geminio.Stream, error) {
		o := options.OpenStream()
		o.SetMeta(sm)
		s, err := from.OpenStream(o)
		if err == nil {
			open[s.StreamID()] = true
		}
		return s, err
	}
	// two streams stay, two are closed before the connection ends
	n := 2
	if wide {
		n = 4
	}
	var near []geminio.Stream
	for i := 0; i < n; i++ {
		from, to := e.sides(i % 2)
		s, err := opens(from)
		v.Assert(err == nil, "stream not opened")
		v.Assume(err == nil)
		far, err := to.AcceptStream()
		v.Assume(err == nil)
		near = append(near, s)
		if i >= 2 {
			if i == 2 {
				s.Close()
			} else {
				far.Close()
			}
		}
	}
	time.Sleep(time.Second)
	// one is opened and one closed when it ends
	busy := v.Choice("busy", 4)
	side := v.Choice("side", 2)
	a, _ := e.sides(side)
	how := v.Choice("how", 5)
	v.Window(true)
	var ds []<-chan struct{}
	if busy&1 != 0 {
		ds = append(ds, async(func() { opens(a) }))
	}
	if busy&2 != 0 {
		k := 0
		if wide {
			k = v.Choice("which", 2)
		}
		ds = append(ds, async(func() { near[k].Close() }))
	}
	switch how {
	case 0:
		ds = append(ds, async(func() { e.c.Close() }))
	case 1:
		ds = append(ds, async(func() { e.s.Close() }))
	case 2:
		ds = append(ds, async(func() { e.c.Close() }), async(func() { e.s.Close() }))
	case 3:
		e.w.sever()
	case 4:
		// the transport fails in the middle of a packet
		d := e.w.a.out
		if side == 1 {
			d = e.w.b.out
		}
		d.mu.Lock()
		d.cut = 5
		d.mu.Unlock()
		a.Write([]byte("x"))
	}
	for _, d := range ds {
		wait(time.Minute, "operation on a closed end did not return", d)
	}
	time.Sleep(time.Second)
	v.Window(false)
	for _, r := range []*rec{cd, sd} {
		v.Assert(r.count("offline") == 1, "delegate not told of the end of the connection")
	}
	e.quit()
	counted(e, -1)
	for _, r := range []*rec{cd, sd} {
		for _, ev := range r.log {
			switch ev.what {
			case "online", "offline":
				v.Assert(v.Eq(ev.meta, cm), "delegate told of other metadata")
			case "dlgonline", "dlgoffline":
				v.Assert(v.Eq(ev.meta, sm), "delegate told of other metadata")
			}
		}
		for id := range open {
			on := 0
			for _, ev := range r.log {
				if ev.what == "dlgonline" && ev.dlg == id {
					on++
				}
			}
			v.Assert(on == 1, "delegate not told of exactly the opened streams")
		}
	}
	v.Reach("ended")
}

// H_Delegates: every way.
func H_Delegates() { delegates(true) }

// H_DelegatesRace: under every schedule.
func H_DelegatesRace() { delegates(false) }
