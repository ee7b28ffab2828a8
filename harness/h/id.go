package h

import (
	"sync"
	"time"

	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"github.com/singchia/geminio/zzverif/v"
)

func distinct(ids []uint64) bool {
	ok := true
	for i := range ids {
		for j := range ids[:i] {
			ok = v.And(ok, ids[i] != ids[j])
		}
	}
	return ok
}

func modeOK(m id.Mode, x uint64) bool {
	switch m {
	case id.Even:
		return x&1 == 0
	case id.Odd:
		return x&1 == 1
	}
	return true
}

// H_IDCounters: any random start, two users interleaved, time passing.
func H_IDCounters() {
	v.SymRand()
	m := []id.Mode{id.Even, id.Odd, id.Inc}[v.Choice("mode", 3)]
	c := id.NewIDCounter(m)
	c.ReserveID(packet.SessionID1)
	n := 2
	if v.Thorough() {
		n = 3
	}
	out := make([][]uint64, 2)
	var wg sync.WaitGroup
	v.WindowMem(true)
	for g := 0; g < 2; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				if i == 1 {
					time.Sleep(time.Duration(g) * time.Second)
				}
				var x uint64
				if g == 0 {
					x = c.GetID()
				} else {
					var err error
					x, err = c.GetIDByMeta(nil)
					v.Assert(err == nil, "GetIDByMeta failed")
				}
				out[g] = append(out[g], x)
			}
		}()
	}
	wg.Wait()
	v.Window(false)
	all := append(append([]uint64{}, out[0]...), out[1]...)
	for _, x := range all {
		v.Assert(modeOK(m, x), "identifier has the wrong parity")
		v.Assert(x != packet.SessionID1, "identifier of the default stream returned")
		v.Assert(x != 0, "null identifier returned")
	}
	v.Assert(distinct(all), "identifier returned twice")
	v.Reach("counters")
}

// H_IDSides: the two sides of a connection, whatever both random starts are.
func H_IDSides() {
	v.SymRand()
	cl, sv := id.NewIDCounter(id.Odd), id.NewIDCounter(id.Even)
	var all []uint64
	for i := 0; i < 4; i++ {
		all = append(all, cl.GetID(), sv.GetID())
		if i == 1 {
			time.Sleep(time.Second)
		}
	}
	v.Assert(distinct(all), "both sides chose the same identifier")
	pf := packet.NewPacketFactory(cl)
	a, b := pf.NewPacketID(), pf.NewPacketID()
	r1, r2 := pf.NewRequestPacket([]byte("m"), nil), pf.NewHeartbeatPacket()
	ids := []uint64{a, b, r1.ID(), r2.ID()}
	v.Assert(distinct(append(ids, all...)), "packet factory returned an identifier twice")
	for _, x := range ids {
		v.Assert(x&1 == 1, "packet factory identifier has the wrong parity")
	}
	v.Reach("sides")
}

// H_IDUnique: any sequence of allotting, reserving and releasing on a source
// that allots the smallest free identifier.
func H_IDUnique() {
	c := id.NewIDCounter(id.Unique)
	used := map[uint64]bool{}
	steps := 5
	if v.Thorough() {
		steps = 7
	}
	for i := 0; i < steps; i++ {
		switch k := v.Choice("op", 7); k {
		case 0:
			x := c.GetID()
			v.Assert(!used[x], "identifier returned while in use or reserved")
			v.Assert(x != 0, "null identifier returned")
			used[x] = true
		case 1, 2, 3:
			c.ReserveID(uint64(k))
			used[uint64(k)] = true
		default:
			c.DelID(uint64(k - 3))
			delete(used, uint64(k-3))
		}
	}
	x := c.GetID()
	v.Assert(!used[x], "identifier returned while in use or reserved")
	v.Observe("last", x)
	v.Reach("unique")
}

// H_IDUniqueConc: two users of such a source, interleaved.
func H_IDUniqueConc() {
	c := id.NewIDCounter(id.Unique)
	c.ReserveID(2)
	out := make([][]uint64, 2)
	var wg sync.WaitGroup
	v.WindowMem(true)
	for g := 0; g < 2; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2; i++ {
				x := c.GetID()
				out[g] = append(out[g], x)
			}
		}()
	}
	wg.Wait()
	v.Window(false)
	all := append(append([]uint64{}, out[0]...), out[1]...)
	for _, x := range all {
		v.Assert(x != 2, "reserved identifier returned")
	}
	v.Assert(distinct(all), "identifier returned twice")
	c.DelID(all[0])
	v.Assert(c.GetID() == all[0], "released identifier is not allotted again")
	v.Reach("unique")
}

// H_IDRelease: release and re-reserve race with allotting.
func H_IDRelease() {
	c := id.NewIDCounter(id.Unique)
	a, b := c.GetID(), c.GetID()
	var x, y uint64
	var wg sync.WaitGroup
	wg.Add(2)
	v.WindowMem(true)
	go func() {
		defer wg.Done()
		c.DelID(a)
		x = c.GetID()
	}()
	go func() {
		defer wg.Done()
		y = c.GetID()
	}()
	wg.Wait()
	v.Window(false)
	v.Assert(x != y && x != b && y != b, "identifier returned while in use")
	v.Reach("release")
}
