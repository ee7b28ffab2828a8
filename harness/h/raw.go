package h

import (
	"errors"
	"io"
	"os"
	"sync"
	"time"

	"github.com/singchia/geminio/zzverif/v"
)

// rawBytes: writes of any sizes read with buffers of any sizes.
func rawBytes(wide bool) {
	e := joined()
	a, b := e.sides(v.Choice("from", 2))
	kind := 1
	if wide {
		kind = v.Choice("stream", 3)
	}
	near, far := streams(a, b, kind)
	var all []byte
	var chunks [][]byte
	n := 2
	if v.Thorough() && wide {
		n = 3
	}
	for i := 0; i < n; i++ {
		c := v.Bytes("chunk", v.Choice("size", 4))
		chunks = append(chunks, c)
		all = append(all, c...)
	}
	var bufs []int
	for i := 0; i < 3; i++ {
		bufs = append(bufs, v.Choice("buf", 4))
	}
	if !wide {
		v.Assume(bufs[1] == bufs[0] && bufs[2] == bufs[0] && len(chunks[0]) > 1)
	}
	closes := v.Choice("closes", 2) == 1
	v.Window(!wide)
	d := async(func() {
		for _, c := range chunks {
			w := append([]byte{}, c...)
			k, err := near.Write(w)
			v.Assert(err == nil && k == len(c), "write failed or was short on an open stream")
			v.Assert(v.Eq(w, c), "write changed the caller's buffer")
			for i := range w {
				w[i] ^= 0xff // the buffer is the caller's again
			}
		}
		if closes {
			near.Close()
		}
	})
	var got []byte
	for i := 0; len(got) < len(all); i++ {
		if i > 20 {
			v.Assert(false, "reads make no progress")
			break
		}
		size := bufs[2]
		if i < 3 {
			size = bufs[i]
		} else if size == 0 {
			size = 1
		}
		buf := make([]byte, size+2)
		for j := range buf {
			buf[j] = 0xa5
		}
		var k int
		var err error
		r := async(func() { k, err = far.Read(buf[:size]) })
		if size == 0 {
			// may wait for data, but never stores or loses any
			wait(time.Minute, "read of nothing did not return", r)
		} else {
			wait(time.Minute, "read did not return although bytes were written", r)
		}
		if err != nil {
			v.Assert(false, "read failed on an open stream or before its end")
			break
		}
		v.Assert(k <= size, "read reports more than it stored")
		if k > size {
			break
		}
		for j := k; j < len(buf); j++ {
			v.Assert(buf[j] == 0xa5, "read stored beyond what it reports")
		}
		got = append(got, buf[:k]...)
		v.Assert(len(got) <= len(all), "bytes read that were not written")
		if len(got) > len(all) {
			break
		}
		v.Assert(v.Eq(got, all[:len(got)]), "bytes read altered, lost or out of order")
	}
	wait(time.Minute, "write did not return", d)
	v.Window(false)
	if closes {
		for i := 0; i < 6; i++ {
			var k int
			var err error
			buf := make([]byte, 1)
			within(time.Minute, "read after the end did not return", func() { k, err = far.Read(buf) })
			if k == 0 && err == nil {
				continue // an empty write
			}
			v.Assert(k == 0 && err == io.EOF, "end of the stream not reported after its last byte")
			if err != nil {
				v.Reach("end")
				break
			}
		}
	} else {
		far.SetReadDeadline(time.Now().Add(50 * time.Millisecond))
		for i := 0; i < 6; i++ {
			buf := make([]byte, 1)
			k, err := far.Read(buf)
			v.Assert(k == 0, "bytes read that were not written")
			if err != nil {
				break
			}
		}
	}
	v.Reach("read")
}

// H_Raw: any chunking and any read buffers.
func H_Raw() { rawBytes(true) }

// H_RawRace: the same under every schedule.
func H_RawRace() { rawBytes(false) }

// H_RawReaders: concurrent writers and readers of one stream.
func H_RawReaders() {
	e := joined()
	near, far := streams(e.c, e.s, 1)
	x, y := v.Bytes("x", 2), v.Bytes("y", 2)
	v.Assume(x[0] != y[0])
	buf := 1 + v.Choice("buf", 3)
	v.WindowMem(true)
	w1 := async(func() { near.Write(x) })
	w2 := async(func() { near.Write(y) })
	var mu sync.Mutex
	got := map[byte]int{}
	total := 0
	var ds []<-chan struct{}
	for i := 0; i < 2; i++ {
		ds = append(ds, async(func() {
			for {
				mu.Lock()
				left := 4 - total
				mu.Unlock()
				if left <= 0 {
					return
				}
				b := make([]byte, buf)
				k, err := far.Read(b)
				if err != nil {
					return
				}
				mu.Lock()
				total += k
				for _, c := range b[:k] {
					for j, d := range []byte{x[0], x[1], y[0], y[1]} {
						if c == d {
							got[byte(j)]++
							break
						}
					}
				}
				mu.Unlock()
			}
		}))
	}
	wait(time.Minute, "write did not return", w1)
	wait(time.Minute, "write did not return", w2)
	time.Sleep(time.Second)
	v.Window(false)
	v.Assert(total == 4, "concurrent reads lost or repeated bytes")
	near.Close()
	for _, d := range ds {
		wait(time.Minute, "read did not return after the close", d)
	}
	n := 0
	for _, k := range got {
		n += k
	}
	v.Assert(n == 4, "concurrent reads altered bytes")
	v.Reach("readers")
}

// H_RawMany: more data than any queue holds, a slow reader.
func H_RawMany() {
	e := joined()
	a, b := e.sides(v.Choice("from", 2))
	near, far := streams(a, b, v.Choice("stream", 2))
	x := v.Bytes("x", 1)
	n := 150
	if v.Thorough() {
		n = 600
	}
	closes := v.Choice("closes", 2) == 1
	d := async(func() {
		for i := 0; i < n; i++ {
			k, err := near.Write([]byte{byte(i), x[0]})
			if k != 2 || err != nil {
				v.Assert(false, "write failed or was short on an open stream")
				return
			}
		}
		if closes {
			near.Close()
		}
	})
	if v.Choice("late", 2) == 1 {
		time.Sleep(time.Second)
	}
	buf := make([]byte, 7)
	for i := 0; i < 2*n; {
		k, err := far.Read(buf)
		if err != nil {
			v.Assert(false, "read failed on an open stream or before its end")
			return
		}
		for _, c := range buf[:k] {
			if i%2 == 0 {
				v.Assert(c == byte(i/2), "bytes read altered, lost or out of order")
			} else {
				v.Assert(c == x[0], "bytes read altered, lost or out of order")
			}
			i++
		}
	}
	wait(time.Minute, "write did not return", d)
	if closes {
		_, err := far.Read(buf)
		v.Assert(err == io.EOF, "end of the stream not reported after its last byte")
	}
	v.Reach("many")
}

// H_RawEcho: one side writes back what it reads, as it comes; more is under way
// than all buffers hold.
func H_RawEcho() {
	e := joined()
	a, b := e.sides(v.Choice("from", 2))
	near, far := streams(a, b, v.Choice("stream", 2))
	x := v.Bytes("x", 1)
	n := 500
	if v.Thorough() {
		n = 1500
	}
	go func() {
		buf := make([]byte, 2)
		for {
			k, err := far.Read(buf)
			if err != nil {
				return
			}
			if m, err := far.Write(buf[:k]); err != nil || m != k {
				v.Assert(false, "write failed or was short on an open stream")
				return
			}
		}
	}()
	d := async(func() {
		for i := 0; i < n; i++ {
			if k, err := near.Write([]byte{byte(i) ^ x[0]}); k != 1 || err != nil {
				v.Assert(false, "write failed or was short on an open stream")
				return
			}
		}
	})
	if v.Choice("late", 2) == 1 {
		time.Sleep(time.Second)
	}
	r := async(func() {
		buf := make([]byte, 3)
		for i := 0; i < n; {
			k, err := near.Read(buf)
			if err != nil {
				v.Assert(false, "read failed on an open stream or before its end")
				return
			}
			for _, c := range buf[:k] {
				v.Assert(c == byte(i)^x[0], "bytes read altered, lost or out of order")
				i++
			}
		}
	})
	if !wait(time.Minute, "bytes written back did not arrive", r) {
		return
	}
	wait(time.Minute, "write did not return", d)
	v.Reach("echoed")
}

func isDeadline(err error) bool {
	return errors.Is(err, os.ErrDeadlineExceeded) && isTimeout(err)
}

// deadlines of reads, set, moved and cleared at any time.
func readDeadline(wide bool) {
	e := joined()
	a, b := e.sides(v.Choice("side", 2))
	kind := 1
	if wide {
		kind = v.Choice("stream", 2)
	}
	far, near := streams(a, b, kind)
	// near reads, far writes
	set := func(t time.Time) {
		if v.Choice("both", 2) == 1 {
			near.SetDeadline(t)
		} else {
			near.SetReadDeadline(t)
		}
	}
	const T = 200 * time.Millisecond
	start := time.Now()
	at := func(d time.Duration) time.Time { return start.Add(d) }
	x := v.Bytes("x", 2)
	// what happens to the deadline
	plan := v.Choice("plan", 7)
	// when data comes: never, before, at, after the first deadline, at once
	data := v.Choice("data", 5)
	if data == 4 {
		far.Write(x)
		time.Sleep(time.Millisecond)
		start = time.Now()
	}
	v.Window(!wide)
	limit := T // the effective deadline, 0 for none
	switch plan {
	case 0: // set before the read
		set(at(T))
	case 1: // while it waits
		go func() {
			time.Sleep(50 * time.Millisecond)
			set(at(T))
		}()
	case 2: // moved later
		set(at(T))
		limit = 2 * T
		go func() {
			time.Sleep(50 * time.Millisecond)
			set(at(2 * T))
		}()
	case 3: // moved earlier
		set(at(2 * T))
		go func() {
			time.Sleep(50 * time.Millisecond)
			set(at(T))
		}()
	case 4: // cleared
		set(at(T))
		limit = 0
		go func() {
			time.Sleep(50 * time.Millisecond)
			set(time.Time{})
		}()
	case 5: // in the past already
		set(at(-T))
		limit = -1
	case 6: // set to the past while it waits
		go func() {
			time.Sleep(T)
			set(at(-T))
		}()
	}
	var comes time.Duration
	switch data {
	case 1:
		comes = T / 2
	case 2:
		comes = T
	case 3:
		comes = 3 * T
	}
	if data > 0 && data < 4 {
		go func() {
			time.Sleep(comes)
			far.Write(x)
		}()
	}
	buf := make([]byte, 1)
	var k int
	var err error
	var took time.Duration
	r := async(func() {
		k, err = near.Read(buf)
		took = time.Since(start)
	})
	const slack = 40 * time.Millisecond
	if limit == 0 && data == 0 {
		time.Sleep(5 * T)
		select {
		case <-r:
			v.Assert(false, "read returned without data or deadline")
		default:
		}
		far.Write(x)
		comes = 5 * T
		data = 3
	}
	wait(time.Minute, "read did not return at its deadline or data", r)
	if err != nil {
		v.Assert(limit != 0, "read timed out although its deadline was cleared")
		v.Assert(isDeadline(err), "read past its deadline returned another error")
		v.Assert(took >= limit, "read timed out before its deadline")
		if limit < 0 {
			v.Assert(took <= slack, "read past its deadline waited")
		} else {
			v.Assert(took <= limit+slack, "read outlasted its deadline")
		}
		v.Assert(data == 0 || comes >= limit-slack, "read timed out although data had come before")
		v.Reach("timed out")
	} else {
		v.Assert(k == 1 && buf[0] == x[0], "read returned other bytes than written")
		v.Assert(limit == 0 || comes <= limit+slack, "read outlasted its deadline")
		v.Assert(took <= comes+slack, "read waited although there was data")
		v.Reach("read")
	}
	v.Window(false)
	// the other direction is not affected by the read deadline alone, and
	// after the deadline is cleared nothing is lost
	time.Sleep(4 * T)
	near.SetDeadline(time.Time{})
	got := append([]byte{}, buf[:k]...)
	if data == 0 {
		far.Write(x)
	}
	for len(got) < 2 {
		within(time.Minute, "read after its deadline was cleared did not return", func() { k, err = near.Read(buf) })
		v.Assert(err == nil, "read failed after its deadline was cleared")
		if err != nil {
			return
		}
		got = append(got, buf[:k]...)
	}
	v.Assert(v.Eq(got, x), "a deadline lost or altered data")
	v.Reach("again")
}

// H_DeadlineMoved: a deadline moved or cleared at the moment it passes, while
// a read waits: what it was before no longer counts afterwards.
func H_DeadlineMoved() {
	e := joined()
	a, b := e.sides(v.Choice("reader", 2))
	near, far := streams(a, b, v.Choice("stream", 2))
	if near == nil || far == nil {
		return
	}
	const T = 200 * time.Millisecond
	set := near.SetReadDeadline
	if v.Choice("both", 2) == 1 {
		set = near.SetDeadline
	}
	start := time.Now()
	v.Assert(set(start.Add(T)) == nil, "setting a deadline failed")
	buf := make([]byte, 1)
	var err error
	var took time.Duration
	r := async(func() {
		_, err = near.Read(buf)
		took = time.Since(start)
	})
	time.Sleep(T - time.Millisecond)
	v.Window(true)
	time.Sleep(time.Millisecond)
	clear := v.Choice("clear", 2) == 1
	if clear {
		set(time.Time{})
	} else {
		set(start.Add(2 * T))
	}
	time.Sleep(time.Millisecond)
	v.Window(false)
	const slack = 40 * time.Millisecond
	over := false
	select {
	case <-r:
		// it had timed out before
		over = true
		v.Assert(isDeadline(err) && took >= T && took <= T+slack, "read failed other than at its deadline")
	default:
	}
	for n := 0; n < 2; n++ {
		if over {
			r = async(func() {
				_, err = near.Read(buf)
				took = time.Since(start)
			})
		}
		if clear || n == 1 {
			time.Sleep(T)
			select {
			case <-r:
				v.Assert(false, "read returned without data or deadline")
				return
			default:
			}
			far.Write([]byte{7})
			wait(time.Minute, "read did not return although there was data", r)
			v.Assert(err == nil && buf[0] == 7, "read after its deadline was moved failed")
		} else {
			wait(time.Minute, "read outlasted its deadline", r)
			v.Assert(isDeadline(err) && took >= 2*T && took <= 2*T+slack, "read did not time out at the deadline it was moved to")
			set(time.Time{})
		}
		over = true
	}
	v.Reach("moved")
}

// H_ReadDeadline: deadlines of a read.
func H_ReadDeadline() { readDeadline(true) }

// H_ReadDeadlineRace: the same under every schedule.
func H_ReadDeadlineRace() { readDeadline(false) }

// H_DeadlineSides: a read deadline does not affect writes nor other streams, a
// write deadline not reads, and a passed deadline can be renewed.
func H_DeadlineSides() {
	e := joined()
	near, far := streams(e.c, e.s, v.Choice("stream", 2))
	if v.Choice("side", 2) == 1 {
		near, far = far, near
	}
	on2, of2 := open(e.c, e.s)
	x := v.Bytes("x", 1)
	const T = 100 * time.Millisecond
	past := v.Choice("past", 2) == 1
	when := time.Now().Add(T)
	if past {
		when = time.Now().Add(-T)
	}
	v.Window(true)
	if v.Choice("which", 2) == 0 {
		near.SetReadDeadline(when)
		time.Sleep(2 * T)
		// writes go on
		k, err := near.Write(x)
		v.Assert(k == 1 && err == nil, "read deadline failed a write")
		buf := make([]byte, 1)
		k, err = far.Read(buf)
		v.Assert(err == nil && k == 1 && buf[0] == x[0], "read returned other bytes than written")
		// reads do not
		start := time.Now()
		_, err = near.Read(buf)
		v.Assert(isDeadline(err), "read past its deadline returned another error")
		v.Assert(time.Since(start) < 10*time.Millisecond, "read past its deadline waited")
	} else {
		near.SetWriteDeadline(when)
		time.Sleep(2 * T)
		r := async(func() {
			buf := make([]byte, 1)
			k, err := near.Read(buf)
			v.Assert(k == 1 && err == nil && buf[0] == x[0], "write deadline failed a read")
		})
		far.Write(x)
		wait(time.Minute, "read did not return although bytes were written", r)
		start := time.Now()
		_, err := near.Write(x)
		v.Assert(err == nil || isDeadline(err), "write past its deadline returned another error")
		v.Assert(time.Since(start) < 10*time.Millisecond, "write past its deadline waited")
		if err == nil {
			far.Read(make([]byte, 1))
		}
	}
	// another stream
	r := async(func() {
		buf := make([]byte, 1)
		k, err := of2.Read(buf)
		v.Assert(k == 1 && err == nil && buf[0] == x[0], "deadline affected another stream")
	})
	on2.Write(x)
	wait(time.Minute, "read did not return although bytes were written", r)
	// renewed
	near.SetDeadline(time.Now().Add(T))
	r = async(func() {
		buf := make([]byte, 1)
		k, err := near.Read(buf)
		v.Assert(k == 1 && err == nil && buf[0] == x[0], "read failed although its deadline was renewed")
	})
	far.Write(x)
	wait(time.Minute, "read did not return although bytes were written", r)
	k, err := near.Write(x)
	v.Assert(k == 1 && err == nil, "write failed although its deadline was renewed")
	far.Read(make([]byte, 1))
	_, err = near.Read(make([]byte, 1))
	v.Assert(isDeadline(err), "read past its renewed deadline returned another error")
	v.Window(false)
	e.quit()
	v.Reach("sides")
}

// H_WriteDeadline: writes with nothing taking them end at their deadline.
func H_WriteDeadline() {
	e := joined()
	near, far := streams(e.c, e.s, v.Choice("stream", 2))
	side := v.Choice("side", 2)
	x := e.w.a
	if side == 1 {
		near, far = far, near
		x = e.w.b
	}
	x.out.stalled = true
	const T = 200 * time.Millisecond
	plan := v.Choice("plan", 6)
	n := 0
	start := time.Now()
	set := near.SetWriteDeadline
	if v.Choice("both", 2) == 1 {
		set = near.SetDeadline
	}
	limit := T
	switch plan {
	case 0:
		set(start.Add(T))
	case 1:
		go func() {
			time.Sleep(T / 2)
			set(start.Add(T))
		}()
	case 2:
		set(start.Add(T))
		limit = 2 * T
		go func() {
			time.Sleep(T / 2)
			set(start.Add(2 * T))
		}()
	case 3:
		set(start.Add(2 * T))
		go func() {
			time.Sleep(T / 2)
			set(start.Add(T))
		}()
	case 4:
		go func() {
			time.Sleep(T)
			set(start)
		}()
	case 5:
		set(start.Add(T))
	}
	var err error
	var took time.Duration
	full := 2000
	d := async(func() {
		for err == nil && n < full {
			_, err = near.Write([]byte{byte(n)})
			if err == nil {
				n++
			}
		}
		took = time.Since(start)
	})
	time.Sleep(T / 4)
	v.Window(true)
	if plan == 5 {
		// taken back in time
		clear := near.SetWriteDeadline
		if v.Choice("clear", 2) == 1 {
			clear = near.SetDeadline
		}
		clear(time.Time{})
		time.Sleep(4 * T)
		v.Assert(!isDone(d), "write ended although its deadline was taken back")
		full = n
		x.out.unstall()
		wait(time.Minute, "write did not return although there is room again", d)
		v.Assert(err == nil, "write failed although its deadline was taken back")
	} else {
		wait(time.Minute, "write did not end at its deadline", d)
		v.Assert(isDeadline(err), "write past its deadline returned another error")
		v.Assert(took >= limit, "write timed out before its deadline")
		v.Assert(took <= limit+40*time.Millisecond, "write outlasted its deadline")
		v.Window(false)
		_, err = near.Write([]byte{1})
		v.Assert(isDeadline(err), "write past its deadline returned another error")
		x.out.unstall()
		// renewed or taken back
		t := time.Time{}
		if v.Choice("later", 2) == 1 {
			t = time.Now().Add(time.Second)
		}
		set(t)
	}
	v.Window(false)
	// everything written is there, and nothing else
	k, err := near.Write([]byte{255})
	v.Assert(k == 1 && err == nil, "write failed although its deadline was renewed")
	d = async(func() {
		buf := make([]byte, 1)
		for i := 0; i < n; i++ {
			_, err := far.Read(buf)
			v.Assert(err == nil && buf[0] == byte(i), "bytes written in time did not arrive, or others did")
		}
		_, err := far.Read(buf)
		v.Assert(err == nil && buf[0] == 255, "bytes of a write that timed out arrived")
	})
	wait(time.Minute, "bytes written did not arrive", d)
	_ = far
	e.w.sever()
	gone("goroutines left after the transport was lost")
	v.Reach("write deadline")
}
