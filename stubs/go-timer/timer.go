// Package timer stands in for github.com/singchia/go-timer/v2 v2.2.1: the same
// API and the same observable behaviour at its boundary (handlers run on their
// own goroutine; Cancel fails once fired; Close force-fires waiting ticks with
// ErrTimerForceClosed; Add after Close reports ErrTimerNotStarted to the
// caller; a duration that rounds to zero intervals crashes), built on
// time.AfterFunc instead of a 10 ms polling loop so that virtual time can jump.
package timer

import (
	"errors"
	"sync"
	"sync/atomic"
	"time"
)

var (
	ErrDurationOutOfRange   = errors.New("duration out of range")
	ErrTimerNotStarted      = errors.New("timer not started")
	ErrTimerForceClosed     = errors.New("timer force closed")
	ErrOperationForceClosed = errors.New("operation force closed")
	ErrDelayOnCyclically    = errors.New("cannot delay on cyclically tick")
	ErrCancelOnNonWait      = errors.New("cannot cancel on firing or fired tick")
)

const interval = 10 * time.Millisecond

type TimerOption func(*timerOption)

type timerOption struct {
	interval            time.Duration
	operationBufferSize int
}

func WithTimeInterval(interval time.Duration) TimerOption {
	return func(to *timerOption) { to.interval = interval }
}

func WithOperationBufferSize(n int) TimerOption {
	return func(to *timerOption) { to.operationBufferSize = n }
}

type TickOption func(*tickOption)

type tickOption struct {
	data       interface{}
	ch         chan *Event
	chOutside  bool
	handler    func(*Event)
	cyclically bool
}

func WithData(data interface{}) TickOption {
	return func(to *tickOption) { to.data = data }
}

func WithCyclically() TickOption {
	return func(to *tickOption) { to.cyclically = true }
}

func WithChan(C chan *Event) TickOption {
	return func(to *tickOption) {
		to.ch = C
		to.chOutside = true
	}
}

func WithHandler(handler func(*Event)) TickOption {
	return func(to *tickOption) { to.handler = handler }
}

type Timer interface {
	Add(d time.Duration, opts ...TickOption) Tick
	Close()
	Pause()
	Moveon()
}

type Tick interface {
	Reset(data interface{}) error
	Cancel() error
	Delay(d time.Duration) error
	C() <-chan *Event
	InsertTime() time.Time
	Duration() time.Duration
	Fired() int64
}

type Event struct {
	Duration   time.Duration
	InsertTIme time.Time
	Data       interface{}
	Error      error
}

const (
	stWait = iota
	stFire
	stCanceled
)

type tick struct {
	tickOption
	tw       *wheel
	duration time.Duration
	insert   time.Time
	fired    int64
	status   int
	t        *time.Timer
}

type wheel struct {
	mu     sync.Mutex
	closed bool
	ticks  []*tick
}

func NewTimer(opts ...TimerOption) Timer { return &wheel{} }

func (w *wheel) drop(t *tick) {
	for i, x := range w.ticks {
		if x == t {
			w.ticks = append(w.ticks[:i], w.ticks[i+1:]...)
			return
		}
	}
}

func round(d time.Duration) time.Duration {
	return (d + interval - 1) / interval * interval
}

func (w *wheel) Add(d time.Duration, opts ...TickOption) Tick {
	t := &tick{tw: w, duration: d, insert: time.Now()}
	for _, o := range opts {
		o(&t.tickOption)
	}
	if t.ch == nil && t.handler == nil {
		t.ch = make(chan *Event, 1)
	}
	w.mu.Lock()
	if w.closed {
		w.mu.Unlock()
		t.fail(ErrTimerNotStarted)
		return t
	}
	if (d+interval-1)/interval == 0 {
		w.mu.Unlock()
		panic("runtime error: index out of range [-1] (go-timer: duration rounds to zero intervals)")
	}
	if d < 0 {
		// never fires: the real wheel places it out of range
		w.mu.Unlock()
		return t
	}
	w.ticks = append(w.ticks, t)
	t.t = time.AfterFunc(round(d), t.fire)
	w.mu.Unlock()
	return t
}

func (t *tick) fire() {
	w := t.tw
	w.mu.Lock()
	if w.closed || t.status != stWait {
		w.mu.Unlock()
		return
	}
	if t.cyclically {
		t.t = time.AfterFunc(round(t.duration), t.fire)
	} else {
		t.status = stFire
		w.drop(t)
	}
	w.mu.Unlock()
	atomic.AddInt64(&t.fired, 1)
	e := &Event{Duration: t.duration, InsertTIme: t.insert, Data: t.data}
	if t.ch == nil {
		t.handler(e)
	} else {
		t.ch <- e
	}
}

func (t *tick) fail(err error) {
	e := &Event{Duration: t.duration, InsertTIme: t.insert, Data: t.data, Error: err}
	if t.ch == nil {
		t.handler(e)
	} else {
		t.ch <- e
		if !t.chOutside {
			close(t.ch)
		}
	}
}

func (w *wheel) Close() {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.closed {
		return
	}
	w.closed = true
	for _, t := range w.ticks {
		t.status = stFire
		t.t.Stop()
		go t.fail(ErrTimerForceClosed)
	}
	w.ticks = nil
}

func (w *wheel) Pause()  {}
func (w *wheel) Moveon() {}

func (t *tick) waiting() error {
	if t.tw.closed {
		return ErrTimerNotStarted
	}
	if t.status != stWait {
		return ErrCancelOnNonWait
	}
	return nil
}

func (t *tick) Cancel() error {
	t.tw.mu.Lock()
	defer t.tw.mu.Unlock()
	if err := t.waiting(); err != nil {
		return err
	}
	t.status = stCanceled
	if t.t != nil {
		t.t.Stop()
	}
	t.tw.drop(t)
	return nil
}

func (t *tick) Delay(d time.Duration) error {
	if t.cyclically {
		return ErrDelayOnCyclically
	}
	t.tw.mu.Lock()
	defer t.tw.mu.Unlock()
	if err := t.waiting(); err != nil {
		return err
	}
	t.t.Stop()
	t.t = time.AfterFunc(round(d), t.fire)
	return nil
}

func (t *tick) Reset(data interface{}) error {
	t.tw.mu.Lock()
	defer t.tw.mu.Unlock()
	if err := t.waiting(); err != nil {
		return err
	}
	t.data = data
	return nil
}

func (t *tick) C() <-chan *Event        { return t.ch }
func (t *tick) InsertTime() time.Time   { return t.insert }
func (t *tick) Duration() time.Duration { return t.duration }
func (t *tick) Fired() int64            { return atomic.LoadInt64(&t.fired) }
