// Package vsync replaces package sync in instrumented builds: the same types,
// with mutexes that block on channels so that testing/synctest's virtual time
// can pass while a goroutine waits for one.
package vsync

import "sync"

type (
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Once      = sync.Once
	Pool      = sync.Pool
	Locker    = sync.Locker
)

// Cond waits on channels, so that the engine and virtual time see the wait.
type Cond struct {
	L  Locker
	mu Mutex
	q  []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.mu.Lock()
	c.q = append(c.q, ch)
	c.mu.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.mu.Lock()
	if len(c.q) > 0 {
		close(c.q[0])
		c.q = c.q[1:]
	}
	c.mu.Unlock()
}

func (c *Cond) Broadcast() {
	c.mu.Lock()
	for _, ch := range c.q {
		close(ch)
	}
	c.q = nil
	c.mu.Unlock()
}

func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

type wait struct {
	ch     chan struct{}
	writer bool
}

type core struct {
	mu      sync.Mutex
	locked  bool
	readers int
	q       []wait
}

func (c *core) lock() {
	c.mu.Lock()
	if !c.locked && c.readers == 0 && len(c.q) == 0 {
		c.locked = true
		c.mu.Unlock()
		return
	}
	w := wait{make(chan struct{}), true}
	c.q = append(c.q, w)
	c.mu.Unlock()
	<-w.ch
}

func (c *core) tryLock() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.locked || c.readers > 0 {
		return false
	}
	c.locked = true
	return true
}

func (c *core) grant() {
	for len(c.q) > 0 {
		h := c.q[0]
		if h.writer {
			if c.locked || c.readers > 0 {
				return
			}
			c.locked = true
		} else {
			if c.locked {
				return
			}
			c.readers++
		}
		c.q = c.q[1:]
		close(h.ch)
	}
}

func (c *core) unlock() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	c.locked = false
	c.grant()
}

func (c *core) rlock() {
	c.mu.Lock()
	if !c.locked && len(c.q) == 0 {
		c.readers++
		c.mu.Unlock()
		return
	}
	w := wait{make(chan struct{}), false}
	c.q = append(c.q, w)
	c.mu.Unlock()
	<-w.ch
}

func (c *core) tryRLock() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.locked || len(c.q) > 0 {
		return false
	}
	c.readers++
	return true
}

func (c *core) runlock() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	c.readers--
	c.grant()
}

type Mutex struct{ c core }

func (m *Mutex) Lock()         { m.c.lock() }
func (m *Mutex) TryLock() bool { return m.c.tryLock() }
func (m *Mutex) Unlock()       { m.c.unlock() }

type RWMutex struct{ c core }

func (m *RWMutex) Lock()          { m.c.lock() }
func (m *RWMutex) TryLock() bool  { return m.c.tryLock() }
func (m *RWMutex) Unlock()        { m.c.unlock() }
func (m *RWMutex) RLock()         { m.c.rlock() }
func (m *RWMutex) TryRLock() bool { return m.c.tryRLock() }
func (m *RWMutex) RUnlock()       { m.c.runlock() }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }
