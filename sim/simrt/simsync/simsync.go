// Package sync is the simulator's stand-in for the standard sync package: the
// same API for the types the code under test may use, but blocking hands
// control to the simulator's scheduler instead of the runtime's. Under -race
// each operation publishes exactly the happens-before edges of the original.
package sync

import (
	real "sync"
	"unsafe"

	simrt "verifsimrt"
)

type (
	Map    = real.Map
	Locker = real.Locker
)

type Mutex struct {
	locked bool
	tag    byte
}

//go:norace
func (m *Mutex) isFree() bool { return !m.locked }

//go:norace
func (m *Mutex) Lock() {
	simrt.LockOp()
	for m.locked {
		simrt.Block("mutex", m.isFree)
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(&m.tag))
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.LockOp()
	if m.locked {
		return false
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(&m.tag))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.tag))
	m.locked = false
	if !simrt.Aborting() {
		simrt.LockOp()
	}
}

type RWMutex struct {
	w       bool
	readers int
	waiting int  // writers: as in Go, readers that come later wait for them
	wtag    byte // writers release, everyone acquires
	rtag    byte // readers release, writers acquire
}

//go:norace
func (m *RWMutex) isFree() bool { return !m.w && m.readers == 0 }

//go:norace
func (m *RWMutex) noWriter() bool { return !m.w && m.waiting == 0 }

//go:norace
func (m *RWMutex) await() {
	m.waiting++
	defer m.given()
	for !m.isFree() {
		simrt.Block("rwmutex (write)", m.isFree)
	}
}

//go:norace
func (m *RWMutex) given() { m.waiting-- }

//go:norace
func (m *RWMutex) Lock() {
	simrt.LockOp()
	if !m.isFree() {
		m.await()
	}
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(&m.wtag))
	simrt.RaceAcquire(unsafe.Pointer(&m.rtag))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.LockOp()
	if !m.isFree() {
		return false
	}
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(&m.wtag))
	simrt.RaceAcquire(unsafe.Pointer(&m.rtag))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.wtag))
	m.w = false
	if !simrt.Aborting() {
		simrt.LockOp()
	}
}

//go:norace
func (m *RWMutex) RLock() {
	simrt.LockOp()
	for !m.noWriter() {
		simrt.Block("rwmutex (read)", m.noWriter)
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.wtag))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.LockOp()
	if !m.noWriter() {
		return false
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.wtag))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.rtag))
	m.readers--
	if !simrt.Aborting() {
		simrt.LockOp()
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done bool
	m    Mutex
	tag  byte
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() {
	simrt.RaceRelease(unsafe.Pointer(&o.tag))
	o.done = true
}

func (o *Once) Do(f func()) {
	simrt.LockOp()
	if o.isDone() {
		simrt.RaceAcquire(unsafe.Pointer(&o.tag))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var valid bool
	var p any
	return func() {
		o.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

type WaitGroup struct {
	n   int
	tag byte
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		simrt.RaceRelease(unsafe.Pointer(&w.tag))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if !simrt.Aborting() {
		simrt.LockOp()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) isZero() bool { return w.n == 0 }

//go:norace
func (w *WaitGroup) Wait() {
	simrt.LockOp()
	for w.n != 0 {
		simrt.Block("waitgroup", w.isZero)
	}
	simrt.RaceAcquire(unsafe.Pointer(&w.tag))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L   Locker
	gen int
	sig int
	wtg int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) ready(g int) func() bool {
	return func() bool { return c.gen != g || c.sig > 0 }
}

//go:norace
func (c *Cond) Wait() {
	g := c.gen
	c.wtg++
	c.L.Unlock()
	simrt.Block("cond", c.ready(g))
	c.wtg--
	if c.gen == g && c.sig > 0 {
		c.sig--
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if c.sig < c.wtg {
		c.sig++
	}
	simrt.LockOp()
}

//go:norace
func (c *Cond) Broadcast() {
	c.gen++
	c.sig = 0
	simrt.LockOp()
}

// Pool is deterministic: a LIFO, the most contended behaviour of the original.
type Pool struct {
	New   func() any
	items []any
	tag   byte
}

//go:norace
func (p *Pool) Get() any {
	simrt.LockOp()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		simrt.RaceAcquire(unsafe.Pointer(&p.tag))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.RaceRelease(unsafe.Pointer(&p.tag))
	p.items = append(p.items, x)
	if !simrt.Aborting() {
		simrt.LockOp()
	}
}
