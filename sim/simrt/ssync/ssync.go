// Package ssync replaces package sync in simulated builds: the same interface,
// with blocking and object reuse decided by the simulator.
package ssync

import (
	"sync"

	"zkverif/simrt"
)

type Locker = sync.Locker

// fresh forgets the state of an object that an earlier process left behind: a
// crash ends the process with everything in its memory.
func fresh(epoch *int64, reset func()) {
	guard.Lock()
	defer guard.Unlock()
	if e := simrt.Process(); *epoch != e {
		if *epoch != 0 {
			reset()
		}
		*epoch = e
	}
}

var guard sync.Mutex

type Mutex struct {
	epoch int64
	lock  *sync.Mutex
	held  bool
}

func (m *Mutex) real() *sync.Mutex {
	m.fresh()
	guard.Lock()
	defer guard.Unlock()
	if m.lock == nil {
		m.lock = new(sync.Mutex)
	}
	return m.lock
}

func (m *Mutex) fresh() { fresh(&m.epoch, func() { m.lock, m.held = nil, false }) }

func (m *Mutex) Lock() {
	if !simrt.Active() {
		m.real().Lock()
		return
	}
	m.fresh()
	simrt.Yield()
	simrt.Block(func() bool { return !m.held })
	m.held = true
	simrt.Hold(1)
}

func (m *Mutex) TryLock() bool {
	if !simrt.Active() {
		return m.real().TryLock()
	}
	m.fresh()
	simrt.Yield()
	if m.held {
		return false
	}
	m.held = true
	simrt.Hold(1)
	return true
}

func (m *Mutex) Unlock() {
	if !simrt.Active() {
		m.real().Unlock()
		return
	}
	m.fresh()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	simrt.Hold(-1)
}

type RWMutex struct {
	epoch   int64
	lock    *sync.RWMutex
	writer  bool
	readers int
}

func (m *RWMutex) real() *sync.RWMutex {
	m.fresh()
	guard.Lock()
	defer guard.Unlock()
	if m.lock == nil {
		m.lock = new(sync.RWMutex)
	}
	return m.lock
}

func (m *RWMutex) fresh() {
	fresh(&m.epoch, func() { m.lock, m.writer, m.readers = nil, false, 0 })
}

func (m *RWMutex) Lock() {
	if !simrt.Active() {
		m.real().Lock()
		return
	}
	m.fresh()
	simrt.Yield()
	simrt.Block(func() bool { return !m.writer && m.readers == 0 })
	m.writer = true
	simrt.Hold(1)
}

func (m *RWMutex) Unlock() {
	if !simrt.Active() {
		m.real().Unlock()
		return
	}
	m.fresh()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	simrt.Hold(-1)
}

func (m *RWMutex) RLock() {
	if !simrt.Active() {
		m.real().RLock()
		return
	}
	m.fresh()
	simrt.Yield()
	simrt.Block(func() bool { return !m.writer })
	m.readers++
	simrt.Hold(1)
}

func (m *RWMutex) RUnlock() {
	if !simrt.Active() {
		m.real().RUnlock()
		return
	}
	m.fresh()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	simrt.Hold(-1)
}

func (m *RWMutex) TryLock() bool {
	if !simrt.Active() {
		return m.real().TryLock()
	}
	m.fresh()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	simrt.Hold(1)
	return true
}

func (m *RWMutex) TryRLock() bool {
	if !simrt.Active() {
		return m.real().TryRLock()
	}
	m.fresh()
	if m.writer {
		return false
	}
	m.readers++
	simrt.Hold(1)
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	epoch int64
	m     Mutex
	done  bool
}

func (o *Once) Do(f func()) {
	fresh(&o.epoch, func() { o.done = false })
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool hands objects back in an order chosen by the seed, as often as it can.
type Pool struct {
	New   func() any
	epoch int64
	mu    sync.Mutex
	items []any
}

func (p *Pool) fresh() { fresh(&p.epoch, func() { p.items = nil }) }

func (p *Pool) Get() any {
	simrt.Yield()
	p.fresh()
	if x, ok := p.take(); ok {
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) take() (any, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := len(p.items)
	if n == 0 {
		return nil, false
	}
	i := 0
	if simrt.Active() {
		i = int(simrt.Rand() % uint64(n+1))
	}
	if i == n {
		return nil, false
	}
	x := p.items[i]
	p.items[i] = p.items[n-1]
	p.items = p.items[:n-1]
	return x, true
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.Yield()
	p.fresh()
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}

type WaitGroup struct {
	epoch int64
	wg    *sync.WaitGroup
	n     int
}

func (w *WaitGroup) real() *sync.WaitGroup {
	w.fresh()
	guard.Lock()
	defer guard.Unlock()
	if w.wg == nil {
		w.wg = new(sync.WaitGroup)
	}
	return w.wg
}

func (w *WaitGroup) fresh() { fresh(&w.epoch, func() { w.wg, w.n = nil, 0 }) }

func (w *WaitGroup) Add(d int) {
	if !simrt.Active() {
		w.real().Add(d)
		return
	}
	w.fresh()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() {
	if !simrt.Active() {
		w.real().Done()
		return
	}
	w.Add(-1)
}
func (w *WaitGroup) Wait() {
	if !simrt.Active() {
		w.real().Wait()
		return
	}
	w.fresh()
	simrt.Yield()
	simrt.Block(func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Map keeps insertion order and ranges in it.
type Map struct {
	mu sync.Mutex
	k  []any
	m  map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	simrt.Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	simrt.Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	o, ok := m.m[k]
	if !ok {
		m.k = append(m.k, k)
	}
	m.m[k] = v
	return o, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Yield()
	m.mu.Lock()
	o, ok := m.m[k]
	m.mu.Unlock()
	if ok {
		return o, true
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	m.k = append(m.k, k)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	o, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i := range m.k {
			if m.k[i] == k {
				m.k = append(m.k[:i:i], m.k[i+1:]...)
				break
			}
		}
	}
	return o, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, old, new any) bool {
	simrt.Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; ok && v == old {
		m.m[k] = new
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	if v, ok := m.Load(k); ok && v == old {
		m.Delete(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	simrt.Yield()
	m.mu.Lock()
	ks := append([]any(nil), m.k...)
	m.mu.Unlock()
	for _, k := range ks {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() {
	m.mu.Lock()
	m.k, m.m = nil, nil
	m.mu.Unlock()
}
