package simrt

import (
	"fmt"
	"runtime"
	"sync"
	"unsafe"
)

// Locker is sync.Locker.
type Locker = sync.Locker

func fatal(msg string) {
	s := S
	if s != nil && s.Panic == nil {
		g := s.cur
		n := "harness"
		if g.Node != nil {
			n = g.Node.Name
		}
		s.Panic = &PanicInfo{Node: n, G: g.Name, Msg: "fatal error: " + msg, Stack: trimStack(stack())}
		s.halt("panic")
		for {
			s.park(g, "fatal error")
		}
	}
	panic("fatal error: " + msg)
}

func stack() string {
	b := make([]byte, 16384)
	return string(b[:runtime.Stack(b, false)])
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
	wait   []*G
	ra     raceAddr
}

// Lock locks m.
func (m *Mutex) Lock() {
	s := S
	if s == nil {
		m.locked = true
		return
	}
	g := s.cur
	if g.killedOp() {
		return
	}
	s.nest(g)
	for m.locked {
		m.wait = append(m.wait, g)
		s.park(g, "lock Mutex")
	}
	m.locked = true
	m.ra.acquire()
	g.held++
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	s := S
	if s == nil {
		ok := !m.locked
		m.locked = true
		return ok
	}
	if s.cur.killedOp() {
		return true
	}
	if m.locked {
		return false
	}
	m.locked = true
	m.ra.acquire()
	if s != nil {
		s.cur.held++
	}
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	s := S
	if s == nil {
		m.locked = false
		return
	}
	if s.cur.killedOp() {
		return
	}
	if s.cur.held > 0 {
		s.cur.held--
	}
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	m.ra.releaseMerge()
	m.locked = false
	m.wait = wakeOne(s, m.wait)
}

func wakeOne(s *Sim, w []*G) []*G {
	for len(w) > 0 {
		g := w[0]
		w = w[1:]
		if g.dead || g.killed {
			continue
		}
		s.ready(g)
		break
	}
	return w
}

// RWMutex replaces sync.RWMutex: a waiting writer blocks new readers; readers
// that wait when a writer unlocks go first.
type RWMutex struct {
	writer  bool
	readers int
	ww      []*rwWait
	rw      []*rwWait
	ra      raceAddr
	rb      raceAddr
}

type rwWait struct {
	g  *G
	ok bool
}

func live(w []*rwWait) []*rwWait {
	for len(w) > 0 && (w[0].g.killed || w[0].g.dead) {
		w = w[1:]
	}
	return w
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	s := S
	if s == nil {
		m.readers++
		return
	}
	g := s.cur
	if g.killedOp() {
		return
	}
	s.nest(g)
	m.ww = live(m.ww)
	if m.writer || len(m.ww) > 0 {
		w := &rwWait{g: g}
		m.rw = append(m.rw, w)
		for !w.ok {
			s.park(g, "rlock RWMutex")
		}
	} else {
		m.readers++
	}
	m.ra.acquire()
	g.held++
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	s := S
	if s != nil && s.cur.killedOp() {
		return true
	}
	m.ww = live(m.ww)
	if m.writer || len(m.ww) > 0 {
		return false
	}
	m.readers++
	m.ra.acquire()
	if s != nil {
		s.cur.held++
	}
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	s := S
	if s == nil {
		m.readers--
		return
	}
	if s.cur.killedOp() {
		return
	}
	if s.cur.held > 0 {
		s.cur.held--
	}
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.rb.releaseMerge()
	m.readers--
	if m.readers == 0 {
		m.handWriter(s)
	}
}

func (m *RWMutex) handWriter(s *Sim) {
	m.ww = live(m.ww)
	if len(m.ww) > 0 {
		w := m.ww[0]
		m.ww = m.ww[1:]
		m.writer = true
		w.ok = true
		s.ready(w.g)
	}
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	s := S
	if s == nil {
		m.writer = true
		return
	}
	g := s.cur
	if g.killedOp() {
		return
	}
	s.nest(g)
	m.ww = live(m.ww)
	if !m.writer && m.readers == 0 && len(m.ww) == 0 {
		m.writer = true
	} else {
		w := &rwWait{g: g}
		m.ww = append(m.ww, w)
		for !w.ok {
			s.park(g, "lock RWMutex")
		}
	}
	m.ra.acquire()
	m.rb.acquire()
	g.held++
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	s := S
	if s != nil && s.cur.killedOp() {
		return true
	}
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.ra.acquire()
	if s != nil {
		s.cur.held++
	}
	m.rb.acquire()
	return true
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	s := S
	if s == nil {
		m.writer = false
		return
	}
	if s.cur.killedOp() {
		return
	}
	if s.cur.held > 0 {
		s.cur.held--
	}
	if !m.writer {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	m.ra.releaseMerge()
	m.writer = false
	m.rw = live(m.rw)
	if len(m.rw) > 0 {
		for _, w := range m.rw {
			if w.g.killed || w.g.dead {
				continue
			}
			m.readers++
			w.ok = true
			s.ready(w.g)
		}
		m.rw = nil
		return
	}
	m.handWriter(s)
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n    int
	wait []*G
	ra   raceAddr
}

// Add adds d.
func (w *WaitGroup) Add(d int) {
	s := S
	if s == nil {
		w.n += d
		return
	}
	if s.cur.killedOp() {
		return
	}
	if d < 0 {
		w.ra.releaseMerge()
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, g := range w.wait {
			s.ready(g)
		}
		w.wait = nil
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	s := S
	if s == nil {
		return
	}
	g := s.cur
	if g.killedOp() {
		return
	}
	for w.n > 0 {
		w.wait = append(w.wait, g)
		s.park(g, "WaitGroup.Wait")
	}
	w.ra.acquire()
}

// Go runs f in a goroutine counted by w.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() { o.done = true }()
	f()
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
//
//go:norace
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
//
//go:norace
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond replaces sync.Cond.
type Cond struct {
	L    Locker
	wait []*rwWait
	ra   raceAddr
}

// NewCond returns a condition.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	s := S
	if s == nil {
		panic("simrt: Cond.Wait outside a run")
	}
	g := s.cur
	if g.killedOp() {
		runtime.Goexit()
	}
	w := &rwWait{g: g}
	c.wait = append(c.wait, w)
	c.L.Unlock()
	for !w.ok {
		s.park(g, "Cond.Wait")
	}
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	s := S
	if s == nil || s.cur.killedOp() {
		return
	}
	c.wait = live(c.wait)
	if len(c.wait) > 0 {
		c.wait[0].ok = true
		s.ready(c.wait[0].g)
		c.wait = c.wait[1:]
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	s := S
	if s == nil || s.cur.killedOp() {
		return
	}
	for _, w := range c.wait {
		w.ok = true
		s.ready(w.g)
	}
	c.wait = nil
}

// Map replaces sync.Map (insertion order iteration).
type Map struct {
	m    map[any]*mapEnt
	ents []*mapEnt
	dead int
	ra   raceAddr
}

type mapEnt struct {
	k, v any
	dead bool
}

func (m *Map) sync() { m.ra.acquire(); m.ra.releaseMerge() }

// Load is sync.Map.Load.
func (m *Map) Load(k any) (v any, ok bool) {
	m.sync()
	e, ok := m.m[k]
	if ok {
		v = e.v
	}
	return
}

// Store is sync.Map.Store.
func (m *Map) Store(k, v any) {
	m.sync()
	if m.m == nil {
		m.m = map[any]*mapEnt{}
	}
	e := m.m[k]
	if e == nil {
		e = &mapEnt{k: k}
		m.m[k] = e
		m.ents = append(m.ents, e)
	}
	e.v = v
}

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if x, ok := m.Load(k); ok {
		return x, true
	}
	m.Store(k, v)
	return v, false
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	v, ok := m.Load(k)
	m.Delete(k)
	return v, ok
}

// Swap is sync.Map.Swap.
func (m *Map) Swap(k, v any) (any, bool) {
	x, ok := m.Load(k)
	m.Store(k, v)
	return x, ok
}

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, o, v any) bool {
	x, ok := m.Load(k)
	if ok && x == o {
		m.Store(k, v)
		return true
	}
	return false
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, o any) bool {
	x, ok := m.Load(k)
	if ok && x == o {
		m.Delete(k)
		return true
	}
	return false
}

// Delete is sync.Map.Delete.
func (m *Map) Delete(k any) {
	m.sync()
	e := m.m[k]
	if e == nil {
		return
	}
	delete(m.m, k)
	e.dead = true
	if m.dead++; m.dead > len(m.ents)/2 {
		var l []*mapEnt
		for _, e := range m.ents {
			if !e.dead {
				l = append(l, e)
			}
		}
		m.ents, m.dead = l, 0
	}
}

// Clear is sync.Map.Clear.
func (m *Map) Clear() { m.sync(); m.m, m.ents, m.dead = nil, nil, 0 }

// Range is sync.Map.Range.
func (m *Map) Range(f func(k, v any) bool) {
	m.sync()
	for _, e := range append([]*mapEnt(nil), m.ents...) {
		if !e.dead && !f(e.k, e.v) {
			return
		}
	}
}

// Pool replaces sync.Pool (never keeps anything: the worst legal behaviour
// for code relying on reuse, and deterministic).
type Pool struct {
	New  func() any
	keep []any
}

// Get is sync.Pool.Get.
func (p *Pool) Get() any {
	if l := len(p.keep); l > 0 {
		v := p.keep[l-1]
		p.keep = p.keep[:l-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put is sync.Pool.Put. Objects are handed out again at once: reuse of an
// object that is still referenced must show.
func (p *Pool) Put(v any) {
	if v != nil && len(p.keep) < 64 {
		p.keep = append(p.keep, v)
	}
}

var _ = fmt.Sprint
var _ unsafe.Pointer
