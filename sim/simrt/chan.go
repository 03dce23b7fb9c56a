package simrt

import (
	"errors"
	"runtime"
	"unsafe"
)

// hchan is the simulator's state of a channel; the real channel only serves as
// identity and capacity.
type hchan struct {
	ref    any
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	ra     raceAddr
	rq     []*raceTok
}

type waiter struct {
	g   *G
	sel *selState
	idx int
	val any
	tok *raceTok
}

type selState struct {
	fired bool
	idx   int
	val   any
	ok    bool
	tok   *raceTok
}

//go:norace
func chanPtr[T any](c <-chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&c)) }

//go:norace
func shadow[T any](s *Sim, c <-chan T) *hchan {
	p := chanPtr(c)
	if p == 0 {
		return nil
	}
	h := s.chans.get(p)
	if h == nil {
		h = &hchan{ref: c, cap: cap(c)}
		s.chans.put(p, h)
	}
	return h
}

// chanTab maps channels to their state (no Go map: its accesses are reported
// to the race detector).
type chanTab struct {
	k []uintptr
	v []*hchan
	n int
}

func (t *chanTab) slot(p uintptr) int {
	i := int(uint64(p)*0x9e3779b97f4a7c15>>32) & (len(t.k) - 1)
	for t.k[i] != 0 && t.k[i] != p {
		i = (i + 1) & (len(t.k) - 1)
	}
	return i
}

func (t *chanTab) get(p uintptr) *hchan {
	if t.n == 0 {
		return nil
	}
	return t.v[t.slot(p)]
}

func (t *chanTab) put(p uintptr, h *hchan) {
	if 2*t.n >= len(t.k) {
		o := *t
		m := max(64, 2*len(o.k))
		*t = chanTab{make([]uintptr, m), make([]*hchan, m), o.n}
		for i, k := range o.k {
			if k != 0 {
				j := t.slot(k)
				t.k[j], t.v[j] = k, o.v[i]
			}
		}
	}
	i := t.slot(p)
	t.k[i], t.v[i] = p, h
	t.n++
}

func (h *hchan) popRecv() *waiter {
	for len(h.recvq) > 0 {
		w := h.recvq[0]
		h.recvq = h.recvq[1:]
		if !w.sel.fired && !w.g.killed && !w.g.dead {
			return w
		}
	}
	return nil
}

func (h *hchan) popSend() *waiter {
	for len(h.sendq) > 0 {
		w := h.sendq[0]
		h.sendq = h.sendq[1:]
		if !w.sel.fired && !w.g.killed && !w.g.dead {
			return w
		}
	}
	return nil
}

var errSendClosed = errors.New("send on closed channel")

// trySend attempts a send without blocking.
func (h *hchan) trySend(s *Sim, v any) bool {
	if h.closed {
		panic(errSendClosed)
	}
	if w := h.popRecv(); w != nil {
		w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, true
		w.sel.tok = newTok()
		takeTok(w.tok)
		s.ready(w.g)
		return true
	}
	if len(h.buf) < h.cap {
		h.buf = append(h.buf, v)
		h.rq = append(h.rq, newTok())
		h.ra.acquire()
		return true
	}
	return false
}

func (h *hchan) tryRecv(s *Sim) (v any, ok, done bool) {
	if len(h.buf) > 0 {
		v = h.buf[0]
		h.buf = h.buf[1:]
		takeTok(h.rq[0])
		h.rq = h.rq[1:]
		h.ra.releaseMerge()
		if w := h.popSend(); w != nil {
			h.buf = append(h.buf, w.val)
			h.rq = append(h.rq, w.tok)
			w.sel.fired, w.sel.idx = true, w.idx
			w.sel.tok = newTok()
			s.ready(w.g)
		}
		return v, true, true
	}
	if w := h.popSend(); w != nil {
		v = w.val
		takeTok(w.tok)
		w.sel.fired, w.sel.idx = true, w.idx
		w.sel.tok = newTok()
		s.ready(w.g)
		return v, true, true
	}
	if h.closed {
		h.ra.acquire()
		return nil, false, true
	}
	return nil, false, false
}

// Sender returns a function sending on c (two steps keep assignability rules
// of the original statement).
//
//go:norace
func Sender[T any](c chan<- T) func(T) {
	return func(v T) { send(c, v) }
}

//go:norace
func biRecv[T any](c chan<- T) <-chan T { return *(*<-chan T)(unsafe.Pointer(&c)) }

//go:norace
func send[T any](c chan<- T, v T) {
	s := S
	if s == nil {
		c <- v
		return
	}
	g := s.cur
	if g.killedOp() {
		runtime.Goexit()
	}
	s.nest(g)
	h := shadow(s, biRecv(c))
	if h == nil {
		for {
			s.park(g, "send on nil channel")
		}
	}
	if h.trySend(s, v) {
		return
	}
	st := &selState{}
	w := &waiter{g: g, sel: st, val: v, tok: newTok()}
	h.sendq = append(h.sendq, w)
	for !st.fired {
		s.park(g, "chan send")
	}
	if st.idx == -1 {
		panic(errSendClosed)
	}
	takeTok(st.tok)
}

// Recv receives from c.
//
//go:norace
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 receives from c with the ok result.
//
//go:norace
func Recv2[T any](c <-chan T) (v T, ok bool) {
	s := S
	if s == nil {
		v, ok = <-c
		return
	}
	g := s.cur
	if g.killedOp() {
		runtime.Goexit()
	}
	s.nest(g)
	h := shadow(s, c)
	if h == nil {
		for {
			s.park(g, "receive from nil channel")
		}
	}
	x, ok, done := h.tryRecv(s)
	if !done {
		st := &selState{}
		h.recvq = append(h.recvq, &waiter{g: g, sel: st, tok: newTok()})
		for !st.fired {
			s.park(g, "chan receive")
		}
		takeTok(st.tok)
		x, ok = st.val, st.ok
	}
	if x != nil {
		v = x.(T)
	}
	return v, ok
}

// Close closes c.
//
//go:norace
func Close[T any](c chan<- T) {
	s := S
	if s == nil {
		close(c)
		return
	}
	if s.cur.killedOp() {
		return
	}
	h := shadow(s, biRecv(c))
	if h == nil {
		panic(errors.New("close of nil channel"))
	}
	if h.closed {
		panic(errors.New("close of closed channel"))
	}
	h.closed = true
	h.ra.releaseMerge()
	for {
		w := h.popRecv()
		if w == nil {
			break
		}
		w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, nil, false
		w.sel.tok = newTok()
		s.ready(w.g)
	}
	for {
		w := h.popSend()
		if w == nil {
			break
		}
		w.sel.fired, w.sel.idx = true, -1
		w.sel.tok = newTok()
		s.ready(w.g)
	}
}

// Len is len(c).
//
//go:norace
func Len[T any](c <-chan T) int {
	s := S
	if s == nil {
		return len(c)
	}
	h := shadow(s, c)
	if h == nil {
		return 0
	}
	return len(h.buf)
}

// LenS is len(c) for send-only channels.
//
//go:norace
func LenS[T any](c chan<- T) int { return Len(biRecv(c)) }

// --- select ----------------------------------------------------------------

// Case is one case of a select.
type Case interface {
	try(s *Sim) bool
	ready() bool
	enqueue(g *G, st *selState, idx int)
	fire(st *selState)
}

// RecvCase is a receive case.
type RecvCase[T any] struct {
	h  *hchan
	v  T
	ok bool
}

// NewRecv makes a receive case.
//
//go:norace
func NewRecv[T any](c <-chan T) *RecvCase[T] {
	s := S
	if s == nil {
		panic("simrt: select outside a run")
	}
	return &RecvCase[T]{h: shadow(s, c)}
}

// Val returns the received value.
//
//go:norace
func (c *RecvCase[T]) Val() T { return c.v }

// Val2 returns the received value and ok.
//
//go:norace
func (c *RecvCase[T]) Val2() (T, bool) { return c.v, c.ok }

//go:norace
func (c *RecvCase[T]) set(x any, ok bool) {
	var z T
	c.v = z
	if x != nil {
		c.v = x.(T)
	}
	c.ok = ok
}

//go:norace
func (c *RecvCase[T]) ready() bool {
	if c.h == nil {
		return false
	}
	if len(c.h.buf) > 0 || c.h.closed {
		return true
	}
	for _, w := range c.h.sendq {
		if !w.sel.fired && !w.g.killed && !w.g.dead {
			return true
		}
	}
	return false
}

//go:norace
func (c *RecvCase[T]) try(s *Sim) bool {
	x, ok, done := c.h.tryRecv(s)
	if done {
		c.set(x, ok)
	}
	return done
}

//go:norace
func (c *RecvCase[T]) enqueue(g *G, st *selState, idx int) {
	if c.h != nil {
		c.h.recvq = append(c.h.recvq, &waiter{g: g, sel: st, idx: idx, tok: newTok()})
	}
}

//go:norace
func (c *RecvCase[T]) fire(st *selState) { c.set(st.val, st.ok) }

// SendCase is a send case.
type SendCase[T any] struct {
	h *hchan
	v T
}

// NewSend makes a send case in two steps.
//
//go:norace
func NewSend[T any](c chan<- T) func(T) *SendCase[T] {
	s := S
	if s == nil {
		panic("simrt: select outside a run")
	}
	h := shadow(s, biRecv(c))
	return func(v T) *SendCase[T] { return &SendCase[T]{h: h, v: v} }
}

//go:norace
func (c *SendCase[T]) ready() bool {
	if c.h == nil {
		return false
	}
	if c.h.closed || len(c.h.buf) < c.h.cap {
		return true
	}
	for _, w := range c.h.recvq {
		if !w.sel.fired && !w.g.killed && !w.g.dead {
			return true
		}
	}
	return false
}

//go:norace
func (c *SendCase[T]) try(s *Sim) bool { return c.h.trySend(s, c.v) }

//go:norace
func (c *SendCase[T]) enqueue(g *G, st *selState, idx int) {
	if c.h != nil {
		c.h.sendq = append(c.h.sendq, &waiter{g: g, sel: st, idx: idx, val: c.v, tok: newTok()})
	}
}

//go:norace
func (c *SendCase[T]) fire(st *selState) {
	if st.idx == -1 {
		panic(errSendClosed)
	}
}

// Select performs a select; def tells whether there is a default case (-1).
func Select(def bool, cases ...Case) int {
	s := S
	if s == nil {
		panic("simrt: select outside a run")
	}
	g := s.cur
	if g.killedOp() {
		runtime.Goexit()
	}
	s.nest(g)
	var rd []int
	for i, c := range cases {
		if c.ready() {
			rd = append(rd, i)
		}
	}
	if len(rd) > 0 {
		k := 0
		if len(rd) > 1 {
			k = int(s.Ch.Draw(StSelect, func(r *Rng) uint64 { return r.N(uint64(len(rd))) }))
			if k >= len(rd) {
				k = len(rd) - 1
			}
		}
		if cases[rd[k]].try(s) {
			return rd[k]
		}
	}
	if def {
		return -1
	}
	if len(cases) == 0 {
		for {
			s.park(g, "select{}")
		}
	}
	st := &selState{}
	for i, c := range cases {
		c.enqueue(g, st, i)
	}
	for !st.fired {
		s.park(g, "select")
	}
	takeTok(st.tok)
	if st.idx == -1 {
		panic(errSendClosed)
	}
	cases[st.idx].fire(st)
	return st.idx
}
