package simrt

import (
	"time"
	"unsafe"
)

// wall clock at simulated time 0
const epochSec = 1_700_000_000

const wallHasMono = 1 << 63

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// secs1885 is Unix time of year 1885 negated; computed once from package time.
var secs1885 = -time.Date(1885, 1, 1, 0, 0, 0, 0, time.UTC).Unix()

func (n *Node) mono(now int64) int64 {
	if n == nil || n.rateNum == 1000 {
		return now
	}
	// exact enough, no overflow for the horizons used
	return now/1000*n.rateNum + now%1000*n.rateNum/1000
}

func (n *Node) toGlobal(d int64) int64 {
	if n == nil || n.rateNum == 1000 || d <= 0 {
		return d
	}
	return d/n.rateNum*1000 + (d%n.rateNum)*1000/n.rateNum + 1
}

func nowFor(n *Node, now int64) time.Time {
	mono := n.mono(now)
	wall := mono
	if n != nil {
		wall += n.wallOff
	}
	sec := wall/1e9 + epochSec
	nsec := wall % 1e9
	if nsec < 0 {
		nsec += 1e9
		sec--
	}
	var t time.Time
	r := (*rawTime)(unsafe.Pointer(&t))
	r.wall = wallHasMono | uint64(sec+secs1885)<<30 | uint64(nsec)
	r.ext = mono + 1
	return t
}

// TimeNow is time.Now.
func TimeNow() time.Time {
	s := S
	if s == nil {
		return nowFor(nil, 0)
	}
	var n *Node
	if s.cur != nil {
		n = s.cur.Node
	}
	return nowFor(n, s.Now)
}

// Since is time.Since.
func Since(t time.Time) time.Duration { return TimeNow().Sub(t) }

// Until is time.Until.
func Until(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	s := S
	if s == nil {
		return
	}
	g := s.cur
	if g.killedOp() {
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	s.sleep(g, g.Node.toGlobal(int64(d)), "sleep")
}

// Timer replaces time.Timer.
type Timer struct {
	C    <-chan time.Time
	self *Timer
	c    chan time.Time
	f    func()
	node *Node
	ep   int
	ev   *event
	per  int64
	tok  *raceTok
	name string
}

func newTimer(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.self = t
	if f == nil {
		t.c = make(chan time.Time, 1)
		t.C = t.c
	}
	s := S
	if s == nil {
		return t // outside a run timers never fire
	}
	if s.cur != nil {
		t.node = s.cur.Node
		t.name = s.cur.Name
	}
	if t.node != nil {
		t.ep = t.node.epoch
	}
	t.arm(s, int64(d))
	return t
}

func (t *Timer) arm(s *Sim, d int64) {
	if s.cur != nil && s.cur.killed {
		return
	}
	s.Stats.Timers++
	t.tok = newTok()
	if t.node != nil {
		t.node.timersLive++
		if t.c == nil {
			t.node.funcArms++
		}
	}
	var e *event
	e = s.after(t.node.toGlobal(d), func() { t.fire(s) })
	e.node = t.node
	t.ev = e
}

func (t *Timer) fire(s *Sim) {
	t.ev = nil
	if t.node != nil {
		if t.ep != t.node.epoch {
			return
		}
		t.node.timersLive--
	}
	if t.f != nil {
		g := s.newG(t.node, "timer", t.f)
		g.tok = t.tok
		s.ready(g)
		return
	}
	h := shadow(s, (<-chan time.Time)(t.c))
	now := nowFor(t.node, s.Now)
	if w := h.popRecv(); w != nil {
		w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, now, true
		w.sel.tok = t.tok
		s.ready(w.g)
	} else if len(h.buf) < h.cap {
		h.buf = append(h.buf, now)
		h.rq = append(h.rq, t.tok)
	}
	if t.per > 0 {
		t.arm(s, t.per)
	}
}

// Stop is time.Timer.Stop.
func (t *Timer) Stop() bool {
	if t.self == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	if t.self != t || t.ev == nil {
		return false // a copy of a timer does not control the original
	}
	s := S
	if s == nil || s.cur.killedOp() {
		return false
	}
	t.disarm(s)
	return true
}

func (t *Timer) disarm(s *Sim) {
	t.ev.dead = true
	t.ev = nil
	if t.node != nil && t.node.epoch == t.ep {
		t.node.timersLive--
	}
	if t.c != nil { // as of Go 1.23 no stale value is left
		if h := shadow(s, (<-chan time.Time)(t.c)); len(h.buf) > 0 {
			h.buf, h.rq = nil, nil
		}
	}
}

// Reset is time.Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	if t.self == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	if t.self != t {
		return false
	}
	s := S
	if s == nil || s.cur.killedOp() {
		return false
	}
	was := t.ev != nil
	if was {
		t.disarm(s)
	}
	t.arm(s, int64(d))
	return was
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer { return newTimer(d, f) }

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer { return newTimer(d, nil) }

// TimeAfter is time.After.
func TimeAfter(d time.Duration) <-chan time.Time { return newTimer(d, nil).C }

// Ticker replaces time.Ticker.
type Ticker struct {
	C <-chan time.Time
	t *Timer
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := newTimer(d, nil)
	t.per = int64(d)
	return &Ticker{t.C, t}
}

// Stop is time.Ticker.Stop.
func (t *Ticker) Stop() { t.t.Stop() }

// Reset is time.Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) {
	t.t.per = int64(d)
	t.t.Reset(d)
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
