//go:build race

package simrt

// Under the race detector the happens-before edges are exactly those of the
// simulated primitives: the hand-over between goroutines (a real channel) is
// hidden, and every primitive releases and acquires an address of its own.
// This package is compiled without instrumentation.

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

func raceAcquireG(g *G) { runtime.RaceAcquire(unsafe.Pointer(&g.raceB)) }
func raceReleaseG(g *G) { runtime.RaceRelease(unsafe.Pointer(&g.raceB)) }

type raceAddr struct{ b uint64 }

func (a *raceAddr) acquire()      { runtime.RaceAcquire(unsafe.Pointer(a)) }
func (a *raceAddr) release()      { runtime.RaceRelease(unsafe.Pointer(a)) }
func (a *raceAddr) releaseMerge() { runtime.RaceReleaseMerge(unsafe.Pointer(a)) }

type raceTok struct{ raceAddr }

func newTok() *raceTok {
	t := &raceTok{}
	t.release()
	return t
}

func takeTok(t *raceTok) {
	if t != nil {
		t.acquire()
	}
}

func raceReadRange(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}

func raceWriteRange(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

var runEdge raceAddr // end of a run before the start of the next

var spawnReq = make(chan func())

func init() {
	go func() {
		for f := range spawnReq {
			go f()
		}
	}()
}

// carrier starts a real goroutine that inherits nothing from the caller.
func carrier(f func()) {
	raceDisable()
	spawnReq <- f
	raceEnable()
}

// Tok orders a hand-over of the harness: everything done by the goroutine that
// made it is ordered before what follows Take.
type Tok struct{ t *raceTok }

// NewTok makes a token.
func NewTok() Tok { return Tok{newTok()} }

// Take takes a token.
func (t Tok) Take() { takeTok(t.t) }

// AppWrite stands for a write of the application to b.
func AppWrite(b []byte) { raceWriteRange(b) }

// AppRead stands for a read of b by the application.
func AppRead(b []byte) { raceReadRange(b) }
