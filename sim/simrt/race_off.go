//go:build !race

package simrt

const RaceEnabled = false

func raceDisable()      {}
func raceEnable()       {}
func raceAcquireG(g *G) {}
func raceReleaseG(g *G) {}

type raceAddr struct{}

func (raceAddr) acquire()      {}
func (raceAddr) release()      {}
func (raceAddr) releaseMerge() {}

type raceTok struct{}

func newTok() *raceTok   { return nil }
func takeTok(t *raceTok) {}

func raceReadRange(b []byte)  {}
func raceWriteRange(b []byte) {}

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return 0 }

var runEdge raceAddr

func carrier(f func()) { go f() }

// Tok orders a hand-over of the harness.
type Tok struct{}

// NewTok makes a token.
func NewTok() Tok { return Tok{} }

// Take takes a token.
func (t Tok) Take() {}

// AppWrite stands for a write of the application to b.
func AppWrite(b []byte) {}

// AppRead stands for a read of b by the application.
func AppRead(b []byte) {}
