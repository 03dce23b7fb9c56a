package simrt

import (
	"math"
	"sort"
)

// Rng is a small deterministic generator (splitmix64).
type Rng struct{ s uint64 }

// NewRng returns a generator.
func NewRng(seed uint64) *Rng { return &Rng{seed*0x9e3779b97f4a7c15 + 0x1234567} }

// Uint64 returns the next value.
func (r *Rng) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rng) N(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return r.Uint64() % n
}

// Intn returns a value in [0,n).
func (r *Rng) Intn(n int) int { return int(r.N(uint64(n))) }

// Range returns a value in [a,b].
func (r *Rng) Range(a, b int64) int64 {
	if b <= a {
		return a
	}
	return a + int64(r.N(uint64(b-a+1)))
}

// Pct is true with probability p/100.
func (r *Rng) Pct(p int) bool { return int(r.N(100)) < p }

// PerMille is true with probability p/1000.
func (r *Rng) PerMille(p int) bool { return int(r.N(1000)) < p }

// LogRange returns a value in [a,b], roughly log-uniform.
func (r *Rng) LogRange(a, b int64) int64 {
	if a < 1 {
		a = 1
	}
	if b <= a {
		return a
	}
	f := float64(r.N(1<<30)) / (1 << 30)
	return int64(float64(a) * math.Pow(float64(b)/float64(a), f))
}

// Streams of decisions.
const (
	StSched = iota
	StSelect
	StOrder
	StReadErr
	StNest
	StHarness      // first of the streams of the harness (up to 15)
	StNet0    = 16 // + (maxNodes+1)*src + dst
)

// Decision is one recorded non-default decision: stream, index in the stream,
// value. The preemption stream is number -1 with the statement count as index.
type Decision struct {
	St int    `json:"s"`
	Ix uint64 `json:"i"`
	V  uint64 `json:"v"`
}

type stream struct {
	n   uint64
	rng *Rng
	rep map[uint64]uint64
}

// Chooser makes every decision of a run: drawn from the seed, or taken from a
// recorded list (anything not in the list takes the default, 0).
type Chooser struct {
	Seed      uint64
	Replaying bool
	Recording bool
	Rec       []Decision
	Faulty    int64
	streams   []*stream
	preemptAt uint64
	prng      *Rng
	plist     []Decision
}

// NewChooser draws every decision from seed.
func NewChooser(seed uint64) *Chooser {
	return &Chooser{Seed: seed, prng: NewRng(seed ^ 0x5151)}
}

// NewReplay takes decisions from list; everything else is the default.
func NewReplay(seed uint64, list []Decision) *Chooser {
	c := NewChooser(seed)
	c.Replaying = true
	for _, d := range list {
		if d.St == -1 {
			c.plist = append(c.plist, d)
			continue
		}
		st := c.stream(d.St)
		if st.rep == nil {
			st.rep = map[uint64]uint64{}
		}
		st.rep[d.Ix] = d.V
	}
	sort.Slice(c.plist, func(i, j int) bool { return c.plist[i].Ix < c.plist[j].Ix })
	return c
}

// Fork returns an independent generator derived from the seed.
func (c *Chooser) Fork(k uint64) *Rng { return NewRng(c.Seed ^ (k+1)*0xd6e8feb86659fd93) }

func (c *Chooser) stream(id int) *stream {
	for id >= len(c.streams) {
		c.streams = append(c.streams, nil)
	}
	st := c.streams[id]
	if st == nil {
		st = &stream{rng: NewRng(c.Seed ^ uint64(id+7)*0xa0761d6478bd642f)}
		c.streams[id] = st
	}
	return st
}

// Draw takes the next decision of a stream.
func (c *Chooser) Draw(id int, gen func(r *Rng) uint64) uint64 {
	st := c.stream(id)
	st.n++
	if c.Replaying {
		return st.rep[st.n]
	}
	v := gen(st.rng)
	if c.Recording && v != 0 {
		c.Rec = append(c.Rec, Decision{id, st.n, v})
	}
	return v
}

func (c *Chooser) armPreempt(cfg *Config) {
	c.preemptAt = math.MaxUint64
	if c.Replaying {
		if len(c.plist) > 0 {
			c.preemptAt = c.plist[0].Ix
		}
		return
	}
	if cfg.PreemptGap > 0 {
		c.preemptAt = cfg.SkipPreempt + 1 + c.prng.N(2*cfg.PreemptGap)
	}
}

// preemptAction is called when the statement count reached preemptAt; returns
// 0 nothing, 1 yield, >1 stall for that many ns.
func (c *Chooser) preemptAction(cfg *Config) (v uint64) {
	if c.Replaying {
		if len(c.plist) == 0 {
			c.preemptAt = math.MaxUint64
			return 0
		}
		v = c.plist[0].V
		c.plist = c.plist[1:]
		c.preemptAt = math.MaxUint64
		if len(c.plist) > 0 {
			c.preemptAt = max(c.plist[0].Ix, pcount+1)
		}
		return
	}
	v = 1
	if cfg.StallPct > 0 && c.prng.Pct(cfg.StallPct) {
		v = uint64(c.prng.LogRange(2, cfg.MaxStall))
	}
	if c.Recording {
		c.Rec = append(c.Rec, Decision{-1, pcount, v})
	}
	c.preemptAt = pcount + 1 + c.prng.N(2*cfg.PreemptGap)
	return
}

// siteAction is called at a focus of the run.
func (c *Chooser) siteAction(cfg *Config) (v uint64) {
	if pcount <= cfg.SkipPreempt || !c.prng.Pct(cfg.SitePct) {
		return 0
	}
	v = 1
	if cfg.StallPct > 0 && c.prng.Pct(50) {
		v = uint64(c.prng.LogRange(min(cfg.MaxStall, 20_000), cfg.MaxStall))
	}
	if c.Recording {
		c.Rec = append(c.Rec, Decision{-1, pcount, v})
	}
	return
}

// nest is a preemption point at an operation that may block while the
// goroutine holds a lock already: there the order of locks matters.
func (s *Sim) nest(g *G) {
	if g.held == 0 || s.Cfg.NestPct == 0 || g.Node == nil {
		return
	}
	act := s.Ch.Draw(StNest, func(r *Rng) uint64 {
		if !r.Pct(s.Cfg.NestPct) {
			return 0
		}
		if s.Cfg.StallPct > 0 && r.Pct(40) {
			return uint64(r.LogRange(2, s.Cfg.MaxStall))
		}
		return 1
	})
	s.pause(g, act)
}
