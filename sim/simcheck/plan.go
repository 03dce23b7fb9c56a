package main

import (
	"fmt"
	"verifsim/simrt"
)

// Time units (simulated nanoseconds).
const (
	us  = int64(1000)
	ms  = 1000 * us
	sec = 1000 * ms
)

// Op is one step of an actor of a plan.
type Op struct {
	A int    `json:"a"`           // actor
	K string `json:"k"`           // kind
	D int64  `json:"d,omitempty"` // delay before the step (ns)
	N int64  `json:"n,omitempty"` // size or count
	M int64  `json:"m,omitempty"` // modifier
	T int    `json:"t,omitempty"` // target
}

// Fault is one fault window of a plan (times relative to the start of the
// fault phase).
type Fault struct {
	K   string `json:"k"`
	At  int64  `json:"at"`
	Dur int64  `json:"dur,omitempty"`
	A   int    `json:"a"`
	B   int    `json:"b"`
	V   int64  `json:"v,omitempty"`
	W   int64  `json:"w,omitempty"`
}

// NodeCfg configures a node of a plan.
type NodeCfg struct {
	MaxData int   `json:"maxdata,omitempty"`
	Rate    int64 `json:"rate,omitempty"` // clock rate, 1000 nominal
	Wall    int64 `json:"wall,omitempty"`
	Delay   int   `json:"delay,omitempty"` // send delay
}

// Frag returns the largest fragment the node sends, 0 if it has the default one.
func (c NodeCfg) Frag() int {
	if c.MaxData < 0 || c.MaxData >= 65475 {
		return 0
	}
	return c.MaxData
}

// Actor is a writer.
type Actor struct {
	P int `json:"p"` // node it runs on
	T int `json:"t"` // peer node
	W int `json:"w"` // writer number
}

// Plan is everything that is fixed before a run starts; together with the
// decisions of the chooser it determines the execution.
type Plan struct {
	Prop   string           `json:"prop"`
	Scen   string           `json:"scen"`
	Seed   uint64           `json:"seed"`
	Cfg    simrt.Config     `json:"cfg"`
	Nodes  []NodeCfg        `json:"nodes"`
	V6     bool             `json:"v6,omitempty"`
	Link   simrt.Link       `json:"link"`
	Actors []Actor          `json:"actors,omitempty"`
	Ops    []Op             `json:"ops,omitempty"`
	Faults []Fault          `json:"faults,omitempty"`
	P      map[string]int64 `json:"p,omitempty"`
}

// Gen draws plans.
type Gen struct {
	*simrt.Rng
	p    *Plan
	tier string
}

func (g *Gen) set(k string, v int64) { g.p.P[k] = v }

func (p *Plan) get(k string) int64 { return p.P[k] }

// schedKnobs draws the scheduler parameters.
func (g *Gen) schedKnobs() {
	c := &g.p.Cfg
	switch g.Intn(10) {
	case 0, 1:
		c.Mode = 0
	case 2, 3, 4:
		c.Mode = 1
	case 5, 6:
		c.Mode = 2
	default:
		c.Mode = 3
	}
	switch g.Intn(10) {
	case 0:
		c.PreemptGap = 0
	case 1, 2:
		c.PreemptGap = uint64(g.LogRange(5000, 100000))
	case 3, 4, 5:
		c.PreemptGap = uint64(g.LogRange(200, 5000))
	case 6, 7, 8:
		c.PreemptGap = uint64(g.LogRange(20, 200))
	default:
		c.PreemptGap = uint64(g.LogRange(3, 20))
	}
	if g.Pct(60) {
		c.NestPct = int(g.LogRange(1, 60))
	}
	if g.Pct(50) {
		c.StallPct = int(g.LogRange(1, 30))
		c.MaxStall = g.LogRange(10*us, 150*ms)
		c.StallCeiling = 400 * ms
	}
	if g.Pct(35) {
		c.SiteEvery = uint64(g.LogRange(15, 1000))
		c.SitePct = int(g.LogRange(3, 90))
	}
}

// cleanLink draws a fault free link.
func (g *Gen) cleanLink() {
	l := &g.p.Link
	*l = simrt.Link{Base: g.LogRange(20*us, 100*ms)}
	if g.Pct(60) {
		l.Jitter = g.LogRange(1*us, l.Base)
	}
}

// netFaults adds fault windows for links during span ns; heavy faults may cut a
// channel, light ones must not.
func (g *Gen) netFaults(span int64, heavy bool) {
	n := 1 + g.Intn(5)
	for i := 0; i < n; i++ {
		f := Fault{At: g.Range(0, span), A: -1, B: -1}
		f.Dur = g.LogRange(5*ms, span)
		if g.Pct(35) {
			f.At, f.Dur = 0, span
		}
		if g.Pct(50) { // a directed link only
			f.A = g.Intn(len(g.p.Nodes))
			f.B = (f.A + 1 + g.Intn(len(g.p.Nodes)-1)) % len(g.p.Nodes)
		}
		switch g.Intn(9) {
		case 0, 1, 2:
			f.K = "loss"
			f.V = g.LogRange(5, 600)
			if !heavy {
				f.V = g.LogRange(5, 250)
			}
		case 3:
			f.K = "dup"
			f.V = g.LogRange(20, 900)
			f.W = g.LogRange(10*us, 8*sec)
		case 4, 5:
			f.K = "jitter"
			f.V = g.LogRange(10*us, 400*ms)
		case 6:
			f.K = "late"
			f.V = g.LogRange(5, 200)
			f.W = g.LogRange(10*ms, 6*sec)
		case 7:
			f.K = "block"
			f.Dur = g.LogRange(5*ms, 1200*ms)
			if heavy {
				f.Dur = g.LogRange(5*ms, 2500*ms)
			}
		case 8:
			f.K = "senderr"
			f.V = g.LogRange(5, 400)
		}
		g.p.Faults = append(g.p.Faults, f)
	}
	if g.Pct(25) {
		g.p.Faults = append(g.p.Faults, Fault{K: "readerr", At: g.Range(0, span), Dur: g.LogRange(5*ms, span), A: -1, B: -1, V: g.LogRange(5, 300)})
	}
	if g.Pct(30) {
		k := 1 + g.Intn(3)
		for i := 0; i < k; i++ {
			g.p.Faults = append(g.p.Faults, Fault{K: "stall", At: g.Range(0, span), Dur: g.LogRange(1*ms, 900*ms), A: g.Intn(len(g.p.Nodes)), B: -1})
		}
	}
	if g.Pct(25) {
		g.p.Faults = append(g.p.Faults, Fault{K: "wall", At: g.Range(0, span), A: g.Intn(len(g.p.Nodes)), B: -1, V: g.Range(-3600, 3600) * sec})
	}
}

// clocks lets node clocks drift.
func (g *Gen) clocks() {
	for i := range g.p.Nodes {
		n := &g.p.Nodes[i]
		n.Rate = 1000
		if g.Pct(30) {
			n.Rate = g.Range(990, 1010)
		}
		if g.Pct(30) {
			n.Wall = g.Range(-100000, 100000) * sec
		}
	}
}

// nodes draws n nodes.
func (g *Gen) nodes(n int) {
	g.p.Nodes = make([]NodeCfg, n)
	g.clocks()
	g.p.V6 = g.Pct(40)
}

// size draws a message size.
func (g *Gen) size(maxFrag int, minSize int64) int64 {
	var n int64
	switch g.Intn(12) {
	case 0:
		n = g.Range(0, 3)
	case 1, 2, 3:
		n = g.Range(0, 70)
	case 4:
		n = 60 + g.Range(0, 10)
	case 5, 6, 7:
		n = g.LogRange(64, 2000)
	case 8:
		n = g.LogRange(1, 20000)
	case 9:
		n = g.Range(14, 34)
	case 10:
		n = g.LogRange(1000, 9000)
	default:
		if maxFrag > 0 {
			n = int64(maxFrag)*g.Range(1, 5) + g.Range(-2, 2)
		} else {
			n = g.LogRange(64, 3000)
		}
	}
	if maxFrag > 0 && n > int64(maxFrag)*40 {
		n = int64(maxFrag)*40 - g.Range(0, int64(maxFrag))
	}
	if n < minSize {
		n = minSize + g.Range(0, 20)
	}
	if n < 0 {
		n = 0
	}
	return n
}

func (f Fault) String() string {
	return fmt.Sprintf("%s at %.3fs for %.3fs %d->%d v=%d w=%d", f.K, float64(f.At)/1e9, float64(f.Dur)/1e9, f.A, f.B, f.V, f.W)
}
