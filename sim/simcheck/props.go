package main

import "verifsim/simrt"

// Scenario is one family of simulated executions.
type Scenario struct {
	Name   string
	Weight int
	Gen    func(g *Gen)
	Run    func(w *World)
}

// Prop describes how a property is decided.
type Prop struct {
	ID       string
	Quick    int // runs
	Thorough int
	Scens    []Scenario
	Rule     string
}

func stream(name string, weight int, o streamOpt) Scenario {
	return Scenario{name, weight, func(g *Gen) { genStream(g, o) }, func(w *World) { runStream(w, o) }}
}

var props = map[string]*Prop{}

func reg(p *Prop) { props[p.ID] = p }

func init() {
	reg(&Prop{ID: "C01", Quick: 3000, Thorough: 60000, Scens: []Scenario{
		stream("stream", 60, streamOpt{clients: 3, writers: 1, msgs: 400, span: 20 * sec, heavy: true, faultPct: 90, integ: true, frag: true}),
		stream("stream-light", 30, streamOpt{clients: 2, writers: 1, msgs: 1500, span: 3 * sec, faultPct: 70, integ: true}),
		{"old-dup", 2, genOldDup, runOldDup},
	}})
	reg(&Prop{ID: "C02", Quick: 3000, Thorough: 60000, Scens: []Scenario{
		stream("stream", 6, streamOpt{clients: 3, writers: 1, msgs: 400, span: 15 * sec, faultPct: 95, integ: true, live: true, quiet: true, frag: true}),
		stream("backlog", 2, streamOpt{clients: 1, writers: 1, msgs: 1500, span: 2 * sec, faultPct: 100, integ: true, live: true, quiet: true}),
		{"outage", 2, genOutage, runOutage},
		{"one-loss", 2, genOneLoss, runOneLoss},
		{"deep", 1, genDeep, runDeep},
		{"window", 0, genWindow, runDeep},
	}})
	reg(&Prop{ID: "C03", Quick: 6000, Thorough: 60000, Scens: []Scenario{
		stream("sizes", 6, streamOpt{clients: 2, writers: 1, msgs: 120, span: 10 * sec, faultPct: 75, integ: true, live: true, frag: true, huge: true}),
	}})
	reg(&Prop{ID: "C04", Quick: 3000, Thorough: 60000, Scens: []Scenario{
		stream("writers", 6, streamOpt{clients: 2, writers: 5, msgs: 200, span: 5 * sec, faultPct: 50, integ: true, live: true, frag: true, minSize: 8, cb: true, cbWriter: true, echo: true}),
	}})
}

var _ = simrt.New
