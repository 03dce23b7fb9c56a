package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/google/uuid"
	"verifsim/simrt"
)

// Result of one run.
type Result struct {
	Seed   uint64           `json:"seed"`
	Index  int              `json:"index"`
	Scen   string           `json:"scen"`
	Viol   []string         `json:"viol,omitempty"`
	Halt   string           `json:"halt,omitempty"`
	SimNs  int64            `json:"simns"`
	Hash   uint64           `json:"hash"`
	Stats  simrt.Stats      `json:"stats"`
	Net    simrt.NetStats   `json:"net"`
	Msgs   int64            `json:"msgs"`
	Notes  map[string]int64 `json:"notes,omitempty"`
	Faults map[string]int64 `json:"faults,omitempty"`
	Inconc bool             `json:"inconclusive,omitempty"`
	Sample string           `json:"sample,omitempty"`
	Trace  []string         `json:"-"`
	Dec    []simrt.Decision `json:"-"`
	WallMs float64          `json:"wall"`
	Known  []string         `json:"known,omitempty"`
}

func mix(a uint64, s string, i int) uint64 {
	h := a*0x9e3779b97f4a7c15 + 0x51ed270b
	for _, c := range s {
		h = (h ^ uint64(c)) * 1099511628211
	}
	r := simrt.NewRng(h ^ uint64(i)*0xd6e8feb86659fd93)
	return r.Uint64() >> 1
}

// makePlan draws the plan of run i of a property.
func makePlan(pr *Prop, tier string, base uint64, i int) *Plan {
	seed := mix(base, pr.ID, i)
	p := &Plan{Prop: pr.ID, Seed: seed, P: map[string]int64{}}
	p.Cfg.Horizon = 4 * 3600 * sec
	g := &Gen{simrt.NewRng(seed ^ 0xabcdef), p, tier}
	tot := 0
	for _, s := range pr.Scens {
		tot += s.Weight
	}
	k := g.Intn(tot)
	if pr.ID == "C02" && i == 0 || tot == 0 {
		for _, s := range pr.Scens {
			if s.Name == "window" {
				p.Scen = s.Name
				s.Gen(g)
				return p
			}
		}
	}
	if n := crowdProps[pr.ID]; n > 0 && i%n == n/3 || n > 0 && tot == 0 {
		p.Scen = "crowd"
		crowdScens[pr.ID].Gen(g)
		return p
	}
	for _, s := range pr.Scens {
		if k < s.Weight {
			p.Scen = s.Name
			s.Gen(g)
			oneProcess(p)
			sharedHosts(p)
			break
		}
		k -= s.Weight
	}
	return p
}

// oneProcess lets the nodes of some runs be instances in one process, which
// share the package variables of the library.
func oneProcess(p *Plan) {
	switch p.Prop + "/" + p.Scen {
	case "C01/stream", "C01/stream-light", "C02/stream", "C02/backlog", "C02/outage", "C02/one-loss", "C02/deep", "C03/sizes", "C04/writers",
		"C05/callbacks", "C05/callbacks-writers", "C05/callbacks-end", "C05/callbacks-timeout", "C07/connects", "C09/cut", "C11/ends", "C11/reject", "C12/reconnect",
		"C08/handshake-replay", "C08/handshake-dup", "C10/idle", "C10/traffic",
		"C13/bad-peer", "C14/fuzz", "C14/bad-peer", "C15/secrecy", "C15/alter",
		"C18/tru-close", "C19/api", "C19/contend", "C20/statistic", "C21/punch":
	default:
		return
	}
	if p.get("crash")+p.get("dead") != 0 {
		return
	}
	for _, f := range p.Faults {
		if f.K == "crash" || f.K == "restart" {
			return
		}
	}
	for _, op := range p.Ops {
		if strings.Contains(op.K, "crash") || strings.Contains(op.K, "restart") || strings.Contains(op.K, "end-replaced") {
			return
		}
	}
	if !simrt.NewRng(p.Seed ^ 0x09e).Pct(25) {
		return
	}
	p.Cfg.OneProcess = true
	for i := range p.Nodes {
		p.Nodes[i].Rate, p.Nodes[i].Wall = 1000, 0
	}
	var fs []Fault
	for _, f := range p.Faults {
		if f.K != "wall" {
			fs = append(fs, f)
		}
	}
	p.Faults = fs
}

// sharedHosts lets nodes of some runs be processes of one host, so that they
// differ in the port only (1: all of them, 2: all but the first one), or have
// the same ports on different hosts (3).
func sharedHosts(p *Plan) {
	switch p.Prop {
	case "C16", "C17", "C19", "C22", "C23":
		return // connections are told apart by the addresses
	}
	if r := simrt.NewRng(p.Seed ^ 0x4057); r.Pct(30) {
		h := r.Range(1, 3)
		if h == 2 && len(p.Nodes) < 3 {
			h = 1
		}
		p.P["hosts"] = h
	}
}

func (p *Plan) scenario() *Scenario {
	pr := props[p.Prop]
	if pr == nil {
		return nil
	}
	if p.Scen == "crowd" {
		return crowdScens[p.Prop]
	}
	for i := range pr.Scens {
		if pr.Scens[i].Name == p.Scen {
			return &pr.Scens[i]
		}
	}
	return nil
}

type uuidReader struct{}

func (uuidReader) Read(b []byte) (int, error) { return simrt.CryptoReader.Read(b) }

// execute runs a plan. dec nil: decisions from the seed (recorded if rec).
func execute(p *Plan, dec []simrt.Decision, replay, rec, trace bool) *Result {
	uuid.SetRand(uuidReader{})
	var ch *simrt.Chooser
	if replay {
		ch = simrt.NewReplay(p.Seed, dec)
	} else {
		ch = simrt.NewChooser(p.Seed)
		ch.Recording = rec
	}
	s := simrt.New(p.Cfg, ch)
	w := &World{S: s, Plan: p, Notes: map[string]int64{}, healed: map[[2]int]bool{}, tracing: trace, stopOnViol: true}
	w.wire = newWire(w)
	s.Net.OnSend = w.wire.onSend
	s.Net.OnRead = w.wire.onRead
	s.Net.OnHurt = w.wire.onHurt
	sc := p.scenario()
	if sc == nil {
		return &Result{Viol: []string{"unknown scenario " + p.Prop + "/" + p.Scen}}
	}
	errs := simrt.RaceErrors()
	s.Run(func() { sc.Run(w) })
	if simrt.RaceErrors() > errs {
		races, raw := newRaces(len(s.Nodes))
		if os.Getenv("SIMRACE_RAW") != "" {
			os.Stderr.WriteString(raw)
		}
		for _, v := range races {
			w.Viol = append(w.Viol, v)
		}
		w.note("reports of the race detector", int64(simrt.RaceErrors()-errs))
		if trace {
			w.Trace = append(w.Trace, raw)
		}
	}
	r := &Result{Seed: p.Seed, Scen: p.Scen, Viol: w.Viol, Halt: s.Halt, SimNs: s.Now, Hash: s.SchedHash(),
		Stats: s.Stats, Net: s.Net.Stats, Msgs: w.msgs, Notes: w.Notes, Trace: w.Trace, Dec: ch.Rec}
	switch s.Halt {
	case "", "violation":
	case "panic":
		if s.Panic.Node == "harness" {
			r.Inconc = true
			r.Viol = nil
			r.Halt = "harness panic: " + s.Panic.Msg + " @ " + s.Panic.Stack
		} else {
			r.Viol = append(r.Viol, fmt.Sprintf("[t=%.6fs] node %s crashed: panic: %s @ %s", float64(s.Now)/1e9, s.Panic.Node, s.Panic.Msg, short(s.Panic.Stack)))
		}
	case "livelock":
		r.Viol = append(r.Viol, fmt.Sprintf("[t=%.6fs] livelock: the node runs forever without time passing", float64(s.Now)/1e9))
	default:
		r.Inconc = true
	}
	if len(w.Viol) > 0 && s.Halt != "panic" && simrt.RaceEnabled {
		r.Inconc = false
	}
	if len(w.Viol) == 0 && len(r.Viol) == 0 && s.Halt == "violation" {
		r.Inconc = true
	}
	return r
}

func short(s string) string {
	p := strings.Split(s, " < ")
	if len(p) > 6 {
		p = p[:6]
	}
	return strings.Join(p, " < ")
}

// class of a violation, to recognise the same failure while minimising.
func class(v string) string {
	if i := strings.Index(v, "] "); i >= 0 && strings.HasPrefix(v, "[t=") {
		v = v[i+2:]
	}
	var b strings.Builder
	for _, c := range v {
		if c >= '0' && c <= '9' {
			if !strings.HasSuffix(b.String(), "#") {
				b.WriteByte('#')
			}
			continue
		}
		b.WriteRune(c)
	}
	s := b.String()
	if i := strings.Index(s, " @ "); i >= 0 {
		s = s[:i]
	}
	f := strings.Fields(s)
	if len(f) > 14 {
		f = f[:14]
	}
	return strings.Join(f, " ")
}
