package main

import (
	"net"
	"strconv"

	"github.com/teonet-go/tru"
	"verifsim/simrt"
)

// Closing a node (C18); operations from callbacks and goroutines (C19).

func init() {
	reg(&Prop{ID: "C18", Quick: 8000, Thorough: 60000, Scens: []Scenario{
		{"tru-close", 6, genTruClose, runTruClose},
	}})
	reg(&Prop{ID: "C19", Quick: 5000, Thorough: 50000, Scens: []Scenario{
		{"api", 5, genAPI, runAPI},
		{"contend", 2, genContend, runAPI},
		{"callback", 2, genCallback, runCallback},
	}})
}

// --- C18 ------------------------------------------------------------------------

func genTruClose(g *Gen) {
	genStream(g, streamOpt{clients: 3, writers: 2, msgs: 120, span: 3 * sec, faultPct: 30, frag: true, cb: true, shortCb: true})
	p := g.p
	delete(p.P, "ff")
	p.Nodes = append(p.Nodes, NodeCfg{Rate: 1000}) // connects later
	g.set("who", int64(g.Intn(len(p.Nodes))))
	span := int64(0)
	for _, a := range p.Actors {
		_ = a
	}
	sum := map[int]int64{}
	for _, op := range p.Ops {
		sum[op.A] += op.D
		span = max(span, sum[op.A])
	}
	g.set("at", g.Range(0, span))
	g.set("via", int64(g.Intn(6)))
	g.set("n", int64(1+g.Intn(3)/2*2))
	if g.Pct(40) {
		g.set("stat", 1)
	}
	if g.Pct(40) {
		g.set("rebind", 1)
	}
	at := p.P["at"]
	near := func() int64 {
		switch g.Intn(4) {
		case 3:
			return at + g.LogRange(1*us, 1*sec)
		case 0:
			return max(0, at-g.LogRange(1*us, 2*p.Link.Base+1*ms))
		case 1:
			return max(0, at+g.Range(-3, 3)*p.Link.Base)
		}
		return max(0, at-g.LogRange(1*ms, 6*sec))
	}
	if g.Pct(30) { // half connected
		p.Ops = append(p.Ops, Op{A: -1, K: "halfopen", D: max(0, at-g.LogRange(1*ms, 4*sec)), N: int64(g.Intn(100))})
	}
	kinds := []string{"connect-to", "connect-from", "connect-none", "close", "peerclose", "stat", "statprint", "punch", "halfopen"}
	for k := g.Intn(6); k > 0; k-- {
		p.Ops = append(p.Ops, Op{A: -1, K: kinds[g.Intn(len(kinds))], D: near(), N: int64(g.Intn(100))})
	}
	if g.Pct(15) { // much is under way
		p.Cfg.PreemptGap = max(p.Cfg.PreemptGap, 1000)
		for k := 1 + g.Intn(2); k > 0; k-- {
			p.Ops = append(p.Ops, Op{A: -1, K: "flood", D: max(0, at-g.LogRange(1*us, 4*p.Link.Base+20*ms)), N: g.LogRange(10, 1000), M: g.LogRange(16, 300), T: g.Intn(3)})
		}
	}
}

func runTruClose(w *World) {
	pl := w.Plan
	rec := w.record()
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	late := w.Peers[len(w.Peers)-1]
	for i, p := range w.Peers {
		port := 0
		if i == 0 {
			port = 7070
		}
		var par []any
		if pl.get("stat") == 1 {
			par = append(par, tru.Stat(true))
		}
		if err := p.start(port, par...); err != nil {
			w.fail("tru.New on %s: %v", p.N.Name, err)
			return
		}
	}
	x := w.Peers[int(pl.get("who"))%len(w.Peers)]
	for _, p := range w.Peers[1 : len(w.Peers)-1] {
		if w.establish(p, w.Peers[0]) == nil {
			return
		}
	}
	if x == late && w.establish(late, w.Peers[0]) == nil {
		return
	}
	port := x.Port
	called, returned := int64(0), int64(0)
	want := int(pl.get("n"))
	ncalls, nret := 0, 0
	var callback string
	quiet := func() int64 { // "shortly afterwards"
		if returned == 0 {
			return 1 << 60
		}
		return returned + 300*ms + w.stalls()
	}
	w.tapSend = append(w.tapSend, func(p *simrt.Pkt) {
		if p.From == x.N && !p.Failed && w.S.Now > quiet() && callback == "" {
			callback = sprintf("it sent %s to %s", pktName(p.Data), p.Dst)
		}
	})
	x.onMsg = func(e *End, data []byte, _ *tru.Packet) {
		if w.S.Now > quiet() && callback == "" {
			callback = sprintf("its reader got a message of %s", e)
		}
	}
	x.onConnect = func(e *End) {
		if w.S.Now > quiet() && callback == "" {
			callback = sprintf("its connect callback was called for %s", e)
		}
	}
	var closeHere func() // a callback closes the node
	doClose := func() {
		if called == 0 {
			called = w.S.Now
		}
		ncalls++
		w.tr("%s: Tru.Close", x.N.Name)
		x.T.Close()
		w.tr("%s: Tru.Close returned", x.N.Name)
		nret++
		if nret == ncalls {
			returned = w.S.Now
		}
	}
	w.schedule()
	via := pl.get("via")
	if via >= 3 {
		closeHere = doClose
	}
	trig := func(kind int64) {
		if closeHere != nil && via == kind && w.S.Now >= w.t0+pl.get("at") {
			f := closeHere
			closeHere = nil
			w.note(sprintf("close-in-callback-%d", kind), 1)
			f()
		}
	}
	onMsg := x.onMsg
	x.onMsg = func(e *End, data []byte, pac *tru.Packet) { onMsg(e, data, pac); trig(3) }
	onConnect := x.onConnect
	x.onConnect = func(e *End) { onConnect(e); trig(4) }
	w.onCb = func(m *Msg) {
		if m.E.P == x {
			trig(5)
		}
	}
	var evs []*simrt.Event
	doneActors := w.runActors(nil)
	for i := range pl.Ops {
		op := pl.Ops[i]
		if op.A != -1 {
			continue
		}
		w.S.After(op.D, func() {
			switch op.K {
			case "connect-to", "peerclose", "halfopen", "stat", "statprint", "punch":
			case "flood":
				if op.T == 1 {
					break
				}
				fallthrough
			default:
				if ncalls > 0 { // the application does not use a closed node
					return
				}
			}
			w.note("op-"+op.K, 1)
			switch op.K {
			case "connect-to":
				if late != x {
					evs = append(evs, late.spawn("connect", func() { late.connectTo(x.addrPort(port)) }))
				}
			case "connect-from":
				if late != x {
					evs = append(evs, x.spawn("connect", func() { x.connect(late) }))
				}
			case "connect-none":
				evs = append(evs, x.spawn("connect", func() { x.connectTo("10.7.7.7:7") }))
			case "close", "peerclose":
				var es []*End
				for _, e := range x.ends {
					if o := e.pair(); op.K == "peerclose" && o != nil {
						es = append(es, o)
					} else if op.K == "close" {
						es = append(es, e)
					}
				}
				if len(es) > 0 {
					e := es[int(op.N)%len(es)]
					e.closeAt = w.S.Now
					evs = append(evs, e.P.spawn("close", func() { e.Ch.Close() }))
				}
			case "stat":
				evs = append(evs, x.spawn("stat", func() { x.T.Statistic() }))
			case "statprint":
				evs = append(evs, x.spawn("statprint", func() { x.T.StatisticPrint() }))
			case "punch":
				evs = append(evs, x.spawn("punch", func() { x.T.WriteToPunch([]byte("punch"), late.addr()) }))
			case "flood":
				for _, e := range x.ends {
					if e := e; op.T != 1 && e.alive() {
						evs = append(evs, x.spawn("flood", func() {
							for i := int64(0); i < op.N; i++ {
								if e.write(100, int(op.M), -1).Err != "" {
									return
								}
							}
						}))
					}
					if e := e.pair(); op.T != 0 && e != nil && e.alive() {
						evs = append(evs, e.P.spawn("flood", func() {
							for i := int64(0); i < op.N; i++ {
								if e.write(100, int(op.M), -1).Err != "" {
									return
								}
							}
						}))
					}
				}
			case "halfopen":
				for i := int64(0); i < 1+op.N%7; i++ {
					r := simrt.NewRng(pl.Seed ^ uint64(op.N+i))
					w.S.Net.Inject(stranger(r, pl.V6), x.N, port, freshConnect(r, *rec), 0)
				}
			}
		})
	}
	var live []*End // channels that are not at all about to end
	w.sleepUntil(w.t0 + pl.get("at"))
	if via >= 3 {
		w.until(sec, func() bool { return ncalls > 0 })
		if ncalls == 0 {
			closeHere = nil
		} else {
			want = 1
		}
	}
	if ncalls == 0 {
		for _, e := range x.ends {
			if e.alive() && e.closeAt == 0 && e.pair().closeAt == 0 && e.Created < w.S.Now-sec-4*(pl.Link.Base+pl.Link.Jitter) {
				live = append(live, e)
			}
		}
		for i := 0; i < want; i++ {
			evs = append(evs, x.spawn("Tru.Close", doClose))
		}
	}
	if !w.until(5*sec+w.stalls(), func() bool { return nret >= want }) {
		w.fail("%s: Tru.Close did not return in 5 s", x.N.Name)
		return
	}
	// what holds when it has returned
	for _, e := range x.ends {
		e := e
		x.on("destroyed", 5*sec, func() {
			if !e.Ch.Destroyed() {
				w.fail("%s has not ended although Tru.Close returned", e)
			}
		})
	}
	var err error
	var again *tru.Tru
	x.on("bind", 20*sec, func() {
		if pl.get("rebind") == 1 {
			again, err = tru.New(port)
			return
		}
		c, e := simrt.ListenPacket("udp", ":"+strconv.Itoa(port))
		if err = e; err == nil {
			c.Close()
		}
	})
	if err != nil {
		w.fail("%s: the port %d can't be bound again after Tru.Close: %v", x.N.Name, port, err)
		return
	}
	if again != nil {
		ok := x.on("again", 60*sec, func() { again.Close() })
		if !ok {
			w.fail("%s: Close of another Tru on the same port did not return", x.N.Name)
			return
		}
	}
	if len(x.closed) != 1 {
		w.fail("%s: the reader was told %d times that the node is closed", x.N.Name, len(x.closed))
		return
	}
	clean := len(pl.Faults) == 0
	if clean {
		w.sleep(sec + w.stalls() + pl.Link.Base + pl.Link.Jitter)
		for _, e := range live {
			if o := e.pair(); len(o.Ended) == 0 {
				w.fail("%s was ended by Tru.Close %.3f s ago but %s has not heard of it", e, f9(w.S.Now-returned), o)
				return
			}
		}
	}
	// everything is gone shortly afterwards (delivery and connect timeouts
	// pass, but nothing goes on)
	w.sleepUntil(returned + sec + w.stalls())
	arms := x.N.FuncArms()
	w.sleepUntil(returned + 6*sec + w.stalls())
	if n := x.N.FuncArms(); n > arms {
		w.fail("%s started %d timers between 1 s and %.1f s after Tru.Close", x.N.Name, n-arms, f9(w.S.Now-returned))
		return
	}
	if !doneActors() {
		w.sleepUntil(max(w.S.Now, w.faultsEnd) + 30*sec)
	}
	for _, ev := range evs {
		if !ev.Wait(30 * sec) {
			w.fail("an operation on a node does not return after Tru.Close of %s", x.N.Name)
			return
		}
	}
	if !w.until(60*sec, doneActors) {
		w.fail("a write does not return after Tru.Close of %s", x.N.Name)
		return
	}
	w.sleep(sec)
	if callback != "" {
		w.fail("%s: long after Tru.Close %s", x.N.Name, callback)
		return
	}
	for _, e := range x.ends {
		g := 0
		for _, y := range e.Ended {
			if y.kind == "global" {
				g++
			}
		}
		if g != 1 {
			w.fail("%s: the reader was told %d times that the channel ended", e, g)
			return
		}
	}
	if n := w.S.LiveGoroutines(x.N); len(n) > 0 {
		w.fail("%s still has %d goroutines %.1f s after Tru.Close: %v", x.N.Name, len(n), f9(w.S.Now-returned), n)
	}
	if n := x.N.TimersLive(); n > 0 {
		w.fail("%s still has %d timers %.1f s after Tru.Close", x.N.Name, n, f9(w.S.Now-returned))
	}
	if n := x.N.Sockets(); n > 0 {
		w.fail("%s still has %d sockets after Tru.Close", x.N.Name, n)
	}
	w.note("closed-channels", int64(len(x.ends)))
	w.note("closed-live", int64(len(live)))
	// a new node works on the port
	if len(w.Viol) > 0 || x != w.Peers[0] || !clean {
		return
	}
	if err := x.start(port); err != nil {
		w.fail("%s: New on the same port after Tru.Close: %v", x.N.Name, err)
		return
	}
	p := w.newPeer(NodeCfg{Rate: 1000})
	pl.Nodes = append(pl.Nodes[:len(w.Peers)-1:len(w.Peers)-1], NodeCfg{})
	if err := p.start(0); err == nil {
		if e := w.establish(p, x); e != nil {
			w.exchange(e)
			w.exchange(e.pair())
		}
	}
}

// --- C19 ------------------------------------------------------------------------

var apiOps = []string{"write", "write", "write", "writecb", "stat", "foreach", "foreach-write", "foreach-stat", "punch", "triptime",
	"statprint", "statstop", "minilog", "running", "senddelay", "maxdata", "string", "addrs", "close", "connect", "connect", "connect-none", "statstring"}

func genAPI(g *Gen) {
	genStream(g, streamOpt{clients: 3, writers: 2, msgs: 60, span: 3 * sec, faultPct: 30, frag: true, cb: true, minSize: 1})
	p := g.p
	delete(p.P, "ff")
	p.Nodes = append(p.Nodes, NodeCfg{Rate: 1000}) // a node to connect to
	for k := int(g.LogRange(1, 6)); k > 0; k-- {   // goroutines
		n := g.Intn(len(p.Nodes))
		a := 100 + k
		gap := g.LogRange(1*us, 200*ms)
		for i := int(g.LogRange(1, 60)); i > 0; i-- {
			p.Ops = append(p.Ops, Op{A: a, K: apiOps[g.Intn(len(apiOps))], T: n, D: g.Range(0, gap), N: g.Range(0, 1<<30)})
		}
	}
	for _, cb := range []string{"msg", "conn", "punch", "deliv", "end"} {
		if g.Pct(60) {
			g.set("cb-"+cb, g.LogRange(1, 100))
		}
	}
	for k := g.Intn(20); k > 0; k-- { // punches from outside
		p.Ops = append(p.Ops, Op{A: -2, K: "inject-punch", T: g.Intn(len(p.Nodes)), D: g.Range(0, 3*sec), N: g.Range(0, 1<<30)})
	}
}

// genContend: a few channels that are not acknowledged for some seconds, and
// operations at the very moments at which the timers of the node expire.
func genContend(g *Gen) {
	p := g.p
	g.nodes(2 + g.Intn(2))
	g.cleanLink()
	g.schedKnobs()
	p.Cfg.PreemptGap = uint64(g.LogRange(5, 400))
	p.Cfg.NestPct = int(g.LogRange(3, 70))
	if g.Pct(60) {
		p.Cfg.StallPct = int(g.LogRange(1, 20))
		p.Cfg.MaxStall = g.LogRange(50*us, 120*ms)
		p.Cfg.StallCeiling = 800 * ms
	}
	p.Nodes = append(p.Nodes, NodeCfg{Rate: 1000})
	for c := 1; c < len(p.Nodes)-1; c++ {
		for d := 0; d < 2; d++ {
			a := len(p.Actors)
			p.Actors = append(p.Actors, Actor{c * (1 - d), c * d, 0})
			for i := g.LogRange(2, 25); i > 0; i-- {
				op := Op{A: a, K: "send", M: -1, N: g.LogRange(10, 300)}
				if g.Pct(50) {
					op.D = g.LogRange(1*us, 200*ms)
				}
				if g.Pct(30) {
					op.M = g.LogRange(50*ms, 2*sec)
				}
				p.Ops = append(p.Ops, op)
			}
		}
	}
	if g.Pct(80) {
		g.set("noacks", g.LogRange(100*ms, 4*sec))
	}
	g.set("align", int64(30+g.Intn(70)))
	ops := apiOps
	if g.Pct(60) { // some kinds only
		ops = nil
		for k := 1 + g.Intn(4); k > 0; k-- {
			ops = append(ops, apiOps[g.Intn(len(apiOps))])
		}
	}
	for k := 2 + g.Intn(4); k > 0; k-- {
		n := g.Intn(len(p.Nodes) - 1)
		for i := int(g.LogRange(5, 40)); i > 0; i-- {
			p.Ops = append(p.Ops, Op{A: 100 + k, K: ops[g.Intn(len(ops))], T: n, D: g.LogRange(1, 100*ms), N: g.Range(0, 1<<30)})
		}
	}
	for _, cb := range []string{"msg", "deliv", "end"} {
		if g.Pct(30) {
			g.set("cb-"+cb, g.LogRange(1, 100))
		}
	}
}

type apiCall struct {
	k     string
	at    int64
	limit int64
	node  *simrt.Node
	where string
	peer  *Peer
}

func runAPI(w *World) {
	pl := w.Plan
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	for i, p := range w.Peers {
		port := 0
		if i == 0 {
			port = 7070
		}
		if err := p.start(port); err != nil {
			w.fail("tru.New on %s: %v", p.N.Name, err)
			return
		}
	}
	for _, p := range w.Peers[1 : len(w.Peers)-1] {
		if w.establish(p, w.Peers[0]) == nil {
			return
		}
	}
	calls := map[int]*apiCall{}
	ncall := 0
	connects := map[*Peer]int{} // in callbacks
	connecting := map[string]bool{}
	budget := 400
	depth := 0
	rng := simrt.NewRng(pl.Seed ^ 0xc19)
	var do func(p *Peer, k string, n int64, where string)
	measured := func(p *Peer, k string, limit int64, where string, f func()) {
		ncall++
		id := ncall
		calls[id] = &apiCall{k, w.S.Now, limit, p.N, where, p}
		f()
		delete(calls, id)
	}
	pick := func(p *Peer, n int64) *End {
		var es []*End
		for _, e := range p.ends {
			if len(e.Ended) == 0 {
				es = append(es, e)
			}
		}
		if len(es) == 0 {
			return nil
		}
		return es[int(n)%len(es)]
	}
	do = func(p *Peer, k string, n int64, where string) {
		budget--
		if budget < 0 {
			return
		}
		w.note("api-"+k, 1)
		w.note("from-"+where, 1)
		w.tr("%s: %s from %s", p.N.Name, k, where)
		limit := 3 * sec
		if where == "msg" || where == "conn" || where == "end" {
			limit = 4 * sec
		}
		switch k {
		case "write", "writecb":
			if e := pick(p, n); e != nil {
				cb := int64(-1)
				if k == "writecb" {
					cb = 0
				}
				wid := 200 + len(e.W)
				measured(p, k, limit, where, func() { e.write(wid, 1+int(n)%2000, cb) })
			}
		case "stat":
			measured(p, k, limit, where, func() { p.T.Statistic() })
		case "statstring":
			measured(p, k, limit, where, func() { s := p.T.Statistic(); s.String(); s.NumRows() })
		case "foreach":
			measured(p, k, limit, where, func() {
				p.T.ForEachChannel(func(ch *tru.Channel) { ch.Triptime(); ch.Destroyed(); ch.ServerMode() })
			})
		case "foreach-write":
			measured(p, k, 2*limit, where, func() {
				p.T.ForEachChannel(func(ch *tru.Channel) { ch.WriteTo([]byte("from ForEachChannel")) })
			})
		case "foreach-stat":
			measured(p, k, 2*limit, where, func() {
				p.T.ForEachChannel(func(ch *tru.Channel) {
					p.T.Statistic()
					p.T.ForEachChannel(func(ch *tru.Channel) { ch.Addr() })
				})
			})
		case "punch":
			q := w.Peers[int(n)%len(w.Peers)]
			if q != p {
				measured(p, k, limit, where, func() { p.T.WriteToPunch([]byte("hello"), q.addr()) })
			}
		case "triptime":
			if e := pick(p, n); e != nil {
				measured(p, k, limit, where, func() {
					e.Ch.Triptime()
					e.Ch.Destroyed()
					e.Ch.Addr()
					e.Ch.IP()
					e.Ch.Port()
					e.Ch.String()
				})
			}
		case "statprint":
			measured(p, k, limit, where, func() { p.T.StatisticPrint() })
		case "statstop":
			measured(p, k, limit, where, func() { p.T.StatisticPrintStop() })
		case "minilog":
			measured(p, k, limit, where, func() { p.T.StatisticMinilog() })
		case "running":
			measured(p, k, limit, where, func() { p.T.StatisticPrintRunning() })
		case "senddelay":
			measured(p, k, limit, where, func() { p.T.SetSendDelay(15 + int(n)%100) })
		case "maxdata":
			if n%4 == 0 {
				measured(p, k, limit, where, func() { p.T.SetMaxDataLen(100 + int(n)%1000) })
			}
		case "string", "addrs":
			measured(p, k, limit, where, func() { p.T.LocalAddr(); p.T.LocalPort(); p.T.Hotkey() })
		case "close":
			if e := pick(p, n); e != nil && n%3 == 0 {
				e.closeAt = w.S.Now
				measured(p, k, limit, where, func() { e.Ch.Close() })
			}
		case "connect", "connect-none":
			// a connect in a callback of the reading goroutine holds up its node
			if where == "msg" || where == "conn" || where == "end" {
				if connects[p]++; connects[p] > 1 {
					return
				}
			}
			addr := "10.7.7.7:7"
			if k == "connect" {
				q := w.Peers[len(w.Peers)-1]
				if q == p {
					return
				}
				addr = q.addr()
			}
			// one connect at a time and no second channel to a peer
			key := p.N.Name + addr
			if k == "connect" && (connecting[key] || p.liveEnd(w.Peers[len(w.Peers)-1]) != nil) {
				return
			}
			connecting[key] = true
			measured(p, k, 6*sec, where, func() {
				p.connectTo(addr)
			})
			connecting[key] = false
		}
	}
	inCb := func(p *Peer, where string) {
		pct := pl.get("cb-" + where)
		if pct == 0 || depth > 3 || !rng.Pct(int(pct)) {
			return
		}
		depth++
		for k := 1 + rng.Intn(2); k > 0; k-- {
			op := apiOps[rng.Intn(len(apiOps))]
			if where == "end" && op == "close" {
				op = "foreach"
			}
			do(p, op, int64(rng.Uint64()>>20), where)
		}
		depth--
	}
	for _, p := range w.Peers {
		p := p
		p.onMsg = func(e *End, data []byte, _ *tru.Packet) { inCb(p, "msg") }
		p.onConnect = func(e *End) { inCb(p, "conn") }
		p.onEnd = func(e *End) { inCb(p, "end") }
		if !p.on("punchcb", 10*sec, func() {
			p.T.SetPunchCb(func(a net.Addr, b []byte) { p.onPunch(a, b); inCb(p, "punch") })
		}) {
			w.fail("SetPunchCb did not return")
			return
		}
	}
	w.onCb = func(m *Msg) { inCb(m.E.P, "deliv") }
	w.schedule()
	if d := pl.get("noacks"); d > 0 {
		w.S.Net.Drop = func(p *simrt.Pkt) bool {
			st, _, ok := parse(p.Data)
			return ok && st == stAck && w.S.Now < w.t0+d
		}
		w.faultsEnd = max(w.faultsEnd, w.t0+d)
	}
	done := w.runActors(nil)
	var evs []*simrt.Event
	for a := 101; a < 110; a++ {
		var ops []Op
		for _, op := range pl.Ops {
			if op.A == a {
				ops = append(ops, op)
			}
		}
		if len(ops) == 0 {
			continue
		}
		p := w.Peers[ops[0].T%len(w.Peers)]
		evs = append(evs, p.spawn("api", func() {
			for _, op := range ops {
				w.S.SleepNs(op.D)
				if op.N%100 < pl.get("align") { // when a timer expires
					t := w.S.NextTimer(p.N, w.S.Now+100*ms) + (op.N>>8)%2000 - 1000
					w.S.SleepNs(max(0, t-w.S.Now))
				}
				do(p, op.K, op.N, "goroutine")
			}
		}))
	}
	for i := range pl.Ops {
		op := pl.Ops[i]
		if op.K == "inject-punch" {
			p := w.Peers[op.T%len(w.Peers)]
			w.S.After(op.D, func() {
				w.S.Net.Inject(stranger(simrt.NewRng(uint64(op.N)), pl.V6), p.N, p.Port, packet(stPunch, 0, []byte("punch")), 0)
			})
		}
	}
	overdue := func() bool {
		for id := 1; id <= ncall; id++ {
			// a connect in a callback holds up what waits for the callback
			if c := calls[id]; c != nil && w.S.Now > c.at+c.limit+w.stalls()+7*sec*int64(connects[c.peer]) {
				w.fail("%s: %s called from %s at %.3fs has not returned in %.1f s; blocked: %v", c.node.Name, c.k, c.where, f9(c.at), f9(w.S.Now-c.at), w.S.Blocked(c.node, c.at+1*sec, ""))
				return true
			}
		}
		return false
	}
	busy := func() bool {
		for _, ev := range evs {
			if !ev.IsSet() {
				return true
			}
		}
		return len(calls) > 0 || !done()
	}
	for t := w.S.Now + 200*sec + max(0, w.faultsEnd-w.S.Now); busy() && w.S.Now < t; {
		w.sleep(100 * ms)
		if overdue() {
			return
		}
	}
	if busy() {
		w.fail("operations on the nodes do not finish")
		return
	}
	w.sleepUntil(w.faultsEnd)
	w.heal()
	budget = 0
	w.sleep(3*sec + w.stalls())
	// the nodes still serve their peers
	var ends []*End
	for _, e := range w.allEnds() {
		if e.alive() && e.closeAt == 0 && e.pair().closeAt == 0 {
			ends = append(ends, e)
		}
	}
	for _, e := range ends {
		if !w.exchange(e) {
			return
		}
	}
	w.note("alive", int64(len(ends)))
	p := w.newPeer(NodeCfg{Rate: 1000})
	pl.Nodes = append(pl.Nodes[:len(w.Peers)-1:len(w.Peers)-1], NodeCfg{})
	if err := p.start(0); err != nil {
		w.fail("tru.New: %v", err)
		return
	}
	for _, q := range w.Peers[:len(w.Peers)-1] {
		e := w.establish(p, q)
		if e == nil {
			return
		}
		if !w.exchange(e) {
			return
		}
	}
}

// exchange writes a message to e and waits until the peer has got one.
func (w *World) exchange(e *End) bool {
	n := len(e.pair().Recv)
	if !e.P.on("write", 10*sec, func() { e.Ch.WriteTo([]byte("the last message")) }) {
		w.fail("%s: write did not return", e)
		return false
	}
	if !w.until(12*sec+w.stalls(), func() bool { return len(e.pair().Recv) > n || !e.alive() }) {
		w.fail("%s: messages are not delivered any more", e)
		return false
	}
	return true
}
