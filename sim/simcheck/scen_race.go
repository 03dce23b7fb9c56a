package main

import (
	"net"
	"strconv"
	"time"

	"github.com/teonet-go/tru"
	"github.com/teonet-go/tru/hotkey"
	"github.com/teonet-go/tru/teolog"
	"verifsim/simrt"
)

// C22: the race detector watches the code under test while goroutines of the
// application use everything the library exports. The only happens-before
// edges are those of the library's own synchronisation, of starting goroutines
// and timers, and of the hand-over of objects between goroutines of the
// application (tokens below). Nothing else may order accesses, so this
// scenario keeps clear of the recording done by the others.

func init() {
	if !simrt.RaceEnabled {
		return // check.sh makes another build for this one
	}
	reg(&Prop{ID: "C22", Quick: 3000, Thorough: 40000, Scens: []Scenario{
		{"api", 5, genRace, runRace},
		{"conns", 2, genRaceConn, runRace},
		{"keys", 1, genRaceKeys, runRace},
		{"tools", 1, genRaceTools, runRaceTools},
	}})
}

var raceOps = []string{"write", "write", "write", "write", "write", "write-cb", "write-cb", "write-to", "burst", "pump", "pump", "pump", "watch", "watch", "churn", "churn", "connect", "connect", "close", "stat", "stat", "statprint", "statstop",
	"minilog", "foreach", "foreach-write", "punch", "setpunch", "setdelay", "setmax", "info", "info", "new", "truclose", "raw", "logo", "hold"}

var connOps = []string{"dial", "dial", "cchurn", "cwrite", "cwrite", "cwrite", "cwrite", "cwrite", "cread", "cread", "cclose", "cinfo", "lclose", "listen", "accept"}

func (g *Gen) raceBase(nodes int) {
	p := g.p
	g.nodes(nodes)
	g.cleanLink()
	g.schedKnobs()
	p.Cfg.PreemptGap = uint64(g.LogRange(10, 2000))
	p.Cfg.SiteEvery, p.Cfg.SitePct = 0, 0
	if g.Pct(75) {
		p.Cfg.SiteEvery = uint64(g.LogRange(15, 300))
		p.Cfg.SitePct = int(g.LogRange(5, 90))
	}
	p.Cfg.StallPct = 0
	if g.Pct(75) {
		p.Cfg.StallPct = int(g.LogRange(1, 30))
		p.Cfg.MaxStall = g.LogRange(1*ms, 100*ms)
		p.Cfg.StallCeiling = 10 * sec
	}
	p.Link.Base = g.LogRange(20*us, 20*ms)
	if g.Pct(60) { // always, besides the faults
		p.Link.Loss = int(g.LogRange(5, 200))
		p.Link.Dup, p.Link.DupDelay = int(g.LogRange(5, 300)), g.LogRange(10*us, 500*ms)
		p.Link.Jitter = g.LogRange(10*us, 30*ms)
	}
	if g.Pct(60) {
		g.netFaults(8*sec, g.Pct(30))
	}
}

func genRace(g *Gen) {
	p := g.p
	g.raceBase(1 + g.Intn(2))
	g.set("trus", int64(2+g.Intn(3)))
	g.set("own", int64(g.Intn(2)))
	g.set("cbops", int64(g.Intn(60)))
	if g.Pct(25) {
		g.set("level", int64(1+g.Intn(9)))
	}
	n := 2 + g.Intn(5)
	for a := 0; a < n; a++ {
		p.Actors = append(p.Actors, Actor{P: g.Intn(len(p.Nodes))})
	}
	span := g.LogRange(5*ms, 12*sec)
	if g.Pct(80) {
		g.set("boot", int64(g.Intn(64)|g.Intn(64)))
	}
	m := int(g.LogRange(20, 300))
	for i := 0; i < m; i++ {
		k := raceOps[g.Intn(len(raceOps))]
		if (k == "truclose" || k == "new") && !g.Pct(30) {
			k = "write"
		}
		p.Ops = append(p.Ops, Op{A: g.Intn(n), K: k, D: g.LogRange(1*us, 1+2*span*int64(n)/int64(m)), N: g.Range(0, 1<<30), M: g.size(0, 0) % 9000, T: g.Intn(64)})
	}
}

func genRaceConn(g *Gen) {
	p := g.p
	g.raceBase(1 + g.Intn(2))
	n := 2 + g.Intn(5)
	for a := 0; a < n; a++ {
		p.Actors = append(p.Actors, Actor{P: g.Intn(len(p.Nodes))})
	}
	if g.Pct(80) {
		g.set("boot", int64(g.Intn(64)|g.Intn(64)))
	}
	m := int(g.LogRange(20, 200))
	span := g.LogRange(5*ms, 8*sec)
	for i := 0; i < m; i++ {
		k := connOps[g.Intn(len(connOps))]
		if (k == "lclose" || k == "listen") && !g.Pct(40) {
			k = "cwrite"
		}
		p.Ops = append(p.Ops, Op{A: g.Intn(n), K: k, D: g.LogRange(1*us, 1+2*span*int64(n)/int64(m)), N: g.Range(0, 1<<30), M: g.size(0, 0) % 9000, T: g.Intn(64)})
	}
}

func genRaceKeys(g *Gen) {
	genRace(g)
	g.set("keys", g.LogRange(1, 40))
	if g.Pct(50) {
		g.set("level", int64(1+g.Intn(9)))
	}
}

var toolOps = []string{"add", "unknown", "next", "state", "setstate", "string", "run", "run", "stop", "stopaction",
	"level", "setlevel", "switch", "filter", "setfilter", "clearfilter", "flags", "print", "print", "print"}

// genRaceTools: a hotkey menu and a logger used by several goroutines.
func genRaceTools(g *Gen) {
	p := g.p
	g.raceBase(1)
	n := 2 + g.Intn(4)
	for a := 0; a < n; a++ {
		p.Actors = append(p.Actors, Actor{})
	}
	m := int(g.LogRange(20, 400))
	gap := g.LogRange(1*us, 20*ms)
	for i := 0; i < m; i++ {
		p.Ops = append(p.Ops, Op{A: g.Intn(n), K: toolOps[g.Intn(len(toolOps))], D: g.LogRange(1, gap), N: g.Range(0, 1<<30)})
	}
	g.set("keys", g.LogRange(3, 100))
	g.set("keygap", gap)
}

func runRaceTools(w *World) {
	pl := w.Plan
	w.S.Net.OnSend, w.S.Net.OnRead = nil, nil
	w.stopOnViol = false
	rng := simrt.NewRng(pl.Seed ^ 0x23)
	n := w.S.AddNode("n0")
	w.S.Preload(n)
	keys := []string{"a", "b", "c", "d", "e"}
	var h *hotkey.Hotkey
	var l *teolog.Teolog
	boot := &simrt.Event{}
	var tok simrt.Tok
	w.S.GoOn(n, "boot", func() {
		h, l = hotkey.New(), teolog.New()
		tok = simrt.NewTok()
		boot.Set()
	})
	for !boot.IsSet() {
		w.sleep(1 * ms)
	}
	left := len(pl.Actors)
	for a := range pl.Actors {
		w.S.GoOn(n, "actor", func() {
			tok.Take()
			for _, op := range pl.Ops {
				if op.A != a {
					continue
				}
				w.S.SleepNs(op.D)
				w.note("op-"+op.K, 1)
				k := int(op.N)
				key := keys[k%len(keys)]
				switch op.K {
				case "add":
					h.Add(key, "action", func(h *hotkey.Hotkey) {
						switch k >> 8 % 8 {
						case 0:
							h.NextKeyAction(func([]byte) {})
						case 1:
							_ = h.State()
						case 2:
							h.Add(key, "again", nil)
						case 3:
							l.Info.Println("key", key)
						}
					})
				case "unknown":
					h.AddUnknown(func(h *hotkey.Hotkey, b []byte) { simrt.AppRead(b) })
				case "next":
					h.NextKeyAction(func(b []byte) { simrt.AppRead(b) })
				case "state":
					_ = h.State()
				case "setstate":
					h.SetState(k)
				case "string":
					_ = h.String()
				case "run":
					h.Run()
				case "stop":
					h.Stop()
				case "stopaction":
					h.SetStopAction(func() {})
				case "level":
					_ = l.Level()
					_ = l.String()
				case "setlevel":
					l.SetLevel(k % 10)
				case "switch":
					l.SwitchLevel()
				case "filter":
					_ = l.Filter()
				case "setfilter":
					l.SetFilter([]string{"a", "b||c", "key"}[k%3])
				case "clearfilter":
					l.ClearFilter()
				case "flags":
					l.SetFlags(k % 8)
				case "print":
					l.Error.Println("some", k)
					l.Debugvvv.Println("more", k)
				}
			}
			left--
		})
	}
	for i, m := int64(0), pl.get("keys"); i < m || left > 0; i++ {
		w.sleep(rng.LogRange(1, 2*pl.get("keygap")))
		if i >= m {
			w.sleep(1 * ms)
		}
		w.S.Type(n, []byte(keys[rng.Intn(len(keys))]))
	}
	w.sleep(rng.LogRange(1*ms, 1*sec))
}

type rTru struct {
	n      *simrt.Node
	t      *tru.Tru
	addr   string
	tok    simrt.Tok
	closed bool
	chans  []*rChan
}

type rChan struct {
	ch  *tru.Channel
	tok simrt.Tok
}

type rConn struct {
	c   net.Conn
	tok simrt.Tok
}

type rList struct {
	l      net.Listener
	tok    simrt.Tok
	addr   string
	closed bool
}

type raceWorld struct {
	w     *World
	rng   *simrt.Rng
	trus  []*rTru
	conns [2][]*rConn
	lists [2][]*rList
	port  int
	depth int
}

func (r *raceWorld) onNode(n *simrt.Node, i int) *rTru {
	var c []*rTru
	for _, t := range r.trus {
		if t.n == n && !t.closed {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[i%len(c)]
}

func (r *raceWorld) pick(n *simrt.Node, i int) (*rTru, *rChan) {
	t := r.onNode(n, i)
	if t == nil || len(t.chans) == 0 {
		return t, nil
	}
	c := t.chans[(i/7)%len(t.chans)]
	if i%3 > 0 && len(t.chans) > 2 { // mostly the new ones
		c = t.chans[len(t.chans)-1-(i/7)%2]
	}
	c.tok.Take()
	return t, c
}

func (t *rTru) add(ch *tru.Channel) {
	for _, c := range t.chans {
		if c.ch == ch {
			return
		}
	}
	t.chans = append(t.chans, &rChan{ch, simrt.NewTok()})
}

func (r *raceWorld) addrOf(n *simrt.Node, port int) string {
	ip := n.IP4
	if r.w.Plan.V6 {
		ip = n.IP6
	}
	return net.JoinHostPort(ip, strconv.Itoa(port))
}

// newTru starts an instance on the node of the caller.
func (r *raceWorld) newTru(n *simrt.Node, params ...any) {
	x := &rTru{n: n}
	reader := func(ch *tru.Channel, pac *tru.Packet, err error) bool {
		if pac != nil {
			simrt.AppRead(pac.Data())
			simrt.AppWrite(pac.Data()) // the message is the application's
		}
		r.w.msgs++
		if ch != nil && err == nil {
			r.callback(n, x, ch)
		}
		return r.rng.Pct(50)
	}
	connected := func(ch *tru.Channel, err error) {
		if ch != nil {
			x.add(ch)
			r.callback(n, x, ch)
		}
	}
	r.port++
	port := r.port
	ps := []any{reader, connected, tru.PunchFunc(func(a net.Addr, b []byte) { simrt.AppRead(b) })}
	if r.rng.Pct(50) {
		ps = append(ps, tru.MaxDataLenType(r.rng.LogRange(100, 3000)))
	}
	if l := r.w.Plan.get("level"); l > 0 {
		ps = append(ps, []string{"error", "user", "info", "connect", "debug", "debugv", "debugvv", "debugvvv", "none"}[l-1])
	}
	stat := r.rng.Pct(20)
	if stat {
		ps = append(ps, tru.Stat(true))
	}
	ps = append(ps, params...)
	t, err := tru.New(port, ps...)
	if err != nil {
		r.w.note("new failed", 1)
		return
	}
	if stat && r.rng.Pct(50) {
		t.StatisticMinilog()
	}
	x.t, x.addr, x.tok = t, r.addrOf(n, port), simrt.NewTok()
	r.trus = append(r.trus, x)
}

// callback does what an application may do in a callback.
func (r *raceWorld) callback(n *simrt.Node, x *rTru, ch *tru.Channel) {
	if r.depth > 3 || !r.rng.Pct(int(r.w.Plan.get("cbops"))) {
		return
	}
	r.depth++
	defer func() { r.depth-- }()
	switch r.rng.Intn(8) {
	case 0, 1, 2:
		b := rngBytes(r.rng, int(r.rng.LogRange(1, 300)))
		ch.WriteTo(b)
		simrt.AppWrite(b)
	case 3:
		ch.Triptime()
		_ = ch.String()
	case 4:
		if x.t != nil {
			x.tok.Take()
			x.t.Statistic()
		}
	case 5:
		if r.rng.Pct(20) {
			ch.Close()
		}
	case 6:
		if x.t != nil {
			x.tok.Take()
			x.t.ForEachChannel(func(c *tru.Channel) { c.Triptime() })
		}
	case 7:
		ch.ServerMode()
		ch.Destroyed()
		ch.IP()
		ch.Port()
	}
}

func (r *raceWorld) node(i int) *simrt.Node { return r.w.S.Nodes[i] }

func (r *raceWorld) do(n *simrt.Node, op Op) {
	k := int(op.N)
	r.w.note("op-"+op.K, 1)
	switch op.K {
	case "new":
		r.newTru(n)
		return
	case "dial", "cchurn", "cwrite", "cread", "cclose", "cinfo", "lclose", "listen", "accept":
		r.conn(n, op)
		return
	}
	x := r.onNode(n, op.T)
	if x == nil {
		return
	}
	x.tok.Take()
	t := x.t
	_, c := r.pick(n, op.T)
	switch op.K {
	case "churn": // connects and closes again and again
		w, gap := r.rng.LogRange(2, 12), r.rng.LogRange(20*us, 300*ms)
		r.w.S.GoOn(n, "churn", func() {
			x.tok.Take()
			for i := int64(0); i < w && !x.closed; i++ {
				if r.do(n, Op{K: "connect", N: op.N, T: op.T}); len(x.chans) > 0 {
					c := x.chans[len(x.chans)-1]
					c.tok.Take()
					r.w.S.SleepNs(r.rng.LogRange(1, 2*gap))
					c.ch.Close()
				}
				r.w.S.SleepNs(r.rng.LogRange(1, 2*gap))
			}
		})
	case "connect":
		y := r.trus[k%len(r.trus)]
		if y == x || y.closed {
			return
		}
		var rd []tru.ReaderFunc
		if r.w.Plan.get("own") == 1 && k&8 > 0 {
			rd = append(rd, func(ch *tru.Channel, pac *tru.Packet, err error) bool {
				if pac != nil {
					simrt.AppRead(pac.Data())
				}
				r.w.msgs++
				return k&16 > 0
			})
		}
		for _, z := range x.chans { // one connection per pair
			z.tok.Take()
			if z.ch.Addr().String() == y.addr && !z.ch.Destroyed() {
				return
			}
		}
		for _, z := range y.chans {
			z.tok.Take()
			if z.ch.Addr().String() == x.addr && !z.ch.Destroyed() {
				return
			}
		}
		if ch, err := t.Connect(y.addr, rd...); err == nil {
			x.add(ch)
		}
	case "write", "write-cb", "write-to", "burst":
		if c == nil {
			return
		}
		m := 1
		if op.K == "burst" {
			m = 2 + k%20
			op.M %= 600
		}
		for i := 0; i < m; i++ {
			b := rngBytes(r.rng, int(op.M))
			var d []any
			if op.K != "write" {
				d = append(d, func(pac *tru.Packet, err error) {
					if pac != nil {
						pac.ID()
						pac.Len()
					}
				})
			}
			if op.K == "write-to" {
				d = append([]any{time.Duration(1+k%200) * time.Millisecond}, d...)
			}
			c.ch.WriteTo(b, d...)
			simrt.AppWrite(b) // the buffer is the application's again
		}
	case "pump": // writes again and again
		if c == nil {
			return
		}
		w, gap := r.rng.LogRange(3, 60), r.rng.LogRange(20*us, 300*ms)
		r.w.S.GoOn(n, "pump", func() {
			c.tok.Take()
			for i := int64(0); i < w && !x.closed; i++ {
				b := rngBytes(r.rng, int(op.M%600))
				if _, err := c.ch.WriteTo(b); err != nil {
					return
				}
				simrt.AppWrite(b)
				r.w.S.SleepNs(r.rng.LogRange(1, 2*gap))
			}
		})
	case "watch": // takes statistics again and again
		w, gap := r.rng.LogRange(3, 60), r.rng.LogRange(20*us, 300*ms)
		r.w.S.GoOn(n, "watch", func() {
			x.tok.Take()
			for i := int64(0); i < w && !x.closed; i++ {
				t.Statistic()
				r.w.S.SleepNs(r.rng.LogRange(1, 2*gap))
			}
		})
	case "close":
		if c != nil {
			c.ch.Close()
		}
	case "truclose":
		x.closed = true
		t.Close()
	case "stat":
		s := t.Statistic()
		_ = s.String(k&1 > 0)
	case "statprint":
		t.StatisticPrint()
		t.StatisticPrintRunning()
	case "statstop":
		t.StatisticPrintStop()
	case "minilog":
		t.StatisticMinilog()
	case "foreach":
		t.ForEachChannel(func(ch *tru.Channel) {
			_ = ch.String()
			ch.Triptime()
			ch.Destroyed()
		})
	case "foreach-write":
		t.ForEachChannel(func(ch *tru.Channel) { ch.WriteTo(rngBytes(r.rng, k%200)) })
	case "punch":
		y := r.trus[k%len(r.trus)]
		t.WriteToPunch(rngBytes(r.rng, int(op.M)%500), y.addr)
	case "setpunch":
		t.SetPunchCb(func(a net.Addr, b []byte) { simrt.AppRead(b) })
	case "setdelay":
		t.SetSendDelay(k % 300)
	case "setmax":
		t.SetMaxDataLen(100 + k%5000)
	case "raw":
		y := r.trus[k%len(r.trus)]
		t.WriteTo(fuzzDatagram(r.rng, nil), y.addr)
	case "logo":
		t.Logo("app", "1.0")
	case "hold":
		t.Hotkey()
	case "info":
		t.LocalAddr()
		t.LocalPort()
		if c != nil {
			c.ch.Addr()
			c.ch.IP()
			c.ch.Port()
			c.ch.ServerMode()
			c.ch.Triptime()
			c.ch.Destroyed()
			_ = c.ch.String()
		}
	}
}

func (r *raceWorld) conn(n *simrt.Node, op Op) {
	k := int(op.N)
	// the connections of a process
	add := func(c net.Conn) *rConn {
		x := &rConn{c, simrt.NewTok()}
		r.conns[n.ID] = append(r.conns[n.ID], x)
		return x
	}
	get := func() net.Conn {
		cs := r.conns[n.ID]
		if len(cs) == 0 {
			return nil
		}
		x := cs[len(cs)-1-op.T%len(cs)%3]
		x.tok.Take()
		return x.c
	}
	lst := func(id int) *rList {
		var ls []*rList
		for _, x := range r.lists[id] {
			if !x.closed {
				ls = append(ls, x)
			}
		}
		if len(ls) == 0 {
			return nil
		}
		return ls[op.T%len(ls)]
	}
	switch op.K {
	case "listen":
		r.port++
		port := r.port
		l, err := tru.Listen("tru", ":"+strconv.Itoa(port))
		if err != nil {
			return
		}
		r.lists[n.ID] = append(r.lists[n.ID], &rList{l: l, tok: simrt.NewTok(), addr: n.IP4 + ":" + strconv.Itoa(port)})
	case "accept":
		if x := lst(n.ID); x != nil {
			x.tok.Take()
			if c, err := x.l.Accept(); err == nil {
				add(c)
			}
		}
	case "lclose":
		if x := lst(n.ID); x != nil {
			x.tok.Take()
			x.closed = true
			x.l.Close()
		}
	case "dial":
		// a listener of the other process, or not the one Dial uses
		x := lst(len(r.w.S.Nodes) - 1 - n.ID)
		if x != nil && (len(r.w.S.Nodes) > 1 || x != r.lists[0][0] && !r.lists[0][0].closed) {
			if c, err := tru.Dial("tru", x.addr); err == nil {
				add(c)
			}
		}
	case "cwrite":
		if c := get(); c != nil {
			b := rngBytes(r.rng, int(op.M))
			c.Write(b)
			simrt.AppWrite(b)
		}
	case "cchurn": // dials, uses and closes connections again and again
		m, gap := r.rng.LogRange(2, 10), r.rng.LogRange(20*us, 300*ms)
		r.w.S.GoOn(n, "cchurn", func() {
			for i := int64(0); i < m; i++ {
				l := len(r.conns[n.ID])
				r.conn(n, Op{K: "dial", T: op.T + int(i)})
				if len(r.conns[n.ID]) == l {
					return
				}
				c := r.conns[n.ID][len(r.conns[n.ID])-1]
				c.tok.Take()
				for range r.rng.Intn(4) {
					c.c.Write(rngBytes(r.rng, r.rng.Intn(500)))
					r.w.S.SleepNs(r.rng.LogRange(1, gap))
				}
				c.c.Close()
				r.w.S.SleepNs(r.rng.LogRange(1, 2*gap))
			}
		})
	case "cread":
		if c := get(); c != nil {
			b := make([]byte, 1+k%3000)
			m, _ := c.Read(b)
			simrt.AppRead(b[:m])
		}
	case "cclose":
		if c := get(); c != nil {
			c.Close()
		}
	case "cinfo":
		if c := get(); c != nil {
			c.LocalAddr()
			c.RemoteAddr()
			c.SetDeadline(time.Now())
		}
	}
}

func runRace(w *World) {
	pl := w.Plan
	r := &raceWorld{w: w, rng: simrt.NewRng(pl.Seed ^ 0x22), port: 7000}
	w.S.Net.OnSend, w.S.Net.OnRead = nil, nil
	w.stopOnViol = false
	w.S.Net.Default = pl.Link
	var boot []*simrt.Event
	for i, c := range pl.Nodes {
		n := w.S.AddNode("n" + strconv.Itoa(i))
		if c.Rate != 0 {
			n.SetClock(c.Rate, c.Wall)
		}
		w.S.Net.Link(n, n) // the links between programs of a host are like others
		w.S.Preload(n)
	}
	conn := pl.Scen == "conns"
	for i := range pl.Nodes {
		n := w.S.Nodes[i]
		ev := &simrt.Event{}
		boot = append(boot, ev)
		w.S.GoOn(n, "boot", func() {
			if conn {
				r.conn(n, Op{K: "listen"})
				if len(pl.Nodes) == 1 {
					r.conn(n, Op{K: "listen"})
					r.conn(n, Op{K: "listen"})
				}
			} else {
				for j := i; j < int(pl.get("trus")); j += len(pl.Nodes) {
					if j == i && pl.get("keys") > 0 {
						r.newTru(n, tru.Hotkey(true))
					} else {
						r.newTru(n)
					}
				}
			}
			ev.Set()
		})
	}
	w.schedule()
	for _, ev := range boot {
		// no edge from here to the actors: objects carry their own
		for !ev.IsSet() {
			w.sleep(1 * ms)
		}
	}
	if conn {
		for i := range pl.Nodes {
			for _, x := range r.lists[i] {
				r.acceptor(w.S.Nodes[i], x)
			}
		}
	}
	left := len(pl.Actors)
	for a, ac := range pl.Actors {
		n := w.S.Nodes[ac.P]
		w.S.GoOn(n, "actor", func() {
			if pl.get("boot")>>a&1 > 0 {
				if conn {
					r.do(n, Op{K: "dial", N: int64(a), T: a})
				} else {
					r.do(n, Op{K: "connect", N: int64(a + 1), T: a})
				}
			}
			for _, op := range pl.Ops {
				if op.A != a {
					continue
				}
				w.S.SleepNs(op.D)
				r.do(n, op)
			}
			left--
		})
	}
	if k := pl.get("keys"); k > 0 {
		w.S.GoOn(nil, "keys", func() {
			for i := int64(0); i < k; i++ {
				w.S.SleepNs(r.rng.LogRange(1*us, 500*ms))
				w.S.Type(w.S.Nodes[0], []byte(string("hhu?UlLuzU"[r.rng.Intn(10)])))
			}
		})
	}
	t0 := w.S.Now
	for left > 0 && w.S.Now < t0+25*sec {
		w.sleep(50 * ms)
	}
	w.sleep(r.rng.LogRange(1*ms, 8*sec))
}

// acceptor accepts the connections of a listener, reads and sometimes echoes.
func (r *raceWorld) acceptor(n *simrt.Node, x *rList) {
	r.w.S.GoOn(n, "acceptor", func() {
		x.tok.Take()
		for {
			c, err := x.l.Accept()
			if err != nil {
				return
			}
			r.conns[n.ID] = append(r.conns[n.ID], &rConn{c, simrt.NewTok()})
			r.w.S.GoOn(n, "echo", func() {
				b := make([]byte, 4096)
				for {
					m, err := c.Read(b)
					if err != nil && m == 0 {
						return
					}
					simrt.AppRead(b[:m])
					if r.rng.Pct(20) {
						c.Write(b[:m])
					}
				}
			})
		}
	})
}
