package main

import (
	"io"
	"net"
	"strconv"

	"github.com/teonet-go/tru"
	"verifsim/simrt"
)

// net.Conn over tru: contents (C16) and closing (C17).

func init() {
	reg(&Prop{ID: "C16", Quick: 10000, Thorough: 60000, Scens: []Scenario{
		{"conn", 6, genConn, runConn},
	}})
	reg(&Prop{ID: "C17", Quick: 14000, Thorough: 60000, Scens: []Scenario{
		{"close", 6, genConnClose, runConnClose},
		{"dial-close", 2, genDialClose, runDialClose},
		{"queued", 2, genQueued, runQueued},
	}})
}

// connEnd is one side of a net.Conn.
type connEnd struct {
	*End
	s       *session
	srv     bool
	c       net.Conn
	hold    *simrt.Event // reading starts then
	readEnd simrt.Event  // Read returned an error
	closed  int64        // first call of Close
	closeOK int64        // first return of Close
	calls   map[int]call // calls of Read and Write which did not return yet
	ncall   int
}

type call struct {
	kind string
	at   int64
}

// session is one Dial.
type session struct {
	from, to *Peer
	d, a     *connEnd // dialing and accepting side
	failed   bool
	accepted simrt.Event
	ops      []Op
	onA      func() // the accepting side is there
	evs      []*simrt.Event
}

// conns is the state of a scenario with net.Conn.
type conns struct {
	*World
	sess []*session
}

func (w *World) newConns() *conns { return &conns{World: w} }

func (k *conns) newEnd(p, q *Peer, srv bool, s *session) *connEnd {
	k.endID++
	e := &End{id: k.endID, epoch: p.epoch, P: p, Server: srv, Created: k.S.Now, W: map[int]*Stream{}}
	e.Addr = q.N.Name
	p.ends = append(p.ends, e)
	return &connEnd{End: e, s: s, srv: srv, calls: map[int]call{}}
}

func (c *connEnd) other() *connEnd {
	if c.srv {
		return c.s.d
	}
	return c.s.a
}

// listen starts a listener on p and accepts connections.
func (k *conns) listen(p *Peer, port int, pause func() int64) (ln net.Listener, ok bool) {
	var err error
	if !p.on("listen", 30*sec, func() { ln, err = tru.Listen("tru", ":"+strconv.Itoa(port)) }) {
		k.fail("Listen on %s did not return", p.N.Name)
		return nil, false
	}
	if err != nil {
		k.fail("Listen on %s: %v", p.N.Name, err)
		return nil, false
	}
	p.Port = port
	nacc, serve := k.Plan.get("nacc"), false
	if nacc < 0 { // a goroutine accepts again when its connection has ended
		nacc, serve = int64(len(k.Peers)-2), true
	}
	for i := int64(0); i <= nacc; i++ {
		p.spawn("accept", func() {
			for {
				if d := pause(); d > 0 {
					k.S.SleepNs(d)
				}
				c, err := ln.Accept()
				if err != nil {
					k.tr("%s: Accept: %v", p.N.Name, err)
					return
				}
				if s := k.gotConn(p, c); serve && s != nil {
					s.a.readEnd.Wait(1 << 50)
				}
			}
		})
	}
	return ln, true
}

// gotConn: Accept on p returned c.
func (k *conns) gotConn(p *Peer, c net.Conn) *session {
	ra, _ := c.RemoteAddr().(*net.UDPAddr)
	var best *session
	for _, s := range k.sess {
		if ra != nil && s.to == p && s.a == nil && (ra.IP.Equal(net.ParseIP(s.from.N.IP4)) || ra.IP.Equal(net.ParseIP(s.from.N.IP6))) {
			best = s
			break
		}
	}
	if best == nil {
		k.fail("Accept on %s returned a connection from %v which nobody made, or made only once", p.N.Name, ra)
		return nil
	}
	a := k.newEnd(p, best.from, true, best)
	a.c = c
	best.a = a
	a.Pair, best.d.Pair = best.d.End, a.End
	k.tr("%s: Accept: #%d, the peer of #%d", p.N.Name, a.id, best.d.id)
	if d := best.d; d.c != nil {
		k.checkAddrs(best)
	}
	if best.onA != nil {
		best.onA()
	}
	best.accepted.Set()
	return best
}

func (k *conns) checkAddrs(s *session) {
	la, _ := s.d.c.LocalAddr().(*net.UDPAddr)
	ra, _ := s.a.c.RemoteAddr().(*net.UDPAddr)
	if la == nil || ra == nil || la.Port != ra.Port {
		k.fail("%s has the address %v, its peer %s sees %v", s.d.End, la, s.a.End, ra)
	}
}

// dial connects; runs on the node of s.from.
func (k *conns) dial(s *session) bool {
	k.tr("%s: Dial #%d", s.from.N.Name, s.d.id)
	c, err := tru.Dial("tru", s.to.addr())
	if err != nil {
		k.tr("%s: Dial #%d: %v", s.from.N.Name, s.d.id, err)
		s.failed = true
		return false
	}
	if c == nil {
		k.fail("Dial on %s returned neither connection nor error", s.from.N.Name)
		return false
	}
	s.d.c = c
	k.tr("%s: dialed #%d", s.from.N.Name, s.d.id)
	if ra, ok := c.RemoteAddr().(*net.UDPAddr); !ok || ra.String() != s.to.addr() {
		k.fail("%s: RemoteAddr is %v, dialed %s", s.d.End, c.RemoteAddr(), s.to.addr())
	}
	if s.a != nil {
		k.checkAddrs(s)
	}
	return true
}

func (k *conns) newSession(from, to *Peer) *session {
	s := &session{from: from, to: to}
	s.d = k.newEnd(from, to, false, s)
	k.sess = append(k.sess, s)
	return s
}

func (c *connEnd) begin(kind string) int {
	c.ncall++
	c.calls[c.ncall] = call{kind, c.P.w.S.Now}
	return c.ncall
}

// write writes the next message of writer wid.
func (c *connEnd) write(wid, size int) *Msg {
	w := c.P.w
	m := c.newMsg(wid, size)
	buf := m.data()
	w.tr("%s: #%d write w%d m%d %d bytes", c.P.N.Name, c.id, wid, m.Seq, size)
	id := c.begin("Write")
	n, err := c.c.Write(buf)
	delete(c.calls, id)
	m.T1 = w.S.Now
	switch {
	case err != nil:
		m.State, m.Err = 2, err.Error()
		if m.DelAt > 0 {
			m.State = 3
		}
		w.tr("%s: #%d write w%d m%d: %v", c.P.N.Name, c.id, wid, m.Seq, err)
	case n != size:
		w.fail("%s: Write of %d bytes returned %d and no error", c.End, size, n)
	default:
		m.State = 1
	}
	for i := range buf {
		buf[i] ^= 0xa5
	}
	return m
}

// readAll reads until Read fails. size gives the buffer size of the next Read
// and the pause before it.
func (c *connEnd) readAll(size func() (int, int64)) {
	w := c.P.w
	var acc []byte
	var part bool
	empty := 0
	for {
		n, d := size()
		if d > 0 {
			w.S.SleepNs(d)
		}
		buf := make([]byte, n)
		id := c.begin("Read")
		k, err := c.c.Read(buf)
		delete(c.calls, id)
		if k < 0 || k > n {
			w.fail("%s: Read into %d bytes returned %d", c.End, n, k)
			return
		}
		acc = append(acc, buf[:k]...)
		part = part || k > 0
		if k == 0 && err == nil && n > 0 {
			if empty++; empty > 1 { // an empty message once
				w.fail("%s: Read returns nothing and no error again and again", c.End)
				return
			}
		} else {
			empty = 0
		}
		switch {
		case err == io.EOF:
			c.got(acc, nil)
			acc, part = nil, false
		case err != nil:
			c.Ended = append(c.Ended, endEv{w.S.Now, "conn", err.Error()})
			w.tr("%s: #%d read: %v", c.P.N.Name, c.id, err)
			if part && c.closed == 0 {
				w.fail("%s: Read failed (%v) in the middle of a message", c.End, err)
			}
			c.readEnd.Set()
			return
		}
	}
}

// close closes the connection.
func (c *connEnd) close() {
	w := c.P.w
	if c.closed == 0 {
		c.closed = w.S.Now
	}
	w.tr("%s: Close of #%d", c.P.N.Name, c.id)
	id := c.begin("Close")
	c.c.Close()
	delete(c.calls, id)
	if c.closeOK == 0 {
		c.closeOK = w.S.Now
	}
}

// readerSizes draws the reads of an application.
func (k *conns) readerSizes(seed uint64) func() (int, int64) {
	r := simrt.NewRng(seed)
	mode := r.Intn(5)
	slow := 0
	if r.Pct(50) {
		slow = int(r.LogRange(1, 60))
	}
	left := 20 * sec
	large := k.Plan.get("large") > 0
	return func() (n int, d int64) {
		switch mode {
		case 0:
			n = 1 + r.Intn(8)
		case 1:
			n = int(r.LogRange(1, 5000))
		case 2:
			n = 70000
		case 3:
			n = 64 + r.Intn(3)*64
		case 4:
			n = int(r.LogRange(1, 300))
			if r.Pct(5) {
				n = 0
			}
		}
		if large { // not millions of reads
			n = int(r.LogRange(500, 100000))
		}
		if left > 0 && r.Pct(slow) {
			d = r.LogRange(1*us, 3*sec)
			left -= d
		}
		return
	}
}

// --- C16 ------------------------------------------------------------------------

func genConn(g *Gen) {
	p := g.p
	n := 2
	if g.Pct(50) {
		n = 3 + g.Intn(2)
	}
	g.nodes(n)
	g.cleanLink()
	g.schedKnobs()
	listen := int64(1)
	for i := 1; i < n; i++ {
		if g.Pct(35) {
			listen |= 1 << i
		}
	}
	g.set("listen", listen)
	g.set("slowaccept", g.LogRange(1, 3000)*int64(g.Intn(2))) // ms
	if g.Pct(30) {
		g.set("latelisten", 1) // nodes that dial listen later
	}
	span := g.LogRange(10*ms, 5*sec)
	clean := !g.Pct(40)
	if !clean {
		g.netFaults(span, false)
	}
	burst := int64(0)
	if n > 2 && g.Pct(40) { // connections come at once
		burst = g.LogRange(1*us, 10*ms)
		if clean {
			p.Link.Jitter = 0
		}
		if g.Pct(70) {
			g.set("slowaccept", 0)
		}
	}
	if g.Pct(40) {
		g.set("nacc", g.Range(1, 3))
	} else if g.Pct(60) {
		g.set("nacc", -1)
	}
	edge := 0
	big := int64(250000) // bytes in large messages
	bulk := false
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if listen>>i&1 == 0 || !(i == 0 && j == 1) && !g.Pct(60) {
				continue
			}
			p.Actors = append(p.Actors, Actor{j, i, edge})
			ns := 1
			if g.Pct(30) {
				ns = 1 + g.Intn(3)
			}
			for k := 0; k < ns; k++ {
				d := g.LogRange(1*us, 500*ms)
				if k == 0 {
					d = g.LogRange(1*us, 2*sec)
					if burst > 0 {
						d = burst + g.Range(0, 3)*us
					}
				}
				p.Ops = append(p.Ops, Op{A: edge, K: "dial", D: d, M: int64(g.Intn(2)), N: int64(g.Intn(10)), T: 1 + g.Intn(3)/2})
				if clean && g.Pct(30) {
					p.Ops[len(p.Ops)-1].K = "dial-hold"
				}
				m := int(g.LogRange(1, 60))
				dirs := 1 + g.Intn(3)
				min := int64(8)
				if p.Ops[len(p.Ops)-1].T == 1 { // a single writer
					min = 0
				}
				for ; m > 0; m-- {
					op := Op{A: edge, K: "up", N: g.size(0, min), M: 0}
					if min == 0 && g.Pct(8) {
						op.N = 0
					}
					if dirs == 2 || dirs == 3 && g.Pct(50) {
						op.K = "down"
					}
					if min > 0 {
						op.M = int64(g.Intn(2))
					}
					if g.Pct(3) {
						if n := g.LogRange(20000, 250000); n < big {
							op.N = n
							big -= n
						}
					}
					if g.Pct(60) {
						op.D = g.LogRange(1*us, 300*ms)
					}
					p.Ops = append(p.Ops, op)
				}
				if !bulk && clean && g.Pct(3) { // a message of many datagrams
					bulk = true
					op := Op{A: edge, K: "up", N: g.LogRange(300_000, 5<<20), D: g.Range(0, 10*ms)}
					if dirs == 2 || dirs == 3 && g.Pct(50) {
						op.K = "down"
					}
					p.Ops = append(p.Ops, op)
					g.set("large", 1)
				}
				if !bulk && g.Pct(4) { // a long backlog for a slow or late reader
					bulk = true
					op := Op{A: edge, K: "up", N: g.Range(min, 40), T: int(g.LogRange(250, 5000)), D: g.Range(0, 10*ms)}
					if dirs == 2 || dirs == 3 && g.Pct(50) {
						op.K = "down"
					}
					p.Ops = append(p.Ops, op)
				}
			}
			edge++
		}
	}
}

func runConn(w *World) {
	pl := w.Plan
	k := w.newConns()
	w.wantIntegrity = true
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	clean := len(pl.Faults) == 0
	pause := func(i int) func() int64 {
		r := simrt.NewRng(pl.Seed ^ uint64(i)<<20)
		return func() int64 {
			if m := pl.get("slowaccept"); m > 0 && r.Pct(60) {
				return r.LogRange(1*us, m*ms)
			}
			return 0
		}
	}
	listen := func(i int) bool {
		_, ok := k.listen(w.Peers[i], 7000+i, pause(i))
		return ok
	}
	for i := range w.Peers {
		if pl.get("listen")>>i&1 == 1 && (i == 0 || pl.get("latelisten") == 0) {
			if !listen(i) {
				return
			}
		}
	}
	rng := simrt.NewRng(pl.Seed ^ 0xc16)
	w.schedule()
	var dones []*simrt.Event
	for a, ac := range pl.Actors {
		var ops []Op
		for _, op := range pl.Ops {
			if op.A == a {
				ops = append(ops, op)
			}
		}
		if len(ops) == 0 || ac.P >= len(w.Peers) {
			continue
		}
		ac := ac
		ev := &simrt.Event{}
		dones = append(dones, ev)
		w.S.GoOn(nil, "edge", func() {
			k.edge(w.Peers[ac.P], w.Peers[ac.T], ops, rng, clean)
			ev.Set()
		})
	}
	if pl.get("latelisten") == 1 {
		for i := 1; i < len(w.Peers); i++ {
			if pl.get("listen")>>i&1 == 1 && !listen(i) {
				return
			}
		}
	}
	for _, ev := range dones {
		if !ev.Wait(2000 * sec) {
			w.note("edge-hang", 1)
			w.S.HaltNow("edge did not finish")
			return
		}
	}
	w.recheck()
}

// startSide starts the reader and the writers of one side of a session.
func (k *conns) startSide(c *connEnd, rng *simrt.Rng) {
	size := k.readerSizes(rng.Uint64())
	c.P.spawn("reader", func() {
		if c.hold != nil {
			c.hold.Wait(1 << 50)
		}
		c.readAll(size)
	})
}

func (k *conns) writers(c *connEnd, kind string) (evs []*simrt.Event) {
	for wid := 0; wid < 2; wid++ {
		var ops []Op
		for _, op := range c.s.ops {
			if op.K == kind && int(op.M) == wid {
				ops = append(ops, op)
			}
		}
		if len(ops) == 0 {
			continue
		}
		wid := wid
		evs = append(evs, c.P.spawn("writer", func() {
			for _, op := range ops {
				if op.D > 0 {
					k.S.SleepNs(op.D)
				}
				for i := max(1, op.T); i > 0; i-- {
					c.write(wid, int(op.N))
				}
			}
		}))
	}
	return
}

// edge runs the sessions between two nodes one after the other.
func (k *conns) edge(from, to *Peer, ops []Op, rng *simrt.Rng, clean bool) {
	for len(ops) > 0 {
		d := ops[0]
		n := 1
		for n < len(ops) && ops[n].K != "dial" && ops[n].K != "dial-hold" {
			n++
		}
		sops := ops[1:n]
		ops = ops[n:]
		if d.K != "dial" && d.K != "dial-hold" {
			continue
		}
		k.sleep(d.D)
		if to.Port == 0 { // not listening yet
			k.until(100*sec, func() bool { return to.Port != 0 })
		}
		s := k.newSession(from, to)
		s.ops = sops
		var hold *simrt.Event
		side := int(d.M) // side that closes, the other one may read later
		if d.K == "dial-hold" {
			hold = &simrt.Event{}
			if side == 1 {
				s.d.hold = hold
			}
		}
		s.onA = func() {
			if side == 0 {
				s.a.hold = hold
			}
			k.startSide(s.a, rng)
			s.evs = k.writers(s.a, "down")
		}
		ok := false
		over := k.S.Net.Stats.Overflow // a handshake is not repeated: no datagram of it may be dropped
		if !from.on("dial", 60*sec, func() { ok = k.dial(s) }) {
			k.fail("Dial on %s did not return", from.N.Name)
			return
		}
		if !ok {
			if clean && k.S.Net.Stats.Overflow == over {
				k.fail("Dial from %s to %s failed on a working network", from.N.Name, to.N.Name)
			}
			return
		}
		k.startSide(s.d, rng)
		evs := k.writers(s.d, "up")
		if !s.accepted.Wait(20*sec + k.stalls() + max(0, k.faultsEnd-k.S.Now)) {
			if clean {
				k.fail("%s dialed, but Accept on %s did not return the connection", s.d.End, to.N.Name)
			}
			return
		}
		evs = append(evs, s.evs...)
		for _, ev := range evs {
			if !ev.Wait(200*sec + max(0, k.faultsEnd-k.S.Now)) {
				k.fail("a Write between %s and %s did not return", from.N.Name, to.N.Name)
				return
			}
		}
		fine := func() bool {
			for _, c := range []*connEnd{s.d, s.a} {
				if len(c.Ended) > 0 {
					return true
				}
			}
			for _, c := range []*connEnd{s.d, s.a} {
				if n, _ := c.undelivered(); n > 0 && c.other().hold == nil {
					return false
				}
			}
			return true
		}
		k.until(max(0, k.faultsEnd-k.S.Now)+45*sec+k.stalls(), fine)
		ended := len(s.d.Ended)+len(s.a.Ended) > 0
		if ended && clean {
			k.fail("connection #%d ended by itself on a working network", s.d.id)
			return
		}
		if ended {
			return
		}
		if !fine() {
			for _, c := range []*connEnd{s.d, s.a} {
				if n, m := c.undelivered(); n > 0 {
					k.fail("%s: %d messages were not read by the peer; first: writer %d message %d (%d bytes) written at %.3fs", c.End, n, m.W, m.Seq, m.Size, f9(m.T0))
					return
				}
			}
		}
		if d.N < 3 {
			k.sleep(rng.Range(0, 7*sec))
		}
		if hold != nil {
			k.sleep(5*sec + k.stalls()) // acknowledged by now
		}
		c := []*connEnd{s.d, s.a}[side]
		if !c.P.on("close", 10*sec+k.stalls(), c.close) {
			k.fail("Close of %s did not return", c.End)
			return
		}
		if hold != nil {
			k.sleep(rng.Range(0, 2*sec))
			hold.Set()
		}
		if !c.readEnd.Wait(25*sec + k.stalls()) { // the application may pause
			k.fail("%s: Read still blocks after Close", c.End)
			return
		}
		bound := 25*sec + k.stalls()
		if !clean {
			bound += max(0, k.faultsEnd-k.S.Now)
		}
		if !c.other().readEnd.Wait(bound) {
			k.fail("%s: Read still blocks %.0f s after the peer closed the connection", c.other().End, f9(bound))
			return
		}
		if n, m := c.undelivered(); n > 0 {
			k.fail("%s: %d messages delivered before the Close were never read by the peer; first: writer %d message %d (%d bytes) written at %.3fs", c.End, n, m.W, m.Seq, m.Size, f9(m.T0))
			return
		}
		k.note("sessions", 1)
		// old datagrams are gone before the next session (C12 is about them)
		d0 := 100 * ms
		for _, f := range k.Plan.Faults {
			d0 = max(d0, f.W)
			if f.K == "jitter" {
				d0 = max(d0, f.V)
			}
		}
		k.sleep(d0 + k.Plan.Link.Base + k.Plan.Link.Jitter)
	}
}

// --- C17 ------------------------------------------------------------------------

func genConnClose(g *Gen) {
	p := g.p
	n := 2
	if g.Pct(35) {
		n = 3
	}
	g.nodes(n)
	g.cleanLink()
	g.schedKnobs()
	span := g.LogRange(1*ms, 3*sec)
	if g.Pct(30) {
		g.netFaults(span, g.Pct(50))
		if g.Pct(30) {
			p.Faults = append(p.Faults, Fault{K: "block", At: g.Range(0, span), Dur: g.LogRange(sec, 9*sec), A: -1, B: -1})
		}
		if g.Pct(20) {
			p.Faults = append(p.Faults, Fault{K: "crash", At: g.Range(0, span), A: g.Intn(n), B: -1})
		}
	}
	if g.Pct(40) {
		g.set("lnclose", g.LogRange(1*us, span))
	}
	if g.Pct(50) {
		g.set("acceptors", g.Range(1, 3))
	}
	// moments at which many things happen at once
	var at []int64
	for i := 0; i < 1+g.Intn(3); i++ {
		at = append(at, g.Range(0, span))
	}
	for e := 1; e < n; e++ {
		for side := 0; side < 2; side++ {
			for k := g.Intn(4); k > 0; k-- { // writers
				p.Ops = append(p.Ops, Op{A: e*2 + side, K: "writer", N: g.LogRange(1, 3000), M: g.LogRange(1, 40), D: g.LogRange(1, 100*ms), T: int(g.LogRange(1, 100000))})
			}
			for k := g.Intn(3); k > 0; k-- { // readers
				p.Ops = append(p.Ops, Op{A: e*2 + side, K: "reader", N: g.LogRange(1, 3000), D: g.LogRange(1, span), T: int(g.LogRange(1, 300))})
			}
			if g.Pct(60) {
				for k := 1 + g.Intn(3); k > 0; k-- {
					op := Op{A: e*2 + side, K: "close", D: g.Range(0, span)}
					if g.Pct(70) {
						op.D = at[g.Intn(len(at))] + g.LogRange(1, 2*ms)
					}
					p.Ops = append(p.Ops, op)
				}
			}
		}
	}
}

func runConnClose(w *World) {
	pl := w.Plan
	k := w.newConns()
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	srv := w.Peers[0]
	ln, ok := k.listen(srv, 7070, func() int64 { return 0 })
	if !ok {
		return
	}
	var sess []*session
	for _, p := range w.Peers[1:] {
		s := k.newSession(p, srv)
		ok := false
		if !p.on("dial", 60*sec, func() { ok = k.dial(s) }) || !ok {
			w.fail("Dial from %s failed on a working network", p.N.Name)
			return
		}
		if !s.accepted.Wait(2*sec + w.stalls()) {
			w.fail("%s dialed, but Accept on %s did not return the connection", s.d.End, srv.N.Name)
			return
		}
		sess = append(sess, s)
	}
	w.schedule()
	clean := len(pl.Faults) == 0
	end := func(i int) *connEnd { // i = session*2 + side
		if i/2-1 >= len(sess) {
			return nil
		}
		s := sess[i/2-1]
		return []*connEnd{s.d, s.a}[i%2]
	}
	var busy []*simrt.Event
	var busyP []*Peer
	spawn := func(p *Peer, name string, f func()) {
		if p.N.Dead {
			return
		}
		busy = append(busy, p.spawn(name, f))
		busyP = append(busyP, p)
	}
	lnClosed := int64(0) // Close of the listener was called
	lnDone := int64(0)
	var accepts []*simrt.Event
	for i := int64(0); i < pl.get("acceptors"); i++ {
		accepts = append(accepts, srv.spawn("acceptor", func() {
			c, err := ln.Accept()
			if err == nil {
				w.fail("Accept returned a connection %v nobody made", c.RemoteAddr())
			}
		}))
	}
	closeAt := map[*connEnd]bool{}
	for _, op := range pl.Ops {
		op := op
		e := end(op.A)
		if e == nil {
			continue
		}
		switch op.K {
		case "writer":
			spawn(e.P, "writer", func() {
				for i := int64(0); i < op.M; i++ {
					w.S.SleepNs(op.D)
					if m := e.write(len(e.W), int(op.N)); m.Err != "" {
						return
					}
				}
			})
		case "reader":
			spawn(e.P, "reader", func() {
				w.S.SleepNs(op.D)
				buf := make([]byte, op.N)
				for {
					id := e.begin("Read")
					_, err := e.c.Read(buf)
					delete(e.calls, id)
					if err != nil && err != io.EOF {
						return
					}
					w.S.SleepNs(int64(op.T))
				}
			})
		case "close":
			closeAt[e] = true
			spawn(e.P, "close", func() {
				w.S.SleepNs(op.D)
				e.close()
			})
		}
	}
	last := w.t0
	for _, op := range pl.Ops {
		if op.K == "close" {
			last = max(last, w.t0+op.D)
		}
	}
	if d := pl.get("lnclose"); d > 0 {
		last = max(last, w.t0+d)
		spawn(srv, "lnclose", func() {
			w.S.SleepNs(d)
			lnClosed = w.S.Now
			w.tr("listener closed")
			ln.Close()
			lnDone = w.S.Now
		})
	}
	w.sleepUntil(last)
	w.sleep(10*ms + w.stalls())
	// connections that nobody closed are closed now by one side
	for i, s := range sess {
		if !closeAt[s.d] && !closeAt[s.a] && pl.get("lnclose") == 0 {
			e := []*connEnd{s.d, s.a}[(pl.Seed>>uint(i))%2]
			if e.P.N.Dead {
				e = e.other()
			}
			spawn(e.P, "close", e.close)
		}
	}
	bound := 2*sec + w.stalls() + 4*(pl.Link.Base+pl.Link.Jitter)
	if !clean {
		w.sleepUntil(w.faultsEnd)
		w.heal()
		bound = 9*sec + w.stalls() + 4*(pl.Link.Base+pl.Link.Jitter)
		for _, f := range pl.Faults {
			if f.K == "late" || f.K == "dup" { // datagrams that are still under way keep an end alive
				bound += f.W
			}
		}
	}
	w.sleep(bound)
	w.note("sessions", int64(len(sess)))
	for _, s := range sess {
		for _, e := range []*connEnd{s.d, s.a} {
			if e.P.N.Dead {
				continue
			}
			for _, c := range e.calls {
				w.fail("%s: %s, called at %.6fs, still blocks %.1f s after the connection was closed", e.End, c.kind, f9(c.at), f9(bound))
				return
			}
		}
	}
	for i, ev := range busy {
		if !ev.IsSet() && !busyP[i].N.Dead {
			// readers and writers run until an error
			w.sleep(20 * sec)
			if !ev.IsSet() && !busyP[i].N.Dead {
				w.fail("a goroutine that reads, writes or closes on %s did not end", busyP[i].N.Name)
				return
			}
		}
	}
	_ = lnDone
	// later calls
	for _, s := range sess {
		for _, e := range []*connEnd{s.d, s.a} {
			e := e
			if e.P.N.Dead {
				continue
			}
			left := 0
			for _, st := range e.other().writers() {
				left += 2 * len(st.Msgs)
			}
			var rerr, werr error
			if !e.P.on("later", 5*sec, func() {
				buf := make([]byte, 5000)
				for i := 0; i < left+5 && (rerr == nil || rerr == io.EOF); i++ {
					_, rerr = e.c.Read(buf)
				}
				_, werr = e.c.Write([]byte("x"))
				e.c.Close()
			}) {
				w.fail("%s: Read, Write or Close blocks after the connection was closed", e.End)
				return
			}
			if rerr == nil || rerr == io.EOF {
				w.fail("%s: Read gives no error after the connection was closed", e.End)
				return
			}
			if werr == nil {
				w.fail("%s: Write gives no error after the connection was closed", e.End)
				return
			}
		}
	}
	if lnClosed == 0 && !srv.N.Dead {
		spawn(srv, "lnclose", func() { ln.Close() })
		w.sleep(2*sec + w.stalls())
	}
	if srv.N.Dead {
		return
	}
	for _, ev := range accepts {
		if !ev.IsSet() {
			w.fail("Accept still blocks after the listener was closed")
			return
		}
	}
	var aerr error
	if !srv.on("later", 5*sec, func() { _, aerr = ln.Accept(); ln.Close() }) {
		w.fail("Accept or Close blocks after the listener was closed")
		return
	}
	if aerr == nil {
		w.fail("Accept gives no error after the listener was closed")
	}
}

// --- C13 ------------------------------------------------------------------------

// genUnread: connections nobody reads from or accepts, while others are in use.
func genUnread(g *Gen) {
	p := g.p
	g.nodes(3 + g.Intn(2))
	g.cleanLink()
	g.schedKnobs()
	g.set("noaccept", int64(g.Intn(3)/2))
	g.set("flood", g.LogRange(1, 400))
	g.set("size", g.LogRange(1, 6000))
	g.set("back", int64(g.Intn(2)))
	for i := int(g.LogRange(1, 40)); i > 0; i-- {
		op := Op{A: 0, K: "up", N: g.size(0, 8), D: g.LogRange(1*us, 200*ms), T: g.Intn(3)}
		if g.Pct(50) {
			op.K = "down"
		}
		p.Ops = append(p.Ops, op)
	}
	if g.Pct(30) {
		g.netFaults(2*sec, false)
	}
}

func runUnread(w *World) {
	pl := w.Plan
	k := w.newConns()
	w.wantIntegrity = true
	w.S.Net.Default = pl.Link
	for _, c := range pl.Nodes {
		w.newPeer(c)
	}
	srv := w.Peers[0]
	_, ok := k.listen(srv, 7070, func() int64 {
		if pl.get("noaccept") == 1 && len(k.sess) == len(w.Peers)-1 && k.sess[len(k.sess)-2].a != nil {
			return 1 << 50 // the last one is not accepted
		}
		return 0
	})
	if !ok {
		return
	}
	rng := simrt.NewRng(pl.Seed ^ 0xc13)
	n := len(w.Peers) - 1
	for i, p := range w.Peers[1:] {
		s := k.newSession(p, srv)
		ok := false
		if !p.on("dial", 60*sec, func() { ok = k.dial(s) }) || !ok {
			w.fail("Dial from %s failed on a working network", p.N.Name)
			return
		}
		if i == n-1 && pl.get("noaccept") == 1 {
			break
		}
		if !s.accepted.Wait(2*sec + w.stalls()) {
			w.fail("%s dialed, but Accept on %s did not return the connection", s.d.End, srv.N.Name)
			return
		}
		if i < n-1 {
			k.startSide(s.d, rng)
			k.startSide(s.a, rng)
		}
	}
	w.schedule()
	bad := k.sess[n-1]
	for _, e := range []*connEnd{bad.d, bad.a} {
		if e == nil || e.srv && pl.get("back") == 0 {
			continue
		}
		e := e
		e.P.spawn("flood", func() {
			for i := int64(0); i < pl.get("flood"); i++ {
				if e.write(0, int(pl.get("size"))).Err != "" {
					return
				}
			}
		})
	}
	var evs []*simrt.Event
	for _, s := range k.sess[:n-1] {
		s.ops = nil
		for _, op := range pl.Ops {
			if op.T%(n-1) == int(s.from.ID-1)%(n-1) {
				s.ops = append(s.ops, op)
			}
		}
		evs = append(evs, k.writers(s.d, "up")...)
		evs = append(evs, k.writers(s.a, "down")...)
	}
	for _, ev := range evs {
		if !ev.Wait(100*sec + max(0, w.faultsEnd-w.S.Now)) {
			w.fail("a Write on a connection that is read does not return")
			return
		}
	}
	w.sleepUntil(w.faultsEnd)
	w.heal()
	fine := func() bool {
		for _, s := range k.sess[:n-1] {
			for _, e := range []*connEnd{s.d, s.a} {
				if m, _ := e.undelivered(); m > 0 && len(s.d.Ended)+len(s.a.Ended) == 0 {
					return false
				}
			}
		}
		return true
	}
	if !w.until(45*sec+w.stalls(), fine) {
		w.fail("messages on connections that are read are not delivered while another connection is not read")
		return
	}
	for _, s := range k.sess[:n-1] {
		if len(pl.Faults) == 0 && len(s.d.Ended)+len(s.a.Ended) > 0 {
			w.fail("%s ended while another connection was not read", s.d.End)
			return
		}
	}
}
