package main

// Delivery callbacks: exactly once with a truthful verdict (C05), and what a
// success report promises (C06).

func init() {
	c05 := func(o streamOpt) streamOpt {
		o.cb, o.longCb, o.integ = true, true, false
		o.want = checkCallbacks
		return o
	}
	reg(&Prop{ID: "C05", Quick: 7000, Thorough: 60000, Scens: []Scenario{
		stream("callbacks", 6, c05(streamOpt{clients: 2, writers: 1, msgs: 150, span: 15 * sec, heavy: true, faultPct: 85, frag: true})),
		stream("callbacks-writers", 2, c05(streamOpt{clients: 2, writers: 4, msgs: 150, span: 5 * sec, heavy: true, faultPct: 60, frag: true, cbWriter: true, echo: true})),
		stream("callbacks-end", 4, c05(streamOpt{clients: 2, writers: 2, msgs: 100, span: 8 * sec, heavy: true, faultPct: 80, frag: true, closes: true, crashes: true})),
		stream("callbacks-timeout", 3, c05(streamOpt{clients: 1, writers: 1, msgs: 60, span: 3 * sec, faultPct: 90, frag: true, shortCb: true})),
	}})
	reg(&Prop{ID: "C06", Quick: 15000, Thorough: 60000, Scens: []Scenario{
		{"cut", 6, genCut, runCut},
	}})
}

// accepted returns the messages of e that were not refused, if e has a single
// writer (their order is then the order of their packets).
func (e *End) accepted() (r []*Msg) {
	if len(e.W) != 1 {
		return nil
	}
	for _, st := range e.W {
		for _, m := range st.Msgs {
			if m.State != 2 {
				r = append(r, m)
			}
		}
	}
	return
}

func checkCallbacks(w *World) {
	last := int64(0) // the latest timeout
	for _, e := range w.allEnds() {
		for _, st := range e.writers() {
			for _, m := range st.Msgs {
				if m.HasCb {
					last = max(last, m.T1+m.Timeout/100*101)
				}
			}
		}
	}
	w.sleepUntil(last)
	w.sleep(500*ms + w.stalls())
	slack := 300*ms + w.stalls()
	for _, e := range w.allEnds() {
		groups := e.wire().groups()
		idx := map[*Msg]int{}
		for i, m := range e.accepted() {
			idx[m] = i
		}
		endAt := int64(1) << 62
		if len(e.Ended) > 0 {
			endAt = e.Ended[0].at
		}
		if e.closeAt > 0 && e.closeAt < endAt {
			endAt = e.closeAt
		}
		for _, st := range e.writers() {
			for _, m := range st.Msgs {
				if !m.HasCb {
					continue
				}
				id := func() string {
					return sprintf("%s: callback of writer %d message %d (%d bytes)", e, m.W, m.Seq, m.Size)
				}
				n := len(m.Cbs)
				switch {
				case n > 1:
					w.fail("%s called %d times (%q then %q)", id(), n, m.Cbs[0].err, m.Cbs[1].err)
					return
				case m.State == 2 && n > 0:
					w.fail("%s called with %q although the write was refused", id(), m.Cbs[0].err)
					return
				case m.State == 1 && n == 0 && !e.P.N.Dead && w.S.Now > m.T1+m.Timeout/100*101+slack:
					w.fail("%s was not called within %.3f s of the write (timeout %.3f s)", id(), f9(w.S.Now-m.T0), f9(m.Timeout))
					return
				}
				w.note("callbacks", int64(n))
				if n == 0 || m.State != 1 {
					continue
				}
				c := m.Cbs[0]
				latest := m.T1 + m.Timeout/100*101 + slack
				if c.at > latest {
					w.fail("%s called %.3f s after the write, timeout %.3f s", id(), f9(c.at-m.T1), f9(m.Timeout))
					return
				}
				var acked int64 = -1 // when the last acknowledgement was read
				known := false
				if i, ok := idx[m]; ok {
					known = true
					if i < len(groups) {
						acked = 0
						for _, x := range groups[i] {
							if x.AckAt < 0 {
								acked = -1
								break
							}
							acked = max(acked, x.AckAt)
						}
					}
				}
				if c.err == "" {
					w.note("verdict-success", 1)
					if known && (acked < 0 || acked > c.at) {
						w.fail("%s reported success but the peer had not acknowledged the whole message", id())
						return
					}
					continue
				}
				w.note("verdict-error", 1)
				if c.at < m.T0+m.Timeout/100*99-ms {
					w.fail("%s reported %q after %.3f s, before its timeout of %.3f s", id(), c.err, f9(c.at-m.T0), f9(m.Timeout))
					return
				}
				if known && acked >= 0 && acked < m.T0+m.Timeout/100*99-slack && acked < endAt-slack {
					w.fail("%s reported %q although the peer acknowledged the whole message %.3f s after the write (timeout %.3f s)",
						id(), c.err, f9(acked-m.T0), f9(m.Timeout))
					return
				}
			}
		}
	}
}

// --- C06 ------------------------------------------------------------------------

func genCut(g *Gen) {
	p := g.p
	g.nodes(2)
	g.cleanLink()
	g.schedKnobs()
	for i := range p.Nodes {
		switch g.Intn(5) {
		case 0:
		case 1:
			p.Nodes[i].MaxData = int(g.Range(4, 100))
		default:
			p.Nodes[i].MaxData = int(g.LogRange(60, 2000))
		}
		if g.Pct(30) {
			p.Nodes[i].Delay = int(g.LogRange(15, 2000))
		}
	}
	span := g.LogRange(20*ms, 8*sec)
	from := g.Intn(2)
	p.Actors = []Actor{{from, 1 - from, 0}}
	n := int(g.LogRange(1, 60))
	burst := g.Pct(60)
	for i := 0; i < n; i++ {
		op := Op{A: 0, K: "send", M: 0}
		if md := int64(p.Nodes[from].MaxData); md > 0 && g.Pct(70) {
			op.N = g.Range(1, 8*md)
		} else {
			op.N = g.size(p.Nodes[from].MaxData, 0)
		}
		if !burst || g.Pct(15) {
			op.D = g.Range(0, 2*span/int64(n+1))
		}
		p.Ops = append(p.Ops, op)
	}
	g.set("cut", g.Range(1, int64(n)))
	g.set("mode", int64(g.Intn(2)))
	if g.Pct(90) {
		g.netFaults(span, false)
	}
	if g.Pct(60) {
		f := Fault{K: "loss", A: from, B: 1 - from, At: 0, Dur: span + sec, V: g.LogRange(50, 700)}
		p.Faults = append(p.Faults, f)
	}
	if g.Pct(15) {
		g.set("ff", int64(0x100000)-g.Range(1, 20))
	}
}

func runCut(w *World) {
	w.wantIntegrity = true
	if !w.setup() {
		return
	}
	if ff := w.Plan.get("ff"); ff > 0 {
		for _, e := range w.Peers[0].ends {
			if fastForward(e, e.pair(), uint32(ff)) {
				w.note("fastforward", 1)
			}
		}
	}
	from := w.Plan.Actors[0].P
	e := w.endOf(from, 1-from)
	if e == nil {
		return
	}
	succ, cutAt := 0, int64(-1)
	var promised []*Msg
	cut := func() {
		if cutAt >= 0 {
			return
		}
		cutAt = w.S.Now
		st := e.W[0]
		if st == nil {
			return
		}
		for _, m := range st.Msgs {
			if len(m.Cbs) == 0 || m.Cbs[0].err != "" {
				break
			}
			promised = append(promised, m)
		}
		w.tr("cut of %s after %d success reports; messages 0..%d are promised", e.P.N.Name, succ, len(promised)-1)
		w.S.Net.Link(w.Peers[0].N, w.Peers[1].N).Block = true
		w.S.Net.Link(w.Peers[1].N, w.Peers[0].N).Block = true
		w.S.Net.DropInFlight(e.P.N)
		w.note("cuts", 1)
		w.note("promised", int64(len(promised)))
		if w.Plan.get("mode") == 1 {
			w.crash(e.P)
		}
	}
	peer := e.pair()
	pw := w.wire.flow(peer.P.N.ID, peer.Addr)
	w.onCb = func(m *Msg) {
		if m.E != e || m.Cbs[len(m.Cbs)-1].err != "" || cutAt >= 0 {
			return
		}
		succ++
		// every packet of the message has reached the peer's node
		if gs := e.wire().groups(); m.Seq < len(gs) {
			for i, x := range gs[m.Seq] {
				if pw.DataIDs[x.ID] == 0 {
					w.fail("%s: success reported for message %d (%d bytes) but its packet %d of %d has not reached the peer", e, m.Seq, m.Size, i+1, len(gs[m.Seq]))
				}
			}
		}
		if succ == int(w.Plan.get("cut")) {
			cut()
		}
	}
	w.schedule()
	done := w.runActors(nil)
	w.until(w.faultsEnd-w.S.Now+30*sec, func() bool { return cutAt >= 0 || done() })
	w.until(6*sec, func() bool { return cutAt >= 0 })
	cut()
	w.until(3*sec+w.stalls(), func() bool {
		for _, m := range promised {
			if m.DelAt == 0 {
				return false
			}
		}
		return true
	})
	for _, m := range promised {
		if m.DelAt == 0 {
			w.fail("%s: the sender was told at %.6fs that message %d (%d bytes) was delivered, like all before it, and was cut off at %.6fs; the peer never got it", e, f9(m.Cbs[0].at), m.Seq, m.Size, f9(cutAt))
			return
		}
	}
	w.recheck()
}
