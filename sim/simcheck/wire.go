package main

import (
	"fmt"
	"sort"

	"verifsim/simrt"
)

// Wire observes the datagrams of a run: what each node handed to the network
// and what it read from it, per remote address.
type Wire struct {
	w     *World
	flows map[flowKey]*Flow
	last  int64 // last datagram handed to the network
	hurt  map[[2]int][]int64
}

// onHurt remembers when faults hit datagrams between two nodes.
func (wr *Wire) onHurt(p *simrt.Pkt) {
	if p.From == nil || p.To == nil {
		return
	}
	if wr.hurt == nil {
		wr.hurt = map[[2]int][]int64{}
	}
	k := [2]int{min(p.From.ID, p.To.ID), max(p.From.ID, p.To.ID)}
	wr.hurt[k] = append(wr.hurt[k], wr.w.S.Now)
}

// cut tells whether faults hit so many datagrams between e and its peer right
// before e ended that the end by inactivity is their doing.
func (e *End) cut() bool {
	o := e.pair()
	if len(e.Ended) == 0 || o == nil {
		return false
	}
	a, b, at := e.P.N.ID, o.P.N.ID, e.Ended[0].at
	n := 0
	for _, t := range e.P.w.wire.hurt[[2]int{min(a, b), max(a, b)}] {
		if t <= at && t >= at-2500*ms {
			n++
		}
	}
	return n >= 3
}

type flowKey struct {
	node int
	addr string
}

// Flow is the datagram history of a node with one remote address.
type Flow struct {
	node     int
	addr     string
	LastRead int64 // last datagram read by the node from that address (-1 none)
	LastSend int64
	Heard    int64 // last Data, Ack, Ping or Pong read (-1 none)
	Reads    int
	Sends    int
	Data     []*WirePkt // distinct data packets in order of first transmission
	byID     map[uint32]*WirePkt
	DataSent int64            // data datagrams sent
	DataRead int64            // data datagrams read
	DataIDs  map[uint32]int   // data packets read: id -> times
	AckRead  int64            // acknowledgements read
	AckIDs   map[uint32]int64 // id -> time of the first acknowledgement read
	ReadBy   map[int]int
	SentBy   map[int]int
	rel      []int64 // times of reads (only kept if wanted)
}

// WirePkt is one data packet of a flow.
type WirePkt struct {
	ID     uint32
	Status int
	First  int64
	Last   int64
	Sends  int
	Size   int
	AckAt  int64 // first acknowledgement read by the sender, -1 none
}

func newWire(w *World) *Wire { return &Wire{w: w, flows: map[flowKey]*Flow{}} }

func (wr *Wire) flow(node int, addr string) *Flow {
	k := flowKey{node, addr}
	f := wr.flows[k]
	if f == nil {
		f = &Flow{node: node, addr: addr, LastRead: -1, LastSend: -1, Heard: -1, byID: map[uint32]*WirePkt{}, DataIDs: map[uint32]int{}, AckIDs: map[uint32]int64{}, ReadBy: map[int]int{}, SentBy: map[int]int{}}
		wr.flows[k] = f
	}
	return f
}

func (wr *Wire) keys() (r []flowKey) {
	for k := range wr.flows {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool {
		return r[i].node < r[j].node || r[i].node == r[j].node && r[i].addr < r[j].addr
	})
	return
}

// wire returns the datagram history of the node and peer address of e.
func (e *End) wire() *Flow { return e.P.w.wire.flow(e.P.N.ID, e.Addr) }

var statusNames = map[int]string{stConnect: "Connect", stServerAnswer: "ServerAnswer", stClientAnswer: "ClientAnswer", stDone: "ConnectDone",
	stData: "Data", stAck: "Ack", stPing: "Ping", stPong: "Pong", stDisconnect: "Disconnect", stPunch: "Punch", stDataNext: "DataNext"}

func pktName(b []byte) string {
	st, id, ok := parse(b)
	if !ok {
		return fmt.Sprintf("%d bytes", len(b))
	}
	n := statusNames[st]
	if n == "" {
		n = fmt.Sprintf("status %d", st)
	}
	if isData(st) || st == stAck {
		n += fmt.Sprintf(" %d", id)
	}
	return n + fmt.Sprintf(" (%d bytes)", len(b))
}

func (wr *Wire) onSend(p *simrt.Pkt) []byte {
	w := wr.w
	now := w.S.Now
	wr.last = now
	if w.tracing {
		s := ""
		if p.Failed {
			s = " FAILS"
		}
		w.tr("%s -> %s: %s%s", p.From.Name, p.Dst, pktName(p.Data), s)
	}
	f := wr.flow(p.From.ID, p.Dst.String())
	f.Sends++
	f.LastSend = now
	if st, id, ok := parse(p.Data); ok {
		f.SentBy[st]++
		if isData(st) {
			f.DataSent++
			x := f.byID[id]
			if x == nil {
				x = &WirePkt{ID: id, Status: st, First: now, Size: len(p.Data), AckAt: -1}
				f.byID[id] = x
				f.Data = append(f.Data, x)
			}
			x.Sends++
			x.Last = now
		}
	}
	for _, t := range w.tapSend {
		t(p)
	}
	if w.tamper != nil {
		return w.tamper(p)
	}
	return nil
}

func (wr *Wire) onRead(n *simrt.Node, p *simrt.Pkt) {
	w := wr.w
	now := w.S.Now
	if w.tracing {
		s := ""
		if p.Dup {
			s = " (duplicate)"
		}
		if p.From == nil {
			s = " (injected)"
		}
		w.tr("%s <- %s: %s%s", n.Name, p.Src, pktName(p.Data), s)
	}
	f := wr.flow(n.ID, p.Src.String())
	f.Reads++
	f.LastRead = now
	if st, id, ok := parse(p.Data); ok {
		f.ReadBy[st]++
		if isData(st) || st == stAck || st == stPing || st == stPong {
			f.Heard = now
		}
		switch {
		case isData(st):
			f.DataRead++
			f.DataIDs[id]++
		case st == stAck:
			f.AckRead++
			if _, ok := f.AckIDs[id]; !ok {
				f.AckIDs[id] = now
			}
			if x := f.byID[id]; x != nil && x.AckAt < 0 {
				x.AckAt = now
			}
		}
	}
	for _, t := range w.tapRead {
		t(n, p)
	}
}

// groups returns the data packets of the flow grouped by message.
func (f *Flow) groups() (g [][]*WirePkt) {
	if len(f.Data) == 0 {
		return
	}
	base := f.Data[0].ID
	var cur []*WirePkt
	for i := uint32(0); ; i++ {
		x := f.byID[(base+i)&0xfffff]
		if x == nil || int(i) >= len(f.Data) {
			return
		}
		cur = append(cur, x)
		if x.Status == stData {
			g = append(g, cur)
			cur = nil
		}
	}
}

func sprintf(f string, a ...any) string { return fmt.Sprintf(f, a...) }

// f9 converts ns to seconds.
func f9(ns int64) float64 { return float64(ns) / 1e9 }
