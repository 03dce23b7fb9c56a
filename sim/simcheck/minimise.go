package main

import (
	"fmt"
	"path/filepath"
	"time"

	"verifsim/simrt"
)

// minimise shrinks the plan and the decisions of a violating run while the same
// class of violation remains, and writes the replay file.
func minimise(pr *Prop, tier string, seed uint64, v *Result, dir, exe string) string {
	p := makePlan(pr, tier, seed, v.Index)
	f, _ := filepath.Abs(filepath.Join(dir, fmt.Sprintf("%s-%x.json", pr.ID, p.Seed)))
	deadline := time.Now().Add(45 * time.Second)
	r0 := execute(p, nil, false, true, false)
	if len(r0.Viol) == 0 {
		writeReplay(f, &Replay{Plan: p, FromSeed: true, Violation: v.Viol[0] + " (not reproduced in the driver)"})
		return f
	}
	want := class(r0.Viol[0])
	dec := r0.Dec
	same := func(r *Result) bool { return len(r.Viol) > 0 && class(r.Viol[0]) == want }
	rr := execute(p, dec, true, false, false)
	if !same(rr) {
		tr := execute(p, nil, false, false, true)
		writeReplay(f, &Replay{Plan: p, FromSeed: true, Violation: v.Viol[0], Hash: tr.Hash, Trace: tail(tr.Trace)})
		return f
	}
	// 1. plan, keeping recorded decisions (they drift, but often still fail)
	try := func(q *Plan, d []simrt.Decision) bool {
		if time.Now().After(deadline) {
			return false
		}
		return same(execute(q, d, true, false, false))
	}
	cut := func(n int, without func(a, b int) *Plan) {
		for size := (n + 1) / 2; size >= 1; size /= 2 {
			for a := 0; a < n && time.Now().Before(deadline); {
				b := min(a+size, n)
				q := without(a, b)
				if try(q, dec) {
					p = q
					n -= b - a
				} else {
					a = b
				}
			}
		}
	}
	cut(len(p.Faults), func(a, b int) *Plan {
		q := *p
		q.Faults = append(append([]Fault(nil), p.Faults[:a]...), p.Faults[b:]...)
		return &q
	})
	cut(len(p.Ops), func(a, b int) *Plan {
		q := *p
		q.Ops = append(append([]Op(nil), p.Ops[:a]...), p.Ops[b:]...)
		return &q
	})
	// 2. decisions: delta debugging
	if try(p, nil) {
		dec = nil
	}
	for size := (len(dec) + 1) / 2; size >= 1 && len(dec) > 0 && time.Now().Before(deadline); size /= 2 {
		for a := 0; a < len(dec) && time.Now().Before(deadline); {
			b := min(a+size, len(dec))
			d := append(append([]simrt.Decision(nil), dec[:a]...), dec[b:]...)
			if try(p, d) {
				dec = d
			} else {
				a = b
			}
		}
	}
	deadline = deadline.Add(15 * time.Second)
	cut(len(p.Ops), func(a, b int) *Plan {
		q := *p
		q.Ops = append(append([]Op(nil), p.Ops[:a]...), p.Ops[b:]...)
		return &q
	})
	cut(len(p.Faults), func(a, b int) *Plan {
		q := *p
		q.Faults = append(append([]Fault(nil), p.Faults[:a]...), p.Faults[b:]...)
		return &q
	})
	r := execute(p, dec, true, false, true)
	if len(r.Viol) == 0 {
		r = rr
	}
	writeReplay(f, &Replay{Plan: p, Decisions: dec, Violation: r.Viol[0], Hash: r.Hash, Trace: tail(r.Trace)})
	return f
}

func tail(t []string) []string {
	if len(t) > 300 {
		return t[len(t)-300:]
	}
	return t
}
