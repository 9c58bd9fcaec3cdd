package gsp

import (
	"encoding/json"
	"fmt"
	"testing"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// TestC20: a gossiper under concurrent load, watched by the race detector, the crash and the deadlock monitors.
func TestC20(t *testing.T) {
	RunProp(t, "C20", func(r *Run) {
		n := r.N(96, 1600)
		for i := 0; i < n; i++ {
			quiet := i%3 != 0
			r.Case(fmt.Sprintf("load-%d", i), func(c *Case) {
				Bubble(c, func(n *Net) { load(c, n, quiet) })
			})
		}
	})
}

// load gives a gossiper much to do at the same time, at the instants at which it is also busy with its own tasks.
// In quiet cases nothing but the gossiper's own locks orders what happens; in the others the outcome is judged.
func load(c *Case, n *Net, quiet bool) {
	t := LabTopology(c)
	t.N = 3 + c.Rng.Intn(3)
	t.Threshold = 2 + c.Rng.Intn(t.N-2)
	t.Loggers, t.CAs = 4, 4
	l := NewLab(c, n, t)
	w := l.W
	if quiet {
		for _, p := range l.Peers {
			l.Lazy[p] = true
			n.Handle(p, Stub)
		}
	}
	Settle()
	n.Quiet(quiet)
	periods := 2
	shape := ""
	requests := 0
	for k := 0; k < periods; k++ {
		m := l.Min + k
		// the honest statements of this period, by the entities 0 and 1; the others contradict themselves or are accused
		good := []Obj{l.MakeInit("STH", 0, m, k), l.MakeInit("STH", 1, m, k+1), l.MakeInit("REV", 0, m, k), l.MakeInit("REV", 1, m, k+1)}
		inits := func() []func() {
			fs := []func(){}
			give := func(o Obj) { fs = append(fs, func() { l.Give(w.M[0], o) }) }
			for _, o := range good {
				for j := 1 + c.Rng.Intn(3); j > 0; j-- {
					give(o)
				}
			}
			for e := 2; e < 4; e++ {
				for _, kind := range Kinds {
					if c.Rng.Intn(2) == 0 {
						give(l.MakeInit(kind, e, m, 0))
						give(l.MakeInit(kind, e, m, 1+c.Rng.Intn(2)))
					}
				}
			}
			return fs
		}
		frags := func(honest bool) []func() {
			fs := []func(){}
			for _, p := range l.Peers {
				for _, o := range good {
					fr := w.MakeFrag(p, o)
					if fr.Type == REV_FRAG && c.Rng.Intn(2) == 0 {
						fr = Compact(fr)
					}
					fs = append(fs, func() { l.Give(p, fr) })
				}
				if !honest || c.Rng.Intn(2) == 0 {
					for _, kind := range Kinds {
						o := w.MakeFrag(p, l.MakeInit(kind, 2+c.Rng.Intn(2), m, c.Rng.Intn(2)))
						fs = append(fs, func() { l.Give(p, o) })
					}
				}
			}
			return fs
		}
		odd := func() []func() {
			fs := []func(){}
			for j := 0; j < 3+c.Rng.Intn(5); j++ {
				switch c.Rng.Intn(5) {
				case 0:
					nt, _ := json.Marshal(map[string]any{"sender": l.Peers[0], "period": P2(m), "type": REV_INIT, "entity_url": w.C[c.Rng.Intn(4)], "objhash": make([]byte, 32)})
					fs = append(fs, func() { n.Post(l.Peers[0], l.Self, "/gossip/new_payload_notification", nt) })
				case 1:
					nt, _ := json.Marshal(map[string]any{"sender": l.Peers[0], "period": P2(m), "type": REV_INIT, "entity_url": w.C[c.Rng.Intn(4)], "objhash": make([]byte, 32)})
					fs = append(fs, func() { n.Post(l.Peers[0], l.Self, "/gossip/new_payload_request", nt) })
				case 2:
					a, b := l.MakeInit("STH", 2+c.Rng.Intn(2), m, 5), l.MakeInit("STH", 2+c.Rng.Intn(2), m, 6)
					b = w.MakeSTH(a.Payload[0], m, "another")
					o := MakeCON(a, b, m%60)
					fs = append(fs, func() { l.Give(l.Peers[0], o) })
				case 3:
					o := w.MakeFull(w.G[:w.Threshold], l.MakeInit(Kinds[c.Rng.Intn(3)], 2+c.Rng.Intn(2), m, 0))
					fs = append(fs, func() { l.Give(l.Peers[0], o) })
				case 4:
					g := Garbage(c.Rng)
					fs = append(fs, func() { n.Post("stranger", l.Self, "/gossip/sth_init", g) })
				}
			}
			return fs
		}
		shuffle := func(fs []func()) []func() {
			c.Rng.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
			requests += len(fs)
			return fs
		}
		Burst(m, 1, shuffle(append(inits(), odd()...)))
		// the instant at which it signs its own fragments
		s := []float64{6, 6, 9}[c.Rng.Intn(3)]
		Burst(m, s, shuffle(append(frags(true), odd()...)))
		shape += fmt.Sprint(s, "|")
		At(m, 20)
		Settle()
		if !quiet {
			for _, o := range good {
				l.ExpectSpread(o, "it was given to it")
				l.ExpectFull(o, "enough gossipers signed it")
			}
			if c.Failed() {
				return
			}
		}
		// the instant at which it saves and clears
		Burst(m, 40, shuffle(append(append(inits(), frags(false)...), odd()...)))
		At(m, 50)
		Settle()
	}
	n.Quiet(false)
	c.Count("concurrent requests", requests)
	if quiet {
		c.Count("unordered cases", 1)
	}
	c.Desc("%s, %d requests in bursts (%s), unordered: %v", t, requests, shape, quiet)
	c.Nontrivial(fmt.Sprintf("%s/%v/%s/%d", t, quiet, shape, requests))
}
