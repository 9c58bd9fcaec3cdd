package mon

import (
	"encoding/json"
	"fmt"
	"net/http"
	"strconv"
	"sync"
	"testing"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// TestC21: a monitor under concurrent load, watched by the race detector, the crash and the deadlock monitors.
func TestC21(t *testing.T) {
	RunProp(t, "C21", func(r *Run) {
		n := r.N(120, 2000)
		for i := 0; i < n; i++ {
			quiet := i%3 != 0
			r.Case(fmt.Sprintf("load-%d", i), func(c *Case) {
				Bubble(c, func(n *Net) { load(c, n, quiet) })
			})
		}
	})
}

// load gives a monitor much to do at the same time, at the instants at which it is also busy with its own tasks.
// In quiet cases nothing but the monitor's own locks orders what happens; in the others the outcome is judged.
func load(c *Case, n *Net, quiet bool) {
	l := NewMonLab(c, n, Topology{N: 3 + c.Rng.Intn(3), Threshold: 2, Loggers: 3, CAs: 3, Wait: 5})
	w := l.W
	periods := 3
	ents := append(append([]string{}, w.L...), w.C...)
	for k := 0; k < periods; k++ {
		for _, e := range ents {
			l.Statement(e, l.Min+k)
		}
	}
	if quiet { // entities that answer without any lock
		for i, e := range ents {
			bodies := map[int][]byte{}
			for k := 0; k < periods; k++ {
				bodies[l.Min+k] = l.Statement(e, l.Min+k).JSON()
			}
			dead := c.Rng.Intn(4) == 0 && i%3 == 2
			n.Handle(e, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
				if dead {
					rw.WriteHeader(500)
					return
				}
				rw.Write(bodies[Minute()])
			}))
		}
	}
	At(l.Min, 0)
	Settle()
	n.Quiet(quiet)
	requests := 0
	shape := ""
	var mu sync.Mutex
	broken := ""
	for k := 0; k < periods; k++ {
		m := l.Min + k
		give := func(o Obj) func() { return func() { l.Give(o) } }
		ask := func(p int) func() {
			body, _ := json.Marshal(strconv.Itoa((((p - l.Off) % 60) + 60) % 60))
			return func() {
				st, ans := n.Do("client", l.Self, "GET", "/monitor/get-update", body)
				if st == 200 {
					if u, err := ParseUpdate(ans); err != nil || u.MonitorID == "" {
						mu.Lock()
						broken = fmt.Sprintf("%v %.200q", err, ans)
						mu.Unlock()
					}
				}
			}
		}
		again := func(f func()) func() {
			return func() {
				for j := 0; j < 6; j++ {
					f()
				}
			}
		}
		others := func() []func() {
			fs := []func(){}
			for j := 3 + c.Rng.Intn(5); j > 0; j-- {
				e := ents[c.Rng.Intn(len(ents))]
				switch c.Rng.Intn(5) {
				case 0:
					fs = append(fs, give(l.Statement(e, m)))
				case 1:
					x := w.L[2]
					fs = append(fs, give(MakeCON(w.MakeSTH(x, m%60, "a"), w.MakeSTH(x, m%60, fmt.Sprint(c.Rng.Intn(3))), m%60)))
				case 2:
					fs = append(fs, give(w.MakeFull(w.G[:2], w.MakeACC(w.M[1], []string{w.L[2], w.C[2]}[c.Rng.Intn(2)], m%60))))
				case 3:
					g := Garbage(c.Rng)
					fs = append(fs, func() { n.Post("stranger", l.Self, "/monitor/receive-gossip-from-gossiper", g) })
				case 4:
					fs = append(fs, give(w.MakeACC(w.M[1], w.C[2], m%60)))
				}
			}
			for j := c.Rng.Intn(4); j > 0; j-- {
				fs = append(fs, ask(l.P+k-c.Rng.Intn(2)))
			}
			return fs
		}
		endorsed := func() []func() {
			fs := []func(){}
			for _, e := range ents {
				for j := 1 + c.Rng.Intn(3); j > 0; j-- {
					fs = append(fs, give(w.MakeFull(Shuffled(c, w.G)[:2], l.Statement(e, m))))
				}
			}
			return fs
		}
		burst := func(s float64, fs []func()) {
			c.Rng.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
			requests += len(fs)
			shape += fmt.Sprint(s, " ")
			Burst(m, s, fs)
		}
		// the instant at which it queries everybody
		if k > 0 || quiet {
			burst(0, others())
		}
		// a time before the update, such that its update of revocations is at the same instant as the next burst
		burst([]float64{5, 10, 20}[c.Rng.Intn(3)], append(endorsed(), others()...))
		burst(30, append(endorsed(), others()...))
		// the instant at which it makes the update
		burst(40, append(append(endorsed(), others()...), again(ask(l.P+k)), again(ask(l.P+k))))
		At(m, 45)
		if !quiet {
			u := l.Update(k)
			if c.Failed() {
				return
			}
			for _, e := range ents {
				if e == w.L[2] || e == w.C[2] {
					continue
				}
				if os := u.About(e); len(os) != 1 || os[0].Content() != l.Statement(e, m).Content() {
					c.Fail("period %d: under load the update holds %v about %s instead of its endorsed statement", k, os, e)
				}
			}
		}
		if broken != "" {
			c.Fail("period %d: the monitor handed out a broken update: %s", k, broken)
		}
		At(m, 50)
		Settle()
	}
	n.Quiet(false)
	c.Count("concurrent requests", requests)
	if quiet {
		c.Count("unordered cases", 1)
	}
	c.Desc("%s, %d requests in bursts at %s, unordered: %v", l.Self, requests, shape, quiet)
	c.Nontrivial(fmt.Sprintf("%d/%v/%s/%d", len(w.G), quiet, shape, requests))
}
