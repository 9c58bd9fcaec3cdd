// Package mon watches what a monitor publishes.
package mon

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"testing"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// given is one delivery to the monitor, as the model remembers it.
type given struct {
	o    Obj
	min  int     // minute counted from the monitor's start
	sec  float64 // second within it
	edge bool    // given at the very instant the update is made: before or after it
}

func (g given) String() string { return fmt.Sprintf("%v in period +%d at %.1f s", g.o, g.min, g.sec) }

// before tells whether the delivery precedes the update of the k-th period for sure, and whether it may.
func (g given) before(k int) (sure, maybe bool) {
	if g.min < k || g.min == k && g.sec < 40 && !g.edge {
		return true, true
	}
	return false, g.min == k && g.edge
}

func id(o Obj) string { return o.Period + "|" + o.Type + "|" + o.Payload[0] }

func full(o Obj) string { return string(o.JSON()) }

// TestC10: an update is exactly the history of its period.
func TestC10(t *testing.T) {
	RunProp(t, "C10", func(r *Run) {
		n := r.N(500, 3000)
		for i := 0; i < n; i++ {
			r.Case(fmt.Sprintf("history-%d", i), func(c *Case) {
				Bubble(c, func(n *Net) { history(c, n, i) })
			})
		}
	})
}

func history(c *Case, n *Net, i int) {
	l := NewMonLab(c, n, Topology{N: 3 + c.Rng.Intn(3), Threshold: 2 + c.Rng.Intn(2), Loggers: 1 + c.Rng.Intn(4), CAs: 1 + c.Rng.Intn(4), Wait: 5})
	w := l.W
	ents := append(append([]string{}, w.L...), w.C...)
	periods := 2 + c.Rng.Intn(4)
	if i%40 == 39 {
		periods = 8
	}
	if i%100 == 77 { // and each of the many updates is still served
		periods = 20 + c.Rng.Intn(39)
	}
	if c.Rng.Intn(5) == 0 { // it queries only some of those whose statements it is given
		l.Ctx.Monitor_private_config.Logger_URLs = Shuffled(c, w.L)[:c.Rng.Intn(len(w.L)+1)]
		l.Ctx.Monitor_private_config.CA_URLs = Shuffled(c, w.C)[:c.Rng.Intn(len(w.C)+1)]
	}
	log := []given{}
	served := map[int][]byte{} // first answer for the k-th period
	shape := map[string]bool{}
	proofs := map[string]bool{} // by entity and period

	give := func(g given) {
		l.Give(g.o)
		log = append(log, g)
		c.Count("delivered: "+TypeName(g.o.Type), 1)
	}
	// ask requests an update; made is the last period whose update must be there
	ask := func(k, made int, unsure bool) {
		body, _ := json.Marshal(strconv.Itoa(((l.P+k-l.Off)%60 + 60) % 60))
		st, ans := n.Do("client", l.Self, "GET", "/monitor/get-update", body)
		c.Count("update requests", 1)
		if k > made || k < 0 {
			if st == 200 && !(unsure && k == made+1) {
				c.Fail("the monitor answered the request for period +%d, which has no update (last one: +%d), with %d: %s", k, made, st, ans)
			}
			return
		}
		if st != 200 {
			c.Fail("no answer for the update of period +%d: %d %s", k, st, ans)
			return
		}
		if old, ok := served[k]; !ok {
			served[k] = ans
		} else if !same(old, ans) {
			c.Fail("the update of period +%d changed:\n%s\n%s", k, old, ans)
		}
	}

	// askForNone requests what is no period, by names that may lead to an update, also of another monitor
	askForNone := func(made int) {
		x := strconv.Itoa((l.P + max(0, made) - c.Rng.Intn(2) - l.Off + 120) % 60)
		other := filepath.Join(c.Dir, "monitor", "2", "Period_"+x)
		os.MkdirAll(other, 0o755)
		WriteJSON(filepath.Join(other, "ClientUpdate.json"), Update{MonitorID: w.M[0], Period: x})
		for _, name := range []string{x + "/../Period_" + x, x + "/../../2/Period_" + x, x + "/../../../2/Period_" + x, x + "/.", "../", "", "60", "-1", x + " ", x + "\x00"} {
			body, _ := json.Marshal(name)
			if st, ans := n.Do("client", l.Self, "GET", "/monitor/get-update", body); st == 200 {
				c.Fail("the monitor answered the request for period %q with %d: %.300s", name, st, ans)
			}
			c.Count("requests for what is no period", 1)
		}
	}

	type action struct {
		sec  float64
		edge bool
		do   func(g given)
	}
	for k := 0; k < periods; k++ {
		minute := l.Min + k
		acts := []action{}
		at := func(lo, hi float64, do func(g given)) {
			s := lo + c.Rng.Float64()*(hi-lo)
			edge := false
			if s > 39.7 && s < 40.3 {
				s = 39.7
			}
			if hi >= 40 && lo < 40 && c.Rng.Intn(12) == 0 {
				s, edge = 40, true
				shape["edge"] = true
			}
			acts = append(acts, action{s, edge, do})
		}
		for _, e := range ents {
			st := l.Statement(e, minute)
			obj := func() Obj { return w.MakeFull(Shuffled(c, w.G)[:w.Threshold+c.Rng.Intn(len(w.G)-w.Threshold+1)], st) }
			put := func(o Obj) func(given) { return func(g given) { g.o = o; give(g) } }
			switch x := c.Rng.Intn(10); {
			case x < 5: // in time
				at(0.2, 39, put(obj()))
			case x == 5: // twice
				o := obj()
				at(0.2, 39, put(o))
				at(0.2, 39, put(o))
				shape["twice"] = true
			case x == 6: // by other endorsers
				at(0.2, 39, put(obj()))
				at(0.2, 39, put(obj()))
				shape["variants"] = true
			case x == 7: // too late
				at(40.5, 59, put(obj()))
				shape["late"] = true
			case x == 8 && k > 0: // of the period before
				old := l.Statement(e, minute-1)
				at(0.2, 39, put(w.MakeFull(w.G[:w.Threshold], old)))
				at(0.2, 39, put(obj()))
				shape["stale"] = true
			default:
				at(0.2, 39.5, put(obj()))
			}
			if c.Rng.Intn(4) == 0 { // also as statement
				at(0.2, 59, put(st))
			}
			if c.Rng.Intn(5) == 0 {
				acc := w.MakeFull(Shuffled(c, w.G)[:w.Threshold], w.MakeACC(w.M[c.Rng.Intn(len(w.M))], e, minute))
				at(0.2, 59.5, put(acc))
				if c.Rng.Intn(3) == 0 {
					at(0.2, 59.5, put(acc))
				}
				shape["accusation"] = true
			}
			if c.Rng.Intn(9) == 0 && !proofs[fmt.Sprint(e, k)] {
				proofs[fmt.Sprint(e, k)] = true
				if proofs[e] {
					shape["second proof"] = true
				}
				proofs[e] = true
				other := w.MakeSTH(e, minute, "another")
				if st.Type == REV_INIT {
					other = w.SimpleREV(e, minute, uint(c.Rng.Intn(1000)), 1777)
				}
				a, b := st, other
				if c.Rng.Intn(2) == 0 {
					a, b = b, a
				}
				con := MakeCON(a, b, minute)
				at(0.2, 59.5, put(con))
				if c.Rng.Intn(3) == 0 {
					at(0.2, 59.5, put(con))
				}
				shape["proof"] = true
			}
		}
		for j := c.Rng.Intn(4); j > 0; j-- {
			at(0.5, 59.5, func(g given) {
				made, unsure := g.min-1, g.edge
				if g.sec > 40 {
					made = g.min
				}
				ask(c.Rng.Intn(g.min+4)-2, made, unsure)
			})
		}
		sort.SliceStable(acts, func(a, b int) bool { return acts[a].sec < acts[b].sec })
		for _, a := range acts {
			At(minute, a.sec)
			if !a.edge {
				Settle()
			}
			a.do(given{min: k, sec: a.sec, edge: a.edge})
		}
		At(minute, 59.7)
		Settle()
		for j := 0; j <= k; j++ {
			ask(j, k, false)
		}
		if c.Rng.Intn(4) == 0 {
			askForNone(k)
		}
	}
	for k := 0; k < periods; k++ {
		judge(c, l, log, k, periods, served)
		if c.Failed() {
			for _, g := range log {
				c.Desc("given: %v", g)
			}
			return
		}
	}
	c.Nontrivial(fmt.Sprintf("n%d/t%d/l%d/c%d/p%d/%v/%d", len(w.G), w.Threshold, len(w.L), len(w.C), periods, Keys(shape), len(log)))
}

func same(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	ua, e1 := ParseUpdate(a)
	ub, e2 := ParseUpdate(b)
	if e1 != nil || e2 != nil || ua.MonitorID != ub.MonitorID || ua.Period != ub.Period {
		return false
	}
	list := func(os []Obj) string {
		s := []string{}
		for _, o := range os {
			s = append(s, full(o))
		}
		sort.Strings(s)
		return fmt.Sprint(s)
	}
	return list(ua.STHs) == list(ub.STHs) && list(ua.REVs) == list(ub.REVs) && list(ua.POM_CONs) == list(ub.POM_CONs) && list(ua.POM_ACCs) == list(ub.POM_ACCs)
}

// judge compares the update of the k-th period with what was given.
func judge(c *Case, l *MonLab, log []given, k, periods int, served map[int][]byte) {
	raw, ok := served[k]
	if !ok {
		c.Fail("the update of period +%d was never served", k)
		return
	}
	u, err := ParseUpdate(raw)
	if err != nil {
		c.Fail("the answer for period +%d is not an update: %v", k, err)
		return
	}
	label := P2(l.P + k)
	if u.Period != label || u.MonitorID != l.Self {
		c.Fail("the update of period %s by %s says it is of period %q by %q", label, l.Self, u.Period, u.MonitorID)
	}
	convicted, maybe := map[string]bool{}, map[string]bool{}
	for _, g := range log {
		if g.o.Type == CON_INIT {
			s, m := g.before(k)
			convicted[g.o.Payload[0]] = convicted[g.o.Payload[0]] || s
			maybe[g.o.Payload[0]] = maybe[g.o.Payload[0]] || m
		}
	}
	// what is published was given, for this period or since the last update, unaltered, once, in its section
	known := map[string]bool{}
	for _, g := range log {
		if _, m := g.before(k); m {
			known[full(g.o)] = true
		}
	}
	seen := map[string]bool{}
	section := func(name string, os []Obj, typ string) {
		for _, o := range os {
			c.Count("published: "+TypeName(typ), 1)
			if o.Type != typ {
				c.Fail("the update of period +%d holds a %s among the %s", k, TypeName(o.Type), name)
			}
			if !known[full(o)] {
				c.Fail("the update of period +%d holds an object that was never given, or altered: %v", k, o)
			}
			if seen[id(o)] {
				c.Fail("the update of period +%d holds twice: %v", k, o)
			}
			seen[id(o)] = true
			if (typ == STH_FULL || typ == REV_FULL) && o.Period != label {
				c.Fail("the update of period %s holds a statement of another period: %v", label, o)
			}
			if (typ == STH_FULL || typ == REV_FULL) && convicted[o.Payload[0]] {
				c.Fail("the update of period +%d holds a statement of the convicted %s", k, o.Payload[0])
			}
			if typ == CON_INIT || typ == ACC_FULL {
				recent := false
				for _, g := range log {
					s, _ := g.before(k - 1)
					if _, m := g.before(k); full(g.o) == full(o) && m && !s {
						recent = true
					}
				}
				if !recent {
					c.Fail("the update of period +%d repeats a proof of before the last update: %v", k, o)
				}
			}
		}
	}
	section("tree heads", u.STHs, STH_FULL)
	section("revocations", u.REVs, REV_FULL)
	section("conflict proofs", u.POM_CONs, CON_INIT)
	section("accusations", u.POM_ACCs, ACC_FULL)
	// what was given is published
	for x, g := range log {
		s, _ := g.before(k)
		switch g.o.Type {
		case STH_FULL, REV_FULL:
			if s && g.o.Period == label && g.min == k && !convicted[g.o.Payload[0]] && !maybe[g.o.Payload[0]] && !seen[id(g.o)] {
				c.Fail("the update of period +%d lacks what was given: %v", k, g)
			}
		case CON_INIT, ACC_FULL:
			first := true
			for _, h := range log[:x] {
				first = first && id(h.o) != id(g.o)
			}
			if !first {
				continue
			}
			sb, mb := g.before(k - 1)
			if s && !sb && !mb && !seen[id(g.o)] {
				c.Fail("the update of period +%d lacks the proof %v", k, g)
			}
			if g.edge && g.min == k && k+1 < periods && !seen[id(g.o)] {
				// then it is in the next one
				if v, err := ParseUpdate(served[k+1]); err == nil {
					found := false
					for _, o := range v.All() {
						found = found || id(o) == id(g.o)
					}
					if !found {
						c.Fail("the proof %v, given as the update was made, is neither in this nor in the next update", g)
					}
				}
			}
		}
	}
}
