// Package clock watches how real entities name and keep the periods.
package clock

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// TestC26: everybody names the current period the same way, and begins and stays with it.
func TestC26(t *testing.T) {
	RunProp(t, "C26", func(r *Run) {
		for i := 0; i < r.N(56, 900); i++ {
			r.Case(fmt.Sprintf("starts-%d", i), func(c *Case) { Bubble(c, func(n *Net) { clock(c, n, 3+c.Rng.Intn(4)) }) })
		}
		for i := 0; i < r.N(4, 30); i++ {
			r.Case(fmt.Sprintf("hours-%d", i), func(c *Case) { Bubble(c, func(n *Net) { clock(c, n, 63+c.Rng.Intn(60)) }) })
		}
	})
}

var zero = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

// starter is one entity and the instant it is started at.
type starter struct {
	id, kind string
	at       time.Duration
	run      func()
}

// begins tells whether an entity started at s may begin its work at d: at the next boundary, or at once when it is started at one.
func begins(s, d time.Duration) bool {
	m := s.Truncate(time.Minute)
	if off := d - d.Truncate(time.Minute); off >= 2*time.Second {
		return false
	}
	b := d.Truncate(time.Minute)
	if s-m < time.Second {
		return b == m || b == m+time.Minute
	}
	return b == m+time.Minute
}

func clock(c *Case, n *Net, minutes int) {
	long := minutes > 30
	t := Topology{N: 2 + c.Rng.Intn(2), Threshold: 2, Loggers: 2, CAs: 2, Wait: 3 + c.Rng.Intn(4), Certs: 1}
	if long {
		t.Certs = 0
	}
	w := NewWorld(c.Dir, t)
	// periods are the same in every time zone, also in those that are not whole hours away
	slow := []int{0, 0, 290}[c.Rng.Intn(3)] // CA and logger take their time to answer, also over a boundary
	zone := []time.Duration{0, 0, 330, -570, 345, 60 * 9, -60 * 5}[c.Rng.Intn(7)] * time.Minute
	time.Local = time.FixedZone(zone.String(), int(zone.Seconds()))
	defer func() { time.Local = time.UTC }()
	first := []int{c.Rng.Intn(60), 56 + c.Rng.Intn(4), 0}[c.Rng.Intn(3)]
	spread := 1 + c.Rng.Intn(2)
	offset := ""
	off := 0
	if c.Rng.Intn(2) == 0 {
		off = c.Rng.Intn(60)
		if c.Rng.Intn(2) == 0 {
			off = first
		}
		offset = P2(off)
	}
	draw := func() time.Duration {
		m := time.Duration(first+c.Rng.Intn(spread)) * time.Minute
		switch c.Rng.Intn(6) {
		case 0: // at the boundary
			return m + time.Duration(c.Rng.Intn(3))*400*time.Millisecond
		case 1: // just before it
			return m + 59*time.Second + time.Duration(c.Rng.Intn(1000))*time.Millisecond
		case 2:
			return m + time.Duration(1+c.Rng.Intn(59))*time.Second
		}
		return m + time.Second + time.Duration(c.Rng.Intn(59000))*time.Millisecond
	}
	var ss []*starter
	add := func(kind, id string, run func()) { ss = append(ss, &starter{id, kind, draw(), run}) }
	for i, g := range w.G {
		add("gossiper", g, func() {
			pub, priv, cr := w.Cfg("G", i)
			ctx := gossiper.InitializeGossiperContext(pub, priv, cr, fmt.Sprint(i+1))
			ctx.StorageDirectory = filepath.Join(c.Dir, fmt.Sprintf("gossiper%d", i)) + "/"
			ctx.Total_Logger, ctx.Total_CA = len(w.L), len(w.C)
			ctx.Max_latency = 0
			go gossiper.StartGossiperServer(ctx)
		})
	}
	for _, m := range w.M[1:] {
		n.Handle(m, Stub)
	}
	add("monitor", w.M[0], func() {
		pub, priv, cr := w.Cfg("M", 0)
		ctx := monitor.InitializeMonitorContext(pub, priv, cr, "1")
		ctx.InitializeMonitorStorage(filepath.Join(c.Dir, "monitor"))
		ctx.Max_latency = 0
		ctx.Period_Offset = offset
		go monitor.StartMonitorServer(ctx)
	})
	// the second logger and the second CA are down for good
	add("CA", w.C[0], func() {
		StartRealCA(c, w, 0, func(x *CA.CAContext) { x.RevocationRatio, x.Max_latency = 0.00001, slow })
	})
	add("logger", w.L[0], func() { StartRealLogger(c, w, 0, func(x *Logger.LoggerContext) { x.Max_latency = slow }) })
	desc := []string{}
	at := map[string]time.Duration{}
	for _, s := range ss {
		at[s.id] = s.at
		desc = append(desc, fmt.Sprintf("%s %s at %v", s.kind, s.id, s.at))
		go func() {
			time.Sleep(time.Until(zero.Add(s.at)))
			s.run()
		}()
	}
	c.Desc("%s, %d minutes, zone %v, offset %q: %s", t, minutes, zone, offset, strings.Join(desc, ", "))
	up := first + spread + 1 // everybody is at work in this minute
	end := first + minutes
	if end < up+2 {
		end = up + 2
	}
	labels := map[string]bool{}
	what := func(id string) string { return fmt.Sprintf("%s (started at %v)", id, at[id]) }
	// ask queries an entity and judges the label of what it says
	ask := func(id, path string, must bool) {
		st, b := n.Do("harness", id, "GET", path, nil)
		now := time.Since(zero) // of the answer
		m := int(now / time.Minute)
		var o Obj
		if err := json.Unmarshal(b, &o); (err != nil || st != 200 || o.Type == "") && must {
			c.Fail("%s has no statement at %v: status %d", what(id), now, st)
			return
		}
		if o.Type == "" {
			return
		}
		c.Count("labels", 1)
		labels[o.Period] = true
		if o.Period != P2(m) {
			c.Fail("%s serves at %v a statement labelled %s", what(id), now, o.Period)
		}
		if err := w.Valid(o); err != nil {
			c.Fail("%s serves at %v a statement that is not valid: %v", what(id), now, err)
		}
	}
	served := map[int]bool{}
	for m := first; m <= end; m++ {
		// reachable from the first boundary on
		At(m, 2)
		for _, s := range ss {
			if !begins(s.at, time.Duration(m)*time.Minute) {
				continue
			}
			if s.at-s.at.Truncate(time.Minute) < time.Second && m == int(s.at/time.Minute) {
				continue // it may wait for the next one
			}
			path := map[string]string{"gossiper": "/gossip/sth_init", "monitor": "/monitor/receive-gossip-from-gossiper", "CA": "/CA/receive-poi", "logger": "/Logger/receive-precerts"}[s.kind]
			if st, _ := n.Post("harness", s.id, path, []byte("{}")); st == 0 {
				c.Fail("%s is not at work at %v", what(s.id), time.Since(zero))
			}
		}
		for _, sec := range []float64{2.5 + float64(c.Rng.Intn(30)), 35 + float64(c.Rng.Intn(10))/2, 42 + float64(c.Rng.Intn(16)), 59.999} {
			At(m, sec)
			Settle()
			asks := []func(){func() { ask(w.C[0], "/ctng/v2/get-revocation", m > up) }, func() { ask(w.L[0], "/ctng/v2/get-sth", m > up) }}
			first := c.Rng.Intn(2) // the second may only be asked after the boundary
			asks[first]()
			asks[1-first]()
			if long {
				break
			}
		}
		At(m, 59.9991)
		u, st := FetchUpdate(n, "harness", w.M[0], m-off)
		if u == nil {
			if m >= up {
				c.Fail("%s has no update for minute %d (offset %q): status %d", what(w.M[0]), m, offset, st)
			}
			continue
		}
		if !served[m] {
			served[m] = true
			c.Count("labels", 1)
			if u.Period != P2(m) {
				if m >= up {
					c.Fail("%s serves for minute %d (offset %q) an update labelled %s", what(w.M[0]), m, offset, u.Period)
				}
				continue
			}
			for _, o := range append(append([]Obj{}, u.STHs...), u.REVs...) {
				c.Count("labels", 1)
				if o.Period != P2(m) {
					c.Fail("the update of minute %d holds a statement labelled %s", m, o.Period)
				}
			}
			if m > up && len(u.About(w.L[0])) != 1 {
				c.Fail("the update of minute %d holds %d tree heads of %s: the entities do not work together", m, len(u.About(w.L[0])), w.L[0])
			}
		}
	}
	Settle()
	// the whole history
	begun := map[string]time.Duration{}
	rounds := map[string][]time.Duration{}
	note := func(key string, d time.Duration) {
		r := rounds[key]
		if len(r) == 0 || d-r[len(r)-1] > 20*time.Second {
			rounds[key] = append(r, d)
		}
	}
	for _, e := range n.Events() {
		if e.From == "harness" {
			continue
		}
		d := e.At.Sub(zero)
		m := int(d / time.Minute)
		switch {
		case e.Path == "/Logger/receive-precerts":
			note("precertificates of "+e.From, d)
			if _, ok := begun[e.From]; !ok {
				begun[e.From] = d
			}
		case e.Path == "/CA/receive-sth" && e.Obj != nil:
			if e.To == w.C[0] {
				note("tree head of "+e.From, d)
			}
			if _, ok := begun[e.From]; !ok {
				begun[e.From] = d - 40*time.Second
			}
			_, p, _, _, err := e.Obj.ParseSTH()
			c.Count("labels", 1)
			labels[e.Obj.Period] = true
			if e.Obj.Period != P2(m+1) || p != P2(m) || err != nil {
				c.Fail("%s made at %v a tree head labelled %s over period %s: %v", what(e.From), d, e.Obj.Period, p, err)
			}
		case strings.HasPrefix(e.Path, "/ctng/v2/"):
			if strings.HasPrefix(e.To, w.L[0]) {
				note("queries of the monitor", d)
			}
			if _, ok := begun[w.M[0]]; !ok {
				begun[w.M[0]] = d
			}
		case e.Obj != nil:
			c.Count("labels", 1)
			labels[e.Obj.Period] = true
			if e.Obj.Period != P2(m) {
				c.Fail("%s sent at %v an object labelled %s: %v", what(e.From), d, e.Obj.Period, e)
			}
			c.Count(strings.ToLower(TypeName(e.Obj.Type)), 1)
		}
	}
	for id, d := range begun {
		c.Count("starts", 1)
		if !begins(at[id], d) {
			c.Fail("%s began its work at %v", what(id), d)
		}
	}
	for key, r := range rounds {
		for i, d := range r {
			if d != r[0]+time.Duration(i)*time.Minute {
				c.Fail("the rounds of the %s were at %v", key, r)
				break
			}
		}
		c.Count("rounds", len(r))
		if last := r[len(r)-1]; last < time.Duration(end)*time.Minute-time.Second {
			c.Fail("the %s ended at %v, before minute %d", key, last, end)
		}
	}
	for _, k := range []string{"tree head of " + w.L[0], "queries of the monitor", "precertificates of " + w.C[0]} {
		if len(rounds[k]) == 0 && (t.Certs > 0 || !strings.HasPrefix(k, "precert")) {
			c.Fail("there were no %s", k)
		}
	}
	c.Count("distinct labels", len(labels))
	c.Nontrivial(strings.Join(desc, ","))
}
