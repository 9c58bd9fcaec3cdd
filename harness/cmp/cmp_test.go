// Package cmp watches the exchange of revocation statements by announcement and request.
package cmp

import (
	"encoding/json"
	"fmt"
	"net/http"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/gossiper"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// TestC18: the compact exchange of revocation statements loses nothing.
func TestC18(t *testing.T) {
	RunProp(t, "C18", func(r *Run) {
		n := r.N(1000, 12000)
		for i := 0; i < n; i++ {
			kind := []string{"network", "announced", "asked"}[i%3]
			r.Case(fmt.Sprintf("%s-%d", kind, i), func(c *Case) {
				Bubble(c, func(n *Net) {
					switch kind {
					case "network":
						network(c, n)
					case "announced":
						announced(c, n)
					default:
						asked(c, n)
					}
				})
			})
		}
	})
}

type note struct {
	Sender     string `json:"sender"`
	Period     string `json:"period"`
	Type       string `json:"type"`
	Entity_URL string `json:"entity_url"`
	Objhash    []byte `json:"objhash"`
}

const (
	announce = "/gossip/new_payload_notification"
	request  = "/gossip/new_payload_request"
)

// draw makes a revocation statement of some size.
func draw(c *Case, w *World, ca string, period, variant int) Obj {
	ones := []uint{uint(variant)}
	for j := []int{0, 3, 200, 1500}[c.Rng.Intn(4)]; j > 0; j-- {
		ones = append(ones, uint(c.Rng.Intn(40000)))
	}
	d := Bits(50000, ones...)
	if c.Rng.Intn(10) == 0 {
		for j := 0; j < 60000; j++ {
			ones = append(ones, uint(c.Rng.Intn(1000000)))
		}
		d = Bits(1000000, ones...)
	}
	return w.MakeREV(ca, period, d, d)
}

// asks are the requests the gossiper sent, from the event number on.
func asks(l *Lab, since int) []*Event {
	out := []*Event{}
	for _, e := range l.Net.Events() {
		if e.From == l.Self && e.Path == request && e.Seq > since {
			out = append(out, e)
		}
	}
	return out
}

func seq(n *Net) int { return len(n.Events()) }

// peers that the case scripts itself
type peer struct {
	mode  string
	serve []Obj // what it answers a request with
}

// announced: peers announce statements to a real gossiper, some of them lying or dead.
func announced(c *Case, n *Net) {
	tp := LabTopology(c)
	tp.N = 3 + c.Rng.Intn(5)
	tp.Threshold = 1 + c.Rng.Intn(tp.N)
	l := NewLab(c, n, tp)
	w := l.W
	l.At(0.5 + c.Rng.Float64())
	ca := w.C[c.Rng.Intn(2)]
	init, earlier := draw(c, w, ca, l.P, 1), draw(c, w, ca, l.P-1, 3)
	var mu sync.Mutex
	scripts := map[string]*peer{}
	for _, p := range l.Peers {
		old := &peer{}
		scripts[p] = old
		n.Handle(p, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			if r.URL.Path == announce {
				// an honest peer asks for what it does not have
				var nt note
				if json.NewDecoder(r.Body).Decode(&nt) == nil {
					to := nt.Sender
					nt.Sender = p
					b, _ := json.Marshal(nt)
					n.Post(p, to, request, b)
				}
				return
			}
			if r.URL.Path != request {
				return
			}
			mu.Lock()
			s := old.serve
			mu.Unlock()
			for _, o := range s {
				l.Give(p, o)
			}
		}))
	}
	order := Shuffled(c, l.Peers)
	liars := c.Rng.Intn(len(order)) // at least one tells the truth
	modes := []string{}
	for i, p := range order {
		s := scripts[p]
		if i < liars {
			switch c.Rng.Intn(5) {
			case 0:
				s.mode = "dead"
				n.Remove(p)
			case 1:
				s.mode = "silent"
			case 2:
				s.mode = "forged"
				for _, m := range Pick(w.Mutations(init, c.Rng), 3, c.Rng) {
					if w.Valid(m.Obj) != nil {
						s.serve = append(s.serve, m.Obj)
					}
				}
			case 3:
				s.mode = "another CA's"
				s.serve = []Obj{draw(c, w, w.C[1-index(w.C, ca)], l.P, 2)}
			case 4:
				s.mode = "another period's"
				s.serve = []Obj{earlier}
			}
		} else {
			s.mode, s.serve = "true", []Obj{init}
		}
		modes = append(modes, s.mode)
	}
	say := func(p string, hash []byte) {
		b, _ := json.Marshal(note{p, init.Period, REV_INIT, ca, hash})
		n.Post(p, l.Self, announce, b)
	}
	hash := make([]byte, 32)
	c.Rng.Read(hash)
	held := false
	gap := time.Duration([]int{0, 1, 150}[c.Rng.Intn(3)]) * time.Millisecond
	var wg sync.WaitGroup
	together := c.Rng.Intn(3) == 0
	for i, p := range order {
		before := seq(n)
		for j := 0; j < 1+c.Rng.Intn(2); j++ {
			if together {
				wg.Add(1)
				go func() { defer wg.Done(); say(p, hash) }()
				continue
			}
			say(p, hash)
			Settle()
			if a := asks(l, before); !held {
				ok := false
				for _, e := range a {
					var nt note
					ok = ok || (e.To == p && json.Unmarshal(e.Body, &nt) == nil && nt.Entity_URL == ca && nt.Period == init.Period && nt.Sender == l.Self)
				}
				if !ok {
					c.Fail("%s announced a statement the gossiper does not hold, and was not asked for it (%v)", p, modes[:i+1])
					return
				}
				c.Count("announcements asked for", 1)
			}
			if scripts[p].mode == "true" {
				held = true
			}
			if held {
				break
			}
			time.Sleep(gap)
		}
		if held && !together {
			break
		}
	}
	wg.Wait()
	Settle()
	l.At(5)
	// from now on it holds it: take its own announcement, and announce it again
	var own []byte
	for _, e := range n.Events() {
		var nt note
		if e.From == l.Self && e.Path == announce && json.Unmarshal(e.Body, &nt) == nil && nt.Entity_URL == ca && nt.Period == init.Period {
			own = nt.Objhash
		}
	}
	if own == nil {
		c.Fail("the gossiper got a statement and did not announce it (%v)", modes)
		return
	}
	before := seq(n)
	for _, p := range order {
		for j := 0; j < 1+c.Rng.Intn(2); j++ {
			say(p, own)
			c.Count("announcements of what it held", 1)
		}
	}
	Settle()
	if a := asks(l, before); len(a) > 0 {
		c.Fail("the gossiper asked for what it held: %v", a[0])
	}
	if c.Rng.Intn(3) == 0 { // another one for the same period is asked for, and becomes a proof
		two := draw(c, w, ca, l.P, 777)
		p := order[len(order)-1]
		mu.Lock()
		scripts[p].serve = []Obj{two}
		mu.Unlock()
		before = seq(n)
		say(p, hash)
		Settle()
		if len(asks(l, before)) == 0 {
			c.Fail("the gossiper did not ask for a second statement of the CA")
		}
		l.At(20)
		n.Handle(order[0], []http.Handler{Stub, Silent}[c.Rng.Intn(2)]) // a dead one is not waited for
		l.ExpectProof(ca, "two statements were announced and fetched")
		l.Judge()
		c.Nontrivial(fmt.Sprintf("announced/%v/conflict/n%d", modes, len(w.G)))
		return
	}
	// fragments
	k := 0
	for _, p := range order {
		if c.Rng.Intn(2) == 0 {
			l.Give(p, Compact(w.MakeFrag(p, init)))
			k++
		}
	}
	l.At(15)
	Settle()
	l.Judge()
	for _, p := range order {
		if scripts[p].mode == "dead" {
			l.Lazy[p] = true
		}
	}
	l.ExpectSpread(init, fmt.Sprintf("it was announced and fetched (%v)", modes))
	if k < w.Threshold { // else it needs no endorsement of its own any more
		l.ExpectOwnFrag(init, fmt.Sprintf("it was announced and fetched (%v)", modes))
	}
	if k+1 >= w.Threshold {
		l.ExpectFull(init, fmt.Sprintf("%d endorsed it, threshold %d", k+1, w.Threshold))
	} else {
		l.ExpectNoFull(init, "too few endorsed it")
	}
	c.Nontrivial(fmt.Sprintf("announced/%v/together %v/n%d/t%d/k%d", modes, together, len(w.G), w.Threshold, k))
}

func index(l []string, x string) int {
	for i, y := range l {
		if x == y {
			return i
		}
	}
	return -1
}

// asked: a real gossiper is asked for statements it holds and for others.
func asked(c *Case, n *Net) {
	l := NewLab(c, n, LabTopology(c))
	w := l.W
	for _, p := range l.Peers {
		l.Lazy[p] = true
	}
	have := map[string]Obj{} // entity -> statement
	shape := ""
	check := func(entity, period, typ string, want *Obj) {
		p := l.Anyone()
		before := seq(n)
		b, _ := json.Marshal(note{p, period, typ, entity, []byte("hash")})
		n.Post(p, l.Self, request, b)
		Settle()
		got := 0
		for _, e := range n.Events()[before:] {
			if e.From != l.Self || e.Path == request || e.Path == announce {
				continue
			}
			got++
			if want == nil {
				c.Fail("asked for %s %s %s, which it does not hold, the gossiper sent %v", TypeName(typ), entity, period, e)
			} else if e.Obj == nil || e.To != p || string(e.Obj.JSON()) != string(want.JSON()) {
				c.Fail("asked for the statement of %s, period %s, the gossiper sent %s %v instead of %v", entity, period, e.To, e, want)
			}
		}
		if want != nil && got != 1 {
			c.Fail("asked for the statement of %s, period %s, the gossiper answered %d times", entity, period, got)
		}
		c.Count("requests", 1)
		if want != nil {
			c.Count("requests answered", 1)
		}
	}
	for round := 0; round < 2; round++ {
		l.At(float64(60*round) + 1 + c.Rng.Float64())
		for _, ca := range w.C {
			period := P2(l.P + round)
			check(ca, period, REV_INIT, nil)
			if c.Rng.Intn(3) > 0 {
				if c.Rng.Intn(2) == 0 { // forgeries first
					for _, m := range Pick(w.Mutations(draw(c, w, ca, l.P+round, 5), c.Rng), 3, c.Rng) {
						if w.Valid(m.Obj) != nil {
							l.Give(l.Anyone(), m.Obj)
						}
					}
					Settle()
					check(ca, period, REV_INIT, nil)
				}
				o := draw(c, w, ca, l.P+round, 1)
				from := l.Anyone()
				if c.Rng.Intn(4) == 0 { // without telling its size
					from += Unsized
					shape += "c"
				}
				l.Give(from, o)
				Settle()
				have[ca] = o
				shape += "h"
			} else {
				shape += "-"
			}
		}
		sth := w.MakeSTH(w.L[0], l.P+round, "x")
		l.Give(l.Anyone(), sth)
		Settle()
		for _, ca := range w.C {
			for j := 0; j < 1+c.Rng.Intn(3); j++ {
				if o, ok := have[ca]; ok {
					check(ca, o.Period, REV_INIT, &o)
				}
			}
			check(ca, P2(l.P+round+1), REV_INIT, nil)
			check(ca, "", REV_INIT, nil)
		}
		check("localhost:6999", P2(l.P+round), REV_INIT, nil)
		check("", "", "", nil)
		l.At(float64(60*round) + 41)
		shape += "|"
		have = map[string]Obj{}
	}
	l.Judge()
	c.Nontrivial(fmt.Sprintf("asked/%s/n%d", shape, len(w.G)))
}

// network: real gossipers, a statement reaches one of them.
func network(c *Case, n *Net) {
	size := 2 + c.Rng.Intn(6)
	w := NewWorld(c.Dir, Topology{N: size, Threshold: 1 + c.Rng.Intn(size), Loggers: 1, CAs: 2, Wait: 5})
	start := []int{2, 57, 58, 59}[c.Rng.Intn(4)]
	At(start, 20)
	dead := map[string]bool{}
	ring := c.Rng.Intn(2) == 0 && size > 3
	if !ring {
		for _, g := range Shuffled(c, w.G)[:c.Rng.Intn(max(1, size-w.Threshold+1))] {
			dead[g] = true
		}
	}
	period := start + 1
	inits := []Obj{}
	for _, ca := range w.C[:1+c.Rng.Intn(2)] {
		inits = append(inits, draw(c, w, ca, period, 1))
	}
	var rival *Obj // another statement of the first CA
	if len(dead)+2 <= size && c.Rng.Intn(5) == 0 {
		o := draw(c, w, inits[0].Payload[0], period, 2)
		rival = &o
		c.Desc("with two statements of %s", o.Payload[0])
	}
	thr := []int{10, 10, len(inits[0].JSON()) - 1, len(inits[0].JSON()), len(inits[0].JSON()) + 1, 1 << 20}[c.Rng.Intn(6)]
	live := []string{}
	for i, g := range w.G {
		n.Handle(w.M[i], Stub)
		if dead[g] {
			continue
		}
		live = append(live, g)
		pub, priv, cr := w.Cfg("G", i)
		x := gossiper.InitializeGossiperContext(pub, priv, cr, fmt.Sprint(i+1))
		x.StorageDirectory = filepath.Join(c.Dir, fmt.Sprintf("g%d", i)) + "/"
		x.Total_Logger, x.Total_CA, x.Max_latency = 1, 2, 0
		x.Optimization_threshold = thr
		if ring {
			x.Gossiper_private_config.Connected_Gossipers = []string{w.G[(i+1)%size], w.G[(i+size-1)%size]}
		}
		go gossiper.StartGossiperServer(x)
	}
	jit := []time.Duration{0, 50 * time.Millisecond, time.Second}[c.Rng.Intn(3)]
	if ring {
		jit = min(jit, 150*time.Millisecond)
	}
	if jit > 0 {
		n.Policy = Jitter(c.Rng.Int63(), jit)
	}
	At(period, 1)
	// each statement reaches one or more gossipers, from their monitors
	var wg sync.WaitGroup
	entries := 0
	if rival != nil {
		to := Shuffled(c, live)[:2]
		for i, o := range []Obj{inits[0], *rival} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				n.Post(w.M[index(w.G, to[i])], to[i], "/gossip/rev_init", o.JSON())
			}()
		}
		inits = inits[1:]
	}
	for _, o := range inits {
		for _, g := range Shuffled(c, live)[:1+c.Rng.Intn(min(2, len(live)))] {
			entries++
			wg.Add(1)
			d := time.Duration(c.Rng.Intn(400)) * time.Millisecond
			from := w.M[index(w.G, g)]
			if c.Rng.Intn(4) == 0 {
				from += Unsized
			}
			go func() {
				defer wg.Done()
				time.Sleep(d)
				n.Post(from, g, "/gossip/rev_init", o.JSON())
			}()
		}
	}
	wg.Wait()
	At(period, 25)
	Settle()
	// held is when a gossiper had a statement
	held := map[string]time.Time{}
	key := func(g string, o *Obj) string { return g + "|" + o.Payload[0] }
	got := map[string]int{}
	full := map[string][]Obj{}
	for _, e := range n.Events() {
		if e.Obj == nil {
			continue
		}
		if e.Obj.Type == REV_INIT {
			if err := w.Valid(*e.Obj); err != nil {
				c.Fail("an altered statement was sent: %v: %v", err, e)
				continue
			}
			if index(w.G, e.To) >= 0 && !e.Done.IsZero() {
				k := key(e.To, e.Obj)
				if t, ok := held[k]; !ok || e.Done.Before(t) {
					held[k] = e.Done
				}
			}
			if i := index(w.M, e.To); i >= 0 {
				for _, o := range inits {
					if o.Content() == e.Obj.Content() {
						got[key(w.G[i], e.Obj)]++
					}
				}
			}
		}
		if i := index(w.M, e.To); i >= 0 && e.Obj.Type == REV_FULL {
			full[key(w.G[i], e.Obj)] = append(full[key(w.G[i], e.Obj)], *e.Obj)
		}
	}
	for _, e := range n.Events() {
		var nt note
		if e.Path == request && json.Unmarshal(e.Body, &nt) == nil {
			if t, ok := held[e.From+"|"+nt.Entity_URL]; ok && e.At.After(t) && (rival == nil || nt.Entity_URL != rival.Payload[0]) {
				c.Fail("%s asked for what it held: %v", e.From, e)
			}
			c.Count("requests", 1)
		}
		if e.Path == announce {
			c.Count("announcements", 1)
		}
	}
	if rival != nil {
		proven := map[string]bool{}
		for _, e := range n.Events() {
			if i := index(w.M, e.To); i >= 0 && e.Obj != nil && e.Obj.Type == CON_INIT && w.Valid(*e.Obj) == nil && e.Obj.Payload[0] == rival.Payload[0] {
				proven[w.G[i]] = true
			}
		}
		for _, g := range live {
			if !proven[g] {
				c.Fail("two gossipers held different statements of %s, and %s did not learn of both", rival.Payload[0], g)
			}
		}
		c.Count("rival statements", 1)
	}
	for _, o := range inits {
		for _, g := range live {
			if _, ok := held[key(g, &o)]; !ok {
				c.Fail("the statement of %s did not reach %s (of %v, dead %v, ring %v, threshold of the exchange %d, size %d)", o.Payload[0], g, w.G, Keys(dead), ring, thr, len(o.JSON()))
			}
			if got[key(g, &o)] == 0 {
				c.Fail("the statement of %s did not reach the monitor of %s", o.Payload[0], g)
			}
			fs := full[key(g, &o)]
			if len(live) < w.Threshold {
				if len(fs) > 0 {
					c.Fail("an endorsement by too few")
				}
				continue
			}
			if len(fs) != 1 || fs[0].Content() != o.Content() || w.Valid(fs[0]) != nil {
				c.Fail("the monitor of %s got %d endorsed statements of %s (threshold of the exchange %d, size %d)", g, len(fs), o.Payload[0], thr, len(o.JSON()))
			}
			c.Count("endorsed", 1)
		}
	}
	c.Desc("%d gossipers, %d dead, ring %v, delays %v, exchange from %d bytes", size, len(dead), ring, jit, thr)
	c.Nontrivial(fmt.Sprintf("network/n%d/t%d/dead%d/ring %v/%v/thr %d/%d/%d", size, w.Threshold, len(dead), ring, jit, thr, len(inits), entries) + fmt.Sprint(rival != nil))
}
