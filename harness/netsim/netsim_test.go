// Package netsim watches whole networks of real gossipers and monitors.
package netsim

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

func size(c *Case, most int) (n, t int) {
	n = 2 + c.Rng.Intn(most-1)
	return n, 1 + c.Rng.Intn(n)
}

// TestC07: in every period, what honest entities say is endorsed and published everywhere.
func TestC07(t *testing.T) {
	RunProp(t, "C07", func(r *Run) {
		n := r.N(96, 2400)
		for i := 0; i < n; i++ {
			r.Case(fmt.Sprintf("net-%d", i), func(c *Case) {
				Bubble(c, func(n *Net) { converge(c, n, i) })
			})
		}
		// all labels: one small network over more than an hour
		hours := r.N(1, 6)
		for i := 0; i < hours; i++ {
			r.Case(fmt.Sprintf("hour-%d", i), func(c *Case) {
				Bubble(c, func(n *Net) { hour(c, n) })
			})
		}
	})
}

func hour(c *Case, n *Net) {
	s := NewSim(c, n, Topology{N: 2, Threshold: 2, Loggers: 1, CAs: 1, Wait: 5}, SimOptions{})
	periods := 62
	for p := 0; p < periods; p++ {
		s.At(float64(p*60) + 45)
		us := s.Updates(s.Min + p)
		s.Validate(us)
		for i, u := range us {
			for _, e := range s.Entities() {
				s.ExpectEndorsed(i, u, s.Statement(e, s.Min+p), "all up")
			}
		}
		if c.Failed() {
			return
		}
	}
	c.Count("periods", periods)
	c.Nontrivial(fmt.Sprintf("hour from %s", P2(s.P)))
}

// drift has the monitors' clocks differ by up to a second, which they allow for when they query.
func drift(s *Sim) bool {
	if s.C.Rng.Intn(5) > 0 {
		return false
	}
	for _, m := range s.M {
		m.Clockdrift_miliseconds, m.Maxdrift_miliseconds = s.C.Rng.Intn(1001), 1000
	}
	s.C.Count("drifting clocks", 1)
	s.C.Desc("the monitors' clocks drift")
	return true
}

func converge(c *Case, n *Net, idx int) {
	N, T := size(c, 6)
	if idx%12 == 11 {
		N, T = 8, 2+c.Rng.Intn(5)
	}
	spare := N - T
	byz := 0
	if spare > 0 && T > 1 && c.Rng.Intn(2) == 0 {
		byz = 1 + c.Rng.Intn(min(spare, T-1))
		spare -= byz
	}
	wait := []int{5, 5, 3, 8, 2}[c.Rng.Intn(5)]
	j := []time.Duration{0, 20 * time.Millisecond, 300 * time.Millisecond, time.Second}[c.Rng.Intn(4)]
	cuts := spare > 0 && c.Rng.Intn(3) == 0
	if cuts && j > time.Duration(wait)*80*time.Millisecond {
		j = time.Duration(wait) * 80 * time.Millisecond
	}
	dup := []int{0, 0, 3, 10}[c.Rng.Intn(4)]
	sparse := byz == 0 && spare == 0 && N >= 4 && c.Rng.Intn(2) == 0
	// not every monitor asks every entity: the others learn of the statement by gossip alone
	share := rand.New(rand.NewSource(int64(idx)))
	shared := !cuts && !sparse && share.Intn(4) == 0
	if shared && j > time.Duration(wait)*80*time.Millisecond {
		j = time.Duration(wait) * 80 * time.Millisecond
	}
	s := NewSim(c, n, Topology{N: N, Threshold: T, Loggers: 1 + c.Rng.Intn(4), CAs: 1 + c.Rng.Intn(3), Wait: wait},
		SimOptions{Jitter: j, Dup: dup, Byz: byz, Sparse: sparse})
	// A monitor that was cut off cannot follow the revocations any more and accuses the CA, unless the statement reaches it
	// by way of the others within its waiting time.
	longest := 4 * time.Second
	if cuts {
		longest = time.Duration(max(0, min(4, wait-2))) * time.Second
	}
	if !cuts || wait >= 4 {
		if drift(s) && cuts {
			longest -= time.Second
		}
	}
	late := longest > 0 && c.Rng.Intn(3) == 0
	if c.Rng.Intn(4) == 0 { // the entities' own delays
		for i := range s.G {
			s.G[i].Max_latency = 290
			s.M[i].Max_latency = 290
		}
	}
	if c.Rng.Intn(6) == 0 { // nothing is small enough to be announced only
		for i := range s.G {
			s.G[i].Optimization_threshold = 1 << 20
		}
	}
	if late {
		for _, e := range s.Entities() {
			if c.Rng.Intn(2) == 0 {
				continue
			}
			d := c.Rng.Int63()
			s.Answer(e, func(m, k int) (int, []byte, time.Duration) {
				return 200, s.Statement(e, m).JSON(), time.Duration(rand.New(rand.NewSource(d + int64(m*100+k))).Int63n(int64(longest)))
			})
		}
	}
	periods := 2 + c.Rng.Intn(2)
	type ev struct {
		at float64
		f  func()
	}
	evs := []ev{}
	down := map[int]bool{}
	kinds := map[string]bool{}
	pairs := []int{}
	for i := range s.W.M {
		if s.Alive(i) {
			pairs = append(pairs, i)
		}
	}
	c.Rng.Shuffle(len(pairs), func(a, b int) { pairs[a], pairs[b] = pairs[b], pairs[a] })
	if shared {
		asks := func(list []string) map[int][]string {
			out := map[int][]string{}
			for _, e := range list {
				sure := pairs[spare:][share.Intn(len(pairs)-spare)]
				for _, i := range pairs {
					if i == sure || share.Intn(3) == 0 {
						out[i] = append(out[i], e)
					}
				}
			}
			return out
		}
		ls, cs := asks(s.W.L), asks(s.W.C)
		for i, m := range s.M {
			m.Monitor_private_config.Logger_URLs, m.Monitor_private_config.CA_URLs = ls[i], cs[i]
		}
		c.Desc("the monitors share the queries: %v %v", ls, cs)
		kinds["shared queries"] = true
	}
	for _, i := range pairs[:spare] {
		i := i
		at := c.Rng.Float64() * 60 * float64(periods)
		switch x := c.Rng.Intn(4); {
		case cuts && x < 2:
			p := float64(60 * c.Rng.Intn(periods-1))
			from, to := p+c.Rng.Float64()*20, p+20+c.Rng.Float64()*37
			c.Desc("pair %d is cut off from %.1f to %.1f", i, from, to)
			kinds["cut"] = true
			evs = append(evs, ev{from, func() { s.Cut(s.W.G[i], true); s.Cut(s.W.M[i], true) }}, ev{to, func() { s.Cut(s.W.G[i], false); s.Cut(s.W.M[i], false) }})
		case x == 2:
			c.Desc("monitor %d stops at %.1f", i, at)
			kinds["monitor stops"] = true
			evs = append(evs, ev{at, func() { s.Crash(s.W.M[i]); down[i] = true }})
		case x == 3:
			c.Desc("gossiper %d stops at %.1f", i, at)
			kinds["gossiper stops"] = true
			evs = append(evs, ev{at, func() { s.Crash(s.W.G[i]); down[i] = true }})
		default:
			c.Desc("pair %d stops at %.1f", i, at)
			kinds["both stop"] = true
			evs = append(evs, ev{at, func() { s.Crash(s.W.G[i]); s.Crash(s.W.M[i]); down[i] = true }})
		}
	}
	if byz > 0 {
		kinds["misbehaving gossipers"] = true
		for k := 0; k < periods*15; k++ {
			p := k / 15
			evs = append(evs, ev{float64(60*p) + c.Rng.Float64()*40, func() { misbehave(s, s.Min+p) }})
		}
	}
	ok := map[int]bool{} // whole in this period
	for p := 0; p < periods; p++ {
		evs = append(evs, ev{float64(60*p) - 0.5, func() {
			ok = map[int]bool{}
			for _, i := range s.AliveAll() {
				ok[i] = true
			}
		}})
		evs = append(evs, ev{float64(60*p) + 45, func() {
			m := s.Min + p
			us := s.Updates(m)
			s.Validate(us)
			for i, u := range us {
				if !ok[i] {
					continue
				}
				for _, e := range s.Entities() {
					s.ExpectEndorsed(i, u, s.Statement(e, m), "the entity is honest and enough gossipers are up")
				}
			}
			c.Count("periods", 1)
		}})
	}
	sort.SliceStable(evs, func(a, b int) bool { return evs[a].at < evs[b].at })
	for _, e := range evs {
		s.At(e.at)
		e.f()
		for i := range ok { // whoever was down or cut off at some time is not whole
			if !s.Alive(i) {
				delete(ok, i)
			}
		}
		if c.Failed() {
			return
		}
	}
	c.Count("messages", len(n.Events()))
	c.Nontrivial(fmt.Sprintf("n=%d t=%d byz=%d j=%v dup=%d wait=%d sparse=%v late=%v %v", N, T, byz, j, dup, wait, sparse, late, Keys(kinds)))
}

var (
	paths   = map[string]string{STH_INIT: "sth_init", REV_INIT: "rev_init", ACC_INIT: "acc_init", CON_INIT: "con_init", STH_FRAG: "sth_frag", REV_FRAG: "rev_frag", ACC_FRAG: "acc_frag"}
	garbage = []string{"", "{", "null", "[]", `{"payload":null}`, `{"type":"http://ctng.uconn.edu/101"}`, `{"type":"http://ctng.uconn.edu/202","payload":["a"]}`, "\x00\xff", `{"period":5}`}
)

// misbehave has the scripted gossipers do something: garbage, forgeries, fragments on other contents, replays, empty announcements.
func misbehave(s *Sim, minute int) {
	c, w := s.C, s.W
	for _, b := range s.Byz() {
		es := s.Entities()
		e := es[c.Rng.Intn(len(es))]
		real := s.Statement(e, minute)
		post := func(i int, p string, body []byte) { // no answer awaited: a receiver that is cut off would hold up the whole case
			go s.Net.Post(b, w.G[i], "/gossip/"+p, body)
		}
		send := func(o Obj) {
			for _, i := range s.AliveAll() {
				if c.Rng.Intn(2) == 0 {
					p, ok := paths[o.Type]
					if !ok {
						p = "sth_frag"
					}
					post(i, p, o.JSON())
				}
			}
		}
		c.Count("misbehaviours", 1)
		switch c.Rng.Intn(8) {
		case 0:
			for _, m := range Pick(w.Mutations(real, c.Rng), 3, c.Rng) {
				send(m.Obj)
			}
		case 1:
			for _, m := range Pick(w.Mutations(w.MakeFrag(b, real), c.Rng), 3, c.Rng) {
				send(m.Obj)
			}
		case 2: // a fragment on something the entity never said
			send(w.MakeFrag(b, w.MakeSTH(w.L[0], minute, "invented")))
			send(w.MakeFrag(b, w.SimpleREV(w.C[0], minute, 5)))
		case 3:
			send(w.MakeFrag(b, real))
			send(Compact(w.MakeFrag(b, real)))
		case 4:
			for _, i := range s.AliveAll() {
				post(i, []string{"sth_init", "rev_init", "acc_init", "con_init", "sth_frag", "new_payload_request", "new_payload_notification"}[c.Rng.Intn(7)],
					[]byte(garbage[c.Rng.Intn(len(garbage))]))
			}
		case 5: // something that is announced and never there
			nt, _ := json.Marshal(map[string]any{"sender": b, "period": real.Period, "type": REV_INIT, "entity_url": w.C[0], "objhash": []byte("nothing")})
			for _, i := range s.AliveAll() {
				post(i, "new_payload_notification", nt)
			}
		case 6: // an accusation nobody else makes
			send(w.MakeFrag(b, w.MakeACC(w.M[0], e, minute)))
		case 7: // last period's
			if minute-1 >= s.Min {
				old := s.Statement(e, minute-1)
				send(old)
				send(w.MakeFrag(b, old))
				old.Period = real.Period
				send(old)
			}
		}
	}
}

// TestC08: who shows two faces is exposed to everybody.
func TestC08(t *testing.T) {
	RunProp(t, "C08", func(r *Run) {
		n := r.N(120, 3000)
		for i := 0; i < n; i++ {
			r.Case(fmt.Sprintf("split-%d", i), func(c *Case) {
				Bubble(c, func(n *Net) { split(c, n) })
			})
		}
		n = r.N(24, 200)
		for i := 0; i < n; i++ {
			r.Case(fmt.Sprintf("real-%d", i), func(c *Case) {
				Bubble(c, func(n *Net) { splitReal(c, n, i) })
			})
		}
	})
}

func split(c *Case, n *Net) {
	N := 2 + c.Rng.Intn(5)
	T := 1 + c.Rng.Intn(N)
	j := []time.Duration{0, 20 * time.Millisecond, 300 * time.Millisecond, 900 * time.Millisecond}[c.Rng.Intn(4)]
	sparse := N >= 4 && c.Rng.Intn(2) == 0
	wait, entities := 5, func(s *Sim) []string { return s.Entities() }
	line := c.Rng.Intn(4) == 0
	if line { // news travels far: only loggers lie and are looked at, compact statements are slower than their fragments
		N = 4 + c.Rng.Intn(5)
		T = 1 + c.Rng.Intn(N)
		sparse, wait, entities = false, 10, func(s *Sim) []string { return s.W.L }
	}
	s := NewSim(c, n, Topology{N: N, Threshold: T, Loggers: 2, CAs: 2, Wait: wait}, SimOptions{Jitter: j, Dup: []int{0, 5}[c.Rng.Intn(2)], Sparse: sparse, Line: line})
	drift(s)
	liars := map[string]int{} // and the period they lie in
	key := ""
	together := c.Rng.Intn(2) == 0
	first := c.Rng.Intn(3)
	for _, liar := range Shuffled(c, entities(s))[:1+min(len(entities(s))-1, max(0, c.Rng.Intn(5)-2))] {
		at := first
		if !together {
			at = c.Rng.Intn(3)
		}
		liars[liar] = at
		key += twoFaced(s, liar, at)
	}
	// somebody may be down, as long as two remain that saw different statements: decided by the trace
	if N > 3 && !line && c.Rng.Intn(3) == 0 {
		i := c.Rng.Intn(N)
		c.Desc("gossiper %d is down", i)
		s.Crash(s.W.G[i])
	}
	judgeSplit(s, liars, entities(s), 3+c.Rng.Intn(2))
	c.Nontrivial(fmt.Sprintf("n=%d t=%d j=%v sparse=%v line=%v%s", N, T, j, sparse, line, key))
}

// twoFaced has an entity show several faces in its at-th period.
func twoFaced(s *Sim, liar string, at int) string {
	c := s.C
	N := len(s.W.G)
	isCA := in(s.W.C, liar)
	late := []float64{0, 0.01, 2, 6, 15, 30}[c.Rng.Intn(6)]
	versions := 2 + c.Rng.Intn(2)
	mask := c.Rng.Perm(64)
	first := c.Rng.Intn(N)
	c.Desc("%s lies in its %d. period, %d versions, the later ones %v s late", liar, at+1, versions, late)
	var mu sync.Mutex
	lies := map[int]Obj{}
	lie := func(m, v int) Obj {
		if v == 0 {
			return s.Statement(liar, m)
		}
		mu.Lock()
		defer mu.Unlock()
		if o, ok := lies[m*10+v]; ok {
			return o
		}
		var o Obj
		if isCA {
			// it extends what was said before, otherwise the monitors would not take it
			honest := s.Statement(liar, m)
			ch := s.Chain(liar)
			_, d, _, _ := honest.ParseREV()
			before := ch.CRV.Difference(d)
			delta := Bits(ch.Size, uint(1900+v*3), uint(1901+v*3))
			delta.InPlaceDifference(before)
			o = s.W.MakeREV(liar, m%60, before.Union(delta), delta)
		} else {
			o = s.W.MakeSTH(liar, m%60, fmt.Sprintf("lie %d of %d", v, m))
		}
		lies[m*10+v] = o
		return o
	}
	s.Answer(liar, func(m, k int) (int, []byte, time.Duration) {
		if m != s.Min+at {
			return 200, s.Statement(liar, m).JSON(), 0
		}
		v := 0
		if k == first {
			v = 1
		} else if versions > 2 && mask[k%64]%3 == 0 {
			v = 2
		} else if mask[k%64]%2 == 0 && k != (first+1)%N {
			v = 1
		}
		d := time.Duration(0)
		if v > 0 {
			d = time.Duration(late * float64(time.Second))
		}
		return 200, lie(m, v).JSON(), d
	})
	return fmt.Sprintf(" ca=%v/at=%d/late=%v/v=%d", isCA, at, late, versions)
}

// judgeSplit looks at all updates of a network in which the liars show several faces, each in its period.
func judgeSplit(s *Sim, liars map[string]int, entities []string, periods int) {
	c := s.C
	for p := 0; p < periods; p++ {
		s.At(float64(p*60) + 45)
		m := s.Min + p
		us := s.Updates(m)
		s.Validate(us)
		// what did the monitors whose gossiper is up pass on?
		faces := map[string]map[string]bool{}
		for l := range liars {
			faces[l] = map[string]bool{}
		}
		for _, e := range s.Net.Events() {
			if e.Obj == nil || faces[e.Obj.Payload[0]] == nil || (e.Obj.Type != STH_INIT && e.Obj.Type != REV_INIT) || e.Failed != "" || e.Status != 200 || e.Obj.Period != P2(s.P+liars[e.Obj.Payload[0]]) {
				continue
			}
			for i, mon := range s.W.M {
				if e.From == mon && e.To == s.W.G[i] && s.Alive(i) {
					faces[e.Obj.Payload[0]][e.Obj.Content()] = true
				}
			}
		}
		for liar, at := range liars {
			if p == at && len(faces[liar]) < 2 { // nothing is known of what follows
				c.Count("lies_not_passed_on", 1)
				return
			}
		}
		for i, u := range us {
			for _, e := range entities {
				at, lies := liars[e]
				if !lies || p < at {
					if s.Quorum() {
						s.ExpectEndorsed(i, u, s.Statement(e, m), "it is honest, or has not lied yet")
					}
					continue
				}
				con, _ := u.PoMs(e)
				if p == at && len(con) == 0 {
					c.Fail("monitor %s has no conflict proof against %s, which showed %d faces in period %s\n%s", s.W.M[i], e, len(faces[e]), P2(m), s.Trace(e))
				}
				if p == at {
					c.Count("proofs_checked", 1)
				}
				if got := u.About(e); len(got) > 0 {
					c.Fail("monitor %s published a statement of %s, which is convicted: %v", s.W.M[i], e, got[0])
				}
			}
		}
		if c.Failed() {
			return
		}
	}
	c.Count("messages", len(s.Net.Events()))
}

// splitReal uses the real loggers and CAs, which can be told to show two faces.
func splitReal(c *Case, n *Net, idx int) {
	N := 2 + c.Rng.Intn(3)
	T := 1 + c.Rng.Intn(N)
	typ := []int{1, 4, 0}[idx%3]
	interval := 2 + c.Rng.Intn(N)
	logger := idx/3%2 == 0
	realE := EntityName("C", 0)
	if logger {
		realE = EntityName("L", 0)
	}
	s := NewSim(c, n, Topology{N: N, Threshold: T, Loggers: 1, CAs: 1, Wait: 5}, SimOptions{Jitter: 50 * time.Millisecond, Real: []string{realE}, Before: func(w *World) {
		if logger {
			StartRealLogger(c, w, 0, func(l *Logger.LoggerContext) { l.Logger_Type, l.MisbehaviorInterval = typ, interval })
		} else {
			StartRealCA(c, w, 0, func(a *CA.CAContext) { a.CA_Type, a.MisbehaviorInterval = typ, interval })
		}
	}})
	c.Desc("real %s of type %d, every %d. answer", realE, typ, interval)
	periods := 3
	lied := -1
	for p := 0; p < periods; p++ {
		s.At(float64(p*60) + 45)
		m := s.Min + p
		us := s.Updates(m)
		s.Validate(us)
		faces := map[string]Obj{}
		for _, e := range n.Events() {
			if e.Obj != nil && (e.Obj.Type == STH_INIT || e.Obj.Type == REV_INIT) && e.Obj.Payload[0] == realE && e.Obj.Period == P2(m) && in(s.W.M, e.From) {
				faces[e.Obj.Content()] = *e.Obj
			}
		}
		if len(faces) > 1 && lied < 0 {
			lied = p
		}
		if typ == 0 && len(faces) != 1 {
			c.Fail("the honest %s showed %d faces in period %s", realE, len(faces), P2(m))
		}
		for i, u := range us {
			con, _ := u.PoMs(realE)
			if lied >= 0 {
				if lied == p && len(con) == 0 {
					c.Fail("monitor %s has no conflict proof against %s, which showed %d faces in period %s\n%s", s.W.M[i], realE, len(faces), P2(m), s.Trace(realE))
				}
				if got := u.About(realE); len(got) > 0 {
					c.Fail("monitor %s published a statement of the convicted %s: %v", s.W.M[i], realE, got[0])
				}
			} else if len(faces) == 1 {
				for _, o := range faces {
					s.ExpectEndorsed(i, u, o, "the real entity has not lied")
				}
			}
		}
		if c.Failed() {
			return
		}
	}
	if lied >= 0 {
		c.Count("real_lies", 1)
		c.Nontrivial(fmt.Sprintf("real %s type %d n=%d t=%d every %d", realE, typ, N, T, interval))
	} else if typ == 0 {
		c.Nontrivial(fmt.Sprintf("real %s honest n=%d t=%d", realE, N, T))
	}
	c.Count("real_entities", 1)
}

func in(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// TestC09: accused are exactly those that nobody got a statement of.
func TestC09(t *testing.T) {
	RunProp(t, "C09", func(r *Run) {
		n := r.N(160, 4000)
		for i := 0; i < n; i++ {
			r.Case(fmt.Sprintf("silent-%d", i), func(c *Case) {
				Bubble(c, func(n *Net) { silent(c, n, i, false) })
			})
		}
		for i := 0; i < r.N(6, 60); i++ {
			r.Case(fmt.Sprintf("hour-%d", i), func(c *Case) {
				Bubble(c, func(n *Net) { silent(c, n, i*7, true) })
			})
		}
	})
}

var failures = []string{"refused", "never answers", "stops halfway", "error", "empty", "garbage", "not an object", "bad signature", "no signature", "altered", "another entity", "last period", "next period",
	"relabelled", "another kind", "endorsed form", "not extending", "forgets", "foreign hash", "no hash"}

func bad(s *Sim, kind, e string, m int) (int, []byte) {
	w, c := s.W, s.C
	o := s.Statement(e, m)
	ch := s.Chain(e)
	switch kind {
	case "refused":
		return 0, nil
	case "never answers":
		return NeverAnswers, o.JSON()
	case "stops halfway":
		return StopsHalfway, o.JSON()
	case "error":
		return 500, []byte("internal error")
	case "empty":
		return 200, nil
	case "garbage":
		return 200, []byte("\x00\x01<html>")
	case "not an object":
		return 200, []byte(`["nothing"]`)
	case "bad signature":
		o.Signature[0] = RSASigString([]byte(o.Content()+"x"), w.RSA[e], e)
	case "no signature":
		o.Signature[0] = ""
	case "altered":
		for _, x := range w.Mutations(o, c.Rng) {
			if x.Name == "another root" || x.Name == "another delta" {
				return 200, x.Obj.JSON()
			}
		}
		o.Payload[1] += "00"
	case "another entity":
		for _, x := range s.Entities() {
			if x != e && (s.Chain(x) == nil) == (ch == nil) {
				return 200, s.Statement(x, m).JSON()
			}
		}
		o.Signer = w.M[0]
	case "last period":
		if ch != nil {
			o = w.SimpleREV(e, m-1, 3)
		} else {
			o = w.MakeSTH(e, m-1, "old")
		}
	case "next period":
		if ch != nil {
			o = w.SimpleREV(e, m+1, 3)
		} else {
			o = w.MakeSTH(e, m+1, "early")
		}
	case "relabelled":
		l := o.Period
		if ch != nil {
			o = w.SimpleREV(e, m-1, 3)
		} else {
			o = w.MakeSTH(e, m-1, "old")
		}
		o.Period = l
	case "another kind":
		if ch != nil {
			o.Type = STH_INIT
		} else {
			o.Type = REV_INIT
		}
	case "endorsed form":
		o = w.MakeFull(w.G[:w.Threshold], o)
	default:
		if ch == nil {
			return 200, []byte("{}")
		}
		_, d, _, _ := o.ParseREV()
		before := ch.CRV.Difference(d)
		switch kind {
		case "not extending": // the hash covers something else than earlier revocations and these
			o = w.MakeREV(e, m%60, before.Union(d).Union(Bits(ch.Size, 1999)), d)
		case "forgets":
			if before.None() {
				o = w.MakeREV(e, m%60, Bits(ch.Size), d)
			} else {
				o = w.MakeREV(e, m%60, d, d)
			}
		case "foreign hash":
			o = w.MakeREVSigned(e, m%60, d, RSASigString(SRHMessage(P2(m), before.Union(d), d), w.Foreign, e))
		case "no hash":
			o = w.MakeREVSigned(e, m%60, d, "")
		}
	}
	return 200, o.JSON()
}

func silent(c *Case, n *Net, idx int, hour bool) {
	N := 2 + c.Rng.Intn(4)
	if hour {
		N = 2
	}
	T := 1 + c.Rng.Intn(N)
	wait := []int{5, 5, 4, 7}[c.Rng.Intn(4)]
	j := []time.Duration{0, 20 * time.Millisecond, time.Duration(wait) * 60 * time.Millisecond}[c.Rng.Intn(3)]
	top := Topology{N: N, Threshold: T, Loggers: 1 + c.Rng.Intn(4), CAs: 1 + c.Rng.Intn(3), Wait: wait}
	if hour {
		top.Loggers, top.CAs = 1, 1
	}
	s := NewSim(c, n, top, SimOptions{Jitter: j})
	drift(s)
	w := s.W
	es := s.Entities()
	fails := map[string]int{} // entity -> period from which it fails
	served := map[string]int{}
	how := map[string]string{}
	periods := 2 + c.Rng.Intn(2)
	together, from := c.Rng.Intn(2) == 0, c.Rng.Intn(periods)
	if hour { // the period it fails in has the label of one it did not fail in
		periods = 62
		together, from = true, 60+c.Rng.Intn(2)
	}
	key := ""
	for i, e := range Shuffled(c, es)[:min(len(es), []int{1, 1, 2, 2, 3, 4}[c.Rng.Intn(6)])] {
		e := e
		fails[e] = c.Rng.Intn(periods)
		if together {
			fails[e] = from
		}
		kind := failures[(idx*2+i)%len(failures)]
		how[e] = kind
		// how many monitors are served, and which
		some := c.Rng.Intn(2) == 0
		k0 := c.Rng.Intn(N)
		cnt := 0
		if some {
			cnt = 1 + c.Rng.Intn(N-1)
		}
		served[e] = cnt
		delay := time.Duration(c.Rng.Intn(4)) * 700 * time.Millisecond
		goodDelay := time.Duration(c.Rng.Intn(800)) * time.Millisecond
		if cnt == 0 {
			delay *= 3
		}
		c.Desc("%s fails from its period %d on (%s, after %v), %d monitors are served", e, fails[e]+1, kind, delay, cnt)
		key += fmt.Sprintf(" %s/%s/%d/%v", map[bool]string{true: "logger", false: "CA"}[in(w.L, e)], kind, cnt, delay)
		s.Answer(e, func(m, k int) (int, []byte, time.Duration) {
			good := m-s.Min < fails[e] || (m-s.Min == fails[e] && (k+k0)%N < cnt)
			if !good && m-s.Min > fails[e] && cnt > 0 { // it was served to some, and recovers
				good = true
			}
			if good {
				return 200, s.Statement(e, m).JSON(), goodDelay
			}
			st, b := bad(s, kind, e, m)
			return st, b, delay
		})
		c.Count("failure: "+kind, 1)
	}
	// others take their time, and answer everybody
	slow := rand.New(rand.NewSource(int64(idx)))
	for _, e := range es {
		if _, f := fails[e]; f || slow.Intn(3) > 0 {
			continue
		}
		e, seed, most := e, slow.Int63(), 1000+slow.Intn(4000)
		c.Desc("%s takes up to %d ms to answer", e, most)
		s.Answer(e, func(m, k int) (int, []byte, time.Duration) {
			return 200, s.Statement(e, m).JSON(), time.Duration(rand.New(rand.NewSource(seed+int64(m*100+k))).Intn(most)) * time.Millisecond
		})
	}
	// some pairs may be down
	if N > T && c.Rng.Intn(3) == 0 {
		some := false
		for _, v := range served {
			some = some || v > 0
		}
		if !some {
			i := c.Rng.Intn(N)
			c.Desc("pair %d is down", i)
			s.Crash(w.G[i])
			s.Crash(w.M[i])
		}
	}
	for p := 0; p < periods; p++ {
		s.At(float64(p*60) + 45)
		m := s.Min + p
		us := s.Updates(m)
		s.Validate(us)
		for i, u := range us {
			for _, e := range es {
				fp, f := fails[e]
				con, acc := u.PoMs(e)
				if len(con) > 0 {
					c.Fail("monitor %s has a conflict proof against %s, which never contradicted itself: %v", w.M[i], e, con[0])
				}
				switch {
				case !f || p < fp || served[e] > 0:
					s.ExpectEndorsed(i, u, s.Statement(e, m), fmt.Sprintf("%d monitors were served", served[e]))
					c.Count("not_accused", 1)
				case p == fp:
					if len(acc) != 1 {
						c.Fail("the update of monitor %s holds %d accusations of %s, which gave nobody a statement (%s)\n%s", w.M[i], len(acc), e, how[e], s.Trace(e))
					} else if acc[0].Period != P2(m) {
						c.Fail("the accusation of %s in the update of %s is labelled %s", e, P2(m), acc[0].Period)
					}
					if got := u.About(e); len(got) > 0 {
						c.Fail("monitor %s published a statement of %s (%s): %v", w.M[i], e, how[e], got[0])
					}
					c.Count("accused", 1)
				}
			}
		}
		if c.Failed() {
			return
		}
	}
	// honest monitors accuse nobody else
	for _, e := range n.Events() {
		if e.Obj != nil && e.Obj.Type == ACC_INIT && s.Up(e.From) {
			if _, f := fails[e.Obj.Payload[0]]; !f || served[e.Obj.Payload[0]] > 0 {
				c.Fail("monitor %s accused %s, whose statement was available in time: %v\n%s", e.From, e.Obj.Payload[0], e, s.Trace(e.Obj.Payload[0]))
			}
			if err := w.Valid(*e.Obj); err != nil {
				c.Fail("monitor %s sent an invalid accusation (%v): %v", e.From, err, e)
			}
			c.Count("accusations", 1)
		}
	}
	c.Nontrivial(fmt.Sprintf("n=%d t=%d j=%v wait=%d%s", N, T, j, wait, key))
}
