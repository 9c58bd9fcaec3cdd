package kit

import (
	"fmt"
	"math/rand"
	"net/http"
	"path/filepath"
	"sync"
	"time"

	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"

	. "ctngverif/lib"
)

// NAnswer is what a scripted entity of a network says to the k-th query of a minute, after a delay; status 0 refuses the connection.
type NAnswer func(minute, k int) (int, []byte, time.Duration)

// Sim is a network of real gossipers and monitors with scripted (or real) loggers and CAs.
type Sim struct {
	C       *Case
	Net     *Net
	W       *World
	Min, P  int // minute of the first period
	G       []*gossiper.GossiperContext
	M       []*monitor.MonitorContext
	mu      sync.Mutex
	rng     *rand.Rand
	jitter  time.Duration
	down    map[string]bool
	cut     map[string]bool
	stuck   map[string]bool // unreachable without a sign
	dup     int
	answers map[string]NAnswer
	asked   map[string]int
	chains  map[string]*RevChain
	stmts   map[string]Obj
	real    map[string]bool
	byz     map[string]bool
	begin   time.Time
}

// SimOptions choose the circumstances of a network.
type SimOptions struct {
	Jitter time.Duration // longest delay of a message
	Dup    int           // every Dup-th message arrives repeatedly
	Byz    int           // gossipers that are not started: the case scripts them
	Sparse bool          // a ring with chords instead of everybody connected to everybody
	Line   bool          // everybody connected to its neighbours only
	Real   []string      // entities the case starts itself, in Before
	Before func(w *World)
}

// NewSim starts the network; it returns before the first period of the monitors. Gossipers have been up for a while by then.
func NewSim(c *Case, n *Net, t Topology, o SimOptions) *Sim {
	w := NewWorld(c.Dir, t)
	s := &Sim{C: c, Net: n, W: w, rng: rand.New(rand.NewSource(c.Rng.Int63())), jitter: o.Jitter, dup: o.Dup, down: map[string]bool{}, cut: map[string]bool{}, stuck: map[string]bool{},
		answers: map[string]NAnswer{}, asked: map[string]int{}, chains: map[string]*RevChain{}, stmts: map[string]Obj{}, real: map[string]bool{}, byz: map[string]bool{}}
	start := startMinute(c)
	s.begin = time.Date(2000, 1, 1, 0, start+2, 0, 0, time.UTC)
	n.Policy = s.policy
	for _, e := range o.Real {
		s.real[e] = true
	}
	for _, e := range s.Entities() {
		if !s.real[e] {
			n.Handle(e, s.entity(e))
		}
	}
	s.chains = NewRevChains(c, w)
	for _, g := range Shuffled(c, w.G)[:o.Byz] {
		s.byz[g] = true
		if c.Rng.Intn(3) == 0 {
			n.Handle(g, Silent) // takes everything, and never answers
		} else {
			n.Handle(g, Stub)
		}
	}
	At(start, float64(1+c.Rng.Intn(50)))
	if o.Before != nil {
		o.Before(w)
	}
	for i, g := range w.G {
		pub, priv, cr := w.Cfg("G", i)
		ctx := gossiper.InitializeGossiperContext(pub, priv, cr, fmt.Sprint(i+1))
		ctx.StorageDirectory = filepath.Join(c.Dir, fmt.Sprintf("gossiper%d", i)) + "/"
		ctx.Total_Logger, ctx.Total_CA = len(w.L), len(w.C)
		ctx.Max_latency = 0
		if o.Sparse {
			ctx.Gossiper_private_config.Connected_Gossipers = s.ring(i)
		}
		if o.Line {
			ctx.Gossiper_private_config.Connected_Gossipers = append(append([]string{}, w.G[max(0, i-1):i]...), w.G[i+1:min(len(w.G), i+2)]...)
		}
		s.G = append(s.G, ctx)
		if !s.byz[g] {
			time.Sleep(time.Duration(s.rng.Intn(300)) * time.Millisecond)
			go gossiper.StartGossiperServer(ctx)
		}
	}
	At(start+1, float64(1+c.Rng.Intn(50)))
	for i := range w.M {
		pub, priv, cr := w.Cfg("M", i)
		ctx := monitor.InitializeMonitorContext(pub, priv, cr, fmt.Sprint(i+1))
		ctx.InitializeMonitorStorage(filepath.Join(c.Dir, fmt.Sprintf("monitor%d", i)))
		ctx.Max_latency = 0
		s.M = append(s.M, ctx)
		if !s.byz[w.G[i]] {
			time.Sleep(time.Duration(s.rng.Intn(80)) * time.Millisecond)
			go monitor.StartMonitorServer(ctx)
		}
	}
	s.Min, s.P = start+2, (start+2)%60
	c.Desc("%s, first period %s, jitter %v, repeated 1/%d, %d scripted gossipers, sparse %v, in a line %v", t, P2(s.P), o.Jitter, o.Dup, o.Byz, o.Sparse, o.Line)
	return s
}

// ring connects a gossiper to its neighbours and to one across.
func (s *Sim) ring(i int) []string {
	n := len(s.W.G)
	out := []string{}
	for _, d := range []int{1, n - 1, n / 2} {
		if g := s.W.G[(i+d)%n]; g != s.W.G[i] && !in(out, g) {
			out = append(out, g)
		}
	}
	return out
}

// Entities are the loggers and the CAs.
func (s *Sim) Entities() []string { return append(append([]string{}, s.W.L...), s.W.C...) }

// At sleeps until second sec after the first period's start.
func (s *Sim) At(sec float64) { At(s.Min, sec) }

func (s *Sim) policy(from, to, path string, body []byte) Fate {
	s.mu.Lock()
	defer s.mu.Unlock()
	f := Fate{Before: time.Millisecond}
	if s.jitter > 0 {
		f.Before += time.Duration(s.rng.Int63n(int64(s.jitter)))
		f.After = time.Duration(s.rng.Int63n(int64(s.jitter)/4 + 1))
	}
	// the monitors start within the first second of the first period: nothing reaches them before
	if d := time.Until(s.begin.Add(time.Second)); d > f.Before && in(s.W.M, to) {
		f.Before = d
	}
	if s.dup > 0 && s.rng.Intn(s.dup) == 0 {
		f.Copies = 1 + s.rng.Intn(2)
	}
	if s.down[from] || s.down[to] || s.cut[from] || s.cut[to] {
		f.Drop, f.Hang = true, s.stuck[to] || s.stuck[from]
	}
	return f
}

// Crash takes an entity down for good: nothing reaches it and nothing it would still do has an effect.
func (s *Sim) Crash(id string) {
	s.mu.Lock()
	s.down[id] = true
	s.stuck[id] = s.rng.Intn(3) == 0
	s.mu.Unlock()
	s.Net.Remove(id)
}

// Cut makes an entity unreachable or reachable again.
func (s *Sim) Cut(id string, cut bool) {
	s.mu.Lock()
	s.cut[id] = cut
	s.stuck[id] = s.rng.Intn(3) == 0
	s.mu.Unlock()
}

// Answer scripts an entity; nil makes it honest again.
func (s *Sim) Answer(e string, a NAnswer) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.answers[e] = a
}

// Statement is the entity's honest statement for a minute.
func (s *Sim) Statement(e string, minute int) Obj {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := fmt.Sprintf("%s@%d", e, minute)
	if o, ok := s.stmts[k]; ok {
		return o
	}
	var o Obj
	if ch, ok := s.chains[e]; ok {
		o = ch.Next(minute%60, uint(minute*3%2000), uint(minute*7%2000+1))
	} else {
		o = s.W.MakeSTH(e, minute%60, k)
	}
	s.stmts[k] = o
	return o
}

// CRVAt is the CA's revocation state before the statement of a minute is made.
func (s *Sim) Chain(ca string) *RevChain {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.chains[ca]
}

func (s *Sim) entity(e string) http.Handler {
	return http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		m := Minute()
		s.mu.Lock()
		a := s.answers[e]
		key := fmt.Sprintf("%s@%d", e, m)
		k := s.asked[key]
		s.asked[key]++
		s.mu.Unlock()
		if a == nil {
			rw.Write(s.Statement(e, m).JSON())
			return
		}
		st, b, d := a(m, k)
		if d > 0 {
			time.Sleep(d)
		}
		if st == 0 { // cannot be told from a refused connection by its effect: no body
			rw.WriteHeader(503)
			return
		}
		hanging(rw, st)
		rw.Write(b)
	})
}

// Alive tells whether the i-th monitor and its gossiper are real and up.
func (s *Sim) Alive(i int) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return !s.byz[s.W.G[i]] && !s.down[s.W.G[i]] && !s.down[s.W.M[i]] && !s.cut[s.W.G[i]] && !s.cut[s.W.M[i]]
}

// Up tells whether an entity has not crashed.
func (s *Sim) Up(id string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return !s.down[id]
}

// AliveAll lists the live pairs.
func (s *Sim) AliveAll() []int {
	out := []int{}
	for i := range s.W.M {
		if s.Alive(i) {
			out = append(out, i)
		}
	}
	return out
}

// Byz lists the scripted gossipers.
func (s *Sim) Byz() []string { return Keys(s.byz) }

// Updates fetches the updates of a minute from the monitors that are up; a monitor without one is a failure if it must have it.
func (s *Sim) Updates(minute int) map[int]*Update {
	out := map[int]*Update{}
	for _, i := range s.AliveAll() {
		u, st := FetchUpdate(s.Net, "client", s.W.M[i], minute)
		if u == nil {
			s.C.Fail("monitor %s has no update for period %s: status %d", s.W.M[i], P2(minute), st)
			continue
		}
		s.C.Count("updates_checked", 1)
		out[i] = u
	}
	return out
}

// About returns the statements of an entity in an update.
func (u *Update) About(e string) []Obj {
	out := []Obj{}
	for _, o := range append(append([]Obj{}, u.STHs...), u.REVs...) {
		if o.Payload[0] == e {
			out = append(out, o)
		}
	}
	return out
}

// PoMs returns the proofs against an entity in an update.
func (u *Update) PoMs(e string) (con, acc []Obj) {
	for _, o := range u.POM_CONs {
		if o.Payload[0] == e {
			con = append(con, o)
		}
	}
	for _, o := range u.POM_ACCs {
		if o.Payload[0] == e {
			acc = append(acc, o)
		}
	}
	return
}

// ExpectEndorsed fails unless the update of the i-th monitor holds exactly the statement, endorsed, and nothing against its entity.
func (s *Sim) ExpectEndorsed(i int, u *Update, want Obj, why string) {
	e := want.Payload[0]
	got := u.About(e)
	if len(got) != 1 {
		s.C.Fail("the update of monitor %s for period %s holds %d statements of %s, expected its endorsed one (%s)\n%s", s.W.M[i], want.Period, len(got), e, why, s.Trace(e))
		return
	}
	if got[0].Content() != want.Content() || got[0].Period != want.Period || got[0].Type != FullOf(want.Type) {
		s.C.Fail("the update of monitor %s holds %v instead of %v (%s)", s.W.M[i], got[0], want, why)
		return
	}
	if err := s.W.Valid(got[0]); err != nil {
		s.C.Fail("the update of monitor %s holds a statement that is not endorsed (%v): %v", s.W.M[i], err, got[0])
	}
	con, acc := u.PoMs(e)
	if len(con)+len(acc) > 0 {
		s.C.Fail("the update of monitor %s speaks against the honest %s: %v %v (%s)\n%s", s.W.M[i], e, con, acc, why, s.Trace(e))
	}
	s.C.Count("endorsed_statements_checked", 1)
}

// Trace renders the last messages about an entity.
func (s *Sim) Trace(e string) string {
	out := ""
	k := 0
	evs := s.Net.Events()
	for i := len(evs) - 1; i >= 0 && k < 40; i-- {
		v := evs[i]
		if v.To == e || (v.Obj != nil && v.Obj.Payload[0] == e) {
			out = v.String() + "\n" + out
			k++
		}
	}
	return out
}

// Validate fails on anything in the updates that is not what it claims to be, and on disagreement between monitors.
func (s *Sim) Validate(us map[int]*Update) {
	seen := map[string]string{}
	for i, u := range us {
		for sec, list := range map[string][]Obj{STH_FULL: u.STHs, REV_FULL: u.REVs, CON_INIT: u.POM_CONs, ACC_FULL: u.POM_ACCs} {
			for _, o := range list {
				if o.Type != sec {
					s.C.Fail("the update of monitor %s holds %v among the objects of another kind", s.W.M[i], o)
				} else if err := s.W.Valid(o); err != nil {
					s.C.Fail("the update of monitor %s holds an invalid object (%v): %v", s.W.M[i], err, o)
				}
				if sec == STH_FULL || sec == REV_FULL {
					k := o.Key()
					if c, ok := seen[k]; ok && c != o.Content() {
						s.C.Fail("two monitors published different endorsed statements of %s for period %s", o.Payload[0], o.Period)
					}
					seen[k] = o.Content()
				}
			}
		}
	}
}

// Quorum tells whether enough pairs are up for endorsements.
func (s *Sim) Quorum() bool { return len(s.AliveAll()) >= s.W.Threshold }
