// Package kit sets up the real entities under observation: this file watches one real gossiper between scripted peers and a scripted monitor.
package kit

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/gossiper"

	. "ctngverif/lib"
)

type notification struct {
	Sender     string `json:"sender"`
	Period     string `json:"period"`
	Type       string `json:"type"`
	Entity_URL string `json:"entity_url"`
	Objhash    []byte `json:"objhash"`
}

// Lab is one gossiper under observation.
type Lab struct {
	C     *Case
	Net   *Net
	W     *World
	Self  string
	Mon   string
	Peers []string
	Ctx   *gossiper.GossiperContext
	P     int // current period (minute of the hour) when the lab starts
	Min   int // minute of virtual time it starts at
	Lazy  map[string]bool
	Big   bool      // revocation statements are large
	T0    time.Time // what was sent before is not counted by the expectations
	busy  sync.WaitGroup
}

// LabTopology draws a deployment.
func LabTopology(c *Case) Topology {
	n := 2 + c.Rng.Intn(6)
	return Topology{N: n, Threshold: 1 + c.Rng.Intn(n), Loggers: 2, CAs: 2, Wait: 5}
}

// NewLab starts a gossiper in the current bubble; it returns at its second 0.
func NewLab(c *Case, n *Net, t Topology) *Lab {
	w := NewWorld(c.Dir, t)
	i := c.Rng.Intn(len(w.G))
	l := &Lab{C: c, Net: n, W: w, Self: w.G[i], Mon: w.M[i], Lazy: map[string]bool{}}
	for _, g := range w.G {
		if g != l.Self {
			l.Peers = append(l.Peers, g)
			l.Net.Handle(g, l.peer(g))
		}
	}
	n.Handle(l.Mon, Stub)
	start := c.Rng.Intn(60)
	if c.Rng.Intn(4) == 0 {
		start = 57 + c.Rng.Intn(3)
	}
	At(start, 1+float64(c.Rng.Intn(58)))
	pub, priv, cr := w.Cfg("G", i)
	l.Ctx = gossiper.InitializeGossiperContext(pub, priv, cr, "1")
	l.Ctx.StorageDirectory = filepath.Join(c.Dir, "gossiper") + "/"
	l.Ctx.Total_Logger, l.Ctx.Total_CA = len(w.L), len(w.C)
	l.Ctx.Max_latency = 0
	go gossiper.StartGossiperServer(l.Ctx)
	l.Min = start + 1
	l.P = (start + 1) % 60
	At(start+1, 0)
	Settle()
	l.T0 = time.Now()
	l.Big = c.Rng.Intn(6) == 0
	c.Desc("%s, gossiper %s, period %s", t, l.Self, P2(l.P))
	return l
}

// At sleeps until second s after the lab's start.
func (l *Lab) At(s float64) { At(l.Min, s) }

// peer is a scripted gossiper: it takes everything, and asks for the payloads it is notified of.
func (l *Lab) peer(id string) http.Handler {
	var mu sync.Mutex
	have := map[string]bool{}
	return http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		if r.URL.Path != "/gossip/new_payload_notification" || l.Lazy[id] {
			return
		}
		var nt notification
		if json.NewDecoder(r.Body).Decode(&nt) != nil {
			return
		}
		mu.Lock()
		known := have[string(nt.Objhash)]
		have[string(nt.Objhash)] = true
		mu.Unlock()
		if known {
			return
		}
		to := nt.Sender
		nt.Sender = id
		b, _ := json.Marshal(nt)
		l.Net.Post(id, to, "/gossip/new_payload_request", b)
	})
}

var initPath = map[string]string{STH_INIT: "sth_init", REV_INIT: "rev_init", ACC_INIT: "acc_init", CON_INIT: "con_init",
	STH_FRAG: "sth_frag", REV_FRAG: "rev_frag", ACC_FRAG: "acc_frag", STH_FULL: "sth_frag", REV_FULL: "rev_frag", ACC_FULL: "acc_frag"}

// Give delivers an object to the gossiper as an honest sender would.
func (l *Lab) Give(from string, o Obj) (int, []byte) {
	p, ok := initPath[o.Type]
	if !ok {
		p = "sth_init"
	}
	return l.Net.Post(from, l.Self, "/gossip/"+p, o.JSON())
}

// Compact is a revocation fragment as gossipers send it.
func Compact(o Obj) Obj {
	if o.Type == REV_FRAG {
		o.Payload[1], o.Payload[2] = "", ""
	}
	return o
}

// Together delivers objects at the same instant, in parallel.
func (l *Lab) Together(from []string, objs []Obj) {
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i := range objs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-gate
			l.Give(from[i%len(from)], objs[i])
		}(i)
	}
	Settle()
	close(gate)
	wg.Wait()
	Settle()
}

// Sent returns what the gossiper sent, in order, up to now; deliveries to dead entities count.
func (l *Lab) Sent(to string, typ ...string) []*Event {
	out := []*Event{}
	for _, e := range l.Net.Events() {
		if e.From != l.Self || (to != "" && e.To != to) || e.Obj == nil || e.At.Before(l.T0) {
			continue
		}
		if len(typ) > 0 {
			ok := false
			for _, t := range typ {
				ok = ok || e.Obj.Type == t
			}
			if !ok {
				continue
			}
		}
		out = append(out, e)
	}
	return out
}

// SentAbout returns the objects of a type about an entity that were sent to to, without repetition.
func (l *Lab) SentAbout(to, typ, entity, period string) []Obj {
	out := []Obj{}
	seen := map[string]bool{}
	for _, e := range l.Sent(to, typ) {
		if e.Obj.Payload[0] == entity && (period == "" || e.Obj.Period == period) {
			k := string(e.Body)
			if !seen[k] {
				seen[k] = true
				out = append(out, *e.Obj)
			}
		}
	}
	return out
}

func epoch(t time.Time) int64 { return (t.Unix() - 40) / 60 }

// Judge checks the history of the gossiper against what may ever happen. It returns what it saw.
func (l *Lab) Judge() map[string]int {
	c, w := l.C, l.W
	count := map[string]int{}
	given := map[string]bool{}      // INIT, CON objects that arrived and are valid: type|content|signatures
	contents := map[string]bool{}   // kind|content of valid INITs that arrived
	contentOf := map[string][]Obj{} // REV key -> valid REV_INITs
	frags := map[string]bool{}      // valid fragments that arrived: kind|signer|content
	conv := map[string]int{}        // entity -> seq of the event that convicted it
	fulls := map[string]int{}       // key|epoch -> number
	evs := l.Net.Events()
	ident := func(o *Obj) string { return o.Type + "|" + o.Content() + "|" + o.Signature[0] + "|" + o.Signature[1] }
	for _, e := range evs {
		if e.Obj == nil {
			continue
		}
		o := e.Obj
		if e.To == l.Self && e.From != l.Self {
			if o.Type == REV_FRAG { // the receiver fills in what it knows
				for _, r := range contentOf[o.Key()] {
					f := *o
					f.Payload = r.Payload
					if w.Valid(f) == nil {
						frags["REV|"+f.Signer+"|"+f.Content()] = true
					}
				}
			}
			if w.Valid(*o) != nil {
				count["invalid_in"]++
				continue
			}
			count["valid_in"]++
			switch {
			case IsInit(o.Type):
				given[ident(o)] = true
				contents[Kind(o.Type)+"|"+o.Content()] = true
				if o.Type == REV_INIT {
					contentOf[o.Key()] = append(contentOf[o.Key()], *o)
				}
			case o.Type == CON_INIT:
				given[ident(o)] = true
			case IsFrag(o.Type):
				frags[Kind(o.Type)+"|"+o.Signer+"|"+o.Content()] = true
			}
			continue
		}
		if e.From != l.Self {
			continue
		}
		count["out"]++
		if n, ok := conv[o.Payload[0]]; ok && o.Type != CON_INIT && o.Type != ACC_FULL {
			// what was under way when the conviction came in may still be sent: only what follows it for good counts
			if e.At.After(evs[n-1].At.Add(time.Millisecond)) && l.convictedFor(evs, n, e) {
				c.Fail("after the proof against %s was known (event %v), the gossiper sent %v", o.Payload[0], evs[n-1], e)
			}
		}
		switch {
		case IsInit(o.Type):
			if err := w.Valid(*o); err != nil {
				c.Fail("the gossiper spread an invalid object (%v): %v", err, e)
			} else if !given[ident(o)] {
				c.Fail("the gossiper spread an object it never received: %v", e)
			}
			count["spread"]++
		case o.Type == CON_INIT:
			if err := w.Valid(*o); err != nil {
				c.Fail("the gossiper spread an invalid conflict proof (%v): %v", err, e)
			} else if !given[ident(o)] {
				k, _ := statementKind(o)
				if !contents[k+"|"+o.Payload[1]] || !contents[k+"|"+o.Payload[2]] {
					c.Fail("the gossiper made a conflict proof of statements it never received: %v", e)
				}
			}
			if _, ok := conv[o.Payload[0]]; !ok && w.Valid(*o) == nil {
				conv[o.Payload[0]] = e.Seq
			}
			count["conflict_proofs"]++
		case IsFrag(o.Type):
			f := *o
			ok := false
			if f.Type == REV_FRAG && f.Payload[1] == "" {
				for _, r := range contentOf[f.Key()] {
					g := f
					g.Payload = r.Payload
					if w.Valid(g) == nil {
						f, ok = g, true
						break
					}
				}
			} else {
				ok = w.Valid(f) == nil
			}
			if !ok {
				c.Fail("the gossiper sent an invalid fragment: %v", e)
			} else if f.Signer == l.Self {
				if !contents[Kind(f.Type)+"|"+f.Content()] {
					c.Fail("the gossiper endorsed something no valid statement of its entity said: %v", e)
				}
				count["own_fragments"]++
			} else if !frags[Kind(f.Type)+"|"+f.Signer+"|"+f.Content()] {
				c.Fail("the gossiper spread a fragment it never received: %v", e)
			}
			count["fragments"]++
		case IsFull(o.Type):
			if err := w.Valid(*o); err != nil {
				c.Fail("the gossiper passed on an object that is not endorsed (%v): %v", err, e)
			}
			if e.To == l.Mon {
				k := fmt.Sprintf("%s|%d", o.Key(), epoch(e.At))
				fulls[k]++
				if fulls[k] > 1 {
					c.Fail("the monitor got a second endorsed object for the same statement slot: %v", e)
				}
				if o.Type == ACC_FULL && w.Valid(*o) == nil {
					if _, ok := conv[o.Payload[0]]; !ok {
						conv[o.Payload[0]] = e.Seq
					}
				}
			}
			count["full"]++
		default:
			c.Fail("the gossiper sent an object of unknown type: %v", e)
		}
	}
	for k, v := range count {
		c.Count(k, v)
	}
	return count
}

// convictedFor tells whether e cannot have been under way when the proof was sent: the proof was handed out at a strictly
// earlier instant. INITs and fragments are sent without delay here, so nothing legitimate is left after it.
func (l *Lab) convictedFor(evs []*Event, n int, e *Event) bool {
	// spreading a payload on request of a peer is an answer to it, and allowed
	return !(e.Obj.Type == REV_INIT && e.To != l.Mon)
}

func statementKind(o *Obj) (string, error) {
	if strings.HasPrefix(strings.TrimPrefix(o.Payload[1], o.Payload[0]), "CRV") {
		return "REV", nil
	}
	return "STH", nil
}

// Full returns the endorsed objects of the kind about the entity that the monitor got.
func (l *Lab) Full(init Obj) []Obj {
	out := []Obj{}
	for _, e := range l.Sent(l.Mon, FullOf(init.Type)) {
		if e.Obj.Payload[0] == init.Payload[0] && e.Obj.Period == init.Period {
			out = append(out, *e.Obj)
		}
	}
	return out
}

// ExpectFull fails unless the monitor got exactly one endorsed object with the content of init.
func (l *Lab) ExpectFull(init Obj, why string) {
	fs := l.Full(init)
	if len(fs) != 1 {
		l.C.Fail("the monitor got %d endorsed objects for %v, expected one: %s", len(fs), init, why)
		return
	}
	if fs[0].Content() != init.Content() {
		l.C.Fail("the endorsed object has another content than %v: %v", init, fs[0])
	}
	if err := l.W.Valid(fs[0]); err != nil {
		l.C.Fail("the endorsed object does not verify: %v", err)
	}
}

// ExpectSpread fails unless every peer and the monitor got init.
func (l *Lab) ExpectSpread(init Obj, why string) {
	for _, to := range append(append([]string{}, l.Peers...), l.Mon) {
		if l.Lazy[to] {
			continue
		}
		ok := false
		for _, o := range l.SentAbout(to, init.Type, init.Payload[0], init.Period) {
			ok = ok || o.Content() == init.Content()
		}
		if !ok {
			l.C.Fail("%s did not get %v: %s", to, init, why)
			return
		}
	}
}

// ExpectOwnFrag fails unless every peer got the gossiper's own fragment on init.
func (l *Lab) ExpectOwnFrag(init Obj, why string) {
	for _, p := range l.Peers {
		ok := false
		for _, o := range l.SentAbout(p, FragOf(init.Type), init.Payload[0], init.Period) {
			if o.Signer != l.Self {
				continue
			}
			o.Payload = init.Payload
			ok = ok || l.W.Valid(o) == nil
		}
		if !ok {
			l.C.Fail("%s did not get the gossiper's fragment on %v: %s", p, init, why)
			return
		}
	}
}

// ExpectNoFull fails if the monitor got anything endorsed in this slot.
func (l *Lab) ExpectNoFull(init Obj, why string) {
	if fs := l.Full(init); len(fs) > 0 {
		l.C.Fail("the monitor got an endorsed object %v: %s", fs[0], why)
	}
}

// ExpectProof fails unless every peer and the monitor got a valid proof against the entity.
func (l *Lab) ExpectProof(entity, why string) {
	for _, to := range append(append([]string{}, l.Peers...), l.Mon) {
		ok := false
		for _, o := range l.SentAbout(to, CON_INIT, entity, "") {
			ok = ok || l.W.Valid(o) == nil
		}
		if !ok {
			l.C.Fail("%s got no valid conflict proof against %s: %s", to, entity, why)
			return
		}
	}
}

// MakeInit draws a statement of the kind.
func (l *Lab) MakeInit(kind string, entityIdx int, period int, variant int) Obj {
	w := l.W
	switch kind {
	case "STH":
		return w.MakeSTH(w.L[entityIdx%len(w.L)], period, fmt.Sprintf("tree %d", variant))
	case "REV":
		if l.Big {
			r := rand.New(rand.NewSource(int64(variant)))
			ones := []uint{uint(10 + variant)}
			for j := 0; j < 60000; j++ {
				ones = append(ones, uint(r.Intn(1000000)))
			}
			d := Bits(1000000, ones...)
			return w.MakeREV(w.C[entityIdx%len(w.C)], period, d, d)
		}
		return w.SimpleREV(w.C[entityIdx%len(w.C)], period, uint(10+variant), uint(100+variant*7))
	}
	all := append(append([]string{}, w.L...), w.C...)
	return w.MakeACC(w.M[variant%len(w.M)], all[entityIdx%len(all)], period)
}

// Warm lets the gossiper do some work, and then time pass until the next period or until the label of the period comes back
// after an hour: the lab starts anew there. Nobody is convicted meanwhile. It returns what it did.
func (l *Lab) Warm() string {
	c, w := l.C, l.W
	how := c.Rng.Intn(5)
	if how > 1 {
		return "fresh"
	}
	l.At(0.2)
	big := l.Big
	l.Big = false
	if c.Rng.Intn(2) == 0 { // some are out of reach meanwhile, and come back
		for _, id := range Shuffled(c, append([]string{l.Mon}, l.Peers...))[:1+c.Rng.Intn(len(l.Peers)+1)] {
			h := l.peer(id)
			if id == l.Mon {
				h = Stub
			}
			if id != l.Mon && c.Rng.Intn(2) == 0 {
				l.Net.Handle(id, Silent)
			} else {
				l.Net.Remove(id)
			}
			defer l.Net.Handle(id, h)
			c.Count("out of reach for a while", 1)
		}
	}
	for i, e := range append(append([]string{}, w.L...), w.C...) {
		if c.Rng.Intn(5) == 0 {
			continue
		}
		kind := "STH"
		if i >= len(w.L) {
			kind = "REV"
		}
		init := l.MakeInit(kind, i-len(w.L)*(i/len(w.L)), l.P, 60+c.Rng.Intn(3))
		l.Give(l.Anyone(), init)
		for _, g := range Shuffled(c, l.Peers)[:c.Rng.Intn(len(l.Peers)+1)] {
			l.Give(g, Compact(w.MakeFrag(g, init)))
		}
		if w.Threshold > 1 && c.Rng.Intn(2) == 0 { // not enough for an accusation
			acc := w.MakeACC(w.M[0], e, l.P)
			l.Give(l.Anyone(), acc)
			for _, g := range Shuffled(c, l.Peers)[:w.Threshold-2] {
				l.Give(g, w.MakeFrag(g, acc))
			}
		}
	}
	l.Big = big
	l.At(30)
	Settle()
	d := []int{60, 1}[how]
	l.Min += d
	l.P = (l.P + d) % 60
	l.At(0)
	Settle()
	l.T0 = time.Now()
	if d == 60 {
		c.Desc("after an hour")
		return "an hour later"
	}
	c.Desc("in the second period")
	return "second period"
}

// Busy gives the gossiper the statements of all other entities too, with fragments by all peers, while the case goes on. The
// returned function waits for it and fails unless each was endorsed.
func (l *Lab) Busy(besides string) func() {
	c, w := l.C, l.W
	if c.Rng.Intn(2) == 0 {
		return func() {}
	}
	c.Desc("with statements of all others meanwhile")
	inits := []Obj{}
	for i := range w.L {
		inits = append(inits, l.MakeInit("STH", i, l.P, 70))
	}
	for i := range w.C {
		inits = append(inits, l.MakeInit("REV", i, l.P, 70))
	}
	for i := len(inits) - 1; i >= 0; i-- {
		if inits[i].Payload[0] == besides {
			inits = append(inits[:i], inits[i+1:]...)
		}
	}
	for i, init := range inits {
		wait := time.Duration(c.Rng.Intn(600)*i) * time.Millisecond
		gap := time.Duration(c.Rng.Intn(3)*100) * time.Millisecond
		order := Shuffled(c, l.Peers)
		l.busy.Add(1)
		go func() {
			defer l.busy.Done()
			time.Sleep(wait)
			l.Give(order[0], init)
			for _, g := range order {
				time.Sleep(gap)
				l.Give(g, Compact(w.MakeFrag(g, init)))
			}
		}()
	}
	c.Count("statements of others meanwhile", len(inits))
	return func() {
		l.busy.Wait()
		Settle()
		for _, init := range inits {
			l.ExpectSpread(init, "it is one of the others'")
			l.ExpectFull(init, "it is one of the others', endorsed by all")
		}
	}
}

func Shuffled[T any](c *Case, s []T) []T {
	s = append([]T{}, s...)
	c.Rng.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
	return s
}

func Keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func RunProp(t *testing.T, prop string, f func(r *Run)) {
	r := Start(t, prop)
	f(r)
	r.Finish()
}

// Kinds are the statements that are endorsed.
var Kinds = []string{"STH", "REV", "ACC"}

// Anyone is one of the peers or of the monitors.
func (l *Lab) Anyone() string {
	all := append(append([]string{}, l.Peers...), l.W.M...)
	return all[l.C.Rng.Intn(len(all))]
}
