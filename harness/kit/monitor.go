package kit

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/monitor"

	. "ctngverif/lib"
)

// Update is a client update as it is on the wire.
type Update struct {
	STHs      []Obj
	REVs      []Obj
	POM_CONs  []Obj
	POM_ACCs  []Obj
	MonitorID string
	Period    string
}

func (u *Update) All() []Obj {
	out := append([]Obj{}, u.STHs...)
	out = append(out, u.REVs...)
	out = append(out, u.POM_CONs...)
	return append(out, u.POM_ACCs...)
}

// ParseUpdate decodes the answer to an update request.
func ParseUpdate(b []byte) (*Update, error) {
	var s string
	if json.Unmarshal(b, &s) == nil {
		if raw, err := base64.StdEncoding.DecodeString(s); err == nil {
			b = raw
		}
	}
	u := new(Update)
	return u, json.Unmarshal(b, u)
}

// FetchUpdate asks a monitor for the update of a period.
func FetchUpdate(n *Net, client, mon string, period int) (*Update, int) {
	body, _ := json.Marshal(strconv.Itoa(((period % 60) + 60) % 60))
	st, ans := n.Do(client, mon, "GET", "/monitor/get-update", body)
	if st != 200 {
		return nil, st
	}
	u, err := ParseUpdate(ans)
	if err != nil {
		return nil, st
	}
	return u, st
}

// RevChain is a CA's revocation state as the oracle keeps it.
type RevChain struct {
	W    *World
	CA   string
	CRV  *bitset.BitSet
	Size uint
	Bulk int // so many further certificates are revoked each time
}

// NewRevChains makes the states of all CAs; now and then they are large.
func NewRevChains(c *Case, w *World) map[string]*RevChain {
	out := map[string]*RevChain{}
	big := c.Rng.Intn(8) == 0
	for _, ca := range w.C {
		out[ca] = NewRevChain(w, ca, 2048)
		if big {
			out[ca] = NewRevChain(w, ca, 1000000)
			out[ca].Bulk = 20000 + c.Rng.Intn(30000)
		}
	}
	if big {
		c.Desc("large revocation statements")
		c.Count("with large revocation statements", 1)
	}
	return out
}

func NewRevChain(w *World, ca string, size uint) *RevChain {
	return &RevChain{W: w, CA: ca, CRV: bitset.New(size), Size: size}
}

// Next revokes more and makes the statement for the period.
func (r *RevChain) Next(period int, ones ...uint) Obj {
	if r.Bulk > 0 {
		rng := rand.New(rand.NewSource(int64(period)))
		for i := 0; i < r.Bulk; i++ {
			ones = append(ones, uint(rng.Intn(int(r.Size))))
		}
	}
	d := Bits(r.Size, ones...)
	d.InPlaceDifference(r.CRV)
	r.CRV = r.CRV.Union(d)
	return r.W.MakeREV(r.CA, period, r.CRV, d)
}

// Answer is what a scripted entity says to a query.
type Answer func(minute int) (int, []byte)

// MonLab is one real monitor between a scripted gossiper and scripted loggers and CAs.
type MonLab struct {
	C       *Case
	Net     *Net
	W       *World
	Self, G string
	Ctx     *monitor.MonitorContext
	P, Min  int
	Off     int // the period its updates are counted from
	mu      sync.Mutex
	answers map[string]Answer
	chains  map[string]*RevChain
	stmts   map[string]Obj
}

func startMinute(c *Case) int {
	start := c.Rng.Intn(60)
	if c.Rng.Intn(4) == 0 {
		start = 57 + c.Rng.Intn(3)
	}
	return start
}

// NewMonLab starts a monitor; it returns when its first period begins, before the queries go out.
func NewMonLab(c *Case, n *Net, t Topology) *MonLab {
	w := NewWorld(c.Dir, t)
	i := c.Rng.Intn(len(w.M))
	l := &MonLab{C: c, Net: n, W: w, Self: w.M[i], G: w.G[i], answers: map[string]Answer{}, chains: map[string]*RevChain{}, stmts: map[string]Obj{}}
	n.Handle(l.G, Stub)
	for _, e := range append(append([]string{}, w.L...), w.C...) {
		n.Handle(e, l.entity(e))
	}
	l.chains = NewRevChains(c, w)
	start := startMinute(c)
	At(start, 1+float64(c.Rng.Intn(58)))
	pub, priv, cr := w.Cfg("M", i)
	l.Ctx = monitor.InitializeMonitorContext(pub, priv, cr, "1")
	l.Ctx.InitializeMonitorStorage(filepath.Join(c.Dir, "monitor"))
	l.Ctx.Max_latency = 0
	if c.Rng.Intn(2) == 0 { // its updates are counted from some period
		l.Off = c.Rng.Intn(60)
		l.Ctx.Period_Offset = P2(l.Off)
	}
	l.Min, l.P = start+1, (start+1)%60
	c.Desc("%s, monitor %s, period %s", t, l.Self, P2(l.P))
	go monitor.StartMonitorServer(l.Ctx)
	return l
}

// At sleeps until second s after the monitor's start.
func (l *MonLab) At(s float64) { At(l.Min, s) }

// Minute is the current minute of virtual time.
func Minute() int {
	return int(time.Since(time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)) / time.Minute)
}

// Answer scripts an entity; nil makes it honest again.
func (l *MonLab) Answer(e string, a Answer) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.answers[e] = a
}

// Statement is the entity's honest statement for a minute.
func (l *MonLab) Statement(e string, minute int) Obj {
	l.mu.Lock()
	defer l.mu.Unlock()
	k := fmt.Sprintf("%s@%d", e, minute)
	if o, ok := l.stmts[k]; ok {
		return o
	}
	var o Obj
	if ch, ok := l.chains[e]; ok {
		o = ch.Next(minute%60, uint(minute*3%2000), uint(minute*7%2000+1))
	} else {
		o = l.W.MakeSTH(e, minute%60, k)
	}
	l.stmts[k] = o
	return o
}

// CRV is what the CA has revoked by its statements so far.
func (l *MonLab) CRV(ca string) *bitset.BitSet {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.chains[ca].CRV.Clone()
}

func (l *MonLab) entity(e string) http.Handler {
	return http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		l.mu.Lock()
		a := l.answers[e]
		l.mu.Unlock()
		m := Minute()
		if a != nil {
			st, b := a(m)
			hanging(rw, st)
			rw.Write(b)
			return
		}
		rw.Write(l.Statement(e, m).JSON())
	})
}

// Statuses of answers that never come, or of which half comes.
const (
	NeverAnswers = -1
	StopsHalfway = -2
)

func hanging(rw http.ResponseWriter, st int) {
	switch st {
	case NeverAnswers:
		rw.Header().Set(Hangs, "all")
	case StopsHalfway:
		rw.Header().Set(Hangs, "half")
	default:
		rw.WriteHeader(st)
	}
}

// Give delivers an object as the monitor's gossiper does.
func (l *MonLab) Give(o Obj) (int, []byte) {
	return l.Net.Post(l.G, l.Self, "/monitor/receive-gossip-from-gossiper", o.JSON())
}

// Sent returns what the monitor gave its gossiper.
func (l *MonLab) Sent(typ ...string) []*Event {
	out := []*Event{}
	for _, e := range l.Net.Events() {
		if e.From != l.Self || e.Obj == nil {
			continue
		}
		for _, t := range typ {
			if e.Obj.Type == t {
				out = append(out, e)
			}
		}
	}
	return out
}

// Queries returns the queries of an entity since a time.
func (l *MonLab) Queries(entity string, since time.Time) int {
	k := 0
	for _, e := range l.Net.Events() {
		if e.To == entity && e.Method == "GET" && strings.HasPrefix(e.Path, "/ctng/") && !e.At.Before(since) {
			k++
		}
	}
	return k
}

// Update fetches the update of the k-th period after the start.
func (l *MonLab) Update(k int) *Update {
	u, st := FetchUpdate(l.Net, "client", l.Self, l.P+k-l.Off)
	if u == nil {
		l.C.Fail("the monitor has no update for its %d. period (%s): status %d", k+1, P2(l.P+k), st)
		return &Update{}
	}
	return u
}

// Endorse gives the monitor the endorsed statements of everybody for a minute, as the gossipers would.
func (l *MonLab) Endorse(minute int, but ...string) {
	for _, e := range append(append([]string{}, l.W.L...), l.W.C...) {
		if !in(but, e) {
			l.Give(l.W.MakeFull(Shuffled(l.C, l.W.G)[:l.W.Threshold], l.Statement(e, minute)))
		}
	}
}

// ExpectPublished fails unless the update holds exactly the endorsed statements of a minute.
func (l *MonLab) ExpectPublished(u *Update, minute int, but ...string) {
	for _, e := range append(append([]string{}, l.W.L...), l.W.C...) {
		want := l.Statement(e, minute)
		k := 0
		for _, o := range append(append([]Obj{}, u.STHs...), u.REVs...) {
			if o.Payload[0] != e {
				continue
			}
			k++
			if o.Content() != want.Content() {
				l.C.Fail("the monitor published something else than the endorsed statement of %s: %v", e, o)
			}
		}
		if in(but, e) {
			if k != 0 {
				l.C.Fail("the monitor published a statement of %s", e)
			}
		} else if k != 1 {
			l.C.Fail("the update holds %d statements of %s, one was endorsed", k, e)
		}
	}
}

func in(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}
