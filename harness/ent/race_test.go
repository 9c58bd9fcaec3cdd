package ent

import (
	"crypto/x509"
	"encoding/json"
	"fmt"
	"net/http"
	"sync"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/CA"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// TestC22: loggers and CAs under concurrent load, watched by the race detector, the crash and the deadlock monitors.
// In quiet cases nothing but their own locks orders what happens; in the others the outcome is judged.
func TestC22(t *testing.T) {
	RunProp(t, "C22", func(r *Run) {
		n := r.N(140, 2000)
		for i := 0; i < n; i++ {
			i := i
			what := []string{"logger", "ca", "logger-judged", "ca-judged", "logger", "ca"}[i%6]
			r.Case(fmt.Sprintf("%s-%d", what, i), func(c *Case) {
				Bubble(c, func(n *Net) {
					switch what {
					case "logger":
						loadLogger(c, n)
					case "ca":
						loadCA(c, n, true)
					case "ca-judged":
						loadCA(c, n, false)
					default:
						l := newLoglab(c, n, 1+c.Rng.Intn(3), false)
						periods := 1 + c.Rng.Intn(3)
						done := make(chan bool)
						answers := l.ask(periods, done)
						l.schedule(periods, 10, 20)
						At(l.min+periods, 39.5)
						<-done
						l.judge(periods, true)
						l.judgeAnswers(*answers, periods)
						c.Count("requests", len(l.posts)+len(*answers))
						c.Desc("logger, judged, %d precertificates, %d queries", len(l.posts), len(*answers))
						c.Nontrivial(fmt.Sprintf("logger-judged/p%d/%d/%d", periods, len(l.posts), len(*answers)))
					}
				})
			})
		}
	})
}

func shuffle(c *Case, fs []func()) []func() {
	c.Rng.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
	return fs
}

func loadLogger(c *Case, n *Net) {
	l := newLoglab(c, n, 2, false)
	slow := time.Duration(c.Rng.Intn(3)) * time.Second
	for _, ca := range l.w.C {
		n.Handle(ca, http.HandlerFunc(func(http.ResponseWriter, *http.Request) { time.Sleep(slow) }))
	}
	At(l.min, 0.5)
	Settle()
	n.Quiet(true)
	requests := 0
	periods := 2 + c.Rng.Intn(2)
	for k := 0; k < periods; k++ {
		for _, s := range []float64{20, 40, 41, 42, 44, 50} {
			fs := []func(){}
			for j := 2 + c.Rng.Intn(5); j > 0; j-- {
				p := l.cert()
				if c.Rng.Intn(5) == 0 {
					p = l.bad()
				}
				for m := 1 + c.Rng.Intn(2); m > 0; m-- {
					fs = append(fs, func() { n.Post(p.issuer, l.id, "/Logger/receive-precerts", p.der) })
				}
			}
			for j := 1 + c.Rng.Intn(5); j > 0; j-- {
				fs = append(fs, func() { n.Do(l.w.M[0], l.id, "GET", "/ctng/v2/get-sth", nil) })
			}
			requests += len(fs)
			Burst(l.min+k, s, shuffle(c, fs))
		}
	}
	At(l.min+periods, 39)
	// still alive
	ch := make(chan int, 1)
	go func() {
		st, _ := n.Do(l.w.M[0], l.id, "GET", "/ctng/v2/get-sth", nil)
		ch <- st
	}()
	select {
	case st := <-ch:
		if st != 200 {
			c.Fail("after the load the logger answers with %d", st)
		}
	case <-time.After(10 * time.Second):
		c.Fail("after the load the logger does not answer any more")
	}
	c.Count("requests", requests)
	c.Desc("logger, unordered, CAs take %v, %d requests", slow, requests)
	c.Nontrivial(fmt.Sprintf("logger/%v/%d/%d", slow, periods, requests))
}

func loadCA(c *Case, n *Net, quiet bool) {
	loggers, certs, periods := 1+c.Rng.Intn(3), 1+c.Rng.Intn(3), 2
	l := newCAlab(c, n, loggers, certs)
	var mu sync.Mutex
	got := map[int][]*x509.Certificate{}
	sleeps := time.Duration(c.Rng.Intn(2)*100) * time.Millisecond
	for i, g := range l.w.L {
		n.Handle(g, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if i == 0 {
				b := make([]byte, r.ContentLength)
				r.Body.Read(b)
				if x, err := x509.ParseCertificate(b); err == nil {
					m := minuteOf(time.Now())
					mu.Lock()
					got[m] = append(got[m], x)
					mu.Unlock()
				}
			}
			time.Sleep(sleeps)
		}))
	}
	At(l.min, 4)
	Settle()
	n.Quiet(quiet)
	requests := 0
	for k := 0; k < periods; k++ {
		m := l.min + k
		ask := func() { n.Do(l.w.M[0], l.id, "GET", "/ctng/v2/get-revocation", nil) }
		sign := func() { CA.SignAllCerts(l.ctx) }
		garbage := func() func() {
			g := Garbage(c.Rng)
			return func() { n.Post("stranger", l.id, []string{"/CA/receive-sth", "/CA/receive-poi"}[len(g)%2], g) }
		}
		burst := func(s float64, fs []func()) {
			for j := 1 + c.Rng.Intn(4); j > 0; j-- {
				fs = append(fs, ask)
			}
			for j := c.Rng.Intn(3); j > 0; j-- {
				fs = append(fs, garbage())
			}
			if c.Rng.Intn(2) == 0 {
				fs = append(fs, sign)
			}
			requests += len(fs)
			Burst(m, s, shuffle(c, fs))
		}
		if k > 0 {
			burst(1, nil) // the instant at which it makes and sends precertificates
			burst(1.1, nil)
		}
		At(m, 5)
		Settle()
		mu.Lock()
		pre := got[m]
		mu.Unlock()
		if len(pre) != certs {
			c.Fail("period %d: %d precertificates were sent to %s instead of %d", k, len(pre), l.w.L[0], certs)
			return
		}
		trees := map[string]*ltree{}
		want := map[string]map[string]Obj{}
		for _, x := range pre {
			want[string(x.SubjectKeyId)] = map[string]Obj{}
		}
		sths, pois := []func(){}, []func(){}
		for _, g := range l.w.L {
			t := l.tree(g, pre, m, "")
			trees[g] = t
			for j := 1 + c.Rng.Intn(2); j > 0; j-- {
				sths = append(sths, func() { n.Post(g, l.id, "/CA/receive-sth", t.sth.JSON()) })
			}
			for _, x := range pre {
				b, _ := json.Marshal(t.poi(x))
				want[string(x.SubjectKeyId)][g] = t.sth
				for j := 1 + c.Rng.Intn(3); j > 0; j-- {
					pois = append(pois, func() { n.Post(g, l.id, "/CA/receive-poi", b) })
				}
			}
		}
		again := func() []func() { return append(append([]func(){}, sths...), pois...) }
		burst(10, append([]func(){}, sths...))
		burst(20, again())
		if !quiet {
			l.compare(want, pre, fmt.Sprintf("period %d, after concurrent load", k))
			if c.Failed() {
				return
			}
		}
		burst(41, again()) // the instant at which it makes its statement and starts a new pool
		burst(41.5, again())
		// and the instant at which it wipes the tree heads
		go Burst(m+1, 1, again())
	}
	At(l.min+periods, 10)
	for _, who := range l.w.M {
		ch := make(chan Obj, 1)
		go func() {
			st, b := n.Do(who, l.id, "GET", "/ctng/v2/get-revocation", nil)
			var o Obj
			if st != 200 || json.Unmarshal(b, &o) != nil {
				c.Fail("after the load the CA answers with %d %.100q", st, b)
			}
			ch <- o
		}()
		select {
		case o := <-ch:
			if !c.Failed() && (l.w.Valid(o) != nil || o.Signer != l.id) {
				c.Fail("after the load the CA's statement is not valid: %v", l.w.Valid(o))
			}
		case <-time.After(10 * time.Second):
			c.Fail("after the load the CA does not answer any more")
		}
	}
	c.Count("requests", requests)
	c.Desc("CA, quiet %v, %d loggers, %d certificates, %d requests", quiet, loggers, certs, requests)
	c.Nontrivial(fmt.Sprintf("ca/%v/l%d/c%d/%v/%d", quiet, loggers, certs, sleeps, requests))
}
