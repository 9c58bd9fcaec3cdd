package netsim

import (
	"crypto/x509"
	"fmt"
	"path/filepath"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// TestC32: certificates of honest CAs, through real loggers, gossipers and monitors, as real clients see them.
func TestC32(t *testing.T) {
	RunProp(t, "C32", func(r *Run) {
		for i := 0; i < r.N(64, 1200); i++ {
			r.Case(fmt.Sprintf("life-%d", i), func(c *Case) {
				Bubble(c, func(n *Net) { life(c, n, i) })
			})
		}
	})
}

// issuedCert is a certificate and what became of it.
type issuedCert struct {
	cert    *x509.Certificate
	ca, rid int
	minute  int // in which it was issued: its tree heads are endorsed in the next
	revoked int // the period whose statement must tell of the revocation, -1 for none
}

// follower is a client and where it gets its updates.
type follower struct {
	name string
	dir  string
	from int // -1: another monitor every time
	cl   *Client
	bad  map[string]bool // whom the updates it got held proofs against
}

func life(c *Case, n *Net, idx int) {
	N, T := size(c, 4)
	spare := N - T
	byz := 0
	if spare > 0 && T > 1 && c.Rng.Intn(2) == 0 {
		byz = 1 + c.Rng.Intn(min(spare, T-1))
		spare -= byz
	}
	certs := 1 + c.Rng.Intn(3)
	loggers, cas := 1+c.Rng.Intn(4), 1+c.Rng.Intn(2)
	// loggers that lie to some monitors, or stop; at times all of them
	bad := map[string]string{}
	for i := 0; i < loggers; i++ {
		if c.Rng.Intn(2) == 0 || idx%5 == 0 {
			bad[EntityName("L", i)] = []string{"lies", "stops"}[c.Rng.Intn(2)]
		}
	}
	if idx%5 > 0 && len(bad) == loggers {
		delete(bad, EntityName("L", c.Rng.Intn(loggers)))
	}
	realE := []string{}
	for i := 0; i < loggers; i++ {
		realE = append(realE, EntityName("L", i))
	}
	for i := 0; i < cas; i++ {
		realE = append(realE, EntityName("C", i))
	}
	j := []time.Duration{0, 0, 20 * time.Millisecond, 40 * time.Millisecond}[c.Rng.Intn(4)]
	ctxs := []*CA.CAContext{}
	logs := map[string]*Logger.LoggerContext{}
	before := []int{0, 0, 62, 126, 509, 4094, 65534, 524286}[c.Rng.Intn(8)]
	s := NewSim(c, n, Topology{N: N, Threshold: T, Loggers: loggers, CAs: cas, Wait: 5, Certs: certs}, SimOptions{Jitter: j, Byz: byz, Real: realE, Before: func(w *World) {
		for i, l := range w.L {
			logs[l] = StartRealLogger(c, w, i, nil)
		}
		for i := range w.C {
			ctxs = append(ctxs, StartRealCA(c, w, i, func(x *CA.CAContext) { x.RevocationRatio, x.CertCounter = 0, before }))
		}
	}})
	c.Desc("%d certificates per CA and period from number %d, loggers %v", certs, before, bad)
	followers := []*follower{}
	for _, i := range s.AliveAll() {
		followers = append(followers, &follower{name: "a client of " + s.W.M[i], from: i})
	}
	followers = append(followers, &follower{name: "a client of all monitors", from: -1})
	for i, f := range followers {
		f.dir = filepath.Join(c.Dir, fmt.Sprintf("client%d", i))
		f.cl, f.bad = NewClient(s.W, f.dir, false), map[string]bool{}
	}
	pool := []*issuedCert{}
	good := func(e string) bool { _, b := bad[e]; return !b }
	anyGood := false
	for _, l := range s.W.L {
		anyGood = anyGood || good(l)
	}
	shape := ""
	periods := 3 + c.Rng.Intn(3)
	if idx%5 == 0 {
		periods += 2
	}
	accepted, rejected := 0, 0
	for p := 0; p < periods; p++ {
		m := s.Min + p
		// some are revoked
		s.At(float64(p*60) + 15 + float64(c.Rng.Intn(20)))
		for _, x := range pool {
			if x.revoked < 0 && c.Rng.Intn(4) == 0 {
				ctxs[x.ca].CRV.Revoke(x.rid)
				x.revoked = m + 1
				shape += fmt.Sprintf("r%d", m-x.minute)
			}
		}
		for _, l := range s.W.L { // some loggers show two faces as of the next period
			if bad[l] == "lies" && c.Rng.Intn(2) == 0 {
				logs[l].Logger_Type, logs[l].MisbehaviorInterval = 1, 2
			}
		}
		if p > 0 {
			for _, l := range s.W.L {
				if bad[l] == "stops" && s.Up(l) && c.Rng.Intn(2) == 0 {
					s.Crash(l)
					shape += "d"
				}
			}
			if spare > 0 && c.Rng.Intn(3) == 0 {
				if live := s.AliveAll(); len(live) > 1 {
					i := live[c.Rng.Intn(len(live))]
					s.Crash(s.W.G[i])
					s.Crash(s.W.M[i])
					spare--
					shape += "c"
				}
			}
		}
		// the CA has the tree heads and the proofs by now
		s.At(float64(p*60) + 40.9)
		for i, ctx := range ctxs {
			got := CA.SignAllCerts(ctx)
			if len(got) != certs {
				c.Fail("CA %s has %d certificates to issue in period %s, expected %d", s.W.C[i], len(got), P2(m), certs)
			}
			for _, x := range got {
				if x == nil {
					c.Fail("CA %s issued nothing", s.W.C[i])
					continue
				}
				y, err := x509.ParseCertificate(x.Raw)
				if err != nil {
					c.Fail("CA %s issued what is no certificate: %v", s.W.C[i], err)
					continue
				}
				pool = append(pool, &issuedCert{cert: y, ca: i, rid: ridOf(c, y), minute: m, revoked: -1})
			}
		}
		s.At(float64(p*60) + 45)
		us := s.Updates(m)
		if c.Failed() {
			return
		}
		for _, f := range followers {
			from := f.from
			if from < 0 {
				live := s.AliveAll()
				from = live[c.Rng.Intn(len(live))]
			}
			u := us[from]
			if u == nil {
				continue // its monitor is down, it knows no more than before
			}
			if !f.cl.Apply(*u) {
				c.Fail("%s did not accept the update for period %s of %s", f.name, P2(m), s.W.M[from])
				return
			}
			for _, l := range s.W.L {
				if con, acc := u.PoMs(l); len(con)+len(acc) > 0 {
					f.bad[l] = true
				}
			}
			if c.Rng.Intn(3) == 0 {
				f.cl.Save()
				f.cl = NewClient(s.W, f.dir, true)
				shape += "s"
			}
			for _, x := range pool {
				ok := f.cl.Ctx.VerifyCTngextension(x.cert)
				what := fmt.Sprintf("certificate %d of %s (issued in period %s) after the update for period %s", x.rid, s.W.C[x.ca], P2(x.minute), P2(m))
				switch {
				case x.minute >= m:
					if ok {
						c.Fail("%s accepted %s: no tree that holds it is endorsed yet", f.name, what)
					}
					rejected++
				case x.revoked >= 0 && x.revoked <= m:
					if ok {
						c.Fail("%s accepted %s: it was revoked as of period %s", f.name, what, P2(x.revoked))
					}
					rejected++
				case anyGood:
					if !ok {
						c.Fail("%s rejected %s: it is in the endorsed tree of a logger that never misbehaved, and not revoked", f.name, what)
					}
					accepted++
				default:
					if len(f.bad) == len(s.W.L) && ok {
						c.Fail("%s accepted %s: it was shown a proof against every logger", f.name, what)
					}
					if len(f.bad) == len(s.W.L) {
						rejected++
					}
				}
			}
		}
		if c.Failed() {
			return
		}
	}
	c.Count("certificates", len(pool))
	c.Count("certificates_accepted", accepted)
	c.Count("certificates_rejected", rejected)
	if accepted+rejected > 0 {
		c.Nontrivial(fmt.Sprintf("n=%d t=%d byz=%d loggers=%d bad=%v cas=%d certs=%d from=%d %s", N, T, byz, loggers, bad, cas, certs, before, shape))
	}
}

func ridOf(c *Case, x *x509.Certificate) int {
	e, _, err := ParseExt(x)
	if err != nil {
		c.Fail("the CA issued a certificate without a revocation number: %v", err)
	}
	return e.SequenceNumber.RID
}
