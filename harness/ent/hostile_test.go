package ent

import (
	"bytes"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/monitor"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// TestC19: malformed input never disables an entity.
func TestC19(t *testing.T) {
	RunProp(t, "C19", func(r *Run) {
		for _, k := range []struct {
			name string
			f    func(c *Case, n *Net)
			n    int
		}{
			{"gossiper", hostileGossiper, r.N(120, 2500)},
			{"monitor", hostileMonitor, r.N(120, 2500)},
			{"ca", hostileCA, r.N(60, 900)},
			{"logger", hostileLogger, r.N(120, 2500)},
			{"client", hostileClient, r.N(120, 2500)},
		} {
			for i := 0; i < k.n; i++ {
				r.Case(fmt.Sprintf("%s-%d", k.name, i), func(c *Case) {
					Bubble(c, func(n *Net) { k.f(c, n) })
				})
			}
		}
	})
}

// barrage sends hostile requests to an entity.
type barrage struct {
	c     *Case
	n     *Net
	to    string
	paths []string
	// draw makes a request body that is wrong for the path, and names it
	draw  func(r *rand.Rand, path string) (string, []byte)
	kinds map[string]bool
}

func (b *barrage) one(r *rand.Rand) {
	path := b.paths[r.Intn(len(b.paths))]
	method := "POST"
	name, body := "garbage", Garbage(r)
	if r.Intn(4) > 0 {
		name, body = b.draw(r, path)
	}
	from := "stranger"
	switch r.Intn(12) {
	case 0:
		method = []string{"GET", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH"}[r.Intn(6)]
	case 1:
		path = []string{"/", "/nowhere", path + "/", path + "x", path + "?a=b", "/%2e%2e/x"}[r.Intn(6)]
	case 2, 3:
		from += Unsized
	}
	b.c.Count("hostile requests", 1)
	b.c.Count("hostile: "+name, 1)
	b.n.Do(from, b.to, method, path, body)
}

// fire sends k hostile requests, one after another or at the same time.
func (b *barrage) fire(k int) {
	seeds := []int64{}
	for i := 0; i < k; i++ {
		seeds = append(seeds, b.c.Rng.Int63())
	}
	if b.c.Rng.Intn(2) == 0 {
		for _, s := range seeds {
			b.one(rand.New(rand.NewSource(s)))
		}
		return
	}
	var wg sync.WaitGroup
	for _, s := range seeds {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b.one(rand.New(rand.NewSource(s)))
		}()
	}
	wg.Wait()
}

func hostileGossiper(c *Case, n *Net) {
	t := LabTopology(c)
	t.N = 3 + c.Rng.Intn(4)
	t.Threshold = 2 + c.Rng.Intn(t.N-1)
	l := NewLab(c, n, t)
	w := l.W
	w2 := &World2{World: w}
	bad := l.Peers[0]
	b := &barrage{c: c, n: n, to: l.Self, paths: []string{"/gossip/sth_init", "/gossip/rev_init", "/gossip/acc_init", "/gossip/con_init", "/gossip/sth_frag", "/gossip/rev_frag", "/gossip/acc_frag",
		"/gossip/new_payload_request", "/gossip/new_payload_notification", "/gossip/gossip-data"}}
	k := 0
	b.draw = func(r *rand.Rand, path string) (string, []byte) {
		minute := l.Min + k
		if path == "/gossip/new_payload_request" || path == "/gossip/new_payload_notification" {
			m := map[string]any{"sender": l.Peers[r.Intn(len(l.Peers))], "period": P2(minute), "type": REV_INIT, "entity_url": w.C[r.Intn(2)], "objhash": make([]byte, 32)}
			if r.Intn(4) == 0 {
				m["sender"] = []string{l.Self, "", "nobody", "localhost:99999", "http://", "%zz", "a\nb", "localhost:9000/../x"}[r.Intn(8)]
			}
			j, _ := json.Marshal(m)
			if r.Intn(2) == 0 {
				return "notification", j
			}
			return "bent notification", Bent(r, j)
		}
		if r.Intn(2) == 0 {
			o := w2.Malicious(r, w.L[1], w.C[1], bad, minute%60)
			if r.Intn(4) == 0 {
				return "bent malformed statement", Bent(r, o.JSON())
			}
			return "malformed statement", o.JSON()
		}
		var o Obj
		switch r.Intn(4) {
		case 0:
			o = w.MakeSTH(w.L[r.Intn(2)], minute%60, "a tree")
		case 1:
			o = w.SimpleREV(w.C[r.Intn(2)], minute%60, 5, 9)
		case 2:
			o = w.MakeACC(w.M[r.Intn(len(w.M))], w.L[1], minute%60)
		default:
			o = MakeCON(w.MakeSTH(w.L[1], minute%60, "a"), w.MakeSTH(w.L[1], minute%60, "b"), minute%60)
		}
		if IsInit(o.Type) && r.Intn(2) == 0 {
			o = w.MakeFrag(bad, o)
		}
		for {
			// it must not be a statement of an honest entity
			x := Bent(r, o.JSON())
			var y Obj
			if json.NewDecoder(bytes.NewReader(x)).Decode(&y) != nil || w.Valid(y) != nil || y.Payload[0] == w.L[1] || y.Payload[0] == w.C[1] {
				return "bent " + TypeName(o.Type), x
			}
		}
	}
	periods := 2
	for k = 0; k < periods; k++ {
		At(l.Min+k, float64(c.Rng.Intn(3)))
		b.fire(c.Rng.Intn(20))
		inits := []Obj{w.MakeSTH(w.L[0], (l.Min+k)%60, fmt.Sprintf("tree %d", k)), w.SimpleREV(w.C[0], (l.Min+k)%60, uint(7+k), 90)}
		order := c.Rng.Perm(2)
		for _, i := range order {
			from := w.M[0]
			if c.Rng.Intn(3) == 0 {
				from += Unsized
			}
			if st, _ := l.Give(from, inits[i]); st != 200 {
				c.Fail("period %d: a statement of an honest entity was answered with %d", k, st)
			}
			b.fire(c.Rng.Intn(12))
		}
		At(l.Min+k, float64(9+c.Rng.Intn(4)))
		b.fire(c.Rng.Intn(12))
		for _, i := range order {
			for _, g := range l.Peers[1:] {
				fr := w.MakeFrag(g, inits[i])
				if c.Rng.Intn(2) == 0 {
					fr = Compact(fr)
				}
				l.Give(g, fr)
			}
		}
		b.fire(c.Rng.Intn(12))
		At(l.Min+k, 30)
		Settle()
		for _, o := range inits {
			l.ExpectSpread(o, fmt.Sprintf("period %d, with malformed input", k))
			l.ExpectOwnFrag(o, fmt.Sprintf("period %d, with malformed input", k))
			if len(l.Peers) >= w.Threshold {
				l.ExpectFull(o, fmt.Sprintf("period %d, with malformed input", k))
			}
		}
		if c.Failed() {
			return
		}
		At(l.Min+k, []float64{40, 39.9, 40.1, 50}[c.Rng.Intn(4)])
		b.fire(c.Rng.Intn(12))
	}
	c.Nontrivial(fmt.Sprintf("gossiper/%s/%d", t, c.Rng.Int63()))
}

func hostileMonitor(c *Case, n *Net) {
	t := LabTopology(c)
	l := NewMonLab(c, n, t)
	w := l.W
	w2 := &World2{World: w}
	b := &barrage{c: c, n: n, to: l.Self, paths: []string{"/monitor/get-update", "/monitor/receive-gossip-from-gossiper", "/monitor/receive-gossip-from-gossiper", "/monitor/receive-gossip-from-gossiper"}}
	draw := func(r *rand.Rand) (string, []byte) {
		minute := Minute()
		if r.Intn(2) == 0 {
			o := w2.Malicious(r, w.L[1], w.C[1], w.G[0], minute%60)
			if IsInit(o.Type) && r.Intn(3) > 0 { // endorsed, because gossipers do not look into statements
				return "endorsed malformed statement", w.MakeFull(w.G[:w.Threshold], o).JSON()
			}
			return "malformed statement", o.JSON()
		}
		var o Obj
		switch r.Intn(4) {
		case 0:
			o = w.MakeSTH(w.L[1], minute%60, "a tree")
		case 1:
			o = w.SimpleREV(w.C[1], minute%60, 5, 9)
		case 2:
			o = w.MakeACC(w.M[r.Intn(len(w.M))], w.L[1], minute%60)
		default:
			o = MakeCON(w.MakeSTH(w.L[1], minute%60, "a"), w.MakeSTH(w.L[1], minute%60, "b"), minute%60)
		}
		if IsInit(o.Type) && r.Intn(3) > 0 {
			o = w.MakeFull(w.G[:w.Threshold], o)
		}
		return "bent " + TypeName(o.Type), Bent(r, o.JSON())
	}
	b.draw = func(r *rand.Rand, path string) (string, []byte) {
		if path == "/monitor/get-update" {
			j, _ := json.Marshal([]string{"0", "5", "59", "60", "-1", "", "x", "007", "１", "1e1", "..", "../..", "00", P2(Minute()), "\x00"}[r.Intn(15)])
			return "odd update request", j
		}
		return draw(r)
	}
	for _, e := range []string{w.L[1], w.C[1]} {
		seed := c.Rng.Int63()
		l.Answer(e, func(int) (int, []byte) {
			l.C.Count("hostile answers", 1)
			seed++
			r := rand.New(rand.NewSource(seed))
			st := []int{200, 200, 200, 200, 404, 500, 204, 301}[r.Intn(8)]
			if r.Intn(3) == 0 {
				return st, Garbage(r)
			}
			_, body := draw(r)
			return st, body
		})
	}
	periods := 2
	for k := 0; k < periods; k++ {
		m := l.Min + k
		for _, s := range []int{c.Rng.Intn(5), 5 + c.Rng.Intn(5), 10 + c.Rng.Intn(9)} {
			At(m, float64(s))
			b.fire(c.Rng.Intn(12))
		}
		At(m, 19)
		l.Endorse(m, w.L[1], w.C[1])
		b.fire(c.Rng.Intn(10))
		At(m, []float64{39.9, 40, 40.1, 42}[c.Rng.Intn(4)])
		b.fire(c.Rng.Intn(10))
		At(m, 45)
		u := l.Update(k)
		if c.Failed() {
			return
		}
		for _, e := range []string{w.L[0], w.C[0]} {
			want := l.Statement(e, m)
			if os := u.About(e); len(os) != 1 || os[0].Content() != want.Content() {
				c.Fail("period %d: with malformed input the update holds %v about %s instead of its endorsed statement", k, os, e)
			}
			if q := l.Queries(e, time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(m)*time.Minute)); q != 1 {
				c.Fail("period %d: with malformed input %s was queried %d times", k, e, q)
			}
			for _, ev := range l.Sent(ACC_INIT) {
				if ev.Obj.Payload[0] == e {
					c.Fail("period %d: with malformed input the monitor accused %s", k, e)
				}
			}
		}
	}
	c.Nontrivial(fmt.Sprintf("monitor/%s/%d", t, c.Rng.Int63()))
}

func hostileCA(c *Case, n *Net) {
	l := newCAlab(c, n, 2, 1+c.Rng.Intn(2))
	w := l.w
	w2 := &World2{World: w}
	b := &barrage{c: c, n: n, to: l.id, paths: []string{"/CA/receive-sth", "/CA/receive-poi", "/ctng/v2/get-revocation"}}
	periods := 2
	for k := 0; k < periods; k++ {
		m := l.min + k
		At(m, 4)
		pre := []*x509.Certificate{}
		have := map[string]bool{}
		for _, x := range l.submitted(m)[w.L[0]] {
			if !have[string(x.SubjectKeyId)] {
				pre = append(pre, x)
				have[string(x.SubjectKeyId)] = true
			}
		}
		if len(pre) == 0 {
			c.Fail("period %d: with malformed input nothing was handed to %s", k, w.L[0])
			return
		}
		other := ""
		if c.Rng.Intn(2) == 0 {
			other = "somebody else"
		}
		tr := l.tree(w.L[0], pre, m, other)
		b.draw = func(r *rand.Rand, path string) (string, []byte) {
			if path == "/CA/receive-poi" || r.Intn(4) == 0 {
				p := tr.poi(pre[r.Intn(len(pre))])
				if r.Intn(3) == 0 {
					p.LoggerID = w.L[1]
				}
				switch r.Intn(5) {
				case 0:
					p.Poi = &Proof{}
				case 1:
					p.Poi = nil
				case 2:
					x := *p.Poi
					x.Siblings = append(append([][]byte{}, x.Siblings...), make([][]byte, r.Intn(200))...)
					p.Poi = &x
				}
				j, _ := json.Marshal(p)
				return "bent proof", Bent(r, j)
			}
			for {
				o := tr.sth
				if r.Intn(2) == 0 {
					o = w2.Malicious(r, w.L[1], w.C[1], "", m+1)
					if r.Intn(2) == 0 {
						return "malformed statement", o.JSON()
					}
				}
				x := Bent(r, o.JSON())
				var y Obj
				if json.NewDecoder(bytes.NewReader(x)).Decode(&y) != nil || w.Valid(y) != nil || y.Payload[0] != w.L[0] {
					return "bent tree head", x
				}
			}
		}
		b.fire(c.Rng.Intn(15))
		n.Post(w.L[0], l.id, "/CA/receive-sth", tr.sth.JSON())
		b.fire(c.Rng.Intn(15))
		want := map[string]map[string]Obj{}
		for _, x := range pre {
			j, _ := json.Marshal(tr.poi(x))
			n.Post(w.L[0], l.id, "/CA/receive-poi", j)
			want[string(x.SubjectKeyId)] = map[string]Obj{w.L[0]: tr.sth}
		}
		b.fire(c.Rng.Intn(15))
		At(m, 30)
		l.compare(want, pre, fmt.Sprintf("period %d, with malformed input", k))
		At(m, []float64{40, 41, 41.1, 42}[c.Rng.Intn(4)])
		b.fire(c.Rng.Intn(15))
		At(m+1, 1.5)
		st, body := n.Do(w.M[0], l.id, "GET", "/ctng/v2/get-revocation", nil)
		var o Obj
		if st != 200 || json.Unmarshal(body, &o) != nil || o.Type != REV_INIT || o.Signer != l.id || o.Period != P2(m+1) || w.Valid(o) != nil {
			c.Fail("with malformed input the CA answered with %d %.200q in period %s", st, body, P2(m+1))
		}
		if c.Failed() {
			return
		}
	}
	c.Nontrivial(fmt.Sprintf("ca/%d", c.Rng.Int63()))
}

func hostileLogger(c *Case, n *Net) {
	cas := 1 + c.Rng.Intn(3)
	l := newLoglab(c, n, cas, false)
	w := l.w
	b := &barrage{c: c, n: n, to: l.id, paths: []string{"/Logger/receive-precerts", "/Logger/receive-precerts", "/ctng/v2/get-sth"}}
	var mu sync.Mutex
	b.draw = func(r *rand.Rand, path string) (string, []byte) {
		mu.Lock()
		defer mu.Unlock()
		for {
			p := l.bad()
			if len(p.der) > 0 && r.Intn(3) == 0 {
				p.what = "bent precertificate"
				i, j := r.Intn(len(p.der)), r.Intn(len(p.der))
				p.der[i], p.der[j] = p.der[j], byte(r.Intn(256))
			}
			if _, ok := l.admissible(p.der); !ok {
				return p.what, p.der
			}
		}
	}
	anonymous := false
	weird := func() posted {
		l.serial++
		ca := l.heard[c.Rng.Intn(len(l.heard))]
		s := CertSpec{Subject: fmt.Sprintf("weird %d", l.serial), Issuer: ca, Serial: l.serial, Key: c.Rng.Intn(30), RID: int(l.serial), SubjectID: []byte(fmt.Sprintf("weird %d", l.serial))}
		what := ""
		switch c.Rng.Intn(6) {
		case 0:
			what, s.EC = "elliptic curve key", true
		case 1:
			what, s.NoExt = "no CTng extension", true
		case 2:
			what, s.RawExt = "CTng extension of garbage", Garbage(c.Rng)
			if len(s.RawExt) == 0 || len(s.RawExt) > 2000 {
				s.RawExt = []byte("x")
			}
		case 3:
			what, s.RID = "negative revocation number", -5
		case 4:
			what, s.SubjectID, s.NoID = "no key identifier", nil, true
			anonymous = true
		case 5:
			what, s.Subject = "long name", fmt.Sprintf("%0500d", l.serial)
		}
		c.Count("weird precertificates", 1)
		return posted{der: s.DER(w), subject: s.Subject, issuer: ca, ski: string(s.SubjectID), what: what, good: true}
	}
	periods := 2
	for k := 0; k < periods; k++ {
		for _, s := range []float64{1 + float64(c.Rng.Intn(18)), 20 + float64(c.Rng.Intn(19)), []float64{40, 40.05, 45, 55}[c.Rng.Intn(4)]} {
			At(l.min+k, s)
			b.fire(c.Rng.Intn(10))
			for i := c.Rng.Intn(4); i > 0; i-- {
				p := l.cert()
				if c.Rng.Intn(3) == 0 {
					p = weird()
				}
				if q := l.post(p); q.status != 200 {
					c.Fail("period %d: a precertificate (%s) of a CA was answered with %d", k, p.what, q.status)
				}
				b.fire(c.Rng.Intn(3))
			}
			st, body := n.Do(w.M[0], l.id, "GET", "/ctng/v2/get-sth", Garbage(c.Rng))
			var o Obj
			if st != 200 || json.Unmarshal(body, &o) != nil || k > 0 && (o.Type != STH_INIT || o.Period != P2(l.min+k) || w.Valid(o) != nil) {
				c.Fail("period %d: with malformed input the logger answered with %d %.200q", k, st, body)
			}
		}
	}
	At(l.min+periods, 39)
	if anonymous { // nobody can be told a proof for these; the others still can
		l.judgeOthers(periods)
	} else {
		l.judge(periods, true)
	}
	c.Nontrivial(fmt.Sprintf("logger/%d/%d", cas, c.Rng.Int63()))
}

// judgeOthers demands a proof for every admitted precertificate that has a key identifier.
func (l *loglab) judgeOthers(periods int) {
	ts := l.trees(periods)
	for _, p := range l.posts {
		k, between := treeOf(p.at)
		if p.status != 200 || p.ski == "" || k >= periods {
			continue
		}
		ok := false
		for _, j := range []int{k, k - 1} {
			if j < 0 || j != k && !between {
				continue
			}
			for _, q := range ts[j].pois {
				_, _, roots, _, _ := ts[j].sths[q.to].ParseSTH()
				root, _ := hex.DecodeString(roots)
				ok = ok || q.to == p.issuer && string(q.SubjectKeyId) == p.ski && Included(RawSubject(p.subject), q.Poi, root)
			}
		}
		if !ok {
			l.c.Fail("period %d: with malformed input no proof was sent for the precertificate of %s", k, p.subject)
		}
	}
}

func hostileClient(c *Case, n *Net) {
	w := NewWorld(c.Dir, LabTopology(c))
	w2 := &World2{World: w}
	cl := NewClient(w, c.Dir, false)
	gs := w.G[:w.Threshold]
	chain, evil := NewRevChain(w, w.C[0], 2048), NewRevChain(w, w.C[1], 2048)
	start := c.Rng.Intn(60)
	r := c.Rng
	var good []CertSpec
	revoked := map[int]bool{}
	var sths []Obj
	for k := 0; k < 3; k++ {
		p := (start + k) % 60
		subs := [][]byte{RawSubject(fmt.Sprintf("a %d", k)), RawSubject(fmt.Sprintf("b %d", k)), RawSubject("c")}
		root, proofs := Tree(subs)
		sth := w.MakeSTHRoot(w.L[0], p, hex.EncodeToString(root), len(subs))
		sths = append(sths, sth)
		rid := r.Intn(40)
		revoked[rid] = true
		u := Update{MonitorID: w.M[0], Period: P2(p), STHs: []Obj{w.MakeFull(gs, sth)}, REVs: []Obj{w.MakeFull(gs, chain.Next(p, uint(rid)))}}
		hostile := func(times int) {
			for ; times > 0; times-- {
				x := u
				name := "bent update"
				x.STHs, x.REVs = append([]Obj{}, u.STHs...), append([]Obj{}, u.REVs...)
				switch r.Intn(4) {
				case 0: // a malformed statement of somebody, endorsed by gossipers who do not look into it
					o := w2.Malicious(r, w.L[1], w.C[1], "", p)
					name = "endorsed malformed statement"
					switch Kind(o.Type) {
					case "STH":
						x.STHs = append(x.STHs, w.MakeFull(gs, o))
					case "REV":
						x.REVs = append(x.REVs, w.MakeFull(gs, o))
					default:
						x.POM_CONs = append(x.POM_CONs, o)
					}
				case 1:
					x.REVs = append(x.REVs, w.MakeFull(gs, evil.Next(p, uint(r.Intn(100)))))
					x.POM_CONs = append(x.POM_CONs, MakeCON(w.MakeSTH(w.L[1], p, "a"), w.MakeSTH(w.L[1], p, "b"), p))
				}
				j, _ := json.Marshal(x)
				if name == "bent update" {
					j = Bent(r, j)
				} else if r.Intn(8) == 0 {
					j = Garbage(r)
				}
				var mu monitor.ClientUpdate
				if json.Unmarshal(j, &mu) != nil {
					c.Count("unreadable updates", 1)
					continue
				}
				c.Count("hostile: "+name, 1)
				cl.Ctx.HandleUpdate(mu, true, r.Intn(4) == 0)
			}
			// certificates
			for i := r.Intn(6); i > 0; i-- {
				s := CertSpec{Subject: "c", Issuer: []string{w.C[0], w.C[1], "", "nobody"}[r.Intn(4)], RID: []int{0, -1, 1 << 40, 7, -1 << 60}[r.Intn(5)], EC: r.Intn(5) == 0, NoExt: r.Intn(8) == 0}
				for j := r.Intn(3); j > 0; j-- {
					o := sths[r.Intn(len(sths))]
					if r.Intn(2) == 0 {
						o = w2.Malicious(r, w.L[1], w.C[1], "", p)
					}
					pr := proofs[2]
					inf := Info{STH: o, POI: POIMsg{Poi: &pr, LoggerID: o.Signer}}
					switch r.Intn(4) {
					case 0:
						inf.POI.Poi = nil
					case 1:
						inf.POI.Poi = &Proof{Siblings: make([][]byte, r.Intn(70)), Path: uint32(r.Int63())}
					}
					s.Infos = append(s.Infos, inf)
				}
				switch r.Intn(3) {
				case 0:
					var v any
					j, _ := json.Marshal(Ext{LoggerInformation: s.Infos})
					j = Bent(r, j)
					if json.Unmarshal(j, &v) == nil || r.Intn(2) == 0 {
						s.RawExt = append([]byte{4, 0x83, byte(len(j) >> 16), byte(len(j) >> 8), byte(len(j))}, j...)
					}
				case 1:
					s.RawExt = append([]byte("x"), Garbage(r)...)
				}
				der := s.DER(w)
				x, err := x509.ParseCertificate(der)
				if err != nil {
					continue
				}
				if s.RawExt == nil && r.Intn(3) == 0 {
					x = &x509.Certificate{Raw: x.Raw, Extensions: x.Extensions, Subject: x.Subject, Issuer: x.Issuer}
				}
				c.Count("hostile certificates", 1)
				cl.Ctx.VerifyCTngextension(x)
			}
		}
		hostile(r.Intn(8))
		if !cl.Apply(u) {
			c.Fail("period %d: after malformed input the client refused a good update", k)
			return
		}
		for i, name := range []string{fmt.Sprintf("a %d", k), fmt.Sprintf("b %d", k)} {
			pr := proofs[i]
			good = append(good, CertSpec{Subject: name, Issuer: w.C[0], RID: r.Intn(40), Key: i, Infos: []Info{{STH: sth, POI: POIMsg{Poi: &pr, LoggerID: w.L[0]}}}})
		}
		hostile(r.Intn(8))
		for _, s := range good {
			if got := cl.Ctx.VerifyCTngextension(s.Cert(w)); got == revoked[s.RID] {
				c.Fail("period %d: after malformed input the client's verdict on a certificate is %v, revoked: %v", k, got, revoked[s.RID])
			}
			c.Count("honest verdicts", 1)
		}
	}
	c.Nontrivial(fmt.Sprintf("client/%s/%d", P2(start), c.Rng.Int63()))
}
