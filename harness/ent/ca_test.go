package ent

import (
	"bytes"
	"crypto"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/CA"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// calab is a CA with loggers played by the harness.
type calab struct {
	c    *Case
	n    *Net
	w    *World
	id   string
	ctx  *CA.CAContext
	min  int
	down map[string]bool // loggers that refuse
	odd  map[string]bool // loggers that answer with an error
	hang map[string]bool // loggers that never answer
}

// newCAlab starts a CA in the minute before l.min, so that its periods begin a second after the minute.
func newCAlab(c *Case, n *Net, loggers, certs int) *calab {
	l := &calab{c: c, n: n, w: NewWorld(c.Dir, Topology{N: 2, Threshold: 2, Loggers: loggers, CAs: 2, Certs: certs}), down: map[string]bool{}, odd: map[string]bool{}, hang: map[string]bool{}}
	l.id = l.w.C[0]
	start := []int{0, 3, 57, 58}[c.Rng.Intn(4)]
	At(start, []float64{7, 30, 59}[c.Rng.Intn(3)])
	l.min = start + 1
	for _, g := range l.w.L {
		n.Handle(g, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if l.odd[g] {
				http.Error(w, "no", 500)
			}
		}))
	}
	l.ctx = StartRealCA(c, l.w, 0, nil)
	return l
}

// submitted are the precertificates sent to the loggers in the minute, by logger, in order.
func (l *calab) submitted(minute int) map[string][]*x509.Certificate {
	out := map[string][]*x509.Certificate{}
	for _, e := range l.n.Events() {
		if e.From != l.id || e.Path != "/Logger/receive-precerts" || minuteOf(e.At) != minute {
			continue
		}
		x, err := x509.ParseCertificate(e.Body)
		if err != nil {
			l.c.Fail("the CA sent %s a precertificate that is not well formed: %v", e.To, err)
			continue
		}
		out[e.To] = append(out[e.To], x)
	}
	return out
}

func minuteOf(t time.Time) int {
	return int(t.Sub(time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)) / time.Minute)
}

func (l *calab) signedByCA(x *x509.Certificate) bool {
	h := sha256.Sum256(x.RawTBSCertificate)
	return x.Issuer.CommonName == l.id && rsa.VerifyPKCS1v15(&l.w.RSA[l.id].PublicKey, crypto.SHA256, h[:], x.Signature) == nil
}

// issued is what the CA would issue now.
func (l *calab) issued() []*x509.Certificate { return CA.SignAllCerts(l.ctx) }

// TestC17: unique revocation numbers, and every precertificate goes to every logger.
func TestC17(t *testing.T) {
	RunProp(t, "C17", func(r *Run) {
		n := r.N(110, 1500)
		for i := 0; i < n; i++ {
			r.Case(fmt.Sprintf("issue-%d", i), func(c *Case) {
				Bubble(c, func(n *Net) { issue(c, n, 1+c.Rng.Intn(3), 2+c.Rng.Intn(3)) })
			})
		}
		r.Case("hundreds", func(c *Case) {
			Bubble(c, func(n *Net) { issue(c, n, r.N(45, 90), r.N(6, 15)) })
		})
		for i := 0; i < r.N(2, 20); i++ {
			r.Case(fmt.Sprintf("many-%d", i), func(c *Case) {
				Bubble(c, func(n *Net) { issue(c, n, 20+c.Rng.Intn(r.N(8, 120)), 2+c.Rng.Intn(2)+i%2) })
			})
		}
	})
}

func issue(c *Case, n *Net, certs, periods int) {
	loggers := 1 + c.Rng.Intn(4)
	// a CA late in its life has issued many before
	before := []int{0, 0, 0, 60, 99, 124, 250, 509, 998, 4094, 9997, 32765, 65532, 99998, 131070, 524285, 999980}[c.Rng.Intn(17)]
	if certs > 3 {
		before = 0
	}
	if before > 0 { // enough to get past the next round number
		periods = max(periods, 2+9/certs)
	}
	l := newCAlab(c, n, loggers, certs)
	slow := []time.Duration{0, 0, 100 * time.Millisecond, time.Second}[c.Rng.Intn(4)]
	seed := c.Rng.Int63()
	jit := Jitter(seed, max(slow, 1))
	shape := ""
	var mu sync.Mutex
	n.Policy = func(from, to, path string, body []byte) Fate {
		mu.Lock()
		defer mu.Unlock()
		f := jit(from, to, path, body)
		f.Drop, f.Hang = l.down[to], l.hang[to]
		return f
	}
	seen := map[int]string{}
	for k := 0; k < periods; k++ {
		At(l.min+k, 0.5)
		if k == 1 {
			l.ctx.CertCounter += before
		}
		mu.Lock()
		for _, g := range l.w.L {
			l.down[g], l.odd[g], l.hang[g] = c.Rng.Intn(4) == 0, c.Rng.Intn(5) == 0, c.Rng.Intn(8) == 0
			if l.hang[g] {
				shape += "h"
			} else if l.down[g] {
				shape += "d"
			} else if l.odd[g] {
				shape += "e"
			} else {
				shape += "u"
			}
		}
		mu.Unlock()
		shape += "|"
		At(l.min+k, 40.5)
		sub := l.submitted(l.min + k)
		var first map[string]*x509.Certificate
		for _, g := range l.w.L {
			ders := map[string]*x509.Certificate{}
			for _, x := range sub[g] {
				ders[string(x.Raw)] = x
			}
			if len(ders) != certs {
				c.Fail("period %d: %s was sent %d different precertificates instead of %d", k, g, len(ders), certs)
				return
			}
			if first == nil {
				first = ders
			}
			for d, x := range ders {
				if first[d] == nil {
					c.Fail("period %d: %s was sent a precertificate that others were not", k, g)
				}
				if !l.signedByCA(x) {
					c.Fail("period %d: %s was sent a precertificate not signed by the CA: %v", k, g, x.Subject)
				}
				c.Count("submissions", 1)
			}
		}
		subjects := map[string]*x509.Certificate{}
		rids := map[string]int{}
		for _, x := range first {
			e, num, err := ParseExt(x)
			if num != 1 || err != nil {
				c.Fail("period %d: a precertificate has %d extensions with a revocation number: %v", k, num, err)
				return
			}
			rid := e.SequenceNumber.RID
			if s, ok := seen[rid]; ok {
				c.Fail("period %d: the revocation number %d of %s is that of %s", k, rid, x.Subject.CommonName, s)
			}
			if rid < 0 || rid >= 1000000 {
				c.Fail("period %d: revocation number %d cannot be revoked", k, rid)
			}
			seen[rid] = fmt.Sprintf("%s (period %d)", x.Subject.CommonName, k)
			if subjects[string(x.SubjectKeyId)] != nil {
				c.Fail("period %d: two precertificates have the same key identifier", k)
			}
			subjects[string(x.SubjectKeyId)] = x
			rids[string(x.SubjectKeyId)] = rid
			c.Count("revocation numbers", 1)
		}
		// give it some logger information, then look at what it issues
		if c.Rng.Intn(2) == 0 {
			l.inform(l.w.L[0], first, l.min+k)
		}
		out := l.issued()
		if len(out) != certs {
			c.Fail("period %d: of %d precertificates %d are issued", k, certs, len(out))
		}
		for _, x := range out {
			p := subjects[string(x.SubjectKeyId)]
			if p == nil {
				c.Fail("period %d: a certificate for %s was issued without a precertificate, or twice", k, x.Subject)
				continue
			}
			delete(subjects, string(x.SubjectKeyId))
			e, num, err := ParseExt(x)
			if num != 1 || err != nil || e.SequenceNumber.RID != rids[string(x.SubjectKeyId)] || !bytes.Equal(x.RawSubject, p.RawSubject) {
				c.Fail("period %d: the certificate for %s has revocation number %d, its precertificate is for %s and has %d (%d extensions, %v)", k, x.Subject, e.SequenceNumber.RID, p.Subject, rids[string(x.SubjectKeyId)], num, err)
			}
			if pk, ok := x.PublicKey.(*rsa.PublicKey); !ok || !pk.Equal(p.PublicKey) {
				c.Fail("period %d: the certificate for %s has another key than its precertificate", k, x.Subject)
			}
			if !l.signedByCA(x) {
				c.Fail("period %d: the certificate for %s is not signed by the CA", k, x.Subject)
			}
			c.Count("certificates issued", 1)
		}
		if c.Failed() {
			return
		}
	}
	l.resubmit(&mu)
	c.Desc("%d loggers, %d certificates in each of %d periods after %d, availability %s", loggers, certs, periods, before, shape)
	c.Nontrivial(fmt.Sprintf("l%d/c%d/%d/%s/%v", loggers, certs, before, shape, slow))
}

// resubmit has the CA submit one more precertificate, to a list of loggers some of which cannot be reached.
func (l *calab) resubmit(mu *sync.Mutex) {
	spec := CertSpec{Subject: "resubmitted", Issuer: l.id, Key: 1, Serial: 7, RID: 3}
	x := spec.Cert(l.w)
	list := Shuffled(l.c, l.w.L)
	mu.Lock()
	for _, g := range list {
		l.down[g], l.odd[g], l.hang[g] = l.c.Rng.Intn(3) == 0, l.c.Rng.Intn(5) == 0, false
	}
	mu.Unlock()
	from := len(l.n.Events())
	CA.Send_Signed_PreCert_To_Loggers(l.ctx, x, list)
	got := map[string]bool{}
	for _, e := range l.n.Events()[from:] {
		if e.From == l.id && e.Path == "/Logger/receive-precerts" && bytes.Equal(e.Body, x.Raw) {
			got[e.To] = true
		}
	}
	for _, g := range list {
		if !got[g] {
			l.c.Fail("%s was not sent a precertificate that was to be submitted to %v (down: %v)", g, list, l.down)
		}
		l.c.Count("submissions", 1)
	}
}

// inform plays a logger that puts the precertificates in a tree and tells the CA.
func (l *calab) inform(g string, certs map[string]*x509.Certificate, minute int) {
	list := []*x509.Certificate{}
	for _, x := range certs {
		list = append(list, x)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].Subject.CommonName < list[j].Subject.CommonName })
	t := l.tree(g, list, minute, "")
	l.n.Post(g, l.id, "/CA/receive-sth", t.sth.JSON())
	for _, x := range list {
		b, _ := json.Marshal(t.poi(x))
		l.n.Post(g, l.id, "/CA/receive-poi", b)
	}
}

// ltree is a tree of a logger that the harness plays.
type ltree struct {
	logger string
	sth    Obj
	root   []byte
	proofs map[string]Proof // by key identifier
}

func (l *calab) tree(g string, certs []*x509.Certificate, minute int, other string) *ltree {
	t := &ltree{logger: g, proofs: map[string]Proof{}}
	data := [][]byte{}
	for _, x := range certs {
		data = append(data, x.RawSubject)
	}
	if other != "" {
		data = append(data, RawSubject(other))
	}
	root, proofs := Tree(data)
	for i, x := range certs {
		t.proofs[string(x.SubjectKeyId)] = proofs[i]
	}
	t.root = root
	t.sth = l.w.MakeSTHRoot(g, minute+1, hex.EncodeToString(root), len(data))
	return t
}

func (t *ltree) poi(x *x509.Certificate) POIMsg {
	p := t.proofs[string(x.SubjectKeyId)]
	return POIMsg{Poi: &p, SubjectKeyId: x.SubjectKeyId, Issuer: x.Issuer.CommonName, LoggerID: t.logger}
}

// TestC16: only verified logger information, once each.
func TestC16(t *testing.T) {
	RunProp(t, "C16", func(r *Run) {
		n := r.N(130, 2000)
		for i := 0; i < n; i++ {
			r.Case(fmt.Sprintf("attach-%d", i), func(c *Case) {
				Bubble(c, func(n *Net) { attach(c, n) })
			})
		}
	})
}

type bad struct {
	name string
	path string
	body []byte
}

func attach(c *Case, n *Net) {
	loggers, certs, periods := 1+c.Rng.Intn(4), 1+c.Rng.Intn(3), 1+c.Rng.Intn(2)
	l := newCAlab(c, n, loggers, certs)
	kinds := map[string]bool{}
	var old []*ltree
	for k := 0; k < periods; k++ {
		At(l.min+k, 5+float64(c.Rng.Intn(10)))
		pre := []*x509.Certificate{}
		have := map[string]bool{}
		for _, x := range l.submitted(l.min + k)[l.w.L[0]] {
			if !have[string(x.SubjectKeyId)] {
				pre = append(pre, x)
				have[string(x.SubjectKeyId)] = true
			}
		}
		if len(pre) != certs {
			c.Fail("period %d: %d precertificates were sent to %s instead of %d", k, len(pre), l.w.L[0], certs)
			return
		}
		trees := map[string]*ltree{}
		for i, g := range l.w.L {
			other := ""
			if c.Rng.Intn(2) == 0 {
				other = fmt.Sprintf("somebody else %d", i)
			}
			trees[g] = l.tree(g, pre, l.min+k, other)
		}
		// what each certificate has to carry: by key identifier, logger -> tree head
		want := map[string]map[string]Obj{}
		for _, x := range pre {
			want[string(x.SubjectKeyId)] = map[string]Obj{}
		}
		told := map[string]bool{} // loggers whose tree head the CA has
		rounds := 1 + c.Rng.Intn(3)
		for j := 0; j < rounds; j++ {
			// tree heads first, with forgeries among them
			msgs := []bad{}
			for _, g := range Shuffled(c, l.w.L) {
				if c.Rng.Intn(4) > 0 {
					if c.Rng.Intn(2) == 0 {
						msgs = append(msgs, l.badSTH(trees[g]))
					}
					for m := 0; m < 1+c.Rng.Intn(2); m++ {
						msgs = append(msgs, bad{"", "/CA/receive-sth", trees[g].sth.JSON()})
					}
					told[g] = true
				} else if c.Rng.Intn(2) == 0 {
					msgs = append(msgs, l.badSTH(trees[g]))
				}
			}
			l.deliver(msgs, kinds)
			// then proofs, good and bad ones
			msgs = nil
			for _, g := range Shuffled(c, l.w.L) {
				t := trees[g]
				for _, x := range pre {
					if c.Rng.Intn(3) > 0 {
						b, _ := json.Marshal(t.poi(x))
						for m := 0; m < 1+c.Rng.Intn(3); m++ {
							msgs = append(msgs, bad{"", "/CA/receive-poi", b})
						}
						if told[g] {
							want[string(x.SubjectKeyId)][g] = t.sth
						} else {
							kinds["proof without tree head"] = true
						}
					}
					for m := c.Rng.Intn(3); m > 0; m-- {
						if b := l.badPOI(t, x, pre, trees, old); b.name != "" {
							msgs = append(msgs, b)
						}
					}
				}
			}
			c.Rng.Shuffle(len(msgs), func(a, b int) { msgs[a], msgs[b] = msgs[b], msgs[a] })
			l.deliver(msgs, kinds)
			l.compare(want, pre, fmt.Sprintf("period %d, round %d", k, j))
			if c.Failed() {
				return
			}
			time.Sleep(time.Duration(c.Rng.Intn(5)) * time.Second)
		}
		// a logger that changes its mind gets no second information in
		if c.Rng.Intn(2) == 0 {
			g := l.w.L[c.Rng.Intn(len(l.w.L))]
			t2 := l.tree(g, pre, l.min+k, "changed its mind")
			l.n.Post(g, l.id, "/CA/receive-sth", t2.sth.JSON())
			for _, x := range pre {
				b, _ := json.Marshal(t2.poi(x))
				l.n.Post(g, l.id, "/CA/receive-poi", b)
				if _, ok := want[string(x.SubjectKeyId)][g]; !ok {
					want[string(x.SubjectKeyId)][g] = t2.sth
				}
			}
			kinds["second tree head"] = true
			l.compare(want, pre, fmt.Sprintf("period %d, after a second tree head", k))
		}
		At(l.min+k, 40.5)
		l.compare(want, pre, fmt.Sprintf("period %d, at its end", k))
		old = nil
		for _, t := range trees {
			old = append(old, t)
		}
		sort.Slice(old, func(i, j int) bool { return old[i].logger < old[j].logger })
	}
	c.Desc("%d loggers, %d certificates, %d periods, bad input: %v", loggers, certs, periods, Keys(kinds))
	c.Nontrivial(fmt.Sprintf("l%d/c%d/p%d/%v", loggers, certs, periods, Keys(kinds)))
}

// deliver posts the messages one after another or at the same time.
func (l *calab) deliver(msgs []bad, kinds map[string]bool) {
	together := l.c.Rng.Intn(2) == 0
	var wg sync.WaitGroup
	for _, m := range msgs {
		if m.name != "" {
			kinds[m.name] = true
			l.c.Count("bad: "+m.name, 1)
		} else {
			l.c.Count("good deliveries", 1)
		}
		if !together {
			l.n.Post("logger", l.id, m.path, m.body)
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			l.n.Post("logger", l.id, m.path, m.body)
		}()
	}
	wg.Wait()
}

func (l *calab) badSTH(t *ltree) bad {
	c := l.c
	o := t.sth
	name := ""
	switch c.Rng.Intn(9) {
	case 0:
		ms := []Mut{}
		for _, m := range l.w.Mutations(o, c.Rng) {
			if l.w.Valid(m.Obj) != nil {
				ms = append(ms, m)
			}
		}
		if len(ms) == 0 {
			return bad{"garbage tree head", "/CA/receive-sth", []byte("[]")}
		}
		m := ms[c.Rng.Intn(len(ms))]
		o, name = m.Obj, "tree head: "+m.Name
	case 1:
		o = l.w.MakeSTHRoot(t.logger, 7, hex.EncodeToString(make([]byte, 32)), 1)
		o.Signature[0], name = RSASigString([]byte(o.Content()), l.w.Foreign, t.logger), "tree head signed with a foreign key"
	case 2:
		o = l.w.MakeSTHRoot(t.logger, 7, hex.EncodeToString(make([]byte, 32)), 1)
		o.Signature[0], name = t.sth.Signature[0], "tree head with the signature of another"
	case 3:
		o, name = l.w.SimpleREV(l.w.C[1], 7, 3), "a revocation statement as a tree head"
	case 4:
		o, name = l.w.MakeACC(l.w.M[0], t.logger, 7), "an accusation as a tree head"
	case 5:
		other := l.w.MakeSTHRoot(t.logger, 7, hex.EncodeToString(make([]byte, 32)), 1)
		o, name = l.w.MakeFull(l.w.G, other), "an endorsed tree head of another root"
		if c.Rng.Intn(2) == 0 {
			o.Signer, name = t.logger, "an endorsed tree head of another root that names the logger as its signer"
		}
	case 6:
		other := l.w.MakeSTHRoot(t.logger, 7, hex.EncodeToString(make([]byte, 32)), 1)
		o, name = l.w.MakeFrag(l.w.G[0], other), "a partial endorsement of a tree head of another root"
		if c.Rng.Intn(2) == 0 {
			o.Signer, name = t.logger, "a partial endorsement of another root that names the logger as its signer"
		}
	case 7:
		o, name = l.w.MakeFull(l.w.G, o), "the endorsed tree head"
	case 8:
		return bad{"garbage tree head", "/CA/receive-sth", []byte(`{"type":`)}
	}
	return bad{name, "/CA/receive-sth", o.JSON()}
}

// badPOI makes a proof that proves nothing about a certificate of this CA.
func (l *calab) badPOI(t *ltree, x *x509.Certificate, pre []*x509.Certificate, trees map[string]*ltree, old []*ltree) bad {
	c := l.c
	p := t.poi(x)
	cp := Proof{Path: p.Poi.Path}
	for _, s := range p.Poi.Siblings {
		cp.Siblings = append(cp.Siblings, append([]byte{}, s...))
	}
	p.Poi = &cp
	name := ""
	switch c.Rng.Intn(10) {
	case 0:
		if len(pre) < 2 {
			return bad{}
		}
		y := pre[c.Rng.Intn(len(pre))]
		if y == x {
			return bad{}
		}
		q := t.proofs[string(y.SubjectKeyId)]
		p.Poi, name = &q, "proof of another certificate"
	case 1:
		s := cp.Siblings[c.Rng.Intn(len(cp.Siblings))]
		s[c.Rng.Intn(len(s))] ^= 1 << c.Rng.Intn(8)
		name = "flipped bit in a sibling"
	case 2:
		cp.Path ^= 1 << c.Rng.Intn(len(cp.Siblings))
		name = "other path"
	case 3:
		cp.Siblings = cp.Siblings[:len(cp.Siblings)-1]
		name = "sibling missing"
	case 4:
		cp.Siblings = append(cp.Siblings, make([]byte, 32))
		name = "one sibling more"
	case 5:
		for _, g := range Shuffled(c, l.w.L) {
			if g != t.logger {
				p.LoggerID = g
			}
		}
		name = "in another logger's name"
	case 6:
		p.LoggerID, name = "localhost:7999", "unknown logger"
	case 7:
		p.SubjectKeyId, name = []byte("unknown key"), "unknown key"
	case 8:
		p.Poi, name = nil, "no proof"
	case 9:
		if len(old) == 0 {
			return bad{"garbage proof", "/CA/receive-poi", []byte(`{"poi":{"Siblings":7}}`)}
		}
		o := old[c.Rng.Intn(len(old))]
		for _, q := range o.proofs {
			p.Poi = &q
			break
		}
		name = "proof from an earlier tree"
	}
	// it must not happen to be a proof
	if tr := trees[p.LoggerID]; tr != nil {
		for _, y := range pre {
			if bytes.Equal(y.SubjectKeyId, p.SubjectKeyId) && Included(y.RawSubject, p.Poi, tr.root) {
				return bad{}
			}
		}
	}
	b, _ := json.Marshal(p)
	return bad{name, "/CA/receive-poi", b}
}

// compare looks at what the CA would issue.
func (l *calab) compare(want map[string]map[string]Obj, pre []*x509.Certificate, when string) {
	c := l.c
	out := map[string]*x509.Certificate{}
	for _, x := range l.issued() {
		if out[string(x.SubjectKeyId)] != nil {
			c.Fail("%s: the CA holds two certificates with one key", when)
		}
		out[string(x.SubjectKeyId)] = x
	}
	for _, p := range pre {
		x := out[string(p.SubjectKeyId)]
		if x == nil {
			c.Fail("%s: the certificate of %s is gone", when, p.Subject)
			return
		}
		e, num, err := ParseExt(x)
		if num != 1 || err != nil {
			c.Fail("%s: the certificate of %s has %d extensions: %v", when, p.Subject, num, err)
			return
		}
		pe, _, _ := ParseExt(p)
		if !bytes.Equal(x.RawSubject, p.RawSubject) || e.SequenceNumber != pe.SequenceNumber {
			c.Fail("%s: the certificate of %s became one of %s, revocation number %d", when, p.Subject, x.Subject, e.SequenceNumber.RID)
		}
		got := []string{}
		for _, i := range e.LoggerInformation {
			got = append(got, i.STH.Signer)
			o, ok := want[string(p.SubjectKeyId)][i.STH.Signer]
			if !ok {
				c.Fail("%s: the certificate of %s has information of %s that was never proven", when, p.Subject, i.STH.Signer)
				continue
			}
			_, _, root, _, err := i.STH.ParseSTH()
			rb, _ := hex.DecodeString(root)
			if err != nil || l.w.Valid(i.STH) != nil || !bytes.Equal(i.STH.JSON(), o.JSON()) || i.POI.LoggerID != i.STH.Signer {
				c.Fail("%s: the certificate of %s has information of %s with another tree head: %v", when, p.Subject, i.STH.Signer, l.w.Valid(i.STH))
				continue
			}
			if !Included(p.RawSubject, i.POI.Poi, rb) {
				c.Fail("%s: the certificate of %s has information of %s that proves nothing", when, p.Subject, i.STH.Signer)
			}
			c.Count("informations verified", 1)
		}
		expect := []string{}
		for g := range want[string(p.SubjectKeyId)] {
			expect = append(expect, g)
		}
		sort.Strings(got)
		sort.Strings(expect)
		if strings.Join(got, " ") != strings.Join(expect, " ") {
			c.Fail("%s: the certificate of %s has information of %v, proven was %v", when, p.Subject, got, expect)
		}
	}
	if len(out) != len(pre) {
		c.Fail("%s: %d certificates instead of %d", when, len(out), len(pre))
	}
}
