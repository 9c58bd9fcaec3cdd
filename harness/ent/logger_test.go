// Package ent watches real loggers and CAs.
package ent

import (
	"bytes"
	"crypto"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/asn1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/Logger"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// posted is one precertificate given to the logger.
type posted struct {
	der     []byte
	subject string
	issuer  string
	ski     string
	at      time.Duration // since the logger's first period began
	what    string
	good    bool // it has to be admitted
	status  int
	again   bool // handed in before
}

// treeOf is the period whose tree a precertificate of this instant belongs to; between tells that either is right.
func treeOf(at time.Duration) (k int, between bool) {
	s := at - 40*time.Second
	if s < 0 {
		return 0, false
	}
	return int(s/time.Minute) + 1, s%time.Minute == 0
}

// loglab is a logger with CAs played by the harness.
type loglab struct {
	c      *Case
	n      *Net
	w      *World
	id     string
	cas    []string // the CAs it is configured with
	min    int      // minute of its first period
	mu     sync.Mutex
	posts  []*posted
	down   map[string]bool
	heard  []string // configured CAs that answer, or refuse, at once
	serial int64
	rng    *lockedRng
	recent []posted // good ones
}

type lockedRng struct {
	mu sync.Mutex
	f  func(int) int
}

func (r *lockedRng) Intn(n int) int { r.mu.Lock(); defer r.mu.Unlock(); return r.f(n) }

// span draws for how many periods a logger is watched.
func span(c *Case) int {
	if c.Rng.Intn(40) == 0 {
		return 60 + c.Rng.Intn(3) // the labels come again
	}
	return 1 + c.Rng.Intn(3)
}

func newLoglab(c *Case, n *Net, cas int, subset bool) *loglab {
	l := &loglab{c: c, n: n, w: NewWorld(c.Dir, Topology{N: 2, Threshold: 2, Loggers: 2, CAs: cas}), down: map[string]bool{}, rng: &lockedRng{f: c.Rng.Intn}}
	l.id = l.w.L[0]
	l.cas = l.w.C
	if subset && cas > 1 {
		l.cas = Shuffled(c, l.w.C)[:1+c.Rng.Intn(cas-1)]
		_, priv, _ := l.w.Cfg("L", 0)
		WriteJSON(priv, map[string]any{"Signer": l.id, "Port": Port(l.id), "CAlist": l.cas, "Monitorlist": l.w.M, "Gossiperlist": l.w.G})
	}
	start := []int{0, 3, 56, 57, 58, 59}[c.Rng.Intn(6)]
	At(start, []float64{0, 7, 30, 59}[c.Rng.Intn(4)])
	for _, ca := range l.w.C {
		if c.Rng.Intn(6) == 0 {
			l.down[ca] = true
		} else {
			n.Handle(ca, Stub)
		}
	}
	for i, ca := range l.cas {
		if c.Rng.Intn(6) == 0 && len(l.heard)+len(l.cas)-i > 1 { // it never answers, and has nothing to submit
			l.down[ca] = true
			n.Handle(ca, Silent)
		} else {
			l.heard = append(l.heard, ca)
		}
	}
	slow := []time.Duration{0, 0, 5 * time.Millisecond, 100 * time.Millisecond}[c.Rng.Intn(4)]
	if slow > 0 {
		n.Policy = Jitter(c.Rng.Int63(), slow)
	}
	now := time.Now().UTC()
	l.min = now.Hour()*60 + now.Minute()
	if now.Second() != 0 {
		l.min++
	}
	StartRealLogger(c, l.w, 0, func(x *Logger.LoggerContext) {
		if c.Rng.Intn(3) == 0 {
			x.Max_latency = 290
		}
	})
	return l
}

// since is the time since the logger's first period began.
func (l *loglab) since() time.Duration {
	return time.Since(time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(l.min) * time.Minute))
}

// post hands a precertificate in.
func (l *loglab) post(p posted) *posted {
	q := &p
	q.at = l.since()
	l.mu.Lock()
	l.posts = append(l.posts, q)
	l.mu.Unlock()
	q.status, _ = l.n.Post(p.issuer, l.id, "/Logger/receive-precerts", q.der)
	return q
}

// cert makes a precertificate one of its CAs may hand in.
func (l *loglab) cert() posted {
	c := l.c
	l.serial++
	ca := l.heard[l.rng.Intn(len(l.heard))]
	s := CertSpec{Subject: fmt.Sprintf("Testing Dummy %d", l.serial), Issuer: ca, Key: l.rng.Intn(30), Serial: l.serial, RID: int(l.serial), SubjectID: []byte(fmt.Sprintf("key of %d", l.serial))}
	switch l.rng.Intn(14) {
	case 8: // big
		s.Names = 1 + l.rng.Intn(200)
		if l.rng.Intn(4) == 0 {
			s.Names = 3000
		}
	case 9:
		s.CA = true
	case 10:
		s.Year = []int{1990, 2020}[l.rng.Intn(2)]
	case 11:
		s.EC = true
	case 0: // a name that an earlier one had, maybe at another CA
		s.Subject = fmt.Sprintf("Testing Dummy %d", 1+l.rng.Intn(int(l.serial)))
	case 1: // a key that an earlier one had
		s.SubjectID = []byte(fmt.Sprintf("key of %d", 1+l.rng.Intn(int(l.serial))))
	case 3, 12: // keys are not text, and of any length
		k := sha256.Sum256(s.SubjectID)
		s.SubjectID = k[:20]
		switch l.rng.Intn(4) {
		case 0:
			s.SubjectID = append(make([]byte, 70+l.rng.Intn(200)), k[:]...)
		case 1:
			s.SubjectID = k[:1]
		}
	case 2:
		s.Subject = strings.Repeat("x", l.rng.Intn(300)) + " ünï / " + s.Subject
	}
	c.Count("precertificates", 1)
	return posted{der: s.DER(l.w), subject: s.Subject, issuer: ca, ski: string(s.SubjectID), what: "good", good: true}
}

// admissible decides independently whether the logger has to admit these bytes.
func (l *loglab) admissible(der []byte) (*x509.Certificate, bool) {
	x, err := x509.ParseCertificate(der)
	if err != nil {
		return nil, false
	}
	ok := false
	for _, ca := range l.cas {
		ok = ok || ca == x.Issuer.CommonName
	}
	if !ok {
		return x, false
	}
	h := sha256.Sum256(x.RawTBSCertificate)
	return x, rsa.VerifyPKCS1v15(&l.w.RSA[x.Issuer.CommonName].PublicKey, crypto.SHA256, h[:], x.Signature) == nil
}

// bad makes something the logger must refuse.
func (l *loglab) bad() posted {
	for {
		p := l.badOnce()
		if p.der != nil {
			if _, ok := l.admissible(p.der); !ok {
				return p
			}
		}
	}
}

func (l *loglab) badOnce() (p posted) {
	w, r := l.w, l.rng
	l.serial++
	ca := l.heard[r.Intn(len(l.heard))]
	s := CertSpec{Subject: fmt.Sprintf("Evil %d", l.serial), Issuer: ca, Key: r.Intn(30), Serial: l.serial, RID: int(l.serial)}
	p = posted{subject: s.Subject, issuer: ca}
	like := "" // it may resemble one that is admitted
	if n := len(l.recent); n > 0 && r.Intn(2) == 0 {
		g := l.recent[n-1-r.Intn(min(n, 3))]
		s.SubjectID, like = []byte(g.ski), ", with the key identifier of a good one"
		if r.Intn(2) == 0 {
			s.Subject, s.Issuer, ca, like = g.subject, g.issuer, g.issuer, ", with the name and key identifier of a good one"
			p.subject, p.issuer = g.subject, g.issuer
		}
	}
	defer func() {
		if p.what != "" {
			p.what += like
		}
	}()
	outside := []string{}
	for _, x := range w.C {
		in := false
		for _, y := range l.cas {
			in = in || x == y
		}
		if !in {
			outside = append(outside, x)
		}
	}
	if r.Intn(8) == 0 { // made out like the CA's own
		s.Subject, s.CA = ca, true
		p.subject, like = ca, like+", in the CA's own name"
	}
	switch k := r.Intn(15); k {
	case 0:
		p.what, s.SignedBy = "foreign key under a CA's name", "nobody"
	case 1:
		if len(l.cas) < 2 {
			return p
		}
		p.what = "another CA's key under a CA's name"
		for s.SignedBy = ca; s.SignedBy == ca; {
			s.SignedBy = l.cas[r.Intn(len(l.cas))]
		}
	case 2:
		if len(outside) == 0 {
			return p
		}
		p.what, s.Issuer = "a CA it is not configured with", outside[r.Intn(len(outside))]
	case 3:
		if len(outside) == 0 {
			return p
		}
		p.what, s.SignedBy = "key of a CA it is not configured with under a CA's name", outside[r.Intn(len(outside))]
	case 4:
		p.what, s.Issuer = "signed by a monitor", w.M[0]
	case 5:
		p.what, s.Issuer = "unknown issuer", "localhost:6999"
	case 6:
		p.what, s.Issuer, s.SignedBy = "no issuer name", "", ca
	case 7:
		p.what, s.Issuer, s.SignedBy = "signed by the logger itself", l.id, l.id
	default:
		d := s.DER(w)
		switch k {
		case 8:
			p.what, d = "cut off", d[:r.Intn(len(d))]
		case 9:
			p.what, d = "trailing bytes", append(d, make([]byte, 1+r.Intn(5))...)
		case 10:
			p.what = "flipped bit"
			d[r.Intn(len(d))] ^= 1 << r.Intn(8)
		case 11:
			p.what = "subject changed after signing"
			d = bytes.Replace(d, []byte("Evil"), []byte("Good"), 1)
		case 12:
			p.what, d = "no signature", resign(d, nil)
		case 13:
			x, _ := x509.ParseCertificate(d)
			p.what, d = "part of its signature", resign(d, x.Signature[:r.Intn(len(x.Signature))])
		case 14:
			if len(l.recent) == 0 {
				return p
			}
			x, _ := x509.ParseCertificate(l.recent[len(l.recent)-1].der)
			p.what, d = "signature of another precertificate", resign(d, x.Signature)
		}
		p.der = d
		return p
	}
	p.der = s.DER(w)
	return p
}

// resign replaces the signature of a certificate.
func resign(der, sig []byte) []byte {
	var x struct {
		TBS, Alg asn1.RawValue
		Sig      asn1.BitString
	}
	if _, err := asn1.Unmarshal(der, &x); err != nil {
		panic(err)
	}
	x.Sig = asn1.BitString{Bytes: sig, BitLength: 8 * len(sig)}
	out, err := asn1.Marshal(x)
	if err != nil {
		panic(err)
	}
	return out
}

// schedule hands precertificates in over the periods, by the instants that matter.
func (l *loglab) schedule(periods int, perPeriod int, badShare int) {
	c := l.c
	var wg sync.WaitGroup
	crowd := -1
	if c.Rng.Intn(40) == 0 {
		crowd = c.Rng.Intn(min(periods, 3))
	}
	for k := 0; k < periods; k++ {
		instants := []float64{}
		if k >= 3 && k < 59 { // nothing to do
			continue
		}
		if k == crowd {
			for j := 60 + c.Rng.Intn(80); j > 0; j-- {
				instants = append(instants, 0.5+float64(c.Rng.Intn(39000))/1000)
			}
		}
		n := c.Rng.Intn(perPeriod + 1)
		if c.Rng.Intn(8) == 0 {
			n = c.Rng.Intn(3)
		}
		for i := 0; i < n; i++ {
			var s float64
			switch c.Rng.Intn(9) {
			case 0:
				s = 40 // the instant the tree is built
			case 1, 2:
				s = 40 + float64(1+c.Rng.Intn(3000))/1000
			case 3:
				s = 43 + float64(c.Rng.Intn(16900))/1000
			case 4:
				s = 39.999
			default:
				s = 0.5 + float64(c.Rng.Intn(39000))/1000
			}
			instants = append(instants, s)
			for c.Rng.Intn(4) == 0 { // at the same time
				instants = append(instants, s)
			}
		}
		sort.Float64s(instants)
		base := time.Duration(k) * time.Minute
		var prev *posted
		for _, s := range instants {
			p := l.cert()
			if badShare > 0 && c.Rng.Intn(100) < badShare {
				p = l.bad()
			} else if prev != nil && c.Rng.Intn(6) == 0 {
				// once more, for the same tree
				a, ba := treeOf(prev.at)
				b, bb := treeOf(base + time.Duration(s*1000)*time.Millisecond)
				if a == b && !ba && !bb {
					p = *prev
					p.again, p.what = true, "again"
				}
			}
			if p.good && !p.again {
				x := p
				x.at = base + time.Duration(s*1000)*time.Millisecond
				prev = &x
				l.recent = append(l.recent, p)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				At(l.min+k, s)
				l.post(p)
			}()
		}
	}
	At(l.min+periods, 39)
	wg.Wait()
}

// tree is what the logger told about the tree it built in one period.
type tree struct {
	sths map[string]Obj // by the CA it was sent to
	pois []sentPOI
}

type sentPOI struct {
	to string
	POIMsg
	seq int
}

// trees reads the logger's trees from the history.
func (l *loglab) trees(periods int) []tree {
	out := make([]tree, periods)
	for i := range out {
		out[i].sths = map[string]Obj{}
	}
	base := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(l.min) * time.Minute)
	for _, e := range l.n.Events() {
		if e.From != l.id {
			continue
		}
		k := int((e.At.Sub(base) - 40*time.Second + time.Minute) / time.Minute)
		k--
		if k < 0 || k >= periods {
			l.c.Fail("the logger sent something before its first tree was due, or after the last: %s", e)
			continue
		}
		switch e.Path {
		case "/CA/receive-sth":
			if e.Obj == nil {
				l.c.Fail("the logger sent a tree head that is none: %.200q", e.Body)
				continue
			}
			if o, ok := out[k].sths[e.To]; ok && !bytes.Equal(o.JSON(), e.Obj.JSON()) {
				l.c.Fail("the logger sent %s two tree heads in one period: %s and %s", e.To, o, e.Obj)
			}
			out[k].sths[e.To] = *e.Obj
		case "/CA/receive-poi":
			p := sentPOI{to: e.To, seq: e.Seq}
			if err := json.Unmarshal(e.Body, &p.POIMsg); err != nil {
				l.c.Fail("the logger sent a proof that is none: %.200q", e.Body)
				continue
			}
			if _, ok := out[k].sths[e.To]; !ok {
				l.c.Fail("the logger sent %s a proof before the tree head", e.To)
			}
			out[k].pois = append(out[k].pois, p)
		}
	}
	return out
}

type ident struct{ issuer, ski, subject string }

// judge compares the trees with the admitted precertificates. With complete it also demands that everything admitted is there.
func (l *loglab) judge(periods int, complete bool) {
	c := l.c
	sure, maybe := make([]map[ident]int, periods+1), make([]map[ident]int, periods+1)
	for i := range sure {
		sure[i], maybe[i] = map[ident]int{}, map[ident]int{}
	}
	type between struct {
		id ident
		k  int
	}
	either := []between{}
	for _, p := range l.posts {
		if p.status != 200 || p.again {
			continue
		}
		k, b := treeOf(p.at)
		if k > periods {
			continue
		}
		id := ident{p.issuer, p.ski, p.subject}
		if b {
			maybe[k-1][id]++
			maybe[k][id]++
			either = append(either, between{id, k})
		} else {
			sure[k][id]++
		}
	}
	found := make([]map[ident]int, periods+1)
	for k, t := range l.trees(periods) {
		found[k] = map[ident]int{}
		c.Count("trees", 1)
		var sth Obj
		for _, ca := range l.w.C {
			o, ok := t.sths[ca]
			if !ok {
				c.Fail("period %d: the logger sent no tree head to %s", k, ca)
				return
			}
			if sth.Type != "" && !bytes.Equal(sth.JSON(), o.JSON()) {
				c.Fail("period %d: the logger sent different tree heads to the CAs: %s and %s", k, sth, o)
				return
			}
			sth = o
		}
		if err := l.w.Valid(sth); err != nil || sth.Type != STH_INIT || sth.Signer != l.id || sth.Payload[0] != l.id {
			c.Fail("period %d: the tree head %s is not validly signed by the logger: %v", k, sth, err)
			return
		}
		if sth.Period != P2(l.min+k+1) {
			c.Fail("the tree head made in minute %d is labelled %q", l.min+k, sth.Period)
		}
		_, _, roots, size, err := sth.ParseSTH()
		root, err2 := hex.DecodeString(roots)
		if err != nil || err2 != nil {
			c.Fail("period %d: the tree head cannot be read: %v %v", k, err, err2)
			return
		}
		leaves := map[int]ident{}
		for _, p := range t.pois {
			if p.to != p.Issuer || p.LoggerID != l.id {
				c.Fail("period %d: a proof for issuer %q, logger %q was sent to %s", k, p.Issuer, p.LoggerID, p.to)
				continue
			}
			pos := 0
			if p.Poi == nil {
				c.Fail("period %d: empty proof sent to %s", k, p.to)
				continue
			}
			for i := range p.Poi.Siblings {
				if p.Poi.Path>>i&1 == 0 {
					pos |= 1 << i
				}
			}
			ok := false
			for _, set := range []map[ident]int{sure[k], maybe[k]} {
				for id := range set {
					if id.issuer == p.Issuer && id.ski == string(p.SubjectKeyId) && Included(RawSubject(id.subject), p.Poi, root) {
						leaves[pos] = id
						ok = true
					}
				}
			}
			if !ok {
				c.Fail("period %d: the proof sent to %s for key %q does not prove inclusion of a precertificate admitted for this tree: %v %v", k, p.to, p.SubjectKeyId, sure[k], maybe[k])
			}
			c.Count("proofs", 1)
		}
		data := [][]byte{}
		for i := 0; i < len(leaves); i++ {
			id, ok := leaves[i]
			if !ok {
				c.Fail("period %d: of a tree with %d known leaves none is at position %d", k, len(leaves), i)
				return
			}
			found[k][id]++
			data = append(data, RawSubject(id.subject))
		}
		if complete || len(t.pois) > 0 {
			if r, _ := Tree(data); !bytes.Equal(r, root) || size != len(data) {
				c.Fail("period %d: the tree (said size %d) is not the tree of the %d precertificates with proofs", k, size, len(data))
			}
		}
		for id, n := range found[k] {
			if n > sure[k][id]+maybe[k][id] {
				c.Fail("period %d: %v is in the tree %d times, but was admitted for it %d times", k, id, n, sure[k][id]+maybe[k][id])
			}
		}
		if complete {
			for id, n := range sure[k] {
				if found[k][id] < n {
					c.Fail("period %d: %v was admitted %d times but is proven %d times in the next tree", k, id, n, found[k][id])
				}
			}
		}
	}
	if !complete || c.Failed() {
		return
	}
	for _, b := range either {
		if b.k < periods && found[b.k-1][b.id]-sure[b.k-1][b.id]+found[b.k][b.id]-sure[b.k][b.id] < 1 {
			c.Fail("%v was admitted in the instant tree %d was built, and is neither in this tree nor in the next", b.id, b.k-1)
		}
	}
}

// TestC14: every admitted precertificate is provably in exactly one tree.
func TestC14(t *testing.T) {
	RunProp(t, "C14", func(r *Run) {
		n := r.N(1000, 12000)
		for i := 0; i < n; i++ {
			if i%20 == 7 {
				r.Case(fmt.Sprintf("slow-%d", i), func(c *Case) { Bubble(c, func(n *Net) { slowCAs(c, n) }) })
				continue
			}
			r.Case(fmt.Sprintf("trees-%d", i), func(c *Case) {
				Bubble(c, func(n *Net) {
					cas := 1 + c.Rng.Intn(4)
					periods := span(c)
					l := newLoglab(c, n, cas, false)
					l.schedule(periods, []int{3, 8, 30}[c.Rng.Intn(3)], []int{0, 20}[c.Rng.Intn(2)])
					l.judge(periods, true)
					adm := 0
					for _, p := range l.posts {
						if p.status == 200 {
							adm++
						}
					}
					c.Count("admitted", adm)
					c.Desc("%d CAs, %d periods, %d precertificates admitted", cas, periods, adm)
					if adm > 0 {
						c.Nontrivial(fmt.Sprintf("cas%d/p%d/%d of %d/down%d", cas, periods, adm, len(l.posts), len(l.down)))
					}
				})
			})
		}
	})
}

// slowCAs: the CAs take so long for the proofs that the next tree is due before the last one is sent.
func slowCAs(c *Case, n *Net) {
	l := newLoglab(c, n, 1+c.Rng.Intn(3), false)
	n.Policy = nil
	slow := time.Duration(500+c.Rng.Intn(4500)) * time.Millisecond
	for _, ca := range l.w.C {
		n.Handle(ca, http.HandlerFunc(func(http.ResponseWriter, *http.Request) { time.Sleep(slow) }))
	}
	periods := 2 + c.Rng.Intn(2)
	for k := 0; k < periods; k++ {
		At(l.min+k, 5+30*c.Rng.Float64())
		for j := c.Rng.Intn(40); j >= 0; j-- {
			l.serial++
			s := CertSpec{Subject: fmt.Sprintf("Slow %d", l.serial), Issuer: l.heard[c.Rng.Intn(len(l.heard))], Key: c.Rng.Intn(30), Serial: l.serial, RID: int(l.serial), SubjectID: []byte(fmt.Sprintf("key of %d", l.serial))}
			l.post(posted{der: s.DER(l.w), subject: s.Subject, issuer: s.Issuer, ski: string(s.SubjectID), what: "good", good: true})
		}
	}
	At(l.min+periods+20, 30)
	Settle()
	type head struct {
		root []byte
		size int
	}
	heads := map[string]head{}
	pois := map[string][]POIMsg{}
	for _, e := range n.Events() {
		if e.From != l.id {
			continue
		}
		if e.Path == "/CA/receive-sth" && e.Obj != nil && l.w.Valid(*e.Obj) == nil {
			_, _, r, size, err := e.Obj.ParseSTH()
			root, _ := hex.DecodeString(r)
			if h, ok := heads[e.Obj.Period]; err != nil || ok && !bytes.Equal(h.root, root) {
				c.Fail("the logger sent two tree heads for period %s, or a bad one (%v)", e.Obj.Period, err)
			}
			heads[e.Obj.Period] = head{root, size}
		}
		var p POIMsg
		if e.Path == "/CA/receive-poi" && json.Unmarshal(e.Body, &p) == nil {
			pois[e.To+"|"+string(p.SubjectKeyId)] = append(pois[e.To+"|"+string(p.SubjectKeyId)], p)
		}
	}
	sum, adm := 0, 0
	for _, h := range heads {
		sum += h.size
	}
	for _, p := range l.posts {
		if p.status != 200 {
			c.Fail("a good precertificate was answered with %d", p.status)
			continue
		}
		adm++
		in := []string{}
		for label, h := range heads {
			for _, poi := range pois[p.issuer+"|"+p.ski] {
				if Included(RawSubject(p.subject), poi.Poi, h.root) {
					in = append(in, label)
					break
				}
			}
		}
		if k, _ := treeOf(p.at); len(in) != 1 || in[0] != P2(l.min+k+1) {
			c.Fail("a precertificate admitted in period %d is proven in the trees of %v, with CAs that take %v per message", k, in, slow)
		}
	}
	if sum != adm {
		c.Fail("%d precertificates were admitted and the trees have %d, with CAs that take %v per message", adm, sum, slow)
	}
	c.Count("admitted", adm)
	c.Desc("CAs take %v, %d periods, %d precertificates", slow, periods, adm)
	c.Nontrivial(fmt.Sprintf("slow/%v/p%d/%d", slow, periods, adm))
}

// TestC15: a logger admits exactly the precertificates of its CAs, and answers with good tree heads.
func TestC15(t *testing.T) {
	RunProp(t, "C15", func(r *Run) {
		n := r.N(1000, 12000)
		for i := 0; i < n; i++ {
			r.Case(fmt.Sprintf("admit-%d", i), func(c *Case) {
				Bubble(c, func(n *Net) {
					cas := 1 + c.Rng.Intn(4)
					periods := span(c)
					l := newLoglab(c, n, cas, true)
					done := make(chan bool)
					answers := l.ask(periods, done)
					l.schedule(periods, 12, 55)
					At(l.min+periods, 39.5)
					<-done
					l.judge(periods, true)
					kinds := map[string]bool{}
					for _, p := range l.posts {
						_, ok := l.admissible(p.der)
						if ok != (p.status == 200) || (!ok && p.status < 400) {
							c.Fail("a precertificate (%s) of %s was answered with %d, admissible: %v", p.what, p.issuer, p.status, ok)
						}
						if ok {
							c.Count("admitted", 1)
						} else {
							c.Count("refused", 1)
							c.Count("refused: "+p.what, 1)
							kinds[p.what] = true
						}
					}
					l.judgeAnswers(*answers, periods)
					if len(kinds) > 0 {
						c.Nontrivial(fmt.Sprintf("cas%d of %d/p%d/%v", len(l.cas), cas, periods, Keys(kinds)))
					}
				})
			})
		}
	})
}

type answer struct {
	minute int // of the question
	body   []byte
	status int
}

// ask queries the logger at many instants, also at the same time.
func (l *loglab) ask(periods int, done chan bool) *[]answer {
	out := &[]answer{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	busy := l.rng.Intn(25) == 0
	for k := 0; k <= periods; k++ {
		for j := 0; j < 6; j++ {
			if k > 3 && k < 59 && j > 0 {
				break
			}
			s := float64(500+l.rng.Intn(58000)) / 1000
			if j == 0 {
				s = 40
			}
			if k == periods {
				s = 0.5 + float64(l.rng.Intn(37000))/1000
			}
			many := 1 + l.rng.Intn(3)
			if busy && l.rng.Intn(2) == 0 {
				many = 20 + l.rng.Intn(100)
			}
			for m := 0; m < many; m++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					At(l.min+k, s)
					st, b := l.n.Do(l.w.M[m%2], l.id, "GET", "/ctng/v2/get-sth", nil)
					mu.Lock()
					*out = append(*out, answer{l.min + k, b, st})
					mu.Unlock()
				}()
			}
		}
	}
	go func() { wg.Wait(); close(done) }()
	return out
}

func (l *loglab) judgeAnswers(as []answer, periods int) {
	c := l.c
	ts := l.trees(periods)
	for _, a := range as {
		k := a.minute - l.min // the tree for this minute was built in period k-1
		var o Obj
		if a.status != 200 || json.Unmarshal(a.body, &o) != nil {
			c.Fail("the logger answered a query with %d %.100q", a.status, a.body)
			continue
		}
		c.Count("answers", 1)
		if k == 0 {
			if o.Type != "" || o.Payload[1] != "" {
				c.Fail("before its first tree the logger answered with %s", o)
			}
			continue
		}
		if err := l.w.Valid(o); err != nil || o.Type != STH_INIT || o.Signer != l.id || o.Period != P2(a.minute) {
			c.Fail("asked in minute %d the logger answered with %s: %v", a.minute, o, err)
			continue
		}
		for ca, s := range ts[k-1].sths {
			if !bytes.Equal(s.JSON(), o.JSON()) {
				c.Fail("asked in minute %d the logger answered with another tree head than it sent to %s", a.minute, ca)
			}
		}
		c.Count("tree heads answered", 1)
	}
}
