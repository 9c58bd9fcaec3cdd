// Package cl watches a client: what it believes, and what it says about certificates.
package cl

import (
	"crypto/x509"
	"encoding/hex"
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

func shuffle(rng *rand.Rand, k int, swap func(i, j int)) { rng.Shuffle(k, swap) }

// tree is a tree of a logger, as the harness built it.
type tree struct {
	logger   string
	period   int
	subjects []string
	root     []byte
	proofs   []Proof
	sth      Obj
}

func (w *universe) newTree(logger string, period int, subjects []string) *tree {
	t := &tree{logger: logger, period: period, subjects: subjects}
	data := [][]byte{}
	for _, s := range subjects {
		data = append(data, RawSubject(s))
	}
	t.root, t.proofs = Tree(data)
	t.sth = w.MakeSTHRoot(logger, period, hex.EncodeToString(t.root), len(subjects))
	return t
}

func (t *tree) info(subject, issuer string) Info {
	for i, s := range t.subjects {
		if s == subject {
			p := Proof{Siblings: append([][]byte{}, t.proofs[i].Siblings...), Path: t.proofs[i].Path}
			return Info{STH: t.sth, POI: POIMsg{Poi: &p, SubjectKeyId: []byte(subject), Issuer: issuer, LoggerID: t.logger}}
		}
	}
	return Info{STH: t.sth, POI: POIMsg{Poi: &Proof{}, LoggerID: t.logger}}
}

// universe is a world with the trees and revocations in it, and what a client that applied the updates should believe.
type universe struct {
	*World
	c     *Case
	trees map[string]*tree // logger@period
	chain map[string]*RevChain
	// what the client has been told
	roots   map[string]string // logger@period -> root
	revoked map[string]map[int]bool
	faulty  map[string]bool
	noCAs   bool // make updates without revocations
	ids     int  // the revocation numbers are below
}

func newUniverse(c *Case, loggers, cas int) *universe {
	n := 3 + c.Rng.Intn(3)
	u := &universe{World: NewWorld(c.Dir, Topology{N: n, Threshold: 2 + c.Rng.Intn(n-1), Loggers: loggers, CAs: cas}), c: c,
		trees: map[string]*tree{}, chain: map[string]*RevChain{}, roots: map[string]string{}, revoked: map[string]map[int]bool{}, faulty: map[string]bool{}}
	u.ids = 40
	size := uint(2048)
	if c.Rng.Intn(3) == 0 {
		size, u.ids = 300000, 300000
	}
	for _, ca := range u.C {
		u.chain[ca] = NewRevChain(u.World, ca, size)
	}
	return u
}

// revoke draws numbers to be revoked.
func (u *universe) revoke() []uint {
	out := []uint{}
	for j := u.c.Rng.Intn(4); j > 0; j-- {
		x := u.c.Rng.Intn(u.ids)
		if u.c.Rng.Intn(2) == 0 {
			x %= 40
		}
		if u.c.Rng.Intn(8) == 0 {
			x = 0
		}
		out = append(out, uint(x))
	}
	if u.ids > 40 && u.c.Rng.Intn(4) == 0 { // very many
		s := u.c.Rng.Intn(u.ids - 10000)
		for k, many := 0, 3000+u.c.Rng.Intn(6000); k < many; k++ {
			out = append(out, uint(s+k))
		}
	}
	return out
}

// rid draws the number of a certificate of the CA.
func (u *universe) rid(ca string) int {
	if u.ids > 40 && u.c.Rng.Intn(2) == 0 {
		ones := []int{}
		for x := range u.revoked[ca] {
			if x >= 40 {
				ones = append(ones, x)
			}
		}
		sort.Ints(ones)
		if len(ones) == 0 || u.c.Rng.Intn(3) == 0 {
			return u.c.Rng.Intn(u.ids)
		}
		return ones[u.c.Rng.Intn(len(ones))]
	}
	if u.c.Rng.Intn(8) == 0 {
		return 0
	}
	return u.c.Rng.Intn(45)
}

func key(l string, p int) string { return l + "@" + P2(p) }

func (u *universe) endorse(o Obj) Obj {
	return u.MakeFull(Shuffled(u.c, u.G)[:u.Threshold+u.c.Rng.Intn(len(u.G)-u.Threshold+1)], o)
}

// update is what a monitor publishes for the period: tree heads of these loggers, revocations of these CAs.
func (u *universe) update(period int, loggers, cas []string, revoke map[string][]uint, acc, con []string) Update {
	up := Update{MonitorID: u.M[0], Period: P2(period)}
	for _, l := range loggers {
		t := u.trees[key(l, period)]
		up.STHs = append(up.STHs, u.endorse(t.sth))
	}
	for _, ca := range cas {
		up.REVs = append(up.REVs, u.endorse(u.chain[ca].Next(period, revoke[ca]...)))
	}
	for _, e := range acc {
		up.POM_ACCs = append(up.POM_ACCs, u.endorse(u.MakeACC(u.M[u.c.Rng.Intn(len(u.M))], e, period)))
	}
	for _, e := range con {
		a, b := u.MakeSTH(e, period, "one"), u.MakeSTH(e, period, "two")
		if strings.Contains(e, ":60") {
			a, b = u.SimpleREV(e, period, 5), u.SimpleREV(e, period, 6)
		}
		up.POM_CONs = append(up.POM_CONs, MakeCON(a, b, period))
	}
	return up
}

// believe records that the client has applied the update.
func (u *universe) believe(up Update) {
	for _, o := range up.STHs {
		_, _, root, _, _ := o.ParseSTH()
		u.roots[o.Payload[0]+"@"+o.Period] = root
	}
	for _, o := range up.REVs {
		_, d, _, _ := o.ParseREV()
		m := u.revoked[o.Payload[0]]
		if m == nil {
			m = map[int]bool{}
			u.revoked[o.Payload[0]] = m
		}
		for i, e := d.NextSet(0); e; i, e = d.NextSet(i + 1) {
			m[int(i)] = true
		}
	}
	for _, o := range append(append([]Obj{}, up.POM_ACCs...), up.POM_CONs...) {
		u.faulty[o.Payload[0]] = true
	}
}

// good tells whether a logger information counts.
func (u *universe) good(subject string, i Info) bool {
	if u.faulty[i.STH.Payload[0]] || i.STH.Type != STH_INIT || u.Valid(i.STH) != nil {
		return false
	}
	_, _, root, _, err := i.STH.ParseSTH()
	if err != nil || root == "" || u.roots[i.STH.Payload[0]+"@"+i.STH.Period] != root {
		return false
	}
	b, err := hex.DecodeString(root)
	return err == nil && Included(RawSubject(subject), i.POI.Poi, b)
}

// verdict is what the client has to say.
func (u *universe) verdict(s CertSpec) bool {
	ok := false
	for _, i := range s.Infos {
		ok = ok || u.good(s.Subject, i)
	}
	m, known := u.revoked[s.Issuer]
	return ok && known && !m[s.RID]
}

// state draws a universe with a client that has applied some updates.
func state(c *Case, periods int) (*universe, *Client, []*tree, int) {
	u := newUniverse(c, 2+c.Rng.Intn(3), 1+c.Rng.Intn(3))
	cl := NewClient(u.World, c.Dir, false)
	start := c.Rng.Intn(60)
	all := []*tree{}
	for k := 0; k < periods; k++ {
		up, ts := u.next(start+k, k, 12)
		all = append(all, ts...)
		if !cl.Apply(up) {
			c.Fail("the client refused a good update: %+v", up)
		}
		u.believe(up)
	}
	return u, cl, all, start + periods
}

// next makes the trees of a period and a good update about them.
func (u *universe) next(p, k int, faulty int) (Update, []*tree) {
	c := u.c
	loggers, cas, acc, con, all := []string{}, []string{}, []string{}, []string{}, []*tree{}
	rv := map[string][]uint{}
	for _, l := range u.L {
		subs := []string{}
		for s := 0; s < 1+c.Rng.Intn(7); s++ {
			subs = append(subs, fmt.Sprintf("Testing Dummy %d", k*20+s))
		}
		t := u.newTree(l, p, subs)
		u.trees[key(l, p)] = t
		all = append(all, t)
		if c.Rng.Intn(6) > 0 {
			loggers = append(loggers, l)
		}
		if c.Rng.Intn(faulty) == 0 {
			acc = append(acc, l)
		}
		if c.Rng.Intn(faulty) == 0 {
			con = append(con, l)
		}
	}
	for i, ca := range u.C {
		if k == 0 && i > 0 && c.Rng.Intn(3) == 0 {
			continue
		}
		if c.Rng.Intn(5) > 0 && !u.noCAs {
			cas = append(cas, ca)
			rv[ca] = u.revoke()
		}
		if c.Rng.Intn(faulty+4) == 0 {
			acc = append(acc, ca)
		}
	}
	if c.Rng.Intn(4) == 0 { // a poor one
		for _, l := range []*[]string{&loggers, &cas, &acc, &con} {
			if c.Rng.Intn(2) == 0 {
				*l = nil
			}
		}
		if len(con) == 0 && c.Rng.Intn(2) == 0 {
			con = []string{u.L[c.Rng.Intn(len(u.L))]}
		}
	}
	return u.update(p, loggers, cas, rv, acc, con), all
}

type named struct {
	name string
	Info
}

// infos draws logger informations about the subject, good and bad.
func infos(u *universe, all []*tree, subject, issuer string, k int) []named {
	c := u.c
	with := []*tree{}
	for _, t := range all {
		for _, s := range t.subjects {
			if s == subject {
				with = append(with, t)
			}
		}
	}
	out := []named{}
	add := func(n string, i Info) { out = append(out, named{n, i}) }
	for j := 0; j < k; j++ {
		t := all[c.Rng.Intn(len(all))]
		if len(with) > 0 {
			t = with[c.Rng.Intn(len(with))]
		}
		g := t.info(subject, issuer)
		switch c.Rng.Intn(20) {
		case 0:
			other := u.newTree(t.logger, t.period, append([]string{"someone else"}, t.subjects...))
			add("another tree of the period", other.info(subject, issuer))
		case 1:
			ms := u.Mutations(t.sth, c.Rng)
			m := ms[c.Rng.Intn(len(ms))]
			g.STH = m.Obj
			add("tree head: "+m.Name, g)
		case 2:
			if len(g.POI.Poi.Siblings) > 0 {
				s := append([]byte{}, g.POI.Poi.Siblings[0]...)
				s[c.Rng.Intn(len(s))] ^= 1 << c.Rng.Intn(8)
				g.POI.Poi.Siblings[0] = s
			}
			add("altered sibling", g)
		case 3:
			g.POI.Poi.Path ^= 1 << c.Rng.Intn(max(1, len(g.POI.Poi.Siblings)))
			add("altered path", g)
		case 4:
			g.POI.Poi.Siblings = g.POI.Poi.Siblings[:max(0, len(g.POI.Poi.Siblings)-1)]
			add("truncated proof", g)
		case 5:
			g.POI.Poi.Siblings = append(g.POI.Poi.Siblings, t.root)
			add("prolonged proof", g)
		case 6:
			g.POI.Poi = nil
			add("no proof", g)
		case 7:
			g.POI.Poi = &Proof{}
			add("empty proof", g)
		case 8:
			for _, s := range t.subjects {
				if s != subject {
					g.POI = t.info(s, issuer).POI
				}
			}
			add("proof of another certificate", g)
		case 9:
			o := all[c.Rng.Intn(len(all))]
			g.POI = o.info(subject, issuer).POI
			add("proof in some tree", g)
		case 10:
			o := all[c.Rng.Intn(len(all))]
			g.STH = o.sth
			add("some tree head", g)
		case 11:
			fake := u.newTree(t.logger, t.period+7, []string{subject})
			add("tree head the client has not", fake.info(subject, issuer))
		case 12:
			g.STH = u.MakeSTHRoot(t.logger, t.period+7, "", 0)
			add("tree head without root", g)
		case 13:
			o := all[c.Rng.Intn(len(all))]
			g.STH = o.sth
			g.STH.Payload[0], g.STH.Signer = t.logger, t.logger
			add("tree head under another name", g)
		case 14:
			// the right root claimed by somebody without the logger's key
			g.STH.Signature[0] = RSASigString([]byte(g.STH.Content()), u.Foreign, t.logger)
			add("tree head signed by a stranger", g)
		case 15:
			add("empty", Info{})
		case 16:
			g.POI.SubjectKeyId, g.POI.Issuer, g.POI.LoggerID = []byte("x"), "y", "z"
			add("genuine with other names beside it", g)
		default:
			add("genuine", g)
		}
	}
	return out
}

// spec draws a certificate.
func spec(u *universe, all []*tree, k int) (CertSpec, []string) {
	c := u.c
	t := all[c.Rng.Intn(len(all))]
	s := CertSpec{Subject: t.subjects[c.Rng.Intn(len(t.subjects))], Key: c.Rng.Intn(30)}
	s.Issuer = u.C[c.Rng.Intn(len(u.C))]
	s.RID = u.rid(s.Issuer)
	if c.Rng.Intn(12) == 0 {
		s.Issuer = "localhost:6999"
	}
	if c.Rng.Intn(15) == 0 {
		s.Subject = "unknown"
	}
	if c.Rng.Intn(10) == 0 {
		s.RID = []int{2047, 2048, 5000, 1 << 20}[c.Rng.Intn(4)]
	}
	names := []string{}
	for _, i := range infos(u, all, s.Subject, s.Issuer, k) {
		s.Infos = append(s.Infos, i.Info)
		names = append(names, i.name)
	}
	return s, names
}

// TestC13: verdicts are exactly justified.
func TestC13(t *testing.T) {
	RunProp(t, "C13", func(r *Run) {
		n := r.N(300, 6000)
		for i := 0; i < n; i++ {
			r.Case(fmt.Sprintf("verdicts-%d", i), verdicts)
		}
	})
}

func verdicts(c *Case) {
	u, cl, all, _ := state(c, 1+c.Rng.Intn(4))
	if c.Failed() {
		return
	}
	type probe struct {
		s    CertSpec
		cert *x509.Certificate
		want bool
		n    []string
	}
	ps := []probe{}
	kinds := map[string]bool{}
	yes := 0
	for k := 0; k < 12; k++ {
		many := c.Rng.Intn(5)
		if k < 4 {
			many += c.Rng.Intn(7)
		}
		s, names := spec(u, all, many)
		if k == 0 {
			s.NoExt, s.Infos = true, nil
			names = []string{"no extension"}
		} else if k == 1 {
			s.Infos, s.RawExt = nil, [][]byte{{}, {4, 2, '{', '}'}, []byte("garbage"), {4, 1, '['}}[c.Rng.Intn(4)]
			names = []string{"garbage extension"}
		}
		p := probe{s, s.Cert(u.World), u.verdict(s), names}
		ps = append(ps, p)
		for i, in := range s.Infos {
			what := "rejects"
			if u.good(s.Subject, in) {
				what = "counts"
			}
			kinds[strings.SplitN(names[i], ":", 2)[0]+" "+what] = true
			c.Count("information that "+what, 1)
		}
		if p.want {
			yes++
		}
	}
	judge := func(p probe, how string) {
		if got := cl.Ctx.VerifyCTngextension(p.cert); got != p.want {
			c.Fail("%s: the client says %v to a certificate of %q by %s with number %d, it should say %v; logger information: %v, convicted: %v, revoked: %v",
				how, got, p.s.Subject, p.s.Issuer, p.s.RID, p.want, p.n, Keys(u.faulty), u.revoked[p.s.Issuer])
		}
	}
	for _, p := range ps {
		judge(p, "one by one")
	}
	for j := range ps {
		// another order is the same certificate
		s := ps[j].s
		if len(s.Infos) > 1 {
			in := append([]Info{}, s.Infos...)
			nm := append([]string{}, ps[j].n...)
			shuffle(c.Rng, len(in), func(a, b int) { in[a], in[b] = in[b], in[a]; nm[a], nm[b] = nm[b], nm[a] })
			s.Infos = in
			judge(probe{s, s.Cert(u.World), ps[j].want, nm}, "in another order")
			c.Count("reordered", 1)
		}
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ps {
				judge(ps[(i*5+g*3)%len(ps)], "at the same time")
			}
		}()
	}
	wg.Wait()
	c.Count("verdicts", len(ps)*5)
	c.Count("accepted certificates", yes)
	c.Nontrivial(fmt.Sprintf("l%d/c%d/%v", len(u.L), len(u.C), Keys(kinds)))
}

// probes are certificates that show what the client believes: one per tree and CA.
func probes(u *universe, all []*tree) []CertSpec {
	out := []CertSpec{}
	for i, t := range all {
		s := t.subjects[i%len(t.subjects)]
		for _, ca := range u.C {
			out = append(out, CertSpec{Subject: s, Issuer: ca, Key: i % 30, RID: u.rid(ca), Infos: []Info{t.info(s, ca)}})
		}
	}
	return out
}

func (u *universe) agree(c *Case, cl *Client, all []*tree, when string) {
	for _, s := range probes(u, all) {
		if got := cl.Ctx.VerifyCTngextension(s.Cert(u.World)); got != u.verdict(s) {
			c.Fail("%s the client says %v to a certificate of %s (number %d) with information of %s for period %s; it should say %v", when, got, s.Issuer, s.RID, s.Infos[0].STH.Signer, s.Infos[0].STH.Period, !got)
			return
		}
		c.Count("probes", 1)
	}
	heads, guilty := cl.Known()
	if heads != len(u.roots) || fmt.Sprint(guilty) != fmt.Sprint(Keys(u.faulty)) {
		c.Fail("%s the client holds %d tree heads and proofs against %v, it was told %d and %v", when, heads, guilty, len(u.roots), Keys(u.faulty))
		return
	}
	for _, ca := range u.C {
		have, ok := cl.Revoked(ca)
		m, known := u.revoked[ca]
		if ok != known || len(have) != len(m) {
			c.Fail("%s the client holds %d revocations of %s (known: %v), it was told %d (%v)", when, len(have), ca, ok, len(m), known)
			return
		}
		for _, x := range have {
			if !m[int(x)] {
				c.Fail("%s the client holds number %d of %s for revoked, which nobody revoked", when, x, ca)
				return
			}
		}
	}
}

// TestC12: an update is applied entirely or not at all.
func TestC12(t *testing.T) {
	RunProp(t, "C12", func(r *Run) {
		n := r.N(260, 5000)
		for i := 0; i < n; i++ {
			kind := []string{"one after another", "at the same time"}[i%5/4]
			r.Case(fmt.Sprintf("%s-%d", strings.ReplaceAll(kind, " ", "-"), i), func(c *Case) {
				if i%5 < 4 {
					sequence(c)
				} else {
					together(c)
				}
			})
		}
	})
}

// spoil makes one object of the update bad.
func spoil(u *universe, up Update) (Update, string) {
	c := u.c
	bad := Update{MonitorID: up.MonitorID, Period: up.Period}
	bad.STHs = append([]Obj{}, up.STHs...)
	bad.REVs = append([]Obj{}, up.REVs...)
	bad.POM_ACCs = append([]Obj{}, up.POM_ACCs...)
	bad.POM_CONs = append([]Obj{}, up.POM_CONs...)
	secs := []*[]Obj{&bad.STHs, &bad.REVs, &bad.POM_ACCs, &bad.POM_CONs}
	names := []string{"tree heads", "revocations", "accusations", "proofs"}
	for tries := 0; ; tries++ {
		k := c.Rng.Intn(4)
		sec := secs[k]
		if len(*sec) == 0 && tries < 40 {
			continue
		}
		switch x := c.Rng.Intn(7); {
		case x < 4 && len(*sec) > 0: // a forgery in its place
			i := c.Rng.Intn(len(*sec))
			o := (*sec)[i]
			ms := append(u.Mutations(o, c.Rng), u.FullForgeries(o, c.Rng)...)
			if k == 3 {
				ms = append(u.Mutations(o, c.Rng), u.ConForgeries(o, c.Rng)...)
			}
			ms = invalid(u, ms)
			if len(ms) == 0 {
				continue
			}
			m := ms[c.Rng.Intn(len(ms))]
			(*sec)[i] = m.Obj
			return bad, fmt.Sprintf("%s: %s", names[k], m.Name)
		case x == 4: // an object of another kind among them
			from := secs[(k+1+c.Rng.Intn(3))%4]
			if len(*from) == 0 {
				continue
			}
			o := (*from)[c.Rng.Intn(len(*from))]
			i := c.Rng.Intn(len(*sec) + 1)
			*sec = append(append(append([]Obj{}, (*sec)[:i]...), o), (*sec)[i:]...)
			return bad, fmt.Sprintf("%s: a %s among them", names[k], TypeName(o.Type))
		case x == 5: // a statement that is not endorsed
			var o Obj
			switch k {
			case 0:
				o = u.MakeSTH(u.L[0], 3, "not endorsed")
			case 1:
				o = u.SimpleREV(u.C[0], 3, 7)
			case 2:
				o = u.MakeACC(u.M[0], u.L[0], 3)
			default:
				o = MakeCON(u.MakeSTH(u.L[0], 3, "same"), u.MakeSTH(u.L[0], 3, "same"), 3)
			}
			i := c.Rng.Intn(len(*sec) + 1)
			*sec = append(append(append([]Obj{}, (*sec)[:i]...), o), (*sec)[i:]...)
			return bad, fmt.Sprintf("%s: one that nobody endorsed", names[k])
		case x == 6 && k == 1: // endorsed, but does not extend the chain
			ca := u.C[c.Rng.Intn(len(u.C))]
			d := Bits(2048, 1999)
			if c.Rng.Intn(3) == 0 {
				d = Bits(2048)
			}
			crv := u.chain[ca].CRV.Union(Bits(2048, 1998, 1999))
			srh := RSASigString(SRHMessage("04", crv, d), u.RSA[ca], ca)
			switch crv = u.chain[ca].CRV.Union(d); c.Rng.Intn(4) {
			case 0: // the right state under the label of another period
				srh = RSASigString(SRHMessage("05", crv, d), u.RSA[ca], ca)
			case 1: // by another entity, or somebody else
				if k := u.L[0]; c.Rng.Intn(2) == 0 {
					srh = RSASigString(SRHMessage("04", crv, d), u.RSA[k], k)
				} else {
					srh = RSASigString(SRHMessage("04", crv, d), u.Foreign, ca)
				}
			}
			i := c.Rng.Intn(len(*sec) + 1)
			o := u.endorse(u.MakeREVSigned(ca, 4, d, srh))
			*sec = append(append(append([]Obj{}, (*sec)[:i]...), o), (*sec)[i:]...)
			return bad, "revocations: one that does not extend the chain"
		}
	}
}

func invalid(u *universe, ms []Mut) []Mut {
	out := []Mut{}
	for _, m := range ms {
		if u.Valid(m.Obj) != nil {
			out = append(out, m)
		}
	}
	return out
}

func sequence(c *Case) {
	u, cl, all, p := state(c, 1+c.Rng.Intn(2))
	if c.Failed() {
		return
	}
	kinds := []string{}
	if c.Rng.Intn(4) == 0 { // an hour after the last ones
		p--
		kinds = append(kinds, "an hour later")
	}
	for k := 0; k < 3; k++ {
		up, ts := u.next(p+k, 10+k, 6)
		for j := 1 + c.Rng.Intn(4); j > 0; j-- {
			bad, why := spoil(u, up)
			before := cl.Snapshot()
			if cl.Apply(bad) {
				c.Fail("the client says it applied an update with a bad object (%s)", why)
			}
			if cl.Snapshot() != before {
				c.Fail("an update with a bad object (%s) changed what the client believes", why)
			}
			c.Count("bad updates", 1)
			c.Count("spoilt "+strings.SplitN(why, ":", 2)[0], 1)
			kinds = append(kinds, why)
			if c.Failed() {
				return
			}
		}
		u.agree(c, cl, append(all, ts...), "after bad updates")
		if !cl.Apply(up) {
			c.Fail("the client refused a good update after bad ones (%v)", kinds)
			return
		}
		u.believe(up)
		all = append(all, ts...)
		u.agree(c, cl, all, "after a good update")
		c.Count("good updates", 1)
		if c.Rng.Intn(3) == 0 && !c.Failed() { // the same from another monitor
			before := cl.Snapshot()
			for _, sec := range []*[]Obj{&up.STHs, &up.REVs} {
				os := []Obj{}
				for _, o := range *sec {
					os = append(os, o)
				}
				shuffle(c.Rng, len(os), func(a, b int) { os[a], os[b] = os[b], os[a] })
				*sec = os
			}
			up.MonitorID = u.M[1]
			if !cl.Apply(up) {
				c.Fail("the client refused a good update it has applied before")
			} else if cl.Snapshot() != before {
				c.Fail("a good update that was applied before changed what the client believes")
			}
			c.Count("repeated updates", 1)
		}
		if c.Failed() {
			return
		}
	}
	c.Nontrivial(fmt.Sprint(kinds))
}

func together(c *Case) {
	u, cl, all, p := state(c, 1)
	if c.Failed() {
		return
	}
	// good updates about different CAs, and spoilt copies of them
	type job struct {
		up   Update
		good bool
		why  string
	}
	jobs := []job{}
	whys := []string{}
	cas := Shuffled(c, u.C)
	for k := 0; k < 4; k++ {
		var ca []string
		if k < len(cas) {
			ca = cas[k : k+1]
		}
		u.noCAs = true
		up, ts := u.next(p+k, 10+k, 8)
		if ca != nil {
			up.REVs = append(up.REVs, u.endorse(u.chain[ca[0]].Next(p+k, u.revoke()...)))
		}
		all = append(all, ts...)
		jobs = append(jobs, job{up, true, ""})
		for j := c.Rng.Intn(3); j > 0; j-- {
			b, why := spoil(u, up)
			jobs = append(jobs, job{b, false, why})
			whys = append(whys, why)
		}
	}
	shuffle(c.Rng, len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	var wg sync.WaitGroup
	start := make(chan bool)
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if got := cl.Apply(j.up); got != j.good {
				c.Fail("among others at the same time, an update that is good=%v (%s) was answered with %v", j.good, j.why, got)
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, j := range jobs {
		if j.good {
			u.believe(j.up)
			c.Count("good updates", 1)
		} else {
			c.Count("bad updates", 1)
		}
	}
	u.agree(c, cl, all, "after updates at the same time")
	c.Nontrivial(fmt.Sprint("together ", whys))
}

// TestC27: a restarted client knows what it knew.
func TestC27(t *testing.T) {
	RunProp(t, "C27", func(r *Run) {
		n := r.N(260, 5000)
		for i := 0; i < n; i++ {
			r.Case(fmt.Sprintf("restart-%d", i), restart)
		}
	})
}

func restart(c *Case) {
	u := newUniverse(c, 2+c.Rng.Intn(3), 1+c.Rng.Intn(3))
	dir := filepath.Join(c.Dir, "client")
	first := c.Rng.Intn(6) == 0
	cl := NewClient(u.World, dir, first) // a first start finds nothing
	p := c.Rng.Intn(60)
	all := []*tree{}
	shape := ""
	for k := 0; k < 2+c.Rng.Intn(4); k++ {
		for j := c.Rng.Intn(3); j > 0; j-- {
			up, ts := u.next(p, len(all)/len(u.L), 9)
			p++
			all = append(all, ts...)
			if !cl.Apply(up) {
				c.Fail("after %q the client refused a good update", shape)
				return
			}
			u.believe(up)
			shape += "u"
		}
		if c.Rng.Intn(4) == 0 {
			cl.Save()
			shape += "s"
			continue
		}
		before := cl.Snapshot()
		cl.Save()
		old := cl
		cl = NewClient(u.World, dir, true)
		shape += "r"
		c.Count("restarts", 1)
		if after := cl.Snapshot(); after != before {
			c.Fail("after %q the restarted client holds\n%.600s\nit held\n%.600s", shape, after, before)
			return
		}
		for j := 0; j < 6 && len(all) > 0; j++ {
			s, names := spec(u, all, 1+c.Rng.Intn(3))
			cert := s.Cert(u.World)
			a, b := old.Ctx.VerifyCTngextension(cert), cl.Ctx.VerifyCTngextension(cert)
			if a != b || a != u.verdict(s) {
				c.Fail("after %q the client says %v to a certificate with %v, before the restart it said %v, justified is %v", shape, b, names, a, u.verdict(s))
				return
			}
			c.Count("verdicts compared", 1)
		}
		if len(all) > 0 {
			u.agree(c, cl, all, "after "+shape)
		}
		if c.Failed() {
			return
		}
	}
	c.Nontrivial(fmt.Sprintf("l%d/c%d/%s", len(u.L), len(u.C), shape))
}
