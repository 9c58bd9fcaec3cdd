// Package cry watches the Merkle trees and certificate pools.
package cry

import (
	"bytes"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/jik18001/CTngV2/Logger"
	rc "github.com/jik18001/CTngV2/crypto"
	merkletree "github.com/txaty/go-merkletree"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// TestC28: inclusion proofs are complete and sound.
func TestC28(t *testing.T) {
	RunProp(t, "C28", func(r *Run) {
		sizes := []int{}
		for n := 1; n <= 100; n++ {
			sizes = append(sizes, n)
		}
		for _, p := range []int{128, 256, 512, 1024} {
			sizes = append(sizes, p-1, p, p+1)
		}
		if r.Thorough {
			for n := 101; n <= 300; n++ {
				sizes = append(sizes, n)
			}
			sizes = append(sizes, 2047, 2048, 2049, 3000, 4095, 4096, 4097)
		}
		for rep := 0; rep < r.N(1, 4); rep++ {
			for _, n := range sizes {
				r.Case(fmt.Sprintf("tree-%d-%d", n, rep), func(c *Case) { tree(c, n) })
			}
		}
		for i := 0; i < r.N(40, 300); i++ {
			r.Case(fmt.Sprintf("together-%d", i), together)
			r.Case(fmt.Sprintf("logger-%d", i), logger)
		}
	})
}

func some(c *Case, n int) []x509.Certificate {
	out := []x509.Certificate{}
	long := "" // subjects may differ only at their end, or only at their beginning
	if c.Rng.Intn(2) == 0 {
		long = strings.Repeat("long ", c.Rng.Intn(120))
	}
	for i := 0; i < n; i++ {
		sub := RawSubject(fmt.Sprintf("%s%s %d %d", long, c.Name, i, c.Rng.Intn(1000)))
		if c.Rng.Intn(4) == 0 {
			sub = RawSubject(fmt.Sprintf("%s %d %d%s", c.Name, i, c.Rng.Intn(1000), long))
		}
		out = append(out, x509.Certificate{RawSubject: sub, SubjectKeyId: []byte(fmt.Sprint("k", i))})
	}
	return out
}

func leaves(certs []x509.Certificate) [][]byte {
	out := [][]byte{}
	for _, x := range certs {
		out = append(out, x.RawSubject)
	}
	return out
}

type built struct {
	root   []byte
	proofs []*merkletree.Proof
}

func build(certs []x509.Certificate) (built, error) {
	t, err := rc.GenerateMerkleTree(rc.GenerateDataBlocks(certs))
	if err != nil {
		return built{}, err
	}
	b := built{rc.GenerateRootHash(t), rc.GeneratePOI(t)}
	if len(b.proofs) < len(certs) {
		return b, fmt.Errorf("%d proofs", len(b.proofs))
	}
	return b, nil
}

func clone(p *merkletree.Proof) *merkletree.Proof {
	q := &merkletree.Proof{Path: p.Path}
	for _, s := range p.Siblings {
		q.Siblings = append(q.Siblings, append([]byte{}, s...))
	}
	return q
}

// judge compares a verdict with the oracle.
func judge(c *Case, what string, root []byte, p *merkletree.Proof, cert x509.Certificate) {
	ok, err := rc.VerifyPOI(root, p, cert)
	ok = ok && err == nil
	var mine *Proof
	if p != nil {
		mine = &Proof{Siblings: p.Siblings, Path: p.Path}
	}
	want := Included(cert.RawSubject, mine, root)
	c.Count("verdicts", 1)
	if want {
		c.Count("verdicts that are to be positive", 1)
	}
	if ok != want {
		c.Fail("%s: the proof verifies: %v, it leads to the root: %v", what, ok, want)
	}
}

func tree(c *Case, n int) {
	certs := some(c, n)
	b, err := build(certs)
	if err != nil {
		c.Fail("tree of %d: %v", n, err)
		return
	}
	snapshot := fmt.Sprintf("%x", b.root)
	at := c.Rng.Perm(n)
	if n > 64 {
		at = append(at[:40], 0, n-1, n-2)
	}
	outside := some(c, 1)[0]
	outside.RawSubject = append(append([]byte{}, certs[0].RawSubject...), 'x')
	c2 := some(c, n+1)
	ob, err := build(c2)
	if err != nil {
		c.Fail("tree of %d: %v", n+1, err)
		return
	}
	for _, i := range at {
		if ok, err := rc.VerifyPOI(b.root, b.proofs[i], certs[i]); !ok || err != nil {
			c.Fail("tree of %d: the proof of certificate %d does not verify: %v", n, i, err)
			return
		}
		judge(c, "the right proof", b.root, b.proofs[i], certs[i])
		judge(c, "a certificate outside", b.root, b.proofs[i], outside)
		judge(c, "no certificate", b.root, b.proofs[i], x509.Certificate{})
		judge(c, "another root", ob.root, b.proofs[i], certs[i])
		judge(c, "no root", nil, b.proofs[i], certs[i])
		judge(c, "a part of the root", b.root[:c.Rng.Intn(len(b.root))], b.proofs[i], certs[i])
		judge(c, "no proof", b.root, nil, certs[i])
		judge(c, "an empty proof", b.root, &merkletree.Proof{}, certs[i])
		judge(c, "an empty proof of the root itself", b.root, &merkletree.Proof{}, x509.Certificate{RawSubject: b.root})
		j := c.Rng.Intn(n)
		judge(c, "the proof of another certificate", b.root, b.proofs[j], certs[i])
		judge(c, "the proof of the same place in another tree", b.root, ob.proofs[i], certs[i])
		judge(c, "a certificate of another tree", b.root, ob.proofs[i], c2[i])
		x := certs[i]
		x.RawSubject = append([]byte{}, x.RawSubject...)
		x.RawSubject[c.Rng.Intn(len(x.RawSubject))] ^= 1 << c.Rng.Intn(8)
		judge(c, "an altered certificate", b.root, b.proofs[i], x)
		for k := 0; k < 6; k++ {
			p := clone(b.proofs[i])
			d := len(p.Siblings)
			what := ""
			s := c.Rng.Intn(d)
			switch k {
			case 0:
				what = "an altered sibling"
				p.Siblings[s][c.Rng.Intn(len(p.Siblings[s]))] ^= 1 << c.Rng.Intn(8)
			case 1:
				what = "another path"
				p.Path ^= 1 << s
			case 2:
				what = "a sibling less"
				p.Siblings = append(p.Siblings[:s], p.Siblings[s+1:]...)
			case 3:
				what = "a sibling more"
				p.Siblings = append(p.Siblings, p.Siblings[s])
			case 4:
				what = "siblings exchanged"
				t := c.Rng.Intn(d)
				p.Siblings[s], p.Siblings[t] = p.Siblings[t], p.Siblings[s]
			case 5:
				what = "an empty sibling"
				p.Siblings[s] = nil
			}
			judge(c, what, b.root, p, certs[i])
		}
		r := append([]byte{}, b.root...)
		r[c.Rng.Intn(len(r))] ^= 1 << c.Rng.Intn(8)
		judge(c, "an altered root", r, b.proofs[i], certs[i])
	}
	if fmt.Sprintf("%x", b.root) != snapshot {
		c.Fail("verifying changed the root")
	}
	// the root depends on every certificate, and on nothing else
	again, err := build(certs)
	if err != nil || !bytes.Equal(again.root, b.root) {
		c.Fail("the same %d certificates give another root: %v", n, err)
	}
	for k := 0; k < 10; k++ {
		l := append([]x509.Certificate{}, certs...)
		i := at[c.Rng.Intn(len(at))]
		what := "changed"
		same := false
		switch k % 4 {
		case 0, 1:
			l[i] = outside
		case 2:
			if n < 2 {
				continue
			}
			what = "left out"
			l = append(l[:i:i], l[i+1:]...)
		case 3:
			j := at[c.Rng.Intn(len(at))]
			what = fmt.Sprintf("exchanged with %d", j)
			same = i == j
			l[i], l[j] = l[j], l[i]
		}
		o, err := build(l)
		if err != nil {
			c.Fail("tree of %d: %v", len(l), err)
			return
		}
		c.Count("roots compared", 1)
		if bytes.Equal(o.root, b.root) != same {
			c.Fail("tree of %d: with certificate %d %s the root is the same: %v", n, i, what, !same)
		}
	}
	c.Nontrivial(fmt.Sprintf("tree %d", n))
}

// together builds and verifies several trees at the same time.
func together(c *Case) {
	k := 2 + c.Rng.Intn(7)
	lists := [][]x509.Certificate{}
	sizes := []int{}
	for i := 0; i < k; i++ {
		n := 1 + c.Rng.Intn(60)
		sizes = append(sizes, n)
		l := some(c, n)
		if i%3 == 2 { // the same one twice
			l = lists[i-1]
			sizes[i] = sizes[i-1]
		}
		lists = append(lists, l)
	}
	out := make([]built, k)
	bad := make([]string, k)
	var wg sync.WaitGroup
	for i := range lists {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b, err := build(lists[i])
			if err != nil {
				bad[i] = err.Error()
				return
			}
			out[i] = b
			for j, x := range lists[i] {
				if ok, err := rc.VerifyPOI(b.root, b.proofs[j], x); !ok || err != nil {
					bad[i] = fmt.Sprintf("the proof of %d does not verify, error %v", j, err)
				}
				if j > 0 && !bytes.Equal(lists[i][j-1].RawSubject, x.RawSubject) {
					if ok, _ := rc.VerifyPOI(b.root, b.proofs[j-1], x); ok {
						bad[i] = fmt.Sprintf("the proof of %d verifies for its neighbour", j-1)
					}
				}
			}
		}()
	}
	wg.Wait()
	for i, l := range lists {
		if bad[i] != "" {
			c.Fail("trees of %v at the same time: %s", sizes, bad[i])
			continue
		}
		b, err := build(l)
		if err != nil || !bytes.Equal(b.root, out[i].root) {
			c.Fail("trees of %v at the same time: number %d has another root when built alone", sizes, i)
		}
		for j, x := range l {
			judge(c, "a proof made at the same time as others", b.root, out[i].proofs[j], x)
		}
	}
	c.Nontrivial(fmt.Sprint("together ", sizes))
}

// logger builds the tree as a logger does.
func logger(c *Case) {
	w := NewWorld(c.Dir, Topology{N: 2, Threshold: 2, Loggers: 2, CAs: 2})
	which := c.Rng.Intn(2)
	pub, priv, cr := w.Cfg("L", which)
	ctx := Logger.InitializeLoggerContext(pub, priv, cr)
	ctx.StoragePath = filepath.Join(c.Dir, "l.json")
	n := 1 + c.Rng.Intn(12)
	certs := []x509.Certificate{}
	for i := 0; i < n; i++ {
		sub := i
		if c.Rng.Intn(5) == 0 {
			sub = c.Rng.Intn(n)
		}
		certs = append(certs, *CertSpec{Subject: fmt.Sprintf("s%d", sub), Issuer: w.C[c.Rng.Intn(2)], Key: c.Rng.Intn(40), Serial: int64(i)}.Cert(w))
	}
	m := c.Rng.Intn(60)
	sth, root, pois := Logger.BuildMerkleTreeFromCerts(certs, *ctx, m)
	var o Obj
	b, _ := json.Marshal(sth)
	if err := json.Unmarshal(b, &o); err != nil {
		c.Fail("the tree head: %v", err)
		return
	}
	signer, period, rh, size, err := o.ParseSTH()
	if err != nil || signer != w.L[which] || period != P2(m-1) || size != n || rh != hex.EncodeToString(root) {
		c.Fail("the tree head of %s over %d certificates in period %s says (%s, %s, %d, %s), root %x: %v", w.L[which], n, P2(m-1), signer, period, size, rh, root, err)
	}
	if err := w.Valid(o); err != nil {
		c.Fail("the tree head is not valid: %v", err)
	}
	if len(pois) != n {
		c.Fail("%d proofs for %d certificates", len(pois), n)
		return
	}
	for i, p := range pois {
		if !bytes.Equal(p.SubjectKeyId, certs[i].SubjectKeyId) || p.Issuer != certs[i].Issuer.CommonName || p.LoggerID != w.L[which] {
			c.Fail("proof %d is for %s of %s by %s", i, p.SubjectKeyId, p.Issuer, p.LoggerID)
		}
		if ok, err := rc.VerifyPOI(root, p.Poi, certs[i]); !ok || err != nil {
			c.Fail("the proof of certificate %d of %d does not verify: %v", i, n, err)
		}
		judge(c, "a proof by a logger", root, p.Poi, certs[i])
		j := c.Rng.Intn(n)
		judge(c, "the proof of another certificate by a logger", root, p.Poi, certs[j])
	}
	c.Nontrivial(fmt.Sprintf("logger %d %d", n, m))
}
