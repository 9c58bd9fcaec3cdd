package cry

import (
	"bytes"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	rc "github.com/jik18001/CTngV2/crypto"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// TestC29: the certificate pool keeps each certificate exactly once.
func TestC29(t *testing.T) {
	RunProp(t, "C29", func(r *Run) {
		for i := 0; i < r.N(1200, 20000); i++ {
			r.Case(fmt.Sprintf("pool-%d", i), pool)
		}
	})
}

// same tells whether two certificates are one.
func same(a, b *x509.Certificate) bool {
	return bytes.Equal(a.Raw, b.Raw) && bytes.Equal(a.RawSubject, b.RawSubject) && a.Issuer.String() == b.Issuer.String() &&
		fmt.Sprint(a.SerialNumber) == fmt.Sprint(b.SerialNumber) && bytes.Equal(a.SubjectKeyId, b.SubjectKeyId)
}

func show(x *x509.Certificate) string {
	if x == nil {
		return "nothing"
	}
	return fmt.Sprintf("(%s of %s, serial %v, key %q, %d bytes)", x.Subject.CommonName, x.Issuer.CommonName, x.SerialNumber, x.SubjectKeyId, len(x.Raw))
}

// model is what the pool must hold.
type model []*x509.Certificate

func (m model) has(x *x509.Certificate) bool {
	for _, y := range m {
		if same(x, y) {
			return true
		}
	}
	return false
}

func list(l []*x509.Certificate) string {
	out := []string{}
	for _, x := range l {
		out = append(out, fmt.Sprintf("%x|%s|%v|%x|%x", x.RawSubject, x.Issuer.String(), x.SerialNumber, x.SubjectKeyId, x.Raw))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func pool(c *Case) {
	w := NewWorld(c.Dir, Topology{N: 2, Threshold: 2, Loggers: 1, CAs: 2})
	p := rc.NewCertPool()
	m := model{}
	universe := []*x509.Certificate{}
	n := 4 + c.Rng.Intn(8)
	for i := 0; i < n; i++ {
		s := CertSpec{Subject: fmt.Sprintf("s%d", c.Rng.Intn(4)), Issuer: w.C[c.Rng.Intn(2)], Key: c.Rng.Intn(3), Serial: int64(c.Rng.Intn(4))}
		if c.Rng.Intn(6) == 0 {
			s.NoID = true
		}
		if c.Rng.Intn(3) == 0 {
			s.SubjectID = []byte(fmt.Sprint("shared", c.Rng.Intn(3)))
		}
		if !s.NoID && c.Rng.Intn(4) == 0 { // keys that resemble each other
			s.SubjectID = [][]byte{{0xff}, {0xff, 0}, {0xff, 0xfe}, {0xff, 0xfd}, []byte("shared0"), []byte("Shared0"), []byte("shared0 "), bytes.Repeat([]byte("k"), 64),
				bytes.Repeat([]byte("k"), 65), append(bytes.Repeat([]byte("k"), 300), 'x'), append(bytes.Repeat([]byte("k"), 300), 'y')}[c.Rng.Intn(11)]
		}
		x := s.Cert(w)
		if s.NoID {
			x.SubjectKeyId = nil
		}
		if c.Rng.Intn(2) == 0 { // a precertificate that was not encoded yet
			x = &x509.Certificate{Subject: x.Subject, RawSubject: x.RawSubject, Issuer: x.Issuer, SerialNumber: x.SerialNumber, SubjectKeyId: x.SubjectKeyId, PublicKey: x.PublicKey}
		}
		universe = append(universe, x)
	}
	ops := []string{}
	check := func() bool {
		fail := func(f string, a ...any) bool {
			c.Fail("after %s: "+f, append([]any{strings.Join(ops, "; ")}, a...)...)
			return false
		}
		if p.GetLength() != len(m) {
			return fail("the pool counts %d certificates instead of %d", p.GetLength(), len(m))
		}
		want := list(m)
		if got := list(p.GetCertList()); got != want {
			return fail("the pool lists\n%s\ninstead of\n%s", got, want)
		}
		cs := []*x509.Certificate{}
		for _, x := range p.GetCerts() {
			cs = append(cs, &x)
		}
		if got := list(cs); got != want {
			return fail("the pool gives the certificates\n%s\ninstead of\n%s", got, want)
		}
		sub, ws := []string{}, []string{}
		for _, x := range p.Subjects() {
			sub = append(sub, string(x))
		}
		for _, x := range m {
			ws = append(ws, string(x.RawSubject))
		}
		sort.Strings(sub)
		sort.Strings(ws)
		if strings.Join(sub, "\n") != strings.Join(ws, "\n") {
			return fail("the pool lists other subjects")
		}
		keys := map[string]bool{"": false, "nobody's": false}
		for _, x := range universe {
			keys[string(x.SubjectKeyId)] = false
		}
		for _, x := range m {
			keys[string(x.SubjectKeyId)] = true
		}
		keys[""] = false
		for k, in := range keys {
			g := p.GetCertBySubjectKeyID(k)
			if (g != nil) != in || (g != nil && (string(g.SubjectKeyId) != k || !m.has(g))) {
				return fail("for the key %q the pool gives %s", k, show(g))
			}
		}
		c.Count("states compared", 1)
		return true
	}
	var nilPool *rc.CertPool
	if nilPool.GetCertBySubjectKeyID("x") != nil {
		c.Fail("no pool has a certificate")
	}
	nilPool.UpdateCertBySubjectKeyID("x", universe[0])
	dups, updates, pems := 0, 0, 0
	for k := 5 + c.Rng.Intn(25); k > 0; k-- {
		x := universe[c.Rng.Intn(len(universe))]
		switch c.Rng.Intn(6) {
		case 0, 1, 2:
			if c.Rng.Intn(2) == 0 { // another copy of it
				y := *x
				y.SerialNumber = new(big.Int).Set(x.SerialNumber)
				x = &y
			}
			ops = append(ops, "add "+show(x))
			p.AddCert(x)
			if m.has(x) {
				dups++
			} else {
				m = append(m, x)
			}
		case 3, 4:
			key := string(x.SubjectKeyId)
			old := p.GetCertBySubjectKeyID(key)
			if old == nil {
				ops = append(ops, fmt.Sprintf("update key %q of none", key))
				p.UpdateCertBySubjectKeyID(key, x)
				break
			}
			y := *old
			y.SerialNumber = big.NewInt(1000 + int64(c.Rng.Intn(5)))
			if m.has(&y) {
				break
			}
			ops = append(ops, fmt.Sprintf("update %s to %s", show(old), show(&y)))
			at := -1
			for i, z := range m {
				if same(z, old) {
					at = i
				}
			}
			if at < 0 {
				c.Fail("after %s: the pool gives %s, which is not in it", strings.Join(ops, "; "), show(old))
				return
			}
			p.UpdateCertBySubjectKeyID(key, &y)
			m[at] = &y
			universe = append(universe, &y)
			updates++
			if g := p.GetCertBySubjectKeyID(key); g == nil || !same(g, &y) {
				c.Fail("after %s: the updated certificate is not the one given for its key but %s", strings.Join(ops, "; "), show(g))
			}
		case 5:
			var b bytes.Buffer
			any := false
			desc := "add PEM"
			for j := c.Rng.Intn(4); j > 0; j-- {
				y := universe[c.Rng.Intn(len(universe))]
				blk := &pem.Block{Type: "CERTIFICATE", Bytes: y.Raw}
				good := len(y.Raw) > 0
				switch c.Rng.Intn(5) {
				case 0:
					blk.Type, good = "RSA PRIVATE KEY", false
				case 1:
					blk.Headers, good = map[string]string{"a": "b"}, false
				case 2:
					b.WriteString("# some text\n")
				case 3:
					if good {
						blk.Bytes, good = y.Raw[:len(y.Raw)/2], false
					}
				}
				pem.Encode(&b, blk)
				if !good {
					continue
				}
				any = true
				z, err := x509.ParseCertificate(y.Raw)
				if err != nil {
					panic(err)
				}
				desc += " " + show(z)
				if m.has(z) {
					dups++
				} else {
					m = append(m, z)
					if !model(universe).has(z) {
						universe = append(universe, z)
					}
				}
			}
			ops = append(ops, desc)
			pems++
			if got := p.AppendCertsFromPEM(b.Bytes()); got != any {
				c.Fail("after %s: the pool says it found certificates: %v", strings.Join(ops, "; "), got)
			}
		}
		if !check() {
			return
		}
	}
	c.Count("duplicates", dups)
	c.Count("updates", updates)
	c.Count("PEM", pems)
	if dups+updates+pems > 0 {
		c.Nontrivial(fmt.Sprintf("%d certs %d dups %d updates %d PEM, %d ops", len(m), dups, updates, pems, len(ops)))
	}
}
