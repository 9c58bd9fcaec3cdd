// Package ser watches what is written and read back.
package ser

import (
	"bytes"
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/bits-and-blooms/bitset"
	"github.com/herumi/bls-go-binary/bls"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/client"
	rc "github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/util"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// TestC25: what is written is what is read, and what was altered in between is noticed.
func TestC25(t *testing.T) {
	RunProp(t, "C25", func(r *Run) {
		for i := 0; i < r.N(40, 400); i++ {
			for _, k := range []struct {
				name string
				f    func(*Case)
			}{{"rsa", rsaSig}, {"frag", frag}, {"threshold", threshold}, {"keymap", keymap}, {"config", config}, {"badconfig", badConfig}, {"badconfig2", badConfig},
				{"files", files}, {"rev", revocation}, {"proof", proof}, {"ext", extension}, {"gzip", compressed}, {"object", object}} {
				r.Case(fmt.Sprintf("%s-%d", k.name, i), k.f)
			}
		}
	})
}

// altered returns b with one random alteration.
func altered(b []byte, rng *mrand.Rand) []byte {
	out := append([]byte{}, b...)
	if len(out) == 0 {
		return []byte{byte(rng.Intn(256))}
	}
	i := rng.Intn(len(out))
	n := 1 + rng.Intn(min(len(out)-i, 40))
	switch rng.Intn(8) {
	case 0:
		out[i] ^= 1 << rng.Intn(8)
	case 1: // another character of its kind
		const hexd = "0123456789abcdef"
		out[i] = hexd[rng.Intn(16)]
	case 2:
		out = out[:i]
	case 3:
		out = append(out[:i], out[i+n:]...)
	case 4:
		out = append(out[:i+n], append(append([]byte{}, b[i:i+n]...), b[i+n:]...)...)
	case 5:
		out = append(out[:i], append([]byte{byte(rng.Intn(256))}, b[i:]...)...)
	case 6:
		j := rng.Intn(len(out))
		out[i], out[j] = out[j], out[i]
	case 7:
		for k := i; k < i+n; k++ {
			out[k] = "0123456789abcdef"[rng.Intn(16)]
		}
	}
	return out
}

// names are addresses as entities have them.
func name(rng *mrand.Rand, i int) string {
	switch rng.Intn(5) {
	case 0:
		return fmt.Sprintf("[::%x]:%d", i+1, 8000+i)
	case 1:
		return fmt.Sprintf("10.0.%d.%d:80", rng.Intn(256), i)
	case 2:
		return fmt.Sprintf("node-%d.example.org", i)
	case 3:
		return fmt.Sprintf("n%d", i)
	}
	return fmt.Sprintf("localhost:%d", 9000+i)
}

func message(rng *mrand.Rand) string {
	n := []int{0, 1, 31, 32, 33, 64, 1000, 5000}[rng.Intn(8)]
	b := make([]byte, n)
	rng.Read(b)
	return string(b)
}

// deployment makes the configurations of some entities from fixture keys.
func deployment(c *Case) []rc.CryptoConfig {
	n := 2 + c.Rng.Intn(5)
	thr := 2 + c.Rng.Intn(n-1)
	off := c.Rng.Intn(30)
	out := []rc.CryptoConfig{}
	pub, bpub := rc.RSAPublicMap{}, rc.BlsPublicMap{}
	ids := []string{}
	for i := 0; i < n; i++ {
		id := name(c.Rng, i)
		ids = append(ids, id)
		pub[rc.CTngID(id)] = RSAKey(off + i).PublicKey
		bpub[rc.CTngID(id)] = *BLSKey(off + i).GetPublicKey()
	}
	for i := 0; i < n; i++ {
		out = append(out, rc.CryptoConfig{Threshold: thr, N: n, HashScheme: rc.SHA256, SignScheme: "rsa", ThresholdScheme: "bls", SelfID: rc.CTngID(ids[i]),
			SignPublicMap: pub, SignSecretKey: *RSAKey(off + i), ThresholdPublicMap: bpub, ThresholdSecretKey: *BLSKey(off + i)})
	}
	return out
}

func verifies(pub *rsa.PublicKey, msg string, sig []byte) bool {
	h := sha256.Sum256([]byte(msg))
	return rsa.VerifyPKCS1v15(pub, crypto.SHA256, h[:], sig) == nil
}

func rsaSig(c *Case) {
	d := deployment(c)
	for k := 0; k < 6; k++ {
		cfg := d[c.Rng.Intn(len(d))]
		other := d[c.Rng.Intn(len(d))]
		msg := message(c.Rng)
		sig, err := cfg.Sign([]byte(msg))
		if err != nil {
			c.Fail("signing: %v", err)
			return
		}
		if pk := cfg.SignSecretKey.PublicKey; !verifies(&pk, msg, sig.Sig) || sig.ID != cfg.SelfID {
			c.Fail("the signature made by %s is not one under its key and name", cfg.SelfID)
		}
		s := sig.String()
		got, err := rc.RSASigFromString(s)
		if err != nil || !bytes.Equal(got.Sig, sig.Sig) || got.ID != sig.ID {
			c.Fail("the signature %s was read back as (%x, %s), error %v", s, got.Sig, got.ID, err)
			continue
		}
		if err := other.Verify([]byte(msg), got); err != nil {
			c.Fail("a signature that was read back does not verify: %v", err)
		}
		c.Count("values", 1)
		for j := 0; j < 40; j++ {
			a := string(altered([]byte(s), c.Rng))
			if j%8 == 0 { // another entity's name
				a = strings.Replace(s, string(sig.ID), string(d[c.Rng.Intn(len(d))].SelfID), 1)
			}
			g, err := rc.RSASigFromString(a)
			c.Count("alterations", 1)
			if err != nil || (bytes.Equal(g.Sig, sig.Sig) && g.ID == sig.ID) {
				continue
			}
			c.Count("alterations that were read", 1)
			if other.Verify([]byte(msg), g) == nil {
				c.Fail("the signature %s altered to %s verifies", s, a)
			}
		}
		if m2 := message(c.Rng) + "x"; other.Verify([]byte(m2), got) == nil {
			c.Fail("a signature verifies for another message")
		}
	}
	c.Nontrivial(c.Name)
}

func frag(c *Case) {
	d := deployment(c)
	for k := 0; k < 6; k++ {
		cfg := d[c.Rng.Intn(len(d))]
		other := d[c.Rng.Intn(len(d))]
		msg := message(c.Rng) + "."
		f, err := cfg.ThresholdSign(msg)
		if err != nil {
			c.Fail("signing: %v", err)
			return
		}
		if pk := cfg.ThresholdSecretKey.GetPublicKey(); !f.Sign.Verify(pk, msg) || f.ID != cfg.SelfID {
			c.Fail("the fragment made by %s is not one under its key and name", cfg.SelfID)
		}
		s := f.String()
		got, err := rc.SigFragmentFromString(s)
		if err != nil || !got.Sign.IsEqual(f.Sign) || got.ID != f.ID {
			c.Fail("the fragment %s was read back otherwise, error %v", s, err)
			continue
		}
		if err := other.FragmentVerify(msg, got); err != nil {
			c.Fail("a fragment that was read back does not verify: %v", err)
		}
		c.Count("values", 1)
		for j := 0; j < 24; j++ {
			a := string(altered([]byte(s), c.Rng))
			if j%8 == 0 {
				a = strings.Replace(s, string(f.ID), string(d[c.Rng.Intn(len(d))].SelfID), 1)
			}
			g, err := rc.SigFragmentFromString(a)
			c.Count("alterations", 1)
			if err != nil || (g.Sign.IsEqual(f.Sign) && g.ID == f.ID) {
				continue
			}
			c.Count("alterations that were read", 1)
			if !readable(a) {
				c.Fail("%s, which has no readable signature, was read as a fragment without an error", a)
			}
			if other.FragmentVerify(msg, g) == nil {
				c.Fail("the fragment %s altered to %s verifies", s, a)
			}
		}
		if other.FragmentVerify(message(c.Rng)+"x", got) == nil {
			c.Fail("a fragment verifies for another message")
		}
	}
	c.Nontrivial(c.Name)
}

// readable tells whether a written form has a BLS signature in it at all.
func readable(s string) bool {
	m := map[string]any{}
	if json.Unmarshal([]byte(s), &m) != nil {
		return false
	}
	for _, v := range m {
		if x, ok := v.(string); ok {
			var sign bls.Sign
			if sign.DeserializeHexStr(x) == nil {
				return true
			}
		}
	}
	return false
}

func idSet(ids []rc.CTngID) string {
	l := []string{}
	for _, x := range ids {
		l = append(l, string(x))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func threshold(c *Case) {
	d := deployment(c)
	for k := 0; k < 4; k++ {
		msg := message(c.Rng) + "."
		perm := c.Rng.Perm(len(d))[:d[0].Threshold+c.Rng.Intn(len(d)-d[0].Threshold+1)]
		frags := []rc.SigFragment{}
		for _, i := range perm {
			f, _ := d[i].ThresholdSign(msg)
			frags = append(frags, f)
		}
		other := d[c.Rng.Intn(len(d))]
		sig, err := other.ThresholdAggregate(frags)
		if err != nil {
			c.Fail("aggregating %d fragments at threshold %d: %v", len(frags), other.Threshold, err)
			return
		}
		s, err := sig.String()
		if err != nil {
			c.Fail("writing a threshold signature: %v", err)
			return
		}
		got, err := rc.ThresholdSigFromString(s)
		if err != nil || !got.Sign.IsEqual(sig.Sign) || !reflect.DeepEqual(got.IDs, sig.IDs) {
			c.Fail("the threshold signature %s was read back otherwise, error %v", s, err)
			continue
		}
		want := []rc.CTngID{}
		for _, i := range perm {
			want = append(want, d[i].SelfID)
		}
		if idSet(got.IDs) != idSet(want) {
			c.Fail("the signature of %s names the signers %s", idSet(want), idSet(got.IDs))
		}
		if err := other.ThresholdVerify(msg, got); err != nil {
			c.Fail("a threshold signature that was read back does not verify: %v", err)
		}
		c.Count("values", 1)
		for j := 0; j < 24; j++ {
			a := string(altered([]byte(s), c.Rng))
			switch j % 8 {
			case 0:
				a = strings.Replace(s, string(sig.IDs[0]), string(d[c.Rng.Intn(len(d))].SelfID), 1)
			case 1:
				a = strings.Replace(s, `"`+string(sig.IDs[0])+`"`, `"`+string(d[c.Rng.Intn(len(d))].SelfID)+`","`+string(sig.IDs[0])+`"`, 1)
			case 2:
				a = strings.Replace(s, `"`+string(sig.IDs[0])+`",`, "", 1)
			}
			g, err := rc.ThresholdSigFromString(a)
			c.Count("alterations", 1)
			if err != nil || (g.Sign.IsEqual(sig.Sign) && idSet(g.IDs) == idSet(sig.IDs)) {
				continue
			}
			c.Count("alterations that were read", 1)
			if !readable(a) {
				c.Fail("%s, which has no readable signature, was read as a threshold signature without an error", a)
			}
			if other.ThresholdVerify(msg, g) == nil {
				c.Fail("the threshold signature %s altered to %s verifies", s, a)
			}
		}
		if other.ThresholdVerify(message(c.Rng)+"x", got) == nil {
			c.Fail("a threshold signature verifies for another message")
		}
	}
	c.Nontrivial(c.Name)
}

func keymap(c *Case) {
	n := c.Rng.Intn(30)
	m := rc.BlsPublicMap{}
	for i := 0; i < n; i++ {
		m[rc.CTngID(name(c.Rng, i))] = *BLSKey(c.Rng.Intn(500)).GetPublicKey()
	}
	ser := m.Serialize()
	b, err := json.Marshal(ser)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	var back map[string][]byte
	json.Unmarshal(b, &back)
	got := rc.BlsPublicMap{}
	if err := got.Deserialize(back); err != nil {
		c.Fail("reading a map of %d keys back: %v", n, err)
		return
	}
	if len(got) != len(m) {
		c.Fail("a map of %d keys was read back with %d", len(m), len(got))
	}
	for id, k := range m {
		g, ok := got[id]
		if !ok || !g.IsEqual(&k) {
			c.Fail("in a map of %d keys that of %s was read back otherwise", len(m), id)
			return
		}
		c.Count("values", 1)
	}
	// a spoilt key is noticed, or it is another key
	for id, v := range back {
		a := altered(v, c.Rng)
		bad := map[string][]byte{}
		for k, x := range back {
			bad[k] = x
		}
		bad[id] = a
		g := rc.BlsPublicMap{}
		err := g.Deserialize(bad)
		c.Count("alterations", 1)
		var want bls.PublicKey
		if e := want.Deserialize(a); e != nil {
			if err == nil {
				c.Fail("the spoilt key %x of %s was read without an error", a, id)
			}
			continue
		}
		k := g[rc.CTngID(id)]
		if err != nil || !k.IsEqual(&want) {
			c.Fail("the key %x of %s was read otherwise, error %v", a, id, err)
		}
	}
	c.Nontrivial(fmt.Sprintf("keymap %d", n))
}

// stored is the file of a configuration.
type stored struct {
	SelfID             string
	Threshold          int
	N                  int
	HashScheme         int
	SignScheme         string
	ThresholdScheme    string
	SignPublicMap      map[string]rsa.PublicKey
	SignSecretKey      rsa.PrivateKey
	ThresholdPublicMap map[string][]byte
	ThresholdSecretKey []byte
}

func sameKey(a, b *rsa.PublicKey) bool {
	if a.N == nil || b.N == nil {
		return a.N == b.N && a.E == b.E
	}
	return a.N.Cmp(b.N) == 0 && a.E == b.E
}

func samePriv(a, b *rsa.PrivateKey) bool {
	if !sameKey(&a.PublicKey, &b.PublicKey) || len(a.Primes) != len(b.Primes) || (a.D == nil) != (b.D == nil) || (a.D != nil && a.D.Cmp(b.D) != 0) {
		return false
	}
	for i, p := range a.Primes {
		if (p == nil) != (b.Primes[i] == nil) || (p != nil && p.Cmp(b.Primes[i]) != 0) {
			return false
		}
	}
	return true
}

// differs tells in what the configuration read is not the one stored in the file.
func differs(s *stored, g *rc.CryptoConfig, kind string) string {
	if string(g.SelfID) != s.SelfID || g.SignScheme != s.SignScheme || int(g.HashScheme) != s.HashScheme {
		return "identity or schemes"
	}
	if len(g.SignPublicMap) != len(s.SignPublicMap) {
		return "the number of RSA keys"
	}
	for id, k := range s.SignPublicMap {
		x, ok := g.SignPublicMap[rc.CTngID(id)]
		if !ok || !sameKey(&x, &k) {
			return "the RSA key of " + id
		}
	}
	if kind != "verify" && !samePriv(&g.SignSecretKey, &s.SignSecretKey) {
		return "the RSA secret key"
	}
	if kind == "basic" {
		return ""
	}
	if g.Threshold != s.Threshold || g.N != s.N || g.ThresholdScheme != s.ThresholdScheme {
		return "the threshold"
	}
	if len(g.ThresholdPublicMap) != len(s.ThresholdPublicMap) {
		return "the number of BLS keys"
	}
	for id, k := range s.ThresholdPublicMap {
		var want bls.PublicKey
		if want.Deserialize(k) != nil {
			return "the unreadable BLS key of " + id
		}
		x, ok := g.ThresholdPublicMap[rc.CTngID(id)]
		if !ok || !x.IsEqual(&want) {
			return "the BLS key of " + id
		}
	}
	if kind == "full" {
		var want bls.SecretKey
		if want.Deserialize(s.ThresholdSecretKey) != nil || !g.ThresholdSecretKey.IsEqual(&want) {
			return "the BLS secret key"
		}
	}
	return ""
}

var readers = []struct {
	kind string
	read func(string) (*rc.CryptoConfig, error)
}{{"full", rc.ReadCryptoConfig}, {"verify", rc.ReadVerifyOnlyCryptoConfig}, {"basic", rc.ReadBasicCryptoConfig}}

func save(c *Case, d []rc.CryptoConfig) []string {
	dir := filepath.Join(c.Dir, "crypto", "deep")
	if err := rc.SaveCryptoFiles(dir, d); err != nil {
		c.Fail("saving configurations: %v", err)
		return nil
	}
	out := []string{}
	for _, x := range d {
		out = append(out, filepath.Join(dir, string(x.SelfID)+".test.json"))
	}
	return out
}

func config(c *Case) {
	d := deployment(c)
	if c.Rng.Intn(3) == 0 { // keys as the code itself makes them
		ids := []rc.CTngID{}
		for _, x := range d {
			ids = append(ids, x.SelfID)
		}
		g, err := rc.GenerateEntityCryptoConfigs(ids, d[0].Threshold)
		if err != nil {
			c.Fail("generating keys: %v", err)
			return
		}
		d = g
		c.Count("generated", 1)
	}
	if c.Rng.Intn(3) == 0 { // the other entities have no threshold keys, or not all of them are known
		for i := range d {
			d[i].N += c.Rng.Intn(5)
		}
	}
	if c.Rng.Intn(2) == 0 { // there are already files, longer ones
		big := append([]rc.CryptoConfig{}, d...)
		for i := range big {
			big[i].SignScheme = strings.Repeat("x", 3000)
		}
		save(c, big)
	}
	paths := save(c, d)
	if paths == nil {
		return
	}
	back := []*rc.CryptoConfig{}
	for i, p := range paths {
		want := rc.NewStoredCryptoConfig(&d[i])
		s := &stored{SelfID: string(d[i].SelfID), Threshold: d[i].Threshold, N: d[i].N, HashScheme: int(d[i].HashScheme), SignScheme: d[i].SignScheme, ThresholdScheme: d[i].ThresholdScheme,
			SignPublicMap: map[string]rsa.PublicKey{}, SignSecretKey: d[i].SignSecretKey, ThresholdPublicMap: map[string][]byte{}, ThresholdSecretKey: (&d[i].ThresholdSecretKey).Serialize()}
		for id, k := range d[i].SignPublicMap {
			s.SignPublicMap[string(id)] = k
		}
		for id, k := range d[i].ThresholdPublicMap {
			s.ThresholdPublicMap[string(id)] = k.Serialize()
		}
		if want.SelfID != d[i].SelfID {
			c.Fail("the stored form of the configuration of %s is that of %s", d[i].SelfID, want.SelfID)
		}
		for _, r := range readers {
			g, err := r.read(p)
			if err != nil || g == nil {
				c.Fail("reading a configuration back (%s): %v", r.kind, err)
				return
			}
			if x := differs(s, g, r.kind); x != "" {
				c.Fail("a configuration was read back (%s) with another value: %s", r.kind, x)
				return
			}
			c.Count("values", 1)
			if r.kind == "full" {
				back = append(back, g)
			}
			// what was signed before verifies after
			from := d[c.Rng.Intn(len(d))]
			msg := message(c.Rng) + "."
			sig, _ := from.Sign([]byte(msg))
			if err := g.Verify([]byte(msg), sig); err != nil {
				c.Fail("the signature of %s does not verify with the keys read back (%s): %v", from.SelfID, r.kind, err)
			}
			if r.kind == "basic" {
				continue
			}
			f, _ := from.ThresholdSign(msg)
			if err := g.FragmentVerify(msg, f); err != nil {
				c.Fail("the fragment of %s does not verify with the keys read back (%s): %v", from.SelfID, r.kind, err)
			}
		}
	}
	// what is signed after verifies with what was known before
	msg := message(c.Rng) + "."
	frags := []rc.SigFragment{}
	for _, g := range back {
		sig, err := g.Sign([]byte(msg))
		if err == nil {
			err = d[0].Verify([]byte(msg), sig)
		}
		if err != nil || sig.ID != g.SelfID {
			c.Fail("a signature by %s with the key read back does not verify: %v", g.SelfID, err)
		}
		f, err := g.ThresholdSign(msg)
		if err == nil {
			err = d[0].FragmentVerify(msg, f)
		}
		if err != nil {
			c.Fail("a fragment by %s with the key read back does not verify: %v", g.SelfID, err)
		}
		frags = append(frags, f)
	}
	c.Rng.Shuffle(len(frags), func(i, j int) { frags[i], frags[j] = frags[j], frags[i] })
	agg, err := back[0].ThresholdAggregate(frags[:d[0].Threshold])
	if err == nil {
		err = back[len(back)-1].ThresholdVerify(msg, agg)
	}
	if err != nil {
		c.Fail("a threshold signature with keys read back does not verify: %v", err)
	}
	c.Nontrivial(fmt.Sprintf("config %d/%d %s", d[0].Threshold, d[0].N, c.Name))
}

func badConfig(c *Case) {
	d := deployment(c)
	paths := save(c, d)
	if paths == nil {
		return
	}
	i := c.Rng.Intn(len(d))
	orig, err := os.ReadFile(paths[i])
	if err != nil {
		c.Fail("%v", err)
		return
	}
	fields := []string{"SelfID", "Threshold", "N", "HashScheme", "SignScheme", "ThresholdScheme", "SignPublicMap", "SignSecretKey", "ThresholdPublicMap", "ThresholdSecretKey"}
	for j := 0; j < 40; j++ {
		b := altered(orig, c.Rng)
		what := "bytes"
		if j%2 == 0 {
			var m map[string]any
			dec := json.NewDecoder(bytes.NewReader(orig))
			dec.UseNumber()
			dec.Decode(&m)
			f := fields[c.Rng.Intn(len(fields))]
			what = f
			switch c.Rng.Intn(6) {
			case 0:
				m[f] = "many"
			case 1:
				m[f] = 1.5
			case 2:
				m[f] = []int{300}
			case 3:
				m[f] = map[string]any{"x": true}
			case 4:
				m[f] = "A=="
			case 5:
				m[f] = 3
			}
			b, _ = json.MarshalIndent(m, "", " ")
		}
		p := filepath.Join(c.Dir, "bad.json")
		os.WriteFile(p, b, 0o644)
		s := &stored{}
		perr := json.Unmarshal(b, s)
		c.Count("alterations", 1)
		for _, r := range readers {
			g, err := r.read(p)
			if err != nil {
				c.Count("alterations noticed", 1)
				continue
			}
			if perr != nil {
				c.Fail("a configuration spoilt in %s (%v) was read (%s) without an error", what, perr, r.kind)
				return
			}
			if x := differs(s, g, r.kind); x != "" {
				c.Fail("a configuration altered in %s was read (%s) with another value than its file has: %s", what, r.kind, x)
				return
			}
			// altered keys verify nothing of the entity, the others all
			msg := message(c.Rng) + "."
			from := d[c.Rng.Intn(len(d))]
			sig, _ := from.Sign([]byte(msg))
			k, ok := s.SignPublicMap[string(from.SelfID)]
			right := from.SignSecretKey.PublicKey
			if ok = ok && s.SignScheme == "rsa" && sameKey(&k, &right); ok != (g.Verify([]byte(msg), sig) == nil) {
				c.Fail("with a configuration altered in %s (%s), the signature of an entity whose key is the same (%v) verifies: %v", what, r.kind, ok, !ok)
			}
		}
	}
	c.Nontrivial("badconfig " + c.Name)
}

func files(c *Case) {
	w := NewWorld(c.Dir, Topology{N: 2, Threshold: 2, Loggers: 1, CAs: 1})
	cp, kp := filepath.Join(c.Dir, "cert.pem"), filepath.Join(c.Dir, "key.pem")
	for k := 0; k < 4; k++ { // over and over to the same files
		der := CertSpec{Subject: strings.Repeat("s", 1+c.Rng.Intn(300)), Issuer: w.C[0], Key: 30 + c.Rng.Intn(9), Serial: c.Rng.Int63(), RID: k + 1}.DER(w)
		util.SaveCertificateToDisk(der, cp)
		got, err := util.ReadCertificateFromDisk(cp)
		if err != nil || !bytes.Equal(got, der) {
			c.Fail("a certificate of %d bytes was read back with %d, error %v", len(der), len(got), err)
		}
		key := RSAKey(c.Rng.Intn(40))
		util.SaveKeyToDisk(key, kp)
		gk, err := util.ReadKeyFromDisk(kp)
		if err != nil || !samePriv(gk, key) {
			c.Fail("a private key was read back otherwise, error %v", err)
			continue
		}
		c.Count("values", 2)
		orig, _ := os.ReadFile(kp)
		if b, _ := pem.Decode(orig); b == nil {
			c.Fail("the file of a key is not PEM")
		}
		for j := 0; j < 12; j++ {
			a := altered(orig, c.Rng)
			os.WriteFile(kp+".bad", a, 0o600)
			g, err := util.ReadKeyFromDisk(kp + ".bad")
			c.Count("alterations", 1)
			if err != nil || samePriv(g, key) {
				continue
			}
			h := sha256.Sum256([]byte("x"))
			sig, err := rsa.SignPKCS1v15(rand.Reader, g, crypto.SHA256, h[:])
			if err == nil && rsa.VerifyPKCS1v15(&key.PublicKey, crypto.SHA256, h[:], sig) == nil {
				c.Fail("an altered private key still signs")
			}
		}
		// the file of a certificate that was cut gives an error or what it says
		corig, _ := os.ReadFile(cp)
		for j := 0; j < 12; j++ {
			a := altered(corig, c.Rng)
			os.WriteFile(cp+".bad", a, 0o600)
			g, err := util.ReadCertificateFromDisk(cp + ".bad")
			c.Count("alterations", 1)
			b, _ := pem.Decode(a)
			if err == nil && (b == nil || !bytes.Equal(b.Bytes, g)) {
				c.Fail("an altered certificate file was read as something it does not say")
			}
		}
	}
	c.Nontrivial("files " + c.Name)
}

func revocation(c *Case) {
	w := NewWorld(c.Dir, Topology{N: 2, Threshold: 2, Loggers: 1, CAs: 2})
	i := c.Rng.Intn(2)
	pub, priv, cr := w.Cfg("C", i)
	ca := CA.InitializeCAContext(pub, priv, cr)
	cl := NewClient(w, c.Dir, false)
	ca.CRV = CA.CRV_init()
	period := P2(c.Rng.Intn(60))
	want := bitset.New(0)
	if c.Rng.Intn(3) == 0 {
		ca.CRV.MassRevoke([]float64{0.0001, 0.01, 0.5}[c.Rng.Intn(3)])
		want = ca.CRV.CRV_current.Clone()
	}
	for k := c.Rng.Intn(30); k > 0; k-- {
		x := []int{0, 1, 63, 64, 65, 127, 999999, 1000000, 1000063, 1000064, 1500000, c.Rng.Intn(1000000), c.Rng.Intn(2000000)}[c.Rng.Intn(13)]
		ca.CRV.Revoke(x)
		want.Set(uint(x))
	}
	o := CA.Generate_Revocation(ca, period, 0)
	b, err := json.Marshal(o)
	var back definition.Gossip_object
	if err == nil {
		err = json.Unmarshal(b, &back)
	}
	if err != nil || !reflect.DeepEqual(o, back) {
		c.Fail("a revocation statement was read back otherwise, error %v", err)
		return
	}
	srh, delta := client.Get_SRH_and_DCRV(back)
	if ones(&delta) != ones(want) {
		c.Fail("%d revocations were written, %d read back", want.Count(), delta.Count())
	}
	mine := Obj{}
	json.Unmarshal(b, &mine)
	if p, dl, _, err := mine.ParseREV(); err != nil || p != period || ones(dl) != ones(want) {
		c.Fail("the written statement for period %s with %d revocations says something else: %v", period, want.Count(), err)
	}
	if !cl.Ctx.VerifySRH(srh, &delta, w.C[i], period) {
		c.Fail("the signature on the revocations does not verify after reading back")
	}
	c.Count("values", 1)
	body := o.Payload[2]
	for j := 0; j < 16; j++ {
		a := back
		a.Payload[2] = string(altered([]byte(body), c.Rng))
		p, id := period, w.C[i]
		switch j {
		case 0:
			a.Payload[2] = body
			p = P2(c.Rng.Intn(60))
		case 1:
			a.Payload[2] = body
			id = w.C[1-i]
		}
		s2, d2 := client.Get_SRH_and_DCRV(a)
		c.Count("alterations", 1)
		sig, e1 := rc.RSASigFromString(srh)
		sig2, e2 := rc.RSASigFromString(s2)
		if e1 == nil && e2 == nil && bytes.Equal(sig.Sig, sig2.Sig) && sig.ID == sig2.ID && ones(&delta) == ones(&d2) && delta.Len() == d2.Len() && p == period && id == w.C[i] {
			continue
		}
		if cl.Ctx.VerifySRH(s2, &d2, id, p) {
			c.Fail("altered revocations verify (%d instead of %d)", d2.Count(), delta.Count())
		}
	}
	c.Nontrivial(fmt.Sprintf("rev %d", want.Count()))
}

func ones(b *bitset.BitSet) string {
	h := sha256.New()
	for i, ok := b.NextSet(0); ok; i, ok = b.NextSet(i + 1) {
		fmt.Fprintf(h, "%d ", i)
	}
	return hex.EncodeToString(h.Sum(nil))
}

func proof(c *Case) {
	n := 1 + c.Rng.Intn(40)
	certs := []x509.Certificate{}
	for i := 0; i < n; i++ {
		certs = append(certs, x509.Certificate{RawSubject: []byte(fmt.Sprintf("subject %d", i)), SubjectKeyId: []byte{byte(i), 0, 255}})
	}
	tree, err := rc.GenerateMerkleTree(rc.GenerateDataBlocks(certs))
	if err != nil {
		c.Fail("building a tree of %d: %v", n, err)
		return
	}
	root := rc.GenerateRootHash(tree)
	pois := rc.GeneratePOI(tree)
	if len(pois) < n {
		c.Fail("%d proofs for %d certificates", len(pois), n)
		return
	}
	for i := 0; i < n; i++ {
		m := rc.POI_for_transmission{Poi: pois[i], SubjectKeyId: certs[i].SubjectKeyId, Issuer: name(c.Rng, 1), LoggerID: name(c.Rng, 2)}
		b, err := json.Marshal(m)
		var back rc.POI_for_transmission
		if err == nil {
			err = json.Unmarshal(b, &back)
		}
		if err != nil || !reflect.DeepEqual(m, back) {
			c.Fail("a proof was read back otherwise, error %v", err)
			return
		}
		var mine POIMsg
		if err := json.Unmarshal(b, &mine); err != nil || !Included(certs[i].RawSubject, mine.Poi, root) {
			c.Fail("the written proof does not lead from the certificate to the root: %v", err)
		}
		if ok, err := rc.VerifyPOI(root, back.Poi, certs[i]); !ok || err != nil {
			c.Fail("a proof that was read back does not verify: %v", err)
		}
		c.Count("values", 1)
		for j := 0; j < 6; j++ {
			a := altered(b, c.Rng)
			var g rc.POI_for_transmission
			c.Count("alterations", 1)
			if json.Unmarshal(a, &g) != nil || g.Poi == nil {
				continue
			}
			p := &Proof{Siblings: g.Poi.Siblings, Path: g.Poi.Path}
			ok, _ := rc.VerifyPOI(root, g.Poi, certs[i])
			if ok != Included(certs[i].RawSubject, p, root) {
				c.Fail("the altered proof %s verifies: %v", a, ok)
			}
		}
	}
	c.Nontrivial(fmt.Sprintf("proof %d", n))
}

func toJSON(x any) string { b, _ := json.Marshal(x); return string(b) }

func extension(c *Case) {
	w := NewWorld(c.Dir, Topology{N: 3, Threshold: 2, Loggers: 4, CAs: 1})
	for k := 0; k < 6; k++ {
		e := CA.CTngExtension{SequenceNumber: CA.SequenceNumber{RID: []int{0, 1, c.Rng.Intn(1000000), 1 << 40}[c.Rng.Intn(4)]}}
		infos := []Info{}
		full := k%2 == 1 // endorsed tree heads, which a CA does not add itself
		for _, l := range w.L[:c.Rng.Intn(5)] {
			data := [][]byte{}
			for i := 0; i <= c.Rng.Intn(20); i++ {
				data = append(data, []byte(fmt.Sprint(i)))
			}
			root, proofs := Tree(data)
			at := c.Rng.Intn(len(data))
			o := w.MakeSTHRoot(l, c.Rng.Intn(60), hex.EncodeToString(root), len(data))
			if full {
				o = w.MakeFull(w.G[:2], o)
			}
			in := Info{STH: o, POI: POIMsg{Poi: &proofs[at], SubjectKeyId: []byte{1, byte(at)}, Issuer: w.C[0], LoggerID: l}}
			infos = append(infos, in)
			var li CA.LoggerInfo
			if err := json.Unmarshal([]byte(toJSON(in)), &li); err != nil {
				panic(err)
			}
			e.LoggerInformation = append(e.LoggerInformation, li)
		}
		enc := CA.EncodeCTngExtension(e)
		got := CA.DecodeCTngExtension(enc)
		if toJSON(got) != toJSON(e) {
			c.Fail("logger information was read back otherwise: %s instead of %s", toJSON(got), toJSON(e))
		}
		// in a certificate, with and without other extensions around it
		tmpl := CertSpec{Subject: "s", Issuer: w.C[0], Key: 30, NoExt: true}.Cert(w)
		tmpl.ExtraExtensions = []pkix.Extension{}
		ext := pkix.Extension{Id: CA.OIDCTngExtension, Value: enc}
		o1 := pkix.Extension{Id: []int{1, 2, 3, 4}, Value: []byte{4, 1, 7}}
		switch c.Rng.Intn(3) {
		case 0:
			tmpl.ExtraExtensions = append(tmpl.ExtraExtensions, ext)
		case 1:
			tmpl.ExtraExtensions = append(tmpl.ExtraExtensions, o1, ext)
		case 2:
			tmpl.ExtraExtensions = append(tmpl.ExtraExtensions, ext, o1)
		}
		der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &RSAKey(30).PublicKey, RSAKey(30))
		if err != nil {
			panic(err)
		}
		cert, err := x509.ParseCertificate(der)
		if err != nil {
			panic(err)
		}
		p := CA.ParseCTngextension(cert)
		if toJSON(p) != toJSON(e) {
			c.Fail("logger information was read from a certificate otherwise: %s instead of %s", toJSON(p), toJSON(e))
		}
		if CA.GetRIDfromCert(cert) != e.SequenceNumber.RID {
			c.Fail("the number %d was read from a certificate as %d", e.SequenceNumber.RID, CA.GetRIDfromCert(cert))
		}
		mine, n, err := ParseExt(cert)
		want := Ext{LoggerInformation: infos}
		want.SequenceNumber.RID = e.SequenceNumber.RID
		if err != nil || n != 1 || mine.SequenceNumber.RID != want.SequenceNumber.RID || len(mine.LoggerInformation) != len(infos) || (len(infos) > 0 && toJSON(mine.LoggerInformation) != toJSON(infos)) {
			c.Fail("the certificate says something else than was written: %s instead of %s, error %v", toJSON(mine), toJSON(want), err)
		}
		c.Count("values", 1)
		// one more is added to a certificate: the others stay
		if len(e.LoggerInformation) > 0 && !full {
			last := e.LoggerInformation[len(e.LoggerInformation)-1]
			e2 := e
			e2.LoggerInformation = e.LoggerInformation[:len(e.LoggerInformation)-1]
			pc := &x509.Certificate{Extensions: []pkix.Extension{o1, {Id: CA.OIDCTngExtension, Value: CA.EncodeCTngExtension(e2)}}}
			if c.Rng.Intn(2) == 0 {
				pc.Extensions[0], pc.Extensions[1] = pc.Extensions[1], pc.Extensions[0]
			}
			up := CA.UpdateCTngExtension(pc, last)
			if up == nil || toJSON(CA.ParseCTngextension(up)) != toJSON(e) {
				c.Fail("adding a logger's information changed the others")
			}
			if up != nil && len(up.Extensions) != 2 {
				c.Fail("adding a logger's information changed the number of extensions")
			}
		}
		// altered ones say what they say, or nothing
		for j := 0; j < 6; j++ {
			a := altered(enc, c.Rng)
			CA.DecodeCTngExtension(a)
			c.Count("alterations", 1)
		}
		for _, li := range got.LoggerInformation {
			if len(li.STH.Signers) == 0 {
				continue
			}
			cfg, _ := rc.ReadVerifyOnlyCryptoConfig(filepath.Join(c.Dir, "cfg", "M0", "crypto.json"))
			if cfg == nil || li.STH.Verify(cfg) != nil {
				c.Fail("a tree head in a certificate does not verify after reading back")
				continue
			}
			for j := 0; j < 6; j++ {
				x := li.STH
				switch j % 3 {
				case 0:
					x.Payload[1] = string(altered([]byte(x.Payload[1]), c.Rng))
				case 1:
					x.Payload[0] = string(altered([]byte(x.Payload[0]), c.Rng))
				case 2:
					x.Period = string(altered([]byte(x.Period), c.Rng))
				}
				c.Count("alterations", 1)
				if x.Payload == li.STH.Payload && (x.Period == li.STH.Period || strings.TrimLeft(x.Period, "0+") == strings.TrimLeft(li.STH.Period, "0+")) {
					continue
				}
				if x.Verify(cfg) == nil {
					c.Fail("an altered tree head %s verifies", toJSON(x))
				}
			}
		}
	}
	c.Nontrivial("ext " + c.Name)
}

func compressed(c *Case) {
	for k := 0; k < 4; k++ {
		n := []int{0, 1, 100, 32768, 65537, 125008, 300000}[c.Rng.Intn(7)]
		b := make([]byte, n)
		if c.Rng.Intn(2) == 0 {
			c.Rng.Read(b)
		}
		z, err := util.CompressData(b)
		if err != nil {
			c.Fail("compressing %d bytes: %v", n, err)
			continue
		}
		if g, err := util.DecompressData(z); err != nil || !bytes.Equal(g, b) {
			c.Fail("%d bytes came out of compression as %d, error %v", n, len(g), err)
		}
		if g, err := Gunzip(z); err != nil || !bytes.Equal(g, b) {
			c.Fail("%d bytes compressed are not gzip of them: %v", n, err)
		}
		if g, err := util.DecompressData(Gzip(b)); err != nil || !bytes.Equal(g, b) {
			c.Fail("%d bytes of gzip came out as %d, error %v", n, len(g), err)
		}
		c.Count("values", 1)
		for j := 0; j < 12; j++ {
			a := altered(z, c.Rng)
			if j == 0 {
				a = z[:len(z)-1-c.Rng.Intn(8)]
			}
			g, err := util.DecompressData(a)
			c.Count("alterations", 1)
			w, werr := Gunzip(a)
			if err == nil && (werr != nil || !bytes.Equal(g, w)) {
				c.Fail("altered compressed data was read without an error: %d bytes of %d", len(g), n)
			}
		}
	}
	c.Nontrivial("gzip " + c.Name)
}

func text(rng *mrand.Rand) string {
	const set = "abc019 \"\\{}[]:,<>&\n\t\u00e9\u4e16\u2028'\x00"
	rs := []rune(set)
	out := []rune{}
	for i := rng.Intn(30); i > 0; i-- {
		out = append(out, rs[rng.Intn(len(rs))])
	}
	return string(out)
}

func object(c *Case) {
	for k := 0; k < 30; k++ {
		o := definition.Gossip_object{Application: text(c.Rng), Period: text(c.Rng), Type: text(c.Rng), Signer: text(c.Rng), Timestamp: text(c.Rng), Crypto_Scheme: text(c.Rng)}
		for i := c.Rng.Intn(4); i > 0; i-- {
			o.Signers = append(o.Signers, text(c.Rng))
		}
		for i := range o.Signature {
			o.Signature[i] = text(c.Rng)
		}
		for i := range o.Payload {
			o.Payload[i] = text(c.Rng)
		}
		b, err := json.Marshal(o)
		var back definition.Gossip_object
		if err == nil {
			err = json.Unmarshal(b, &back)
		}
		if err != nil || !reflect.DeepEqual(o, back) {
			c.Fail("the object %+v was read back as %+v, error %v", o, back, err)
		}
		var mine Obj
		if err := json.Unmarshal(b, &mine); err != nil || mine.Payload != o.Payload || mine.Type != o.Type || mine.Period != o.Period || mine.Signature != o.Signature || mine.Signer != o.Signer {
			c.Fail("the written object %s is not the object %+v: %v", b, o, err)
		}
		p := filepath.Join(c.Dir, "o.json")
		var file definition.Gossip_object
		if err := util.WriteData(p, o); err != nil {
			c.Fail("writing an object: %v", err)
		}
		util.LoadConfiguration(&file, p)
		if !reflect.DeepEqual(o, file) {
			c.Fail("the object %+v was read from its file as %+v", o, file)
		}
		c.Count("values", 1)
	}
	c.Nontrivial("object " + c.Name)
}
