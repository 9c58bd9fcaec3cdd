package lib

import (
	"bytes"
	"compress/gzip"
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/bits-and-blooms/bitset"
	"github.com/herumi/bls-go-binary/bls"
)

// Types of gossip objects, as they are on the wire.
const (
	STH_INIT = "http://ctng.uconn.edu/101"
	REV_INIT = "http://ctng.uconn.edu/102"
	ACC_INIT = "http://ctng.uconn.edu/103"
	CON_INIT = "http://ctng.uconn.edu/104"
	STH_FRAG = "http://ctng.uconn.edu/201"
	REV_FRAG = "http://ctng.uconn.edu/202"
	ACC_FRAG = "http://ctng.uconn.edu/203"
	STH_FULL = "http://ctng.uconn.edu/301"
	REV_FULL = "http://ctng.uconn.edu/302"
	ACC_FULL = "http://ctng.uconn.edu/303"
)

var typeNames = map[string]string{STH_INIT: "STH_INIT", REV_INIT: "REV_INIT", ACC_INIT: "ACC_INIT", CON_INIT: "CON_INIT", STH_FRAG: "STH_FRAG",
	REV_FRAG: "REV_FRAG", ACC_FRAG: "ACC_FRAG", STH_FULL: "STH_FULL", REV_FULL: "REV_FULL", ACC_FULL: "ACC_FULL"}

func TypeName(t string) string {
	if n, ok := typeNames[t]; ok {
		return n
	}
	return "?" + t
}

var fragOf = map[string]string{STH_INIT: STH_FRAG, REV_INIT: REV_FRAG, ACC_INIT: ACC_FRAG}
var fullOf = map[string]string{STH_INIT: STH_FULL, REV_INIT: REV_FULL, ACC_INIT: ACC_FULL, STH_FRAG: STH_FULL, REV_FRAG: REV_FULL, ACC_FRAG: ACC_FULL}

func IsFull(t string) bool   { return t == STH_FULL || t == REV_FULL || t == ACC_FULL }
func IsFrag(t string) bool   { return t == STH_FRAG || t == REV_FRAG || t == ACC_FRAG }
func IsInit(t string) bool   { return t == STH_INIT || t == REV_INIT || t == ACC_INIT }
func FragOf(t string) string { return fragOf[t] }
func FullOf(t string) string { return fullOf[t] }

// Kind is STH, REV, ACC or CON.
func Kind(t string) string {
	n := TypeName(t)
	return n[:min(3, len(n))]
}

// Obj is a gossip object as it is on the wire.
type Obj struct {
	Application   string    `json:"application"`
	Period        string    `json:"period"`
	Type          string    `json:"type"`
	Signer        string    `json:"signer"`
	Signers       []string  `json:"signers,omitempty"`
	Signature     [2]string `json:"signature"`
	Timestamp     string    `json:"timestamp"`
	Crypto_Scheme string    `json:"crypto_scheme"`
	Payload       [3]string `json:"payload,omitempty"`
}

func (o Obj) JSON() []byte {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	return b
}

// Content is what the signatures cover.
func (o Obj) Content() string { return o.Payload[0] + o.Payload[1] + o.Payload[2] }

func (o Obj) String() string {
	h := sha256.Sum256([]byte(o.Content()))
	return fmt.Sprintf("%s about %s period %q signer %q content %x", TypeName(o.Type), o.Payload[0], o.Period, o.Signer, h[:4])
}

// Key identifies what the object speaks about.
func (o Obj) Key() string { return Kind(o.Type) + "|" + o.Payload[0] + "|" + o.Period }

type sthBody struct {
	Signer, Timestamp, Period, RootHash string
	TreeSize                            int
}

type revBody struct {
	Period    string
	Delta_CRV []byte
	SRH       string
}

// ParseSTH decodes the tree head of an STH object.
func (o Obj) ParseSTH() (signer, period, root string, size int, err error) {
	raw, err := hex.DecodeString(o.Payload[1])
	if err != nil {
		return
	}
	var s sthBody
	err = json.Unmarshal(raw, &s)
	return s.Signer, s.Period, s.RootHash, s.TreeSize, err
}

// ParseREV decodes the delta of a REV object.
func (o Obj) ParseREV() (period string, delta *bitset.BitSet, srh string, err error) {
	var r revBody
	if err = json.Unmarshal([]byte(o.Payload[2]), &r); err != nil {
		return
	}
	raw, err := Gunzip(r.Delta_CRV)
	if err != nil {
		return
	}
	delta = new(bitset.BitSet)
	err = delta.UnmarshalBinary(raw)
	return r.Period, delta, r.SRH, err
}

func Gzip(b []byte) []byte {
	var buf bytes.Buffer
	zw := gzip.NewWriter(&buf)
	zw.Write(b)
	zw.Close()
	return buf.Bytes()
}

func Gunzip(b []byte) ([]byte, error) {
	zr, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(zr)
}

// RSASigString signs msg as id with key, in the wire format.
func RSASigString(msg []byte, key *rsa.PrivateKey, id string) string {
	h := sha256.Sum256(msg)
	sig, err := rsa.SignPKCS1v15(rand.Reader, key, crypto.SHA256, h[:])
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf(`{"sig":"%s","id":"%s"}`, hex.EncodeToString(sig), id)
}

const Stamp = "2000-01-01T00:00:00Z"

// P2 renders a period label.
func P2(n int) string { return fmt.Sprintf("%02d", ((n%60)+60)%60) }

// MakeSTH is a tree head of logger for the given period, distinguished by tag.
func (w *World) MakeSTH(logger string, period int, tag string) Obj {
	root := sha256.Sum256([]byte(tag))
	return w.MakeSTHRoot(logger, period, hex.EncodeToString(root[:]), 7)
}

func (w *World) MakeSTHRoot(logger string, period int, root string, size int) Obj {
	body, _ := json.Marshal(sthBody{Signer: logger, Timestamp: Stamp, Period: P2(period - 1), RootHash: root, TreeSize: size})
	o := Obj{Application: "CTng", Type: STH_INIT, Period: P2(period), Signer: logger, Timestamp: Stamp, Crypto_Scheme: "RSA",
		Payload: [3]string{logger, hex.EncodeToString(body), ""}}
	o.Signature[0] = RSASigString([]byte(o.Content()), w.RSA[logger], logger)
	return o
}

func sha(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

// SRHMessage is what the signed revocation hash of a CA covers.
func SRHMessage(period string, crv, delta *bitset.BitSet) []byte {
	a, _ := crv.MarshalBinary()
	b, _ := delta.MarshalBinary()
	return sha([]byte(period + string(sha(a)) + string(sha(b))))
}

// MakeREV is a revocation of ca for the given period: delta leads to crv.
func (w *World) MakeREV(ca string, period int, crv, delta *bitset.BitSet) Obj {
	return w.MakeREVSigned(ca, period, delta, RSASigString(SRHMessage(P2(period), crv, delta), w.RSA[ca], ca))
}

// MakeREVSigned is a revocation of ca with a given signed revocation hash.
func (w *World) MakeREVSigned(ca string, period int, delta *bitset.BitSet, srh string) Obj {
	raw, _ := delta.MarshalBinary()
	body, _ := json.Marshal(revBody{Period: P2(period), Delta_CRV: Gzip(raw), SRH: srh})
	o := Obj{Application: "CTng", Type: REV_INIT, Period: P2(period), Signer: ca, Timestamp: Stamp, Crypto_Scheme: "RSA",
		Payload: [3]string{ca, "CRV", string(body)}}
	o.Signature[0] = RSASigString([]byte(o.Content()), w.RSA[ca], ca)
	return o
}

// Bits makes a bit vector of n bits with the given ones set.
func Bits(n uint, ones ...uint) *bitset.BitSet {
	b := bitset.New(n)
	for _, i := range ones {
		b.Set(i)
	}
	return b
}

// SimpleREV is a first revocation of ca, distinguished by the bits.
func (w *World) SimpleREV(ca string, period int, ones ...uint) Obj {
	d := Bits(2048, ones...)
	return w.MakeREV(ca, period, d, d)
}

// MakeACC is an accusation of accused by monitor.
func (w *World) MakeACC(monitor, accused string, period int) Obj {
	o := Obj{Application: "CTng", Type: ACC_INIT, Period: P2(period), Signer: monitor, Timestamp: Stamp, Crypto_Scheme: "RSA",
		Payload: [3]string{accused, "", ""}}
	o.Signature[0] = RSASigString([]byte(o.Content()), w.RSA[monitor], monitor)
	return o
}

func fragString(msg string, key *bls.SecretKey, id string) string {
	return fmt.Sprintf(`{"sign":"%s","id":"%s"}`, key.Sign(msg).SerializeToHexStr(), id)
}

// MakeFrag is gossiper's fragment on the content of an INIT object.
func (w *World) MakeFrag(gossiper string, o Obj) Obj {
	return w.FragWith(gossiper, w.BLS[gossiper], o)
}

func (w *World) FragWith(gossiper string, key *bls.SecretKey, o Obj) Obj {
	o.Type = fragOf[o.Type]
	o.Signer = gossiper
	o.Crypto_Scheme = "bls"
	o.Signature = [2]string{fragString(o.Content(), key, gossiper), ""}
	return o
}

// MakeFull is the object endorsed by the gossipers.
func (w *World) MakeFull(gossipers []string, o Obj) Obj {
	sigs := []bls.Sign{}
	for _, g := range gossipers {
		sigs = append(sigs, *w.BLS[g].Sign(o.Content()))
	}
	return w.FullWith(gossipers, sigs, o)
}

func (w *World) FullWith(ids []string, sigs []bls.Sign, o Obj) Obj {
	agg := new(bls.Sign)
	if len(sigs) > 0 {
		agg.Aggregate(sigs)
	}
	ids = append([]string{}, ids...)
	sort.Strings(ids)
	j, _ := json.Marshal(ids)
	o.Type = fullOf[o.Type]
	o.Signer = ""
	o.Signers = ids
	o.Crypto_Scheme = "bls"
	o.Signature = [2]string{fmt.Sprintf(`{"sign":"%s", "ids":%s}`, agg.SerializeToHexStr(), j), ""}
	return o
}

// MakeCON is the conflict proof made of two INIT objects, labelled with the period it was found in.
func MakeCON(a, b Obj, period int) Obj {
	return Obj{Application: "CTng", Type: CON_INIT, Period: P2(period), Timestamp: Stamp,
		Signature: [2]string{a.Signature[0], b.Signature[0]}, Payload: [3]string{a.Payload[0], a.Content(), b.Content()}}
}

// ---- oracles: they use only the keys of the world and the standard and BLS libraries

func (w *World) checkRSA(sigstr, msg, want string) error {
	var s map[string]string
	if err := json.Unmarshal([]byte(sigstr), &s); err != nil {
		return err
	}
	if s["id"] != want {
		return fmt.Errorf("signed as %q, not as %q", s["id"], want)
	}
	key, ok := w.RSA[want]
	if !ok {
		return fmt.Errorf("unknown signer %q", want)
	}
	raw, err := hex.DecodeString(s["sig"])
	if err != nil {
		return err
	}
	h := sha256.Sum256([]byte(msg))
	return rsa.VerifyPKCS1v15(&key.PublicKey, crypto.SHA256, h[:], raw)
}

// statement tells what kind of statement the signed content is, and for which period.
func statement(entity, content string) (kind string, period int, err error) {
	rest, ok := strings.CutPrefix(content, entity)
	if !ok || entity == "" {
		return "", 0, errors.New("the content does not name the entity")
	}
	if body, ok := strings.CutPrefix(rest, "CRV"); ok {
		var r revBody
		if err = json.Unmarshal([]byte(body), &r); err != nil {
			return "", 0, err
		}
		period, err = strconv.Atoi(r.Period)
		return "REV", period, err
	}
	raw, err := hex.DecodeString(rest)
	if err != nil {
		return "", 0, err
	}
	var s sthBody
	if err = json.Unmarshal(raw, &s); err != nil {
		return "", 0, err
	}
	period, err = strconv.Atoi(s.Period)
	return "STH", (period + 1) % 60, err
}

func (w *World) checkPeriod(o Obj) error {
	kind, period, err := statement(o.Payload[0], o.Content())
	if err != nil {
		return err
	}
	if o.Period != fmt.Sprintf("%02d", period) {
		return fmt.Errorf("labelled %q but signed for period %d", o.Period, period)
	}
	if kind != Kind(o.Type) {
		return fmt.Errorf("a %s statement in a %s object", kind, TypeName(o.Type))
	}
	return nil
}

// Valid decides whether the object is what it claims to be. It is the oracle of the checks.
func (w *World) Valid(o Obj) error {
	switch o.Type {
	case STH_INIT, REV_INIT:
		if o.Signer != o.Payload[0] {
			return fmt.Errorf("%q speaks for %q", o.Signer, o.Payload[0])
		}
		if err := w.checkPeriod(o); err != nil {
			return err
		}
		return w.checkRSA(o.Signature[0], o.Content(), o.Signer)
	case ACC_INIT:
		if o.Payload[0] == "" {
			return errors.New("nobody accused")
		}
		return w.checkRSA(o.Signature[0], o.Content(), o.Signer)
	case CON_INIT:
		e := o.Payload[0]
		k1, p1, err1 := statement(e, o.Payload[1])
		k2, p2, err2 := statement(e, o.Payload[2])
		if err1 != nil || err2 != nil {
			return errors.New("not two statements of the entity")
		}
		if k1 != k2 || p1 != p2 || o.Payload[1] == o.Payload[2] {
			return fmt.Errorf("the statements do not conflict (%s %d, %s %d, same %v)", k1, p1, k2, p2, o.Payload[1] == o.Payload[2])
		}
		if err := w.checkRSA(o.Signature[0], o.Payload[1], e); err != nil {
			return err
		}
		return w.checkRSA(o.Signature[1], o.Payload[2], e)
	case STH_FRAG, REV_FRAG, ACC_FRAG:
		if o.Type != ACC_FRAG {
			if err := w.checkPeriod(o); err != nil {
				return err
			}
		}
		var s map[string]string
		if err := json.Unmarshal([]byte(o.Signature[0]), &s); err != nil {
			return err
		}
		if s["id"] != o.Signer {
			return fmt.Errorf("fragment of %q attributed to %q", s["id"], o.Signer)
		}
		pub, ok := w.Pub[o.Signer]
		if !ok {
			return fmt.Errorf("unknown gossiper %q", o.Signer)
		}
		sign := new(bls.Sign)
		if err := sign.DeserializeHexStr(s["sign"]); err != nil {
			return err
		}
		if !sign.Verify(pub, o.Content()) {
			return errors.New("fragment does not verify")
		}
		return nil
	case STH_FULL, REV_FULL, ACC_FULL:
		if o.Type != ACC_FULL {
			if err := w.checkPeriod(o); err != nil {
				return err
			}
		}
		_, err := w.FullSigners(o)
		return err
	}
	return fmt.Errorf("unknown type %q", o.Type)
}

// FullSigners returns the distinct gossipers that endorsed the content, or why it is not endorsed.
func (w *World) FullSigners(o Obj) ([]string, error) {
	var s struct {
		Sign string
		IDs  []string
	}
	if err := json.Unmarshal([]byte(o.Signature[0]), &s); err != nil {
		return nil, err
	}
	seen := map[string]bool{}
	keys := []bls.PublicKey{}
	for _, id := range s.IDs {
		pub, ok := w.Pub[id]
		if !ok || seen[id] {
			return nil, fmt.Errorf("unknown or repeated signer %q", id)
		}
		seen[id] = true
		keys = append(keys, *pub)
	}
	if len(seen) < w.Threshold {
		return nil, fmt.Errorf("%d signers, threshold %d", len(seen), w.Threshold)
	}
	sign := new(bls.Sign)
	if err := sign.DeserializeHexStr(s.Sign); err != nil {
		return nil, err
	}
	if !sign.FastAggregateVerify(keys, []byte(o.Content())) {
		return nil, errors.New("threshold signature does not verify")
	}
	return s.IDs, nil
}
