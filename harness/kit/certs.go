package kit

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"time"

	. "ctngverif/lib"
)

// Info is one logger information of a certificate, as it is in the extension.
type Info struct {
	STH Obj    `json:"STH"`
	POI POIMsg `json:"POI"`
}

// POIMsg is an inclusion proof as it is sent and stored.
type POIMsg struct {
	Poi          *Proof `json:"poi,omitempty"`
	SubjectKeyId []byte `json:"subjectKeyId,omitempty"`
	Issuer       string `json:"issuer,omitempty"`
	LoggerID     string `json:"loggerID,omitempty"`
}

// Ext is the CTng extension.
type Ext struct {
	SequenceNumber struct {
		RID int `json:"RID,omitempty"`
	}
	LoggerInformation []Info `json:"LoggerInformation,omitempty"`
}

var ecKey, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)

var extOID = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 67847871}

func EncodeExt(e Ext) []byte {
	j, _ := json.Marshal(e)
	b, _ := asn1.Marshal(j)
	return b
}

// ParseExt finds and decodes the CTng extension of a certificate.
func ParseExt(c *x509.Certificate) (e Ext, n int, err error) {
	for _, x := range c.Extensions {
		if !x.Id.Equal(extOID) {
			continue
		}
		n++
		var j []byte
		if _, err = asn1.Unmarshal(x.Value, &j); err == nil {
			err = json.Unmarshal(j, &e)
		}
	}
	return
}

// CertSpec describes a certificate to be made.
type CertSpec struct {
	Subject   string
	Issuer    string // whose name it bears
	SignedBy  string // whose key it is signed with; the issuer's if empty
	Key       int    // fixture key of the subject
	Serial    int64
	RID       int
	Infos     []Info
	RawExt    []byte // instead of RID and Infos
	NoExt     bool
	SubjectID []byte
	NoID      bool // no key identifier at all
	EC        bool // an elliptic curve key
	CA        bool // says it is a CA
	Names     int  // so many host names
	Year      int  // valid for a year from then; from 2000 to 2030 if zero
}

// Cert makes a certificate.
func (s CertSpec) Cert(w *World) *x509.Certificate {
	der := s.DER(w)
	c, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return c
}

func (s CertSpec) DER(w *World) []byte {
	name := func(cn string) pkix.Name { return pkix.Name{CommonName: cn} }
	ski := s.SubjectID
	if ski == nil && !s.NoID {
		ski = []byte(fmt.Sprintf("%s/%s/%d", s.Subject, s.Issuer, s.Key))
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(s.Serial + 1), RawSubject: RawSubject(s.Subject), Issuer: name(s.Issuer), NotBefore: time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC),
		NotAfter: time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC), SubjectKeyId: ski, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, DNSNames: []string{"www.example.com"}}
	for i := 0; i < s.Names; i++ {
		t.DNSNames = append(t.DNSNames, fmt.Sprintf("host-%d.example.com", i))
	}
	if s.Year != 0 {
		t.NotBefore, t.NotAfter = time.Date(s.Year, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(s.Year+1, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	if s.CA {
		t.IsCA, t.KeyUsage = true, t.KeyUsage|x509.KeyUsageCertSign
	}
	if !s.NoExt {
		v := s.RawExt
		if v == nil {
			e := Ext{LoggerInformation: s.Infos}
			e.SequenceNumber.RID = s.RID
			v = EncodeExt(e)
		}
		t.ExtraExtensions = []pkix.Extension{{Id: extOID, Value: v}}
	}
	parent := &x509.Certificate{Subject: name(s.Issuer), SubjectKeyId: []byte("ca")}
	by := s.SignedBy
	if by == "" {
		by = s.Issuer
	}
	key := w.RSA[by]
	if key == nil {
		key = w.Foreign
	}
	var pub any = &RSAKey(s.Key).PublicKey
	if s.EC {
		pub = &ecKey.PublicKey
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, pub, key)
	if err != nil {
		panic(err)
	}
	return der
}

// RawSubject is how a certificate appears in a tree.
func RawSubject(cn string) []byte {
	name := pkix.Name{CommonName: cn}.ToRDNSequence()
	h := fnv.New32a()
	h.Write([]byte(cn))
	if h.Sum32()>>8%3 == 0 { // a third of them say more than a name, and in a spelling of their own
		text := func(tag int, v string) asn1.RawValue { return asn1.RawValue{Tag: tag, Bytes: []byte(v)} }
		name = pkix.RDNSequence{
			{{Type: asn1.ObjectIdentifier{2, 5, 4, 10}, Value: text(asn1.TagUTF8String, "Org")}, {Type: asn1.ObjectIdentifier{2, 5, 4, 11}, Value: text(asn1.TagPrintableString, "Unit")}},
			{{Type: asn1.ObjectIdentifier{2, 5, 4, 3}, Value: text(asn1.TagUTF8String, cn)}},
			{{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 1}, Value: text(asn1.TagIA5String, "a@example.com")}},
		}
	}
	b, err := asn1.Marshal(name)
	if err != nil {
		panic(err)
	}
	return b
}
