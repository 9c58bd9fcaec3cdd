// Package lib is the shared machinery of the checks: key fixtures, configuration files,
// independent oracles for the gossip objects, an in-memory network and the case runner.
package lib

import (
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	_ "embed"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"

	"github.com/herumi/bls-go-binary/bls"
)

//go:embed testdata/rsa.pem
var rsaPEM []byte

var (
	keyOnce sync.Once
	rsaKeys []*rsa.PrivateKey
)

// RSAKey returns the i-th committed RSA key.
func RSAKey(i int) *rsa.PrivateKey {
	keyOnce.Do(func() {
		bls.Init(bls.BLS12_381)
		rest := rsaPEM
		for {
			var b *pem.Block
			b, rest = pem.Decode(rest)
			if b == nil {
				break
			}
			k, err := x509.ParsePKCS1PrivateKey(b.Bytes)
			if err != nil {
				panic(err)
			}
			rsaKeys = append(rsaKeys, k)
		}
	})
	return rsaKeys[i]
}

// BLSKey returns a fixed BLS key.
func BLSKey(i int) *bls.SecretKey {
	RSAKey(0)
	h := sha256.Sum256([]byte(fmt.Sprintf("ctng verification key %d", i)))
	s := new(bls.SecretKey)
	if err := s.SetLittleEndianMod(h[:]); err != nil {
		panic(err)
	}
	return s
}

// World is one deployment: the entities, their keys and their configuration files.
type World struct {
	Dir        string
	G, M, L, C []string // gossipers, monitors, loggers, CAs
	Threshold  int
	Wait       int // gossip wait time, seconds
	Certs      int // certificates per CA and period
	RSA        map[string]*rsa.PrivateKey
	BLS        map[string]*bls.SecretKey
	Pub        map[string]*bls.PublicKey
	// Foreign is a key no entity of this world has.
	Foreign    *rsa.PrivateKey
	ForeignBLS *bls.SecretKey
}

type Topology struct{ N, Threshold, Loggers, CAs, Wait, Certs int }

func (t Topology) String() string {
	return fmt.Sprintf("n=%d t=%d loggers=%d CAs=%d wait=%ds certs=%d", t.N, t.Threshold, t.Loggers, t.CAs, t.Wait, t.Certs)
}

// NewWorld makes the deployment and writes its configuration files under dir.
func NewWorld(dir string, t Topology) *World {
	if t.Wait == 0 {
		t.Wait = 5
	}
	w := &World{Dir: dir, Threshold: t.Threshold, Wait: t.Wait, Certs: t.Certs, RSA: map[string]*rsa.PrivateKey{},
		BLS: map[string]*bls.SecretKey{}, Pub: map[string]*bls.PublicKey{}}
	key := 0
	listens := map[string]string{}
	add := func(list *[]string, prefix, n int) {
		for i := 0; i < n; i++ {
			id := name(prefix, i)
			listens[id] = fmt.Sprint(prefix + i)
			*list = append(*list, id)
			w.RSA[id] = RSAKey(key)
			key++
		}
	}
	add(&w.G, 9000, t.N)
	add(&w.M, 8000, t.N)
	add(&w.L, 7000, t.Loggers)
	add(&w.C, 6000, t.CAs)
	for i, g := range w.G {
		w.BLS[g] = BLSKey(i)
		w.Pub[g] = w.BLS[g].GetPublicKey()
	}
	listenPorts.Store(&listens)
	w.Foreign = RSAKey(39)
	w.ForeignBLS = BLSKey(1000)
	w.writeConfigs()
	return w
}

// naming is how the entities of a case are called: by ports of one host, by hosts with one port (as after mapping a
// deployment to machines), by names that begin with each other, or by host names with capitals.
var naming int

func name(prefix, i int) string {
	switch naming {
	case 1:
		return fmt.Sprintf("172.30.%d.%d:3000", prefix/1000, i+1)
	case 2:
		// 9, 90, 900, 9000, 91, 910, 9100, 92, ...
		p := prefix / 1000
		if i >= 4 {
			p = p*10 + 1 + (i-4)/3
			i = (i - 4) % 3
		}
		for ; i > 0; i-- {
			p *= 10
		}
		return fmt.Sprintf("ctng:%d", p)
	case 3:
		kind := map[int]string{9000: "Gossip", 8000: "Monitor", 7000: "Log", 6000: "Issuer"}[prefix]
		return fmt.Sprintf("%s-%d.CTng.example:8080", kind, i)
	}
	return fmt.Sprintf("localhost:%d", prefix+i)
}

// EntityName is the name the i-th entity of a kind (G, M, L, C) gets in this case.
func EntityName(kind string, i int) string {
	return name(map[string]int{"G": 9000, "M": 8000, "L": 7000, "C": 6000}[kind], i)
}

// listenPorts are the ports the entities of the current world listen on; those in their names may be mapped to them.
var listenPorts atomic.Pointer[map[string]string]

// Port is where an entity listens.
func Port(id string) string { return port(id) }

func port(id string) string {
	if l := listenPorts.Load(); l != nil {
		if p, ok := (*l)[id]; ok {
			return p
		}
	}
	for i := len(id) - 1; i >= 0; i-- {
		if id[i] == ':' {
			return id[i+1:]
		}
	}
	return id
}

// Cfg returns the three configuration files of the i-th entity of a kind.
func (w *World) Cfg(kind string, i int) (string, string, string) {
	d := filepath.Join(w.Dir, "cfg", fmt.Sprintf("%s%d", kind, i))
	return filepath.Join(d, "public.json"), filepath.Join(d, "private.json"), filepath.Join(d, "crypto.json")
}

// WriteJSON writes v to path.
func WriteJSON(path string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	if err = os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(err)
	}
	if err = os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

type m = map[string]any

func (w *World) cryptoConfig(id string) m {
	rsaPub := map[string]rsa.PublicKey{}
	for k, v := range w.RSA {
		rsaPub[k] = v.PublicKey
	}
	blsPub := map[string][]byte{}
	for k, v := range w.Pub {
		blsPub[k] = v.Serialize()
	}
	sk := []byte{}
	if s, ok := w.BLS[id]; ok {
		sk = s.Serialize()
	}
	return m{"SelfID": id, "Threshold": w.Threshold, "N": len(w.G), "HashScheme": 4, "SignScheme": "rsa", "ThresholdScheme": "bls",
		"SignPublicMap": rsaPub, "SignSecretKey": w.RSA[id], "ThresholdPublicMap": blsPub, "ThresholdSecretKey": sk}
}

func (w *World) writeConfigs() {
	for i, id := range w.G {
		pub, priv, cr := w.Cfg("G", i)
		peers := []string{}
		for _, p := range w.G {
			if p != id {
				peers = append(peers, p)
			}
		}
		WriteJSON(pub, m{"Gossip_wait_time": w.Wait, "MMD": 60, "MRD": 60, "Gossiper_URLs": w.G, "Signer_URLs": w.M})
		WriteJSON(priv, m{"Connected_Gossipers": peers, "Owner_URL": w.M[i], "Port": port(id)})
		WriteJSON(cr, w.cryptoConfig(id))
	}
	for i, id := range w.M {
		pub, priv, cr := w.Cfg("M", i)
		WriteJSON(pub, m{"All_CA_URLs": w.C, "All_Logger_URLs": w.L, "Gossip_wait_time": w.Wait, "MMD": 60, "MRD": 60})
		WriteJSON(priv, m{"CA_URLs": w.C, "Logger_URLs": w.L, "Signer": id, "Gossiper_URL": w.G[i], "Inbound_gossiper_port": port(w.G[i]), "Port": port(id)})
		WriteJSON(cr, w.cryptoConfig(id))
	}
	for i, id := range w.L {
		pub, priv, cr := w.Cfg("L", i)
		WriteJSON(pub, m{"All_CA_URLs": w.C, "All_Logger_URLs": w.L, "MMD": 60, "MRD": 60, "Http_vers": []string{"1.1"}})
		WriteJSON(priv, m{"Signer": id, "Port": port(id), "CAlist": w.C, "Monitorlist": w.M, "Gossiperlist": w.G})
		WriteJSON(cr, w.cryptoConfig(id))
	}
	for i, id := range w.C {
		pub, priv, cr := w.Cfg("C", i)
		WriteJSON(pub, m{"All_CA_URLs": w.C, "All_Logger_URLs": w.L, "MMD": 60, "MRD": 60, "Http_vers": []string{"1.1"}})
		WriteJSON(priv, m{"Signer": id, "Port": port(id), "Loggerlist": w.L, "Monitorlist": w.M, "Gossiperlist": w.G, "Cert_per_period": w.Certs})
		WriteJSON(cr, w.cryptoConfig(id))
	}
}
