// Package conf watches the generation of configurations.
package conf

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Gen"
	"github.com/jik18001/CTngV2/Logger"
	rc "github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// TestC24: generated configurations describe one consistent deployment, before and after mapping to addresses.
func TestC24(t *testing.T) {
	RunProp(t, "C24", func(r *Run) {
		n := r.N(64, 800)
		for i := 0; i < n; i++ {
			r.Case(fmt.Sprintf("deploy-%d", i), deploy)
		}
	})
}

type shape struct {
	g, thr, l, c, certs, mmd, mrd int
}

// files are the three files of one entity, as they are.
type files struct {
	kind string
	dir  string
	pub  map[string]any
	priv map[string]any
	cr   map[string]any
}

var kinds = []struct{ dir, name, prefix string }{
	{"ca_testconfig", "CA", "6"}, {"logger_testconfig", "Logger", "7"}, {"monitor_testconfig", "Monitor", "8"}, {"gossiper_testconfig", "Gossiper", "9"},
}

func load(c *Case, base string, s shape) []*files {
	out := []*files{}
	for _, k := range kinds {
		want := map[string]int{"CA": s.c, "Logger": s.l, "Monitor": s.g, "Gossiper": s.g}[k.name]
		ds, _ := os.ReadDir(filepath.Join(base, k.dir))
		if len(ds) != want {
			c.Fail("there are configurations of %d entities of kind %s instead of %d", len(ds), k.name, want)
			return nil
		}
		for i := 1; i <= want; i++ {
			f := &files{kind: k.name, dir: filepath.Join(base, k.dir, fmt.Sprint(i))}
			for _, x := range []struct {
				to   *map[string]any
				what string
			}{{&f.pub, "public"}, {&f.priv, "private"}, {&f.cr, "crypto"}} {
				b, err := os.ReadFile(f.path(x.what))
				d := json.NewDecoder(strings.NewReader(string(b)))
				d.UseNumber()
				if err == nil {
					err = d.Decode(x.to)
				}
				if err != nil {
					c.Fail("the %s configuration of %s %d: %v", x.what, k.name, i, err)
					return nil
				}
			}
			out = append(out, f)
		}
	}
	return out
}

func (f *files) path(what string) string {
	return filepath.Join(f.dir, f.kind+"_"+what+"_config.json")
}

func str(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func list(v any) []string {
	out := []string{}
	if l, ok := v.([]any); ok {
		for _, x := range l {
			out = append(out, fmt.Sprint(x))
		}
	}
	return out
}

func same(a []string, b []string) bool {
	a, b = append([]string{}, a...), append([]string{}, b...)
	sort.Strings(a)
	sort.Strings(b)
	return strings.Join(a, " ") == strings.Join(b, " ")
}

// consistent judges the files against what was asked for, and returns the addresses by kind, in order.
func consistent(c *Case, fs []*files, s shape, when string) map[string][]string {
	ids := map[string][]string{}
	for _, f := range fs {
		ids[f.kind] = append(ids[f.kind], fmt.Sprint(f.cr["SelfID"]))
	}
	all, seen := []string{}, map[string]bool{}
	for _, k := range kinds {
		for _, id := range ids[k.name] {
			if seen[id] {
				c.Fail("%s: two entities are %s", when, id)
			}
			seen[id] = true
			all = append(all, id)
		}
	}
	keysOf := func(v any) []string {
		out := []string{}
		if m, ok := v.(map[string]any); ok {
			for k := range m {
				out = append(out, k)
			}
		}
		return out
	}
	secrets := map[string]string{}
	idx := map[string]int{}
	for _, f := range fs {
		i := idx[f.kind]
		idx[f.kind]++
		id := ids[f.kind][i]
		bad := func(what string, got, want any) {
			c.Fail("%s: %s %s: %s is %.300s instead of %.300s", when, f.kind, id, what, str(got), str(want))
		}
		// keys
		if !same(keysOf(f.cr["SignPublicMap"]), all) {
			bad("the set of entities whose public keys it knows", keysOf(f.cr["SignPublicMap"]), all)
		}
		if str(f.cr["SignPublicMap"]) != str(fs[0].cr["SignPublicMap"]) {
			bad("its map of public keys", "another", "that of "+ids["CA"][0])
		}
		if !same(keysOf(f.cr["ThresholdPublicMap"]), ids["Gossiper"]) || str(f.cr["ThresholdPublicMap"]) != str(fs[0].cr["ThresholdPublicMap"]) {
			bad("its map of threshold keys", f.cr["ThresholdPublicMap"], fs[0].cr["ThresholdPublicMap"])
		}
		if str(f.cr["Threshold"]) != fmt.Sprint(s.thr) || str(f.cr["N"]) != fmt.Sprint(s.g) {
			bad("threshold and number", []any{f.cr["Threshold"], f.cr["N"]}, []int{s.thr, s.g})
		}
		for _, k := range []string{"HashScheme", "SignScheme", "ThresholdScheme"} {
			if str(f.cr[k]) != str(fs[0].cr[k]) {
				bad(k, f.cr[k], fs[0].cr[k])
			}
		}
		sk := str(f.cr["SignSecretKey"])
		if secrets[sk] != "" {
			c.Fail("%s: %s and %s have the same secret key", when, secrets[sk], id)
		}
		secrets[sk] = id
		// timing
		if str(f.pub["MMD"]) != fmt.Sprint(s.mmd) || str(f.pub["MRD"]) != fmt.Sprint(s.mrd) {
			bad("MMD and MRD", []any{f.pub["MMD"], f.pub["MRD"]}, []int{s.mmd, s.mrd})
		}
		if f.kind == "Monitor" || f.kind == "Gossiper" {
			if w := str(f.pub["Gossip_wait_time"]); w != str(fs[len(fs)-1].pub["Gossip_wait_time"]) || w == "null" || w == "0" {
				bad("the waiting time", f.pub["Gossip_wait_time"], fs[len(fs)-1].pub["Gossip_wait_time"])
			}
		}
		// who knows whom
		is := func(what string, got any, want []string) {
			if !same(list(got), want) {
				bad(what, got, want)
			}
		}
		eq := func(what string, got any, want string) {
			if fmt.Sprint(got) != want {
				bad(what, got, want)
			}
		}
		eq("its port", f.priv["Port"], id[strings.LastIndex(id, ":")+1:])
		switch f.kind {
		case "CA", "Logger":
			is("the list of CAs", f.pub["All_CA_URLs"], ids["CA"])
			is("the list of loggers", f.pub["All_Logger_URLs"], ids["Logger"])
			is("the list of monitors", f.priv["Monitorlist"], ids["Monitor"])
			is("the list of gossipers", f.priv["Gossiperlist"], ids["Gossiper"])
			eq("its name", f.priv["Signer"], id)
			if f.kind == "Logger" {
				is("the list of its CAs", f.priv["CAlist"], ids["CA"])
			} else {
				mine := list(f.priv["Loggerlist"])
				if len(mine) == 0 {
					bad("the list of its loggers", mine, ids["Logger"])
				}
				for _, l := range mine {
					if !strings.Contains(" "+strings.Join(ids["Logger"], " ")+" ", " "+l+" ") {
						bad("the list of its loggers", mine, ids["Logger"])
					}
				}
				eq("the number of certificates", f.priv["Cert_per_period"], fmt.Sprint(s.certs))
			}
		case "Monitor":
			is("the list of CAs", f.pub["All_CA_URLs"], ids["CA"])
			is("the list of loggers", f.pub["All_Logger_URLs"], ids["Logger"])
			is("the list of its CAs", f.priv["CA_URLs"], ids["CA"])
			is("the list of its loggers", f.priv["Logger_URLs"], ids["Logger"])
			eq("its name", f.priv["Signer"], id)
			eq("its gossiper", f.priv["Gossiper_URL"], ids["Gossiper"][i])
		case "Gossiper":
			is("the list of gossipers", f.pub["Gossiper_URLs"], ids["Gossiper"])
			is("the list of monitors", f.pub["Signer_URLs"], ids["Monitor"])
			eq("its monitor", f.priv["Owner_URL"], ids["Monitor"][i])
			others := append(append([]string{}, ids["Gossiper"][:i]...), ids["Gossiper"][i+1:]...)
			is("the list of its neighbours", f.priv["Connected_Gossipers"], others)
		}
		c.Count("configurations", 1)
	}
	return ids
}

// exchange starts entities from the files and has them sign for each other.
func exchange(c *Case, fs []*files, s shape, when string) {
	type ent struct {
		id string
		cr *rc.CryptoConfig
	}
	es := []ent{}
	gs := []ent{}
	for i, f := range fs {
		id := fmt.Sprint(f.cr["SelfID"])
		e := ent{id: id}
		p, q, r := f.path("public"), f.path("private"), f.path("crypto")
		switch f.kind {
		case "CA":
			e.cr = CA.InitializeCAContext(p, q, r).CA_crypto_config
		case "Logger":
			e.cr = Logger.InitializeLoggerContext(p, q, r).Logger_crypto_config
		case "Monitor":
			e.cr = monitor.InitializeMonitorContext(p, q, r, fmt.Sprint(i)).Monitor_crypto_config
		case "Gossiper":
			e.cr = gossiper.InitializeGossiperContext(p, q, r, fmt.Sprint(i)).Gossiper_crypto_config
			gs = append(gs, e)
		}
		if e.cr == nil {
			c.Fail("%s: %s starts without keys", when, id)
			return
		}
		if string(e.cr.SelfID) != id {
			c.Fail("%s: %s thinks it is %s", when, id, e.cr.SelfID)
		}
		es = append(es, e)
	}
	for _, a := range es {
		msg := []byte("statement of " + a.id)
		sig, err := a.cr.Sign(msg)
		if err != nil || string(sig.ID) != a.id {
			c.Fail("%s: %s cannot sign: %v (as %s)", when, a.id, err, sig.ID)
			return
		}
		for _, b := range es {
			if err := b.cr.Verify(msg, sig); err != nil {
				c.Fail("%s: %s does not accept the signature of %s: %v", when, b.id, a.id, err)
				return
			}
			if b.cr.Verify([]byte("another statement"), sig) == nil {
				c.Fail("%s: %s accepts a wrong signature of %s", when, b.id, a.id)
			}
			c.Count("signatures verified", 1)
		}
	}
	var frags []rc.SigFragment
	for _, g := range gs {
		f, err := g.cr.ThresholdSign("endorsed")
		if err != nil {
			c.Fail("%s: %s cannot endorse: %v", when, g.id, err)
			return
		}
		frags = append(frags, f)
		for _, b := range es {
			if err := b.cr.FragmentVerify("endorsed", f); err != nil {
				c.Fail("%s: %s does not accept the endorsement of %s: %v", when, b.id, g.id, err)
				return
			}
		}
	}
	for k := 0; k < 3; k++ {
		n := s.thr + c.Rng.Intn(s.g-s.thr+1)
		c.Rng.Shuffle(len(frags), func(i, j int) { frags[i], frags[j] = frags[j], frags[i] })
		full, err := gs[c.Rng.Intn(len(gs))].cr.ThresholdAggregate(frags[:n])
		if err != nil {
			c.Fail("%s: %d endorsements of %d make no threshold signature: %v", when, n, s.thr, err)
			return
		}
		for _, b := range es {
			if err := b.cr.ThresholdVerify("endorsed", full); err != nil {
				c.Fail("%s: %s does not accept a threshold signature: %v", when, b.id, err)
				return
			}
			c.Count("threshold signatures verified", 1)
		}
		if n > 1 {
			if few, err := gs[0].cr.ThresholdAggregate(frags[:s.thr-1]); err == nil {
				if es[0].cr.ThresholdVerify("endorsed", few) == nil {
					c.Fail("%s: %d endorsements count as %d", when, s.thr-1, s.thr)
				}
			}
		}
	}
}

func deploy(c *Case) {
	s := shape{g: 2 + c.Rng.Intn(5), l: 1 + c.Rng.Intn(4), c: 1 + c.Rng.Intn(4), certs: 1 + c.Rng.Intn(9)}
	if c.Rng.Intn(12) == 0 { // two digits
		switch c.Rng.Intn(3) {
		case 0:
			s.g = 11
		case 1:
			s.l = 12
		case 2:
			s.c = 12
		}
	}
	s.thr = 2 + c.Rng.Intn(s.g-1)
	s.mmd, s.mrd = []int{60, 30, 120}[c.Rng.Intn(3)], []int{60, 90}[c.Rng.Intn(2)]
	wd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	defer os.Chdir(wd)
	if err := os.Chdir(c.Dir); err != nil {
		panic(err)
	}
	base, where := c.Dir, ""
	if c.Rng.Intn(3) == 0 {
		where = "elsewhere/"
		base = filepath.Join(c.Dir, where)
		os.Mkdir(base, 0755)
	}
	Gen.Generateall(s.g, s.thr, s.l, s.c, s.certs, s.mmd, s.mrd, where)
	fs := load(c, base, s)
	if c.Failed() {
		return
	}
	ids := consistent(c, fs, s, "generated")
	if !c.Failed() {
		exchange(c, fs, s, "generated")
	}
	if c.Failed() {
		return
	}
	// map it to addresses
	host := func(kind string, i int) string {
		switch c.Rng.Intn(3) {
		case 0:
			return fmt.Sprintf("10.%d.0.%d", len(kind), i+1)
		case 1:
			return "10.0.0.1" // several on one machine
		}
		return fmt.Sprintf("%s-%d.example.org", strings.ToLower(kind), i)
	}
	ip := Gen.IP_Json{Monitor_ip_map: map[int]string{}, Gossiper_ip_map: map[int]string{}, Logger_ip_map: map[int]string{}, CA_ip_map: map[int]string{}}
	template := c.Rng.Intn(3) == 0
	if template {
		ip = Gen.Generate_IP_Json_template(s.c, s.l, s.g, "172.30.0.", 11, "172.30.1.", 15, "172.30.2.", 19)
	} else {
		for i := range ids["CA"] {
			ip.CA_ip_map[i] = host("CA", i)
		}
		for i := range ids["Logger"] {
			ip.Logger_ip_map[i] = host("Logger", i)
		}
		for i := range ids["Monitor"] {
			ip.Monitor_ip_map[i] = host("Monitor", i)
			ip.Gossiper_ip_map[i] = host("Gossiper", i)
		}
	}
	Gen.Write_IP_Json_to_files(filepath.Join(c.Dir, "ips", "IPLIST.json"), ip)
	back := Gen.Read_IP_Json_from_files(filepath.Join(c.Dir, "ips", "IPLIST.json"))
	if str(back) != str(ip) {
		c.Fail("the list of addresses is another after being written and read: %s instead of %s", str(back), str(ip))
		return
	}
	if where != "" {
		os.Chdir(base)
	}
	Gen.Map_all(s.c, s.l, s.g, back)
	before := fs
	fs = load(c, base, s)
	if c.Failed() {
		return
	}
	ids2 := consistent(c, fs, s, "mapped")
	if c.Failed() {
		return
	}
	for i, k := range ids["CA"] {
		check(c, k, ids2["CA"][i], ip.CA_ip_map[i])
	}
	for i, k := range ids["Logger"] {
		check(c, k, ids2["Logger"][i], ip.Logger_ip_map[i])
	}
	for i, k := range ids["Monitor"] {
		check(c, k, ids2["Monitor"][i], ip.Monitor_ip_map[i])
		check(c, ids["Gossiper"][i], ids2["Gossiper"][i], ip.Gossiper_ip_map[i])
	}
	// each keeps its key, under its new name
	rename := map[string]string{}
	for k := range ids {
		for i := range ids[k] {
			rename[ids[k][i]] = ids2[k][i]
		}
	}
	for i := range fs {
		if str(fs[i].cr["SignSecretKey"].(map[string]any)["D"]) != str(before[i].cr["SignSecretKey"].(map[string]any)["D"]) {
			c.Fail("mapping gave %s another secret key", fs[i].cr["SelfID"])
		}
	}
	for _, m := range []string{"SignPublicMap", "ThresholdPublicMap"} {
		now := fs[0].cr[m].(map[string]any)
		for k, v := range before[0].cr[m].(map[string]any) {
			if str(now[rename[k]]) != str(v) {
				c.Fail("mapping gave %s, formerly %s, the key of another in the %s", rename[k], k, m)
			}
		}
	}
	for i := range fs {
		if fs[i].kind == "CA" {
			want := []string{}
			for _, l := range list(before[i].priv["Loggerlist"]) {
				want = append(want, rename[l])
			}
			if !same(want, list(fs[i].priv["Loggerlist"])) {
				c.Fail("mapping gave %s other loggers: %v instead of %v", fs[i].cr["SelfID"], fs[i].priv["Loggerlist"], want)
			}
		}
	}
	if !c.Failed() {
		exchange(c, fs, s, "mapped")
	}
	c.Desc("%+v, template %v, %s", s, template, where)
	c.Nontrivial(fmt.Sprintf("g%d t%d l%d c%d %v %v", s.g, s.thr, s.l, s.c, template, where))
}

func check(c *Case, old, now, host string) {
	if now != host+old[strings.LastIndex(old, ":"):] {
		c.Fail("%s, which belongs on %q, was mapped to %s", old, host, now)
	}
}
