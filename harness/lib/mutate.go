package lib

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/herumi/bls-go-binary/bls"
)

// Mut is an object that is not what it claims to be.
type Mut struct {
	Name string
	Obj  Obj
}

func flip(s string, rng *rand.Rand) string {
	if s == "" {
		return "x"
	}
	i := rng.Intn(len(s))
	b := []byte(s)
	for {
		n := "0123456789abcdef"[rng.Intn(16)]
		if n != b[i] {
			b[i] = n
			break
		}
	}
	return string(b)
}

func resig(o Obj, f func(m map[string]any)) Obj {
	var m map[string]any
	json.Unmarshal([]byte(o.Signature[0]), &m)
	f(m)
	b, _ := json.Marshal(m)
	o.Signature[0] = string(b)
	return o
}

// Mutations returns invalid variants of a valid object. Every one of them is rejected by the oracle.
func (w *World) Mutations(o Obj, rng *rand.Rand) []Mut {
	out := []Mut{}
	add := func(name string, m Obj) {
		if m.Type == o.Type && m.Period == o.Period && m.Content() == o.Content() && m.Signature == o.Signature && m.Signer == o.Signer {
			return
		}
		if w.Valid(m) != nil {
			out = append(out, Mut{name, m})
		}
	}
	with := func(f func(m *Obj)) Obj { m := o; f(&m); return m }
	add("no signature", with(func(m *Obj) { m.Signature[0] = "" }))
	add("garbage signature", with(func(m *Obj) { m.Signature[0] = "deadbeef" }))
	add("signature {}", with(func(m *Obj) { m.Signature[0] = "{}" }))
	add("signature null", with(func(m *Obj) { m.Signature[0] = "null" }))
	add("truncated signature", with(func(m *Obj) { m.Signature[0] = m.Signature[0][:len(m.Signature[0])/2] }))
	add("empty payload", with(func(m *Obj) { m.Payload = [3]string{} }))
	add("no entity", with(func(m *Obj) { m.Payload[0] = "" }))
	all := append(append(append(append([]string{}, w.L...), w.C...), w.M...), w.G...)
	other := func(not ...string) string {
		for {
			x := all[rng.Intn(len(all))]
			ok := true
			for _, n := range not {
				ok = ok && n != x
			}
			if ok {
				return x
			}
		}
	}
	add("about another entity", with(func(m *Obj) { m.Payload[0] = other(o.Payload[0]) }))
	// content altered after signing
	switch Kind(o.Type) {
	case "STH":
		add("another root", with(func(m *Obj) {
			raw, _ := hex.DecodeString(m.Payload[1])
			var s sthBody
			json.Unmarshal(raw, &s)
			s.RootHash = flip(s.RootHash, rng)
			b, _ := json.Marshal(s)
			m.Payload[1] = hex.EncodeToString(b)
		}))
		add("another tree size", with(func(m *Obj) {
			raw, _ := hex.DecodeString(m.Payload[1])
			var s sthBody
			json.Unmarshal(raw, &s)
			s.TreeSize += 1 + rng.Intn(9)
			b, _ := json.Marshal(s)
			m.Payload[1] = hex.EncodeToString(b)
		}))
		add("extra payload", with(func(m *Obj) { m.Payload[2] = "00" }))
	case "REV":
		add("another delta", with(func(m *Obj) {
			var r revBody
			json.Unmarshal([]byte(m.Payload[2]), &r)
			raw, _ := Bits(2048, uint(rng.Intn(2048)), uint(rng.Intn(2048)), uint(rng.Intn(2048))).MarshalBinary()
			r.Delta_CRV = Gzip(raw)
			b, _ := json.Marshal(r)
			m.Payload[2] = string(b)
		}))
		add("extra payload", with(func(m *Obj) { m.Payload[1] = "CRW" }))
	case "ACC":
		add("extra payload", with(func(m *Obj) { m.Payload[1] = "x" }))
	}
	if Kind(o.Type) == "STH" || Kind(o.Type) == "REV" {
		n := 0
		fmt.Sscanf(o.Period, "%d", &n)
		add("label of the next period", with(func(m *Obj) { m.Period = P2(n + 1) }))
		add("label of the previous period", with(func(m *Obj) { m.Period = P2(n - 1) }))
		add("label of some period", with(func(m *Obj) { m.Period = P2(n + 2 + rng.Intn(56)) }))
		add("empty label", with(func(m *Obj) { m.Period = "" }))
		add("label spelled otherwise", with(func(m *Obj) { m.Period = fmt.Sprintf("%03d", n) }))
		add("label not a number", with(func(m *Obj) { m.Period = "xx" }))
	}
	switch {
	case IsInit(o.Type):
		content := []byte(o.Content())
		by := other(o.Signer)
		add("signed with an unknown key", with(func(m *Obj) { m.Signature[0] = RSASigString(content, w.Foreign, o.Signer) }))
		add("signed by another entity under this name", with(func(m *Obj) { m.Signature[0] = RSASigString(content, w.RSA[by], o.Signer) }))
		add("signed by another entity", with(func(m *Obj) { m.Signature[0] = RSASigString(content, w.RSA[by], by) }))
		if o.Type != ACC_INIT {
			add("signed and claimed by another entity", with(func(m *Obj) { m.Signer = by; m.Signature[0] = RSASigString(content, w.RSA[by], by) }))
		}
		add("signed by a stranger", with(func(m *Obj) {
			m.Signer = "localhost:1"
			m.Signature[0] = RSASigString(content, w.Foreign, "localhost:1")
		}))
		add("claimed by another entity", with(func(m *Obj) { m.Signer = by }))
		add("no signer", with(func(m *Obj) { m.Signer = "" }))
		add("flipped signature", resig(o, func(m map[string]any) { m["sig"] = flip(fmt.Sprint(m["sig"]), rng) }))
		add("short signature", resig(o, func(m map[string]any) { m["sig"] = "00" }))
		add("empty signature value", resig(o, func(m map[string]any) { m["sig"] = "" }))
		add("odd signature", resig(o, func(m map[string]any) { m["sig"] = fmt.Sprint(m["sig"]) + "f" }))
		add("signature without id", resig(o, func(m map[string]any) { delete(m, "id") }))
		add("signature with a numeric id", resig(o, func(m map[string]any) { m["id"] = 7 }))
		if key := w.RSA[o.Signer]; key != nil && o.Type != ACC_INIT { // signed all right, but about no period
			for i := 0; i < 5; i++ {
				p := []string{"", "abc", "1.0", "0x1", " 1", "1 ", "-"}[rng.Intn(7)]
				for _, label := range []string{[]string{o.Period, "00", "01", p}[rng.Intn(4)]} {
					add(fmt.Sprintf("about period %q", p), with(func(m *Obj) {
						if o.Type == STH_INIT {
							raw, _ := hex.DecodeString(m.Payload[1])
							var s sthBody
							json.Unmarshal(raw, &s)
							s.Period = p
							b, _ := json.Marshal(s)
							m.Payload[1] = hex.EncodeToString(b)
						} else {
							var r revBody
							json.Unmarshal([]byte(m.Payload[2]), &r)
							r.Period = p
							b, _ := json.Marshal(r)
							m.Payload[2] = string(b)
						}
						m.Period = label
						m.Signature[0] = RSASigString([]byte(m.Content()), key, o.Signer)
					}))
				}
			}
		}
		for _, t := range []string{STH_INIT, REV_INIT} {
			if t != o.Type && o.Type != ACC_INIT {
				add("as another kind of statement", with(func(m *Obj) { m.Type = t }))
			}
		}
	case IsFrag(o.Type):
		g := w.G[rng.Intn(len(w.G))]
		for i := 0; g == o.Signer && i < 50; i++ {
			g = w.G[rng.Intn(len(w.G))]
		}
		add("fragment with an unknown key", with(func(m *Obj) { m.Signature[0] = fragString(o.Content(), w.ForeignBLS, o.Signer) }))
		add("fragment of another gossiper under this name", with(func(m *Obj) { m.Signature[0] = fragString(o.Content(), w.BLS[g], o.Signer) }))
		add("fragment attributed to another gossiper", with(func(m *Obj) { m.Signer = g }))
		add("fragment of a stranger", with(func(m *Obj) {
			m.Signer = "localhost:1"
			m.Signature[0] = fragString(o.Content(), w.ForeignBLS, "localhost:1")
		}))
		add("fragment on another content", with(func(m *Obj) { m.Signature[0] = fragString(o.Content()+"x", w.BLS[o.Signer], o.Signer) }))
		add("fragment of a monitor", with(func(m *Obj) { m.Signer = w.M[0]; m.Signature[0] = fragString(o.Content(), w.ForeignBLS, w.M[0]) }))
		add("flipped fragment", resig(o, func(m map[string]any) { m["sign"] = flip(fmt.Sprint(m["sign"]), rng) }))
		add("empty fragment", resig(o, func(m map[string]any) { m["sign"] = "" }))
		add("fragment without id", resig(o, func(m map[string]any) { delete(m, "id") }))
		add("short fragment", resig(o, func(m map[string]any) { m["sign"] = "00" }))
	case IsFull(o.Type):
		for _, x := range w.FullForgeries(o, rng) {
			add(x.Name, x.Obj)
		}
	case o.Type == CON_INIT:
		for _, x := range w.ConForgeries(o, rng) {
			add(x.Name, x.Obj)
		}
	}
	return out
}

// FullForgeries are endorsed objects without enough endorsement.
func (w *World) FullForgeries(o Obj, rng *rand.Rand) []Mut {
	out := []Mut{}
	init := o
	for i, f := range fullOf {
		if f == o.Type && IsInit(i) {
			init.Type = i
		}
	}
	content := o.Content()
	add := func(name string, m Obj) { m.Period = o.Period; out = append(out, Mut{name, m}) }
	some := func(k int) []string {
		p := rng.Perm(len(w.G))
		ids := []string{}
		for _, i := range p[:k] {
			ids = append(ids, w.G[i])
		}
		return ids
	}
	sign := func(ids []string) []bls.Sign {
		s := []bls.Sign{}
		for _, id := range ids {
			if k, ok := w.BLS[id]; ok {
				s = append(s, *k.Sign(content))
			} else {
				s = append(s, *w.ForeignBLS.Sign(content))
			}
		}
		return s
	}
	t := w.Threshold
	if t >= 2 {
		for _, k := range []int{t - 1, 1} {
			ids := some(k)
			add(fmt.Sprintf("%d of %d signers", k, t), w.FullWith(ids, sign(ids), init))
			pad := append([]string{}, ids...)
			for len(pad) < t {
				pad = append(pad, ids[0])
			}
			add("one signer repeated", w.FullWith(pad, sign(pad), init))
			add("one signer listed repeatedly", w.FullWith(pad, sign(ids), init))
			ext := append([]string{}, ids...)
			for i := 0; len(ext) < t; i++ {
				ext = append(ext, fmt.Sprintf("localhost:%d", 1+i))
			}
			add("strangers make up the number", w.FullWith(ext, sign(ext), init))
			add("listed strangers make up the number", w.FullWith(ext, sign(ids), init))
			mon := append([]string{}, ids...)
			for i := 0; len(mon) < t && i < len(w.M); i++ {
				mon = append(mon, w.M[i])
			}
			add("monitors make up the number", w.FullWith(mon, sign(mon), init))
			more := append([]string{}, ids...)
			for _, g := range w.G {
				if len(more) < t && !contains(more, g) {
					more = append(more, g)
				}
			}
			add("signers listed that did not sign", w.FullWith(more, sign(ids), init))
		}
	}
	ids := some(t)
	sg := sign(ids)
	add("no signers", w.FullWith(nil, nil, init))
	add("no signers, a signature", w.FullWith(nil, sg, init))
	bad := append([]bls.Sign{}, sg...)
	bad[rng.Intn(len(bad))] = *w.ForeignBLS.Sign(content)
	add("a share by an unknown key", w.FullWith(ids, bad, init))
	bad = append([]bls.Sign{}, sg...)
	i := rng.Intn(len(bad))
	bad[i] = *w.BLS[ids[i]].Sign(content + "x")
	add("a share on another content", w.FullWith(ids, bad, init))
	add("all shares on another content", func() Obj {
		s := []bls.Sign{}
		for _, id := range ids {
			s = append(s, *w.BLS[id].Sign("something else"))
		}
		return w.FullWith(ids, s, init)
	}())
	add("all shares by one gossiper", func() Obj {
		s := []bls.Sign{}
		for range ids {
			s = append(s, *w.BLS[ids[0]].Sign(content))
		}
		return w.FullWith(some(t), s, init)
	}())
	full := w.FullWith(ids, sg, init)
	add("flipped threshold signature", resig(full, func(m map[string]any) { m["sign"] = flip(fmt.Sprint(m["sign"]), rng) }))
	add("empty threshold signature", resig(full, func(m map[string]any) { m["sign"] = "" }))
	add("short threshold signature", resig(full, func(m map[string]any) { m["sign"] = "00" }))
	add("zero threshold signature", resig(full, func(m map[string]any) { m["sign"] = strings.Repeat("0", 96) }))
	add("infinity as threshold signature", resig(full, func(m map[string]any) { m["sign"] = "c0" + strings.Repeat("0", 94) }))
	add("ids missing", resig(full, func(m map[string]any) { delete(m, "ids") }))
	add("ids not a list", resig(full, func(m map[string]any) { m["ids"] = ids[0] }))
	add("a plain signature instead", func() Obj {
		x := full
		x.Signature[0] = RSASigString([]byte(content), w.RSA[ids[0]], ids[0])
		return x
	}())
	return out
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

// ConForgeries are conflict proofs that prove nothing.
func (w *World) ConForgeries(o Obj, rng *rand.Rand) []Mut {
	out := []Mut{}
	e := o.Payload[0]
	add := func(name string, f func(m *Obj)) {
		m := o
		f(&m)
		out = append(out, Mut{name, m})
	}
	all := append(append([]string{}, w.L...), w.C...)
	by := e
	for by == e {
		by = all[rng.Intn(len(all))]
	}
	i := rng.Intn(2)
	add("the same statement twice", func(m *Obj) {
		m.Payload[2-i] = m.Payload[1+i]
		m.Signature[1-i] = m.Signature[i]
	})
	add("one statement signed with an unknown key", func(m *Obj) { m.Signature[i] = RSASigString([]byte(m.Payload[1+i]), w.Foreign, e) })
	add("one statement signed by another entity", func(m *Obj) { m.Signature[i] = RSASigString([]byte(m.Payload[1+i]), w.RSA[by], by) })
	add("both statements signed by another entity", func(m *Obj) {
		for k := 0; k < 2; k++ {
			m.Signature[k] = RSASigString([]byte(m.Payload[1+k]), w.RSA[by], by)
		}
	})
	add("both statements signed by another entity under this name", func(m *Obj) {
		for k := 0; k < 2; k++ {
			m.Signature[k] = RSASigString([]byte(m.Payload[1+k]), w.RSA[by], e)
		}
	})
	add("against another entity", func(m *Obj) { m.Payload[0] = by })
	add("one statement missing", func(m *Obj) { m.Payload[1+i] = ""; m.Signature[i] = "" })
	add("no statements", func(m *Obj) { m.Payload[1], m.Payload[2] = "", "" })
	add("one signature for both", func(m *Obj) { m.Signature[1-i] = m.Signature[i] })
	add("signatures swapped", func(m *Obj) { m.Signature[0], m.Signature[1] = m.Signature[1], m.Signature[0] })
	add("one signature missing", func(m *Obj) { m.Signature[i] = "" })
	add("one statement altered", func(m *Obj) { m.Payload[1+i] = flip(m.Payload[1+i], rng) })
	n := 0
	fmt.Sscanf(o.Period, "%d", &n)
	// honest statements that do not contradict each other
	mk := func(a, b Obj) Obj { x := MakeCON(a, b, n); x.Payload[0] = e; return x }
	if contains(w.L, e) {
		out = append(out, Mut{"statements of two periods", mk(w.MakeSTH(e, n, "a"), w.MakeSTH(e, n+1, "b"))})
		out = append(out, Mut{"an accusation and a statement", mk(w.MakeSTH(e, n, "a"), w.MakeACC(e, e, n))})
	} else {
		out = append(out, Mut{"statements of two periods", mk(w.SimpleREV(e, n, 1), w.SimpleREV(e, n+1, 1, 2))})
		out = append(out, Mut{"statements of two periods, an hour's end apart", mk(w.SimpleREV(e, 59, 1), w.SimpleREV(e, 0, 1, 2))})
		out = append(out, Mut{"an accusation and a statement", mk(w.SimpleREV(e, n, 3), w.MakeACC(e, e, n))})
		// the signed revocation hash is signed by the entity too, but it is no statement
		out = append(out, Mut{"a statement and its revocation hash", func() Obj {
			a := w.SimpleREV(e, n, 3)
			_, d, srh, _ := a.ParseREV()
			x := mk(a, a)
			x.Payload[2] = string(SRHMessage(P2(n), d, d))
			x.Signature[1] = srh
			return x
		}()})
	}
	// a log and a CA, each with one statement
	if len(w.L) > 0 && len(w.C) > 0 {
		out = append(out, Mut{"statements of two entities", mk(w.MakeSTH(w.L[0], n, "a"), w.SimpleREV(w.C[0], n, 3))})
	}
	return out
}

// Pick returns k of the mutations.
func Pick(ms []Mut, k int, rng *rand.Rand) []Mut {
	p := rng.Perm(len(ms))
	out := []Mut{}
	for _, i := range p {
		if len(out) < k {
			out = append(out, ms[i])
		}
	}
	return out
}

// Respell writes the signature of an object in another way that says the same.
func Respell(o Obj, rng *rand.Rand) Obj {
	var m map[string]any
	if json.Unmarshal([]byte(o.Signature[0]), &m) != nil {
		return o
	}
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	pad := func() string { return strings.Repeat(" ", rng.Intn(3)) }
	parts := []string{}
	for _, k := range keys {
		v, _ := json.Marshal(m[k])
		parts = append(parts, fmt.Sprintf("%s%q%s:%s%s%s", pad(), k, pad(), pad(), v, pad()))
	}
	if rng.Intn(2) == 0 {
		parts = append(parts, fmt.Sprintf(`"x%d":%d`, rng.Intn(9), rng.Intn(9)))
	}
	o.Signature[0] = "{" + strings.Join(parts, ",") + "}" + pad()
	return o
}
