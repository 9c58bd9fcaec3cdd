package kit

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	. "ctngverif/lib"
)

// Garbage draws bytes that are nothing.
func Garbage(r *rand.Rand) []byte {
	b := garbage(r)
	if len(b) > 5000 {
		return b
	}
	for _, e := range []struct {
		kind string
		i    int
		at   string
	}{{"C", 0, "localhost:6000"}, {"L", 0, "localhost:7000"}, {"L", 1, "localhost:7001"}, {"G", 0, "localhost:9000"}} {
		b = bytes.ReplaceAll(b, []byte(e.at), []byte(EntityName(e.kind, e.i)))
	}
	return b
}

func garbage(r *rand.Rand) []byte {
	switch r.Intn(12) {
	case 0:
		return nil
	case 1:
		b := make([]byte, r.Intn(300))
		r.Read(b)
		return b
	case 2:
		return []byte([]string{"null", "[]", "{}", "0", `""`, "true", "-1e999", `"a"`, "[[[[]]]]", `{"a":{"b":[null]}}`, "\x00", "{", `{"type":`, `[1,2`}[r.Intn(14)])
	case 3:
		return []byte(strings.Repeat("[", 200+r.Intn(20000)))
	case 4:
		return []byte(`{"type":"` + strings.Repeat("x", 100000+r.Intn(500000)) + `"}`)
	case 5:
		return []byte(strings.Repeat(`{"payload":`, 500+r.Intn(5000)))
	case 6:
		return []byte(`{"type":"` + []string{STH_INIT, REV_INIT, ACC_INIT, CON_INIT, STH_FRAG, REV_FRAG, ACC_FRAG, STH_FULL, REV_FULL, ACC_FULL}[r.Intn(10)] + `"}`)
	case 7:
		return []byte(`{"sender":"` + []string{"", "localhost:1", "%%%", "a b c", "localhost:9000/..", "\\u0000"}[r.Intn(6)] + `","period":"` + []string{"", "00", "x", "-1"}[r.Intn(4)] + `","type":"` + REV_INIT + `","entity_url":"localhost:6000"}`)
	case 8:
		return []byte(`"` + []string{"", "-1", "99", "abc", "0", "../../etc/passwd", "\\u0000", "１", "07"}[r.Intn(9)] + `"`)
	case 9:
		return []byte(fmt.Sprintf(`{"poi":{"Siblings":%s,"Path":%s},"subjectKeyId":"%s","loggerID":"%s"}`, []string{"null", "[]", "[null]", `["AA=="]`, "7"}[r.Intn(5)],
			[]string{"0", "4294967295", "-1", "null"}[r.Intn(4)], []string{"", "AA==", "%"}[r.Intn(3)], []string{"", "localhost:7000", "localhost:7001"}[r.Intn(3)]))
	case 10:
		return []byte(`{"type":"` + REV_INIT + `","period":"00","signer":"localhost:6000","signature":["{\"sig\":\"00\",\"id\":\"localhost:6000\"}",""],"payload":["localhost:6000","CRV","{\"Period\":\"00\"}"],"crypto_scheme":"RSA"}`)
	default:
		return []byte(`{"payload":["a"],"signature":["x"],"signers":{"a":null},"type":5}`)
	}
}

// Bent is valid JSON with one place of it changed.
func Bent(r *rand.Rand, valid []byte) []byte {
	var v any
	if json.Unmarshal(valid, &v) != nil {
		return valid
	}
	switch r.Intn(8) {
	case 0:
		return valid[:r.Intn(len(valid)+1)]
	case 1:
		b := append([]byte{}, valid...)
		b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		return b
	case 2:
		return append(append([]byte{}, valid...), Garbage(r)...)
	}
	v = bend(r, v)
	if r.Intn(3) == 0 {
		v = bend(r, v)
	}
	b, err := json.Marshal(v)
	if err != nil {
		return valid
	}
	return b
}

func odd(r *rand.Rand) any {
	return []any{nil, "", 0, -1, 1e18, true, []any{}, map[string]any{}, "x", "\x00", strings.Repeat("9", 400), EntityName("L", 0), "00", "{}", "{\"sig\":\"zz\"}", "{\"sig\":\"00\",\"id\":\"" + EntityName("L", 0) + "\"}", []any{"", nil, 3}}[r.Intn(17)]
}

func bend(r *rand.Rand, v any) any {
	switch x := v.(type) {
	case map[string]any:
		if len(x) == 0 || r.Intn(12) == 0 {
			return odd(r)
		}
		keys := []string{}
		for k := range x {
			keys = append(keys, k)
		}
		sortStrings(keys)
		k := keys[r.Intn(len(keys))]
		switch r.Intn(5) {
		case 0:
			delete(x, k)
		case 1:
			x[k] = odd(r)
		default:
			x[k] = bend(r, x[k])
		}
		return x
	case []any:
		if len(x) == 0 || r.Intn(12) == 0 {
			return odd(r)
		}
		i := r.Intn(len(x))
		switch r.Intn(5) {
		case 0:
			return append(x[:i:i], x[i+1:]...)
		case 1:
			return append(x, odd(r))
		default:
			x[i] = bend(r, x[i])
		}
		return x
	case string:
		var in any
		if r.Intn(3) > 0 && json.Unmarshal([]byte(x), &in) == nil { // JSON within JSON
			b, _ := json.Marshal(bend(r, in))
			return string(b)
		}
		if len(x) > 0 && r.Intn(2) == 0 {
			i := r.Intn(len(x))
			return x[:i] + x[i+1:]
		}
	}
	return odd(r)
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// Malicious draws an object that is rightly signed by an entity, but whose content is malformed.
func (w *World2) Malicious(r *rand.Rand, logger, ca, gossiper string, period int) Obj {
	p := P2(period)
	sign := func(typ, who, a, b string) Obj {
		o := Obj{Application: "CTng", Period: p, Type: typ, Signer: who, Crypto_Scheme: "RSA", Payload: [3]string{who, a, b}}
		o.Signature[0] = RSASigString([]byte(o.Content()), w.RSA[who], who)
		return o
	}
	sth := func(m map[string]any) Obj {
		x := map[string]any{"Signer": logger, "Timestamp": "t", "Period": P2(period - 1), "RootHash": hex.EncodeToString(make([]byte, 32)), "TreeSize": 1}
		for k, v := range m {
			x[k] = v
		}
		b, _ := json.Marshal(x)
		return sign(STH_INIT, logger, hex.EncodeToString(b), "")
	}
	rev := func(m map[string]any) Obj {
		d, _ := Bits(2048, 5).MarshalBinary()
		x := map[string]any{"Period": p, "Delta_CRV": Gzip(d), "SRH": RSASigString([]byte("x"), w.RSA[ca], ca)}
		for k, v := range m {
			x[k] = v
		}
		b, _ := json.Marshal(x)
		return sign(REV_INIT, ca, "CRV", string(b))
	}
	length := func(n uint64, words int) []byte {
		b := make([]byte, 8+8*words)
		binary.BigEndian.PutUint64(b, n)
		return Gzip(b)
	}
	var o Obj
	switch r.Intn(22) {
	case 0:
		o = sign(STH_INIT, logger, "not hex", "")
	case 1:
		o = sign(STH_INIT, logger, hex.EncodeToString([]byte("not JSON")), "")
	case 2:
		o = sign(STH_INIT, logger, "", "")
	case 3:
		o = sth(map[string]any{"RootHash": "zz"})
	case 4:
		o = sth(map[string]any{"RootHash": "", "TreeSize": -5})
	case 5:
		o = sth(map[string]any{"Period": "x", "TreeSize": "many"})
	case 6:
		o = sth(map[string]any{"RootHash": nil, "Signer": 7})
	case 7:
		o = sth(map[string]any{"RootHash": "ab"})
	case 8:
		o = sign(REV_INIT, ca, "CRV", "not JSON")
	case 9:
		o = sign(REV_INIT, ca, "", "")
	case 10:
		o = rev(map[string]any{"Delta_CRV": []byte("not compressed")})
	case 11:
		o = rev(map[string]any{"Delta_CRV": Gzip([]byte("abc"))})
	case 12:
		o = rev(map[string]any{"Delta_CRV": nil})
	case 13:
		o = rev(map[string]any{"Delta_CRV": length([]uint64{1 << 62, 1<<64 - 1, 1 << 63, 1 << 40, 1<<64 - 64}[r.Intn(5)], 2)})
	case 14:
		o = rev(map[string]any{"Delta_CRV": length(0, 0)})
	case 15:
		o = rev(map[string]any{"Delta_CRV": length(128, 1)})
	case 16:
		o = rev(map[string]any{"SRH": []string{"", "x", "{}", `{"sig":"zz"}`, `{"sig":"","id":""}`, `{"sig":null}`}[r.Intn(6)]})
	case 17:
		o = rev(map[string]any{"Delta_CRV": length(uint64(3000+r.Intn(1000)), 64)})
	case 18:
		o = rev(map[string]any{"Period": 7})
	case 19: // a proof of nothing
		o = MakeCON(sign(STH_INIT, logger, "a", ""), sign(STH_INIT, logger, "b", ""), period)
	case 20:
		o = MakeCON(rev(map[string]any{"SRH": "1"}), sth(nil), period)
	default:
		o = rev(map[string]any{"Delta_CRV": Gzip(make([]byte, 8*r.Intn(40)))})
	}
	if gossiper != "" && IsInit(o.Type) && r.Intn(3) == 0 {
		o = w.MakeFrag(gossiper, o)
		if r.Intn(2) == 0 {
			o.Type = FullOf(o.Type)
		}
	}
	return o
}

// World2 lets the hostile inputs use the world's keys.
type World2 struct{ *World }
