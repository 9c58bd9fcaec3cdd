// Package end watches where endorsements and proofs are relied upon: at a gossiper, at a monitor and at a client.
package end

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"testing"
	"time"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

var places = []string{"gossiper", "monitor", "client"}

func names(ms []Mut) []string {
	m := map[string]bool{}
	for _, x := range ms {
		m[x.Name] = true
	}
	return Keys(m)
}

func topology(c *Case, least int) Topology {
	n := 3 + c.Rng.Intn(5)
	t := least + c.Rng.Intn(n-least+1)
	return Topology{N: n, Threshold: t, Loggers: 2, CAs: 2, Wait: 5}
}

// statement draws a statement of the kind about the i-th entity.
func statement(w *World, kind string, i, period, variant int) Obj {
	switch kind {
	case "STH":
		return w.MakeSTH(w.L[i%len(w.L)], period, fmt.Sprintf("tree %d", variant))
	case "REV":
		return w.SimpleREV(w.C[i%len(w.C)], period, uint(10+variant), uint(100+variant*7))
	}
	all := append(append([]string{}, w.L...), w.C...)
	return w.MakeACC(w.M[variant%len(w.M)], all[i%len(all)], period)
}

// own is a statement the entity itself makes.
func own(w *World, e string, period, variant int) Obj {
	for _, l := range w.L {
		if l == e {
			return w.MakeSTH(e, period, fmt.Sprintf("own tree %d", variant))
		}
	}
	return w.SimpleREV(e, period, uint(500+variant))
}

var gossipPaths = []string{"sth_init", "rev_init", "acc_init", "con_init", "sth_frag", "rev_frag", "acc_frag"}

// giveAnywhere posts an object to some endpoint of the gossiper: what it is does not depend on where it arrives.
func giveAnywhere(l *Lab, o Obj) {
	p := gossipPaths[l.C.Rng.Intn(len(gossipPaths))]
	l.Net.Post(l.Anyone(), l.Self, "/gossip/"+p, o.JSON())
}

// stillTrusted gives the gossiper a new statement of the entity and expects it to be spread and endorsed.
func stillTrusted(l *Lab, e string, why string) {
	o := own(l.W, e, l.P, 77)
	l.Give(l.Anyone(), o)
	for _, p := range l.Peers[:min(len(l.Peers), l.W.Threshold-1)] {
		l.Give(p, Compact(l.W.MakeFrag(p, o)))
	}
	time.Sleep(6 * time.Second)
	Settle()
	l.ExpectSpread(o, why)
	l.ExpectFull(o, why)
}

// TestC02: nothing is endorsed by fewer than the threshold of distinct gossipers, wherever it is relied upon.
func TestC02(t *testing.T) {
	RunProp(t, "C02", func(r *Run) {
		n := r.N(300, 6000)
		for i := 0; i < n; i++ {
			kind := Kinds[i%3]
			place := []string{"gossiper", "fragments", "monitor", "client"}[(i/3)%4]
			r.Case(fmt.Sprintf("%s-%s-%d", kind, place, i), func(c *Case) {
				switch place {
				case "gossiper":
					Bubble(c, func(n *Net) { fullAtGossiper(c, n, kind) })
				case "fragments":
					Bubble(c, func(n *Net) { fragmentsAtGossiper(c, n, kind) })
				case "monitor":
					Bubble(c, func(n *Net) { fullAtMonitor(c, n, kind) })
				case "client":
					fullAtClient(c, kind)
				}
			})
		}
	})
}

func forgeries(c *Case, w *World, init Obj, k int) []Mut {
	full := w.MakeFull(Shuffled(c, w.G)[:w.Threshold], init)
	ms := Pick(w.Mutations(full, c.Rng), k, c.Rng)
	for _, m := range ms {
		c.Desc("forged: %s", m.Name)
		c.Count("forgery: "+m.Name, 1)
	}
	return ms
}

func fullAtGossiper(c *Case, n *Net, kind string) {
	l := NewLab(c, n, topology(c, 2))
	w := l.W
	init := statement(w, kind, c.Rng.Intn(4), l.P, c.Rng.Intn(5))
	bad := forgeries(c, w, init, 3+c.Rng.Intn(8))
	l.At(0.5)
	withInit := kind != "ACC" && c.Rng.Intn(2) == 0
	if withInit {
		l.Give(l.Anyone(), init)
	}
	for _, b := range bad {
		if c.Rng.Intn(2) == 0 {
			l.Give(l.Anyone(), b.Obj)
		} else {
			giveAnywhere(l, b.Obj)
		}
	}
	l.At(9)
	Settle()
	l.Judge()
	l.ExpectNoFull(init, "it was not endorsed, only claimed to be")
	if kind == "ACC" && !c.Failed() {
		stillTrusted(l, init.Payload[0], "nobody proved anything against its entity")
	} else if c.Rng.Intn(2) == 0 && !withInit {
		full := w.MakeFull(Shuffled(c, w.G)[:w.Threshold], init)
		l.Give(l.Anyone(), full)
		Settle()
		l.ExpectFull(init, "it is endorsed, and what was claimed before does not matter")
	}
	c.Nontrivial(fmt.Sprintf("gossiper/%s/n%d/t%d/%v", kind, len(w.G), w.Threshold, names(bad)))
}

func fragmentsAtGossiper(c *Case, n *Net, kind string) {
	l := NewLab(c, n, topology(c, 2))
	w := l.W
	init := statement(w, kind, c.Rng.Intn(4), l.P, 1)
	signers := Shuffled(c, l.Peers)[:w.Threshold-2] // with the gossiper itself one too few
	objs := []Obj{}
	for _, g := range signers {
		f := Compact(w.MakeFrag(g, init))
		for j := 0; j < 1+c.Rng.Intn(4); j++ {
			objs = append(objs, f)
		}
		// the same fragment in other clothes
		f.Timestamp = "2001-01-01T00:00:00Z"
		objs = append(objs, f)
		f.Application = "other"
		f.Crypto_Scheme = "x"
		f.Signers = []string{"localhost:1", "localhost:2", "localhost:3"}
		objs = append(objs, f)
	}
	bad := []Mut{}
	for _, g := range l.Peers {
		for _, m := range Pick(w.Mutations(w.MakeFrag(g, init), c.Rng), 3, c.Rng) {
			// what the receiver fills in of a revocation fragment is not part of it
			x := m.Obj
			x.Payload = init.Payload
			if w.Valid(x) == nil && x.Type == FragOf(init.Type) {
				continue
			}
			bad = append(bad, m)
			objs = append(objs, m.Obj)
			c.Count("forgery: "+m.Name, 1)
		}
	}
	// fragments of the others that are good for another content or another period only
	for _, g := range l.Peers {
		o2 := statement(w, kind, 0, l.P, 9)
		f := w.MakeFrag(g, o2)
		f.Payload = init.Payload
		if kind != "ACC" {
			objs = append(objs, Compact(f))
		}
	}
	c.Rng.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
	l.At(0.5)
	l.Give(l.Anyone(), init)
	if c.Rng.Intn(2) == 0 {
		l.Together(l.Peers, objs)
	} else {
		for _, o := range objs {
			l.Give(l.Anyone(), o)
			time.Sleep(time.Duration(c.Rng.Intn(500)) * time.Millisecond)
		}
	}
	time.Sleep(10 * time.Second)
	Settle()
	l.Judge()
	l.ExpectNoFull(init, fmt.Sprintf("only %d gossipers endorsed it, threshold %d", w.Threshold-1, w.Threshold))
	if !c.Failed() {
		// one more makes it
		for _, g := range l.Peers {
			if !has(signers, g) {
				l.Give(g, Compact(w.MakeFrag(g, init)))
				break
			}
		}
		Settle()
		l.ExpectFull(init, "the last endorsement came in")
	}
	c.Nontrivial(fmt.Sprintf("fragments/%s/n%d/t%d/%v", kind, len(w.G), w.Threshold, names(bad)))
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// checkUpdate fails if the update holds anything that is not proof of what it says.
func checkUpdate(c *Case, w *World, u *Update) {
	sec := func(name, typ string, os []Obj) {
		for _, o := range os {
			if o.Type != typ {
				c.Fail("the update's %s section holds %v", name, o)
			} else if err := w.Valid(o); err != nil {
				c.Fail("the update holds %v, which is not valid: %v", o, err)
			}
		}
	}
	sec("STH", STH_FULL, u.STHs)
	sec("REV", REV_FULL, u.REVs)
	sec("accusation", ACC_FULL, u.POM_ACCs)
	sec("conflict", CON_INIT, u.POM_CONs)
	c.Count("published_objects_checked", len(u.All()))
}

func about(os []Obj, e string) int {
	k := 0
	for _, o := range os {
		if o.Payload[0] == e {
			k++
		}
	}
	return k
}

func fullAtMonitor(c *Case, n *Net, kind string) {
	l := NewMonLab(c, n, topology(c, 2))
	w := l.W
	init := statement(w, kind, c.Rng.Intn(4), l.P, c.Rng.Intn(5))
	e := init.Payload[0]
	bad := forgeries(c, w, init, 3+c.Rng.Intn(8))
	l.At(3)
	early := c.Rng.Intn(2) == 0
	if early {
		l.Endorse(l.Min)
	}
	for _, b := range bad {
		if c.Rng.Intn(3) == 0 {
			time.Sleep(time.Duration(c.Rng.Intn(1000)) * time.Millisecond)
		}
		l.Give(b.Obj)
	}
	if !early {
		l.Endorse(l.Min)
	}
	l.At(50)
	Settle()
	u := l.Update(0)
	checkUpdate(c, w, u)
	l.ExpectPublished(u, l.Min)
	if len(u.POM_ACCs)+len(u.POM_CONs) > 0 {
		c.Fail("the monitor published a proof against somebody although nothing was endorsed: %v", append(u.POM_ACCs, u.POM_CONs...)[0])
	}
	// nothing of it has any effect on the next period
	l.At(60 + 10)
	Settle()
	if l.Queries(e, time.Now().Add(-11*time.Second)) != 1 {
		c.Fail("the monitor no longer asks %s although nothing was proved against it", e)
	}
	k := 0
	for _, ev := range l.Sent(STH_INIT, REV_INIT) {
		if ev.Obj.Payload[0] == e && ev.Obj.Period == P2(l.P+1) {
			k++
		}
	}
	if k != 1 && !c.Failed() {
		c.Fail("the monitor gave its gossiper %d statements of %s in the next period, expected 1", k, e)
	}
	for _, ev := range l.Sent(ACC_INIT) {
		c.Fail("the monitor accused an entity that answers honestly: %v", ev)
	}
	c.Nontrivial(fmt.Sprintf("monitor/%s/n%d/t%d/%v", kind, len(w.G), w.Threshold, names(bad)))
}

func section(u *Update, o Obj) {
	switch o.Type {
	case STH_FULL, STH_INIT, STH_FRAG:
		u.STHs = append(u.STHs, o)
	case REV_FULL, REV_INIT, REV_FRAG:
		u.REVs = append(u.REVs, o)
	case CON_INIT:
		u.POM_CONs = append(u.POM_CONs, o)
	default:
		u.POM_ACCs = append(u.POM_ACCs, o)
	}
}

// rejected gives the client an update that is sound but for the one object.
func rejected(c *Case, cl *Client, w *World, base []Obj, b Mut) {
	u := Update{MonitorID: w.M[0], Period: "05"}
	at := c.Rng.Intn(len(base) + 1)
	for i, o := range base {
		if i == at {
			section(&u, b.Obj)
		}
		section(&u, o)
	}
	if at == len(base) {
		section(&u, b.Obj)
	}
	before := cl.Snapshot()
	if cl.Apply(u) {
		c.Fail("the client accepted an update with an object that is not valid (%s): %v", b.Name, b.Obj)
	}
	if cl.Snapshot() != before {
		c.Fail("the client refused an update (%s) and changed what it believes", b.Name)
	}
}

func fullAtClient(c *Case, kind string) {
	w := NewWorld(c.Dir, topology(c, 2))
	p := c.Rng.Intn(60)
	init := statement(w, kind, c.Rng.Intn(4), p, 3)
	bad := forgeries(c, w, init, 4+c.Rng.Intn(8))
	cl := NewClient(w, c.Dir, false)
	q := Shuffled(c, w.G)[:w.Threshold]
	base := []Obj{w.MakeFull(q, w.MakeSTH(w.L[0], p, "x")), w.MakeFull(q, w.SimpleREV(w.C[0], p, 3, 9)), w.MakeFull(q, w.MakeACC(w.M[0], w.L[1], p))}
	if !cl.Apply(Update{STHs: base[:1], REVs: base[1:2], POM_ACCs: base[2:], Period: P2(p)}) {
		c.Fail("the client refused a sound update")
	}
	for _, b := range bad {
		nxt := []Obj{w.MakeFull(q, w.MakeSTH(w.L[0], p+1, "y")), w.MakeFull(q, w.MakeREV(w.C[0], p+1, Bits(2048, 3, 9, 70), Bits(2048, 70))), w.MakeFull(q, w.MakeACC(w.M[1], w.C[1], p))}
		rejected(c, cl, w, nxt, b)
	}
	c.Nontrivial(fmt.Sprintf("client/%s/n%d/t%d/%v", kind, len(w.G), w.Threshold, names(bad)))
}

// TestC05: nobody who made only one statement per kind and period is ever convicted of a conflict.
func TestC05(t *testing.T) {
	RunProp(t, "C05", func(r *Run) {
		n := r.N(300, 6000)
		for i := 0; i < n; i++ {
			kind := []string{"STH", "REV"}[i%2]
			place := []string{"gossiper", "honest statements", "monitor", "client"}[(i/2)%4]
			r.Case(fmt.Sprintf("%s-%s-%d", kind, place, i), func(c *Case) {
				switch place {
				case "gossiper":
					Bubble(c, func(n *Net) { conAtGossiper(c, n, kind) })
				case "honest statements":
					Bubble(c, func(n *Net) { honestStatements(c, n, kind) })
				case "monitor":
					Bubble(c, func(n *Net) { conAtMonitor(c, n, kind) })
				case "client":
					conAtClient(c, kind)
				}
			})
		}
	})
}

// framings are conflict proofs that prove nothing.
func framings(c *Case, w *World, kind string, e, p, k int) []Mut {
	a := statement(w, kind, e, p, 1)
	b := statement(w, kind, e, p, 2)
	con := MakeCON(a, b, p)
	ms := []Mut{}
	for _, m := range append(w.ConForgeries(con, c.Rng), w.Mutations(con, c.Rng)...) {
		if w.Valid(m.Obj) != nil && m.Obj.Payload[0] != "" {
			ms = append(ms, m)
		}
	}
	// the same statement, signature written differently
	x := con
	x.Payload[2] = x.Payload[1]
	var s map[string]string
	json.Unmarshal([]byte(x.Signature[0]), &s)
	x.Signature[1] = fmt.Sprintf(`{"id": %q,  "sig": %q}`, s["id"], s["sig"])
	ms = append(ms, Mut{Name: "one statement, its signature written in two ways", Obj: x})
	ms = Pick(ms, k, c.Rng)
	for _, m := range ms {
		c.Desc("framing: %s", m.Name)
		c.Count("framing: "+m.Name, 1)
	}
	return ms
}

func noConviction(l *Lab) {
	for _, e := range l.Sent("", CON_INIT) {
		l.C.Fail("the gossiper spread a proof against an honest entity: %v", e)
		return
	}
}

func conAtGossiper(c *Case, n *Net, kind string) {
	l := NewLab(c, n, topology(c, 1))
	w := l.W
	e := c.Rng.Intn(2)
	bad := framings(c, w, kind, e, l.P, 3+c.Rng.Intn(8))
	l.At(0.5)
	for _, b := range bad {
		if c.Rng.Intn(2) == 0 {
			l.Give(l.Anyone(), b.Obj)
		} else {
			giveAnywhere(l, b.Obj)
		}
	}
	Settle()
	l.At(9)
	noConviction(l)
	l.Judge()
	if !c.Failed() {
		for _, x := range append(append([]string{}, w.L...), w.C...) {
			stillTrusted(l, x, "nobody proved anything against its entity")
			if c.Failed() {
				break
			}
		}
	}
	c.Nontrivial(fmt.Sprintf("gossiper/%s/n%d/t%d/%v", kind, len(w.G), w.Threshold, names(bad)))
}

// honestStatements: one statement per period, in any clothes and any order, never makes a conflict.
func honestStatements(c *Case, n *Net, kind string) {
	l := NewLab(c, n, topology(c, 1))
	w := l.W
	e := c.Rng.Intn(2)
	objs := []Obj{}
	add := func(o Obj) { objs = append(objs, o) }
	for d := -2; d <= 2; d++ {
		if d != 0 && c.Rng.Intn(2) == 0 {
			continue
		}
		o := statement(w, kind, e, l.P+d+60, 10+d)
		add(o)
		x := o
		x.Timestamp = "2011-11-11T11:11:11Z"
		add(x)
		x.Application = "CTng2"
		x.Crypto_Scheme = "rsa"
		x.Signers = []string{"a"}
		add(x)
		var s map[string]string
		json.Unmarshal([]byte(o.Signature[0]), &s)
		x.Signature[0] = fmt.Sprintf(`{ "id":%q, "sig":%q }`, s["id"], s["sig"])
		add(x)
		// the same statement under the label of another period, and cut at another place
		x = o
		x.Period = P2(l.P + d + 1)
		add(x)
		for _, m := range Pick(w.Mutations(o, c.Rng), 4, c.Rng) {
			add(m.Obj)
		}
		y := o
		y.Payload = [3]string{o.Payload[0], o.Payload[1] + o.Payload[2], ""}
		add(y)
		y.Payload = [3]string{o.Payload[0], "", o.Payload[1] + o.Payload[2]}
		add(y)
	}
	// the others' statements
	add(statement(w, kind, e+1, l.P, 1))
	add(statement(w, map[string]string{"STH": "REV", "REV": "STH"}[kind], e, l.P, 1))
	c.Rng.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
	l.At(0.5)
	if c.Rng.Intn(2) == 0 {
		l.Together(l.Peers, objs)
	} else {
		for _, o := range objs {
			l.Give(l.Anyone(), o)
			time.Sleep(time.Duration(c.Rng.Intn(300)) * time.Millisecond)
		}
	}
	l.At(25)
	Settle()
	noConviction(l)
	l.Judge()
	c.Count("honest_statements_given", len(objs))
	c.Nontrivial(fmt.Sprintf("honest/%s/n%d/t%d/%d objects", kind, len(w.G), w.Threshold, len(objs)))
}

func conAtMonitor(c *Case, n *Net, kind string) {
	l := NewMonLab(c, n, topology(c, 1))
	w := l.W
	e := c.Rng.Intn(2)
	victim := statement(w, kind, e, l.P, 1).Payload[0]
	bad := framings(c, w, kind, e, l.P, 3+c.Rng.Intn(8))
	l.At(3)
	for _, b := range bad {
		l.Give(b.Obj)
	}
	all := append(append([]string{}, w.L...), w.C...)
	l.Endorse(l.Min)
	l.At(50)
	Settle()
	u := l.Update(0)
	checkUpdate(c, w, u)
	if len(u.POM_CONs) > 0 {
		c.Fail("the monitor published a proof against an honest entity: %v", u.POM_CONs[0])
	}
	for _, x := range all {
		if about(u.STHs, x)+about(u.REVs, x) != 1 {
			c.Fail("the monitor left out the endorsed statement of %s, framed was %s", x, victim)
		}
	}
	l.At(70)
	Settle()
	for _, x := range all {
		if l.Queries(x, time.Now().Add(-11*time.Second)) != 1 {
			c.Fail("the monitor no longer asks %s, framed was %s", x, victim)
		}
	}
	c.Nontrivial(fmt.Sprintf("monitor/%s/n%d/t%d/%v", kind, len(w.G), w.Threshold, names(bad)))
}

func conAtClient(c *Case, kind string) {
	w := NewWorld(c.Dir, topology(c, 1))
	p := c.Rng.Intn(60)
	bad := framings(c, w, kind, c.Rng.Intn(2), p, 4+c.Rng.Intn(8))
	cl := NewClient(w, c.Dir, false)
	q := Shuffled(c, w.G)[:w.Threshold]
	for _, b := range bad {
		base := []Obj{w.MakeFull(q, w.MakeSTH(w.L[0], p, "x")), w.MakeFull(q, w.SimpleREV(w.C[0], p, 3, 9))}
		rejected(c, cl, w, base, b)
	}
	c.Nontrivial(fmt.Sprintf("client/%s/n%d/t%d/%v", kind, len(w.G), w.Threshold, names(bad)))
}

// TestC06: once convicted, always shut out.
func TestC06(t *testing.T) {
	RunProp(t, "C06", func(r *Run) {
		n := r.N(420, 5000)
		for i := 0; i < n; i++ {
			kind := []string{"STH", "REV"}[i%2]
			by := []string{"proof", "statements", "accusation fragments", "endorsed accusation", "monitor", "client"}[(i/2)%6]
			r.Case(fmt.Sprintf("%s-%s-%d", kind, by, i), func(c *Case) {
				if by == "client" {
					shutOutAtClient(c)
					return
				}
				Bubble(c, func(n *Net) {
					if by == "monitor" {
						shutOutAtMonitor(c, n, kind)
					} else {
						shutOutAtGossiper(c, n, kind, by)
					}
				})
			})
		}
	})
}

func shutOutAtGossiper(c *Case, n *Net, kind, by string) {
	l := NewLab(c, n, topology(c, 1))
	w := l.W
	x := c.Rng.Intn(2) // who is convicted; the other one is honest
	a, b := statement(w, kind, x, l.P, 1), statement(w, kind, x, l.P, 2)
	e := a.Payload[0]
	l.At(0.5 + c.Rng.Float64()*30)
	acc := w.MakeACC(l.Mon, e, l.P)
	switch by {
	case "proof":
		l.Give(l.Anyone(), MakeCON(a, b, l.P))
	case "statements":
		l.Give(l.Anyone(), a)
		l.Give(l.Anyone(), b)
	case "accusation fragments":
		l.Give(l.Mon, acc)
		for _, p := range l.Peers {
			l.Give(p, w.MakeFrag(p, acc))
		}
	case "endorsed accusation":
		l.Give(l.Anyone(), w.MakeFull(Shuffled(c, w.G)[:w.Threshold], acc))
	}
	Settle()
	time.Sleep(time.Second)
	known := time.Now()
	if by == "proof" || by == "statements" {
		l.ExpectProof(e, "the conviction is known")
	} else {
		l.ExpectFull(acc, "the accusation was endorsed")
	}
	periods, apart := 1+c.Rng.Intn(4), 1
	if c.Rng.Intn(8) == 0 { // long after
		apart = []int{3, 7, 11, 13, 17, 23}[c.Rng.Intn(6)] // no label comes twice
	}
	for k := 0; k <= periods; k++ {
		at := time.Duration(2+c.Rng.Intn(25)) * time.Second
		if k > 0 {
			l.At(float64(60*k*apart) + at.Seconds())
		}
		o := statement(w, kind, x, Minute(), 20+k)
		l.Give(l.Anyone(), o)
		if kind == "REV" && c.Rng.Intn(2) == 0 {
			l.Announce(l.Peers[0], statement(w, kind, x, Minute(), 60+k))
		}
		for _, p := range l.Peers {
			l.Give(p, Compact(w.MakeFrag(p, o)))
			if c.Rng.Intn(2) == 0 {
				l.Give(p, w.MakeFrag(p, o))
			}
		}
		if c.Rng.Intn(2) == 0 {
			l.Give(l.Anyone(), w.MakeFull(Shuffled(c, w.G)[:w.Threshold], o))
		}
		// an honest one next to it goes on
		h := statement(w, kind, 1-x, Minute(), 30+k)
		l.Give(l.Anyone(), h)
		for _, p := range l.Peers {
			l.Give(p, Compact(w.MakeFrag(p, h)))
		}
		time.Sleep(8 * time.Second)
		Settle()
		if epochOf(time.Now()) == epochOf(time.Now().Add(-8*time.Second)) {
			l.ExpectFull(h, "it has nothing to do with the convicted entity")
		}
	}
	l.Judge()
	for _, ev := range l.Sent("") {
		o := ev.Obj
		if o.Payload[0] != e || !ev.At.After(known) || o.Type == CON_INIT || Kind(o.Type) == "ACC" {
			continue
		}
		if o.Type == REV_INIT && ev.To != l.Mon { // handed over on request of a peer
			continue
		}
		c.Fail("after %s was convicted (%s), the gossiper sent %v", e, by, ev)
		break
	}
	c.Count("periods_after_conviction", periods*apart)
	c.Nontrivial(fmt.Sprintf("%s/%s/n%d/t%d/%d periods, %d apart", kind, by, len(w.G), w.Threshold, periods, apart))
}

func epochOf(t time.Time) int64 { return (t.Unix() - 40) / 60 }

func shutOutAtMonitor(c *Case, n *Net, kind string) {
	l := NewMonLab(c, n, topology(c, 1))
	w := l.W
	type conviction struct {
		e    string
		min  int // counted from the start
		at   float64
		con  []Obj
		from int // the first update it is in
	}
	cs := []conviction{}
	kinds := []string{kind, "STH", "REV"}
	for j := 0; j < 1+c.Rng.Intn(3); j++ {
		k, m := kinds[j], 0
		if j > 0 {
			m = c.Rng.Intn(3)
		}
		a, b := statement(w, k, j, l.P+m, 1), statement(w, k, j, l.P+m, 2)
		v := conviction{e: a.Payload[0], min: m, at: 2 + c.Rng.Float64()*57, con: []Obj{MakeCON(a, b, l.P+m)}}
		if m > 0 && v.at < 10 {
			v.at += 10
		}
		if v.at > 39.9 && v.at < 40.1 {
			v.at = 39
		}
		if c.Rng.Intn(2) == 0 { // once more, found in another period
			v.con = append(v.con, MakeCON(b, a, l.P+m+1))
		}
		v.from = v.min
		if v.at >= 40 {
			v.from++
		}
		double := false
		for _, o := range cs {
			double = double || o.e == v.e
		}
		if !double {
			cs = append(cs, v)
		}
	}
	periods := 2 + c.Rng.Intn(4)
	if c.Rng.Intn(16) == 0 { // long after
		periods = 15 + c.Rng.Intn(50)
	}
	for k := 0; k <= periods; k++ {
		l.At(float64(60*k) + 1)
		if k > 0 {
			l.At(float64(60*k) + 8)
		}
		l.Endorse(l.Min + k)
		mine := []conviction{}
		for _, v := range cs {
			if v.min == k {
				mine = append(mine, v)
			}
		}
		sort.Slice(mine, func(a, b int) bool { return mine[a].at < mine[b].at })
		for _, v := range mine {
			l.At(float64(60*k) + v.at)
			Settle()
			for _, o := range v.con {
				l.Give(o)
			}
		}
		l.At(float64(60*k) + 59.2)
		Settle()
		u := l.Update(k)
		checkUpdate(c, w, u)
		out := []string{}
		for _, v := range cs {
			if v.from > k {
				continue
			}
			out = append(out, v.e)
			if about(u.STHs, v.e)+about(u.REVs, v.e) > 0 {
				c.Fail("%d periods after %s was convicted of a conflict, the monitor published its statement", k-v.min, v.e)
			}
			if k > v.min && l.Queries(v.e, time.Now().Add(-59300*time.Millisecond)) > 0 {
				c.Fail("%d periods after %s was convicted of a conflict, the monitor asked it for a statement", k-v.min, v.e)
			}
			if v.from == k && about(u.POM_CONs, v.e) < 1 {
				c.Fail("the proof against %s that came in at second %.1f is not in the next update", v.e, v.at)
			}
			c.Count("updates after a conviction", 1)
		}
		l.ExpectPublished(u, l.Min+k, out...)
		for _, ev := range l.Sent(ACC_INIT) {
			c.Fail("the monitor accused an entity it need not accuse: %v", ev)
			break
		}
		if c.Failed() {
			return
		}
	}
	c.Count("periods_after_conviction", periods)
	c.Nontrivial(fmt.Sprintf("monitor/%s/n%d/t%d/%d periods/%d convicted", kind, len(w.G), w.Threshold, periods, len(cs)))
}

// shutOutAtClient: a client counts nothing that comes from a logger it has a proof against.
func shutOutAtClient(c *Case) {
	n := 3 + c.Rng.Intn(3)
	w := NewWorld(c.Dir, Topology{N: n, Threshold: 2 + c.Rng.Intn(n-1), Loggers: 2 + c.Rng.Intn(3), CAs: 2})
	dir := filepath.Join(c.Dir, "client")
	cl := NewClient(w, dir, false)
	ch := NewRevChain(w, w.C[0], 512)
	endorse := func(o Obj) Obj { return w.MakeFull(Shuffled(c, w.G)[:w.Threshold], o) }
	p := c.Rng.Intn(60)
	type made struct {
		subject string
		logger  string
		info    Info
	}
	all := []made{}
	convicted := map[string]bool{}
	shape := ""
	// check asks about certificates with information of every combination of the loggers of one period
	check := func() {
		for j := 0; j < 8 && len(all) > 0; j++ {
			m := all[c.Rng.Intn(len(all))]
			infos, want, from := []Info{}, false, []string{}
			for _, o := range Shuffled(c, all) {
				if o.subject == m.subject && (o.logger == m.logger || c.Rng.Intn(2) == 0) {
					infos = append(infos, o.info)
					from = append(from, o.logger)
					want = want || !convicted[o.logger]
				}
			}
			s := CertSpec{Subject: m.subject, Issuer: w.C[0], Key: 1, RID: 400, Infos: infos}
			got := cl.Ctx.VerifyCTngextension(s.Cert(w))
			c.Count(fmt.Sprintf("verdicts %v", want), 1)
			if got != want {
				c.Fail("%s: the client says %v to a certificate with information of %v, convicted are %v", shape, got, from, Keys(convicted))
				return
			}
		}
	}
	for k := 0; k < 2+c.Rng.Intn(4) && !c.Failed(); k++ {
		up := Update{MonitorID: w.M[0], Period: P2(p)}
		subject := fmt.Sprintf("Testing Dummy %d", k)
		for _, l := range w.L {
			data := [][]byte{RawSubject(subject), RawSubject("of " + l), RawSubject("another")}[:1+c.Rng.Intn(3)]
			root, proofs := Tree(data)
			sth := w.MakeSTHRoot(l, p, hex.EncodeToString(root), len(data))
			all = append(all, made{subject, l, Info{STH: sth, POI: POIMsg{Poi: &proofs[0], SubjectKeyId: []byte(subject), Issuer: w.C[0], LoggerID: l}}})
			up.STHs = append(up.STHs, endorse(sth))
		}
		up.REVs = append(up.REVs, endorse(ch.Next(p, uint(k))))
		say := ""
		for i, e := range append(append([]string{}, w.L...), w.C[1]) {
			if i == 0 && k == 0 || c.Rng.Intn(3) > 0 {
				continue
			}
			how := c.Rng.Intn(3)
			if how != 0 {
				up.POM_ACCs = append(up.POM_ACCs, endorse(w.MakeACC(w.M[c.Rng.Intn(len(w.M))], e, p)))
			}
			if how != 1 {
				a, b := w.MakeSTH(e, p, "one"), w.MakeSTH(e, p, "two")
				if e == w.C[1] {
					a, b = w.SimpleREV(e, p, 5), w.SimpleREV(e, p, 6)
				}
				up.POM_CONs = append(up.POM_CONs, MakeCON(a, b, p))
			}
			convicted[e] = true
			say += fmt.Sprintf("-%d", how)
		}
		if !cl.Apply(up) {
			c.Fail("%s: the client refused a good update", shape)
			return
		}
		shape += fmt.Sprintf("/update%s", say)
		check()
		if c.Rng.Intn(2) == 0 {
			cl.Save()
			cl = NewClient(w, dir, true)
			shape += "/restart"
			check()
		}
		p++
	}
	c.Nontrivial(fmt.Sprintf("client/n%d/t%d/l%d%s", n, w.Threshold, len(w.L), shape))
}
