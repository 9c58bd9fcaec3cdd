// Package rev follows revocations from a CA through a monitor to a client.
package rev

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sort"
	"testing"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/CA"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

const universe = 1000000

// span: one in so many histories is longer than an hour
const span = 33

func ones(b *bitset.BitSet) []uint {
	out := []uint{}
	if b == nil {
		return out
	}
	for i, e := b.NextSet(0); e; i, e = b.NextSet(i + 1) {
		out = append(out, i)
	}
	return out
}

func diff(a, b []uint) string {
	ma, mb := map[uint]bool{}, map[uint]bool{}
	for _, x := range a {
		ma[x] = true
	}
	for _, x := range b {
		mb[x] = true
	}
	lost, added := []uint{}, []uint{}
	for x := range ma {
		if !mb[x] {
			lost = append(lost, x)
		}
	}
	for x := range mb {
		if !ma[x] {
			added = append(added, x)
		}
	}
	if len(lost)+len(added) == 0 {
		return ""
	}
	sort.Slice(lost, func(i, j int) bool { return lost[i] < lost[j] })
	sort.Slice(added, func(i, j int) bool { return added[i] < added[j] })
	if len(lost) > 8 {
		lost = lost[:8]
	}
	if len(added) > 8 {
		added = added[:8]
	}
	return fmt.Sprintf("lost %v, added %v", lost, added)
}

// TestC11: revocations reach the client exactly, and stay.
func TestC11(t *testing.T) {
	RunProp(t, "C11", func(r *Run) {
		n := r.N(150, 1200)
		for i := 0; i < n; i++ {
			kind := []string{"chain", "chain", "break"}[i%3]
			r.Case(fmt.Sprintf("%s-%d", kind, i), func(c *Case) {
				Bubble(c, func(n *Net) {
					if kind == "chain" {
						chain(c, n)
					} else {
						broken(c, n)
					}
				})
			})
		}
	})
}

// authority is a real CA and what has been revoked at it.
type authority struct {
	id       string
	ctx      *CA.CAContext
	revoked  map[uint]bool // by the harness, so far
	stated   map[uint]bool // by the statements so far
	mass     int           // random revocations the CA makes itself in its first period
	perMin   map[int]Obj
	expected map[int][]uint // cumulative set at the statement for the minute
}

func set(m map[uint]bool) []uint {
	out := []uint{}
	for x := range m {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func chain(c *Case, n *Net) {
	l := NewMonLab(c, n, Topology{N: 3, Threshold: 2, Loggers: 1, CAs: 1 + c.Rng.Intn(2), Wait: 5})
	w := l.W
	cas := []*authority{}
	for i, id := range w.C {
		a := &authority{id: id, revoked: map[uint]bool{}, stated: map[uint]bool{}, perMin: map[int]Obj{}, expected: map[int][]uint{}}
		if c.Rng.Intn(3) == 0 {
			a.mass = 1 + c.Rng.Intn(300)
			if c.Rng.Intn(3) == 0 {
				a.mass = 3000 + c.Rng.Intn(40000)
			}
		}
		a.ctx = StartRealCA(c, w, i, func(x *CA.CAContext) { x.RevocationRatio = float64(a.mass) / universe })
		cas = append(cas, a)
	}
	cl := NewClient(w, c.Dir, false)
	periods := 3 + c.Rng.Intn(4)
	if c.Rng.Intn(span) == 0 { // the labels come again
		periods = 60 + c.Rng.Intn(5)
	}
	batch, shape := 0, map[string]bool{}
	revoke := func(a *authority) {
		switch c.Rng.Intn(7) {
		case 0: // none
			shape["none"] = true
			return
		case 1: // again
			for _, x := range set(a.revoked) {
				a.ctx.CRV.Revoke(int(x))
				break
			}
			shape["again"] = true
		case 2: // the ends
			for _, x := range []uint{0, 1, 63, 64, universe - 1} {
				if c.Rng.Intn(2) == 0 {
					a.ctx.CRV.Revoke(int(x))
					a.revoked[x] = true
				}
			}
			shape["ends"] = true
		case 3: // a run
			s := uint(c.Rng.Intn(universe - 1000))
			for k := uint(0); k < uint(50+c.Rng.Intn(400)); k++ {
				a.ctx.CRV.Revoke(int(s + k))
				a.revoked[s+k] = true
			}
			shape["run"] = true
		default:
			for k := 1 + c.Rng.Intn(6); k > 0; k-- {
				x := uint(c.Rng.Intn(universe))
				if c.Rng.Intn(2) == 0 {
					x %= 500
				}
				a.ctx.CRV.Revoke(int(x))
				a.revoked[x] = true
			}
			shape["some"] = true
		}
		batch++
	}
	type step struct {
		sec float64
		do  func()
	}
	pending := []Update{}
	for k := 0; k <= periods; k++ {
		minute := l.Min + k
		steps := []step{}
		for _, a := range cas {
			a := a
			// revocations count for the next statement if they are made before it is
			for j := c.Rng.Intn(3); j > 0; j-- {
				steps = append(steps, step{2 + c.Rng.Float64()*38, func() { revoke(a) }})
			}
			steps = append(steps, step{45, func() {
				// the statement for the next minute is made
				now := set(a.revoked)
				if k == 0 && a.mass > 0 {
					have := ones(a.ctx.CRV.CRV_current)
					for _, x := range have {
						a.revoked[x] = true
					}
					if extra := len(have) - len(now); len(have) < len(now) || extra > a.mass || extra < a.mass-len(now)-1 {
						c.Fail("the CA holds %d revocations after %d were ordered and %d drawn", len(have), len(now), a.mass)
					}
					now = have
				}
				a.expected[minute+1] = now
			}})
			if c.Rng.Intn(2) == 0 {
				steps = append(steps, step{46 + c.Rng.Float64()*13, func() { revoke(a) }})
			}
		}
		if k > 0 {
			for _, a := range cas {
				a := a
				steps = append(steps, step{1.5, func() {
					st, body := n.Do("anyone", a.id, "GET", "/ctng/v2/get-revocation", nil)
					var o Obj
					if err := json.Unmarshal(body, &o); st != 200 || err != nil {
						c.Fail("the CA has no statement for period %s: %d %.200s", P2(minute), st, body)
						return
					}
					a.perMin[minute] = o
					c.Count("statements", 1)
					if err := w.Valid(o); err != nil || o.Type != REV_INIT || o.Period != P2(minute) {
						c.Fail("the CA's statement for period %s is not valid: %v (%v)", P2(minute), o, err)
						return
					}
					_, delta, _, err := o.ParseREV()
					if err != nil {
						c.Fail("the CA's statement for period %s cannot be read: %v", P2(minute), err)
						return
					}
					want := []uint{}
					for _, x := range a.expected[minute] {
						if !a.stated[x] {
							want = append(want, x)
						}
					}
					if d := diff(want, ones(delta)); d != "" {
						c.Fail("the statement of %s for period %s does not carry exactly what was revoked since the last one: %s", a.id, P2(minute), d)
					}
					for _, x := range a.expected[minute] {
						a.stated[x] = true
					}
					c.Count("revocations stated", len(want))
				}})
				back := 4 + c.Rng.Float64()*28
				steps = append(steps, step{back, func() {
					// the monitor has passed the statement on, and gets it back endorsed
					for _, e := range l.Sent(REV_INIT) {
						if e.Obj.Payload[0] == a.id && e.Obj.Period == P2(minute) && e.Obj.Content() == a.perMin[minute].Content() {
							f := w.MakeFull(Shuffled(c, w.G)[:w.Threshold], *e.Obj)
							l.Give(f)
							for j := c.Rng.Intn(6) - 3; j > 0; j-- { // once more, perhaps by other endorsers
								if c.Rng.Intn(2) == 0 {
									f = w.MakeFull(Shuffled(c, w.G)[:w.Threshold], *e.Obj)
								}
								l.Give(f)
								shape["endorsed twice"] = true
							}
							return
						}
					}
					if !c.Failed() {
						c.Fail("the monitor did not pass on the statement of %s for period %s, which extends the earlier ones", a.id, P2(minute))
					}
				}})
				steps = append(steps, step{57, func() {
					if d := diff(a.expected[minute], ones(l.Ctx.Storage_CRV[a.id])); d != "" {
						c.Fail("in period %s the monitor does not hold for revoked what %s has revoked: %s", P2(minute), a.id, d)
					}
					if got, err := saved(l.Ctx.StorageFile_CRV, a.id); err != nil {
						c.Fail("what the monitor saved for revoked in period %s cannot be read: %v", P2(minute), err)
					} else if d := diff(a.expected[minute], got); d != "" && (back < 19.9 || diff(a.expected[minute-1], got) != "") { // it takes up what is endorsed 20 s later
						c.Fail("in period %s the monitor did not save for revoked what %s has revoked: %s", P2(minute), a.id, d)
					}
					c.Count("monitor vectors compared", 1)
				}})
			}
			steps = append(steps, step{58, func() {
				pending = append(pending, *l.Update(k))
				if c.Rng.Intn(3) == 0 && k < periods {
					shape["lagging client"] = true
					return // the client catches up later
				}
				for _, u := range pending {
					if !cl.Apply(u) {
						c.Fail("the client refused the update of period %s", u.Period)
						return
					}
					if c.Rng.Intn(4) == 0 {
						cl.Apply(u)
						shape["applied twice"] = true
					}
				}
				pending = nil
				for _, a := range cas {
					have, ok := cl.Revoked(a.id)
					if d := diff(a.expected[minute], have); d != "" || !ok {
						c.Fail("after the update of period %s the client does not hold for revoked what %s has revoked: %s", P2(minute), a.id, d)
					}
					c.Count("client vectors compared", 1)
				}
			}})
		}
		sort.SliceStable(steps, func(i, j int) bool { return steps[i].sec < steps[j].sec })
		for _, s := range steps {
			At(minute, s.sec)
			Settle()
			s.do()
			if c.Failed() {
				return
			}
		}
	}
	c.Nontrivial(fmt.Sprintf("chain/c%d/p%d/%d/%v", len(cas), periods, batch, Keys(shape)))
}

// broken statements do not extend the chain.
func broken(c *Case, n *Net) {
	l := NewMonLab(c, n, Topology{N: 3, Threshold: 2, Loggers: 1, CAs: 2, Wait: 5})
	w := l.W
	bad, good := w.C[0], w.C[1]
	ch := NewRevChain(w, bad, 4096)
	cl := NewClient(w, c.Dir, false)
	shape := []string{}
	periods := 3 + c.Rng.Intn(3)
	for k := 0; k < periods; k++ {
		minute := l.Min + k
		p := minute % 60
		revoked := []uint{uint(c.Rng.Intn(4096)), uint(c.Rng.Intn(4096))}
		var say Obj
		what := ""
		if k > 0 && c.Rng.Intn(2) == 0 {
			d := Bits(4096, revoked...)
			d.InPlaceDifference(ch.CRV)
			after := ch.CRV.Union(d)
			key := w.RSA[bad]
			switch c.Rng.Intn(8) {
			case 0:
				what, say = "forgets the earlier ones", w.MakeREV(bad, p, d, d)
			case 1:
				some := after.Clone()
				some.Clear(ones(ch.CRV)[0])
				what, say = "un-revokes one", w.MakeREV(bad, p, some, d)
			case 2:
				what, say = "hash signed by another CA", w.MakeREVSigned(bad, p, d, RSASigString(SRHMessage(P2(p), after, d), w.RSA[good], good))
			case 3:
				what, say = "hash signed by another CA in its name", w.MakeREVSigned(bad, p, d, RSASigString(SRHMessage(P2(p), after, d), w.RSA[good], bad))
			case 4:
				what, say = "hash of another period", w.MakeREVSigned(bad, p, d, RSASigString(SRHMessage(P2(p+59), after, d), key, bad))
			case 5:
				d2 := d.Clone().Set(4000 + uint(c.Rng.Intn(90)))
				what, say = "hash of another delta", w.MakeREVSigned(bad, p, d2, RSASigString(SRHMessage(P2(p), after, d), key, bad))
			case 6:
				hidden := after.Clone().Set(4000 + uint(c.Rng.Intn(90)))
				what, say = "hides one", w.MakeREV(bad, p, hidden, d)
			case 7:
				what, say = "no signed hash", w.MakeREVSigned(bad, p, d, "nothing")
			}
		} else {
			say = ch.Next(p, revoked...)
		}
		l.Answer(bad, func(int) (int, []byte) { return 200, say.JSON() })
		At(minute, 3)
		Settle()
		passed := 0
		for _, e := range l.Sent(REV_INIT) {
			if e.Obj.Payload[0] == bad && e.Obj.Period == P2(p) {
				passed++
			}
		}
		if what != "" {
			shape = append(shape, what)
			c.Count("broken: "+what, 1)
			if passed != 0 {
				c.Fail("the monitor passed on a statement that does not extend the earlier ones (%s)", what)
			}
			// even endorsed, it does not change what a client holds for revoked
			if c.Rng.Intn(2) == 0 && k > 0 {
				before := cl.Snapshot()
				u := Update{REVs: []Obj{w.MakeFull(w.G[:2], say)}, MonitorID: l.Self, Period: P2(p)}
				if cl.Apply(u) || cl.Snapshot() != before {
					c.Fail("the client applied a statement that does not extend the earlier ones (%s)", what)
				}
				c.Count("broken statements refused by the client", 1)
			}
			At(minute, 8)
			Settle()
			accused := false
			for _, e := range l.Sent(ACC_INIT) {
				accused = accused || e.Obj.Payload[0] == bad && e.At.After(time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(minute)*time.Minute))
			}
			if !accused {
				c.Fail("the monitor did not accuse a CA whose statement does not extend the earlier ones (%s)", what)
			}
			l.Endorse(minute, bad)
		} else {
			if passed != 1 {
				c.Fail("the monitor passed the statement of %s for period %s on %d times", bad, P2(p), passed)
			}
			l.Give(w.MakeFull(w.G[:2], say))
			l.Endorse(minute, bad)
		}
		At(minute, 50)
		Settle()
		if d := diff(ones(ch.CRV), ones(l.Ctx.Storage_CRV[bad])); d != "" {
			c.Fail("in period %s the monitor does not hold for revoked what %s has revoked: %s", P2(p), bad, d)
		}
		if u := l.Update(k); !c.Failed() && !cl.Apply(*u) {
			c.Fail("the client refused the update of period %s", P2(p))
		}
		if have, _ := cl.Revoked(bad); diff(ones(ch.CRV), have) != "" {
			c.Fail("in period %s the client does not hold for revoked what %s has revoked: %s", P2(p), bad, diff(ones(ch.CRV), have))
		}
		if c.Failed() {
			return
		}
	}
	c.Nontrivial(fmt.Sprintf("break/%d/%v", periods, shape))
}

// saved is what a monitor's file holds for revoked of a CA.
func saved(file, ca string) ([]uint, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var all map[string][]byte
	if err = json.Unmarshal(b, &all); err != nil {
		return nil, err
	}
	if all[ca] == nil {
		return nil, nil
	}
	z, err := gzip.NewReader(bytes.NewReader(all[ca]))
	if err != nil {
		return nil, err
	}
	if b, err = io.ReadAll(z); err != nil {
		return nil, err
	}
	var set bitset.BitSet
	if err = set.UnmarshalBinary(b); err != nil {
		return nil, err
	}
	return ones(&set), nil
}
