package gsp

import (
	"fmt"
	"sync"
	"testing"
	"time"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// TestC01: only authentic statements are spread and endorsed, and nothing else keeps them from it.
func TestC01(t *testing.T) {
	RunProp(t, "C01", func(r *Run) {
		n := r.N(420, 6000)
		for i := 0; i < n; i++ {
			kind := Kinds[i%3]
			mode := []string{"before", "after", "around", "same instant", "only forged", "replayed label", "two kinds"}[(i/3)%7]
			r.Case(fmt.Sprintf("%s-%s-%d", kind, mode, i), func(c *Case) {
				Bubble(c, func(n *Net) {
					l := NewLab(c, n, LabTopology(c))
					warm := l.Warm()
					init := l.MakeInit(kind, c.Rng.Intn(4), l.P, c.Rng.Intn(5))
					muts := l.W.Mutations(init, c.Rng)
					k := 3 + c.Rng.Intn(10)
					if kind == "ACC" && mode == "replayed label" {
						mode = "around"
					}
					bad := Pick(muts, k, c.Rng)
					for _, b := range bad {
						c.Desc("forged: %s", b.Name)
						c.Count("forgery: "+b.Name, 1)
					}
					give := func(ms []Mut) {
						for _, b := range ms {
							l.Give(l.Anyone(), b.Obj)
							if c.Rng.Intn(3) == 0 {
								time.Sleep(time.Duration(c.Rng.Intn(200)) * time.Millisecond)
							}
						}
					}
					from := l.Anyone()
					l.At(0.5 + c.Rng.Float64()*3)
					others := func() {}
					if mode == "before" || mode == "after" || mode == "around" {
						others = l.Busy(init.Payload[0])
					}
					valid := true
					switch mode {
					case "before":
						give(bad)
						Settle()
						l.Give(from, init)
					case "after":
						l.Give(from, init)
						give(bad)
					case "around":
						give(bad[:k/2])
						l.Give(from, init)
						give(bad[k/2:])
					case "same instant":
						objs, fr := []Obj{init}, []string{from}
						for _, b := range bad {
							objs, fr = append(objs, b.Obj), append(fr, l.Anyone())
						}
						c.Rng.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
						l.Together(fr, objs)
					case "only forged":
						valid = false
						give(bad)
					case "replayed label":
						// an old statement of the entity, honestly signed, given out as one of this period
						old := l.MakeInit(kind, 0, l.P-1-c.Rng.Intn(50), 7)
						init = l.MakeInit(kind, 0, l.P, 8)
						old.Period = init.Period
						l.Give(l.Anyone(), old)
						l.Give(from, init)
						l.Give(l.Anyone(), old)
					case "two kinds":
						give(bad)
						l.Give(from, init)
						o2 := l.MakeInit(Kinds[(i+1)%3], 3, l.P, 3)
						for k := 0; o2.Payload[0] == init.Payload[0]; k++ { // an endorsed accusation would shut the entity out
							o2 = l.MakeInit(Kinds[(i+1)%3], k, l.P, 3)
						}
						give(Pick(l.W.Mutations(o2, c.Rng), 4, c.Rng))
						l.Give(l.Anyone(), o2)
					}
					l.At(20)
					Settle()
					l.Judge()
					others()
					if valid {
						if kind != "ACC" {
							l.ExpectSpread(init, "it is authentic")
						}
						l.ExpectOwnFrag(init, "it is authentic")
						if l.W.Threshold == 1 {
							l.ExpectFull(init, "one signature is enough")
						} else {
							l.ExpectNoFull(init, "only one gossiper endorsed it")
						}
					} else if len(l.Sent("")) > 0 {
						c.Fail("the gossiper sent something although everything it got was forged")
					}
					c.Nontrivial(fmt.Sprintf("%s/%s/%s/n%d/t%d/%v", kind, mode, warm, len(l.W.G), l.W.Threshold, names(bad)))
				})
			})
		}
	})
}

func names(ms []Mut) []string {
	m := map[string]bool{}
	for _, x := range ms {
		m[x.Name] = true
	}
	return Keys(m)
}

// TestC03: fragments assemble into exactly one endorsed object, in whatever order they come.
func TestC03(t *testing.T) {
	RunProp(t, "C03", func(r *Run) {
		n := r.N(480, 6000)
		for i := 0; i < n; i++ {
			kind := Kinds[i%3]
			mode := []string{"sequence", "same instant", "bursts", "too few", "without statement", "mixed contents", "after the period's end", "full from a peer"}[(i/3)%8]
			r.Case(fmt.Sprintf("%s-%s-%d", kind, mode, i), func(c *Case) {
				Bubble(c, func(n *Net) {
					tp := LabTopology(c)
					if mode == "mixed contents" {
						if kind == "ACC" { // all accusations of an entity say the same
							mode = "bursts"
						}
						tp.Threshold = max(2, tp.Threshold)
					}
					l := NewLab(c, n, tp)
					warm := l.Warm()
					w := l.W
					at := 0.5 + c.Rng.Float64()*2
					if mode == "after the period's end" {
						at = 41 + c.Rng.Float64()*2
					}
					period := l.P
					if c.Rng.Intn(3) == 0 { // early or late
						period += []int{-1, 1, -2, 2, 3 + c.Rng.Intn(50)}[c.Rng.Intn(5)]
					}
					init := l.MakeInit(kind, c.Rng.Intn(4), period, 1)
					senders := Shuffled(c, l.Peers)
					k := c.Rng.Intn(len(senders) + 1) // how many peers contribute
					if mode == "too few" {
						k = min(k, max(0, w.Threshold-2))
					}
					if mode == "full from a peer" {
						k = min(k, max(0, w.Threshold-2))
					}
					signers := senders[:k]
					frags := []Obj{}
					for _, g := range signers {
						f := Compact(w.MakeFrag(g, init))
						for j := 0; j <= c.Rng.Intn(3); j++ { // duplicates
							frags = append(frags, f)
						}
						for j := 0; j < c.Rng.Intn(4)-1; j++ { // the same, spelled otherwise
							frags = append(frags, Respell(f, c.Rng))
						}
					}
					// forged ones among them
					if len(signers) > 0 {
						for _, m := range Pick(w.Mutations(w.MakeFrag(signers[0], init), c.Rng), c.Rng.Intn(6), c.Rng) {
							if m.Obj.Type != init.Type {
								frags = append(frags, m.Obj)
							}
						}
					}
					c.Rng.Shuffle(len(frags), func(i, j int) { frags[i], frags[j] = frags[j], frags[i] })
					own := true
					l.At(at)
					others := func() {}
					if mode != "after the period's end" {
						others = l.Busy(init.Payload[0])
					}
					if mode == "without statement" {
						own = false
						if kind == "REV" { // compact fragments mean nothing without it: here they carry their content
							for i := range frags {
								frags[i].Payload = init.Payload
							}
							own = true
							l.Give(l.Anyone(), init)
						}
					} else {
						l.Give(l.Anyone(), init)
					}
					if mode == "mixed contents" {
						// a gossiper that endorses contents nobody stated
						for j := 0; j < 4; j++ {
							o := l.MakeInit(kind, 0, period, 40+j)
							o.Payload[0] = init.Payload[0]
							frags = append([]Obj{w.MakeFrag(l.Peers[0], o)}, frags...)
						}
					}
					switch mode {
					case "same instant":
						wait := c.Rng.Float64() * 8
						if c.Rng.Intn(2) == 0 {
							wait = 5 // together with the gossiper's own fragment
						}
						l.At(at + wait)
						l.Together(l.Peers, frags)
					case "bursts":
						for len(frags) > 0 {
							b := 1 + c.Rng.Intn(len(frags))
							l.Together(l.Peers, frags[:b])
							frags = frags[b:]
							time.Sleep(time.Duration(c.Rng.Intn(1500)) * time.Millisecond)
						}
					default:
						for _, f := range frags {
							l.Give(l.Anyone(), f)
							time.Sleep(time.Duration(c.Rng.Intn(700)) * time.Millisecond)
						}
					}
					if mode == "full from a peer" {
						full := w.MakeFull(Shuffled(c, w.G)[:w.Threshold], init)
						l.Together(l.Peers, []Obj{full, full, full})
						l.At(at + 15)
						l.ExpectFull(init, "a peer had assembled it")
					}
					l.At(at + 15)
					Settle()
					l.Judge()
					others()
					total := k
					if own {
						total++
					}
					if mode != "full from a peer" {
						if total >= w.Threshold {
							l.ExpectFull(init, fmt.Sprintf("%d gossipers endorsed it, threshold %d", total, w.Threshold))
						} else {
							l.ExpectNoFull(init, fmt.Sprintf("only %d gossipers endorsed it, threshold %d", total, w.Threshold))
						}
					}
					c.Count("fragments_given", len(frags))
					c.Nontrivial(fmt.Sprintf("%s/%s/%s/n%d/t%d/k%d", kind, mode, warm, len(w.G), w.Threshold, k))
				})
			})
		}
	})
}

// TestC04: two different statements for the same slot lead to a proof everybody gets.
func TestC04(t *testing.T) {
	RunProp(t, "C04", func(r *Run) {
		n := r.N(480, 6000)
		for i := 0; i < n; i++ {
			kind := Kinds[i%2]
			mode := []string{"in turn", "same instant", "after own fragment", "after endorsement", "proof from a peer", "many", "slow monitor", "compact", "no conflict"}[(i/2)%9]
			r.Case(fmt.Sprintf("%s-%s-%d", kind, mode, i), func(c *Case) {
				Bubble(c, func(n *Net) {
					l := NewLab(c, n, LabTopology(c))
					warm := l.Warm()
					w := l.W
					if mode == "after endorsement" && w.Threshold > len(l.Peers)+1 {
						mode = "in turn"
					}
					e := c.Rng.Intn(2)
					if mode == "no conflict" {
						noConflict(c, l, kind, e, warm)
						return
					}
					a, b := l.MakeInit(kind, e, l.P, 1), l.MakeInit(kind, e, l.P, 2)
					if c.Rng.Intn(2) == 0 && kind == "STH" { // differ in the tree size only
						_, _, root, _, _ := a.ParseSTH()
						b = w.MakeSTHRoot(a.Payload[0], l.P, root, 8)
					}
					if c.Rng.Intn(2) == 0 {
						a, b = b, a
					}
					if c.Rng.Intn(3) == 0 { // forgeries first
						for _, m := range Pick(w.Mutations(a, c.Rng), 4, c.Rng) {
							l.Give(l.Anyone(), m.Obj)
						}
					}
					at := 0.3 + c.Rng.Float64()*3
					l.At(at)
					slow := time.Duration(0)
					if mode == "slow monitor" {
						slow = time.Duration(1+c.Rng.Intn(3000)) * time.Millisecond
						n.Policy = func(from, to, path string, body []byte) Fate {
							if to == l.Mon {
								return Fate{Before: slow}
							}
							return Fate{}
						}
					}
					others := func() {}
					if slow == 0 {
						others = l.Busy(a.Payload[0])
					}
					fragsOK := false
					switch mode {
					case "in turn":
						l.Give(l.Anyone(), a)
						l.At(at + c.Rng.Float64()*4.8)
						l.Give(l.Anyone(), b)
					case "same instant":
						l.Together(l.Peers, []Obj{a, b})
					case "slow monitor":
						var wg sync.WaitGroup
						for _, o := range []Obj{a, b} {
							wg.Add(1)
							go func() { defer wg.Done(); l.Give(l.Peers[0], o) }()
							if c.Rng.Intn(2) == 0 {
								time.Sleep(time.Duration(c.Rng.Intn(2000)) * time.Millisecond)
							}
						}
						wg.Wait()
					case "after own fragment":
						l.Give(l.Anyone(), a)
						l.At(at + 5.5 + c.Rng.Float64()*20)
						l.Give(l.Anyone(), b)
						fragsOK = true
					case "after endorsement":
						l.Give(l.Anyone(), a)
						for _, g := range l.Peers {
							l.Give(g, Compact(w.MakeFrag(g, a)))
						}
						l.At(at + 5.5 + c.Rng.Float64()*20)
						l.Give(l.Anyone(), b)
						fragsOK = true
					case "proof from a peer":
						l.Give(l.Peers[0], MakeCON(a, b, l.P))
					case "many":
						objs := []Obj{a, b}
						for j := 3; j < 3+c.Rng.Intn(4); j++ {
							objs = append(objs, l.MakeInit(kind, e, l.P, j))
						}
						objs = append(objs, a, b)
						c.Rng.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
						l.Together(l.Peers, objs)
					case "compact":
						l.Give(l.Anyone(), a)
						if kind == "REV" {
							// the second one is announced, and fetched by the gossiper
							served := l.Announce(l.Peers[0], b)
							Settle()
							if !*served {
								c.Fail("the gossiper did not fetch a revocation that was announced to it and that it does not have")
							}
						} else {
							l.Give(l.Anyone(), b)
						}
					}
					time.Sleep(slow * 2)
					Settle()
					l.ExpectProof(a.Payload[0], "it signed two statements for the same period: "+mode)
					proofAt := time.Now()
					if !fragsOK {
						// the proof is known before the wait is over: nothing of it is endorsed
						for _, e := range l.Sent("", FragOf(a.Type)) {
							if e.Obj.Signer == l.Self && e.Obj.Payload[0] == a.Payload[0] {
								c.Fail("the gossiper endorsed a statement of an entity it had caught: %v", e)
								break
							}
						}
					}
					// from now on the others' fragments do not help it
					for _, g := range l.Peers {
						l.Give(g, Compact(w.MakeFrag(g, a)))
						l.Give(g, Compact(w.MakeFrag(g, b)))
					}
					l.At(35)
					Settle()
					for _, e := range l.Sent("") {
						if e.At.After(proofAt) && e.Obj.Payload[0] == a.Payload[0] && (IsFrag(e.Obj.Type) || IsFull(e.Obj.Type)) {
							c.Fail("the gossiper endorsed a statement of an entity it had caught: %v", e)
							break
						}
					}
					l.Judge()
					others()
					c.Nontrivial(fmt.Sprintf("%s/%s/%s/n%d/t%d", kind, mode, warm, len(w.G), w.Threshold))
				})
			})
		}
	})
}

// noConflict: repetitions, forgeries and statements for different periods are no conflict.
func noConflict(c *Case, l *Lab, kind string, e int, warm string) {
	w := l.W
	l.At(0.5)
	a := l.MakeInit(kind, e, l.P, 1)
	objs := []Obj{a, a, a, l.MakeInit(kind, 1-e, l.P, 1), l.MakeInit(Kinds[1-c.Rng.Intn(2)], e, l.P, 3)}
	if objs[4].Payload[0] == a.Payload[0] {
		objs = objs[:4]
	}
	for _, d := range []int{1, -1, 2 + c.Rng.Intn(50)} {
		objs = append(objs, l.MakeInit(kind, e, l.P+d, 1), l.MakeInit(kind, e, l.P+d, 1))
	}
	for _, m := range Pick(w.Mutations(a, c.Rng), 5, c.Rng) {
		if w.Valid(m.Obj) != nil {
			objs = append(objs, m.Obj)
		}
	}
	c.Rng.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
	switch c.Rng.Intn(3) {
	case 0:
		l.Together(l.Peers, objs)
	case 1:
		l.Together(l.Peers, objs[:len(objs)/2])
		time.Sleep(time.Duration(c.Rng.Intn(6000)) * time.Millisecond)
		l.Together(l.Peers, objs[len(objs)/2:])
	default:
		for _, o := range objs {
			l.Give(l.Anyone(), o)
			time.Sleep(time.Duration(c.Rng.Intn(900)) * time.Millisecond)
		}
	}
	l.At(30)
	l.Give(l.Anyone(), a)
	Settle()
	if p := l.Sent("", CON_INIT); len(p) > 0 {
		c.Fail("the gossiper made a proof, and nobody said two things: %v", p[0])
	}
	l.ExpectSpread(a, "its entity said nothing else")
	l.ExpectOwnFrag(a, "its entity said nothing else")
	l.Judge()
	c.Nontrivial(fmt.Sprintf("%s/no conflict/%s/n%d/t%d/%d", kind, warm, len(w.G), w.Threshold, len(objs)))
}
