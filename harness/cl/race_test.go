package cl

import (
	"crypto/x509"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// TestC23: a client that is used concurrently, watched by the race detector, the crash and the deadlock monitors.
func TestC23(t *testing.T) {
	RunProp(t, "C23", func(r *Run) {
		n := r.N(160, 3000)
		for i := 0; i < n; i++ {
			quiet := i%2 == 0
			r.Case(fmt.Sprintf("use-%d", i), func(c *Case) { use(c, quiet) })
		}
	})
}

// use applies good updates one after another, while certificates are checked, databases saved, and bad updates refused.
// In quiet cases nothing but the client's own locks orders what happens.
func use(c *Case, quiet bool) {
	u, cl, all, p := state(c, 1+c.Rng.Intn(2))
	if c.Failed() {
		return
	}
	steps := 2 + c.Rng.Intn(4)
	ups, bad := []Update{}, []Update{}
	for k := 0; k < steps; k++ {
		up, ts := u.next(p+k, 10+k, 5)
		ups = append(ups, up)
		all = append(all, ts...)
		b, _ := spoil(u, up)
		bad = append(bad, b)
	}
	type probe struct {
		s    CertSpec
		cert []*x509.Certificate // one for each that uses it
		want []bool              // by the number of updates applied
	}
	const readers = 4
	ps := []*probe{}
	for k := 0; k < 10; k++ {
		s, _ := spec(u, all, 1+c.Rng.Intn(4))
		q := &probe{s: s}
		for i := 0; i < readers; i++ {
			q.cert = append(q.cert, s.Cert(u.World))
		}
		ps = append(ps, q)
	}
	// certificates of a tree the update brings, of a logger it may convict, with a number it may revoke: a state in
	// between, with only a part of the update, would justify another verdict
	for k, up := range ups {
		for _, o := range up.STHs {
			t := u.trees[key(o.Payload[0], p+k)]
			if t == nil || len(ps) > 40 {
				continue
			}
			s := t.subjects[c.Rng.Intn(len(t.subjects))]
			ca := u.C[c.Rng.Intn(len(u.C))]
			rid := c.Rng.Intn(40)
			for _, r := range up.REVs {
				if _, d, _, err := r.ParseREV(); err == nil && c.Rng.Intn(2) == 0 {
					if i, ok := d.NextSet(0); ok {
						ca, rid = r.Payload[0], int(i)
					}
				}
			}
			q := &probe{s: CertSpec{Subject: s, Issuer: ca, Key: k, RID: rid, Infos: []Info{t.info(s, ca)}}}
			for i := 0; i < readers; i++ {
				q.cert = append(q.cert, q.s.Cert(u.World))
			}
			ps = append(ps, q)
		}
	}
	turns := 0
	for k := 0; k <= steps; k++ {
		for _, q := range ps {
			q.want = append(q.want, u.verdict(q.s))
			if k > 0 && q.want[k] != q.want[k-1] {
				turns++
			}
		}
		if k < steps {
			u.believe(ups[k])
		}
	}
	var begun, done atomic.Int32 // updates
	var wg sync.WaitGroup
	start := make(chan bool)
	verdicts := make([]int, readers)
	job := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f()
		}()
	}
	orders := make([][]int, readers)
	for i := range orders {
		for j := 0; j < 60+c.Rng.Intn(60); j++ {
			orders[i] = append(orders[i], c.Rng.Intn(len(ps)))
		}
		job(func() {
			for _, x := range orders[i] {
				q := ps[x]
				lo, hi := 0, steps
				if !quiet {
					lo = int(done.Load())
				}
				got := cl.Ctx.VerifyCTngextension(q.cert[i])
				if !quiet {
					hi = int(begun.Load())
				}
				verdicts[i]++
				ok := false
				for k := lo; k <= hi; k++ {
					ok = ok || q.want[k] == got
				}
				if !ok {
					c.Fail("while updates were applied (%d to %d of them), the client said %v to a certificate of %q by %s, number %d, which is justified by none of these states", lo, hi, got, q.s.Subject, q.s.Issuer, q.s.RID)
				}
			}
		})
	}
	job(func() {
		for k := range ups {
			if !quiet {
				begun.Add(1)
			}
			if !cl.Apply(ups[k]) {
				c.Fail("the client refused a good update while it was used")
			}
			if !quiet {
				done.Add(1)
			}
		}
	})
	for j := c.Rng.Intn(2); j >= 0; j-- {
		job(func() {
			for k := range bad {
				if cl.Apply(bad[k]) {
					c.Fail("the client accepted a bad update while it was used")
				}
			}
		})
	}
	job(func() {
		for k := 0; k < 3; k++ {
			cl.Save()
		}
	})
	close(start)
	wg.Wait()
	u.agree(c, cl, all, "after concurrent use")
	v := 0
	for _, x := range verdicts {
		v += x
	}
	c.Count("verdicts", v)
	c.Count("verdicts that an update turns", turns)
	c.Count("updates", len(ups)+len(bad))
	c.Desc("quiet %v, %d updates, %d verdicts, %d turned by an update", quiet, steps, v, turns)
	c.Nontrivial(fmt.Sprintf("%v/%d/%d/%d", quiet, steps, v, turns))
}
