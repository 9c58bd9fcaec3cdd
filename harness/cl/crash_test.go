package cl

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/jik18001/CTngV2/client"
	"github.com/jik18001/CTngV2/monitor"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// job tells the saver, a process of its own, what to do.
type job struct {
	Client  string // configuration of the client
	Crypto  string
	First   bool // the client has no databases yet
	Updates []Update
	Order   []int    // of the databases
	Monitor []string // configurations of the monitor, if it is one
	Storage string
	Periods []string
	Limit   uint64 // no file can grow beyond
	Full    bool   // writing beyond fails instead of killing
	Loop    bool   // save again and again
	Twice   bool   // saved by two at once
}

// TestSaver is the process that is killed.
func TestSaver(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_SAVER"))
	if err != nil {
		t.Skip("only for the crash cases")
	}
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	var j job
	if json.Unmarshal(b, &j) != nil {
		os.Exit(9)
	}
	limit := func() {
		if j.Full {
			signal.Ignore(syscall.SIGXFSZ)
		} else { // the kernel kills, the runtime has no say
			var act [4]uintptr
			syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
			syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(syscall.SIGXFSZ), uintptr(unsafe.Pointer(&act)), 0, 8, 0, 0)
		}
		if j.Limit > 0 {
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: j.Limit, Max: 1<<63 - 1})
		}
	}
	if j.Monitor != nil {
		ctx := monitor.InitializeMonitorContext(j.Monitor[0], j.Monitor[1], j.Monitor[2], "1")
		ctx.InitializeMonitorStorage(j.Storage)
		limit()
		for round := 0; ; round++ {
			for i, u := range j.Updates {
				ctx.SaveStorage(j.Periods[i], theirs(u))
			}
			if !j.Loop {
				break
			}
			fmt.Fprintln(os.Stderr, "saved")
		}
		os.Exit(7)
	}
	start := func() *client.ClientContext {
		c := &client.ClientContext{Config: &client.ClientConfig{}, Config_filepath: j.Client, Crypto_filepath: j.Crypto, Status: "RESTART"}
		if j.First {
			c.Status = "NEW"
		}
		c.InitializeClientContext()
		return c
	}
	old, now := start(), start()
	for _, u := range j.Updates {
		if !now.HandleUpdate(theirs(u), true, false) {
			os.Exit(8)
		}
	}
	save := func(c *client.ClientContext) {
		for _, i := range j.Order {
			[]func(*client.ClientContext){client.SaveSTHDatabase, client.SaveCRVDatabase, client.SavePomDatabase}[i](c)
		}
	}
	limit()
	for round := 0; ; round++ {
		var wg sync.WaitGroup
		for k := 0; j.Twice && k < 2; k++ {
			wg.Add(1)
			go func() { defer wg.Done(); save(now) }()
		}
		wg.Wait()
		save(now)
		if !j.Loop {
			break
		}
		fmt.Fprintln(os.Stderr, "saved")
		save(old)
	}
	os.Exit(7)
}

func theirs(u Update) (out monitor.ClientUpdate) {
	b, _ := json.Marshal(u)
	if json.Unmarshal(b, &out) != nil {
		os.Exit(9)
	}
	return
}

// run has the job done in a process of its own, and tells whether it got to its end. With a loop it is killed at some instant.
func (j job) run(c *Case, files []string) bool {
	spec := filepath.Join(c.Dir, "job.json")
	WriteJSON(spec, j)
	cmd := exec.Command(os.Args[0], "-test.run=^TestSaver$")
	cmd.Env = append(os.Environ(), "VERIF_SAVER="+spec)
	if !j.Loop {
		cmd.Run()
	} else {
		pipe, err := cmd.StderrPipe()
		if err == nil {
			err = cmd.Start()
		}
		if err != nil {
			panic(err)
		}
		rounds := 1 + c.Rng.Intn(4)
		for b, seen := make([]byte, 1), 0; seen < rounds; {
			if n, err := pipe.Read(b); n == 0 && err != nil {
				break
			} else if b[0] == '\n' {
				seen++
			}
		}
		end := time.Now().Add(time.Duration(c.Rng.Intn(8000)) * time.Microsecond)
		for time.Now().Before(end) { // who looks meanwhile never sees a part
			for _, f := range files {
				if b, err := os.ReadFile(f); err == nil {
					c.Count("files looked at while they were being saved", 1)
					if !json.Valid(b) {
						c.Fail("while it was being saved %s held %d bytes that are no database", filepath.Base(f), len(b))
					}
				}
			}
		}
		cmd.Process.Kill()
		cmd.Wait()
	}
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && !j.Loop {
		c.Count("killed by the limit", 1)
	}
	switch code := cmd.ProcessState.ExitCode(); code {
	case 7:
		return true
	case 8:
		c.Fail("the client refused a good update")
	case 9:
		panic("the saver could not read its job")
	}
	return false
}

func TestC31(t *testing.T) {
	RunProp(t, "C31", func(r *Run) {
		for i, n := 0, r.N(480, 6000); i < n; i++ {
			r.Case(fmt.Sprintf("client-%d", i), crashClient)
		}
		for i, n := 0, r.N(240, 3000); i < n; i++ {
			r.Case(fmt.Sprintf("monitor-%d", i), crashMonitor)
		}
	})
}

// point draws where the saving is interrupted.
func (j *job) point(c *Case, sizes []int) string {
	if c.Rng.Intn(4) == 0 {
		j.Loop = true
		c.Count("killed at some instant", 1)
		return "at some instant"
	}
	s := sizes[c.Rng.Intn(len(sizes))]
	k := 1
	switch c.Rng.Intn(5) {
	case 0:
	case 1:
		k = s - 1
	case 2:
		k = s
	default:
		k = 1 + c.Rng.Intn(s+1)
	}
	j.Limit = uint64(max(1, k))
	if j.Full = c.Rng.Intn(3) == 0; j.Full {
		c.Count("no room from some byte on", 1)
		return fmt.Sprintf("no room after %d bytes of %v", j.Limit, sizes)
	}
	c.Count("killed at some byte", 1)
	return fmt.Sprintf("killed after %d bytes of %v", j.Limit, sizes)
}

func parts(cl *Client) []string {
	var l []json.RawMessage
	if json.Unmarshal([]byte(cl.Snapshot()), &l) != nil {
		panic("snapshot")
	}
	out := []string{}
	for _, x := range l {
		out = append(out, string(x))
	}
	return out
}

var dbs = []string{"sth.json", "crv.json", "pom.json"}

func crashClient(c *Case) {
	u := newUniverse(c, 2+c.Rng.Intn(3), 1+c.Rng.Intn(3))
	dir := filepath.Join(c.Dir, "client")
	cl := NewClient(u.World, dir, false)
	p := c.Rng.Intn(60)
	all := []*tree{}
	step := 0
	next := func() Update {
		up, ts := u.next(p, step, 9)
		p++
		step++
		all = append(all, ts...)
		return up
	}
	saved := c.Rng.Intn(4)
	for k := 0; k < saved; k++ {
		if up := next(); !cl.Apply(up) {
			c.Fail("the client refused a good update")
			return
		}
	}
	first := saved == 0
	if !first {
		cl.Save()
	}
	before := parts(cl)
	j := job{Client: cl.Ctx.Config_filepath, Crypto: cl.Ctx.Crypto_filepath, First: first, Order: c.Rng.Perm(3), Twice: c.Rng.Intn(4) == 0}
	for k := 1 + c.Rng.Intn(3); k > 0; k-- {
		up := next()
		j.Updates = append(j.Updates, up)
		if !cl.Apply(up) {
			c.Fail("the client refused a good update")
			return
		}
	}
	after := parts(cl)
	// how big it gets
	ref := NewClient(u.World, filepath.Join(c.Dir, "ref"), false)
	ref.Ctx.STH_database, ref.Ctx.CRV_database, ref.Ctx.POM_database = cl.Ctx.STH_database, cl.Ctx.CRV_database, cl.Ctx.POM_database
	ref.Save()
	files, sizes := []string{}, []int{}
	for _, f := range dbs {
		b, _ := os.ReadFile(filepath.Join(c.Dir, "ref", f))
		sizes = append(sizes, len(b))
		files = append(files, filepath.Join(dir, f))
	}
	where := j.point(c, sizes)
	done := j.run(c, files)
	if c.Failed() {
		return
	}
	shape := ""
	again := func(what string) *Client {
		for _, f := range files { // a client that finds a part of a file may end its process
			if b, err := os.ReadFile(f); err == nil && !json.Valid(b) {
				c.Fail("%s, %s: what was left of %s is %d bytes that cannot be read", where, what, filepath.Base(f), len(b))
				return nil
			}
		}
		return NewClient(u.World, dir, true)
	}
	cl = again("saving interrupted")
	if cl == nil {
		return
	}
	for i, x := range parts(cl) {
		switch x {
		case after[i]:
			shape += "n"
		case before[i]:
			shape += "o"
		default:
			c.Fail("%s (saved %v): a client started after that holds in %s\n%.400s\nbefore it was\n%.400s\nto be saved was\n%.400s", where, j.Order, dbs[i], x, before[i], after[i])
			return
		}
		if done && !j.Full && !j.Loop && x != after[i] {
			c.Fail("%s: the saving came to its end, but %s holds what it held before", where, dbs[i])
			return
		}
	}
	if shape != "nnn" {
		c.Count("savings that were interrupted before the end", 1)
	}
	// it goes on: hears again what it has forgotten, or, as revocations that were followed by others cannot be applied again, what comes next
	hears := j.Updates
	if shape[1] == 'n' && len(hears) > 1 {
		hears = []Update{next()}
		after = nil
	}
	for _, up := range hears {
		if !cl.Apply(up) {
			c.Fail("%s: a client started after that (state %s) refused a good update", where, shape)
			return
		}
	}
	if now := parts(cl); after != nil {
		for i, x := range now {
			if x != after[i] {
				c.Fail("%s: after hearing again what it had forgotten (state %s) the client holds in %s\n%.400s\nit should be\n%.400s", where, shape, dbs[i], x, after[i])
				return
			}
		}
	} else {
		after = now
	}
	cl.Save()
	if cl = again("saved again"); cl == nil {
		return
	}
	for i, x := range parts(cl) {
		if x != after[i] {
			c.Fail("%s: after going on, saving and starting again the client holds in %s\n%.400s\nit should be\n%.400s", where, dbs[i], x, after[i])
			return
		}
	}
	c.Count("restarts after an interruption", 1)
	c.Desc("%s: left %s", where, shape)
	c.Count("left: "+shape, 1)
	c.Nontrivial(fmt.Sprintf("client/%v/%s/%v/%v/%s", first, where, j.Order, j.Twice, shape))
}

func crashMonitor(c *Case) {
	u := newUniverse(c, 2+c.Rng.Intn(3), 1+c.Rng.Intn(3))
	pub, priv, cr := u.Cfg("M", 0)
	storage := filepath.Join(c.Dir, "monitor")
	ctx := monitor.InitializeMonitorContext(pub, priv, cr, "1")
	ctx.InitializeMonitorStorage(storage)
	p := c.Rng.Intn(60)
	had := map[string]Update{}
	sizes := []int{}
	for k, n := 0, c.Rng.Intn(4); k < n; k++ {
		up, _ := u.next(p+k, k, 5)
		had[fmt.Sprint((p+k)%60)] = up
		ctx.SaveStorage(fmt.Sprint((p+k)%60), theirs(up))
	}
	j := job{Monitor: []string{pub, priv, cr}, Storage: storage}
	start := p
	if c.Rng.Intn(2) == 0 { // the labels come again
		start = p + len(had)
	}
	want := map[string]Update{}
	for k, n := 0, 1+c.Rng.Intn(2); k < n; k++ {
		up, _ := u.next(start+60+k, 10+k, 5)
		label := fmt.Sprint((start + k) % 60)
		j.Updates, j.Periods = append(j.Updates, up), append(j.Periods, label)
		want[label] = up
		b, _ := json.MarshalIndent(up, "", "  ")
		sizes = append(sizes, len(b))
	}
	where := j.point(c, sizes)
	done := j.run(c, nil)
	if c.Failed() {
		return
	}
	shape := ""
	look := func(n *Net, final bool) {
		shape = ""
		for k := 0; k < 60; k++ {
			label := fmt.Sprint(k)
			old, a := had[label]
			now, b := want[label]
			got, st := FetchUpdate(n, "localhost:5000", u.M[0], k)
			switch {
			case st == 200 && got != nil && b && same(*got, now):
				shape += "n"
			case final && b:
				c.Fail("%s: after saving again the update of period %d is answered with %d, %+v", where, k, st, got)
			case st == 200 && got != nil && a && same(*got, old):
				if b {
					shape += "o"
				}
			case st >= 400 && !a:
				if b {
					shape += "-"
				}
			default:
				c.Fail("%s: a monitor started after that answers for period %d with %d, %+v; saved before: %v, to be saved: %v", where, k, st, got, a, b)
				return
			}
		}
		if done && !j.Full && !j.Loop && bytes.ContainsAny([]byte(shape), "o-") {
			c.Fail("%s: the saving came to its end, but the monitor answers with older updates: %s", where, shape)
		}
	}
	Bubble(c, func(n *Net) {
		n.Handle(u.G[0], Stub)
		ctx := monitor.InitializeMonitorContext(pub, priv, cr, "1")
		ctx.InitializeMonitorStorage(storage)
		ctx.Max_latency = 0
		At(0, 1)
		go monitor.StartMonitorServer(ctx)
		At(1, 5)
		look(n, false)
		if c.Failed() {
			return
		}
		left := shape
		for i, up := range j.Updates {
			ctx.SaveStorage(j.Periods[i], theirs(up))
		}
		look(n, true)
		shape = left
	})
	c.Count("restarts after an interruption", 1)
	c.Desc("%s: left %s", where, shape)
	c.Count("left at the monitor: "+shape, 1)
	c.Nontrivial(fmt.Sprintf("monitor/%d/%s/%s", len(had), where, shape))
}

func same(a, b Update) bool {
	x, _ := json.Marshal(norm(a))
	y, _ := json.Marshal(norm(b))
	return bytes.Equal(x, y)
}

func norm(u Update) Update {
	for _, l := range []*[]Obj{&u.STHs, &u.REVs, &u.POM_CONs, &u.POM_ACCs} {
		if *l == nil {
			*l = []Obj{}
		}
	}
	return u
}
