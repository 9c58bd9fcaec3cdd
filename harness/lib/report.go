package lib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// Run is one execution of a check over its cases.
type Run struct {
	T        *testing.T
	Prop     string
	Thorough bool
	Seed     int64
	Out      string // result directory of this worker
	Tmp      string // scratch directory
	shard    int
	shards   int
	only     string
	skip     map[string]bool
	next     int
	mu       sync.Mutex
	Res      Result
	distinct map[string]bool
}

type Violation struct {
	Case   string `json:"case"`
	What   string `json:"what"`
	Detail string `json:"detail,omitempty"`
	Known  string `json:"known,omitempty"`
}

type Result struct {
	Prop        string         `json:"prop"`
	Evaluations int            `json:"evaluations"`
	Distinct    []string       `json:"distinct"`
	Counters    map[string]int `json:"counters"`
	Samples     []string       `json:"samples"`
	Violations  []Violation    `json:"violations"`
	Done        bool           `json:"done"`
}

var progress atomic.Int64

// Progress tells the watchdog that something happened.
func Progress() { progress.Add(1) }

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Start begins a check. The driver passes the parameters in the environment.
func Start(t *testing.T, prop string) *Run {
	r := &Run{T: t, Prop: prop, Thorough: os.Getenv("VERIF_TIER") == "thorough", Out: env("VERIF_OUT", ""), only: os.Getenv("VERIF_CASE"),
		distinct: map[string]bool{}, skip: map[string]bool{}}
	r.Seed, _ = strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	fmt.Sscanf(env("VERIF_SHARD", "0/1"), "%d/%d", &r.shard, &r.shards)
	if r.Out == "" {
		r.Out = t.TempDir()
	}
	r.Tmp = filepath.Join(r.Out, "tmp")
	os.MkdirAll(r.Tmp, 0o755)
	r.Res = Result{Prop: prop, Counters: map[string]int{}}
	if os.Getenv("VERIF_VERBOSE") == "" {
		// the entities print a lot
		os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	}
	go r.watchdog()
	return r
}

// N picks the number of cases for the tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

// Case is one generated case.
type Case struct {
	*Run
	Name   string
	Rng    *rand.Rand
	failed bool
	desc   []string
	nontrv bool
	key    string
	Dir    string
}

// Case runs f if the case belongs to this worker.
func (r *Run) Case(name string, f func(c *Case)) {
	i := r.next
	r.next++
	if r.only != "" {
		if r.only != name {
			return
		}
	} else if i%r.shards != r.shard {
		return
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", r.Seed, r.Prop, name)
	c := &Case{Run: r, Name: name, Rng: rand.New(rand.NewSource(int64(h.Sum64())))}
	naming = []int{0, 1, 2, 3, 0, 1, 2, 0}[h.Sum64()>>40&7]
	c.Dir = filepath.Join(r.Tmp, "case")
	os.RemoveAll(c.Dir)
	os.MkdirAll(c.Dir, 0o755)
	os.WriteFile(filepath.Join(r.Out, "current"), []byte(name), 0o644)
	Progress()
	func() {
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				// a panic that repository code caused on this goroutine is a finding, any other is ours
				if RepoFrame(st) {
					c.Fail("the code panicked: %v\n%s", p, st)
				} else {
					fmt.Fprintf(os.Stderr, "HARNESS PANIC %v\n%s\n", p, st)
					os.Exit(4)
				}
			}
		}()
		f(c)
	}()
	Progress()
	r.mu.Lock()
	r.Res.Evaluations++
	if c.nontrv {
		k := c.key
		if k == "" {
			k = name
		}
		r.distinct[k] = true
	}
	if len(r.Res.Samples) < 4 && c.nontrv {
		r.Res.Samples = append(r.Res.Samples, name+": "+strings.Join(c.desc, "; "))
	}
	r.mu.Unlock()
	os.RemoveAll(c.Dir)
	r.flush(false)
}

var repoFrame = regexp.MustCompile(`(?m)^github\.com/jik18001/CTngV2/`)

// RepoFrame tells whether a stack has a frame of the repository.
func RepoFrame(stack string) bool { return repoFrame.MatchString(stack) }

// Desc adds to the description of the case.
func (c *Case) Desc(f string, a ...any) {
	c.mu.Lock()
	c.desc = append(c.desc, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

// Nontrivial marks the case as one that exercised the property; key tells distinct cases apart.
func (c *Case) Nontrivial(key string) { c.nontrv = true; c.key = key }

// Count adds to a counter of the evidence.
func (c *Case) Count(k string, n int) {
	c.mu.Lock()
	c.Res.Counters[k] += n
	c.mu.Unlock()
}

// Fail records a violation.
func (c *Case) Fail(f string, a ...any) {
	c.mu.Lock()
	c.failed = true
	if len(c.Res.Violations) < 20 {
		c.Res.Violations = append(c.Res.Violations, Violation{Case: c.Name, What: fmt.Sprintf(f, a...), Detail: strings.Join(c.desc, "\n")})
	}
	c.mu.Unlock()
	c.flush(false)
}

// Known records a violation that is on the list of known findings under id.
func (c *Case) Known(id, f string, a ...any) {
	c.mu.Lock()
	c.Res.Violations = append(c.Res.Violations, Violation{Case: c.Name, What: fmt.Sprintf(f, a...), Known: id})
	c.mu.Unlock()
}

func (c *Case) Failed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.failed }

func (r *Run) flush(done bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Res.Done = done
	r.Res.Distinct = r.Res.Distinct[:0]
	for k := range r.distinct {
		r.Res.Distinct = append(r.Res.Distinct, k)
	}
	sort.Strings(r.Res.Distinct)
	b, _ := json.Marshal(r.Res)
	tmp := filepath.Join(r.Out, "result.tmp")
	os.WriteFile(tmp, b, 0o644)
	os.Rename(tmp, filepath.Join(r.Out, "result.json"))
}

// Finish ends the check.
func (r *Run) Finish() {
	os.RemoveAll(r.Tmp)
	r.flush(true)
	fmt.Fprintf(os.Stderr, "%s shard %d/%d: %d cases, %d violations\n", r.Prop, r.shard, r.shards, r.Res.Evaluations, len(r.Res.Violations))
}

var (
	reHead  = regexp.MustCompile(`(?m)^goroutine (\d+) [^\[]*\[([^\]]+)\]:`)
	lockSts = []string{"sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "semacquire"}
)

func stacks() string {
	buf := make([]byte, 16<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// watchdog decides deadlock (everything blocked, something of the repository on a lock) and hang
// (the same goroutine running in repository code in every sample); anything else is left to the driver's time limit.
func (r *Run) watchdog() {
	last, lastChange := progress.Load(), time.Now()
	hangs := map[string]int{}
	for {
		time.Sleep(3 * time.Second)
		if p := progress.Load(); p != last {
			last, lastChange = p, time.Now()
			hangs = map[string]int{}
			continue
		}
		if time.Since(lastChange) < 30*time.Second {
			continue
		}
		active, locked := 0, ""
		running := map[string]string{}
		for _, g := range strings.Split(stacks(), "\n\n") {
			h := reHead.FindStringSubmatch(g)
			if h == nil || strings.Contains(g, "lib.(*Run).watchdog") {
				continue
			}
			st := strings.Split(h[2], ",")[0]
			switch {
			case st == "running" || st == "runnable" || st == "syscall":
				active++
				if RepoFrame(g) {
					running[h[1]] = g
				}
			default:
				for _, l := range lockSts {
					if strings.HasPrefix(st, l) && RepoFrame(g) {
						locked = g
					}
				}
			}
		}
		if active == 0 && locked != "" {
			hangs["deadlock"]++
			if hangs["deadlock"] >= 3 {
				r.stuck("deadlock: nothing can run any more, and the code waits for a lock", locked)
			}
		} else {
			delete(hangs, "deadlock")
		}
		for id := range hangs {
			if _, ok := running[id]; !ok && id != "deadlock" {
				delete(hangs, id)
			}
		}
		for id, g := range running {
			hangs[id]++
			if hangs[id] >= 30 && time.Since(lastChange) > 100*time.Second {
				r.stuck("hang: the code keeps running and nothing happens any more", g)
			}
		}
	}
}

func (r *Run) stuck(what, stack string) {
	name, _ := os.ReadFile(filepath.Join(r.Out, "current"))
	r.mu.Lock()
	r.Res.Violations = append(r.Res.Violations, Violation{Case: string(name), What: what, Detail: stack})
	r.mu.Unlock()
	r.flush(false)
	io.WriteString(os.Stderr, "STUCK "+what+"\n"+stack+"\n")
	os.Exit(5)
}
