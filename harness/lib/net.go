package lib

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/jik18001/CTngV2/util"
)

// Event is one message of the recorded history.
type Event struct {
	Seq    int
	At     time.Time // when it was sent
	Done   time.Time // when the receiver had handled it
	From   string    // "" for queries, which carry no identity
	To     string
	Path   string
	Method string
	Body   []byte
	Obj    *Obj // the gossip object in it, if any
	Status int
	Answer []byte
	Failed string // why it was not delivered
	hangs  string
}

func (e *Event) String() string {
	s := fmt.Sprintf("#%d %s %s->%s %s %s", e.Seq, e.At.UTC().Format("04:05.000"), e.From, e.To, e.Method, e.Path)
	if e.Obj != nil {
		s += " " + e.Obj.String()
	}
	if e.Failed != "" {
		s += " FAILED " + e.Failed
	} else {
		s += fmt.Sprintf(" -> %d", e.Status)
	}
	return s
}

// Fate is what the network does to one request.
type Fate struct {
	Before time.Duration // until it arrives
	After  time.Duration // until the answer is back
	Drop   bool          // it never arrives: connection refused
	Copies int           // additional deliveries
	Hang   bool          // no answer ever comes, whether it arrives or not
}

// Hangs in the header of an answer keeps all of it ("all") or its second half ("half") back, for ever.
const Hangs = "X-Hangs"

// Net is an in-memory network that carries the requests of all entities and records them.
type Net struct {
	c        *Case
	mu       sync.Mutex
	seq      int
	events   []*Event
	handlers map[string]http.Handler // by port
	Policy   func(from, to, path string, body []byte) Fate
	// OnSend sees every request at the moment it is sent.
	OnSend func(e *Event)
	quiet  atomic.Pointer[map[string]http.Handler]
	closed atomic.Bool
	over   chan bool
	panics int
}

var current atomic.Pointer[Net]

type transport struct{ self string }

// NewNet installs a network for this case. Only one exists at a time.
func NewNet(c *Case) *Net {
	n := &Net{c: c, handlers: map[string]http.Handler{}, over: make(chan bool)}
	current.Store(n)
	util.TransportHook = func(self string) http.RoundTripper { return transport{self} }
	util.ServeHook = func(addr string, h http.Handler) error {
		current.Load().Handle(addr, h)
		runtime.Goexit()
		return nil
	}
	http.DefaultTransport = transport{""}
	http.DefaultClient = &http.Client{Transport: transport{""}}
	return n
}

// Handle registers a server by its address or id: only the port counts.
func (n *Net) Handle(addr string, h http.Handler) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.handlers[port(addr)] = h
}

// Remove takes a server down.
func (n *Net) Remove(addr string) {
	n.mu.Lock()
	defer n.mu.Unlock()
	delete(n.handlers, port(addr))
}

func (n *Net) handler(addr string) http.Handler {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.handlers[port(addr)]
}

// Quiet keeps the network, from now on, from recording anything, because recording orders what would otherwise be
// concurrent, and so hides data races. Servers that start later are not reachable meanwhile.
func (n *Net) Quiet(on bool) {
	if !on {
		n.quiet.Store(nil)
		return
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	m := map[string]http.Handler{}
	for k, h := range n.handlers {
		m[k] = h
	}
	n.quiet.Store(&m)
}

// Close refuses everything from now on.
func (n *Net) Close() {
	if !n.closed.Swap(true) {
		close(n.over)
	}
}

// wait waits, unless the request is given up or the network closed.
func (n *Net) wait(req *http.Request, d time.Duration) error {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-n.over:
		return nil
	case <-req.Context().Done():
		return req.Context().Err()
	}
}

// hang waits for ever.
func (n *Net) hang(req *http.Request) error {
	select {
	case <-n.over:
		return errRefused
	case <-req.Context().Done():
		return req.Context().Err()
	}
}

// half is a body of which the second half does not come.
type half struct {
	io.Reader
	n   *Net
	req *http.Request
}

func (h half) Read(b []byte) (int, error) {
	k, err := h.Reader.Read(b)
	if err == io.EOF {
		return k, h.n.hang(h.req)
	}
	return k, err
}

func (h half) Close() error { return nil }

// Events returns a snapshot of the history.
func (n *Net) Events() []*Event {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Event{}, n.events...)
}

func (n *Net) record(from, to, method, path string, body []byte) *Event {
	e := &Event{At: time.Now(), From: from, To: to, Path: path, Method: method, Body: body}
	if strings.HasPrefix(path, "/gossip/") || strings.HasPrefix(path, "/monitor/receive") || path == "/CA/receive-sth" {
		if !strings.HasPrefix(path, "/gossip/new_payload") {
			var o Obj
			if json.Unmarshal(body, &o) == nil {
				e.Obj = &o
			}
		}
	}
	n.mu.Lock()
	n.seq++
	e.Seq = n.seq
	n.events = append(n.events, e)
	f := n.OnSend
	n.mu.Unlock()
	if f != nil {
		f(e)
	}
	Progress()
	return e
}

var errRefused = fmt.Errorf("dial tcp: connect: connection refused")

func (t transport) RoundTrip(req *http.Request) (*http.Response, error) {
	n := current.Load()
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	if n.closed.Load() {
		return nil, errRefused
	}
	if q := n.quiet.Load(); q != nil {
		h := (*q)[port(req.URL.Host)]
		if h == nil {
			return nil, errRefused
		}
		rec, ok := n.serve(h, t.self, req.Method, req.URL.RequestURI(), req.URL.Host, body)
		if !ok {
			return nil, io.EOF
		}
		resp := rec.Result()
		resp.Request = req
		return resp, nil
	}
	e := n.record(t.self, req.URL.Host, req.Method, req.URL.Path, body)
	var fate Fate
	if n.Policy != nil {
		fate = n.Policy(t.self, req.URL.Host, req.URL.Path, body)
	}
	if fate.Before > 0 {
		if err := n.wait(req, fate.Before); err != nil {
			return nil, err
		}
	}
	h := n.handler(req.URL.Host)
	if fate.Drop || h == nil || n.closed.Load() {
		n.mu.Lock()
		e.Failed = "refused"
		n.mu.Unlock()
		if fate.Hang {
			return nil, n.hang(req)
		}
		return nil, errRefused
	}
	for i := 0; i < fate.Copies; i++ {
		n.serve(h, t.self, req.Method, req.URL.RequestURI(), req.URL.Host, body)
	}
	rec, ok := n.serve(h, t.self, req.Method, req.URL.RequestURI(), req.URL.Host, body)
	n.mu.Lock()
	e.Done = time.Now()
	if !ok {
		e.Failed = "panic"
		n.mu.Unlock()
		return nil, io.EOF
	}
	e.Status = rec.Code
	e.Answer = rec.Body.Bytes()
	e.hangs = rec.Header().Get(Hangs)
	n.mu.Unlock()
	Progress()
	if fate.Hang || e.hangs == "all" {
		return nil, n.hang(req)
	}
	if fate.After > 0 {
		if err := n.wait(req, fate.After); err != nil {
			return nil, err
		}
	}
	resp := rec.Result()
	resp.Request = req
	if e.hangs == "half" {
		b, _ := io.ReadAll(resp.Body)
		resp.Body = half{bytes.NewReader(b[:len(b)/2]), n, req}
	}
	return resp, nil
}

func (n *Net) serve(h http.Handler, from, method, uri, host string, body []byte) (rec *httptest.ResponseRecorder, ok bool) {
	rec = httptest.NewRecorder()
	r := httptest.NewRequest(method, "http://"+host+uri, bytes.NewReader(body))
	r.ContentLength = int64(len(body))
	if strings.HasSuffix(from, Unsized) {
		r.ContentLength = -1
		r.TransferEncoding = []string{"chunked"}
	}
	r.RemoteAddr = "127.0.0.1:40000"
	done := false
	defer func() {
		if done {
			return
		}
		// net/http survives a panicking handler, but the request is lost: always a finding when it is the repository's handler
		p := recover()
		st := string(debug.Stack())
		if !RepoFrame(st) {
			fmt.Fprintf(os.Stderr, "HARNESS PANIC in handler: %v\n%s\n", p, st)
			os.Exit(4)
		}
		n.mu.Lock()
		n.panics++
		n.mu.Unlock()
		n.c.Fail("the handler of %s panicked on %s %s (body %.300q): %v\n%s", host, method, uri, body, p, st)
		ok = false
	}()
	h.ServeHTTP(rec, r)
	done = true
	return rec, true
}

// Unsized marks a sender (of the harness) that sends in chunks, without telling the size in advance.
const Unsized = " (chunked)"

// Post delivers a request made by the harness, at once, and returns status and answer (0 if refused, panicked, or not answered for long).
func (n *Net) Post(from, to, path string, body []byte) (int, []byte) {
	return n.Do(from, to, "POST", path, body)
}

func (n *Net) Do(from, to, method, path string, body []byte) (int, []byte) {
	if q := n.quiet.Load(); q != nil {
		h := (*q)[port(to)]
		if h == nil {
			return 0, nil
		}
		rec, ok := n.serve(h, from, method, path, to, body)
		if !ok {
			return 0, nil
		}
		return rec.Code, rec.Body.Bytes()
	}
	e := n.record(from, to, method, path, body)
	h := n.handler(to)
	if h == nil {
		e.Failed = "refused"
		return 0, nil
	}
	type result struct {
		rec *httptest.ResponseRecorder
		ok  bool
	}
	done := make(chan result, 1)
	go func() {
		rec, ok := n.serve(h, from, method, path, to, body)
		done <- result{rec, ok}
	}()
	limit := time.NewTimer(30 * time.Second)
	defer limit.Stop()
	var rec *httptest.ResponseRecorder
	var ok bool
	select {
	case r := <-done:
		rec, ok = r.rec, r.ok
	case <-limit.C: // it waits for somebody who does not answer
		return 0, nil
	}
	n.mu.Lock()
	e.Done = time.Now()
	defer n.mu.Unlock()
	if !ok {
		e.Failed = "panic"
		return 0, nil
	}
	e.Status = rec.Code
	e.Answer = rec.Body.Bytes()
	Progress()
	return rec.Code, rec.Body.Bytes()
}

// Bubble runs f in virtual time, and lets what is under way end afterwards.
func Bubble(c *Case, f func(n *Net)) {
	synctest.Test(c.T, func(*testing.T) {
		n := NewNet(c)
		defer func() {
			n.Close()
			time.Sleep(30 * time.Second)
			synctest.Wait()
		}()
		f(n)
	})
}

// At sleeps until minute:second of the bubble's first hour (minutes beyond 59 are later hours).
func At(minute int, second float64) {
	t := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(minute)*time.Minute + time.Duration(second*float64(time.Second)))
	if d := time.Until(t); d > 0 {
		time.Sleep(d)
	}
	Progress()
}

// Burst runs all of it in one instant, in parallel, and returns when it is done. Nothing orders the parts.
func Burst(minute int, second float64, fs []func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(minute)*time.Minute + time.Duration(second*float64(time.Second)))
			time.Sleep(time.Until(t))
			f()
		}()
	}
	wg.Wait()
	Progress()
}

// Settle waits until nothing can go on without time passing.
func Settle() { synctest.Wait(); Progress() }

// Jitter is a policy that delays every message by up to max, before arrival and before the answer.
func Jitter(seed int64, max time.Duration) func(from, to, path string, body []byte) Fate {
	var mu sync.Mutex
	rng := rand.New(rand.NewSource(seed))
	return func(from, to, path string, body []byte) Fate {
		mu.Lock()
		defer mu.Unlock()
		return Fate{Before: time.Duration(rng.Int63n(int64(max) + 1)), After: time.Duration(rng.Int63n(int64(max)/4 + 1))}
	}
}

// Stub is a server that answers 200 to everything.
var Stub http.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {})

// Silent is a server that takes everything and never answers.
var Silent http.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Header().Set(Hangs, "all") })
