// Package fetch watches what a client fetches over real connections from servers that may fail.
package fetch

import (
	"bytes"
	"compress/gzip"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/jik18001/CTngV2/client"

	. "ctngverif/kit"
	. "ctngverif/lib"
)

// answer is what the server delivers for one path.
type answer struct {
	how    string
	status int
	body   []byte // all that belongs to the answer
	cut    int    // bytes of the body delivered, if it is cut off
	gz     bool
	to     string // where it redirects
	slow   time.Duration
}

// site is a server that delivers scripted answers and counts the connections it has open.
type site struct {
	*httptest.Server
	mu   sync.Mutex
	ans  map[string]answer
	open map[net.Conn]bool
}

func newSite(cert *tls.Certificate) *site {
	s := &site{ans: map[string]answer{}, open: map[net.Conn]bool{}}
	s.Server = httptest.NewUnstartedServer(http.HandlerFunc(s.serve))
	s.Config.ErrorLog = log.New(io.Discard, "", 0)
	s.Config.ConnState = func(n net.Conn, st http.ConnState) {
		s.mu.Lock()
		defer s.mu.Unlock()
		if st == http.StateClosed || st == http.StateHijacked {
			delete(s.open, n)
		} else {
			s.open[n] = true
		}
	}
	if cert != nil {
		s.TLS = &tls.Config{Certificates: []tls.Certificate{*cert}}
		s.StartTLS()
	} else {
		s.Start()
	}
	return s
}

// stop ends the server without waiting for connections a client keeps.
func (s *site) stop() {
	s.CloseClientConnections()
	s.Listener.Close()
	s.Config.Close()
}

func (s *site) conns() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.open) }

func (s *site) set(path string, a answer) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.ans[path] = a
	return s.URL + path
}

func (s *site) serve(w http.ResponseWriter, r *http.Request) {
	Progress()
	s.mu.Lock()
	a, ok := s.ans[r.URL.Path]
	s.mu.Unlock()
	if !ok {
		http.NotFound(w, r)
		return
	}
	time.Sleep(a.slow)
	drop := func() {
		if h, ok := w.(http.Hijacker); ok {
			if c, _, err := h.Hijack(); err == nil {
				c.Close()
			}
		}
	}
	switch a.how {
	case "closed":
		drop()
	case "redirect":
		http.Redirect(w, r, a.to, []int{301, 302, 303, 307, 308}[len(a.to)%5])
	case "cut off":
		w.Header().Set("Content-Length", strconv.Itoa(len(a.body)))
		w.WriteHeader(a.status)
		w.Write(a.body[:a.cut])
		w.(http.Flusher).Flush()
		drop()
	case "cut off in chunks":
		w.WriteHeader(a.status)
		w.Write(a.body[:a.cut])
		w.(http.Flusher).Flush()
		panic(http.ErrAbortHandler)
	case "in chunks":
		w.WriteHeader(a.status)
		for b := a.body; len(b) > 0; {
			k := min(len(b), 1+len(a.body)/5)
			w.Write(b[:k])
			w.(http.Flusher).Flush()
			b = b[k:]
		}
	default:
		body := a.body
		if a.gz && strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
			var z bytes.Buffer
			g := gzip.NewWriter(&z)
			g.Write(body)
			g.Close()
			body = z.Bytes()
			w.Header().Set("Content-Encoding", "gzip")
		}
		w.WriteHeader(a.status)
		w.Write(body)
	}
}

// lab is the servers of one case.
type lab struct {
	c     *Case
	w     *World
	sites []*site
	n     int
}

func (l *lab) objects(k int) []Obj {
	r := l.c.Rng
	out := []Obj{}
	for ; k > 0; k-- {
		p := r.Intn(60)
		switch r.Intn(5) {
		case 0:
			out = append(out, l.w.MakeSTH(l.w.L[0], p, fmt.Sprint("tree ", r.Int())))
		case 1:
			out = append(out, l.w.MakeFull(l.w.G, l.w.SimpleREV(l.w.C[0], p, uint(r.Intn(2000)))))
		case 2:
			out = append(out, l.w.MakeFull(l.w.G, l.w.MakeSTH(l.w.L[0], p, fmt.Sprint("tree ", r.Int()))))
		case 3:
			out = append(out, MakeCON(l.w.MakeSTH(l.w.L[0], p, "one"), l.w.MakeSTH(l.w.L[0], p, "two"), p))
		default:
			o := l.w.MakeACC(l.w.M[0], l.w.C[0], p)
			o.Payload[1] = []string{"", "ünï ☃ </script>\u2028", strings.Repeat("long ", 2000*r.Intn(4))}[r.Intn(3)]
			out = append(out, o)
		}
	}
	return out
}

// a fetch is one thing to be fetched, and what it has to yield.
type fetch struct {
	url    string
	update bool
	must   bool   // it was delivered, there must be no error
	want   string // what it says, if delivered
	what   string
}

// norm says what a value says, however it is written.
func norm(update bool, b []byte) (string, error) {
	if update {
		u := Update{}
		err := json.Unmarshal(b, &u)
		for _, s := range []*[]Obj{&u.STHs, &u.REVs, &u.POM_CONs, &u.POM_ACCs} {
			*s = append([]Obj{}, *s...)
		}
		x, _ := json.Marshal(u)
		return string(x), err
	}
	os := []Obj{}
	err := json.Unmarshal(b, &os)
	x, _ := json.Marshal(append([]Obj{}, os...))
	return string(x), err
}

func (l *lab) draw() fetch {
	r := l.c.Rng
	l.n++
	f := fetch{update: r.Intn(3) > 0}
	var body []byte
	size := []int{0, 1, 3, 30}[r.Intn(4)]
	if f.update {
		u := Update{MonitorID: l.w.M[0], Period: P2(r.Intn(60)), STHs: l.objects(r.Intn(size + 1)), REVs: l.objects(r.Intn(size + 1)), POM_ACCs: l.objects(r.Intn(3)), POM_CONs: l.objects(r.Intn(3))}
		body, _ = json.Marshal(u)
	} else {
		body, _ = json.Marshal(l.objects(size))
	}
	if r.Intn(4) == 0 {
		var x bytes.Buffer
		json.Indent(&x, body, "", "  ")
		body = x.Bytes()
	}
	f.want, _ = norm(f.update, body)
	s := l.sites[r.Intn(len(l.sites))]
	a := answer{status: 200, body: body, how: "delivered"}
	if r.Intn(4) == 0 {
		a.slow = time.Duration(r.Intn(20)) * time.Millisecond
	}
	path := fmt.Sprintf("/x/%d", l.n)
	switch r.Intn(16) {
	case 0:
		a.how, f.must = "in chunks", true
	case 1:
		a.gz, a.how, f.must = true, "compressed", true
	case 2:
		o := l.sites[r.Intn(len(l.sites))]
		to := o.set(path+"/there", a)
		a.how, a.to, f.must = "redirect", to, true
	case 3, 4:
		a.status = []int{206, 300, 304, 400, 401, 403, 404, 418, 429, 500, 502, 503}[r.Intn(12)]
		if a.status == 304 {
			a.body = nil
		}
		a.how = "delivered with a bad status"
	case 5, 6:
		a.how = []string{"cut off", "cut off in chunks"}[r.Intn(2)]
		if r.Intn(2) == 0 { // what arrives looks complete
			a.cut = len(body)
			a.body = append(append([]byte{}, body...), []byte(strings.Repeat(" ", 1+r.Intn(50)))...)
		} else {
			a.cut = r.Intn(len(body))
		}
	case 7:
		a.how = "closed"
	case 8:
		a.body = body[:r.Intn(len(body))]
		a.how = "ends early"
	case 9:
		a.how = "something else"
		a.body = [][]byte{[]byte("404 page not found\n"), []byte("<html>"), []byte(`"text"`), []byte("12"), []byte("true"), append(append([]byte{}, body...), '}'), append(append([]byte{}, body...), body...), {0xff, 0xfe}}[r.Intn(8)]
	case 10:
		a.how = "wrong kind"
		if a.body = []byte(`{"STHs":7}`); f.update {
			a.body = [][]byte{[]byte(`[]`), []byte(`{"STHs":{"a":1}}`), []byte(`{"Period":5}`), []byte(`{"POM_CONs":[3]}`)}[r.Intn(4)]
		}
	case 11:
		l, _ := net.Listen("tcp", "127.0.0.1:0")
		f.url = "http://" + l.Addr().String() + path
		l.Close()
		a.how = "nobody there"
	default:
		f.must = true
	}
	f.what = a.how
	if f.url == "" {
		f.url = s.set(path, a)
	}
	return f
}

// do fetches and judges.
func (l *lab) do(f fetch, when string) {
	var got string
	var err error
	if f.update {
		x, e := client.FetchClientUpdate(f.url)
		b, _ := json.Marshal(x)
		got, _ = norm(true, b)
		err = e
	} else {
		x, e := client.FetchGossip(f.url)
		b, _ := json.Marshal(x)
		got, _ = norm(false, b)
		err = e
	}
	c := l.c
	switch {
	case f.must && err != nil:
		c.Fail("%s an answer (%s) was taken for a failure: %v", when, f.what, err)
	case f.must && got != f.want:
		c.Fail("%s fetching yields other than what was delivered (%s):\n%.300s\ndelivered was\n%.300s", when, f.what, got, f.want)
	case !f.must && err == nil:
		c.Fail("%s a failure (%s) was taken for the answer %.300s", when, f.what, got)
	}
	if f.must {
		c.Count("answers", 1)
	} else {
		c.Count("failures", 1)
	}
}

func objects(c *Case) {
	w := NewWorld(c.Dir, Topology{N: 2, Threshold: 2, Loggers: 1, CAs: 1})
	l := &lab{c: c, w: w}
	for k := 1 + c.Rng.Intn(3); k > 0; k-- {
		s := newSite(nil)
		defer s.stop()
		l.sites = append(l.sites, s)
	}
	kinds := map[string]bool{}
	for k := 0; k < 8 && !c.Failed(); k++ {
		f := l.draw()
		kinds[f.what] = true
		l.do(f, "alone,")
		if c.Rng.Intn(3) == 0 { // other content at the same place
			g := l.draw()
			if strings.HasPrefix(f.url, l.sites[0].URL) && strings.HasPrefix(g.url, l.sites[0].URL) {
				p, q := strings.TrimPrefix(f.url, l.sites[0].URL), strings.TrimPrefix(g.url, l.sites[0].URL)
				l.sites[0].mu.Lock()
				l.sites[0].ans[p] = l.sites[0].ans[q]
				l.sites[0].mu.Unlock()
				g.url = f.url
			}
			l.do(g, "after another answer from there,")
		}
	}
	many := 4 + c.Rng.Intn(30)
	var wg sync.WaitGroup
	start := make(chan bool)
	fs := []fetch{}
	for k := 0; k < many; k++ {
		f := l.draw()
		kinds[f.what] = true
		fs = append(fs, f)
	}
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			l.do(f, fmt.Sprintf("among %d at the same time,", many))
		}()
	}
	close(start)
	wg.Wait()
	for k := 0; k < 20; k++ {
		l.do(l.draw(), "one after another,")
	}
	l.rest(many)
	c.Nontrivial(fmt.Sprint(len(l.sites), many, Keys(kinds)))
}

// rest waits until no more connections are open than a client may keep for the next time.
func (l *lab) rest(many int) {
	for _, s := range l.sites {
		limit := time.Now().Add(10 * time.Second)
		for s.conns() > many+4 && time.Now().Before(limit) {
			Progress()
			time.Sleep(20 * time.Millisecond)
		}
		if n := s.conns(); n > many+4 {
			l.c.Fail("after all fetches, at most %d at a time, %d connections to one server stay open", many, n)
			return
		}
	}
	l.c.Count("servers at rest", len(l.sites))
}

func certificates(c *Case) {
	w := NewWorld(c.Dir, Topology{N: 2, Threshold: 2, Loggers: 1, CAs: 2})
	l := &lab{c: c, w: w}
	ders := [][]byte{}
	for k := 1 + c.Rng.Intn(4); k > 0; k-- {
		key := c.Rng.Intn(30)
		spec := CertSpec{Subject: fmt.Sprintf("Testing Dummy %d", len(ders)), Issuer: w.C[c.Rng.Intn(2)], Key: key, RID: c.Rng.Intn(50), Serial: c.Rng.Int63(), Names: []int{0, 1, 500}[c.Rng.Intn(3)], NoExt: c.Rng.Intn(4) == 0}
		chain := [][]byte{spec.DER(w)}
		for j := c.Rng.Intn(3); j > 0; j-- { // others after it
			chain = append(chain, CertSpec{Subject: spec.Issuer, Issuer: spec.Issuer, Key: 7, CA: true, Serial: int64(j)}.DER(w))
		}
		s := newSite(&tls.Certificate{Certificate: chain, PrivateKey: RSAKey(key)})
		defer s.stop()
		s.set("/", answer{status: []int{200, 200, 404, 500}[c.Rng.Intn(4)], how: []string{"delivered", "in chunks"}[c.Rng.Intn(2)], body: bytes.Repeat([]byte("page "), []int{0, 10, 300000}[c.Rng.Intn(3)])})
		s.set("/cut", answer{status: 200, how: "cut off in chunks", body: []byte("page page"), cut: 3})
		s.set("/closed", answer{how: "closed"})
		l.sites = append(l.sites, s)
		ders = append(ders, chain[0])
	}
	plain := newSite(nil)
	defer plain.stop()
	dead, _ := net.Listen("tcp", "127.0.0.1:0")
	dead.Close()
	get := func(i, mode int, when string) {
		switch mode {
		default:
			x, err := client.FetchCertificate(l.sites[i].URL + "/")
			if err != nil || !bytes.Equal(x.Raw, ders[i]) {
				c.Fail("%s the certificate of a site was fetched as one of %q (%d bytes, the site's has %d), error %v", when, x.Subject.CommonName, len(x.Raw), len(ders[i]), err)
			} else if y, _ := x509.ParseCertificate(ders[i]); !y.Equal(&x) {
				c.Fail("%s the certificate of a site was fetched altered", when)
			}
			c.Count("certificates", 1)
		case 1, 2: // the page is not delivered, the certificate may be
			x, err := client.FetchCertificate(l.sites[i].URL + []string{"", "/cut", "/closed"}[mode])
			if err == nil && !bytes.Equal(x.Raw, ders[i]) {
				c.Fail("%s from a site that breaks off the certificate of %q was fetched", when, x.Subject.CommonName)
			}
			c.Count("failures", 1)
		case 3: // no certificate there
			url := []string{strings.Replace(plain.URL, "http:", "https:", 1), "https://" + dead.Addr().String(), "https://localhost:0", "://"}[l.c.Rng.Intn(4)]
			if x, err := client.FetchCertificate(url); err == nil {
				c.Fail("%s where there is no certificate one of %q (%d bytes) was fetched", when, x.Subject.CommonName, len(x.Raw))
			}
			c.Count("failures", 1)
		}
	}
	mode := func() int {
		if c.Rng.Intn(3) > 0 {
			return 0
		}
		return c.Rng.Intn(4)
	}
	for k := 0; k < 4; k++ {
		get(c.Rng.Intn(len(ders)), mode(), "alone,")
	}
	many := 4 + c.Rng.Intn(8)
	var wg sync.WaitGroup
	start := make(chan bool)
	for k := 0; k < many; k++ {
		i, m := c.Rng.Intn(len(ders)), mode()%3
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			get(i, m, fmt.Sprintf("among %d at the same time,", many))
		}()
	}
	close(start)
	wg.Wait()
	for k := 0; k < 10+8*len(ders); k++ {
		get(k%len(ders), 0, "one after another,")
	}
	l.rest(many)
	c.Nontrivial(fmt.Sprint("certificates ", len(ders), many))
}

// TestC30: fetching yields what was delivered, or an error.
func TestC30(t *testing.T) {
	RunProp(t, "C30", func(r *Run) {
		n := r.N(160, 1600)
		for i := 0; i < n; i++ {
			if i/8%3 == 2 {
				r.Case(fmt.Sprintf("certificates-%d", i), certificates)
			} else {
				r.Case(fmt.Sprintf("objects-%d", i), objects)
			}
		}
	})
}
