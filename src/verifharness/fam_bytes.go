package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/healthserver"
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"verifsim/sim"
)

func init() {
	families["bytes"] = func() family { return &bytesFam{} }
	props["C15"] = propInfo{"bytes", 200000}
}

// bytesFam serves a state that does not change to many clients.
type bytesFam struct {
	urls  []string
	ref   map[string]*Req
	reqs  []*Req
	r     *sim.Rand
	keep  []any
	last  []string
	names map[string]string // path by escaped path
}

// encodings a client may send, and whether they allow and ask for gzip
type encoding struct {
	hdr       string
	allow, on bool
}

var encodings = []encoding{
	{"", false, false},
	{"gzip", true, true},
	{"gzip, deflate", true, true},
	{"deflate, gzip", true, true},
	{"gzip, deflate, br", true, true},
	{"deflate;q=0.5, gzip;q=1.0", true, true},
	{"gzip;q=0.001", true, true},
	{"gzip ; q=0.5", true, true},
	{"br;q=1.0, gzip;q=0.8, *;q=0.1", true, true},
	{"*", true, false},
	{"identity", false, false},
	{"deflate", false, false},
	{"deflate, br", false, false},
	{"gzip;q=0", false, false},
	{"gzip;q=0.0", false, false},
	{"gzip; q=0", false, false},
	{"deflate, gzip;q=0.000, identity", false, false},
	{"identity;q=1, *;q=0", false, false},
	{"*;q=0", false, false},
	{"br", false, false},
	{"gzipped", false, false},
	{"gzip;q=0, *", false, false},
}

func encOf(h string) encoding {
	for _, e := range encodings {
		if e.hdr == h {
			return e
		}
	}
	return encoding{h, strings.Contains(h, "gzip"), strings.Contains(h, "gzip")}
}

func (f *bytesFam) gen(p *Plan, r *sim.Rand) {
	k := p.Knobs
	k["init"] = r.Intn(1 << 20)
	k["n"] = 1 + r.Intn(10)
	k["big"] = r.Intn(4)
	if k["big"] == 3 {
		p.MaxSteps *= 8
	}
	if r.P(1, 40) {
		k["n"] = pick(r, 25, 60, 120)
		p.MaxSteps *= 3
	}
	mix := faultMix{maxOff: pick(r, 100, 1000, 4000), stallNs: 3 * ms, long: 200, chunk: 300}
	if r.P(2, 3) {
		mix.cut, mix.stall = 200, 200
	}
	nt := 2 + r.Intn(5)
	hot := r.Intn(64)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, 1+r.Intn(5); i < n; i++ {
			op := Op{K: "req", A: r.Intn(64)}
			if r.P(1, 2) {
				op.A = hot
			}
			mix.apply(r, &op)
			op.Enc = ""
			if r.P(2, 3) {
				op.Enc = encodings[r.Intn(len(encodings))].hdr
				if r.P(1, 2) {
					op.Enc = "gzip"
				}
			}
			op.V10 = r.P(1, 6)
			if r.P(1, 6) {
				op.Nap = 1 + int64(r.U64()%uint64(pick(r, ms, 10*sec, 3*hour)))
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

func (f *bytesFam) setup(c *Ctx) {
	k := c.P.Knobs
	f.r = sim.NewRand(uint64(k["init"]))
	r := f.r
	f.ref = map[string]*Req{}
	f.names = map[string]string{}
	tricorder.UnregisterPath("/proc")
	g := tricorder.NewGroup()
	ts := time.Unix(1400000000, 123456789)
	g.RegisterUpdateFunc(func() time.Time { sim.SY(0); return ts })
	dirs := []string{"/b", "/b/sub", "/c", ""}
	var paths []string
	for i := 0; i < k["n"]; i++ {
		path := fmt.Sprintf("%s/m%d", dirs[r.Intn(len(dirs))], i)
		var err error
		desc := fmt.Sprintf("metric %d %s", i, strings.Repeat("<&\"x", r.Intn(4)))
		switch r.Intn(5) {
		case 0:
			kind := listKinds[r.Intn(len(listKinds))]
			s := reflect.MakeSlice(reflect.SliceOf(goType(kind)), 0, 0)
			for j, n := 0, r.Intn(6+40*(k["big"]/3)); j < n; j++ {
				s = reflect.Append(s, reflect.ValueOf(randVal(r, kind)))
			}
			l := tricorder.NewList(s.Interface(), true)
			f.keep = append(f.keep, l)
			err = tricorder.RegisterMetric(path, l, units.None, desc)
		case 1:
			d := tricorder.PowersOfTwo.NewCumulativeDistribution()
			err = tricorder.RegisterMetric(path, d, units.None, desc)
			for j, n := 0, r.Intn(8); j < n; j++ {
				d.Add(float64(r.Intn(100000)) / 7)
			}
			f.keep = append(f.keep, d)
		default:
			kind := scalarKinds[r.Intn(len(scalarKinds))]
			x := newCell(kind, r.P(1, 2), randVal(r, kind))
			if k["big"] == 3 && kind == "string" {
				x.set(strings.Repeat("0123456789abcdef", pick(r, 400, 400, 400, 4000)))
			}
			if x.fn {
				x.hook = func() any { sim.SY(0); return nil }
			}
			err = tricorder.RegisterMetricInGroup(path, x.spec(), g, units.Unit(allUnits[r.Intn(len(allUnits))]), desc)
		}
		must(err)
		paths = append(paths, path)
	}
	if r.P(1, 2) {
		healthserver.SetNotHealthy("some <status> & more")
	}
	if r.P(1, 2) {
		healthserver.SetReady()
	}
	for _, p := range append([]string{"/", "/b", "/nosuch", "/b/nosuch"}, paths...) {
		e := escPath(p)
		f.names[e] = p
		f.urls = append(f.urls, "/metrics"+e, "/metrics"+e+"?format=text", "/metricsapi"+e, "/metricsapi"+e+"?singleton=true")
	}
	f.urls = append(f.urls, "/has-tricorder-metrics", "/metricsstatic/theme.css", "/healthz", "/readiness")
	sort.Strings(f.urls)
	for i := range c.P.Tasks {
		for j := range c.P.Tasks[i] {
			f.reference(c, f.url(&c.P.Tasks[i][j]))
		}
	}
	for i := 0; i < 4; i++ {
		f.last = append(f.last, f.urls[f.r.Intn(len(f.urls))])
		f.reference(c, f.last[i])
	}
}

// reference fetches a URL alone.
func (f *bytesFam) reference(c *Ctx, u string) {
	if f.ref[u] == nil {
		q := c.request(feRaw, u, nil)
		f.ref[u] = q
		if path, ok := strings.CutPrefix(u, "/metricsapi"); ok && q.Status == 200 {
			var rows []any
			var err error
			if p, ok := strings.CutSuffix(path, "?singleton=true"); ok {
				var row map[string]any
				if err = json.Unmarshal(q.Body, &row); err == nil && row["path"] != f.names[p] {
					err = fmt.Errorf("it is about %v", row["path"])
				}
			} else if err = json.Unmarshal(q.Body, &rows); err == nil {
				if n := len(tricorder.ReadMyMetrics(f.names[path])); n != len(rows) {
					err = fmt.Errorf("%d metrics are listed, not %d", len(rows), n)
				}
			}
			if err != nil {
				c.Fail("C15", "reference-broken", "%s answers with %d bytes that are not the answer in JSON: %v: %q", u, len(q.Body), err, clip(string(q.Body), 300))
			}
			if len(q.Body) > 4096 {
				c.probes["large-body"]++
			}
		}
		if enc := q.Header.Get("Content-Encoding"); enc != "" {
			c.Fail("C15", "unasked-encoding", "%s is sent with Content-Encoding %q to a client that sent no Accept-Encoding", u, enc)
		}
	}
}

// url is the URL an op asks for.
func (f *bytesFam) url(op *Op) string {
	u := f.urls[op.A*7%len(f.urls)]
	if op.A%3 == 0 {
		// JSON listings more often
		for i := 0; i < len(f.urls); i++ {
			x := f.urls[(op.A*5+i)%len(f.urls)]
			if strings.HasPrefix(x, "/metricsapi") {
				u = x
				break
			}
		}
	}
	return u
}

func (f *bytesFam) exec(c *Ctx, task int, op *Op) {
	f.reqs = append(f.reqs, c.request(feRaw, f.url(op), op))
}

func (f *bytesFam) final(c *Ctx) {
	for _, u := range f.last {
		f.reqs = append(f.reqs, c.request(feRaw, u, &Op{Enc: pick(f.r, "", "gzip")}))
	}
}

func (f *bytesFam) check(c *Ctx) {
	for _, r := range f.reqs {
		f.checkReq(c, r)
		if len(c.viol) > 3 {
			return
		}
	}
}

// headersOf are the headers that must not depend on the client.
func headersOf(h http.Header) http.Header {
	x := h.Clone()
	x.Del("Content-Encoding")
	x.Del("Content-Length")
	x.Del("Vary")
	x.Del("Date")
	return x
}

func (f *bytesFam) checkReq(c *Ctx, r *Req) {
	ref := f.ref[r.Path]
	e := encOf(r.Op.Enc)
	got := r.Header.Get("Content-Encoding")
	what := fmt.Sprintf("%s (Accept-Encoding %q)", r.Path, r.Op.Enc)
	if r.Failed && len(r.Body) == 0 && r.Status == 0 {
		return
	}
	if r.Panicked {
		c.Fail("C15", "aborted", "%s was aborted: %s", what, r.PanicValue)
		return
	}
	if !r.Failed || r.Status != 0 {
		if r.Status != ref.Status {
			c.Fail("C15", "status", "%s answers %d, alone %d", what, r.Status, ref.Status)
			return
		}
		if a, b := headersOf(r.Header), headersOf(ref.Header); !reflect.DeepEqual(a, b) {
			c.Fail("C15", "headers", "%s has headers %v, alone %v", what, a, b)
			return
		}
	}
	switch {
	case got != "" && got != "gzip":
		c.Fail("C15", "encoding", "%s is sent with Content-Encoding %q", what, got)
		return
	case got == "gzip" && !e.allow:
		c.Fail("C15", "unwanted-gzip", "%s is sent as gzip to a client that does not accept it", what)
		return
	case got == "" && e.on && strings.HasPrefix(r.Path, "/metricsapi") && !(r.Failed && len(r.Body) == 0):
		c.Fail("C15", "no-gzip", "%s is not sent as gzip", what)
		return
	}
	if n := r.Header.Get("Content-Length"); n != "" && !r.Failed {
		if x, err := strconv.Atoi(n); err != nil || x != len(r.Body) {
			c.Fail("C15", "content-length", "%s announces %s bytes and has %d", what, n, len(r.Body))
		}
	}
	if ct := r.Header.Get("Content-Type"); !r.Failed && r.Status == 200 {
		if ct == "" && got == "" {
			ct = http.DetectContentType(r.Body) // what net/http adds
		}
		want := ""
		switch {
		case strings.HasPrefix(r.Path, "/metricsapi"):
			want = "application/json"
		case strings.HasPrefix(r.Path, "/metrics/") && strings.HasSuffix(r.Path, "?format=text"):
			want = "text/plain"
		case strings.HasPrefix(r.Path, "/metrics/") && !strings.HasPrefix(string(r.Body), "Path does"):
			want = "text/html"
		}
		if want != "" && ct != want && !strings.HasPrefix(ct, want+";") {
			c.Fail("C15", "content-type", "%s is sent as %q, want %s", what, ct, want)
			return
		}
	}
	plain := r.Body
	if got == "gzip" {
		c.probes["gzip-response"]++
		var err error
		plain, err = gunzip(r.Body)
		if err != nil && !r.Failed {
			c.Fail("C15", "bad-gzip", "%s: %v after %d bytes", what, err, len(plain))
			return
		}
	}
	if r.Failed {
		c.probes["prefix-checked"]++
		if !bytes.HasPrefix(ref.Body, plain) {
			c.Fail("C15", "not-a-prefix", "%s: the connection failed after %q, which is no prefix of %q", what, clip(string(plain), 300), clip(string(ref.Body), 600))
		}
		return
	}
	if !bytes.Equal(plain, ref.Body) {
		c.Fail("C15", "body-differs", "%s has body\n%q\nbut alone\n%q", what, clip(string(plain), 600), clip(string(ref.Body), 600))
	}
}

// gunzip decodes as much as there is.
func gunzip(b []byte) ([]byte, error) {
	if len(b) == 0 {
		return nil, io.ErrUnexpectedEOF
	}
	br := bytes.NewReader(b)
	zr, err := gzip.NewReader(br)
	if err != nil {
		return nil, err
	}
	zr.Multistream(false)
	var out bytes.Buffer
	if _, err := io.Copy(&out, zr); err != nil {
		return out.Bytes(), err
	}
	if br.Len() > 0 {
		return out.Bytes(), fmt.Errorf("%d bytes after the gzip stream", br.Len())
	}
	return out.Bytes(), nil
}
