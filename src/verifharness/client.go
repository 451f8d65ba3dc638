package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"io"
	"net/http"
	"net/rpc"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"verifsim/sim"
)

// Front ends.
const (
	feHTML  = "html"
	feText  = "text"
	feJSON  = "json"  // recursive listing
	feJSON1 = "json1" // singleton
	feRPC   = "rpc"   // ListMetrics
	feRPC1  = "rpc1"  // GetMetric
	feRead  = "read"  // ReadMyMetrics
	feRaw   = "raw"   // any other URL
)

var allFe = []string{feHTML, feText, feJSON, feJSON1, feRPC, feRPC1, feRead}
var listFe = []string{feHTML, feText, feJSON, feRPC, feRead}

// Obs is one metric as reported by a front end.
type Obs struct {
	Path, Desc, Unit, Kind, Sub string
	Bits                        int
	Meta                        bool // Desc, Unit and Kind are known
	Go                          any  // Go RPC value
	JSON                        any  // decoded JSON value
	Text                        string
	TS                          time.Time
	HasTS                       bool
	GroupID                     int
	Dist                        *DistObs
	Items                       []string // HTML list items
}

// DistObs is a reported distribution.
type DistObs struct {
	Min, Max, Avg, Median, Sum float64
	Count, Gen                 uint64
	NotCum                     bool
	Ranges                     []RangeObs
	F32                        bool // floats were rendered as float32, empty ranges omitted, no generation
	NoStats                    bool // HTML omits the summary of an empty distribution
}

type RangeObs struct {
	Lo, Hi      float64
	First, Last bool
	N           uint64
}

// Req is one request as seen by its client.
type Req struct {
	N          int
	Task       int
	Op         *Op
	Fe, Path   string
	Clean      string // the path without blank components
	S, E       uint64
	NS, NE     time.Duration
	CS, CE     time.Time
	Status     int
	Header     http.Header
	Body       []byte // bytes delivered
	Failed     bool   // the connection failed
	Panicked   bool   // the handler panicked (connection aborted)
	PanicValue string
	CBPanic    bool // an injected callback panic fired while serving it
	Callbacks  int
	RPCErr     string
	Plain      []byte // decoded body
	BadBody    string // why the body could not be parsed
	Missing    bool   // "path does not exist" in the front end's way
	IsErr      bool   // "Error in template."
	Obs        []*Obs
	Links      []string
	Link2      []string // link texts
	Order      []string // HTML: paths of metrics and subdirectories as listed
	Stalled    bool
	Nested     bool
	done       bool
	vals       map[string]any // for families
}

func (r *Req) String() string {
	var ps []string
	for _, o := range r.Obs {
		v := o.Text
		if o.Go != nil {
			v = fmt.Sprint(o.Go)
		} else if o.JSON != nil {
			v = fmt.Sprint(o.JSON)
		}
		if o.Dist != nil {
			v = fmt.Sprintf("%+v", *o.Dist)
		}
		s := o.Path + "=" + v
		if o.HasTS {
			s += "@" + o.TS.UTC().Format("05.000000000") + "#" + strconv.Itoa(o.GroupID)
		}
		ps = append(ps, s)
	}
	st := ""
	if r.Failed {
		st += " CUT"
	}
	if r.Panicked {
		st += " PANIC(" + r.PanicValue + ")"
	}
	if r.Missing {
		st += " missing"
	}
	if r.Stalled {
		st += " stalled"
	}
	return fmt.Sprintf("[%d,%d] t%d req%d %s %s -> %d %s%s %dB {%s}", r.S, r.E, r.Task, r.N, r.Fe, r.Path, r.Status, r.RPCErr, st, len(r.Body), strings.Join(ps, " "))
}

// ok reports whether the client got a complete, undisturbed response.
func (r *Req) ok() bool { return !r.Failed && !r.Panicked && !r.CBPanic }

var errCut = errors.New("simulated connection failure")

// conn is the client's end of a connection: it decides how many bytes are
// taken, when, and when the connection dies.
type conn struct {
	c      *Ctx
	r      *Req
	hdr    http.Header
	wrote  bool
	dead   bool
	cancel func()
}

func (w *conn) Header() http.Header { return w.hdr }

func (w *conn) WriteHeader(status int) {
	if w.wrote {
		return
	}
	w.wrote = true
	w.r.Status = status
	w.r.Header = w.hdr.Clone()
	sim.SY(0)
}

func (w *conn) Flush() {
	if !w.wrote {
		w.WriteHeader(200)
	}
}

func (w *conn) Write(b []byte) (int, error) {
	if !w.wrote {
		w.WriteHeader(200)
	}
	return w.send(b)
}

// send delivers bytes to the client.
func (w *conn) send(b []byte) (int, error) {
	op := w.r.Op
	sim.SY(0)
	n := 0
	for {
		if w.dead {
			return n, errCut
		}
		rest := len(b) - n
		if op.Cut > 0 {
			if left := op.Cut - 1 - len(w.r.Body); left < rest {
				rest = left
			}
		}
		if op.Stall > 0 && !w.r.Stalled {
			if left := op.StallAt - len(w.r.Body); left <= 0 {
				w.r.Stalled = true
				w.c.faults["client_stall"]++
				sim.Sleep(time.Duration(op.Stall))
			} else if left < rest {
				rest = left
			}
		}
		if op.Chunk > 0 && rest > op.Chunk {
			rest = op.Chunk
		}
		if rest > 0 {
			w.r.Body = append(w.r.Body, b[n:n+rest]...)
			n += rest
		}
		if op.Cut > 0 && len(w.r.Body) >= op.Cut-1 {
			w.dead = true
			w.r.Failed = true
			w.c.faults["client_disconnect"]++
			if w.cancel != nil {
				w.cancel()
			}
			return n, errCut
		}
		if n >= len(b) {
			return n, nil
		}
		if op.Chunk > 0 {
			w.c.faults["client_slow_chunk"]++
		}
		sim.SY(0)
	}
}

func (c *Ctx) beginReq(fe, path string, op *Op) *Req {
	r := &Req{N: len(c.reqs), Task: c.W.Cur().ID, Op: op, Fe: fe, Path: path, Clean: cleanPath(path)}
	st := c.cur[r.Task]
	r.Nested = len(st) > 0
	c.cur[r.Task] = append(st, r)
	c.reqs = append(c.reqs, r)
	r.CS = c.W.ClockValue()
	r.NS = c.W.Elapsed()
	r.S = c.W.Tick()
	return r
}

func (c *Ctx) endReq(r *Req) {
	c.W.Progress()
	r.E = c.W.Tick()
	r.NE = c.W.Elapsed()
	r.CE = c.W.ClockValue()
	st := c.cur[r.Task]
	c.cur[r.Task] = st[:len(st)-1]
	r.done = true
	r.parse(c)
	c.W.Log("req %s %s %d %v %v %x", r.Fe, r.Path, r.Status, r.Failed, r.Panicked, hashStr(string(r.Body)))
}

// current is the request the running task is serving, if any.
func (c *Ctx) current() *Req {
	st := c.cur[c.W.Cur().ID]
	if len(st) == 0 {
		return nil
	}
	return st[len(st)-1]
}

// escPath escapes each component of a path for a URL.
func escPath(p string) string {
	return (&url.URL{Path: p}).EscapedPath()
}

// request performs one request through a front end.
func (c *Ctx) request(fe, path string, op *Op) *Req {
	if op == nil {
		op = &Op{}
	}
	switch fe {
	case feHTML:
		return c.httpReq(fe, path, "/metrics"+escPath(slash(path)), op)
	case feText:
		return c.httpReq(fe, path, "/metrics"+escPath(slash(path))+"?format=text", op)
	case feJSON:
		return c.httpReq(fe, path, "/metricsapi"+escPath(slash(path)), op)
	case feJSON1:
		return c.httpReq(fe, path, "/metricsapi"+escPath(slash(path))+"?singleton=true", op)
	case feRaw:
		return c.httpReq(fe, path, path, op)
	case feRPC:
		return c.rpcReq(fe, path, "MetricsServer.ListMetrics", op)
	case feRPC1:
		return c.rpcReq(fe, path, "MetricsServer.GetMetric", op)
	case feRead:
		return c.readReq(path, op)
	}
	panic("harness: front end " + fe)
}

func slash(p string) string {
	if !strings.HasPrefix(p, "/") {
		return "/" + p
	}
	return p
}

func (c *Ctx) httpReq(fe, path, u string, op *Op) *Req {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	method := "GET"
	if op.S == "HEAD" {
		method = "HEAD"
	}
	hr, err := http.NewRequestWithContext(ctx, method, "http://sim"+u, nil)
	must(err)
	hr.RequestURI = u
	if op.V10 {
		hr.Proto, hr.ProtoMajor, hr.ProtoMinor = "HTTP/1.0", 1, 0
	}
	hr.RemoteAddr = "10.0.0.1:4000"
	if e := c.W.Env; e.P(1, 3) {
		// what browsers, scripts and proxies send
		hr.RemoteAddr = pick(e, "10.0.0.1:4000", "127.0.0.1:50123", "[::1]:6", "@")
		hr.Host = pick(e, "sim", "localhost:6910", "example.com")
		for _, h := range [][]string{
			{"User-Agent", "curl/8.5.0", "Mozilla/5.0 (X11; Linux x86_64) Chrome/120", "Go-http-client/1.1", "Prometheus/2.40", "Mozilla/4.0 (compatible; MSIE 6.0)", "Wget/1.21"},
			{"Accept", "*/*", "text/html,application/xhtml+xml", "application/json", "text/plain", "application/vnd.google.protobuf"},
			{"Accept-Language", "en", "de-DE,de;q=0.9", "ja"},
			{"Connection", "close", "keep-alive"},
			{"Cache-Control", "no-cache", "max-age=0"},
			{"X-Forwarded-For", "192.0.2.1", "127.0.0.1"},
			{"Cookie", "a=b"},
			{"Referer", "http://sim/metrics/"},
			{"Origin", "http://elsewhere"},
			{"X-Requested-With", "XMLHttpRequest"},
			{"TE", "trailers"},
		} {
			if e.P(1, 4) {
				hr.Header.Set(h[0], h[1+e.Intn(len(h)-1)])
			}
		}
	}
	if op.Enc != "" {
		hr.Header.Set("Accept-Encoding", op.Enc)
	}
	r := c.beginReq(fe, path, op)
	w := &conn{c: c, r: r, hdr: http.Header{}, cancel: cancel}
	if op.Cut == 1 {
		// the client is gone before the first byte
		c.probes["cut-before-first-byte"]++
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if se, ok := x.(sim.StuckError); ok {
					panic(se)
				}
				if sim.Exiting() {
					panic(x)
				}
				r.Panicked = true
				r.PanicValue = fmt.Sprint(x)
			}
		}()
		http.DefaultServeMux.ServeHTTP(w, hr)
	}()
	if !w.wrote && !r.Panicked && !w.dead {
		w.WriteHeader(200)
	}
	if r.Header == nil {
		r.Header = w.hdr.Clone()
	}
	c.endReq(r)
	if r.Panicked && !r.CBPanic {
		c.Fail("", "handler-panic", "serving %s panicked: %s", u, r.PanicValue)
	}
	return r
}

// rpcCodec is a gob codec over a simulated connection.
type rpcCodec struct {
	c      *Ctx
	r      *Req
	method string
	arg    string
	dec    *gob.Decoder
	w      *conn
}

func (x *rpcCodec) ReadRequestHeader(h *rpc.Request) error { return x.dec.Decode(h) }
func (x *rpcCodec) ReadRequestBody(b any) error            { return x.dec.Decode(b) }
func (x *rpcCodec) WriteResponse(h *rpc.Response, b any) error {
	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	if err := enc.Encode(h); err != nil {
		x.r.BadBody = "response header: " + err.Error()
		return err
	}
	if err := enc.Encode(b); err != nil {
		x.r.BadBody = "response body: " + err.Error()
		return err
	}
	_, err := x.w.send(buf.Bytes())
	return err
}
func (x *rpcCodec) Close() error { return nil }

func (c *Ctx) rpcReq(fe, path, method string, op *Op) *Req {
	var in bytes.Buffer
	enc := gob.NewEncoder(&in)
	must(enc.Encode(&rpc.Request{ServiceMethod: method, Seq: 7}))
	must(enc.Encode(path))
	r := c.beginReq(fe, path, op)
	w := &conn{c: c, r: r, hdr: http.Header{}}
	x := &rpcCodec{c: c, r: r, dec: gob.NewDecoder(&in), w: w}
	rpc.DefaultServer.ServeRequest(x)
	c.endReq(r)
	return r
}

func (c *Ctx) readReq(path string, op *Op) *Req {
	r := c.beginReq(feRead, path, op)
	list := tricorder.ReadMyMetrics(path)
	for _, m := range list {
		r.Obs = append(r.Obs, obsFromGo(m))
	}
	c.endReq(r)
	return r
}

func obsFromGo(m *messages.Metric) *Obs {
	o := &Obs{Path: m.Path, Desc: m.Description, Unit: string(m.Unit), Kind: string(m.Kind), Sub: string(m.SubType),
		Bits: m.Bits, Meta: true, Go: m.Value, GroupID: m.GroupId}
	if t, ok := m.TimeStamp.(time.Time); ok {
		o.TS, o.HasTS = t, true
	}
	if d, ok := m.Value.(*messages.Distribution); ok && d != nil {
		o.Dist = &DistObs{Min: d.Min, Max: d.Max, Avg: d.Average, Median: d.Median, Sum: d.Sum, Count: d.Count, Gen: d.Generation, NotCum: d.IsNotCumulative}
		for i, x := range d.Ranges {
			o.Dist.Ranges = append(o.Dist.Ranges, RangeObs{Lo: x.Lower, Hi: x.Upper, N: x.Count, First: i == 0, Last: i == len(d.Ranges)-1})
		}
	}
	return o
}

// jsonMetric mirrors the documented JSON form.
type jsonMetric struct {
	Path        *string         `json:"path"`
	Description *string         `json:"description"`
	Unit        string          `json:"unit"`
	Kind        string          `json:"kind"`
	SubType     string          `json:"subType"`
	Bits        int             `json:"bits"`
	Value       json.RawMessage `json:"value"`
	TimeStamp   *string         `json:"timestamp"`
	GroupId     *int            `json:"groupId"`
}

type jsonDist struct {
	Min, Max, Average, Median, Sum *float64
	Count, Generation              *uint64
	IsNotCumulative                bool
	Ranges                         []struct {
		Lower, Upper *float64
		Count        *uint64
	}
}

func obsFromJSON(m *jsonMetric) (*Obs, error) {
	if m.Path == nil || m.Description == nil || m.TimeStamp == nil || m.GroupId == nil || m.Value == nil {
		return nil, fmt.Errorf("JSON metric lacks a documented field")
	}
	o := &Obs{Path: *m.Path, Desc: *m.Description, Unit: m.Unit, Kind: m.Kind, Sub: m.SubType, Bits: m.Bits, Meta: true, GroupID: *m.GroupId}
	t, err := parseTS(*m.TimeStamp)
	if err != nil {
		return nil, err
	}
	o.TS, o.HasTS = t, true
	if m.Kind == "distribution" {
		var d jsonDist
		if err := json.Unmarshal(m.Value, &d); err != nil {
			return nil, err
		}
		if d.Min == nil || d.Max == nil || d.Average == nil || d.Median == nil || d.Sum == nil || d.Count == nil || d.Generation == nil {
			return nil, fmt.Errorf("JSON distribution lacks a documented field")
		}
		o.Dist = &DistObs{Min: *d.Min, Max: *d.Max, Avg: *d.Average, Median: *d.Median, Sum: *d.Sum, Count: *d.Count, Gen: *d.Generation, NotCum: d.IsNotCumulative}
		for i, x := range d.Ranges {
			if x.Lower == nil || x.Upper == nil || x.Count == nil {
				return nil, fmt.Errorf("JSON range lacks a documented field")
			}
			o.Dist.Ranges = append(o.Dist.Ranges, RangeObs{Lo: *x.Lower, Hi: *x.Upper, N: *x.Count, First: i == 0, Last: i == len(d.Ranges)-1})
		}
		return o, nil
	}
	dec := json.NewDecoder(bytes.NewReader(m.Value))
	dec.UseNumber()
	if err := dec.Decode(&o.JSON); err != nil {
		return nil, err
	}
	if m.Kind == "list" && o.JSON == nil {
		return nil, fmt.Errorf("JSON list is null")
	}
	return o, nil
}

// parseTS parses "seconds.nnnnnnnnn".
func parseTS(s string) (time.Time, error) {
	neg := strings.HasPrefix(s, "-")
	a := strings.SplitN(strings.TrimPrefix(s, "-"), ".", 2)
	if len(a) != 2 || len(a[1]) != 9 {
		return time.Time{}, fmt.Errorf("bad timestamp %q", s)
	}
	secs, err := strconv.ParseInt(a[0], 10, 64)
	if err != nil {
		return time.Time{}, err
	}
	ns, err := strconv.ParseInt(a[1], 10, 64)
	if err != nil {
		return time.Time{}, err
	}
	if neg {
		secs, ns = -secs, -ns
	}
	return time.Unix(secs, ns), nil
}

func (r *Req) parse(c *Ctx) {
	r.Plain = r.Body
	switch r.Fe {
	case feRPC, feRPC1:
		if r.Failed || r.BadBody != "" {
			return
		}
		dec := gob.NewDecoder(bytes.NewReader(r.Body))
		var h rpc.Response
		if err := dec.Decode(&h); err != nil {
			r.BadBody = "rpc response: " + err.Error()
			return
		}
		if h.Error != "" {
			r.RPCErr = h.Error
			return
		}
		if r.Fe == feRPC {
			var l messages.MetricList
			if err := dec.Decode(&l); err != nil {
				r.BadBody = "rpc list: " + err.Error()
				return
			}
			for _, m := range l {
				r.Obs = append(r.Obs, obsFromGo(m))
			}
		} else {
			var m messages.Metric
			if err := dec.Decode(&m); err != nil {
				r.BadBody = "rpc metric: " + err.Error()
				return
			}
			r.Obs = append(r.Obs, obsFromGo(&m))
		}
		return
	case feRead:
		return
	}
	if r.Header.Get("Content-Encoding") == "gzip" && !r.Panicked {
		zr, err := gzip.NewReader(bytes.NewReader(r.Body))
		if err == nil {
			var b []byte
			b, err = io.ReadAll(zr)
			r.Plain = b
		}
		if err != nil {
			if !r.Failed {
				r.BadBody = "gzip: " + err.Error()
			}
			r.Plain = nil
			return
		}
	}
	switch r.Fe {
	case feJSON, feJSON1:
		if r.Failed || r.Panicked {
			return
		}
		if r.Status != 200 {
			r.Missing = r.Status == 404
			return
		}
		if strings.HasPrefix(string(r.Plain), "Error in template") {
			r.IsErr = true
			return
		}
		if r.Fe == feJSON {
			var l []*jsonMetric
			if !strings.HasPrefix(strings.TrimSpace(string(r.Plain)), "[") {
				r.BadBody = "JSON listing is not an array"
				return
			}
			if err := json.Unmarshal(r.Plain, &l); err != nil {
				r.BadBody = "JSON listing: " + err.Error()
				return
			}
			for _, m := range l {
				if m == nil {
					r.BadBody = "JSON listing contains null"
					return
				}
				o, err := obsFromJSON(m)
				if err != nil {
					r.BadBody = err.Error()
					return
				}
				r.Obs = append(r.Obs, o)
			}
			return
		}
		var m jsonMetric
		if err := json.Unmarshal(r.Plain, &m); err != nil {
			r.BadBody = "JSON metric: " + err.Error()
			return
		}
		o, err := obsFromJSON(&m)
		if err != nil {
			r.BadBody = err.Error()
			return
		}
		r.Obs = append(r.Obs, o)
	case feText:
		r.parseText(c)
	case feHTML:
		r.parseHTML(c)
	}
}

// completeLines are the lines known to be complete.
func (r *Req) completeLines() []string {
	s := string(r.Plain)
	if i := strings.LastIndexByte(s, '\n'); i >= 0 {
		return strings.Split(s[:i], "\n")
	}
	return nil
}

func (r *Req) parseText(c *Ctx) {
	s := string(r.Plain)
	if s == "*Path does not exist.*" && r.ok() {
		r.Missing = true
		return
	}
	for _, l := range r.completeLines() {
		if strings.HasPrefix(l, "Error in template.") {
			r.IsErr = true
			continue
		}
		o := &Obs{}
		if strings.HasPrefix(l, "/") && strings.Contains(l, " ") {
			i := -1
			if c.splitPath != nil {
				i = c.splitPath(l)
			}
			if i < 0 {
				i = strings.IndexByte(l, ' ')
			}
			o.Path, o.Text = l[:i], l[i+1:]
		} else {
			o.Path, o.Text = cleanPath(r.Path), l
		}
		o.Dist = parseTextDist(o.Text)
		r.Obs = append(r.Obs, o)
	}
	if i := strings.LastIndexByte(s, '\n'); r.ok() && s != "" && i != len(s)-1 {
		r.BadBody = "text body does not end in a newline"
	}
}

// comps are the meaningful components of a path.
func comps(p string) []string {
	var out []string
	for _, x := range strings.Split(p, "/") {
		if strings.TrimSpace(x) != "" {
			out = append(out, x)
		}
	}
	return out
}

func cleanPath(p string) string { return "/" + strings.Join(comps(p), "/") }

var reTextDist = regexp.MustCompile(`^\{min:([^;]*);max:([^;]*);avg:([^;]*);median:([^;]*);sum:([^;]*);count:(\d+)((?:;\[[^)]*\):\d+)*)\}$`)
var reTextRange = regexp.MustCompile(`;\[([^,]*),([^)]*)\):(\d+)`)

func pf(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return nan
	}
	return f
}

func pu(s string) uint64 {
	n, _ := strconv.ParseUint(s, 10, 64)
	return n
}

func parseTextDist(s string) *DistObs {
	m := reTextDist.FindStringSubmatch(s)
	if m == nil {
		return nil
	}
	d := &DistObs{Min: pf(m[1]), Max: pf(m[2]), Avg: pf(m[3]), Median: pf(m[4]), Sum: pf(m[5]), Count: pu(m[6]), F32: true}
	for _, x := range reTextRange.FindAllStringSubmatch(m[7], -1) {
		ro := RangeObs{N: pu(x[3])}
		if x[1] == "-inf" {
			ro.First = true
		} else {
			ro.Lo = pf(x[1])
		}
		if x[2] == "inf" {
			ro.Last = true
		} else {
			ro.Hi = pf(x[2])
		}
		d.Ranges = append(d.Ranges, ro)
	}
	return d
}

var (
	reHTMLMetric = regexp.MustCompile(`^(/[^ ]*) (?:(.*) )?<span class="parens">\((.*)\)</span>(<br>)?$`)
	reHTMLLink   = regexp.MustCompile(`^<a href="([^"]*)">(.*)</a><br>$`)
	reHTMLLi     = regexp.MustCompile(`^<li>(.*)</li>$`)
	reHTMLRow    = regexp.MustCompile(`^<td align="right">(.*):</td> ?<td align="right"> ?(\d+)</td>$`)
	reHTMLSum    = regexp.MustCompile(`^<span class="summary"> min: (\S+) max: (\S+) avg: (\S+) &#126;median: (\S+) sum: (\S+) count: (\d+)</span><br><br>$`)
)

func (r *Req) parseHTML(c *Ctx) {
	s := string(r.Plain)
	if s == "Path does not exist." && r.ok() {
		r.Missing = true
		return
	}
	var cur *Obs
	sawEnd := false
	for _, l := range r.completeLines() {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "Error in template.") {
			r.IsErr = true
			continue
		}
		if strings.Contains(l, "</html>") {
			sawEnd = true
		}
		if m := reHTMLLink.FindStringSubmatch(l); m != nil {
			r.Links = append(r.Links, html.UnescapeString(m[1]))
			r.Link2 = append(r.Link2, html.UnescapeString(m[2]))
			r.Order = append(r.Order, html.UnescapeString(m[2]))
			cur = nil
			continue
		}
		m := reHTMLMetric.FindStringSubmatch(l)
		if c.splitPath != nil && strings.HasPrefix(l, "/") {
			if i := c.splitPath(l); i > 0 {
				if m = reHTMLMetric.FindStringSubmatch("/x" + l[i:]); m != nil {
					m[1] = l[:i]
				}
			}
		}
		if m != nil {
			o := &Obs{Path: html.UnescapeString(m[1]), Text: html.UnescapeString(m[2])}
			in := html.UnescapeString(m[3])
			o.Unit = "None"
			if i := strings.LastIndex(in, "; unit: "); i >= 0 {
				o.Unit = in[i+8:]
				in = in[:i]
			}
			if i := strings.Index(in, ": "); i >= 0 {
				o.Kind, o.Desc, o.Meta = in[:i], in[i+2:], true
			}
			if o.Kind == "distribution" {
				o.Dist = &DistObs{F32: true, NoStats: true}
			}
			if strings.HasPrefix(o.Kind, "list of ") {
				o.Sub = o.Kind[8:]
				o.Kind = "list"
				o.Items = []string{}
			}
			r.Obs = append(r.Obs, o)
			r.Order = append(r.Order, o.Path)
			cur = o
			continue
		}
		if cur == nil {
			continue
		}
		if m := reHTMLLi.FindStringSubmatch(l); m != nil && cur.Kind == "list" {
			cur.Items = append(cur.Items, html.UnescapeString(m[1]))
		}
		if cur.Dist != nil {
			if m := reHTMLRow.FindStringSubmatch(l); m != nil {
				b := html.UnescapeString(m[1])
				ro := RangeObs{N: pu(m[2])}
				switch {
				case strings.HasPrefix(b, "<"):
					ro.First, ro.Hi = true, pf(b[1:])
				case strings.HasPrefix(b, ">="):
					ro.Last, ro.Lo = true, pf(b[2:])
				default:
					// the dash between two numbers, not a sign
					for i := 1; i < len(b); i++ {
						if b[i] == '-' && b[i-1] != 'e' {
							ro.Lo, ro.Hi = pf(b[:i]), pf(b[i+1:])
							break
						}
					}
				}
				cur.Dist.Ranges = append(cur.Dist.Ranges, ro)
			}
			if m := reHTMLSum.FindStringSubmatch(l); m != nil {
				d := cur.Dist
				d.NoStats = false
				for i := range m {
					m[i] = html.UnescapeString(m[i])
				}
				d.Min, d.Max, d.Avg, d.Median, d.Sum, d.Count = pf(m[1]), pf(m[2]), pf(m[3]), pf(m[4]), pf(m[5]), pu(m[6])
			}
		}
	}
	if !r.ok() && len(r.Obs) > 0 {
		// the last entry may be incomplete
		o := r.Obs[len(r.Obs)-1]
		if o.Dist != nil || o.Kind == "list" {
			r.Obs = r.Obs[:len(r.Obs)-1]
		}
	}
	if r.ok() && !r.IsErr && !sawEnd {
		r.BadBody = "HTML page is not complete"
	}
}

// checkWellFormed reports responses that are not valid in their own format.
func (c *Ctx) checkWellFormed(props string, r *Req) bool {
	if !r.ok() {
		return false
	}
	if r.BadBody != "" {
		c.Fail(props, "malformed-response", "%s %s: %s\n%s", r.Fe, r.Path, r.BadBody, clip(string(r.Plain), 400))
		return false
	}
	if r.IsErr {
		c.Fail(props, "error-response", "%s %s answered an error page: %s", r.Fe, r.Path, clip(string(r.Plain), 400))
		return false
	}
	return true
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
