package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"verifsim/sim"
)

// Reference renderings of metric values, written from the documentation and
// the repository's own expectations, independently of its code.

var nan = math.NaN()

const (
	uNone = "None"
	uMs   = "Milliseconds"
	uSec  = "Seconds"
	uCel  = "Celsius"
	uByte = "Bytes"
	uBps  = "BytesPerSecond"
)

var allUnits = []string{uNone, uMs, uSec, uCel, uByte, uBps}

// scalar kinds: the names of the reported types, plus int, uint and the
// pointer-to-time form.
var scalarKinds = []string{"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64",
	"float32", "float64", "string", "time", "ptime", "duration"}

func goType(kind string) reflect.Type {
	switch kind {
	case "bool":
		return reflect.TypeOf(false)
	case "int":
		return reflect.TypeOf(int(0))
	case "int8":
		return reflect.TypeOf(int8(0))
	case "int16":
		return reflect.TypeOf(int16(0))
	case "int32":
		return reflect.TypeOf(int32(0))
	case "int64":
		return reflect.TypeOf(int64(0))
	case "uint":
		return reflect.TypeOf(uint(0))
	case "uint8":
		return reflect.TypeOf(uint8(0))
	case "uint16":
		return reflect.TypeOf(uint16(0))
	case "uint32":
		return reflect.TypeOf(uint32(0))
	case "uint64":
		return reflect.TypeOf(uint64(0))
	case "float32":
		return reflect.TypeOf(float32(0))
	case "float64":
		return reflect.TypeOf(float64(0))
	case "string":
		return reflect.TypeOf("")
	case "time":
		return reflect.TypeOf(time.Time{})
	case "ptime":
		return reflect.TypeOf((*time.Time)(nil))
	case "duration":
		return reflect.TypeOf(time.Duration(0))
	}
	panic("harness: kind " + kind)
}

// rpcKind is the type name reported through Go RPC.
func rpcKind(kind string) string {
	switch kind {
	case "int":
		return "int64"
	case "uint":
		return "uint64"
	case "time", "ptime":
		return "goTime"
	case "duration":
		return "goDuration"
	}
	return kind
}

// jsonKind is the type name reported in JSON and HTML.
func jsonKind(kind string) string {
	switch kind {
	case "int":
		return "int64"
	case "uint":
		return "uint64"
	case "ptime":
		return "time"
	}
	return kind
}

func kindBits(kind string) int {
	switch kind {
	case "int", "uint", "int64", "uint64", "float64":
		return 64
	case "int32", "uint32", "float32":
		return 32
	case "int16", "uint16":
		return 16
	case "int8", "uint8":
		return 8
	}
	return 0
}

// rpcValue is the exact Go value reported for v (a Go value of the kind).
func rpcValue(kind string, v any) any {
	switch kind {
	case "int":
		return int64(v.(int))
	case "uint":
		return uint64(v.(uint))
	case "ptime":
		p := v.(*time.Time)
		if p == nil {
			return time.Time{}
		}
		return *p
	}
	return v
}

func asTime(kind string, v any) time.Time {
	if kind == "ptime" {
		p := v.(*time.Time)
		if p == nil {
			return time.Time{}
		}
		return *p
	}
	return v.(time.Time)
}

// decimalNs renders ns nanoseconds in the unit with nine decimals.
func decimalNs(ns *big.Int, unit string) string {
	n := new(big.Int).Set(ns)
	if unit == uMs {
		n.Mul(n, big.NewInt(1000))
	}
	neg := n.Sign() < 0
	n.Abs(n)
	q, m := new(big.Int).DivMod(n, big.NewInt(1000000000), new(big.Int))
	s := fmt.Sprintf("%s.%09d", q.String(), m.Int64())
	if neg {
		s = "-" + s
	}
	return s
}

func timeNs(t time.Time) *big.Int {
	if t.IsZero() {
		return big.NewInt(0)
	}
	n := new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1000000000))
	return n.Add(n, big.NewInt(int64(t.Nanosecond())))
}

// textOf is the text rendering of a value.
func textOf(kind string, v any, unit string) string {
	rv := reflect.ValueOf(v)
	switch kind {
	case "bool":
		return strconv.FormatBool(v.(bool))
	case "int", "int8", "int16", "int32", "int64":
		return strconv.FormatInt(rv.Int(), 10)
	case "uint", "uint8", "uint16", "uint32", "uint64":
		return strconv.FormatUint(rv.Uint(), 10)
	case "float32":
		return strconv.FormatFloat(float64(v.(float32)), 'f', -1, 32)
	case "float64":
		return strconv.FormatFloat(v.(float64), 'f', -1, 64)
	case "string":
		return `"` + v.(string) + `"`
	case "time", "ptime":
		return decimalNs(timeNs(asTime(kind, v)), unit)
	case "duration":
		return decimalNs(big.NewInt(int64(v.(time.Duration))), unit)
	}
	panic("harness: kind " + kind)
}

// compact is the human rendering of large numbers.
func compact(x *big.Int, radix int64, suffixes []string) string {
	ab := new(big.Int).Abs(x)
	if ab.Cmp(big.NewInt(radix)) < 0 {
		return x.String()
	}
	f, _ := new(big.Float).SetInt(x).Float64()
	i := -1
	r := float64(radix)
	for math.Abs(f) >= r {
		f /= r
		i++
	}
	a := math.Abs(f)
	switch {
	case a < 9.995:
		return fmt.Sprintf("%.2f%s", f, suffixes[i])
	case a < 99.95:
		return fmt.Sprintf("%.1f%s", f, suffixes[i])
	default:
		return fmt.Sprintf("%.0f%s", f, suffixes[i])
	}
}

var (
	sufK  = []string{" thousand", " million", " billion", " trillion", "K trillion", "M trillion"}
	sufB  = []string{" KiB", " MiB", " GiB", " TiB", " PiB", " EiB"}
	sufBs = []string{" KiB/s", " MiB/s", " GiB/s", " TiB/s", " PiB/s", " EiB/s"}
)

func commas(s string) string {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	var out []byte
	for i := 0; i < len(s); i++ {
		if i > 0 && (len(s)-i)%3 == 0 {
			out = append(out, ',')
		}
		out = append(out, s[i])
	}
	if neg {
		return "-" + string(out)
	}
	return string(out)
}

func prettyDur(d time.Duration) string {
	ns := int64(d)
	s := ns / 1e9
	milli := ns % 1e9 / 1e6
	switch {
	case ns < 10000:
		return fmt.Sprintf("%dns", ns)
	case ns < 10000000:
		return fmt.Sprintf("%dμs", ns/1000)
	case s == 0:
		return fmt.Sprintf("%dms", ns/1000000)
	case s < 60:
		return fmt.Sprintf("%d.%03ds", s, milli)
	case s < 3600:
		return fmt.Sprintf("%dm %d.%03ds", s/60, s%60, milli)
	case s < 86400:
		return fmt.Sprintf("%dh %dm %ds", s/3600, s%3600/60, s%60)
	default:
		return fmt.Sprintf("%dd %dh %dm %ds", s/86400, s%86400/3600, s%3600/60, s%60)
	}
}

// htmlOf is the HTML rendering of a value.
func htmlOf(kind string, v any, unit string) string {
	rv := reflect.ValueOf(v)
	num := func(x *big.Int) string {
		switch unit {
		case uByte:
			return compact(x, 1024, sufB)
		case uBps:
			return compact(x, 1024, sufBs)
		case uNone:
			return commas(x.String())
		default:
			return compact(x, 1000, sufK)
		}
	}
	switch kind {
	case "int", "int8", "int16", "int32", "int64":
		return num(big.NewInt(rv.Int()))
	case "uint", "uint8", "uint16", "uint32", "uint64":
		return num(new(big.Int).SetUint64(rv.Uint()))
	case "duration":
		d := v.(time.Duration)
		if d < 0 {
			return textOf(kind, v, unit)
		}
		return prettyDur(d)
	case "time", "ptime":
		return asTime(kind, v).UTC().Format("2006-01-02T15:04:05.999999999Z")
	}
	return textOf(kind, v, unit)
}

// jsonMatches reports whether a decoded JSON value is exactly v.
func jsonMatches(kind string, v any, unit string, got any) bool {
	switch kind {
	case "bool":
		b, ok := got.(bool)
		return ok && b == v.(bool)
	case "string":
		s, ok := got.(string)
		return ok && s == v.(string)
	case "time", "ptime", "duration":
		s, ok := got.(string)
		return ok && s == textOf(kind, v, unit)
	case "float32":
		n, ok := got.(json.Number)
		if !ok {
			return false
		}
		f, err := strconv.ParseFloat(string(n), 32)
		return err == nil && float32(f) == v.(float32)
	case "float64":
		n, ok := got.(json.Number)
		if !ok {
			return false
		}
		f, err := strconv.ParseFloat(string(n), 64)
		return err == nil && f == v.(float64)
	}
	n, ok := got.(json.Number)
	return ok && string(n) == textOf(kind, v, unit)
}

func goEqual(a, b any) bool {
	if ta, ok := a.(time.Time); ok {
		tb, ok := b.(time.Time)
		return ok && ta.Equal(tb)
	}
	return reflect.DeepEqual(a, b)
}

// matches reports whether an observation shows value v of the kind.
func matches(fe, kind, unit string, v any, o *Obs) bool {
	switch fe {
	case feText:
		return o.Text == textOf(kind, v, unit)
	case feHTML:
		return o.Text == htmlOf(kind, v, unit)
	case feJSON, feJSON1:
		return jsonMatches(kind, v, unit, o.JSON)
	default:
		return goEqual(rpcValue(kind, v), o.Go)
	}
}

// listMatches reports whether an observation shows the list vs.
func listMatches(fe, kind, unit string, vs []any, o *Obs) bool {
	switch fe {
	case feText:
		var parts []string
		for _, v := range vs {
			parts = append(parts, textOf(kind, v, unit))
		}
		return o.Text == strings.Join(parts, "|")
	case feHTML:
		if o.Items == nil || len(o.Items) != len(vs) {
			return false
		}
		for i, v := range vs {
			if o.Items[i] != htmlOf(kind, v, unit) {
				return false
			}
		}
		return true
	case feJSON, feJSON1:
		if kind == "uint8" {
			// encoding/json writes a []uint8 as base64
			if s, ok := o.JSON.(string); ok {
				b, err := base64.StdEncoding.DecodeString(s)
				if err != nil || len(b) != len(vs) {
					return false
				}
				for i, v := range vs {
					if b[i] != v.(uint8) {
						return false
					}
				}
				return true
			}
		}
		l, ok := o.JSON.([]any)
		if !ok || len(l) != len(vs) {
			return false
		}
		for i, v := range vs {
			if !jsonMatches(kind, v, unit, l[i]) {
				return false
			}
		}
		return true
	default:
		rv := reflect.ValueOf(o.Go)
		if !rv.IsValid() || rv.Kind() != reflect.Slice || rv.Len() != len(vs) {
			return false
		}
		if rv.Type().Elem() != reflect.TypeOf(rpcValue(kind, reflect.Zero(goType(kind)).Interface())) {
			return false
		}
		for i, v := range vs {
			if !goEqual(rpcValue(kind, v), rv.Index(i).Interface()) {
				return false
			}
		}
		return true
	}
}

// cell is a registered variable or callback with a settable value.
type cell struct {
	kind string
	fn   bool
	ptr  reflect.Value // for variables
	val  any           // current value
	hook func() any    // for callbacks: called on evaluation, may return an override
}

func newCell(kind string, fn bool, v any) *cell {
	x := &cell{kind: kind, fn: fn}
	if !fn {
		x.ptr = reflect.New(goType(kind))
	}
	x.set(v)
	return x
}

func (x *cell) set(v any) {
	x.val = v
	if !x.fn {
		x.ptr.Elem().Set(reflect.ValueOf(v))
	}
}

// spec is what is passed to RegisterMetric.
func (x *cell) spec() any {
	if !x.fn {
		return x.ptr.Interface()
	}
	t := reflect.FuncOf(nil, []reflect.Type{goType(x.kind)}, false)
	return reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value {
		v := x.val
		if x.hook != nil {
			if h := x.hook(); h != nil {
				v = h
			}
		}
		return []reflect.Value{reflect.ValueOf(v)}
	}).Interface()
}

// verVal encodes a version number in a value of the kind. Version -1 is the
// state in the middle of an update; 0 is the state before any update.
func verVal(kind string, ver, salt int) any {
	n := ver*7 + salt%5
	if ver < 0 {
		n = -77
	}
	switch kind {
	case "bool":
		return ver%2 == 0
	case "int":
		return n * 1003
	case "int8":
		return int8(ver)
	case "int16":
		return int16(n)
	case "int32":
		return int32(n) * 1001
	case "int64":
		return int64(n) * 1234567
	case "uint":
		return uint(n+100) * 1003
	case "uint8":
		return uint8(ver + 1)
	case "uint16":
		return uint16(n + 100)
	case "uint32":
		return uint32(n+100) * 1001
	case "uint64":
		return uint64(n+100) * 1234567
	case "float32":
		return float32(n) * 0.25
	case "float64":
		return float64(n) * 1.5
	case "string":
		return fmt.Sprintf("v%d", n)
	case "time":
		return time.Unix(1400000000+int64(n), int64(n+80)*1000)
	case "ptime":
		t := time.Unix(1300000000+int64(n), 0)
		return &t
	case "duration":
		return time.Duration(n+100) * time.Second
	}
	panic("harness: kind " + kind)
}

// randVal draws an arbitrary value of the kind, with extremes.
func randVal(r *sim.Rand, kind string) any {
	t := goType(kind)
	v := reflect.New(t).Elem()
	switch kind {
	case "bool":
		v.SetBool(r.P(1, 2))
	case "int", "int8", "int16", "int32", "int64":
		bits := uint(t.Bits())
		var n int64
		switch r.Intn(5) {
		case 0:
			n = int64(-1) << (bits - 1)
		case 1:
			n = int64(uint64(1)<<(bits-1) - 1)
		case 2:
			n = int64(r.Intn(200)) - 100
		case 3:
			n = pick(r, int64(999), 1000, 1001, 1023, 1024, -999, -1000, -1024, 999999, 1048576, 9994, 9995, 99949, 99950, 999950)
		default:
			n = int64(r.U64()) >> uint(r.Intn(63))
		}
		v.SetInt(n << (64 - bits) >> (64 - bits))
	case "uint", "uint8", "uint16", "uint32", "uint64":
		bits := uint(t.Bits())
		var n uint64
		switch r.Intn(4) {
		case 0:
			n = math.MaxUint64
		case 1:
			n = uint64(r.Intn(200))
		case 2:
			n = pick(r, uint64(0), 999, 1000, 1023, 1024, 9995, 10234, 99950, 1048576, 1<<40)
		default:
			n = r.U64() >> uint(r.Intn(64))
		}
		v.SetUint(n << (64 - bits) >> (64 - bits))
	case "float32":
		v.SetFloat(float64(float32(randFloat(r))))
		if math.IsInf(v.Float(), 0) {
			v.SetFloat(1.5)
		}
	case "float64":
		v.SetFloat(randFloat(r))
	case "string":
		v.SetString(pick(r, "", "plain", "two words", `quote " and \ backslash`, "<b>&amp; html 'x'</b>", "unicode μ世界", "a|b", "100%", "{{.}}", "+plus+"))
	case "time":
		v.Set(reflect.ValueOf(randTime(r)))
	case "ptime":
		if r.P(1, 5) {
			return (*time.Time)(nil)
		}
		tm := randTime(r)
		return &tm
	case "duration":
		switch r.Intn(6) {
		case 0:
			v.SetInt(int64(r.Intn(20000)))
		case 1:
			v.SetInt(int64(r.U64() % 1e10))
		case 2:
			v.SetInt(-int64(r.U64() % 1e12))
		case 3:
			v.SetInt(pick(r, int64(0), 9999, 10000, 9999999, 10000000, 999999999, 1000000000, 59999999999, 60000000000, 3599999999999, 3600000000000, 86399999999999, 86400000000000, math.MaxInt64, math.MinInt64))
		default:
			v.SetInt(int64(r.U64()) >> uint(r.Intn(40)))
		}
	}
	return v.Interface()
}

func randFloat(r *sim.Rand) float64 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return float64(r.Intn(2000)-1000) / 8
	case 2:
		return math.MaxFloat32 * float64(r.Intn(100)) / 100
	case 3:
		return math.SmallestNonzeroFloat32 * float64(r.Intn(1000))
	case 4:
		return -float64(r.U64()>>12) / 3
	default:
		return math.Float64frombits(r.U64()&^(uint64(0x7ff)<<52) | uint64(900+r.Intn(240))<<52)
	}
}

func randTime(r *sim.Rand) time.Time {
	switch r.Intn(6) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(0, 0)
	case 2:
		if r.P(1, 3) {
			return time.Unix(-int64(r.Intn(2)), pick(r, int64(1), 999999999, 500000000))
		}
		return time.Unix(-int64(r.Intn(1000000000)), int64(r.Intn(1000000000)))
	case 3:
		return time.Unix(int64(r.Intn(2000000000)), int64(r.Intn(1000))*1000000)
	default:
		return time.Unix(int64(r.U64()%250000000000), int64(r.Intn(1000000000))).In(time.FixedZone("X", 3600*(r.Intn(20)-10)))
	}
}
