From 9a8723cc0194332d4b127493a13f2d641489e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:10 +0000
Subject: [PATCH 1/9] fix: hold the group session while a single metric is
 rendered as text

The text handler read the variable after the session it was evaluated in
had already been closed, so another request's update could run in between
and the response could show the middle of that update.
---
 go/tricorder/html.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/html.go b/go/tricorder/html.go
index 6849d9d..e68e876 100644
--- a/go/tricorder/html.go
+++ b/go/tricorder/html.go
@@ -267,7 +267,9 @@ func textEmitDirectoryOrMetric(
 	if m == nil {
 		return d.GetAllMetrics(&textCollector{W: w}, nil)
 	}
-	return textEmitMetric(m, nil, w)
+	s := newSession()
+	defer s.Close()
+	return textEmitMetric(m, s, w)
 }
 
 func setSecurityHeaders(w http.ResponseWriter) {
-- 
2.43.0


From fe1fc0b4f875589e55258ece5fc11e737e4b84a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:00 +0000
Subject: [PATCH 2/9] fix: report generation and kind of an empty distribution

The snapshot of a distribution without values left out the generation and
the non-cumulative flag, so removing the last value made the generation
fall back to 0 and the distribution look cumulative.
---
 go/tricorder/metric.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 38739b3..ff71684 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -572,9 +572,11 @@ func (d *distribution) Snapshot() *snapshot {
 	}
 	if d.count == 0 {
 		return &snapshot{
-			Count:     d.count,
-			Breakdown: bdn,
-			TimeStamp: d.timeStamp,
+			Count:           d.count,
+			Generation:      d.generation,
+			IsNotCumulative: d.isNotCumulative,
+			Breakdown:       bdn,
+			TimeStamp:       d.timeStamp,
 		}
 	}
 	return &snapshot{
-- 
2.43.0


From 830b1373b01b9608cabcfe7c0c6d0a2144d9b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 3/9] fix: leave a distribution unchanged when a bad old value
 is rejected

Update and Remove panic when no value of the old value's range exists, but
had already moved the timestamp and, for Update, counted the new value, so
the range counts no longer added up to the count.
---
 go/tricorder/metric.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index ff71684..cc11222 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -460,11 +460,12 @@ func (d *distribution) update(
 	if d.count == 0 {
 		panic("Can't call update on an empty distribution.")
 	}
-	d.timeStamp = ts
 	oldIdx := findDistributionIndex(d.pieces, oldValue)
 	newIdx := findDistributionIndex(d.pieces, newValue)
-	d.counts[newIdx]++
+	// This panics if oldValue doesn't exist, so change nothing before it.
 	decrementCount(&d.counts[oldIdx])
+	d.counts[newIdx]++
+	d.timeStamp = ts
 	d.total += (newValue - oldValue)
 	if newValue < d.min {
 		d.min = newValue
@@ -482,9 +483,10 @@ func (d *distribution) remove(
 	if d.count == 0 {
 		panic("Can't call remove on an empty distribution.")
 	}
-	d.timeStamp = ts
 	idx := findDistributionIndex(d.pieces, valueToBeRemoved)
+	// This panics if the value doesn't exist, so change nothing before it.
 	decrementCount(&d.counts[idx])
+	d.timeStamp = ts
 	d.total -= valueToBeRemoved
 	d.count--
 	d.generation++
-- 
2.43.0


From 6e7a6e330403a208facbac087ae52252f35775b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:33 +0000
Subject: [PATCH 4/9] fix: read the clock of a distribution change while
 holding its lock

The time of a change was read before the distribution was locked, so of
two concurrent changes the later one could carry the earlier time and the
reported timestamp went back while the generation grew.
---
 go/tricorder/metric.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index cc11222..d7776e1 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -394,7 +394,9 @@ func (d *distribution) Count() uint64 {
 }
 
 func (d *distribution) Add(value interface{}) {
-	d.AddWithTs(value, time.Now())
+	d.lock.Lock()
+	defer d.lock.Unlock()
+	d.add(d.valueToFloat(value), time.Now())
 }
 
 func (d *distribution) AddWithTs(value interface{}, ts time.Time) {
@@ -404,7 +406,12 @@ func (d *distribution) AddWithTs(value interface{}, ts time.Time) {
 }
 
 func (d *distribution) Update(oldValue, newValue interface{}) {
-	d.UpdateWithTs(oldValue, newValue, time.Now())
+	d.lock.Lock()
+	defer d.lock.Unlock()
+	d.update(
+		d.valueToFloat(oldValue),
+		d.valueToFloat(newValue),
+		time.Now())
 }
 
 func (d *distribution) UpdateWithTs(
@@ -418,7 +425,9 @@ func (d *distribution) UpdateWithTs(
 }
 
 func (d *distribution) Remove(valueToBeRemoved interface{}) {
-	d.RemoveWithTs(valueToBeRemoved, time.Now())
+	d.lock.Lock()
+	defer d.lock.Unlock()
+	d.remove(d.valueToFloat(valueToBeRemoved), time.Now())
 }
 
 func (d *distribution) RemoveWithTs(
-- 
2.43.0


From 3d0ddb600a06b3d16833718df974320c3549e209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:44 +0000
Subject: [PATCH 5/9] fix: escape directory names in the links of the HTML
 listing

---
 go/tricorder/html.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/html.go b/go/tricorder/html.go
index e68e876..5afb9f9 100644
--- a/go/tricorder/html.go
+++ b/go/tricorder/html.go
@@ -7,6 +7,7 @@ import (
 	"html/template"
 	"io"
 	"net/http"
+	"net/url"
 	"regexp"
 	"strconv"
 	"strings"
@@ -142,7 +143,7 @@ func (v *htmlView) HasUnit() bool {
 }
 
 func (v *htmlView) Link(d *directory) string {
-	return htmlUrl + d.AbsPath()
+	return (&url.URL{Path: htmlUrl + d.AbsPath()}).EscapedPath()
 }
 
 func (v *htmlView) ToFloat32(f float64) float32 {
-- 
2.43.0


From a00cbe9f3a0d79f0ce8dc57c7a2fafed8b560872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:00 +0000
Subject: [PATCH 6/9] fix: convert the microseconds of CPU times as
 microseconds

---
 go/tricorder/setup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/tricorder/setup.go b/go/tricorder/setup.go
index b0a4b59..ea14d30 100644
--- a/go/tricorder/setup.go
+++ b/go/tricorder/setup.go
@@ -15,7 +15,7 @@ func getProgramArgs() string {
 }
 
 func timeValToDuration(val *wrapper.Timeval) time.Duration {
-	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Nanosecond
+	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Microsecond
 }
 
 func initDefaultMetrics() {
-- 
2.43.0


From 42f47aef62024b5882dbdaa0ffcec0f4806a17da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:00 +0000
Subject: [PATCH 7/9] fix: report the integral unshared stack size

---
 go/tricorder/wrapper/syscall_darwin.go | 1 +
 go/tricorder/wrapper/syscall_linux.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/go/tricorder/wrapper/syscall_darwin.go b/go/tricorder/wrapper/syscall_darwin.go
index 2eca0b9..831cd56 100644
--- a/go/tricorder/wrapper/syscall_darwin.go
+++ b/go/tricorder/wrapper/syscall_darwin.go
@@ -40,6 +40,7 @@ func Getrusage(who int, rusage *Rusage) error {
 	rusage.Maxrss = int64(syscallRusage.Maxrss)
 	rusage.Ixrss = int64(syscallRusage.Ixrss)
 	rusage.Idrss = int64(syscallRusage.Idrss)
+	rusage.Isrss = int64(syscallRusage.Isrss)
 	rusage.Minflt = int64(syscallRusage.Minflt)
 	rusage.Majflt = int64(syscallRusage.Majflt)
 	rusage.Nswap = int64(syscallRusage.Nswap)
diff --git a/go/tricorder/wrapper/syscall_linux.go b/go/tricorder/wrapper/syscall_linux.go
index 500b0e6..b5ffd59 100644
--- a/go/tricorder/wrapper/syscall_linux.go
+++ b/go/tricorder/wrapper/syscall_linux.go
@@ -40,6 +40,7 @@ func Getrusage(who int, rusage *Rusage) error {
 	rusage.Maxrss = int64(syscallRusage.Maxrss) << 10
 	rusage.Ixrss = int64(syscallRusage.Ixrss) << 10
 	rusage.Idrss = int64(syscallRusage.Idrss) << 10
+	rusage.Isrss = int64(syscallRusage.Isrss) << 10
 	rusage.Minflt = int64(syscallRusage.Minflt)
 	rusage.Majflt = int64(syscallRusage.Majflt)
 	rusage.Nswap = int64(syscallRusage.Nswap)
-- 
2.43.0


From 5761f165b541ca0bc95d0d2309c8a9ac51345f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:06 +0000
Subject: [PATCH 8/9] fix: do not gzip for a client that refuses gzip with a
 weight of 0

---
 go/tricorder/http.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/http.go b/go/tricorder/http.go
index 9eced71..25f157a 100644
--- a/go/tricorder/http.go
+++ b/go/tricorder/http.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"net/http"
 	"os"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -62,8 +63,30 @@ type gzipHandler struct {
 	H http.Handler
 }
 
+// acceptsGzip returns true if acceptEncoding lists gzip with a weight other
+// than 0.
+func acceptsGzip(acceptEncoding string) bool {
+	for _, coding := range strings.Split(acceptEncoding, ",") {
+		parts := strings.Split(coding, ";")
+		switch strings.ToLower(strings.TrimSpace(parts[0])) {
+		case "gzip", "x-gzip":
+		default:
+			continue
+		}
+		for _, param := range parts[1:] {
+			param = strings.ToLower(strings.TrimSpace(param))
+			if strings.HasPrefix(param, "q=") {
+				weight, err := strconv.ParseFloat(param[2:], 64)
+				return err != nil || weight > 0
+			}
+		}
+		return true
+	}
+	return false
+}
+
 func (h gzipHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	if !strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
+	if !acceptsGzip(r.Header.Get("Accept-Encoding")) {
 		h.H.ServeHTTP(w, r)
 		return
 	}
-- 
2.43.0


From 4deeabda3a32c901337536b6a46e4e400ae3394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:47 +0000
Subject: [PATCH 9/9] fix: leave values JSON cannot represent out of JSON
 listings

---
 go/tricorder/json.go | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/json.go b/go/tricorder/json.go
index 1a5ae16..75c1b38 100644
--- a/go/tricorder/json.go
+++ b/go/tricorder/json.go
@@ -4,7 +4,9 @@ import (
 	"bytes"
 	"encoding/json"
 	"github.com/Symantec/tricorder/go/tricorder/messages"
+	"math"
 	"net/http"
+	"reflect"
 )
 
 var (
@@ -20,10 +22,47 @@ func jsonAsMetric(m *metric, s *session) *messages.Metric {
 type jsonMetricsCollector messages.MetricList
 
 func (c *jsonMetricsCollector) Collect(m *metric, s *session) (err error) {
-	*c = append(*c, jsonAsMetric(m, s))
+	jsonMetric := jsonAsMetric(m, s)
+	if hasInfNaN(jsonMetric.Value) {
+		return nil
+	}
+	*c = append(*c, jsonMetric)
 	return nil
 }
 
+func isInfNaN(floats ...float64) bool {
+	for _, f := range floats {
+		if math.IsNaN(f) || math.IsInf(f, 0) {
+			return true
+		}
+	}
+	return false
+}
+
+// hasInfNaN returns true if value contains a float that JSON cannot represent.
+func hasInfNaN(value interface{}) bool {
+	if d, ok := value.(*messages.Distribution); ok {
+		for _, r := range d.Ranges {
+			if isInfNaN(r.Lower, r.Upper) {
+				return true
+			}
+		}
+		return isInfNaN(d.Min, d.Max, d.Average, d.Median, d.Sum)
+	}
+	v := reflect.ValueOf(value)
+	switch v.Kind() {
+	case reflect.Float32, reflect.Float64:
+		return isInfNaN(v.Float())
+	case reflect.Slice:
+		for i := 0; i < v.Len(); i++ {
+			if hasInfNaN(v.Index(i).Interface()) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func jsonSetUpHeaders(h http.Header) {
 	h.Set("Content-Type", "application/json")
 	h.Set("X-Tricorder-Media-Type", "tricorder.v1")
-- 
2.43.0

