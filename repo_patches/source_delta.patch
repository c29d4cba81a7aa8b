From 343020493fa4a1cd5f6e25be2b0eff35fb6c5800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:56 +0000
Subject: [PATCH 01/71] fix: LRU cache hits refresh the entry they hit, not a
 copy of it

---
 utils/caches/lru.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/caches/lru.go b/utils/caches/lru.go
index dd3e596..085fff7 100644
--- a/utils/caches/lru.go
+++ b/utils/caches/lru.go
@@ -64,8 +64,8 @@ func (this *LRU[K, V]) Get(c ctx.C, k K) (V, HitMiss, error) {
 
 	i, exists := this.heap.index[k]
 	if exists {
+		this.heap.list[i].last = time.Now()
 		entry := this.heap.list[i]
-		entry.last = time.Now()
 		heap.Fix(this.heap, i)
 		return entry.val, HIT, nil
 	}
-- 
2.43.0


From 918d91a2f10ca4562368987e50d1ec63bd7ab192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:56 +0000
Subject: [PATCH 02/71] fix: LRU.String takes the lock, as it reads what
 concurrent lookups write

---
 utils/caches/lru.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/caches/lru.go b/utils/caches/lru.go
index 085fff7..e05d4ca 100644
--- a/utils/caches/lru.go
+++ b/utils/caches/lru.go
@@ -98,6 +98,9 @@ func (this *LRU[K, V]) Get(c ctx.C, k K) (V, HitMiss, error) {
 }
 
 func (this *LRU[K, V]) String() string {
+	this.l.Lock()
+	defer this.l.Unlock()
+
 	if len(this.heap.list) == 0 {
 		return fmt.Sprintf("LRU{%d/%d, empty}", this.curSize, this.MaxSize)
 	}
-- 
2.43.0


From a1076dbf2ed4c05e0712ebfc9ea4fe23a49dabbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 03/71] fix: a request that created the cache entry reuses a
 fetch which overtook it

---
 utils/caches/request.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/caches/request.go b/utils/caches/request.go
index 227c5c3..23d21a4 100644
--- a/utils/caches/request.go
+++ b/utils/caches/request.go
@@ -44,8 +44,9 @@ func (this *RequestCache[K, V]) Request(c ctx.C, key K) (V, HitMiss, error) {
 	defer e.m.Unlock()
 
 	//log.Debugf(c, "ReqCache[%v] %v expired %v ago", key, hit, time.Since(e.expire))
-	// not a miss, and not expired
-	if hit != MISS && time.Until(e.expire) >= 0 {
+	// not expired: even after a miss, someone else might have locked the new entry first and fetched it
+	// (an entry never fetched has a zero expire)
+	if time.Until(e.expire) >= 0 {
 		if e.err != nil {
 			return e.V, HIT, e.err
 		} else {
-- 
2.43.0


From f8659a9d7df1d1e24421786c4a613e28e4fed9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 04/71] fix: iterating or copying a Map which stores nil
 interfaces does not panic

---
 utils/sync/map.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/sync/map.go b/utils/sync/map.go
index 8ec73ce..79b8c6e 100644
--- a/utils/sync/map.go
+++ b/utils/sync/map.go
@@ -91,7 +91,9 @@ func (this *Map[K, V]) Store(key K, val V) {
 
 func (this *Map[K, V]) Range(f func(key K, val V) bool) {
 	this.m.Range(func(key, val any) bool {
-		return f(key.(K), val.(V))
+		k, _ := key.(K) // a nil interface is the zero value
+		v, _ := val.(V)
+		return f(k, v)
 	})
 }
 
@@ -99,7 +101,9 @@ func (this *Map[K, V]) Range(f func(key K, val V) bool) {
 func (this *Map[K, V]) RangeErr(f func(key K, val V) error) error {
 	var err error
 	this.m.Range(func(key, val any) bool {
-		err = f(key.(K), val.(V))
+		k, _ := key.(K)
+		v, _ := val.(V)
+		err = f(k, v)
 		return err == nil
 	})
 	return err
-- 
2.43.0


From 7b0772bae386b64ed2db2945bf72b30918bd87bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 05/71] fix: printing an histogram series which is being
 created does not panic

---
 utils/prom/histogram.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index e16d811..a99cba7 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -74,6 +74,9 @@ func (this *Histogram) Print(name string, w io.Writer) (err error) {
 func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (err error) {
 	this.m.Lock()
 	defer this.m.Unlock()
+	for len(this.buckets) < len(le) { // just created, not observed yet
+		this.buckets = append(this.buckets, 0)
+	}
 	if labels == "" {
 		for i, le := range le {
 			b := this.buckets[i]
-- 
2.43.0


From 9a592ae100ce278a256c78452735f9af4469c130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 06/71] fix: Counter.Print reads the sum under its lock

---
 utils/prom/counter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/prom/counter.go b/utils/prom/counter.go
index caf75da..837fd73 100644
--- a/utils/prom/counter.go
+++ b/utils/prom/counter.go
@@ -31,6 +31,12 @@ func (this *counter) observe(val float64) {
 	this.sum += val
 }
 
+func (this *counter) value() float64 {
+	this.m.Lock()
+	defer this.m.Unlock()
+	return this.sum
+}
+
 func (this *Counter) Print(w io.Writer) error {
 	first := true
 	return this.val.RangeErr(func(l string, v *counter) error {
@@ -53,10 +59,10 @@ func (this *Counter) Print(w io.Writer) error {
 			}
 		}
 		if l == "" {
-			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.sum)
+			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.value())
 			return err
 		} else {
-			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.sum)
+			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.value())
 			return err
 		}
 	})
-- 
2.43.0


From efc92b18a879857fced37f15bef7dff052cfabff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 07/71] fix: label values are escaped by the rules of the
 exposition format

---
 utils/prom/labels.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/prom/labels.go b/utils/prom/labels.go
index 66760a0..a4435f9 100644
--- a/utils/prom/labels.go
+++ b/utils/prom/labels.go
@@ -2,8 +2,12 @@ package prom
 
 import (
 	"fmt"
+	"strings"
 )
 
+// the only escapes known to the exposition format
+var escape = strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`)
+
 // returns a list of labels comma separated
 func stringify(keys []string, vals []string) string {
 	if len(keys) != len(vals) {
@@ -11,7 +15,7 @@ func stringify(keys []string, vals []string) string {
 	}
 	s := ""
 	for i := 0; i < len(keys); i++ {
-		s += fmt.Sprintf(",%s=%q", keys[i], vals[i])
+		s += fmt.Sprintf(",%s=\"%s\"", keys[i], escape.Replace(vals[i]))
 	}
 	if s == "" {
 		return ""
-- 
2.43.0


From d44c73dadd012f83c47a121ae5550163c64b0c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:56 +0000
Subject: [PATCH 08/71] fix: equal maps print the same, so filters on them do
 not match at random

---
 enc/map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/map.go b/enc/map.go
index 5c84ba2..01a140b 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -35,6 +36,7 @@ func (this Map) String() string {
 	for k, v := range this {
 		p = append(p, fmt.Sprintf("%q:%s", k, v))
 	}
+	sort.Strings(p) // same content, same string
 	return "{" + strings.Join(p, ", ") + "}"
 }
 
@@ -43,6 +45,7 @@ func (this Map) GoString() string {
 	for k, v := range this {
 		p = append(p, fmt.Sprintf("%q:%s", k, v))
 	}
+	sort.Strings(p) // same content, same string
 	return "enc.Map{" + strings.Join(p, ", ") + "}"
 }
 
-- 
2.43.0


From 9281c4ac46423603ffda23c604bb6184dbb305da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:56 +0000
Subject: [PATCH 09/71] fix: a filter without a value compares with null
 instead of panicking

---
 storage/keyvalue.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/storage/keyvalue.go b/storage/keyvalue.go
index 9fc0d51..10bcfba 100644
--- a/storage/keyvalue.go
+++ b/storage/keyvalue.go
@@ -100,12 +100,16 @@ func (this Filter) Check(c ctx.C, val enc.Map) (bool, error) {
 	if v == nil {
 		v = enc.Nil{}
 	}
-	log.Debugf(c, "Check(%q %q %v)", v, this.Cmp, this.Val)
+	expect := this.Val
+	if expect == nil {
+		expect = enc.Nil{}
+	}
+	log.Debugf(c, "Check(%q %q %v)", v, this.Cmp, expect)
 	switch this.Cmp {
 	case Equal:
-		return v.GoString() == this.Val.GoString(), nil
+		return v.GoString() == expect.GoString(), nil
 	case NotEqual:
-		return v.GoString() != this.Val.GoString(), nil
+		return v.GoString() != expect.GoString(), nil
 	default:
 		return false, ctx.NewErrorf(c, "unsupported cmp operator: %q", this.Cmp)
 	}
-- 
2.43.0


From e14d00dfaba2bb54752f4c983c06f10bc522e4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 10/71] fix: spans under one tracked context get different
 identifiers

---
 ctx/span.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctx/span.go b/ctx/span.go
index 401c379..ee68440 100644
--- a/ctx/span.go
+++ b/ctx/span.go
@@ -18,7 +18,7 @@ func WithTracking(c C, suggest string) C {
 	if suggest == "" {
 		suggest = uuid.NewString()
 	}
-	return trackingCtx{
+	return &trackingCtx{
 		C:    WithTag(c, "tracking-id", suggest),
 		ID:   suggest,
 		Last: 0,
@@ -38,7 +38,7 @@ func GetTracking(c C) string {
 
 type trackingNext struct{}
 
-func (c trackingCtx) Value(k any) any {
+func (c *trackingCtx) Value(k any) any {
 	switch k.(type) {
 	case trackingNext:
 		step := atomic.AddInt32(&c.Last, 1)
-- 
2.43.0


From 717484119e6ab92d37f1c8c110b4be44b10c1541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:07 +0000
Subject: [PATCH 11/71] fix: a detached context does not report the cause its
 parent was cancelled for

---
 ctx/detach.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ctx/detach.go b/ctx/detach.go
index a1a9efb..8899d6f 100644
--- a/ctx/detach.go
+++ b/ctx/detach.go
@@ -1,10 +1,13 @@
 package ctx
 
-import "time"
+import (
+	"context"
+	"time"
+)
 
 // create a new context which inherits all the Values from the parent, but does NOT propagate cancels or timeouts
 func Detach(c C) C {
-	return detachedC{c}
+	return detachedC{context.WithoutCancel(c)} // or context.Cause() would find the parent's
 }
 
 type detachedC struct {
-- 
2.43.0


From 86187d6eda4adb1693941dfb7b27019cf8a74357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 12/71] fix: errors.Is between two ctx errors is true only for
 the same one

---
 ctx/error.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ctx/error.go b/ctx/error.go
index 641767d..c6cd99c 100644
--- a/ctx/error.go
+++ b/ctx/error.go
@@ -39,14 +39,24 @@ func (err Error) Unwrap() error {
 }
 
 func (this Error) Is(err error) bool {
-	switch err.(type) {
-	case *Error, Error:
-		return true
+	switch err := err.(type) {
+	case *Error:
+		return this.is(*err)
+	case Error:
+		return this.is(err)
 	default:
 		return errors.Is(this.Err, err)
 	}
 }
 
+// the empty Error matches any Error, any other one only itself (each has its own stack)
+func (this Error) is(err Error) bool {
+	if err.Err == nil {
+		return true
+	}
+	return len(this.Stack) > 0 && len(err.Stack) > 0 && &this.Stack[0] == &err.Stack[0]
+}
+
 func maybeWrap(c C, err error) error {
 	if errors.Is(err, Error{}) {
 		return err // already wrapped
-- 
2.43.0


From 57d62ee15ab2afa954b4d6ec59ae08a1b0091e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 13/71] fix: logging does not replace the arguments in the
 slice of the caller

---
 ctx/log/log.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index ea64de9..1c503de 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -176,6 +176,7 @@ func extractConfig(c ctx.C) *config {
 
 func FormatMsg(c ctx.C, tags *Tags, f string, args ...any) string {
 	errs := []map[string]any{}
+	args = append([]any(nil), args...) // the original belongs to the caller
 	for i := 0; i < len(args); i++ {
 		switch arg := args[i].(type) {
 		case Loggable:
-- 
2.43.0


From bf9eba3033200400c03d1a71d7cc0437a722514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 14/71] fix: a tag named level or msg is logged as any other,
 instead of panicking or being renamed

---
 ctx/log/log.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index 1c503de..c8fc0fe 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -94,6 +94,9 @@ func WithHelper(c ctx.C, h func()) ctx.C {
 func NewDefaultSlogLogger(out io.Writer) *slog.Logger {
 	DefaultLoggerLevel.Set(slog.LevelDebug)
 	return slog.New(slog.NewJSONHandler(out, &slog.HandlerOptions{Level: DefaultLoggerLevel, ReplaceAttr: func(groups []string, a slog.Attr) slog.Attr {
+		if len(groups) > 0 {
+			return a // a tag, whatever its name
+		}
 		switch a.Key {
 		case slog.LevelKey:
 			level := a.Value.Any().(slog.Level)
-- 
2.43.0


From 3645e753d353b89700d1e635c00c06f18438c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 15/71] fix: configuring the logger or helper of a derived
 context leaves its parent alone

---
 ctx/log/log.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index c8fc0fe..7969af6 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -171,7 +171,8 @@ func withConfig(c ctx.C, conf *config) ctx.C {
 func extractConfig(c ctx.C) *config {
 	if c != nil {
 		if conf, ok := c.Value(configKey{}).(*config); ok {
-			return conf
+			conf := *conf // it is shared with the parent context
+			return &conf
 		}
 	}
 	return &config{}
-- 
2.43.0


From 8251e35e1e4b5ca1c5b84f1742bbed614bb50545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:26 +0000
Subject: [PATCH 16/71] fix: closing a BufferedRWC wakes up the reads which are
 blocked

---
 test/io.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/test/io.go b/test/io.go
index 863f2b2..b4acb86 100644
--- a/test/io.go
+++ b/test/io.go
@@ -104,5 +104,6 @@ func (this *BufferedRWC) Close() error {
 		return io.ErrClosedPipe
 	}
 	this.readClosed = true
+	this.cond.Broadcast() // readers are waiting
 	return nil
 }
-- 
2.43.0


From ec4ef6927c1baabb5c9fd058e11730434c6f83b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:29 +0000
Subject: [PATCH 17/71] fix: ReadAll keeps the bytes which come together with
 the end or an error

---
 utils/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/io.go b/utils/io.go
index c822cb1..f2c03c8 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -21,11 +21,11 @@ func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 		buf := make([]byte, 8192)
 		for c.Err() == nil {
 			ct, err := r.Read(buf)
+			_, _ = out.Write(buf[0:ct])
 			if err != nil {
 				ch <- err
 				return
 			}
-			_, _ = out.Write(buf[0:ct])
 			//log.Printf("read %d bytes...", ct)
 		}
 	}()
-- 
2.43.0


From c13ea91648a9cae1418f04c1ebc412299231e387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:30 +0000
Subject: [PATCH 18/71] fix: ReadAll does not race with its reader when the
 context ends

---
 utils/io.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/io.go b/utils/io.go
index f2c03c8..9fda9ba 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"bytes"
 	"io"
+	"sync"
 
 	"github.com/Aize-Public/forego/ctx"
 )
@@ -12,6 +13,7 @@ import (
 // If the close function is passed, it will be called when read is exhausted.
 func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 	out := bytes.Buffer{}
+	var m sync.Mutex // after a timeout, the go-routine may still be writing
 	ch := make(chan error, 1)
 	if close != nil {
 		defer close() // nolint
@@ -21,7 +23,9 @@ func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 		buf := make([]byte, 8192)
 		for c.Err() == nil {
 			ct, err := r.Read(buf)
+			m.Lock()
 			_, _ = out.Write(buf[0:ct])
+			m.Unlock()
 			if err != nil {
 				ch <- err
 				return
@@ -31,7 +35,9 @@ func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 	}()
 	select {
 	case <-c.Done():
-		return out.Bytes(), ctx.NewErrorf(c, "timeout: %w", c.Err())
+		m.Lock()
+		defer m.Unlock()
+		return bytes.Clone(out.Bytes()), ctx.NewErrorf(c, "timeout: %w", c.Err())
 	case err := <-ch:
 		if err == io.EOF {
 			return out.Bytes(), nil
-- 
2.43.0


From a46dd6cb650f567ae892e2a55c9321e9a41e6943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:48 +0000
Subject: [PATCH 19/71] Revert the change of test/io.go

---
 test/io.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/test/io.go b/test/io.go
index b4acb86..863f2b2 100644
--- a/test/io.go
+++ b/test/io.go
@@ -104,6 +104,5 @@ func (this *BufferedRWC) Close() error {
 		return io.ErrClosedPipe
 	}
 	this.readClosed = true
-	this.cond.Broadcast() // readers are waiting
 	return nil
 }
-- 
2.43.0


From dc3a20c1291210e9e8db8b9e4bd6b0917d567242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 20/71] fix: config reports a tagged field which is not
 exported

---
 config/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/config.go b/config/config.go
index 0e98501..e93870e 100644
--- a/config/config.go
+++ b/config/config.go
@@ -56,6 +56,9 @@ func From[T any](c ctx.C, cfg T, f func(string) string) (T, error) {
 			val = defVal
 		}
 		fv := v.Field(i)
+		if !fv.CanSet() {
+			return cfg, ctx.NewErrorf(c, "can't set the unexported field %s for %q", ft.Name, key)
+		}
 		err := unmarshalText(c, fv, key, val)
 		if err != nil {
 			return cfg, err
-- 
2.43.0


From cc7900ab7aeab56634ac89566d4dc146c89ba008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 21/71] fix: config converts named bool and int types

---
 config/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index e93870e..b019e09 100644
--- a/config/config.go
+++ b/config/config.go
@@ -99,13 +99,13 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 		default:
 			return ctx.NewErrorf(nil, "can't convert to boobool field %s: %q", name, val)
 		}
-		dest.Set(reflect.ValueOf(v))
+		dest.SetBool(v)
 	case reflect.Int:
 		i, err := strconv.Atoi(val)
 		if err != nil {
 			return ctx.NewErrorf(nil, "can't convert to int field %s: %q", name, val)
 		}
-		dest.Set(reflect.ValueOf(i))
+		dest.SetInt(int64(i))
 	case reflect.String:
 		v := reflect.ValueOf(val).Convert(dest.Type())
 		dest.Set(v)
-- 
2.43.0


From b93f1a98789273e2b50a575ede142b8e15af336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 22/71] fix: config replaces the value of slices and maps
 instead of adding to it

---
 config/config.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/config/config.go b/config/config.go
index b019e09..9982432 100644
--- a/config/config.go
+++ b/config/config.go
@@ -110,9 +110,9 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 		v := reflect.ValueOf(val).Convert(dest.Type())
 		dest.Set(v)
 	case reflect.Slice:
+		x := reflect.Zero(dest.Type())
 		if val != "" {
 			parts := strings.Split(val, ",")
-			x := dest
 			for _, el := range parts {
 				v := reflect.Indirect(reflect.New(dest.Type().Elem()))
 				err := unmarshalText(c, v, name+"[]", el)
@@ -121,12 +121,13 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 				}
 				x = reflect.Append(x, v)
 			}
-			dest.Set(x)
 		}
+		dest.Set(x)
 
 	case reflect.Map:
+		m := reflect.Zero(dest.Type())
 		if val != "" {
-			m := reflect.MakeMap(dest.Type())
+			m = reflect.MakeMap(dest.Type())
 			parts := strings.Split(val, ",")
 			for _, el := range parts {
 				key, val, _ := strings.Cut(el, "=")
@@ -137,8 +138,8 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 				}
 				m.SetMapIndex(reflect.ValueOf(key), v)
 			}
-			dest.Set(m)
 		}
+		dest.Set(m)
 	default:
 		return ctx.NewErrorf(nil, "unsupported field type: %T", v)
 	}
-- 
2.43.0


From c4aa2bc093b73ddfa4e6931033c509b010a72751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 23/71] fix: config converts or refuses the keys of maps

---
 config/config.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 9982432..f1cfe91 100644
--- a/config/config.go
+++ b/config/config.go
@@ -125,6 +125,9 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 		dest.Set(x)
 
 	case reflect.Map:
+		if dest.Type().Key().Kind() != reflect.String {
+			return ctx.NewErrorf(nil, "unsupported key type for field %s: %T", name, v)
+		}
 		m := reflect.Zero(dest.Type())
 		if val != "" {
 			m = reflect.MakeMap(dest.Type())
@@ -136,7 +139,7 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 				if err != nil {
 					return err
 				}
-				m.SetMapIndex(reflect.ValueOf(key), v)
+				m.SetMapIndex(reflect.ValueOf(key).Convert(dest.Type().Key()), v)
 			}
 		}
 		dest.Set(m)
-- 
2.43.0


From 46884fbced0c1544c6c98f93f67d07b512047fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:06 +0000
Subject: [PATCH 24/71] fix: shutdown holds may be taken and released while
 others wait, and released twice

A WaitGroup panics when it is reused while Wait returns, and when Done is called
once too often (or steals the hold of somebody else).
---
 shutdown/shutdown.go | 45 ++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/shutdown/shutdown.go b/shutdown/shutdown.go
index 2aab1ac..d8d6609 100644
--- a/shutdown/shutdown.go
+++ b/shutdown/shutdown.go
@@ -19,16 +19,21 @@ type shutter struct {
 	ch5  chan struct{}
 	once sync.Once
 	// active services holding the shutdown to complete
-	wg sync.WaitGroup
+	m     sync.Mutex
+	holds int
+	idle  chan struct{} // closed when the last hold is released
 }
 
 var shutdowner = newShutter()
 
 func newShutter() *shutter {
-	return &shutter{
-		ch:  make(chan struct{}),
-		ch5: make(chan struct{}),
+	this := &shutter{
+		ch:   make(chan struct{}),
+		ch5:  make(chan struct{}),
+		idle: make(chan struct{}),
 	}
+	close(this.idle) // no holds yet
+	return this
 }
 
 // start a global shutdown unless already started
@@ -54,25 +59,37 @@ func (this *shutter) started5Sec() <-chan struct{} {
 
 // returns a channel that will close when the shutdown has completed
 func (this *shutter) done() <-chan struct{} {
-	ch := make(chan struct{})
-	go func() {
-		this.wg.Wait()
-		close(ch)
-	}()
-	return ch
+	this.m.Lock()
+	defer this.m.Unlock()
+	return this.idle
 }
 
 // prevent the shutdown to complete until released
 func (this *shutter) hold() ReleaseFn {
-	this.wg.Add(1)
-	return this.wg.Done
+	this.m.Lock()
+	defer this.m.Unlock()
+	if this.holds == 0 {
+		this.idle = make(chan struct{})
+	}
+	this.holds++
+	var once sync.Once
+	return func() { once.Do(this.release) }
+}
+
+func (this *shutter) release() {
+	this.m.Lock()
+	defer this.m.Unlock()
+	this.holds--
+	if this.holds == 0 {
+		close(this.idle)
+	}
 }
 
 // prevents the shutdown to complete until released, and also wait for the shutdown to start
 func (this *shutter) holdAndWait() ReleaseFn {
-	this.wg.Add(1)
+	release := this.hold()
 	<-this.ch
-	return this.wg.Done
+	return release
 }
 
 // setup signals and wait for the shutdown to complete
-- 
2.43.0


From cc7fc514b05de640f6aaf73086c48ca2fc67d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:37 +0000
Subject: [PATCH 25/71] fix: compress only for clients which accept gzip as an
 encoding

---
 http/server.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/http/server.go b/http/server.go
index f5c4cc0..bfad46d 100644
--- a/http/server.go
+++ b/http/server.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"net"
 	"net/http"
+	"strconv"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -145,6 +146,23 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 	return ln.Addr().(*net.TCPAddr), <-ch
 }
 
+// true if the Accept-Encoding of the request lists gzip and doesn't exclude it with a zero weight
+func acceptsGzip(r *http.Request) bool {
+	for _, coding := range strings.Split(strings.Join(r.Header.Values("Accept-Encoding"), ","), ",") {
+		name, params, _ := strings.Cut(coding, ";")
+		if !strings.EqualFold(strings.TrimSpace(name), "gzip") {
+			continue
+		}
+		q, found := strings.CutPrefix(strings.ReplaceAll(strings.ToLower(params), " ", ""), "q=")
+		if !found {
+			return true
+		}
+		weight, err := strconv.ParseFloat(q, 64)
+		return err == nil && weight > 0
+	}
+	return false
+}
+
 // wrapper for a net listener
 type listener struct {
 	net.Listener
@@ -230,7 +248,7 @@ func (this *Server) handleRequest(path string, f func(c ctx.C, in []byte, r *htt
 		}
 
 		w.Header().Add("Content-Type", "application/json")
-		if len(out) > 16*1024 && strings.Contains(r.Header.Get("Accept"), "gzip") { // TODO ugly parsing, but good enough for now
+		if len(out) > 16*1024 && acceptsGzip(r) {
 			w.Header().Add("Content-Encoding", "gzip")
 			w2 := gzip.NewWriter(w)
 			_, err = w2.Write(out)
-- 
2.43.0


From 17ec8e624cdfa427a9a59298f6c4f39950dda0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:37 +0000
Subject: [PATCH 26/71] fix: a body which is not JSON is an error of the client

---
 http/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/api.go b/http/api.go
index 69f2ef4..4631503 100644
--- a/http/api.go
+++ b/http/api.go
@@ -33,7 +33,7 @@ func (s *Server) RegisterAPI(c ctx.C, obj Doable) (*openapi.PathItem, error) {
 		if r.Body != nil {
 			err := req.ReadFrom(c, bytes.NewBuffer(in))
 			if err != nil {
-				return nil, ctx.NewErrorf(c, "can't read request body: %v", err)
+				return nil, NewErrorf(c, 400, "can't read request body: %v", err)
 			}
 			defer r.Body.Close()
 		} else {
-- 
2.43.0


From 67325854a8071f48725948866550b8fda749ad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:37 +0000
Subject: [PATCH 27/71] fix: an http.Error without a code uses the default one

---
 http/error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/error.go b/http/error.go
index 5f82d34..6dccae2 100644
--- a/http/error.go
+++ b/http/error.go
@@ -33,7 +33,7 @@ func (this Error) Unwrap() error {
 
 func ErrorCode(err error, def int) int {
 	var e Error
-	if errors.As(err, &e) {
+	if errors.As(err, &e) && e.Code != 0 {
 		return e.Code
 	}
 	return def
-- 
2.43.0


From e658db9235462569db418444c9481699840789c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:37 +0000
Subject: [PATCH 28/71] fix: measure each request once, with the status which
 was sent

---
 http/mux.go    | 30 +++++++++++++++++++++++++++---
 http/server.go |  6 +++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/http/mux.go b/http/mux.go
index cac7611..5fc2b48 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -19,12 +19,23 @@ func (this *Server) HandleFunc(path string, h http.HandlerFunc) *openapi.Path {
 
 func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 	this.mux.HandleFunc(path, func(w http.ResponseWriter, r *http.Request) {
+		switch w := w.(type) {
+		case responseHijacker: // already measured by the server, which only needs to know the path
+			w.path = path
+			h.ServeHTTP(w, r)
+			return
+		case *response:
+			w.path = path
+			h.ServeHTTP(w, r)
+			return
+		}
+
 		t0 := time.Now()
 		c := r.Context()
 		c = ctx.WithTag(c, "ua", r.UserAgent())
 		c = ctx.WithTag(c, "path", r.URL.Path)
 
-		w2 := &response{w, 0}
+		w2 := &response{ResponseWriter: w}
 		switch w := w.(type) {
 		case http.Hijacker:
 			// if there is an hijacker, we need to be a bit clever
@@ -35,7 +46,7 @@ func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 
 		metric{
 			Method: r.Method,
-			Code:   w2.code,
+			Code:   w2.sent(),
 			Path:   path,
 		}.observe(time.Since(t0))
 	})
@@ -48,6 +59,15 @@ func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 type response struct {
 	http.ResponseWriter
 	code int
+	path string // the pattern of the handler, if known
+}
+
+// the status the client got, which is 200 unless the handler has set it
+func (r *response) sent() int {
+	if r.code == 0 {
+		return 200
+	}
+	return r.code
 }
 
 type responseHijacker struct {
@@ -75,5 +95,9 @@ func (r *response) Write(b []byte) (int, error) {
 }
 
 func (r responseHijacker) Hijack() (conn net.Conn, rw *bufio.ReadWriter, err error) {
-	return r.hijacker.Hijack()
+	conn, rw, err = r.hijacker.Hijack()
+	if err == nil && r.code == 0 {
+		r.code = 101
+	}
+	return conn, rw, err
 }
diff --git a/http/server.go b/http/server.go
index bfad46d..e29ba6e 100644
--- a/http/server.go
+++ b/http/server.go
@@ -48,7 +48,7 @@ func NewServer(c ctx.C) *Server {
 		c = ctx.WithTag(c, "ua", r.UserAgent())
 		c = ctx.WithTag(c, "path", r.URL.Path)
 
-		w2 := &response{w, 0}
+		w2 := &response{ResponseWriter: w, path: r.URL.Path} // TODO(oha) if we have templates, this won't work
 		switch w := w.(type) {
 		case http.Hijacker:
 			// if there is an hijacker, we need to be a bit clever
@@ -59,8 +59,8 @@ func NewServer(c ctx.C) *Server {
 
 		metric{
 			Method: r.Method,
-			Code:   w2.code,
-			Path:   r.URL.Path, // TODO(oha) if we have templates, this won't work
+			Code:   w2.sent(),
+			Path:   w2.path,
 		}.observe(time.Since(t0))
 	})
 
-- 
2.43.0


From 5f05783121dabeae194f95f70e790b6ff752caeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:23 +0000
Subject: [PATCH 29/71] fix: informational statuses are not the status of the
 response

---
 http/mux.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/mux.go b/http/mux.go
index 5fc2b48..071f051 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -78,6 +78,10 @@ type responseHijacker struct {
 var _ http.Hijacker = &responseHijacker{}
 
 func (r *response) WriteHeader(code int) {
+	if code >= 100 && code < 200 && code != 101 { // the final status comes later
+		r.ResponseWriter.WriteHeader(code)
+		return
+	}
 	if r.code != 0 {
 		stack := utils.Stack(1, 10)
 		log.Warnf(nil, "duplicate WriteHeader() at %s", strings.Join(stack, "\n"))
-- 
2.43.0


From a056d7e2e164be24e30572b29f21f1bf0100bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:23 +0000
Subject: [PATCH 30/71] fix: Listen holds the shutdown until its requests are
 answered, and never blocks

Serve returns as soon as the shutdown of the server starts, and without any
call to Accept when it has started already.
---
 http/server.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/http/server.go b/http/server.go
index e29ba6e..3794dbf 100644
--- a/http/server.go
+++ b/http/server.go
@@ -118,10 +118,12 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 		return nil, err
 	}
 	ch := make(chan error, 1)
+	hold := shutdown.Hold()
+	drained := make(chan struct{})
 
 	// we start the server in a goroutine
 	go func() {
-		defer shutdown.Hold().Release()
+		defer hold.Release()
 		// we wrap the listener, so the first call to Accept() will write nil to the error channel
 		l := &listener{
 			Listener: ln,
@@ -133,9 +135,15 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 		if err != nil {
 			log.Warnf(c, "listen(%q) %v", addr, err)
 		}
+		select {
+		case ch <- err: // returned before the first Accept()
+		default:
+		}
+		<-drained // Serve() returns when the shutdown of the server starts
 	}()
 
 	go func() {
+		defer close(drained)
 		<-shutdown.Started()
 		c, cf := ctx.WithTimeout(c, 30*time.Second)
 		defer cf()
@@ -143,7 +151,10 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 	}()
 
 	// blocks until either an error, or the first Accept() call happen
-	return ln.Addr().(*net.TCPAddr), <-ch
+	if err := <-ch; err != nil {
+		return nil, err
+	}
+	return ln.Addr().(*net.TCPAddr), nil
 }
 
 // true if the Accept-Encoding of the request lists gzip and doesn't exclude it with a zero weight
-- 
2.43.0


From 42447a8cb30f75cc9b6e1d7740d70d6e96ed7995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:55 +0000
Subject: [PATCH 31/71] fix: anything after a JSON document is an error

---
 enc/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enc/json.go b/enc/json.go
index 10c01fa..90dadb9 100644
--- a/enc/json.go
+++ b/enc/json.go
@@ -3,6 +3,7 @@ package enc
 import (
 	"bytes"
 	"encoding/json"
+	"io"
 
 	"github.com/Aize-Public/forego/ctx"
 )
@@ -82,5 +83,8 @@ func (this JSON) Decode(c ctx.C, data []byte) (Node, error) {
 	if err != nil {
 		return nil, ctx.NewErrorf(ctx.WithTag(c, "data", string(data)), "%w", err)
 	}
+	if _, err := dec.Token(); err != io.EOF {
+		return nil, ctx.NewErrorf(ctx.WithTag(c, "data", string(data)), "invalid data after the end of the JSON document")
+	}
 	return fromNative(obj), nil
 }
-- 
2.43.0


From 5e6209652e0b77af189b1685b541a107c3d8677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:58 +0000
Subject: [PATCH 32/71] fix: an API starts from a copy of the registered
 object, and identities never come from it

---
 api/handler.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/api/handler.go b/api/handler.go
index a2e2234..a4ac432 100644
--- a/api/handler.go
+++ b/api/handler.go
@@ -15,7 +15,7 @@ type Handler[T any] struct {
 	urls []*url.URL
 
 	auth *field
-	init map[int]reflect.Value
+	init reflect.Value // copy of the registered object, without what comes from the requests
 	in   []field
 	out  []field
 }
@@ -36,9 +36,7 @@ func NewClient[T any](c ctx.C, init T) (Client[T], error) {
 func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 	log.Debugf(c, "NewHandler[%T]", init)
 	initV := reflect.ValueOf(init)
-	this := Handler[T]{
-		init: map[int]reflect.Value{},
-	}
+	this := Handler[T]{}
 	if initV.Kind() != reflect.Pointer {
 		return this, ctx.NewErrorf(c, "expected *struct, got %T", init)
 	}
@@ -52,7 +50,8 @@ func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 		return this, ctx.NewErrorf(c, "expected *struct, got %T", init)
 	}
 
-	// TODO(oha) use init as initializer
+	this.init = reflect.New(this.typ).Elem()
+	this.init.Set(initV)
 	for i := 0; i < this.typ.NumField(); i++ {
 		ft := this.typ.Field(i)
 		tag, err := parseTags(c, ft)
@@ -76,12 +75,11 @@ func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 		if tag.url != nil {
 			this.urls = append(this.urls, tag.url)
 		}
-		if !tag.in && !tag.out && tag.url == nil {
-			v := initV.Field(f.i)
-			if !v.IsZero() {
-				this.init[f.i] = v
-				//log.Debugf(c, "init %v.%s = %#v", this.typ, f.tag.name, v)
+		if tag.in || tag.out || tag.auth {
+			if !ft.IsExported() {
+				return this, ctx.NewErrorf(c, "field is not exported: %T.%s", init, ft.Name)
 			}
+			this.init.Field(f.i).SetZero()
 		}
 	}
 
@@ -223,10 +221,7 @@ func (this Server[T]) Recv(c ctx.C, req ServerRequest) (T, error) {
 	log.Debugf(c, "Server[%T].Recv(%+v)", zero, req)
 	ptrV := reflect.New(this.typ)
 	v := ptrV.Elem()
-	for i, fv := range this.init {
-		v.Field(i).Set(fv)
-		//log.Debugf(c, "init %T.%v = %#v", this.typ, this.typ.Field(i).Name, fv)
-	}
+	v.Set(this.init)
 	for _, f := range this.in {
 		fv := v.Field(f.i)
 		err := req.Unmarshal(c, f.tag.name, fv)
-- 
2.43.0


From c63b36a60835975825c20452250b4e73ab98d4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:07 +0000
Subject: [PATCH 33/71] fix: ping, pong and unknown frames of a websocket
 client don't crash the process

---
 http/ws/ws.go | 49 ++++++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index 8b18d60..e1f3312 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -1,7 +1,6 @@
 package ws
 
 import (
-	"fmt"
 	"io"
 	"sync"
 
@@ -20,6 +19,9 @@ const ( // https://www.rfc-editor.org/rfc/rfc6455#section-7.4.1
 	UNEXP_COND    int = 1011
 )
 
+// https://www.rfc-editor.org/rfc/rfc6455#section-5.5
+const maxControlPayload = 125
+
 // low level websocket implementation
 type impl interface {
 	enc.ReadWriter
@@ -41,12 +43,19 @@ func (this *wsImpl) Write(c ctx.C, n enc.Node) error {
 	this.m.Lock()
 	defer this.m.Unlock()
 	//log.Debugf(c, "ws.write: %s", j)
-	return this.write(c, j)
+	return this.write(c, websocket.TextFrame, j)
+}
+
+// reply to a ping
+func (this *wsImpl) pong(c ctx.C, data []byte) error {
+	this.m.Lock()
+	defer this.m.Unlock()
+	return this.write(c, websocket.PongFrame, data)
 }
 
 // note this is not safe for multiple go routines
-func (this *wsImpl) write(c ctx.C, data []byte) error {
-	w, err := this.conn.NewFrameWriter(websocket.TextFrame)
+func (this *wsImpl) write(c ctx.C, frameType byte, data []byte) error {
+	w, err := this.conn.NewFrameWriter(frameType)
 	if err != nil {
 		return ctx.WrapError(c, err)
 	}
@@ -70,6 +79,7 @@ func (this *wsImpl) Read(c ctx.C) (enc.Node, error) {
 }
 
 func (this *wsImpl) read(c ctx.C) ([]byte, error) {
+NEXT:
 	r, err := this.conn.NewFrameReader()
 	if err != nil {
 		return nil, err
@@ -92,24 +102,21 @@ func (this *wsImpl) read(c ctx.C) ([]byte, error) {
 		// TODO read message and debug?
 		return nil, ctx.WrapError(c, io.EOF)
 	case websocket.PingFrame, websocket.PongFrame:
-		panic("unsupported ping-pong")
-		/*
-			            // TODO implements this
-						b := make([]byte, maxControlFramePayloadLength)
-						n, err := io.ReadFull(frame, b)
-						if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
-							return nil, err
-						}
-						io.Copy(ioutil.Discard, frame)
-						if frame.PayloadType() == PingFrame {
-							if _, err := handler.WritePong(b[:n]); err != nil {
-								return nil, err
-							}
-						}
-						return nil, nil
-		*/
+		data, err := io.ReadAll(io.LimitReader(r, maxControlPayload+1))
+		if err != nil {
+			return nil, ctx.WrapError(c, err)
+		}
+		if len(data) > maxControlPayload {
+			return nil, ctx.NewErrorf(c, "control frame is too big")
+		}
+		if r.PayloadType() == websocket.PingFrame {
+			if err := this.pong(c, data); err != nil {
+				return nil, err
+			}
+		}
+		goto NEXT
 	default:
-		panic(fmt.Sprintf("unexpected type %b", r.PayloadType()))
+		return nil, ctx.NewErrorf(c, "unexpected frame type %x", r.PayloadType())
 	}
 
 	data, err := io.ReadAll(r)
-- 
2.43.0


From b39a459ed73782bb415cfb39aea613a196a58c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:07 +0000
Subject: [PATCH 34/71] fix: closing a websocket waits for the frame being
 sent, and nothing is sent after it

---
 http/ws/ws.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index e1f3312..fa81dd2 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -2,7 +2,9 @@ package ws
 
 import (
 	"io"
+	"net"
 	"sync"
+	"time"
 
 	"github.com/Aize-Public/forego/ctx"
 	"github.com/Aize-Public/forego/ctx/log"
@@ -22,6 +24,9 @@ const ( // https://www.rfc-editor.org/rfc/rfc6455#section-7.4.1
 // https://www.rfc-editor.org/rfc/rfc6455#section-5.5
 const maxControlPayload = 125
 
+// how long to wait for a client to receive what it was sent, once the connection is closing
+const closeTimeout = 5 * time.Second
+
 // low level websocket implementation
 type impl interface {
 	enc.ReadWriter
@@ -32,8 +37,9 @@ type impl interface {
 // implementation using /x/net/websocket
 
 type wsImpl struct {
-	m    sync.Mutex
-	conn *websocket.Conn
+	m      sync.Mutex
+	closed bool // a close frame has been sent, nothing can follow
+	conn   *websocket.Conn
 }
 
 var _ impl = &wsImpl{}
@@ -55,6 +61,9 @@ func (this *wsImpl) pong(c ctx.C, data []byte) error {
 
 // note this is not safe for multiple go routines
 func (this *wsImpl) write(c ctx.C, frameType byte, data []byte) error {
+	if this.closed {
+		return ctx.WrapError(c, net.ErrClosed)
+	}
 	w, err := this.conn.NewFrameWriter(frameType)
 	if err != nil {
 		return ctx.WrapError(c, err)
@@ -128,9 +137,17 @@ NEXT:
 }
 
 func (this *wsImpl) Close(c ctx.C, status int) error {
+	// a client which is not reading can't delay this forever
+	_ = this.conn.SetWriteDeadline(time.Now().Add(closeTimeout))
+	this.m.Lock()
+	defer this.m.Unlock()
+	if this.closed {
+		return nil
+	}
+	this.closed = true
 	err := this.conn.WriteClose(status)
-	if err != nil {
-		return err
+	if e := this.conn.Close(); err == nil {
+		err = e
 	}
-	return this.conn.Close()
+	return err
 }
-- 
2.43.0


From 0b20c0202391c0b3c080b34ff3107266ad565240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:07 +0000
Subject: [PATCH 35/71] fix: cancelling a websocket ends it also when the
 client stopped reading

---
 http/ws/ws.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index fa81dd2..8c4147c 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -40,6 +40,7 @@ type wsImpl struct {
 	m      sync.Mutex
 	closed bool // a close frame has been sent, nothing can follow
 	conn   *websocket.Conn
+	watch  sync.Once
 }
 
 var _ impl = &wsImpl{}
@@ -80,6 +81,15 @@ func (this *wsImpl) write(c ctx.C, frameType byte, data []byte) error {
 }
 
 func (this *wsImpl) Read(c ctx.C) (enc.Node, error) {
+	this.watch.Do(func() {
+		if c.Done() == nil {
+			return // never cancelled
+		}
+		go func() {
+			<-c.Done() // at the latest when the request ends
+			_ = this.conn.SetWriteDeadline(time.Now().Add(closeTimeout))
+		}()
+	})
 	j, err := this.read(c)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From bc85cc6a1c942baee9e7053b8a35e1684cf47ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:07 +0000
Subject: [PATCH 36/71] fix: a client closing a websocket channel keeps the
 others open

---
 http/ws/rpc.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/http/ws/rpc.go b/http/ws/rpc.go
index 4ccb874..99d89ce 100644
--- a/http/ws/rpc.go
+++ b/http/ws/rpc.go
@@ -43,7 +43,13 @@ func (this *RpcConn) onFrame(c ctx.C, f Frame) error {
 	switch f.Type {
 	case "close":
 		// WAIT FOR STUFF?
-		return this.Close(c, 1000)
+		if f.Channel == "" {
+			return this.Close(c, 1000)
+		}
+		if ch := this.byChan.Get(f.Channel); ch != nil {
+			return ch.Close(c)
+		}
+		return ctx.NewErrorf(c, "unknown channel")
 	case "new", "open":
 		if fn := this.h.byPath.Get(f.Path); fn != nil {
 			return fn(c, this, f)
-- 
2.43.0


From 14d0e67a070b0adb08408e5d2742d82b80b6b5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:07 +0000
Subject: [PATCH 37/71] fix: a websocket channel whose Init fails is reported
 and not usable

---
 http/ws/handler.go | 11 ++++++++++-
 http/ws/reflect.go |  6 +++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/http/ws/handler.go b/http/ws/handler.go
index 195c46d..050895b 100644
--- a/http/ws/handler.go
+++ b/http/ws/handler.go
@@ -125,10 +125,19 @@ func (this *RpcHandler) Register(c ctx.C, obj any) error {
 			ID:     f.Channel,
 		}
 		conn.byChan.Store(ch.ID, ch)
-		obj := b.build(C{
+		obj, err := b.build(C{
 			C:  c,
 			ch: ch,
 		}, f.Data)
+		if err != nil {
+			log.Warnf(c, "can't open channel %q: %v", ch.ID, err)
+			conn.byChan.Delete(ch.ID)
+			return conn.Send(c, Frame{
+				Channel: ch.ID,
+				Type:    "error",
+				Data:    enc.MustMarshal(c, err.Error()),
+			})
+		}
 		log.Debugf(c, "new %+v", obj)
 		return nil
 	})
diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 7f149f6..926195b 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -20,7 +20,7 @@ type builder struct {
 }
 
 // init a new object, and bind it's methods to the channel
-func (this builder) build(c C, req enc.Node) any {
+func (this builder) build(c C, req enc.Node) (any, error) {
 	v := reflect.New(this.structType)
 	for _, c := range this.fields {
 		//log.Debugf(nil, "set %v", c.value)
@@ -30,7 +30,7 @@ func (this builder) build(c C, req enc.Node) any {
 	if this.constructor.methodName != "" {
 		err := this.constructor.call(c, v, req)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 
@@ -58,7 +58,7 @@ func (this builder) build(c C, req enc.Node) any {
 		}
 	}
 
-	return v.Interface()
+	return v.Interface(), nil
 }
 
 type method struct {
-- 
2.43.0


From aa32ba0d35b5031acd2c4b5a3ef72c30e458e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:07 +0000
Subject: [PATCH 38/71] fix: websocket objects start from a copy of the
 exported fields, taken at registration

---
 http/ws/reflect.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 926195b..8d70dee 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -104,22 +104,27 @@ func (this *builder) inspect(c ctx.C, obj any) error {
 	origVal := reflect.ValueOf(obj)
 	switch origVal.Kind() {
 	case reflect.Pointer:
+		if origVal.Type().Elem().Kind() != reflect.Struct || origVal.IsNil() {
+			return ctx.NewErrorf(c, "expected struct or *struct, got %T", obj)
+		}
+		origVal = origVal.Elem()
 	case reflect.Struct:
-		origVal = origVal.Addr() // make sure it's a pointer
 	default:
 		return ctx.NewErrorf(c, "expected struct or *struct, got %T", obj)
 	}
-	this.structType = origVal.Type().Elem()
-	ptrType := origVal.Type()
+	this.structType = origVal.Type()
+	ptrType := reflect.PointerTo(this.structType)
+	copied := reflect.New(this.structType).Elem()
+	copied.Set(origVal) // later changes to the given object are not for us
 
 	this.name = toLowerFirst(this.structType.Name())
 	log.Infof(c, "WS object %q: %v", this.name, this.structType)
 
 	// shallow copy fields value to the new obj
-	for i := 0; i < origVal.Elem().NumField(); i++ {
+	for i := 0; i < copied.NumField(); i++ {
 		i := i
-		fv := origVal.Elem().Field(i)
-		if !fv.IsZero() {
+		fv := copied.Field(i)
+		if this.structType.Field(i).IsExported() && !fv.IsZero() {
 			this.fields = append(this.fields, fieldInit{
 				index: i,
 				value: fv,
-- 
2.43.0


From 5794e83ed857b08c32024dcaa90e5feb34942c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:07 +0000
Subject: [PATCH 39/71] fix: the return frame of a failed websocket call always
 carries the failure

---
 http/ws/reflect.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 8d70dee..56b8b87 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -45,7 +45,7 @@ func (this builder) build(c C, req enc.Node) (any, error) {
 					Channel: c.ch.ID,
 					Path:    method.name,
 					Type:    "return",
-					Data:    enc.MustMarshal(c, err),
+					Data:    marshalError(c, err),
 				})
 				return ctx.NewErrorf(c, "ws[%s|%s]: %v", c.ch.ID, method.name, err)
 			}
@@ -61,6 +61,28 @@ func (this builder) build(c C, req enc.Node) (any, error) {
 	return v.Interface(), nil
 }
 
+// most errors have no exported fields, or can't be marshaled: use their text instead
+func marshalError(c ctx.C, err error) enc.Node {
+	n, e := enc.Marshal(c, err)
+	if e != nil {
+		return enc.String(err.Error())
+	}
+	switch n := n.(type) {
+	case nil, enc.Nil:
+	case enc.Pairs:
+		if len(n) > 0 {
+			return n
+		}
+	case enc.Map:
+		if len(n) > 0 {
+			return n
+		}
+	default:
+		return n
+	}
+	return enc.String(err.Error())
+}
+
 type method struct {
 	name       string
 	methodName string
-- 
2.43.0


From 5268446aa6983866f4a158b0669ed2941d8d33fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 40/71] fix: closing a websocket sends one close frame only

---
 http/ws/ws.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index 8c4147c..1bbab75 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -41,6 +41,9 @@ type wsImpl struct {
 	closed bool // a close frame has been sent, nothing can follow
 	conn   *websocket.Conn
 	watch  sync.Once
+
+	dm  sync.Mutex
+	cut bool // no more writes, see Close()
 }
 
 var _ impl = &wsImpl{}
@@ -87,7 +90,7 @@ func (this *wsImpl) Read(c ctx.C) (enc.Node, error) {
 		}
 		go func() {
 			<-c.Done() // at the latest when the request ends
-			_ = this.conn.SetWriteDeadline(time.Now().Add(closeTimeout))
+			this.writeUntil(time.Now().Add(closeTimeout), false)
 		}()
 	})
 	j, err := this.read(c)
@@ -148,7 +151,7 @@ NEXT:
 
 func (this *wsImpl) Close(c ctx.C, status int) error {
 	// a client which is not reading can't delay this forever
-	_ = this.conn.SetWriteDeadline(time.Now().Add(closeTimeout))
+	this.writeUntil(time.Now().Add(closeTimeout), false)
 	this.m.Lock()
 	defer this.m.Unlock()
 	if this.closed {
@@ -156,8 +159,18 @@ func (this *wsImpl) Close(c ctx.C, status int) error {
 	}
 	this.closed = true
 	err := this.conn.WriteClose(status)
-	if e := this.conn.Close(); err == nil {
-		err = e
-	}
+	// conn.Close() sends another close frame, make sure it can't
+	this.writeUntil(time.Unix(1, 0), true)
+	_ = this.conn.Close()
 	return err
 }
+
+// writes fail after the given time; once it's final it can't be changed
+func (this *wsImpl) writeUntil(t time.Time, final bool) {
+	this.dm.Lock()
+	defer this.dm.Unlock()
+	if !this.cut {
+		this.cut = final
+		_ = this.conn.SetWriteDeadline(t)
+	}
+}
-- 
2.43.0


From e9022bd9620d7aaa6d7cd8ca60163498b493a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:55 +0000
Subject: [PATCH 41/71] fix: a number out of the range of the integer or float
 it is unmarshaled into is an error

---
 enc/numeric.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/enc/numeric.go b/enc/numeric.go
index 7e7476d..231432e 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -3,6 +3,7 @@ package enc
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -29,8 +30,13 @@ type Integer int
 var _ Node = Integer(0)
 var _ Numeric = Integer(0)
 
-func (this Integer) Int64() (int64, error)        { return int64(this), nil }
-func (this Integer) Uint64() (uint64, error)      { return uint64(this), nil }
+func (this Integer) Int64() (int64, error) { return int64(this), nil }
+func (this Integer) Uint64() (uint64, error) {
+	if this < 0 {
+		return 0, fmt.Errorf("%v is out of range for uint64", this)
+	}
+	return uint64(this), nil
+}
 func (this Integer) Float64() (float64, error)    { return float64(this), nil }
 func (this Integer) String() string               { return strconv.FormatInt(int64(this), 10) }
 func (this Integer) GoString() string             { return fmt.Sprintf("enc.Integer{%v}", int64(this)) }
@@ -48,8 +54,18 @@ type Float float64
 var _ Node = Float(0)
 var _ Numeric = Float(0)
 
-func (this Float) Int64() (int64, error)        { return int64(this), nil }
-func (this Float) Uint64() (uint64, error)      { return uint64(this), nil }
+func (this Float) Int64() (int64, error) {
+	if !(this >= math.MinInt64 && this < math.MaxInt64) { // also false for NaN
+		return 0, fmt.Errorf("%v is out of range for int64", this)
+	}
+	return int64(this), nil
+}
+func (this Float) Uint64() (uint64, error) {
+	if !(this > -1 && this < math.MaxUint64) { // also false for NaN
+		return 0, fmt.Errorf("%v is out of range for uint64", this)
+	}
+	return uint64(this), nil
+}
 func (this Float) Float64() (float64, error)    { return float64(this), nil }
 func (this Float) String() string               { return strconv.FormatFloat(float64(this), 'g', -1, 64) }
 func (this Float) GoString() string             { return fmt.Sprintf("enc.Float{%v}", float64(this)) }
@@ -130,6 +146,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowFloat(f) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %v into %v: out of range", handler.path, this, into.Type())
+		}
 		into.SetFloat(f)
 	case reflect.Int,
 		reflect.Int8,
@@ -140,6 +159,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowInt(i) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %v into %v: out of range", handler.path, this, into.Type())
+		}
 		into.SetInt(int64(i))
 	case reflect.Uint,
 		reflect.Uint8,
@@ -150,6 +172,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowUint(i) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %v into %v: out of range", handler.path, this, into.Type())
+		}
 		into.SetUint(uint64(i))
 	case reflect.Interface:
 		v := reflect.ValueOf(this.native())
-- 
2.43.0


From f91344ef90b712fdc3629643f9711b9edf5b5a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:58 +0000
Subject: [PATCH 42/71] fix: unmarshaling into an interface which the value
 does not implement is an error, not a panic

---
 enc/enc.go     | 10 ++++++++++
 enc/list.go    |  4 +---
 enc/map.go     |  3 +--
 enc/numeric.go |  3 +--
 enc/scalar.go  |  5 ++---
 5 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/enc/enc.go b/enc/enc.go
index f422593..514e99a 100644
--- a/enc/enc.go
+++ b/enc/enc.go
@@ -58,6 +58,16 @@ func (this path) Parent() path {
 	return this
 }
 
+// put the native value of a (not null) node into an interface, if it fits
+func setNative(c ctx.C, handler Handler, from Node, into reflect.Value) error {
+	v := reflect.ValueOf(from.native())
+	if !v.Type().AssignableTo(into.Type()) {
+		return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, from, into.Type())
+	}
+	into.Set(v)
+	return nil
+}
+
 // convert json.Unmarshal(&any) to enc.Node
 func fromNative(in any) Node {
 	switch in := in.(type) {
diff --git a/enc/list.go b/enc/list.go
index ef0fe6d..5dc0d3c 100644
--- a/enc/list.go
+++ b/enc/list.go
@@ -40,9 +40,7 @@ func (this List) String() string {
 func (this List) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
 	switch into.Kind() {
 	case reflect.Interface:
-		x := this.native()
-		into.Set(reflect.ValueOf(x))
-		return nil
+		return setNative(c, handler, this, into)
 
 	case reflect.Slice:
 		slice := reflect.MakeSlice(into.Type(), len(this), len(this))
diff --git a/enc/map.go b/enc/map.go
index 01a140b..3b245d4 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -122,8 +122,7 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 		if handler.Debugf != nil {
 			handler.Debugf(c, "assign %v to %v", into.Type(), this)
 		}
-		into.Set(reflect.ValueOf(this.native()))
-		return nil
+		return setNative(c, handler, this, into)
 
 	default:
 		return ctx.NewErrorf(c, "can't expand %s %T into %v", handler.path, this, into.Type())
diff --git a/enc/numeric.go b/enc/numeric.go
index 231432e..eef3e23 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -177,8 +177,7 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		}
 		into.SetUint(uint64(i))
 	case reflect.Interface:
-		v := reflect.ValueOf(this.native())
-		into.Set(v)
+		return setNative(c, handler, this, into)
 	case reflect.String:
 		into.SetString(this.String())
 	default:
diff --git a/enc/scalar.go b/enc/scalar.go
index b997673..8299c37 100644
--- a/enc/scalar.go
+++ b/enc/scalar.go
@@ -29,8 +29,7 @@ func (this String) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) e
 	case reflect.String:
 		into.SetString(string(this))
 	case reflect.Interface:
-		v := reflect.ValueOf(this.native())
-		into.Set(v)
+		return setNative(c, handler, this, into)
 	default:
 		return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
 	}
@@ -95,7 +94,7 @@ func (this Bool) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) err
 	case reflect.Bool:
 		into.SetBool(bool(this))
 	case reflect.Interface:
-		into.Set(reflect.ValueOf(bool(this)))
+		return setNative(c, handler, this, into)
 	default:
 		return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
 	}
-- 
2.43.0


From 98514d82de116034b2fa7737f67fe692274e191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:01 +0000
Subject: [PATCH 43/71] fix: skipped fields are not unmarshaled from the empty
 key

---
 enc/map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/map.go b/enc/map.go
index 3b245d4..f156151 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -97,6 +97,9 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 			ft := vt.Field(i)
 			if ft.IsExported() {
 				tag := parseTag(ft)
+				if tag.Skip {
+					continue
+				}
 				seen[tag.JSON] = true
 				v, ok := this[tag.JSON]
 				if ok {
-- 
2.43.0


From ecf79ecd032829131645eac8ee64a8b5c4093376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:05 +0000
Subject: [PATCH 44/71] fix: a missing node in a list or map is null

---
 enc/enc.go     | 8 ++++++++
 enc/handler.go | 3 +++
 enc/list.go    | 2 +-
 enc/map.go     | 2 +-
 enc/pairs.go   | 2 +-
 5 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/enc/enc.go b/enc/enc.go
index 514e99a..d3d73e7 100644
--- a/enc/enc.go
+++ b/enc/enc.go
@@ -58,6 +58,14 @@ func (this path) Parent() path {
 	return this
 }
 
+// the native value of a node, no node being null
+func nativeOf(n Node) any {
+	if n == nil {
+		return nil
+	}
+	return n.native()
+}
+
 // put the native value of a (not null) node into an interface, if it fits
 func setNative(c ctx.C, handler Handler, from Node, into reflect.Value) error {
 	v := reflect.ValueOf(from.native())
diff --git a/enc/handler.go b/enc/handler.go
index fa079a9..00e4cde 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -54,6 +54,9 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 	if this.Debugf != nil {
 		this.Debugf(c, "unmarshal( %v -> %v{%v} )", from, v.Type(), v)
 	}
+	if from == nil {
+		from = Nil{}
+	}
 	if !v.CanSet() {
 		return ctx.NewErrorf(c, "can't assign %v", v)
 	}
diff --git a/enc/list.go b/enc/list.go
index 5dc0d3c..6926a2b 100644
--- a/enc/list.go
+++ b/enc/list.go
@@ -15,7 +15,7 @@ var _ Node = List{}
 func (this List) native() any {
 	out := []any{}
 	for _, n := range this {
-		x := n.native()
+		x := nativeOf(n)
 		out = append(out, x)
 	}
 	return out
diff --git a/enc/map.go b/enc/map.go
index f156151..32faeda 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -19,7 +19,7 @@ var _ Node = Map{}
 func (this Map) native() any {
 	out := map[string]any{}
 	for k, n := range this {
-		out[k] = n.native()
+		out[k] = nativeOf(n)
 	}
 	return out
 }
diff --git a/enc/pairs.go b/enc/pairs.go
index 9534a05..cbf0bc9 100644
--- a/enc/pairs.go
+++ b/enc/pairs.go
@@ -26,7 +26,7 @@ func (this Pairs) AsMap() Map {
 func (this Pairs) native() any {
 	out := map[string]any{}
 	for _, p := range this {
-		out[p.Name] = p.Value.native()
+		out[p.Name] = nativeOf(p.Value)
 	}
 	return out
 }
-- 
2.43.0


From 52c0f1e6bfb2e87fff020c6a9c1ee19efbe2989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:08 +0000
Subject: [PATCH 45/71] fix: pairs unmarshaled into any use the JSON names

---
 enc/pairs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enc/pairs.go b/enc/pairs.go
index cbf0bc9..2e9b1ce 100644
--- a/enc/pairs.go
+++ b/enc/pairs.go
@@ -26,7 +26,7 @@ func (this Pairs) AsMap() Map {
 func (this Pairs) native() any {
 	out := map[string]any{}
 	for _, p := range this {
-		out[p.Name] = nativeOf(p.Value)
+		out[p.JSON] = nativeOf(p.Value)
 	}
 	return out
 }
-- 
2.43.0


From 4c6fbebf41193b332cdc6d491cf77adb3eaba745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 46/71] fix: nil pointers to types which marshal themselves are
 marshaled as null

---
 enc/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index 00e4cde..aab0833 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -177,6 +177,9 @@ func Marshal(c ctx.C, in any) (Node, error) {
 
 func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	//log.Warnf(c, "OHA: %T %v", in, in)
+	if v := reflect.ValueOf(in); v.Kind() == reflect.Pointer && v.IsNil() {
+		return Nil{}, nil
+	}
 	switch in := in.(type) {
 	case nil:
 		return Nil{}, nil
-- 
2.43.0


From 624ea4cb0695d8777bdbde0219c76150042f1f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:13 +0000
Subject: [PATCH 47/71] fix: unsigned integers beyond int64 are marshaled as
 they are

---
 enc/handler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index aab0833..d1a6624 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -3,7 +3,9 @@ package enc
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
+	"strconv"
 	"time"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -218,6 +220,9 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return Integer(v.Int()), nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if v.Uint() > math.MaxInt64 {
+			return Digits(strconv.FormatUint(v.Uint(), 10)), nil // it doesn't fit an Integer
+		}
 		return Integer(v.Uint()), nil
 	case reflect.String:
 		return String(v.String()), nil
-- 
2.43.0


From ec1f3bd3044c60b3ab2b6774db342d7c3f2b9d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:16 +0000
Subject: [PATCH 48/71] fix: omitempty keeps pointers and interfaces to zero
 values

---
 enc/handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index d1a6624..24a1d22 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -300,6 +300,12 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 		if err != nil {
 			return nil, err
 		}
+		if tag.OmitEmpty {
+			switch fv.Kind() {
+			case reflect.Pointer, reflect.Interface:
+				tag.OmitEmpty = fv.IsNil() // only those to nothing are empty
+			}
+		}
 		switch fn := fn.(type) {
 		case Nil:
 			if !tag.OmitEmpty {
-- 
2.43.0


From 729d2c2e3e9a2d064812a111cb4f2ad89bc5c3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:18 +0000
Subject: [PATCH 49/71] fix: warnings about inefficient types are safe for
 concurrent use

---
 enc/handler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 24a1d22..2b6f81b 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"reflect"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -29,7 +30,7 @@ func (this Handler) Append(p any) Handler {
 	return this
 }
 
-var ineff = map[string]bool{}
+var ineff sync.Map // of the messages already logged
 
 func MustUnmarshal(c ctx.C, n Node, into any) {
 	err := Handler{}.Unmarshal(c, n, into)
@@ -166,8 +167,7 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 
 func warnIneff(c ctx.C, f string, args ...any) {
 	msg := fmt.Sprintf(f, args...)
-	if !ineff[msg] {
-		ineff[msg] = true
+	if _, logged := ineff.LoadOrStore(msg, true); !logged {
 		log.Warnf(c, f, args...)
 	}
 }
-- 
2.43.0


From dc310e04b202b747d09927fd1ed2afd63852be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:46 +0000
Subject: [PATCH 50/71] fix: map keys: out of range is an error, floats and
 types which unmarshal themselves are supported

---
 enc/map.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/enc/map.go b/enc/map.go
index 32faeda..d856ac2 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -58,17 +58,28 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 		mv := reflect.MakeMap(t)
 		for k, n := range this {
 			kv := reflect.New(intokt).Elem()
-			switch intokt.Kind() {
+			kind := intokt.Kind()
+			switch kv.Addr().Interface().(type) {
+			case Unmarshaler, json.Unmarshaler:
+				kind = reflect.Invalid // it knows how to do it
+			}
+			switch kind {
 			case reflect.String:
 				kv.SetString(k)
+			case reflect.Float32, reflect.Float64:
+				f, err := strconv.ParseFloat(k, intokt.Bits())
+				if err != nil {
+					return ctx.NewErrorf(c, "can't convert %q to %v at %v", k, intokt, handler.path.String()+"#key")
+				}
+				kv.SetFloat(f)
 			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-				i, err := strconv.ParseInt(k, 10, 64)
+				i, err := strconv.ParseInt(k, 10, intokt.Bits())
 				if err != nil {
 					return ctx.NewErrorf(c, "can't convert %q to string at %v", k, handler.path.String()+"#key")
 				}
 				kv.SetInt(i)
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-				i, err := strconv.ParseUint(k, 10, 64)
+				i, err := strconv.ParseUint(k, 10, intokt.Bits())
 				if err != nil {
 					return ctx.NewErrorf(c, "can't convert %q to string at %v", k, handler.path.String()+"#key")
 				}
-- 
2.43.0


From fb3814c02609539ac2b23d7cdab8a37f28a9b98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 51/71] fix: unmarshaling an enc.Time or enc.Duration node into
 a type it converts to does not panic

---
 enc/time.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/enc/time.go b/enc/time.go
index 5f31a7c..c37b0c5 100644
--- a/enc/time.go
+++ b/enc/time.go
@@ -58,7 +58,7 @@ func (this *Time) UnmarshalJSON(j []byte) error {
 func (this Time) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
 	v := reflect.ValueOf(this)
 	if v.CanConvert(into.Type()) {
-		into.Set(v)
+		into.Set(v.Convert(into.Type()))
 		return nil
 	}
 	return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
@@ -87,8 +87,12 @@ func (this Duration) String() string {
 
 func (this Duration) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
 	v := reflect.ValueOf(this)
+	if into.Kind() == reflect.String {
+		into.SetString(this.String()) // not the conversion, which makes a character of it
+		return nil
+	}
 	if v.CanConvert(into.Type()) {
-		into.Set(v)
+		into.Set(v.Convert(into.Type()))
 		return nil
 	}
 	return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
-- 
2.43.0


From 0b920a914c44f9800c8ac8a3aa8f47c0d9d3e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:50 +0000
Subject: [PATCH 52/71] fix: null is the zero enc.Time

---
 enc/time.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enc/time.go b/enc/time.go
index c37b0c5..2ba1f27 100644
--- a/enc/time.go
+++ b/enc/time.go
@@ -47,6 +47,10 @@ func (this *Time) Parse(s string) error {
 }
 
 func (this *Time) UnmarshalJSON(j []byte) error {
+	if string(j) == "null" {
+		*this = Time{}
+		return nil
+	}
 	var s string
 	err := json.Unmarshal(j, &s)
 	if err != nil {
-- 
2.43.0


From 965db6011c96f7ee26fffdbfe3513dc4afa277fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:53 +0000
Subject: [PATCH 53/71] fix: a type which can not be marshaled is an error, not
 a panic

---
 enc/handler.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 2b6f81b..2bfb327 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -209,8 +209,7 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	t := v.Type()
 	switch t.Kind() {
 	default:
-		log.Warnf(c, "possible wrong fallback for type %T", in)
-		return fromNative(in), nil
+		return nil, ctx.NewErrorf(c, "can't marshal %T", in)
 	case reflect.Func:
 		return nil, ctx.NewErrorf(c, "can't marshal %T", in)
 	case reflect.Bool:
-- 
2.43.0


From 67c746d01bbdc63c5891015ddc689590fb0f4583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:55 +0000
Subject: [PATCH 54/71] fix: objects made by a Factory are assigned, not a
 panic

---
 enc/handler.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 2bfb327..bdd003e 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -131,14 +131,18 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 			if err != nil {
 				return ctx.NewErrorf(c, "factory error: %w", err)
 			}
+			if obj == nil {
+				v.SetZero()
+				return nil
+			}
 			s := reflect.ValueOf(obj)
-			if !s.CanConvert(v.Elem().Type()) {
-				return ctx.NewErrorf(c, "Factory %v returned %v which can't be converted to %v",
-					v.Type().Elem(), s.Type(), v.Elem().Type())
+			if !s.CanConvert(v.Type()) {
+				return ctx.NewErrorf(c, "Factory for %v returned %v which can't be converted to it",
+					v.Type(), s.Type())
 			}
-			log.Debugf(c, "Factory %v returned %v which can be converted to %v",
-				v.Type().Elem(), s.Type(), v.Elem().Type())
-			v.Elem().Set(s) // we set the value, not the pointer... because go.reflect
+			log.Debugf(c, "Factory for %v returned %v which can be converted to it",
+				v.Type(), s.Type())
+			v.Set(s.Convert(v.Type()))
 			return nil
 		}
 	}
-- 
2.43.0


From a046cc303abcaa8dfd8b6ac152cfb0f405b21034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 55/71] fix: the source of a call with an empty function or
 fewer arguments than expected is no panic

---
 utils/ast/call_args.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utils/ast/call_args.go b/utils/ast/call_args.go
index 1901a34..1ea653b 100644
--- a/utils/ast/call_args.go
+++ b/utils/ast/call_args.go
@@ -42,6 +42,9 @@ func Assignment(above, arg int) string {
 		return fl
 		//return fmt.Sprintf("<can't parse: %v>", aerr)
 	} else {
+		if arg >= len(a.Args) { // fn(values()) has only one argument in the source
+			return fl
+		}
 		return a.Args[arg].Short()
 	}
 }
@@ -135,6 +138,9 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 						}
 						switch a := a.(type) {
 						case *ast.FuncLit:
+							if len(a.Body.List) == 0 {
+								break // nothing but `func() {}` to show
+							}
 							start := a.Body.List[0].Pos()
 							end := a.Body.List[len(a.Body.List)-1].End()
 							arg.Src = this.Src(start, end)
@@ -163,6 +169,9 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 						}
 						switch a := a.(type) {
 						case *ast.FuncLit:
+							if len(a.Body.List) == 0 {
+								break // nothing but `func() {}` to show
+							}
 							start := a.Body.List[0].Pos()
 							end := a.Body.List[len(a.Body.List)-1].End()
 							arg.Src = this.Src(start, end) // `func() { BODY }` => `BODY`
-- 
2.43.0


From c8510dc135986c3b12ed0bcb2dda1f9fb6b5302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:28 +0000
Subject: [PATCH 56/71] fix: fields which are never sent are no part of the
 openapi schema

---
 api/openapi/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index a681d0c..7720b56 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -209,6 +209,9 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			var fields []string
 			for i := 0; i < tt.NumField(); i++ {
 				f := tt.Field(i)
+				if !f.IsExported() || f.Tag.Get("json") == "-" {
+					continue // never sent nor received
+				}
 				s, err := this.schemaFromType(c, f.Type, f.Tag.Get("doc"), strings.TrimSpace(f.Tag.Get("example")))
 				if err != nil {
 					return structSchema, err
-- 
2.43.0


From 542850debba10d3d138aa03d3d1bbee909f113fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:28 +0000
Subject: [PATCH 57/71] fix: a type without a schema is an error each time, and
 no panic

---
 api/openapi/schema.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 7720b56..41485fb 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -39,12 +39,22 @@ func (this *Service) SchemaFromType(c ctx.C, t reflect.Type, tags *reflect.Struc
 		doc = tags.Get("doc")
 		example = strings.TrimSpace(tags.Get("example"))
 	}
+	before := make(map[string]*Schema, len(this.Components.Schemas))
+	for k, v := range this.Components.Schemas {
+		before[k] = v
+	}
 	s, err := this.schemaFromType(c, t, doc, example)
+	if err != nil && this.Components.Schemas != nil {
+		this.Components.Schemas = before // without what was left incomplete
+	}
 	return s, err
 }
 
 func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string) (s *Schema, err error) {
 	defer func() {
+		if s == nil {
+			return
+		}
 		if s.Format == s.Type {
 			s.Format = ""
 		}
-- 
2.43.0


From e433d201a291f1880d982b4ee0188708a946fef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:28 +0000
Subject: [PATCH 58/71] fix: the schema of a type which marshals to a negative
 number is no panic

---
 api/openapi/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 41485fb..95aeaec 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -112,7 +112,7 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 					Format:  t.String(),
 					Example: tryDecodingAsBool(c, example),
 				}, nil
-			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.':
+			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.', '-':
 				// It could be either integer or float here, but it's not always possible to determine which
 				// Therefore just setting the type to "number", and doing best effort parsing of the example
 				var ex any
-- 
2.43.0


From f0753579919c9aff5a07de6c71e3da7e429c5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 59/71] fix: the schema of a pointer with its own marshaler is
 the one of what it marshals to

---
 api/openapi/schema.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 95aeaec..77f1f9b 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -70,6 +70,16 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 	}
 
 	zero := reflect.New(tt).Elem().Interface()
+	if t != tt { // the marshaler might be the pointer
+		switch zero.(type) {
+		case json.Marshaler, enc.Marshaler:
+		default:
+			switch ptr := reflect.New(tt).Interface().(type) {
+			case json.Marshaler, enc.Marshaler:
+				zero = ptr
+			}
+		}
+	}
 	switch zero.(type) {
 	case json.RawMessage:
 		return &Schema{
-- 
2.43.0


From a96a97a46dc29860c8f254a8df5a9389e2dc928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 60/71] fix: enc.Digits are numbers in the openapi schema

---
 api/openapi/schema.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 77f1f9b..518831b 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -102,6 +102,13 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			Example: example,
 		}, nil
 
+	case enc.Digits: // a string in go, sent as number
+		return &Schema{
+			Type:    "number",
+			Format:  t.String(),
+			Example: tryDecodingAsFloat(c, example),
+		}, nil
+
 	case json.Marshaler, enc.Marshaler:
 		// Handle corner case where a type can be struct, but marshalled to a primitive json type
 		// In openapi schema, we want to describe the marshalled json type
-- 
2.43.0


From bd11fbbbbfc6a03698d015bb30407d6b03863ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 61/71] fix: the http client closes the body of a response
 whose status is an error

---
 http/client.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/http/client.go b/http/client.go
index e242969..582ec47 100644
--- a/http/client.go
+++ b/http/client.go
@@ -28,11 +28,13 @@ func (this Client) Get(c ctx.C, url string) ([]byte, error) {
 		return nil, ctx.NewErrorf(c, "can't create request: %w", err)
 	}
 	res, err := this.Do(req)
+	if res != nil && res.Body != nil {
+		defer res.Body.Close() // also if the status is an error
+	}
 	if err != nil {
 		return nil, err
 	}
 	if res.Body != nil {
-		defer res.Body.Close()
 		return io.ReadAll(res.Body)
 	}
 	return nil, nil
@@ -49,11 +51,13 @@ func (this Client) Post(c ctx.C, url string, body []byte) ([]byte, error) {
 	}
 	req.Header.Set(`Content-Type`, `application/json`)
 	res, err := this.Do(req)
+	if res != nil && res.Body != nil {
+		defer res.Body.Close() // also if the status is an error
+	}
 	if err != nil {
 		return nil, err
 	}
 	if res.Body != nil {
-		defer res.Body.Close()
 		return io.ReadAll(res.Body)
 	}
 	return nil, nil
@@ -104,6 +108,9 @@ func (this Client) API(c ctx.C, obj Doable) error {
 
 		log.Debugf(c, "client[%T].Send() %s", obj, j)
 		res, err := this.Do(req)
+		if res != nil && res.Body != nil {
+			defer res.Body.Close() // also if the status is an error
+		}
 		if err != nil {
 			return ctx.NewErrorf(c, "can't send request: %w", err)
 		}
@@ -116,7 +123,6 @@ func (this Client) API(c ctx.C, obj Doable) error {
 			if err != nil {
 				return ctx.NewErrorf(c, "can't read response: %w", err)
 			}
-			res.Body.Close()
 			log.Debugf(c, "client[%T].Recv() %s", obj, j)
 			return h.Recv(c, data, obj)
 		default:
-- 
2.43.0


From 8e88b347b7cd525a124a6abc9fb1c17f52ae71ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:01 +0000
Subject: [PATCH 62/71] fix: calling an API without url is an error, not a
 panic

---
 http/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/client.go b/http/client.go
index 582ec47..9f0a320 100644
--- a/http/client.go
+++ b/http/client.go
@@ -94,6 +94,9 @@ func (this Client) API(c ctx.C, obj Doable) error {
 		}
 
 		u := h.URL()
+		if u == nil {
+			return ctx.NewErrorf(c, "no URL to send %T to", obj)
+		}
 		if this.BaseUrl != nil {
 			u, err = this.BaseUrl.Parse(u.String())
 			if err != nil {
-- 
2.43.0


From 33a60ca7f591de34e5c6d88eccb945be35049676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:47 +0000
Subject: [PATCH 63/71] fix: a registration which fails because of its schema
 no longer leaves the endpoint served

---
 http/api.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/http/api.go b/http/api.go
index 4631503..536dd8a 100644
--- a/http/api.go
+++ b/http/api.go
@@ -66,6 +66,11 @@ func (s *Server) RegisterAPI(c ctx.C, obj Doable) (*openapi.PathItem, error) {
 		return nil, ctx.NewErrorf(c, "no URL to register for %T", obj)
 	}
 
+	// don't serve what can't be documented
+	if _, err := handler.UpdateOpenAPI(c, openapi.NewService("")); err != nil {
+		return nil, err
+	}
+
 	for _, u := range handler.URLs() {
 		log.Debugf(c, "registering to %q", u.Path)
 		s.handleRequest(u.Path, f)
-- 
2.43.0


From 40d6f59f144f1b8a361b1d961f617ee153430e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:52 +0000
Subject: [PATCH 64/71] fix: a scrape whose reader is slow no longer holds up
 the observations of a histogram

---
 utils/prom/histogram.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index a99cba7..ca8c500 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -67,16 +67,24 @@ func (this *Histogram) Print(name string, w io.Writer) (err error) {
 				return err
 			}
 		}
-		return v.print(w, this.Buckets, name, l)
+		return v.snapshot(len(this.Buckets)).print(w, this.Buckets, name, l)
 	})
 }
 
-func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (err error) {
+// a copy with n buckets to print from, so that a slow reader of the output doesn't hold up observe()
+func (this *histogramTS) snapshot(n int) *histogramTS {
 	this.m.Lock()
 	defer this.m.Unlock()
-	for len(this.buckets) < len(le) { // just created, not observed yet
-		this.buckets = append(this.buckets, 0)
+	out := &histogramTS{
+		buckets: make([]int, n), // the series may be just created, not observed yet
+		sum:     this.sum,
+		count:   this.count,
 	}
+	copy(out.buckets, this.buckets)
+	return out
+}
+
+func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (err error) {
 	if labels == "" {
 		for i, le := range le {
 			b := this.buckets[i]
-- 
2.43.0


From 87622c27b0cc0361137f8f02d6c80d19fc7e3dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:22 +0000
Subject: [PATCH 65/71] fix: what a memory key-value store holds is not shared
 with its callers

---
 storage/keyvalue.go | 46 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/storage/keyvalue.go b/storage/keyvalue.go
index 10bcfba..8ba0ef5 100644
--- a/storage/keyvalue.go
+++ b/storage/keyvalue.go
@@ -33,13 +33,13 @@ func (this *memKeyValue) Get(c ctx.C, key string) (enc.Map, error) {
 	this.m.Lock()
 	defer this.m.Unlock()
 	v := this.data[key]
-	return v, nil
+	return clone(v), nil
 }
 
 func (this *memKeyValue) Upsert(c ctx.C, key string, val enc.Map) error {
 	this.m.Lock()
 	defer this.m.Unlock()
-	this.data[key] = val
+	this.data[key] = clone(val)
 	return nil
 }
 
@@ -66,7 +66,7 @@ func (this *memKeyValue) Range(c ctx.C, f func(c ctx.C, key string, val enc.Map)
 			}
 			log.Debugf(c, "prep %q is %v", k, ok)
 			if ok {
-				list = append(list, pair{k, v})
+				list = append(list, pair{k, clone(v)})
 			}
 		}
 		return nil
@@ -85,6 +85,46 @@ func (this *memKeyValue) Range(c ctx.C, f func(c ctx.C, key string, val enc.Map)
 	return nil
 }
 
+// what is stored must not change when the caller changes its own value, nor the other way around
+func clone(in enc.Map) enc.Map {
+	if in == nil {
+		return nil
+	}
+	out := make(enc.Map, len(in))
+	for k, v := range in {
+		out[k] = cloneNode(v)
+	}
+	return out
+}
+
+func cloneNode(in enc.Node) enc.Node {
+	switch in := in.(type) {
+	case enc.Map:
+		return clone(in)
+	case enc.List:
+		if in == nil {
+			return in
+		}
+		out := make(enc.List, len(in))
+		for i, v := range in {
+			out[i] = cloneNode(v)
+		}
+		return out
+	case enc.Pairs:
+		if in == nil {
+			return in
+		}
+		out := make(enc.Pairs, len(in))
+		for i, p := range in {
+			out[i] = p
+			out[i].Value = cloneNode(p.Value)
+		}
+		return out
+	default:
+		return in
+	}
+}
+
 func check(c ctx.C, val enc.Map, filters ...Filter) (bool, error) {
 	for _, f := range filters {
 		ok, err := f.Check(c, val)
-- 
2.43.0


From 9d94e4edebd01588f857c0bb4d9d649accc62a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:19 +0000
Subject: [PATCH 66/71] fix: the read timeout of a call handler answers a
 client whose body stalls

---
 http/call.go | 4 ++++
 http/mux.go  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/http/call.go b/http/call.go
index adbc369..eb03316 100644
--- a/http/call.go
+++ b/http/call.go
@@ -36,10 +36,14 @@ func (this CallHandler) Register(s *Server) {
 			}
 			var err error
 			if r.Body != nil {
+				// the body can't be left alone before its pending read returns
+				rc := http.NewResponseController(w)
+				_ = rc.SetReadDeadline(time.Now().Add(this.readTimeout()))
 				call.reqBody, err = utils.ReadAll(c, r.Body, r.Body.Close)
 				if err != nil {
 					return nil, NewErrorf(c, 400, "can't read body: %w", err)
 				}
+				_ = rc.SetReadDeadline(time.Time{})
 			}
 			err = this.Handler(c, &call)
 			return call.res.Bytes(), err
diff --git a/http/mux.go b/http/mux.go
index 071f051..d5f0508 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -70,6 +70,11 @@ func (r *response) sent() int {
 	return r.code
 }
 
+// for http.ResponseController
+func (r *response) Unwrap() http.ResponseWriter {
+	return r.ResponseWriter
+}
+
 type responseHijacker struct {
 	*response
 	hijacker http.Hijacker
-- 
2.43.0


From b040fd317c813e986d84b28ad61532c5326fa938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:52 +0000
Subject: [PATCH 67/71] fix: marshalling a NaN or an infinity is an error, not
 a panic later

---
 enc/handler.go | 6 +++++-
 enc/pairs.go   | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index bdd003e..b552542 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -219,7 +219,11 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	case reflect.Bool:
 		return Bool(v.Bool()), nil
 	case reflect.Float64, reflect.Float32:
-		return Float(v.Float()), nil
+		f := v.Float()
+		if math.IsNaN(f) || math.IsInf(f, 0) {
+			return nil, ctx.NewErrorf(c, "can't marshal %v", f) // JSON has no way to write it
+		}
+		return Float(f), nil
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return Integer(v.Int()), nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
diff --git a/enc/pairs.go b/enc/pairs.go
index 2e9b1ce..5cce948 100644
--- a/enc/pairs.go
+++ b/enc/pairs.go
@@ -2,6 +2,7 @@ package enc
 
 import (
 	"bytes"
+	"encoding/json"
 	"fmt"
 	"reflect"
 	"strings"
@@ -56,7 +57,11 @@ func (this Pairs) MarshalJSON() ([]byte, error) {
 		}
 		buf.Write(mustJSON(p.JSON))
 		buf.WriteString(": ")
-		buf.Write(mustJSON(p.Value))
+		j, err := json.Marshal(p.Value)
+		if err != nil {
+			return nil, err
+		}
+		buf.Write(j)
 	}
 	buf.WriteString("}")
 	return buf.Bytes(), nil
-- 
2.43.0


From 0d584b17415988af4e60ff616a1aa7aadd8d6757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:56 +0000
Subject: [PATCH 68/71] fix: integers written with an exponent decode to their
 value

---
 enc/numeric.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/enc/numeric.go b/enc/numeric.go
index eef3e23..3aba62f 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -92,11 +92,35 @@ func (this Digits) Uint64() (uint64, error) {
 	i, err := strconv.ParseUint(s, 10, 64)
 	return i, err
 }
+
+// trimDecimal returns the integral part of the number, written without exponent
 func trimDecimal(s string) string {
-	if strings.Contains(string(s), ".") {
-		return strings.Split(s, ".")[0]
+	exp := 0
+	if i := strings.IndexAny(s, "eE"); i >= 0 {
+		n, err := strconv.Atoi(s[i+1:])
+		if err != nil {
+			return s // way too big, parsing it as an integer fails
+		}
+		s, exp = s[:i], n
+	}
+	whole, frac, _ := strings.Cut(s, ".")
+	if exp > len(frac) {
+		pad := exp - len(frac)
+		if pad > 20 {
+			pad = 20 // no integer has that many digits, unless it's zero
+		}
+		frac += strings.Repeat("0", pad)
+		exp = len(frac)
+	}
+	if exp >= 0 {
+		return whole + frac[:exp]
+	}
+	digits := strings.TrimPrefix(whole, "-")
+	sign := whole[:len(whole)-len(digits)]
+	if exp <= -len(digits) {
+		return sign + "0"
 	}
-	return s
+	return sign + digits[:len(digits)+exp]
 }
 func (this Digits) Float64() (float64, error) { return strconv.ParseFloat(string(this), 64) }
 func (this Digits) String() string            { return string(this) }
-- 
2.43.0


From 9697e199799ea9c664190b37170ab53f56599d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:29 +0000
Subject: [PATCH 69/71] fix: the profiles are served under any prefix

---
 http/monitor.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/http/monitor.go b/http/monitor.go
index 3bfb2ce..768798a 100644
--- a/http/monitor.go
+++ b/http/monitor.go
@@ -4,6 +4,7 @@ import (
 	"net/http"
 	nprof "net/http/pprof"
 	"runtime/pprof"
+	"strings"
 
 	"github.com/Aize-Public/forego/ctx"
 	"github.com/Aize-Public/forego/ctx/log"
@@ -19,7 +20,14 @@ func (this *Server) SetupPrometheus(c ctx.C, path string) {
 
 // register /pprof/ and /goroutines under the given prefix
 func (this *Server) SetupMonitoring(c ctx.C, prefix string) {
-	this.mux.HandleFunc(prefix+"/pprof/", nprof.Index)
+	this.mux.HandleFunc(prefix+"/pprof/", func(w http.ResponseWriter, r *http.Request) {
+		name := strings.TrimPrefix(r.URL.Path, prefix+"/pprof/")
+		if name != "" { // nprof.Index finds the profiles only under /debug/pprof/
+			nprof.Handler(name).ServeHTTP(w, r)
+			return
+		}
+		nprof.Index(w, r)
+	})
 	this.mux.HandleFunc(prefix+"/pprof/cmdline", nprof.Cmdline)
 	this.mux.HandleFunc(prefix+"/pprof/profile", nprof.Profile)
 	this.mux.HandleFunc(prefix+"/pprof/symbol", nprof.Symbol)
-- 
2.43.0


From 6268f00fc21b539f0492908409fbb74c632927d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:57 +0000
Subject: [PATCH 70/71] fix: what is evicted or invalidated in the LRU cache
 isn't kept alive by it

---
 utils/caches/lru.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/caches/lru.go b/utils/caches/lru.go
index e05d4ca..c3472f5 100644
--- a/utils/caches/lru.go
+++ b/utils/caches/lru.go
@@ -141,6 +141,7 @@ func (this *lruHeap[K, V]) Swap(i, j int) {
 
 func (this *lruHeap[K, V]) Pop() any {
 	entry := this.list[len(this.list)-1]
+	this.list[len(this.list)-1] = lruEntry[K, V]{} // or what was removed stays reachable
 	this.list = this.list[0 : len(this.list)-1]
 	delete(this.index, entry.key)
 	return entry
-- 
2.43.0


From 6ae6dc2ed752aa082200aee420d7b00f1ab9bcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:42 +0000
Subject: [PATCH 71/71] fix: the reader of a websocket ends with its loop,
 whatever context OnConnect returned

---
 http/ws/conn.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/http/ws/conn.go b/http/ws/conn.go
index 58536d6..ab1b3de 100644
--- a/http/ws/conn.go
+++ b/http/ws/conn.go
@@ -25,10 +25,12 @@ func (this *Conn) Close(c ctx.C, reason int) error {
 // main loop, which sends evento to the connection HandlerFunc
 func (this *Conn) Loop(c ctx.C) error {
 	inbox := make(chan enc.Node)
+	rc, cf := ctx.WithCancel(c)
+	defer cf(nil) // the reader ends with the loop, even if c doesn't
 	go func() {
 		defer close(inbox)
 		for {
-			n, err := this.ws.Read(c)
+			n, err := this.ws.Read(rc)
 			switch err {
 			case io.EOF:
 				log.Debugf(c, "inbox: EOF")
@@ -41,7 +43,7 @@ func (this *Conn) Loop(c ctx.C) error {
 			case nil:
 				select {
 				case inbox <- n:
-				case <-c.Done():
+				case <-rc.Done():
 					log.Warnf(c, "inbox: %v", err)
 					return
 				}
-- 
2.43.0

