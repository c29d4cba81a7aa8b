package logs

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
)

// what the default logger prints goes to a file of ours
var stdout *os.File

func TestMain(m *testing.M) {
	f, err := os.CreateTemp(".", "stdout")
	if err != nil {
		panic(err)
	}
	stdout = f
	w, err := os.OpenFile(f.Name(), os.O_APPEND|os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	keep, _ := syscall.Dup(1)
	if err := syscall.Dup2(int(w.Fd()), 1); err != nil {
		panic(err)
	}
	rc := m.Run()
	_ = syscall.Dup2(keep, 1)
	os.Exit(rc)
}

var one sync.Mutex // the default level and the default logger are global

type buf struct {
	m sync.Mutex
	b bytes.Buffer
}

func (b *buf) Write(p []byte) (int, error) {
	b.m.Lock()
	defer b.m.Unlock()
	return b.b.Write(p)
}

type tagger struct{ name string }

func (this tagger) LogAs(tags *log.Tags) any {
	(*tags)[this.name] = ctx.JSON(`"tagged"`)
	return "T"
}

// an error which represents itself
type lerror struct{}

func (lerror) Error() string       { return secret }
func (lerror) LogAs(*log.Tags) any { return "L" }

// something which represents itself as a number
type number struct{ S string }

func (*number) LogAs(*log.Tags) any { return 42 }

func here(plus int) string {
	_, file, line, _ := runtime.Caller(1)
	return fmt.Sprintf("%s:%d", file, line+plus)
}

type obj struct {
	c      []ctx.C
	src    string // where the last call was
	out    map[string]*buf
	logger map[string]*slog.Logger
	helped map[string]int
	raw    []vt.J // records given to functions
	level  int
	name   map[string]string
	marker int
	r      *rand.Rand
}

var levels = []slog.Level{-8, -4, 0, 4, 8, 50}
var levelNames = []string{"debug-4", "debug", "info", "warn", "error", "error+42"}
var markers int

func newObj(r *rand.Rand, level int) *obj {
	o := &obj{out: map[string]*buf{}, logger: map[string]*slog.Logger{}, helped: map[string]int{}, level: level, r: r}
	o.c = []ctx.C{context.Background()}
	o.name = []map[string]string{{"a": "a", "b": "b"}, {"a": "level", "b": "msg"}, {"a": "time", "b": "message"},
		{"a": "src", "b": "tags"}, {"a": "", "b": "A \"\\\n"}}[r.Intn(5)]
	for _, s := range []string{"D1", "D2", "S"} {
		b := &buf{}
		o.out[s] = b
		if s == "S" {
			o.logger[s] = slog.New(slog.NewJSONHandler(b, &slog.HandlerOptions{Level: slog.LevelInfo}))
		} else {
			o.logger[s] = log.NewDefaultSlogLogger(b)
		}
	}
	return o
}

func (o *obj) tagName(k string) string {
	if n, ok := o.name[k]; ok {
		return n
	}
	return k
}

func (o *obj) derive(a vt.Act) {
	c := o.c[a.Int("p")-1]
	me := fmt.Sprint("v", len(o.c)+1)
	switch a.Op() {
	case "tag":
		c = ctx.WithTag(c, o.tagName(a.Str("k")), me)
	case "helper":
		c = log.WithHelper(c, func() { o.helped[me]++ })
	case "logger":
		s := a.Str("s")
		if s[0] == 'F' {
			c = log.WithLogFunc(c, func(c ctx.C, level slog.Level, src, f string, args ...any) {
				o.raw = append(o.raw, vt.J{"sink": s, "c": c, "level": level, "src": src, "f": f, "args": append([]any{}, args...)})
			})
		} else {
			c = log.WithSlogLogger(c, o.logger[s])
		}
	}
	o.c = append(o.c, c)
}

func (o *obj) Do(a vt.Act) (any, any) {
	one.Lock()
	defer one.Unlock()
	log.SetDefaultLoggerLevel(levels[o.level])
	switch a.Op() {
	case "level":
		o.level = a.Int("l")
		log.SetDefaultLoggerLevel(levels[o.level])
	case "log":
		return o.log(a.Int("n"), a.Int("lv"), a.Str("arg")), nil
	default:
		o.derive(a)
	}
	return "ok", nil
}

const secret = "s3cr3t"

func (o *obj) log(n, lv int, argKind string) any {
	none := func() vt.J {
		return vt.J{"sink": "none", "helper": "", "lv": 0, "shown": "", "a": "", "b": "", "e": ""}
	}
	c := o.c[n-1]
	markers++
	mark := fmt.Sprintf("m%d;", markers)
	var arg any = "plain"
	switch argKind {
	case "secret":
		arg = log.RedactedString(secret)
		if o.r.Intn(2) == 0 {
			s := log.RedactedString(secret)
			arg = &s
		}
	case "tagger":
		arg = tagger{o.tagName("a")}
	case "error":
		arg = errors.New("error")
	case "cerror":
		arg = ctx.WrapError(ctx.WithTag(context.Background(), "of", "cerror"), errors.New("cerror"))
	}
	args := []any{mark, arg, ""}
	f := "%s %v %.0s|"
	if o.r.Intn(2) == 0 {
		args = []any{"", arg, mark}
		f = "%[3]s %[2]v %.0[1]s|"
	}
	switch argKind {
	case "number":
		args[1] = &number{secret}
		f = strings.NewReplacer("%v", "%05d", "%[2]v", "%05[2]d").Replace(f)
	case "lerror":
		args[1] = lerror{}
		if o.r.Intn(2) == 0 {
			f = strings.NewReplacer("%v", "%+v", "%[2]v", "%+[2]v").Replace(f)
		}
	}
	before := append([]any{}, args[:2]...)
	o.helped, o.raw = map[string]int{}, nil
	for _, b := range o.out {
		b.b.Reset()
	}
	off, _ := stdout.Seek(0, io.SeekEnd)
	switch lv {
	case 1:
		o.src = here(1)
		log.Debugf(c, f, args...)
	case 2:
		o.src = here(1)
		log.Infof(c, f, args...)
	case 3:
		o.src = here(1)
		log.Warnf(c, f, args...)
	case 4:
		o.src = here(1)
		log.Errorf(c, f, args...)
	default:
		o.src = []string{"here", ""}[o.r.Intn(2)]
		log.Customf(c, levels[lv], o.src, f, args...)
	}
	same := func(x, y any) bool {
		defer func() { recover() }()
		_, ctxe := x.(ctx.Error)
		return fmt.Sprintf("%T", x) == fmt.Sprintf("%T", y) && (ctxe || fmt.Sprint(x) == fmt.Sprint(y))
	}
	if !same(args[1], before[1]) {
		return fmt.Sprintf("the caller's argument %T was replaced by %T %v", before[1], args[1], args[1])
	}
	var recs []vt.J
	for _, s := range []string{"D1", "D2", "S", "default"} {
		var lines string
		if s == "default" {
			j := make([]byte, 1<<20)
			n, _ := stdout.ReadAt(j, off)
			lines = string(j[:n])
		} else {
			lines = o.out[s].b.String()
		}
		for _, l := range strings.Split(lines, "\n") {
			if strings.Contains(l, mark) {
				if r := o.parse(s, mark, l); r != nil {
					recs = append(recs, r)
				}
			}
		}
	}
	for _, raw := range o.raw {
		r := none()
		r["sink"], r["shown"] = raw["sink"], "raw"
		r["lv"] = -1
		for i, x := range levels {
			if x == raw["level"] {
				r["lv"] = i
			}
		}
		tags := log.ExtractTags(raw["c"].(ctx.C))
		if msg := o.tags(r, tags); msg != "" {
			return msg
		}
		got := raw["args"].([]any)
		if raw["src"] != o.src {
			return fmt.Sprintf("the log function is told %q, the call is at %q", raw["src"], o.src)
		}
		if raw["f"] != f || len(got) != 3 || !same(got[1], before[1]) {
			return fmt.Sprintf("the log function got %q %v", raw["f"], got)
		}
		recs = append(recs, r)
	}
	if len(recs) == 0 {
		recs = append(recs, none())
	}
	if len(recs) > 1 {
		return fmt.Sprintf("%d records of one call: %v", len(recs), recs)
	}
	h := ""
	for k, n := range o.helped {
		if h != "" {
			h = "several"
		} else if n > 0 {
			h = k
		}
	}
	recs[0]["helper"] = h
	return recs[0]
}

func (o *obj) tags(r vt.J, tags map[string]ctx.JSON) string {
	for k, j := range tags {
		if k == "error" {
			var s string
			var errs []vt.J
			if json.Unmarshal(j, &s) == nil {
				r["e"] = s
			} else if err := json.Unmarshal(j, &errs); err != nil || len(errs) != 1 {
				return "tag error: " + string(j)
			} else {
				r["e"] = errs[0]["error"]
				if r["e"] == "cerror" && (vt.Canon(errs[0]["tags"]) != `{"of":"cerror"}` || errs[0]["stack"] == nil) {
					return "error without its own tags and stack: " + string(j)
				}
			}
			continue
		}
		var s string
		if err := json.Unmarshal(j, &s); err != nil {
			return fmt.Sprintf("tag %q: %s", k, j)
		}
		switch k {
		case o.name["a"]:
			r["a"] = s
		case o.name["b"]:
			r["b"] = s
		default:
			return fmt.Sprintf("tag %q=%s which nobody added", k, j)
		}
	}
	return ""
}

func (o *obj) parse(sink, mark, line string) vt.J {
	bad := func(f string, args ...any) vt.J {
		return vt.J{"sink": sink, "lv": -1, "shown": fmt.Sprintf(f, args...), "line": line}
	}
	var rec map[string]json.RawMessage
	if err := json.Unmarshal([]byte(line), &rec); err != nil {
		return bad("not json")
	}
	r := vt.J{"sink": sink, "lv": -1, "shown": "", "a": "", "b": "", "e": ""}
	var level, msg, src string
	tags := map[string]ctx.JSON{}
	for k, j := range rec {
		switch k {
		case "time":
		case "src":
			_ = json.Unmarshal(j, &src)
		case "level":
			_ = json.Unmarshal(j, &level)
		case "message", "msg":
			_ = json.Unmarshal(j, &msg)
		case "tags":
			var m map[string]json.RawMessage
			if err := json.Unmarshal(j, &m); err != nil {
				return bad("tags: %s", j)
			}
			for k, v := range m {
				tags[k] = ctx.JSON(v)
			}
		default:
			return bad("unexpected field %s", k)
		}
	}
	for i, x := range levelNames {
		if strings.EqualFold(x, level) {
			r["lv"] = i
		}
	}
	if strings.Contains(line, secret) {
		return bad("the secret is shown")
	}
	if _, has := rec["src"]; src != o.src || has != (src != "") {
		return bad("src %q, the call is at %q", src, o.src)
	}
	if !strings.HasPrefix(msg, mark+" ") || !strings.HasSuffix(msg, " |") {
		return bad("message %q", msg)
	}
	r["shown"] = strings.TrimSuffix(strings.TrimPrefix(msg, mark+" "), " |")
	if s := o.tags(r, tags); s != "" {
		return bad("%s", s)
	}
	return r
}

func TestLogReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	r := rand.New(rand.NewSource(vt.Seed()))
	g.Replay("log-replay", vt.Scale(500, 5000), 20, func(init vt.Act) vt.Obj {
		one.Lock()
		defer one.Unlock()
		return newObj(rand.New(rand.NewSource(r.Int63())), init.Int("level"))
	})
	vt.Done()
}

func TestLogTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for i := 0; i < vt.Scale(300, 5000); i++ {
		o := newObj(rand.New(rand.NewSource(r.Int63())), 1)
		h := &vt.Hist{}
		for j := 0; j < 40; j++ {
			p := 1 + r.Intn(len(o.c))
			if r.Intn(3) == 0 {
				p = len(o.c)
			}
			a := vt.Act{"op": []string{"tag", "logger", "helper", "level", "log", "log", "log", "log"}[r.Intn(8)], "p": p, "n": p}
			a["k"] = []string{"a", "b", "error"}[r.Intn(3)]
			a["key"] = a["k"]
			a["s"] = []string{"D1", "D2", "S", "F1", "F2"}[r.Intn(5)]
			a["l"] = 1 + r.Intn(4)
			a["lv"] = r.Intn(6)
			a["arg"] = []string{"plain", "secret", "tagger", "error", "cerror", "number", "lerror"}[r.Intn(7)]
			ret, _ := o.Do(a)
			ev := vt.J(a)
			ev["ret"] = ret
			if s, ok := ret.(string); ok && s != "ok" {
				vt.Violation("log-call", s, h.Ev)
				return
			}
			h.Ev = append(h.Ev, ev)
		}
		tr.Write(h)
	}
	tr.Close()
	vt.Done()
}

// one context, and one list of arguments, used by many goroutines
func TestLogRace(t *testing.T) {
	for round := 0; round < vt.Scale(20, 200); round++ {
		var b [4]buf
		base := log.WithSlogLogger(context.Background(), log.NewDefaultSlogLogger(io.Discard))
		base = log.WithHelper(base, func() {})
		args := []any{"x", log.RedactedString(secret), errors.New("e"), tagger{"a"}}
		var wg sync.WaitGroup
		for th := 0; th < 4; th++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c := log.WithSlogLogger(ctx.WithTag(base, "th", th), log.NewDefaultSlogLogger(&b[th]))
				for i := 0; i < 40; i++ {
					log.Infof(c, "%v %v %v %v", args...)
					log.Warnf(base, "%v %v %v %v", args...)
					if i%10 == 0 {
						_ = log.WithLogFunc(base, func(ctx.C, slog.Level, string, string, ...any) { panic("not mine") })
						_ = log.WithHelper(base, func() { panic("not mine") })
					}
				}
			}()
		}
		wg.Wait()
		for th := 0; th < 4; th++ {
			lines := strings.Split(strings.TrimSpace(b[th].b.String()), "\n")
			if len(lines) != 40 {
				vt.Violation("log-concurrent", fmt.Sprintf("%d records of 40 calls", len(lines)), nil)
				continue
			}
			for _, l := range lines {
				var r struct {
					Message string
					Tags    map[string]any
				}
				if err := json.Unmarshal([]byte(l), &r); err != nil || r.Message != "x *** e T" || r.Tags["th"] != float64(th) {
					vt.Violation("log-concurrent", "record "+l, nil)
					break
				}
			}
		}
	}
	vt.Done()
}
