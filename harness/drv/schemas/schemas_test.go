package schemas

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/Aize-Public/forego/api/openapi"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"

	"verif/harness/vt"
)

// the named types of the specification

type Leaf struct {
	S string
	N int `json:"n,omitempty"`
}
type Tree struct {
	V    int
	L    *Tree           `json:"left"`
	Kids []*Tree         `json:"kids"`
	By   map[string]Tree `json:",omitempty"`
}
type Ping struct{ P *Pong }
type Pong struct {
	Q []Ping `json:"q"`
	X bool
}
type Hidden struct {
	A string `json:"a"`
	b Pong
	f func()
	C func()     `json:"-"`
	D Ping       `json:"-"`
	E *time.Time `json:"e"`
}
type Emb struct {
	Leaf
	X float64 `json:"x"`
}
type Bad struct {
	A Leaf
	F func()
}
type BadIn struct {
	P Ping
	L []Bad
}
type Alice struct {
	B Bob
	C chan int
}
type Bob struct {
	A *Alice
	X int
}
type PM struct{ X int }

func (this *PM) MarshalJSON() ([]byte, error) { return json.Marshal(fmt.Sprint("pm", this.X)) }

type Docs struct {
	A int    `json:"a" doc:"first" example:"12"`
	B []int  `json:"b" doc:"second" example:"[1]"`
	C Leaf   `doc:"third"`
	D string `example:"true"`
}
type Gen[T any] struct {
	V T `json:"v"`
}
type Vague struct {
	A any
	R json.RawMessage
	D enc.Digits
	S MStr `json:"s"`
	P *PM  `json:"p"`
}

type MStr struct{ A, B int }

func (this MStr) MarshalJSON() ([]byte, error) { return json.Marshal(fmt.Sprint(this.A, this.B)) }

type MNum struct{ A string }

func (this MNum) MarshalNode(ctx.C) (enc.Node, error) { return enc.Integer(len(this.A)), nil }

type MNeg string

func (this MNeg) MarshalJSON() ([]byte, error) { return []byte("-1.5"), nil }

type MBool struct{ A *int }

func (this MBool) MarshalNode(ctx.C) (enc.Node, error) { return enc.Bool(this.A != nil), nil }

var base = map[string]reflect.Type{
	"bool": reflect.TypeOf(true), "int": reflect.TypeOf(0), "float": reflect.TypeOf(0.0), "string": reflect.TypeOf(""),
	"bytes": reflect.TypeOf([]byte{}), "time": reflect.TypeOf(time.Time{}), "any": reflect.TypeOf((*any)(nil)).Elem(),
	"raw": reflect.TypeOf(json.RawMessage{}), "digits": reflect.TypeOf(enc.Digits("")), "mstr": reflect.TypeOf(MStr{}),
	"mnum": reflect.TypeOf(MNum{}), "mneg": reflect.TypeOf(MNeg("")), "mbool": reflect.TypeOf(MBool{}),
	"func": reflect.TypeOf(func() {}), "chan": reflect.TypeOf(make(chan int)),
}

// other types of the same kind
var alike = map[string][]reflect.Type{
	"int":    {reflect.TypeOf(int8(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(time.Second), reflect.TypeOf(enc.Integer(0))},
	"float":  {reflect.TypeOf(float32(0)), reflect.TypeOf(enc.Float(0))},
	"string": {reflect.TypeOf(enc.String(""))},
	"bool":   {reflect.TypeOf(enc.Bool(true))},
	"time":   {reflect.TypeOf(enc.Time{})},
	"func":   {reflect.TypeOf(func(int) error { return nil }), reflect.TypeOf(complex(0, 0)), reflect.TypeOf(uintptr(0))},
}

var named = map[string]reflect.Type{
	"Leaf": reflect.TypeOf(Leaf{}), "Tree": reflect.TypeOf(Tree{}), "Ping": reflect.TypeOf(Ping{}), "Pong": reflect.TypeOf(Pong{}),
	"Hidden": reflect.TypeOf(Hidden{}), "Emb": reflect.TypeOf(Emb{}), "Bad": reflect.TypeOf(Bad{}), "BadIn": reflect.TypeOf(BadIn{}),
	"Alice": reflect.TypeOf(Alice{}), "Bob": reflect.TypeOf(Bob{}), "PM": reflect.TypeOf(PM{}), "Docs": reflect.TypeOf(Docs{}),
	"Gen": reflect.TypeOf(Gen[int]{}), "Vague": reflect.TypeOf(Vague{}),
}

// the type of a term; with r, one of the types which are alike
func build(t vt.Act, r *rand.Rand) reflect.Type {
	sub := func() reflect.Type { return build(vt.Act(t.List("e")[0].(map[string]any)), r) }
	switch k := t.Str("k"); k {
	case "slice":
		return reflect.SliceOf(sub())
	case "array":
		return reflect.ArrayOf(2, sub())
	case "map":
		return reflect.MapOf(reflect.TypeOf(""), sub())
	case "imap":
		return reflect.MapOf(reflect.TypeOf(0), sub())
	case "ptr":
		return reflect.PointerTo(sub())
	case "named":
		return named[t.Str("n")]
	case "anon":
		fs := []reflect.StructField{}
		for _, f := range t.List("fs") {
			f := vt.Act(f.(map[string]any))
			sf := reflect.StructField{Name: f.Str("n"), Type: build(f.Map("t"), r)}
			if !f.Bool("ex") {
				sf.PkgPath = "schemas"
			}
			tag := ""
			if s := f.Str("tag"); s != "" {
				tag += fmt.Sprintf("json:%q ", s)
			}
			if s := f.Str("doc"); s != "" {
				tag += fmt.Sprintf("doc:%q ", s)
			}
			if s := f.Str("eg"); s != "" {
				tag += fmt.Sprintf("example:%q ", s)
			}
			sf.Tag = reflect.StructTag(tag)
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	default:
		if a := alike[k]; r != nil && len(a) > 0 && r.Intn(2) == 0 {
			return a[r.Intn(len(a))]
		}
		return base[k]
	}
}

// the last part of a reference, without parameters of the type
func last(key string) string {
	key, _, _ = strings.Cut(key, "[")
	return key[strings.LastIndexAny(key, "_/")+1:]
}

// a schema as published, in the terms of the specification
func shape(m map[string]any) vt.J {
	s := vt.J{"type": "", "format": "", "items": []any{}, "extra": []any{}, "props": []any{}, "ref": "", "desc": "", "eg": ""}
	if v, ok := m["type"]; ok {
		s["type"] = v
	}
	if f, _ := m["format"].(string); f == "byte" || f == "date-time" {
		s["format"] = f
	}
	if v, ok := m["items"].(map[string]any); ok {
		s["items"] = []any{shape(v)}
	}
	if v, ok := m["additionalProperties"].(map[string]any); ok {
		s["extra"] = []any{shape(v)}
	}
	if v, ok := m["properties"].(map[string]any); ok && len(v) > 0 {
		ps := vt.J{}
		for k, v := range v {
			ps[k] = shape(v.(map[string]any))
		}
		s["props"] = ps
	}
	ref, _ := m["$ref"].(string)
	for _, v := range list(m["allOf"]) {
		if r, ok := v.(map[string]any)["$ref"].(string); ok && ref == "" {
			ref = r
		} else {
			s["ref"] = "more than one in allOf"
			return s
		}
	}
	if ref != "" {
		s["ref"] = last(ref)
		if !strings.HasPrefix(ref, "#/components/schemas/") {
			s["ref"] = ref
		}
	}
	if v, ok := m["description"]; ok {
		s["desc"] = v
	}
	if v, ok := m["example"]; ok {
		j, _ := json.Marshal(v)
		s["eg"] = string(j)
	}
	return s
}

func list(v any) []any { l, _ := v.([]any); return l }

func generic(v any) map[string]any {
	j, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var m map[string]any
	if err := json.Unmarshal(j, &m); err != nil {
		panic(err)
	}
	return m
}

func quiet() ctx.C {
	return log.WithSlogLogger(context.Background(), slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 1})))
}

var quietC = quiet()

type service struct{ *openapi.Service }

func (this service) describe(t reflect.Type, doc, eg string) vt.J {
	var tags *reflect.StructTag
	if doc != "" || eg != "" {
		x := reflect.StructTag(fmt.Sprintf("doc:%q example:%q", doc, eg))
		tags = &x
	}
	ret := vt.J{"ok": []any{}}
	if msg := vt.Protect(func() {
		s, err := this.SchemaFromType(quietC, t, tags)
		if err == nil {
			ret["ok"] = []any{shape(generic(s))}
		}
	}); msg != "" {
		return vt.J{"panic": strings.SplitN(msg, "\n", 2)[0]}
	}
	var defs any = []any{}
	d := vt.J{}
	cs, _ := generic(this.Service)["components"].(map[string]any)
	ss, _ := cs["schemas"].(map[string]any)
	for k, v := range ss {
		k = last(k)
		if d[k] != nil {
			k += " twice"
		}
		d[k] = shape(v.(map[string]any))
		defs = d
	}
	ret["defs"] = defs
	return ret
}

func (this service) Do(a vt.Act) (any, any) {
	return this.describe(build(a.Map("t"), nil), a.Str("doc"), a.Str("eg")), nil
}

func TestSchemaReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Replay("schema", vt.Scale(200, 2000), 30, func(vt.Act) vt.Obj { return service{&openapi.Service{}} })
	vt.Done()
}

// random terms

func term(k string, e []any, fs []any, n string) vt.J {
	return vt.J{"k": k, "e": e, "fs": fs, "n": n}
}

var kinds = []string{"bool", "int", "int", "float", "string", "string", "time", "any", "raw", "digits", "mstr", "mnum", "mneg", "mbool"}
var names = []string{"Leaf", "Tree", "Ping", "Pong", "Hidden", "Emb", "PM", "Docs", "Gen", "Vague"}

func random(r *rand.Rand, depth int, bad bool) vt.J {
	if n := r.Intn(3); depth == 0 || n == 0 {
		switch {
		case bad && r.Intn(8) == 0:
			return term([]string{"func", "chan"}[r.Intn(2)], []any{}, []any{}, "")
		case bad && r.Intn(8) == 0:
			return term("named", []any{}, []any{}, []string{"Bad", "BadIn", "Alice", "Bob"}[r.Intn(4)])
		case r.Intn(2) == 0:
			return term("named", []any{}, []any{}, names[r.Intn(len(names))])
		}
		return term(kinds[r.Intn(len(kinds))], []any{}, []any{}, "")
	}
	switch n := r.Intn(8); n {
	case 0, 1, 2, 3, 4:
		return term([]string{"slice", "array", "map", "imap", "ptr"}[n], []any{random(r, depth-1, bad)}, []any{}, "")
	}
	fs := []any{}
	for n, c := 0, r.Intn(5); n < c; n++ {
		f := vt.J{"n": string(rune('A' + n)), "tag": "", "ex": true, "t": random(r, depth-1, bad), "doc": "", "eg": ""}
		switch r.Intn(8) {
		case 0:
			f["tag"] = "-"
			f["t"] = random(r, depth-1, true)
		case 1:
			f["tag"] = ",omitempty"
		case 2:
			f["tag"] = string(rune('a' + n))
		case 3:
			f["tag"] = fmt.Sprintf("%c%c", 'z', 'a'+n)
		case 4:
			f["n"] = fmt.Sprintf("hidden%d", n)
			f["ex"] = false
			f["t"] = random(r, depth-1, true)
		case 5:
			f["doc"] = "about it"
		}
		fs = append(fs, f)
	}
	return term("anon", []any{}, fs, "")
}

// fill a value; if full, with nothing empty in it
func fill(v reflect.Value, r *rand.Rand, full bool, depth int) {
	some := func() bool { return full && depth > 0 || depth > 0 && r.Intn(3) > 0 }
	switch v.Type() {
	case base["time"]:
		v.Set(reflect.ValueOf(time.Unix(1e9+int64(r.Intn(1e9)), int64(r.Intn(1e9)))))
		return
	case alike["time"][0]:
		v.Set(reflect.ValueOf(enc.Time(time.Unix(1e9+int64(r.Intn(1e9)), 0))))
		return
	case base["raw"]:
		raws := []string{`{"a":1}`, `[1]`, `12`, `"x"`, `null`}
		if full {
			raws = raws[:4]
		}
		v.SetBytes([]byte(raws[r.Intn(len(raws))]))
		return
	case base["digits"]:
		v.SetString([]string{"12", "-3", "1.5"}[r.Intn(3)])
		return
	case base["any"]:
		v.Set(reflect.ValueOf([]any{1, "a", true, []any{1}, map[string]any{"a": 2}}[r.Intn(5)]))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(full || r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int64:
		v.SetInt(int64(1 + r.Intn(100)))
		if !full {
			v.SetInt(int64(r.Intn(5) - 2))
		}
	case reflect.Uint, reflect.Uint16:
		v.SetUint(uint64(1 + r.Intn(100)))
	case reflect.Float64, reflect.Float32:
		v.SetFloat(1 + float64(r.Intn(100))/4)
		if !full {
			v.SetFloat(float64(r.Intn(10)-5) / 4)
		}
	case reflect.String:
		v.SetString([]string{"x", "a b", "12"}[r.Intn(3)])
	case reflect.Slice:
		if some() {
			v.Set(reflect.MakeSlice(v.Type(), 1+r.Intn(2), 3))
			for n := 0; n < v.Len(); n++ {
				fill(v.Index(n), r, full, depth-1)
			}
		} else if r.Intn(2) == 0 {
			v.Set(reflect.MakeSlice(v.Type(), 0, 0))
		}
	case reflect.Array:
		for n := 0; n < v.Len(); n++ {
			fill(v.Index(n), r, full, depth-1)
		}
	case reflect.Map:
		if some() {
			v.Set(reflect.MakeMap(v.Type()))
			for n := 0; n < 1+r.Intn(2); n++ {
				k := reflect.New(v.Type().Key()).Elem()
				if k.Kind() == reflect.String {
					k.SetString(string(rune('a' + n)))
				} else {
					k.SetInt(int64(n))
				}
				e := reflect.New(v.Type().Elem()).Elem()
				fill(e, r, full, depth-1)
				v.SetMapIndex(k, e)
			}
		}
	case reflect.Pointer:
		if some() {
			v.Set(reflect.New(v.Type().Elem()))
			fill(v.Elem(), r, full, depth-1)
		}
	case reflect.Struct:
		for n := 0; n < v.NumField(); n++ {
			if v.Type().Field(n).IsExported() {
				fill(v.Field(n), r, full, depth-1)
			}
		}
	}
}

// what is sent, as term
func sent(j []byte) (vt.J, error) {
	var v any
	if err := json.Unmarshal(j, &v); err != nil {
		return nil, err
	}
	var of func(v any) vt.J
	of = func(v any) vt.J {
		t := vt.J{"k": "null", "e": []any{}, "m": []any{}}
		switch v := v.(type) {
		case string:
			t["k"] = "str"
		case bool:
			t["k"] = "bool"
		case float64:
			t["k"] = "num"
		case []any:
			t["k"] = "arr"
			e := []any{}
			for _, v := range v {
				e = append(e, of(v))
			}
			t["e"] = e
		case map[string]any:
			t["k"] = "obj"
			m := vt.J{}
			for k, v := range v {
				m[k] = of(v)
				t["m"] = m
			}
		}
		return t
	}
	return of(v), nil
}

func marshal(v any) (vt.J, error) {
	var j []byte
	var err error
	if msg := vt.Protect(func() { j, err = enc.MarshalJSON(quietC, v) }); msg != "" {
		return nil, fmt.Errorf("panic: %s", msg)
	}
	if err != nil {
		return nil, err
	}
	return sent(j)
}

func TestSchemaTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	values := 0
	for n := 0; n < vt.Scale(500, 6000); n++ {
		srv := service{&openapi.Service{}}
		h := &vt.Hist{}
		for n := 0; n < 1+r.Intn(4); n++ {
			// as in the specification (a recursion over the term), through json
			term := random(r, 1+r.Intn(3), r.Intn(3) == 0)
			var a vt.Act
			b, _ := json.Marshal(term)
			_ = json.Unmarshal(b, &a)
			typ := build(a, r)
			ret := srv.describe(typ, "", "")
			if ret["panic"] != nil {
				vt.Violation("schema-panic", fmt.Sprint("the schema of ", typ, ": ", ret["panic"]), term)
				continue
			}
			vals, full := []any{}, []any{}
			if len(ret["ok"].([]any)) > 0 {
				for m := 0; m < 6; m++ {
					v := reflect.New(typ).Elem()
					fill(v, r, m < 2, 8)
					out, err := marshal(v.Interface())
					if err != nil {
						vt.Violation("schema-unsent", fmt.Sprint("a value of ", typ, " has a schema and can not be sent: ", err), term)
						continue
					}
					values++
					if m < 2 {
						full = append(full, out)
					} else {
						vals = append(vals, out)
					}
				}
			}
			h.Add(vt.J{"t": term, "ok": ret["ok"], "defs": ret["defs"], "vals": vals, "full": full})
		}
		tr.Write(h)
	}
	// bytes are documented as text
	s := service{&openapi.Service{}}.describe(base["bytes"], "", "")
	out, err := marshal([]byte("ab"))
	if err != nil || len(s["ok"].([]any)) == 0 || s["ok"].([]any)[0].(vt.J)["type"] == "string" != (out["k"] == "str") {
		vt.Violation("schema-bytes", fmt.Sprint("[]byte is documented as ", s["ok"], " and sent as ", out, err), nil)
	}
	vt.Stat("values_sent", values)
	tr.Close()
	vt.Done()
}
