package apis

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"reflect"
	"testing"
	"unsafe"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
)

func quiet() ctx.C {
	return log.WithSlogLogger(context.Background(), slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 1})))
}

// ------------------------------------------------------------------ types and values

type UID string

type inner struct {
	A int
	B string
}

type kind struct {
	typ  reflect.Type
	vals map[string]any    // the values named by the specification
	wire map[string]string // and what they are on the wire
}

func ptr[T any](v T) *T { return &v }

func mkKind[T any](v1, v2, v3 T, zero, w1, w2, w3, bad string) kind {
	var z T
	return kind{reflect.TypeOf(&z).Elem(), map[string]any{"zero": z, "v1": v1, "v2": v2, "v3": v3},
		map[string]string{"zero": zero, "v1": w1, "v2": w2, "v3": w3, "bad": bad, "null": "null"}}
}

var kinds = map[string]kind{
	"string": mkKind("one", "two", "three", `""`, `"one"`, `"two"`, `"three"`, `{"a":1}`),
	"int":    mkKind(1, -2, 3, `0`, `1`, `-2`, `3`, `"x"`),
	"float":  mkKind(1.5, 2.5, -3.5, `0`, `1.5`, `2.5`, `-3.5`, `[1]`),
	"bool":   mkKind(true, true, true, `false`, `true`, `true`, `true`, `"x"`),
	"uint":   mkKind(uint(1), 2, 3, `0`, `1`, `2`, `3`, `"x"`),
	"ptr":    mkKind(ptr("one"), ptr("two"), ptr("three"), `null`, `"one"`, `"two"`, `"three"`, `[{}]`),
	"list":   mkKind([]int{1}, []int{2, 2}, []int{3, 3, 3}, `null`, `[1]`, `[2,2]`, `[3,3,3]`, `{"x":1}`),
	"map":    mkKind(map[string]int{"a": 1}, map[string]int{"b": 2}, map[string]int{"c": 3}, `null`, `{"a":1}`, `{"b":2}`, `{"c":3}`, `[1,2]`),
	"struct": mkKind(inner{1, "x"}, inner{2, "y"}, inner{3, "z"}, `{"A":0,"B":""}`, `{"A":1,"B":"x"}`, `{"A":2,"B":"y"}`, `{"A":3,"B":"z"}`, `"nope"`),
	"named":  mkKind(UID("one"), UID("two"), UID("three"), `""`, `"one"`, `"two"`, `"three"`, `[]`),
}

// some values have several names: that of the first guess if it fits
func (this kind) name(v reflect.Value, guess string) string {
	if x, ok := this.vals[guess]; ok && reflect.DeepEqual(v.Interface(), x) {
		return guess
	}
	for k, x := range this.vals {
		if reflect.DeepEqual(v.Interface(), x) {
			return k
		}
	}
	return fmt.Sprintf("%#v", v.Interface())
}

// the value of the node on the wire
func (this kind) node(c ctx.C, n enc.Node, guess string) string {
	s := string(enc.JSON{}.Encode(c, n))
	if w, ok := this.wire[guess]; ok && equalJSON(w, s) {
		return guess
	}
	for k, w := range this.wire {
		if k != "bad" && k != "null" && equalJSON(w, s) {
			return k
		}
	}
	return s
}

func equalJSON(a, b string) bool {
	var x, y any
	return json.Unmarshal([]byte(a), &x) == nil && json.Unmarshal([]byte(b), &y) == nil && reflect.DeepEqual(x, y)
}

// fresh makes a value which shares no memory with others
func (this kind) fresh(name string) reflect.Value {
	v := reflect.New(this.typ)
	j, _ := json.Marshal(this.vals[name])
	if err := json.Unmarshal(j, v.Interface()); err != nil {
		panic(err)
	}
	return v.Elem()
}

// ------------------------------------------------------------------ objects

type fieldDef struct {
	name, typ, reg         string
	in, out, req, auth     bool
	hidden                 bool
	goName, tagKey, tagVal string
}

func parseField(a vt.Act, typ string, i int, r *rand.Rand) fieldDef {
	d := a.Map("decl")
	f := fieldDef{name: a.Str("name"), typ: typ, reg: a.Str("reg"), in: d.Bool("in"), out: d.Bool("out"), req: d.Bool("req"), auth: d.Bool("auth"), hidden: a.Bool("hidden")}
	f.goName = fmt.Sprintf("Field%d", i)
	if f.hidden {
		f.goName = fmt.Sprintf("field%d", i)
	}
	f.tagVal = f.apiTag(r)
	return f
}

// one of the ways to say it
func (this fieldDef) apiTag(r *rand.Rand) string {
	var l []string
	switch {
	case this.in && this.out && r.Intn(2) == 0:
		l = []string{"both"}
	default:
		if this.in {
			l = append(l, "in")
		}
		if this.out {
			l = append(l, "out")
		}
	}
	if this.req {
		l = append(l, "required")
	}
	if this.auth {
		l = append(l, "auth")
	}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	s := ""
	for i, x := range l {
		if i > 0 {
			s += ","
		}
		s += x
	}
	return s
}

func (this fieldDef) structField(r *rand.Rand) reflect.StructField {
	tag := ""
	if this.tagVal != "" || r.Intn(2) == 0 {
		tag = fmt.Sprintf("api:%q ", this.tagVal)
	}
	switch r.Intn(4) {
	case 0:
		tag += fmt.Sprintf("json:%q", this.name)
	case 1:
		tag += fmt.Sprintf("enc:%q", this.name)
	case 2:
		tag += fmt.Sprintf(`enc:"%s,omitempty" json:"other%s"`, this.name, this.name)
	default:
		tag += fmt.Sprintf(`json:"%s,string"`, this.name)
	}
	sf := reflect.StructField{Name: this.goName, Type: kinds[this.typ].typ, Tag: reflect.StructTag(tag)}
	if this.hidden {
		sf.PkgPath = "verif/harness/drv/apis"
	}
	return sf
}

type object struct {
	fields []fieldDef
	typ    reflect.Type
	index  []int // of the fields in the structure
	h      api.Handler[any]
	err    error
	r      *rand.Rand
	id     kind
}

// fields which are not exported can't be set otherwise
func set(v reflect.Value, x reflect.Value) {
	reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem().Set(x)
}
func get(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func newObject(fields []fieldDef, r *rand.Rand) *object {
	this := &object{fields: fields, r: r, id: kinds["named"]}
	sfs := []reflect.StructField{{Name: "R", Type: reflect.TypeOf(api.Request{}), Tag: `url:"/x"`}}
	for _, f := range fields {
		this.index = append(this.index, len(sfs))
		sfs = append(sfs, f.structField(r))
		if f.auth {
			this.id = kinds[f.typ]
		}
	}
	this.typ = reflect.StructOf(sfs)
	vals := []string{}
	for _, f := range fields {
		vals = append(vals, f.reg)
	}
	init := this.object(vals)
	this.h, this.err = api.NewHandler[any](quiet(), init)
	// the object which was registered belongs to the caller, who may change it
	for i, f := range fields {
		x := "v2"
		if r.Intn(2) == 0 {
			x = "zero"
		}
		set(reflect.ValueOf(init).Elem().Field(this.index[i]), kinds[f.typ].fresh(x))
	}
	return this
}

func (this *object) object(vals []string) any {
	p := reflect.New(this.typ)
	for i, f := range this.fields {
		set(p.Elem().Field(this.index[i]), kinds[f.typ].fresh(vals[i]))
	}
	return p.Interface()
}

// guess is where the value of a field should come from
func (this *object) guess(i int, a vt.Act) string {
	f := this.fields[i]
	onWire := func() string {
		for _, w := range a.List("wire") {
			if w := vt.Act(w.(map[string]any)); w.Str("n") == f.name {
				return w.Str("v")
			}
		}
		return ""
	}
	switch {
	case a.Op() == "recv" && f.auth:
		return a.Str("id")
	case a.Op() == "recv" && f.in:
		return onWire()
	case a.Op() == "recv":
		return f.reg
	case a.Op() == "back" && f.out && onWire() != "":
		return onWire()
	}
	return a.List("vals")[i].(string)
}

func (this *object) vals(o any, a vt.Act) any {
	out := []any{}
	for i, f := range this.fields {
		out = append(out, kinds[f.typ].name(get(reflect.ValueOf(o).Elem().Field(this.index[i])), this.guess(i, a)))
	}
	return out
}

func (this *object) kindOf(name string) kind {
	for _, f := range this.fields {
		if f.name == name {
			return kinds[f.typ]
		}
	}
	return kinds["int"]
}

func (this *object) data(wire []any) *api.JSON {
	out := &api.JSON{}
	if len(wire) == 0 && this.r.Intn(2) == 0 {
		return out
	}
	j := "{"
	for i, w := range wire {
		w := vt.Act(w.(map[string]any))
		n := w.Str("n")
		v := this.kindOf(n).wire[w.Str("v")]
		if n == "GoName" {
			f := this.fields[0]
			n, v = f.goName, kinds[f.typ].wire[w.Str("v")]
		}
		if i > 0 {
			j += ", "
		}
		j += fmt.Sprintf("%q: %s", n, v)
	}
	node, err := enc.JSON{}.Decode(quiet(), []byte(j+"}"))
	if err != nil {
		panic(err)
	}
	out.Data = node.(enc.Map)
	return out
}

func (this *object) Do(a vt.Act) (any, any) {
	c := quiet()
	if a.Op() == "register" {
		if this.err != nil {
			return "error", nil
		}
		return "ok", nil
	}
	if this.err != nil {
		return "not registered: " + this.err.Error(), nil
	}
	var vals []string
	for _, v := range a.List("vals") {
		vals = append(vals, v.(string))
	}
	rejected := vt.J{"ok": false, "vals": []any{}}
	switch a.Op() {
	case "recv":
		d := this.data(a.List("wire"))
		switch a.Str("id") {
		case "none":
			if this.r.Intn(2) == 0 {
				d.UID = enc.Nil{}
			}
		default:
			n, err := enc.JSON{}.Decode(c, []byte(this.id.wire[a.Str("id")]))
			if err != nil {
				panic(err)
			}
			d.UID = n
		}
		ser := this.h.Server()
		o, err := ser.Recv(c, d)
		if err != nil {
			if o != nil {
				return fmt.Sprintf("an object and the error %v", err), nil
			}
			return rejected, nil
		}
		return vt.J{"ok": true, "vals": this.vals(o, a)}, nil
	case "send":
		d := &api.JSON{}
		o := this.object(vals)
		var err error
		if a.Str("dir") == "in" {
			cli := this.h.Client()
			err = cli.Send(c, o, d)
		} else {
			ser := this.h.Server()
			err = ser.Send(c, o, d)
		}
		if err != nil {
			return err.Error(), nil
		}
		if got := vt.Canon(this.vals(o, a)); got != vt.Canon(vals) {
			return "the object has become " + got, nil
		}
		out := []any{}
		for k, n := range d.Data {
			guess := ""
			for i, f := range this.fields {
				if f.name == k && (f.in && a.Str("dir") == "in" || f.out && a.Str("dir") == "out") {
					guess = vals[i]
				}
			}
			out = append(out, vt.J{"n": k, "v": this.kindOf(k).node(c, n, guess)})
		}
		return out, nil
	case "back":
		o := this.object(vals)
		cli := this.h.Client()
		if err := cli.Recv(c, this.data(a.List("wire")), o); err != nil {
			return rejected, nil
		}
		return vt.J{"ok": true, "vals": this.vals(o, a)}, nil
	}
	panic(a.Op())
}

// one object per step
type stepper struct{ r *rand.Rand }

func (this stepper) Do(a vt.Act) (any, any) {
	f := parseField(a.List("fields")[0].(map[string]any), a.Str("type"), 0, this.r)
	return newObject([]fieldDef{f}, this.r).Do(a)
}

func TestApiReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	n := vt.Seed()
	g.Replay("api", 50, 60, func(vt.Act) vt.Obj { n++; return stepper{rand.New(rand.NewSource(n))} })
	vt.Done()
}

func TestApiTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	types := []string{"string", "int", "float", "ptr", "list", "map", "struct", "named", "bool", "uint"}
	some := func(l ...string) string { return l[r.Intn(len(l))] }
	for n := 0; n < vt.Scale(1500, 15000); n++ {
		var fields []fieldDef
		h := &vt.Hist{}
		desc := []any{}
		names := map[string]int{} // 1: in, 2: out
		for i := 0; i < 2+r.Intn(5); i++ {
			f := fieldDef{goName: fmt.Sprintf("Field%d", i), typ: types[r.Intn(len(types))], reg: some("zero", "v1", "v1")}
			switch r.Intn(10) {
			case 0, 1:
				f.in = true
			case 2, 3:
				f.out = true
			case 4:
				f.in, f.out = true, true
			case 5, 6:
				f.auth = r.Intn(3) > 0
			case 7:
				f.auth = r.Intn(3) == 0
				f.out = true
			}
			f.req = r.Intn(3) == 0
			if r.Intn(30) == 0 {
				f.hidden = true
				f.goName = fmt.Sprintf("field%d", i)
			}
			uses := 0
			if f.in {
				uses |= 1
			}
			if f.out {
				uses |= 2
			}
			if uses == 0 {
				uses = 4
			}
			// a field in and one out may have the same name and type
			f.name = fmt.Sprintf("f%d", i)
			for j, o := range fields {
				if names[o.name]&uses == 0 && uses != 4 && names[o.name] != 4 && r.Intn(3) == 0 {
					f.name, f.typ = o.name, fields[j].typ
					break
				}
			}
			names[f.name] |= uses
			f.tagVal = f.apiTag(r)
			fields = append(fields, f)
			desc = append(desc, vt.J{"name": f.name, "reg": f.reg, "hidden": f.hidden, "decl": vt.J{"in": f.in, "out": f.out, "req": f.req, "auth": f.auth}})
		}
		h.Init = vt.J{"fields": desc}
		o := newObject(fields, r)
		h.Add(vt.J{"op": "register", "ret": o.err == nil})
		if o.err == nil {
			for k := 0; k < 6; k++ {
				wire := []any{}
				for _, f := range fields {
					known := false
					for _, w := range wire {
						known = known || w.(vt.J)["n"] == f.name
					}
					if known {
						continue
					}
					switch r.Intn(12) {
					case 0, 1:
					case 2:
						wire = append(wire, vt.J{"n": f.name, "v": "zero"})
					case 3:
						wire = append(wire, vt.J{"n": f.name, "v": "bad"})
					default:
						wire = append(wire, vt.J{"n": f.name, "v": some("v1", "v2", "v3")})
					}
				}
				r.Shuffle(len(wire), func(i, j int) { wire[i], wire[j] = wire[j], wire[i] })
				vals := []any{}
				for range fields {
					vals = append(vals, some("zero", "v1", "v2", "v3"))
				}
				a := vt.J{"op": "recv", "wire": wire, "id": some("none", "v2", "v3", "v3", "bad")}
				switch r.Intn(4) {
				case 0:
					a = vt.J{"op": "send", "dir": some("in", "out"), "vals": vals}
				case 1:
					a = vt.J{"op": "back", "wire": wire, "vals": vals}
				}
				var act vt.Act
				j, _ := json.Marshal(a)
				_ = json.Unmarshal(j, &act)
				ret, _ := o.Do(act)
				a["ret"] = ret
				h.Add(a)
			}
		}
		tr.Write(h)
	}
	tr.Close()
	vt.Done()
}
