package conf

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/config"
	"github.com/Aize-Public/forego/ctx"
)

type NBool bool
type NInt int
type NString string
type Inner struct{ X int }

type Text struct{ S string }

func (t *Text) UnmarshalText(b []byte) error {
	if string(b) == "bad" {
		return errors.New("bad")
	}
	t.S = string(b)
	return nil
}

type JSONT struct{ S string }

func (t *JSONT) UnmarshalJSON(b []byte) error { return (*Text)(t).UnmarshalText(b) }

type Own struct{ S string }

func (t *Own) UnmarshalText(c ctx.C, s string) error { return (*Text)(t).UnmarshalText([]byte(s)) }

type field struct{ t, tag, def string }

func (f field) id() string { return f.t + " " + f.tag + " " + f.def }

type loader func(lookups []string) (vals []string, err error)

var single = map[string]loader{}

type multi struct {
	fields []field
	load   loader
}

var multis []multi

// initial value of a field
func initial(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int64:
		v.SetInt(42)
	case reflect.Uint:
		v.SetUint(42)
	case reflect.String:
		v.SetString("init")
	case reflect.Float64:
		v.SetFloat(1.5)
	case reflect.Struct:
		if v.Field(0).Kind() == reflect.String {
			v.Field(0).SetString("init")
		} else {
			v.Field(0).SetInt(42)
		}
	case reflect.Slice:
		s := reflect.MakeSlice(v.Type(), 1, 4)
		initial(s.Index(0))
		v.Set(s)
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		k := reflect.New(v.Type().Key()).Elem()
		if k.Kind() == reflect.String {
			k.SetString("i")
		}
		e := reflect.New(v.Type().Elem()).Elem()
		initial(e)
		m.SetMapIndex(k, e)
		v.Set(m)
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		initial(p.Elem())
		v.Set(p)
	case reflect.Array:
		initial(v.Index(0))
	}
}

func show(v reflect.Value, unsupported bool) string {
	if unsupported {
		w := reflect.New(v.Type()).Elem()
		initial(w)
		if reflect.DeepEqual(v.Interface(), w.Interface()) {
			return "init"
		}
		return fmt.Sprint(v.Interface())
	}
	switch v.Kind() {
	case reflect.Struct:
		return "T(" + v.Field(0).String() + ")"
	case reflect.Slice:
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, show(v.Index(i), false))
		}
		return "[" + strings.Join(l, "|") + "]"
	case reflect.Map:
		var l []string
		keys := v.MapKeys()
		sort.Slice(keys, func(a, b int) bool { return keys[a].String() < keys[b].String() })
		for _, k := range keys {
			l = append(l, k.String()+":"+show(v.MapIndex(k), false))
		}
		return "{" + strings.Join(l, "|") + "}"
	}
	return fmt.Sprint(v.Interface())
}

var unsupported = map[string]bool{"float": true, "uint": true, "int64": true, "struct": true, "ptr": true, "chan": true, "array": true, "iface": true, "mikey": true, "hidden": true}

func reg[T any](fields []field, zero T) {
	load := func(lookups []string) (vals []string, err error) {
		var cfg T
		v := reflect.ValueOf(&cfg).Elem()
		for i := range fields {
			if v.Field(i).CanSet() {
				initial(v.Field(i))
			}
		}
		keep := v.Interface() // shares its slices and maps
		before := make([]string, len(fields))
		for i, f := range fields {
			if f.t != "hidden" {
				before[i] = show(v.Field(i), unsupported[f.t])
			}
		}
		asked := map[string]bool{}
		out, err := config.From(context.Background(), cfg, func(k string) string {
			asked[k] = true
			for i := range lookups {
				if k == fmt.Sprint("K", i) {
					return lookups[i]
				}
			}
			return "unknown key " + k
		})
		for i, f := range fields {
			if f.t != "hidden" && before[i] != show(reflect.ValueOf(keep).Field(i), unsupported[f.t]) {
				return nil, fmt.Errorf("ALARM: field %d of the caller's value changed", i)
			}
		}
		if err != nil {
			return nil, err
		}
		v = reflect.ValueOf(out)
		for i, f := range fields {
			vals = append(vals, show(v.Field(i), unsupported[f.t]))
		}
		return vals, nil
	}
	if len(fields) == 1 {
		single[fields[0].id()] = load
	} else {
		multis = append(multis, multi{fields, load})
	}
}

func result(l loader, lookups []string) any {
	var vals []string
	var err error
	if msg := vt.Protect(func() { vals, err = l(lookups) }); msg != "" {
		return "panic: " + msg
	}
	if err != nil {
		if strings.HasPrefix(err.Error(), "ALARM") {
			return err.Error()
		}
		return vt.J{"ok": false, "vals": []any{}}
	}
	return vt.J{"ok": true, "vals": vals}
}

type obj struct{}

func (obj) Do(a vt.Act) (any, any) {
	l, ok := single[field{a.Str("t"), a.Str("tag"), a.Str("def")}.id()]
	if !ok {
		return "no such type", nil
	}
	return result(l, []string{a.Str("text")}), nil
}

func TestConfReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Replay("config", 10, 10, func(vt.Act) vt.Obj { return obj{} })
	vt.Done()
}

type part struct {
	K  string `json:"k"`
	Eq bool   `json:"eq"`
	V  string `json:"v"`
}

func parts(s string) []part {
	out := []part{}
	if s == "" {
		return out
	}
	for _, p := range strings.Split(s, ",") {
		k, v, eq := strings.Cut(p, "=")
		out = append(out, part{k, eq, v})
	}
	return out
}

func TestConfTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	good := map[string][]string{"m": {"a=1", "a=1,b=0", "b=0,a=1,c=1"}, "": {"1", "0", "1", "0", "yes", "1,0"}}
	any := []string{"", "", "a", "bad", "99999999999999999999", "-5", "a=x", "1,0", "NO", "a=1"}
	for i := 0; i < vt.Scale(3000, 30000); i++ {
		m := multis[r.Intn(len(multis))]
		var lookups []string
		fs, ls := []vt.J{}, []any_{}
		skip := false
		for _, f := range m.fields {
			s := ""
			switch x := r.Intn(12); {
			case x == 0:
				s = any[r.Intn(len(any))]
			case x < 8:
				k := ""
				if f.t[0] == 'm' {
					k = "m"
				}
				s = good[k][r.Intn(len(good[k]))]
				if strings.Contains(s, ",") && k == "" && !strings.HasSuffix(f.t, "s") || s == "yes" && !strings.Contains(f.t, "bool") {
					s = "1"
				}
			}
			lookups = append(lookups, s)
			fs = append(fs, vt.J{"t": f.t, "tag": f.tag, "def": parts(f.def)})
			ls = append(ls, parts(s))
			// not defined: no text for a type which converts itself
			self := f.t == "text" || f.t == "json" || f.t == "own" || f.t == "texts" || strings.HasSuffix(f.t, "float") || f.t == "floats"
			skip = skip || self && s == "" && f.tag == "def" && f.def == ""
		}
		if skip {
			continue
		}
		tr.Write(&vt.Hist{Ev: []vt.J{{"fields": fs, "lookups": ls, "ret": result(m.load, lookups)}}})
	}
	tr.Close()
	vt.Done()
}

type any_ = interface{}
