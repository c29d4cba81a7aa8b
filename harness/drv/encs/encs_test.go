package encs

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"sync"
	"testing"
	"time"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
)

var c = log.WithSlogLogger(context.Background(), slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 1})))

// ------------------------------------------------------------------ types which convert themselves

type CU string

func (this CU) MarshalNode(ctx.C) (enc.Node, error) { return enc.String(this), nil }
func (this *CU) UnmarshalNode(c ctx.C, n enc.Node) error {
	switch n := n.(type) {
	case enc.Nil:
		*this = ""
	case enc.String:
		*this = CU(n)
	default:
		return errors.New("not a string")
	}
	return nil
}

type CJ string

func (this CJ) MarshalJSON() ([]byte, error) { return json.Marshal(string(this)) }
func (this *CJ) UnmarshalJSON(j []byte) error {
	var s string
	err := json.Unmarshal(j, &s)
	*this = CJ(s)
	return err
}

// an interface made by a factory
type Shape interface{ Name() string }
type Named string

func (this Named) Name() string { return string(this) }

func factory(c ctx.C, n enc.Node) (any, error) {
	switch n := n.(type) {
	case enc.Nil:
		return nil, nil
	case enc.String:
		return Named(n), nil
	}
	return nil, errors.New("no such shape")
}

// ------------------------------------------------------------------ terms

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var simple = map[string]reflect.Type{
	"bool": typeOf[bool](), "int": typeOf[int](), "int8": typeOf[int8](), "int16": typeOf[int16](), "int32": typeOf[int32](), "int64": typeOf[int64](),
	"uint": typeOf[uint](), "uint8": typeOf[uint8](), "uint16": typeOf[uint16](), "uint32": typeOf[uint32](), "uint64": typeOf[uint64](),
	"float32": typeOf[float32](), "float64": typeOf[float64](), "string": typeOf[string](), "any": typeOf[any](), "err": typeOf[error](),
	"node": typeOf[enc.Node](), "raw": typeOf[json.RawMessage](), "time": typeOf[time.Time](), "etime": typeOf[enc.Time](),
	"tdur": typeOf[time.Duration](), "edur": typeOf[enc.Duration](), "cu": typeOf[CU](), "cj": typeOf[CJ](),
	"chan": typeOf[chan int](), "func": typeOf[func()](), "complex128": typeOf[complex128](), "shape": typeOf[Shape](),
}

func sub(t vt.Act, k string) vt.Act { return t.Map(k) }

func mkType(t vt.Act) reflect.Type {
	if s := simple[t.Str("k")]; s != nil {
		return s
	}
	switch t.Str("k") {
	case "ptr":
		return reflect.PointerTo(mkType(sub(t, "e")))
	case "slice":
		return reflect.SliceOf(mkType(sub(t, "e")))
	case "array":
		return reflect.ArrayOf(t.Int("n"), mkType(sub(t, "e")))
	case "map":
		return reflect.MapOf(simple[t.Str("key")], mkType(sub(t, "e")))
	case "struct":
		var fs []reflect.StructField
		for _, x := range t.List("fs") {
			f := vt.Act(x.(map[string]any))
			sf := reflect.StructField{Name: f.Str("n"), Type: mkType(sub(f, "t"))}
			if f.Str("tag") != "" {
				sf.Tag = reflect.StructTag("json:" + strconv.Quote(f.Str("tag")))
			}
			if !f.Bool("exp") {
				sf.PkgPath = "verif/harness/drv/encs"
			}
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	}
	panic("no such type: " + t.Str("k"))
}

func mkNode(n vt.Act) enc.Node {
	s := n.Str("s")
	switch n.Str("k") {
	case "nil":
		return enc.Nil{}
	case "gonil":
		return nil
	case "bool":
		return enc.Bool(s == "true")
	case "int":
		i, err := strconv.ParseInt(s, 10, 64)
		check(err)
		return enc.Integer(i)
	case "float":
		f, err := strconv.ParseFloat(s, 64)
		check(err)
		return enc.Float(f)
	case "digits":
		return enc.Digits(s)
	case "str":
		return enc.String(s)
	case "time":
		t, err := time.Parse(time.RFC3339Nano, s)
		check(err)
		return enc.Time(t)
	case "dur":
		d, err := time.ParseDuration(s)
		check(err)
		return enc.Duration(d)
	case "list":
		out := enc.List{}
		for _, x := range n.List("xs") {
			out = append(out, mkNode(x.(map[string]any)))
		}
		return out
	case "map":
		out := enc.Map{}
		for i, k := range n.List("ks") {
			out[k.(string)] = mkNode(n.List("xs")[i].(map[string]any))
		}
		return out
	case "pairs":
		out := enc.Pairs{}
		for i, k := range n.List("ks") {
			out = append(out, enc.Pair{Name: "Go" + k.(string), JSON: k.(string), Value: mkNode(n.List("xs")[i].(map[string]any))})
		}
		return out
	}
	panic("no such node: " + n.Str("k"))
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

func fn(m vt.J) any {
	if len(m) == 0 {
		return []any{} // as TLC writes it
	}
	return m
}

func ft(f float64, bits int) string { return strconv.FormatFloat(f, 'g', -1, bits) }

// the term of a node
func showNode(n enc.Node) vt.J {
	t := func(k, s string) vt.J { return vt.J{"k": k, "s": s} }
	switch n := n.(type) {
	case nil:
		return vt.J{"k": "gonil"}
	case enc.Nil:
		return vt.J{"k": "nil"}
	case enc.Bool:
		return t("bool", fmt.Sprint(bool(n)))
	case enc.Integer:
		return t("int", strconv.Itoa(int(n)))
	case enc.Float:
		return t("float", ft(float64(n), 64))
	case enc.Digits:
		return t("digits", string(n))
	case enc.String:
		return t("str", string(n))
	case enc.Time:
		return t("time", time.Time(n).Format(time.RFC3339Nano))
	case enc.Duration:
		return t("dur", time.Duration(n).String())
	case enc.List:
		l := []any{}
		for _, x := range n {
			l = append(l, showNode(x))
		}
		return vt.J{"k": "list", "xs": l}
	case enc.Map:
		ks, xs := []any{}, []any{}
		keys := []string{}
		for k := range n {
			keys = append(keys, k)
		}
		sortStrings(keys)
		for _, k := range keys {
			ks, xs = append(ks, k), append(xs, showNode(n[k]))
		}
		return vt.J{"k": "map", "ks": ks, "xs": xs}
	case enc.Pairs:
		ks, xs := []any{}, []any{}
		for _, p := range n {
			ks, xs = append(ks, p.JSON), append(xs, showNode(p.Value))
		}
		return vt.J{"k": "pairs", "ks": ks, "xs": xs}
	}
	return vt.J{"k": fmt.Sprintf("%T", n)}
}

func sortStrings(l []string) {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// objects of a term of a node in one order: the specification has none
func sorted(n vt.Act) vt.Act {
	xs := []any{}
	for _, x := range n.List("xs") {
		xs = append(xs, map[string]any(sorted(x.(map[string]any))))
	}
	switch n.Str("k") {
	case "list", "pairs":
		out := vt.Act{"k": n["k"], "xs": xs}
		if n["ks"] != nil {
			out["ks"] = n["ks"]
		}
		return out
	case "map":
		ks := []string{}
		by := map[string]any{}
		for i, k := range n.List("ks") {
			ks = append(ks, k.(string))
			by[k.(string)] = xs[i]
		}
		sortStrings(ks)
		kl, xl := []any{}, []any{}
		for _, k := range ks {
			kl, xl = append(kl, k), append(xl, by[k])
		}
		return vt.Act{"k": "map", "ks": kl, "xs": xl}
	}
	return n
}

// the tree of a JSON text
func tree(j []byte) vt.J {
	var x any
	d := json.NewDecoder(bytes.NewReader(j))
	d.UseNumber()
	if err := d.Decode(&x); err != nil {
		return vt.J{"j": "invalid: " + err.Error(), "text": string(j)}
	}
	if _, err := d.Token(); err != io.EOF {
		return vt.J{"j": "more than one", "text": string(j)}
	}
	return jt(x)
}

func jt(x any) vt.J {
	switch x := x.(type) {
	case nil:
		return vt.J{"j": "null"}
	case bool:
		return vt.J{"j": "b", "s": fmt.Sprint(x)}
	case json.Number:
		return vt.J{"j": "n", "s": string(x)}
	case string:
		return vt.J{"j": "s", "s": x}
	case []any:
		l := []any{}
		for _, e := range x {
			l = append(l, jt(e))
		}
		return vt.J{"j": "l", "xs": l}
	case map[string]any:
		m := vt.J{}
		for k, e := range x {
			m[k] = jt(e)
		}
		return vt.J{"j": "o", "fs": fn(m)}
	}
	panic("jt")
}

func text(j vt.Act) string {
	switch j.Str("j") {
	case "null":
		return "null"
	case "b", "n":
		return j.Str("s")
	case "s":
		return quote(j.Str("s"))
	case "l":
		s := ""
		for i, x := range j.List("xs") {
			if i > 0 {
				s += ","
			}
			s += text(x.(map[string]any))
		}
		return "[" + s + "]"
	default:
		s := ""
		for k, x := range j.Map("fs") {
			if s != "" {
				s += ","
			}
			s += quote(k) + ":" + text(x.(map[string]any))
		}
		return "{" + s + "}"
	}
}

func quote(s string) string {
	j, err := json.Marshal(s)
	check(err)
	return string(j)
}

var null = vt.J{"t": "nil"}

func val(t string, v any) vt.J { return vt.J{"t": t, "v": v} }

func keyText(v reflect.Value) string {
	for v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		return ft(v.Float(), v.Type().Bits())
	case reflect.String:
		return v.String()
	}
	return v.Kind().String()
}

// the term of a value found in a place of a type
func show(t vt.Act, v reflect.Value) vt.J {
	switch t.Str("k") {
	case "time", "etime":
		return val("time", v.Convert(typeOf[time.Time]()).Interface().(time.Time).Format(time.RFC3339Nano))
	case "shape":
		if v.IsNil() {
			return null
		}
		return val("any", val("s", v.Interface().(Shape).Name()))
	case "any", "err":
		if v.IsNil() {
			return null
		}
		return val("any", native(v.Elem()))
	case "node":
		if v.IsNil() {
			return null
		}
		return val("node", showNode(v.Interface().(enc.Node)))
	case "raw":
		if v.IsNil() {
			return null
		}
		return val("raw", tree(v.Bytes()))
	}
	switch v.Kind() {
	case reflect.Bool:
		return val("b", fmt.Sprint(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return val("i", keyText(v))
	case reflect.Float32, reflect.Float64:
		return val("f", keyText(v))
	case reflect.String:
		return val("s", v.String())
	case reflect.Pointer:
		if v.IsNil() {
			return null
		}
		return val("p", show(sub(t, "e"), v.Elem()))
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return null
		}
		l := []any{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, show(sub(t, "e"), v.Index(i)))
		}
		return val("l", l)
	case reflect.Map:
		if v.IsNil() {
			return null
		}
		m := vt.J{}
		for _, k := range v.MapKeys() {
			m[keyText(k)] = show(sub(t, "e"), v.MapIndex(k))
		}
		return val("m", fn(m))
	case reflect.Struct:
		l := []any{}
		for i, f := range t.List("fs") {
			l = append(l, show(vt.Act(f.(map[string]any)).Map("t"), v.Field(i)))
		}
		return val("o", l)
	case reflect.Complex128:
		if v.Complex() == 0 {
			return null
		}
	case reflect.Chan, reflect.Func:
		if v.IsNil() {
			return null
		}
	}
	return val("?", v.Kind().String())
}

// the term of what is in an `any`
func native(v reflect.Value) vt.J {
	in := func(v reflect.Value) vt.J {
		if v.IsNil() {
			return null
		}
		return val("any", native(v.Elem()))
	}
	switch x := v.Interface().(type) {
	case bool:
		return val("b", fmt.Sprint(x))
	case string:
		return val("s", x)
	case int64:
		return val("int64", strconv.FormatInt(x, 10))
	case float64:
		return val("float64", ft(x, 64))
	case []any:
		l := []any{}
		for i := range x {
			l = append(l, in(v.Index(i)))
		}
		return val("l", l)
	case map[string]any:
		m := vt.J{}
		for _, k := range v.MapKeys() {
			m[k.String()] = in(v.MapIndex(k))
		}
		return val("m", fn(m))
	}
	return val("?", v.Type().String())
}

func setKey(v reflect.Value, s string) {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i, err := strconv.ParseInt(s, 10, 64)
		check(err)
		v.SetInt(i)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		i, err := strconv.ParseUint(s, 10, 64)
		check(err)
		v.SetUint(i)
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(s, v.Type().Bits())
		check(err)
		v.SetFloat(f)
	case reflect.String:
		v.SetString(s)
	default:
		v.Set(reflect.ValueOf(s))
	}
}

// puts the value of a term in a place of a type
func put(t vt.Act, v vt.Act, to reflect.Value) {
	if v.Str("t") == "nil" {
		to.SetZero()
		return
	}
	switch t.Str("k") {
	case "time", "etime":
		x, err := time.Parse(time.RFC3339Nano, v.Str("v"))
		check(err)
		to.Set(reflect.ValueOf(x).Convert(to.Type()))
		return
	case "any":
		to.Set(reflect.ValueOf(putNative(v)))
		return
	case "node":
		to.Set(reflect.ValueOf(mkNode(v.Map("v"))))
		return
	case "raw":
		to.SetBytes([]byte(text(v.Map("v"))))
		return
	}
	switch to.Kind() {
	case reflect.Bool:
		to.SetBool(v.Str("v") == "true")
	case reflect.Pointer:
		to.Set(reflect.New(to.Type().Elem()))
		put(sub(t, "e"), v.Map("v"), to.Elem())
	case reflect.Slice, reflect.Array:
		if to.Kind() == reflect.Slice {
			to.Set(reflect.MakeSlice(to.Type(), len(v.List("v")), len(v.List("v"))))
		}
		for i, e := range v.List("v") {
			put(sub(t, "e"), e.(map[string]any), to.Index(i))
		}
	case reflect.Map:
		to.Set(reflect.MakeMap(to.Type()))
		for k, e := range v.Map("v") {
			kv, ev := reflect.New(to.Type().Key()).Elem(), reflect.New(to.Type().Elem()).Elem()
			setKey(kv, k)
			put(sub(t, "e"), e.(map[string]any), ev)
			to.SetMapIndex(kv, ev)
		}
	case reflect.Struct:
		for i, e := range v.List("v") {
			if to.Type().Field(i).IsExported() {
				put(vt.Act(t.List("fs")[i].(map[string]any)).Map("t"), e.(map[string]any), to.Field(i))
			}
		}
	default:
		setKey(to, v.Str("v"))
	}
}

func putNative(v vt.Act) any {
	if v.Str("t") == "nil" {
		return nil
	}
	v = v.Map("v")
	switch v.Str("t") {
	case "b":
		return v.Str("v") == "true"
	case "s":
		return v.Str("v")
	case "float64":
		f, err := strconv.ParseFloat(v.Str("v"), 64)
		check(err)
		return f
	case "l":
		l := []any{}
		for _, x := range v.List("v") {
			l = append(l, putNative(x.(map[string]any)))
		}
		return l
	default:
		m := map[string]any{}
		for k, x := range v.Map("v") {
			m[k] = putNative(x.(map[string]any))
		}
		return m
	}
}

// fills a destination
func fill(t vt.Act, to reflect.Value) {
	switch t.Str("k") {
	case "time", "etime":
		put(t, val("time", "2001-02-03T04:05:06Z"), to)
	case "any":
		to.Set(reflect.ValueOf("old"))
	case "node":
		to.Set(reflect.ValueOf(enc.String("old")))
	case "raw":
		to.SetBytes([]byte(`"old"`))
	default:
		switch to.Kind() {
		case reflect.Bool:
			to.SetBool(true)
		case reflect.Float32, reflect.Float64:
			to.SetFloat(7.5)
		case reflect.String:
			to.SetString("old")
		case reflect.Pointer:
			to.Set(reflect.New(to.Type().Elem()))
			fill(sub(t, "e"), to.Elem())
		case reflect.Slice:
			to.Set(reflect.MakeSlice(to.Type(), 1, 1))
			fill(sub(t, "e"), to.Index(0))
		case reflect.Array:
			for i := 0; i < to.Len(); i++ {
				fill(sub(t, "e"), to.Index(i))
			}
		case reflect.Map:
			if t.Str("key") == "string" {
				to.Set(reflect.MakeMap(to.Type()))
				e := reflect.New(to.Type().Elem()).Elem()
				fill(sub(t, "e"), e)
				to.SetMapIndex(reflect.ValueOf("old"), e)
			}
		case reflect.Struct:
			for i, f := range t.List("fs") {
				if to.Type().Field(i).IsExported() {
					fill(vt.Act(f.(map[string]any)).Map("t"), to.Field(i))
				}
			}
		case reflect.Interface, reflect.Chan, reflect.Func, reflect.Complex128:
		default:
			setKey(to, "7")
		}
	}
}

// ------------------------------------------------------------------ operations

func decode(a vt.Act) (ret any) {
	t := a.Map("t")
	to := reflect.New(mkType(t))
	if a.Str("o") == "filled" {
		fill(t, to.Elem())
	}
	n := mkNode(a.Map("n"))
	before := vt.Canon(showNode(n))
	unknown := vt.J{}
	h := enc.Handler{Factory: map[reflect.Type]func(ctx.C, enc.Node) (any, error){typeOf[Shape](): factory}}
	switch a.Str("h") {
	case "reject":
		h.UnhandledFields = func(c ctx.C, path []any, n enc.Node) error { return errors.New("unknown field") }
	case "collect":
		h.UnhandledFields = func(c ctx.C, path []any, n enc.Node) error {
			k := fmt.Sprint(path[len(path)-1])
			x, _ := unknown[k].(int)
			unknown[k] = x + 1
			return nil
		}
	}
	var err error
	if msg := vt.Protect(func() { err = h.Unmarshal(c, n, to.Interface()) }); msg != "" {
		return vt.J{"ok": msg}
	}
	if after := vt.Canon(showNode(n)); after != before {
		return vt.J{"ok": "the node became " + after}
	}
	if err != nil {
		return vt.J{"ok": "no"}
	}
	out := vt.J{"ok": "yes", "v": show(t, to.Elem())}
	if a.Str("h") == "collect" {
		out["unknown"] = fn(unknown)
	}
	return out
}

func encode(a vt.Act) (ret any) {
	t := a.Map("t")
	from := reflect.New(mkType(t)).Elem()
	put(t, a.Map("v"), from)
	before := vt.Canon(show(t, from))
	out := vt.J{}
	back := func(k string, f func(into any) error) {
		to := reflect.New(from.Type())
		if err := f(to.Interface()); err != nil {
			out[k] = val("error", err.Error())
		} else {
			out[k] = show(t, to.Elem())
		}
	}
	msg := vt.Protect(func() {
		n, err := enc.Marshal(c, from.Interface())
		if err != nil {
			out["error"] = err.Error()
			return
		}
		j := enc.JSON{}.Encode(c, n)
		out["json"] = tree(j)
		j2, err := enc.MarshalJSON(c, from.Interface())
		if err != nil || vt.Canon(tree(j2)) != vt.Canon(tree(j)) {
			out["error"] = fmt.Sprintf("MarshalJSON: %s, %v", j2, err)
		}
		if j3, err := json.Marshal(n); err != nil || vt.Canon(tree(j3)) != vt.Canon(tree(j)) {
			out["error"] = fmt.Sprintf("json.Marshal of the node: %s, %v", j3, err)
		}
		if t2 := tree(enc.JSON{Indent: true}.Encode(c, n)); vt.Canon(t2) != vt.Canon(tree(j)) {
			out["error"] = "indented, it is not the same"
		}
		back("direct", func(into any) error { return enc.Unmarshal(c, n, into) })
		back("text", func(into any) error { return enc.UnmarshalJSON(c, j, into) })
	})
	if msg != "" {
		return vt.J{"panic": msg}
	}
	if after := vt.Canon(show(t, from)); after != before {
		out["error"] = "the value became " + after
	}
	return out
}

// asking a node for what it is: with an error, or else with a panic
func as(a vt.Act) any {
	n := mkNode(a.Map("n"))
	var ask, must func() (vt.J, error)
	raw := func(n enc.Node) vt.J { return val("raw", tree(enc.JSON{}.Encode(c, n))) }
	num := func(n any, err error) (vt.J, error) {
		if f, ok := n.(float64); ok {
			return val("f", ft(f, 64)), err
		}
		return val("i", fmt.Sprint(n)), err
	}
	switch a.Str("what") {
	case "time":
		if n, ok := n.(enc.String); ok {
			show := func(t enc.Time) vt.J { return val("time", time.Time(t).Format(time.RFC3339Nano)) }
			ask = func() (vt.J, error) { t, err := n.AsTime(); return show(t), err }
			must = func() (vt.J, error) { return show(n.MustTime()), nil }
		}
	case "dur":
		if n, ok := n.(enc.String); ok {
			ask = func() (vt.J, error) { d, err := n.AsDuration(); return num(int64(d), err) }
			must = func() (vt.J, error) { return num(int64(n.MustDuration()), nil) }
		}
	case "map":
		ask = func() (vt.J, error) { m, err := enc.AsMap(c, n); return raw(m), err }
		must = func() (vt.J, error) { return raw(enc.MustMap(n)), nil }
	case "find":
		if n, ok := n.(enc.Pairs); ok {
			ask = func() (vt.J, error) {
				x := n.Find(a.Str("arg"))
				if x == nil {
					for _, p := range n {
						if p.JSON == a.Str("arg") { // a node which is not there, in a pair which is
							return raw(nil), nil
						}
					}
					return vt.J{"t": "nil"}, nil
				}
				return raw(x), nil
			}
		}
	case "int64", "uint64", "float64", "times":
		n, ok := n.(enc.Numeric)
		if !ok {
			break
		}
		switch a.Str("what") {
		case "int64":
			ask = func() (vt.J, error) { i, err := n.Int64(); return num(i, err) }
			if d, ok := n.(enc.Digits); ok && !d.IsFloat() {
				must = func() (vt.J, error) { return num(int64(d.MustInteger()), nil) }
			}
		case "uint64":
			ask = func() (vt.J, error) { i, err := n.Uint64(); return num(i, err) }
		case "float64":
			ask = func() (vt.J, error) { i, err := n.Float64(); return num(i, err) }
			if d, ok := n.(enc.Digits); ok {
				must = func() (vt.J, error) { return num(float64(d.MustFloat()), nil) }
			}
		case "times":
			unit := map[string]time.Duration{"ns": time.Nanosecond, "us": time.Microsecond, "ms": time.Millisecond}[a.Str("arg")]
			ask = func() (vt.J, error) { return num(int64(n.Duration(unit)), nil) }
		}
	case "isfloat":
		if n, ok := n.(enc.Digits); ok {
			ask = func() (vt.J, error) { return val("b", fmt.Sprint(n.IsFloat())), nil }
		}
	}
	if ask == nil {
		return vt.J{"ok": "free"}
	}
	run := func(f func() (vt.J, error)) (out vt.J, msg string) {
		msg = vt.Protect(func() {
			v, err := f()
			if err != nil {
				out = vt.J{"ok": "no"}
			} else {
				out = vt.J{"ok": "yes", "v": v}
			}
		})
		return
	}
	out, msg := run(ask)
	if msg != "" {
		return vt.J{"ok": msg}
	}
	if must != nil {
		m, msg := run(must)
		if msg != "" {
			m = vt.J{"ok": "no"}
		}
		if vt.Canon(m) != vt.Canon(out) {
			return vt.J{"ok": "differs", "as": out, "must": m}
		}
	}
	return out
}

func do(a vt.Act) any {
	switch a.Op() {
	case "dec":
		return decode(a)
	case "as":
		return as(a)
	}
	return encode(a)
}

// nodes in terms are compared with their objects in one order
func norm(x any) any {
	switch x := x.(type) {
	case []any:
		out := []any{}
		for _, e := range x {
			out = append(out, norm(e))
		}
		return out
	case map[string]any:
		if k, ok := x["k"].(string); ok && k == "map" && x["ks"] != nil {
			return map[string]any(sorted(x))
		}
		out := map[string]any{}
		for k, e := range x {
			out[k] = norm(e)
		}
		return out
	}
	return x
}

type obj struct{}

func (obj) Do(a vt.Act) (any, any) { return do(a), nil }
func (obj) Close()                 {}

func TestEncReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Replay("convert", 0, 0, func(vt.Act) vt.Obj { return obj{} })
	vt.Done()
}

// the same conversions, all at once
func TestEncRace(t *testing.T) {
	f, err := os.Open(os.Getenv("GRAPH"))
	check(err)
	var acts []vt.Act
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var l struct {
			A vt.Act `json:"a"`
		}
		d := json.NewDecoder(bytes.NewReader(sc.Bytes()))
		d.UseNumber()
		if d.Decode(&l) == nil && (l.A.Op() == "dec" || l.A.Op() == "enc") {
			acts = append(acts, l.A)
		}
	}
	r := rand.New(rand.NewSource(vt.Seed()))
	total := 0
	for round := 0; round < vt.Scale(6, 40); round++ {
		var wg sync.WaitGroup
		start := make(chan bool)
		for w := 0; w < 8; w++ {
			r := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < 400; k++ {
					a := acts[r.Intn(len(acts))]
					if got := do(a); vt.Canon(norm(got)) != vt.Canon(norm(a["ret"])) {
						vt.Violation("convert-concurrent", fmt.Sprintf("gave %.300s, expected %.300s", vt.Canon(got), vt.Canon(a["ret"])), a)
					}
				}
			}()
			total += 400
		}
		close(start)
		wg.Wait()
	}
	vt.Stat("concurrent_conversions", total)
	vt.Done()
}

// the terms as the specification writes them
func canon(x vt.J) (a vt.Act) {
	d := json.NewDecoder(bytes.NewReader([]byte(vt.Canon(x))))
	d.UseNumber()
	check(d.Decode(&a))
	return a
}

func canonType(t vt.J) vt.Act { return canon(t) }

func zeroOf(t vt.Act) reflect.Value { return reflect.New(mkType(t)).Elem() }
