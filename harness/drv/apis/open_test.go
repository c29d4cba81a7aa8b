package apis

import (
	"encoding/json"
	"fmt"
	"math/rand"
	gohttp "net/http"
	"os"
	"sort"
	"strings"
	"testing"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/http"
)

var gen = map[string]func() http.Doable{}
var genDesc []string

// what a reader of the document sees
type schema struct {
	Type       string             `json:"type"`
	Required   []string           `json:"required"`
	Properties map[string]*schema `json:"properties"`
	Ref        string             `json:"$ref"`
	AllOf      []*schema          `json:"allOf"`
}
type content map[string]struct {
	Schema *schema `json:"schema"`
}
type document struct {
	Paths map[string]map[string]struct {
		RequestBody *struct {
			Content content `json:"content"`
		} `json:"requestBody"`
		Responses map[string]struct {
			Content content `json:"content"`
		} `json:"responses"`
		Security *[]map[string]any `json:"security"`
	} `json:"paths"`
	Components struct {
		Schemas map[string]*schema `json:"schemas"`
	} `json:"components"`
}

func fetch(s *http.Server) (*document, error) {
	req, _ := gohttp.NewRequestWithContext(quiet(), "GET", "/openapi.json", nil)
	rec := &recorder{h: gohttp.Header{}}
	s.Mux().ServeHTTP(rec, req)
	if rec.code != 200 {
		return nil, fmt.Errorf("code %d", rec.code)
	}
	var d document
	return &d, json.Unmarshal(rec.b.Bytes(), &d)
}

// the type of a property, following the references
func (this *document) typeOf(s *schema) string {
	for n := 0; n < 5; n++ {
		if len(s.AllOf) == 1 {
			s = s.AllOf[0]
		}
		if s.Ref == "" {
			break
		}
		const prefix = "#/components/schemas/"
		if len(s.Ref) < len(prefix) || this.Components.Schemas[s.Ref[len(prefix):]] == nil {
			return "dangling " + s.Ref
		}
		s = this.Components.Schemas[s.Ref[len(prefix):]]
	}
	if s.Type == "integer" {
		return "number"
	}
	return s.Type
}

type entry struct {
	kind     string
	in, out  map[string]string
	req      []string
	security string
}

func (this *document) entry(path string) (e entry, err error) {
	p, ok := this.Paths[path]
	if !ok {
		return entry{kind: "absent"}, nil
	}
	if len(p) == 0 {
		return entry{kind: "handle"}, nil
	}
	post, ok := p["post"]
	if !ok || len(p) != 1 || post.RequestBody == nil || len(post.Responses) != 1 {
		return e, fmt.Errorf("unexpected entry %v", p)
	}
	in, out := post.RequestBody.Content["application/json"].Schema, post.Responses["200"].Content["application/json"].Schema
	if in == nil || out == nil || in.Type != "object" || out.Type != "object" {
		return e, fmt.Errorf("schemas %v %v", in, out)
	}
	e = entry{kind: "api", in: map[string]string{}, out: map[string]string{}, req: in.Required}
	for n, s := range in.Properties {
		e.in[n] = this.typeOf(s)
	}
	for n, s := range out.Properties {
		e.out[n] = this.typeOf(s)
	}
	if len(out.Required) > 0 {
		return e, fmt.Errorf("required in the response: %v", out.Required)
	}
	switch {
	case post.Security == nil || len(*post.Security) == 0:
		e.security = "none"
	default:
		jwt, anon := 0, 0
		for _, s := range *post.Security {
			if _, ok := s["jwt"]; ok && len(s) == 1 {
				jwt++
			} else if s != nil && len(s) == 0 {
				anon++
			} else {
				return e, fmt.Errorf("security %v", *post.Security)
			}
		}
		switch {
		case jwt == 1 && anon == 0:
			e.security = "jwt"
		case jwt == 1 && anon == 1:
			e.security = "jwt or anonymous"
		default:
			return e, fmt.Errorf("security %v", *post.Security)
		}
	}
	return e, nil
}

type documented struct {
	srv   *http.Server
	kinds map[string]string
}

func (this *documented) do(op, path, key string) error {
	switch op {
	case "register":
		_, err := this.srv.RegisterAPI(quiet(), gen[key]())
		return err
	case "request":
		this.srv.HandleRequest(path, func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) { return in, nil })
	case "handle":
		this.srv.Handle(path, gohttp.NotFoundHandler()) // still served, see serves()
	case "handlefunc":
		this.srv.HandleFunc(path, func(gohttp.ResponseWriter, *gohttp.Request) {})
	}
	return nil
}

// true if something is there for the path
func (this *documented) serves(path string) bool {
	req, _ := gohttp.NewRequestWithContext(quiet(), "POST", path, nil)
	_, pattern := this.srv.Mux().Handler(req)
	return pattern != ""
}

// a registration which must not succeed, it may panic
func (this *documented) refused(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = nil
		}
	}()
	if f() == nil {
		return fmt.Errorf("registered")
	}
	return nil
}

func (this *documented) Do(a vt.Act) (any, any) {
	path := a.Str("path")
	switch a.Op() {
	case "look":
	case "refused":
		err := this.refused(func() error {
			_, err := this.srv.RegisterAPI(quiet(), badOps[path+":"+a.Str("why")])
			return err
		})
		if err != nil {
			return err.Error(), nil
		}
	case "again":
		err := this.refused(func() error { return this.do(a.Str("how"), path, path+":i") })
		if err != nil {
			return err.Error(), nil
		}
	default:
		key := path
		for _, f := range a.List("fields") {
			key += ":"
			d := vt.Act(f.(map[string]any)).Map("decl")
			for _, k := range []string{"in", "out", "req", "auth"} {
				if d.Bool(k) {
					key += k[:1]
				}
			}
		}
		if err := this.do(a.Op(), path, key); err != nil {
			return err.Error(), nil
		}
		this.kinds[path] = a.Op()
	}
	d, err := fetch(this.srv)
	if err != nil {
		return err.Error(), nil
	}
	ret := vt.J{"/a": vt.J{"kind": "absent"}, "/b": vt.J{"kind": "absent"}, "/c": vt.J{"kind": "absent"}}
	for p := range d.Paths {
		e, err := d.entry(p)
		switch {
		case err != nil:
			ret[p] = err.Error()
		case this.kinds[p] == "request" && e.kind == "api" && len(e.in)+len(e.out) == 0 && e.security == "none":
			ret[p] = vt.J{"kind": "request"}
		case this.kinds[p] == "handlefunc" && e.kind == "handle":
			ret[p] = vt.J{"kind": "handlefunc"}
		case e.kind != "api":
			ret[p] = vt.J{"kind": e.kind}
		default:
			in, out, req := vt.J{"f": "no", "g": "no"}, vt.J{"f": "no", "g": "no"}, vt.J{"f": false, "g": false}
			for n := range e.in {
				in[n] = "yes"
			}
			for n := range e.out {
				out[n] = "yes"
			}
			for _, n := range e.req {
				if req[n] == true {
					req["twice"] = n
				}
				req[n] = true
			}
			ret[p] = vt.J{"kind": "api", "in": in, "out": out, "req": req, "sec": e.security}
		}
	}
	served := vt.J{}
	for _, p := range []string{"/a", "/b", "/c"} {
		served[p] = this.serves(p)
	}
	return vt.J{"doc": ret, "served": served}, nil
}

func TestOpenReplay(t *testing.T) {
	g, err := vt.LoadGraph(os.Getenv("GRAPH"))
	if err != nil {
		t.Fatal(err)
	}
	g.Replay("openapi", vt.Scale(100, 1000), 60, func(vt.Act) vt.Obj {
		return &documented{srv: http.NewServer(quiet()), kinds: map[string]string{}}
	})
	vt.Done()
}

func TestOpenTrace(t *testing.T) {
	tr := vt.OpenTraces("TRACES")
	r := rand.New(rand.NewSource(vt.Seed()))
	for n := 0; n < vt.Scale(400, 4000); n++ {
		this := &documented{srv: http.NewServer(quiet()), kinds: map[string]string{}}
		h := &vt.Hist{}
		known := map[string]bool{}
		for _, k := range r.Perm(len(genDesc))[:1+r.Intn(8)] {
			var o vt.J
			if err := json.Unmarshal([]byte(genDesc[k]), &o); err != nil {
				t.Fatal(err)
			}
			e := vt.J{"op": "register", "fields": o["fields"], "paths": o["paths"]}
			key := o["key"].(string)
			if r.Intn(4) == 0 {
				e = vt.J{"op": []string{"request", "handle"}[r.Intn(2)], "paths": []any{fmt.Sprintf("/other%d", k)}}
				this.kinds[fmt.Sprintf("/other%d", k)] = e["op"].(string)
			}
			if r.Intn(5) == 0 {
				all := []string{}
				for k := range badOps {
					all = append(all, k)
				}
				sort.Strings(all)
				bad := all[r.Intn(len(all))]
				e = vt.J{"op": "refused", "paths": []any{strings.Split(bad, ":")[0]}, "why": bad}
				err := this.refused(func() error {
					_, err := this.srv.RegisterAPI(quiet(), badOps[bad])
					return err
				})
				if err != nil {
					vt.Violation("openapi-refused", err.Error(), e)
					continue
				}
			} else if err := this.do(e["op"].(string), e["paths"].([]any)[0].(string), key); err != nil {
				vt.Violation("openapi-register", err.Error(), e)
				continue
			}
			d, err := fetch(this.srv)
			if err != nil {
				vt.Violation("openapi-fetch", err.Error(), e)
				continue
			}
			doc := []any{}
			for p := range d.Paths {
				x, err := d.entry(p)
				j := vt.J{"kind": x.kind}
				if err != nil {
					j["kind"] = err.Error()
				} else if this.kinds[p] == "request" && x.kind == "api" && len(x.in)+len(x.out) == 0 && x.security == "none" {
					j["kind"] = "request"
				} else if x.kind == "api" {
					j["in"], j["out"], j["req"], j["sec"] = list(x.in), list(x.out), append([]string{}, x.req...), x.security
				}
				doc = append(doc, vt.J{"path": p, "entry": j})
			}
			sort.Slice(doc, func(i, j int) bool { return doc[i].(vt.J)["path"].(string) < doc[j].(vt.J)["path"].(string) })
			e["doc"] = doc
			for _, p := range e["paths"].([]any) {
				known[p.(string)] = true
			}
			e["served"] = []string{}
			for p := range known {
				if this.serves(p) {
					e["served"] = append(e["served"].([]string), p)
				}
			}
			sort.Strings(e["served"].([]string))
			h.Add(e)
		}
		tr.Write(h)
	}
	tr.Close()
	vt.Done()
}

func list(m map[string]string) []any {
	out := []any{}
	for n, t := range m {
		out = append(out, vt.J{"n": n, "t": t})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].(vt.J)["n"].(string) < out[j].(vt.J)["n"].(string) })
	return out
}
