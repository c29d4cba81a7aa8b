package apis

// operations which can't be registered

import (
	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/http"
)

type BadValue struct {
	R api.Request `url:"/a"`
}

func (BadValue) Do(ctx.C) error { return nil }

type BadASchema struct {
	F func()      `api:"in"`
	R api.Request `url:"/a"`
}

func (*BadASchema) Do(ctx.C) error { return nil }

type BadASchemaOut struct {
	G int         `api:"in"`
	F chan int    `api:"out"`
	R api.Request `url:"/a"`
}

func (*BadASchemaOut) Do(ctx.C) error { return nil }

type BadATag struct {
	F int         `api:"in,sometimes"`
	R api.Request `url:"/a"`
}

func (*BadATag) Do(ctx.C) error { return nil }

type BadATwoAuth struct {
	R api.Request `url:"/a"`
	F string      `api:"auth"`
	G string      `api:"auth,required"`
}

func (*BadATwoAuth) Do(ctx.C) error { return nil }

type BadAHidden struct {
	R api.Request `url:"/a"`
	f int         `api:"in"`
}

func (*BadAHidden) Do(ctx.C) error { return nil }

type BadANoUrl struct {
	F int `api:"in"`
}

func (*BadANoUrl) Do(ctx.C) error { return nil }

type BadABadUrl struct {
	R api.Request `url:"/a"`
	Q api.Request `url:"http://[%"`
}

func (*BadABadUrl) Do(ctx.C) error { return nil }

type BadBSchema struct {
	F func()      `api:"in"`
	R api.Request `url:"/b"`
}

func (*BadBSchema) Do(ctx.C) error { return nil }

type BadBSchemaOut struct {
	G int         `api:"in"`
	F chan int    `api:"out"`
	R api.Request `url:"/b"`
}

func (*BadBSchemaOut) Do(ctx.C) error { return nil }

type BadBTag struct {
	F int         `api:"in,sometimes"`
	R api.Request `url:"/b"`
}

func (*BadBTag) Do(ctx.C) error { return nil }

type BadBTwoAuth struct {
	R api.Request `url:"/b"`
	F string      `api:"auth"`
	G string      `api:"auth,required"`
}

func (*BadBTwoAuth) Do(ctx.C) error { return nil }

type BadBHidden struct {
	R api.Request `url:"/b"`
	f int         `api:"in"`
}

func (*BadBHidden) Do(ctx.C) error { return nil }

type BadBNoUrl struct {
	F int `api:"in"`
}

func (*BadBNoUrl) Do(ctx.C) error { return nil }

type BadBBadUrl struct {
	R api.Request `url:"/b"`
	Q api.Request `url:"http://[%"`
}

func (*BadBBadUrl) Do(ctx.C) error { return nil }

type BadCSchema struct {
	F func()      `api:"in"`
	R api.Request `url:"/c"`
}

func (*BadCSchema) Do(ctx.C) error { return nil }

type BadCSchemaOut struct {
	G int         `api:"in"`
	F chan int    `api:"out"`
	R api.Request `url:"/c"`
}

func (*BadCSchemaOut) Do(ctx.C) error { return nil }

type BadCTag struct {
	F int         `api:"in,sometimes"`
	R api.Request `url:"/c"`
}

func (*BadCTag) Do(ctx.C) error { return nil }

type BadCTwoAuth struct {
	R api.Request `url:"/c"`
	F string      `api:"auth"`
	G string      `api:"auth,required"`
}

func (*BadCTwoAuth) Do(ctx.C) error { return nil }

type BadCHidden struct {
	R api.Request `url:"/c"`
	f int         `api:"in"`
}

func (*BadCHidden) Do(ctx.C) error { return nil }

type BadCNoUrl struct {
	F int `api:"in"`
}

func (*BadCNoUrl) Do(ctx.C) error { return nil }

type BadCBadUrl struct {
	R api.Request `url:"/c"`
	Q api.Request `url:"http://[%"`
}

func (*BadCBadUrl) Do(ctx.C) error { return nil }

var badOps = map[string]http.Doable{
	"/a:schema":     &BadASchema{},
	"/a:schema-out": &BadASchemaOut{},
	"/a:tag":        &BadATag{},
	"/a:two-auth":   &BadATwoAuth{},
	"/a:hidden":     &BadAHidden{},
	"/a:no-url":     &BadANoUrl{},
	"/a:bad-url":    &BadABadUrl{},
	"/a:value":      BadValue{},
	"/b:schema":     &BadBSchema{},
	"/b:schema-out": &BadBSchemaOut{},
	"/b:tag":        &BadBTag{},
	"/b:two-auth":   &BadBTwoAuth{},
	"/b:hidden":     &BadBHidden{},
	"/b:no-url":     &BadBNoUrl{},
	"/b:bad-url":    &BadBBadUrl{},
	"/b:value":      BadValue{},
	"/c:schema":     &BadCSchema{},
	"/c:schema-out": &BadCSchemaOut{},
	"/c:tag":        &BadCTag{},
	"/c:two-auth":   &BadCTwoAuth{},
	"/c:hidden":     &BadCHidden{},
	"/c:no-url":     &BadCNoUrl{},
	"/c:bad-url":    &BadCBadUrl{},
	"/c:value":      BadValue{},
}
