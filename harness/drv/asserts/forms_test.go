// Code generated by tools/genforms.py. DO NOT EDIT.
package asserts

import (
	"io"
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/test"
)

var _ = io.EOF
var _ ctx.C

func run(f func()) { f() }

var forms = map[string]func(t *testing.T){
	"lines EqualsType true": func(t *testing.T) {
		var x, y any = 1, 2
		test.EqualsType(
			t,
			x,
			y,
		)
	},
	"variable EqualsType true": func(t *testing.T) {
		var x, y any = 1, 2
		f := test.EqualsType
		f(t, x, y)
	},
	"deferred EqualsType true": func(t *testing.T) {
		var x, y any = 1, 2
		defer test.EqualsType(t, x, y)
	},
	"paren EqualsType true": func(t *testing.T) {
		var x, y any = 1, 2
		(test.EqualsType)(t, x, y)
	},
	"spread EqualsType true": func(t *testing.T) {
		var x, y any = 1, 2
		test.EqualsType(pairEqualsType(t, x, y))
	},
	"literal EqualsType true": func(t *testing.T) {
		test.EqualsType(t, func() {}, func() {})
	},
	"wrapped EqualsType true": func(t *testing.T) {
		var x, y any = 1, 2
		wrappedEqualsType(t, x, y)
	},
	"nested EqualsType true": func(t *testing.T) {
		var x, y any = 1, 2
		run(func() { test.EqualsType(t, x, y) })
	},
	"generic EqualsType true": func(t *testing.T) {
		var x, y any = 1, 2
		genericEqualsType(t, x, y)
	},
	"twice EqualsType true": func(t *testing.T) {
		var x, y any = 1, 2
		test.EqualsType(t, 1, 2)
		test.EqualsType(t, x, y)
	},
	"lines EqualsType false": func(t *testing.T) {
		var x, y any = 1, "a"
		test.EqualsType(
			t,
			x,
			y,
		)
	},
	"variable EqualsType false": func(t *testing.T) {
		var x, y any = 1, "a"
		f := test.EqualsType
		f(t, x, y)
	},
	"deferred EqualsType false": func(t *testing.T) {
		var x, y any = 1, "a"
		defer test.EqualsType(t, x, y)
	},
	"paren EqualsType false": func(t *testing.T) {
		var x, y any = 1, "a"
		(test.EqualsType)(t, x, y)
	},
	"spread EqualsType false": func(t *testing.T) {
		var x, y any = 1, "a"
		test.EqualsType(pairEqualsType(t, x, y))
	},
	"literal EqualsType false": func(t *testing.T) {
		test.EqualsType(t, 1, func() {})
	},
	"wrapped EqualsType false": func(t *testing.T) {
		var x, y any = 1, "a"
		wrappedEqualsType(t, x, y)
	},
	"nested EqualsType false": func(t *testing.T) {
		var x, y any = 1, "a"
		run(func() { test.EqualsType(t, x, y) })
	},
	"generic EqualsType false": func(t *testing.T) {
		var x, y any = 1, "a"
		genericEqualsType(t, x, y)
	},
	"twice EqualsType false": func(t *testing.T) {
		var x, y any = 1, "a"
		test.EqualsType(t, 1, 2)
		test.EqualsType(t, x, y)
	},
	"lines EqualsStr true": func(t *testing.T) {
		var x, y string = "a", "a"
		test.EqualsStr(
			t,
			x,
			y,
		)
	},
	"variable EqualsStr true": func(t *testing.T) {
		var x, y string = "a", "a"
		f := test.EqualsStr
		f(t, x, y)
	},
	"deferred EqualsStr true": func(t *testing.T) {
		var x, y string = "a", "a"
		defer test.EqualsStr(t, x, y)
	},
	"paren EqualsStr true": func(t *testing.T) {
		var x, y string = "a", "a"
		(test.EqualsStr)(t, x, y)
	},
	"spread EqualsStr true": func(t *testing.T) {
		var x, y string = "a", "a"
		test.EqualsStr(pairEqualsStr(t, x, y))
	},
	"literal EqualsStr true": func(t *testing.T) {
		var x, y string = "a", "a"
		func() {}()
		test.EqualsStr(t, x, y)
	},
	"wrapped EqualsStr true": func(t *testing.T) {
		var x, y string = "a", "a"
		wrappedEqualsStr(t, x, y)
	},
	"nested EqualsStr true": func(t *testing.T) {
		var x, y string = "a", "a"
		run(func() { test.EqualsStr(t, x, y) })
	},
	"generic EqualsStr true": func(t *testing.T) {
		var x, y string = "a", "a"
		genericEqualsStr(t, x, y)
	},
	"twice EqualsStr true": func(t *testing.T) {
		var x, y string = "a", "a"
		test.EqualsStr(t, "a", "a")
		test.EqualsStr(t, x, y)
	},
	"lines EqualsStr false": func(t *testing.T) {
		var x, y string = "a", "b"
		test.EqualsStr(
			t,
			x,
			y,
		)
	},
	"variable EqualsStr false": func(t *testing.T) {
		var x, y string = "a", "b"
		f := test.EqualsStr
		f(t, x, y)
	},
	"deferred EqualsStr false": func(t *testing.T) {
		var x, y string = "a", "b"
		defer test.EqualsStr(t, x, y)
	},
	"paren EqualsStr false": func(t *testing.T) {
		var x, y string = "a", "b"
		(test.EqualsStr)(t, x, y)
	},
	"spread EqualsStr false": func(t *testing.T) {
		var x, y string = "a", "b"
		test.EqualsStr(pairEqualsStr(t, x, y))
	},
	"literal EqualsStr false": func(t *testing.T) {
		var x, y string = "a", "b"
		func() {}()
		test.EqualsStr(t, x, y)
	},
	"wrapped EqualsStr false": func(t *testing.T) {
		var x, y string = "a", "b"
		wrappedEqualsStr(t, x, y)
	},
	"nested EqualsStr false": func(t *testing.T) {
		var x, y string = "a", "b"
		run(func() { test.EqualsStr(t, x, y) })
	},
	"generic EqualsStr false": func(t *testing.T) {
		var x, y string = "a", "b"
		genericEqualsStr(t, x, y)
	},
	"twice EqualsStr false": func(t *testing.T) {
		var x, y string = "a", "b"
		test.EqualsStr(t, "a", "a")
		test.EqualsStr(t, x, y)
	},
	"lines NotEqualsStr true": func(t *testing.T) {
		var x, y string = "a", "b"
		test.NotEqualsStr(
			t,
			x,
			y,
		)
	},
	"variable NotEqualsStr true": func(t *testing.T) {
		var x, y string = "a", "b"
		f := test.NotEqualsStr
		f(t, x, y)
	},
	"deferred NotEqualsStr true": func(t *testing.T) {
		var x, y string = "a", "b"
		defer test.NotEqualsStr(t, x, y)
	},
	"paren NotEqualsStr true": func(t *testing.T) {
		var x, y string = "a", "b"
		(test.NotEqualsStr)(t, x, y)
	},
	"spread NotEqualsStr true": func(t *testing.T) {
		var x, y string = "a", "b"
		test.NotEqualsStr(pairNotEqualsStr(t, x, y))
	},
	"literal NotEqualsStr true": func(t *testing.T) {
		var x, y string = "a", "b"
		func() {}()
		test.NotEqualsStr(t, x, y)
	},
	"wrapped NotEqualsStr true": func(t *testing.T) {
		var x, y string = "a", "b"
		wrappedNotEqualsStr(t, x, y)
	},
	"nested NotEqualsStr true": func(t *testing.T) {
		var x, y string = "a", "b"
		run(func() { test.NotEqualsStr(t, x, y) })
	},
	"generic NotEqualsStr true": func(t *testing.T) {
		var x, y string = "a", "b"
		genericNotEqualsStr(t, x, y)
	},
	"twice NotEqualsStr true": func(t *testing.T) {
		var x, y string = "a", "b"
		test.NotEqualsStr(t, "a", "b")
		test.NotEqualsStr(t, x, y)
	},
	"lines NotEqualsStr false": func(t *testing.T) {
		var x, y string = "a", "a"
		test.NotEqualsStr(
			t,
			x,
			y,
		)
	},
	"variable NotEqualsStr false": func(t *testing.T) {
		var x, y string = "a", "a"
		f := test.NotEqualsStr
		f(t, x, y)
	},
	"deferred NotEqualsStr false": func(t *testing.T) {
		var x, y string = "a", "a"
		defer test.NotEqualsStr(t, x, y)
	},
	"paren NotEqualsStr false": func(t *testing.T) {
		var x, y string = "a", "a"
		(test.NotEqualsStr)(t, x, y)
	},
	"spread NotEqualsStr false": func(t *testing.T) {
		var x, y string = "a", "a"
		test.NotEqualsStr(pairNotEqualsStr(t, x, y))
	},
	"literal NotEqualsStr false": func(t *testing.T) {
		var x, y string = "a", "a"
		func() {}()
		test.NotEqualsStr(t, x, y)
	},
	"wrapped NotEqualsStr false": func(t *testing.T) {
		var x, y string = "a", "a"
		wrappedNotEqualsStr(t, x, y)
	},
	"nested NotEqualsStr false": func(t *testing.T) {
		var x, y string = "a", "a"
		run(func() { test.NotEqualsStr(t, x, y) })
	},
	"generic NotEqualsStr false": func(t *testing.T) {
		var x, y string = "a", "a"
		genericNotEqualsStr(t, x, y)
	},
	"twice NotEqualsStr false": func(t *testing.T) {
		var x, y string = "a", "a"
		test.NotEqualsStr(t, "a", "b")
		test.NotEqualsStr(t, x, y)
	},
	"lines EqualsGo true": func(t *testing.T) {
		var x, y any = 1, 1
		test.EqualsGo(
			t,
			x,
			y,
		)
	},
	"variable EqualsGo true": func(t *testing.T) {
		var x, y any = 1, 1
		f := test.EqualsGo
		f(t, x, y)
	},
	"deferred EqualsGo true": func(t *testing.T) {
		var x, y any = 1, 1
		defer test.EqualsGo(t, x, y)
	},
	"paren EqualsGo true": func(t *testing.T) {
		var x, y any = 1, 1
		(test.EqualsGo)(t, x, y)
	},
	"spread EqualsGo true": func(t *testing.T) {
		var x, y any = 1, 1
		test.EqualsGo(pairEqualsGo(t, x, y))
	},
	"literal EqualsGo true": func(t *testing.T) {
		var x, y any = 1, 1
		func() {}()
		test.EqualsGo(t, x, y)
	},
	"wrapped EqualsGo true": func(t *testing.T) {
		var x, y any = 1, 1
		wrappedEqualsGo(t, x, y)
	},
	"nested EqualsGo true": func(t *testing.T) {
		var x, y any = 1, 1
		run(func() { test.EqualsGo(t, x, y) })
	},
	"generic EqualsGo true": func(t *testing.T) {
		var x, y any = 1, 1
		genericEqualsGo(t, x, y)
	},
	"twice EqualsGo true": func(t *testing.T) {
		var x, y any = 1, 1
		test.EqualsGo(t, 1, 1)
		test.EqualsGo(t, x, y)
	},
	"lines EqualsGo false": func(t *testing.T) {
		var x, y any = 1, 2
		test.EqualsGo(
			t,
			x,
			y,
		)
	},
	"variable EqualsGo false": func(t *testing.T) {
		var x, y any = 1, 2
		f := test.EqualsGo
		f(t, x, y)
	},
	"deferred EqualsGo false": func(t *testing.T) {
		var x, y any = 1, 2
		defer test.EqualsGo(t, x, y)
	},
	"paren EqualsGo false": func(t *testing.T) {
		var x, y any = 1, 2
		(test.EqualsGo)(t, x, y)
	},
	"spread EqualsGo false": func(t *testing.T) {
		var x, y any = 1, 2
		test.EqualsGo(pairEqualsGo(t, x, y))
	},
	"literal EqualsGo false": func(t *testing.T) {
		var x, y any = 1, 2
		func() {}()
		test.EqualsGo(t, x, y)
	},
	"wrapped EqualsGo false": func(t *testing.T) {
		var x, y any = 1, 2
		wrappedEqualsGo(t, x, y)
	},
	"nested EqualsGo false": func(t *testing.T) {
		var x, y any = 1, 2
		run(func() { test.EqualsGo(t, x, y) })
	},
	"generic EqualsGo false": func(t *testing.T) {
		var x, y any = 1, 2
		genericEqualsGo(t, x, y)
	},
	"twice EqualsGo false": func(t *testing.T) {
		var x, y any = 1, 2
		test.EqualsGo(t, 1, 1)
		test.EqualsGo(t, x, y)
	},
	"lines NotEqualsGo true": func(t *testing.T) {
		var x, y any = 1, 2
		test.NotEqualsGo(
			t,
			x,
			y,
		)
	},
	"variable NotEqualsGo true": func(t *testing.T) {
		var x, y any = 1, 2
		f := test.NotEqualsGo
		f(t, x, y)
	},
	"deferred NotEqualsGo true": func(t *testing.T) {
		var x, y any = 1, 2
		defer test.NotEqualsGo(t, x, y)
	},
	"paren NotEqualsGo true": func(t *testing.T) {
		var x, y any = 1, 2
		(test.NotEqualsGo)(t, x, y)
	},
	"spread NotEqualsGo true": func(t *testing.T) {
		var x, y any = 1, 2
		test.NotEqualsGo(pairNotEqualsGo(t, x, y))
	},
	"literal NotEqualsGo true": func(t *testing.T) {
		test.NotEqualsGo(t, func() {}, 1)
	},
	"wrapped NotEqualsGo true": func(t *testing.T) {
		var x, y any = 1, 2
		wrappedNotEqualsGo(t, x, y)
	},
	"nested NotEqualsGo true": func(t *testing.T) {
		var x, y any = 1, 2
		run(func() { test.NotEqualsGo(t, x, y) })
	},
	"generic NotEqualsGo true": func(t *testing.T) {
		var x, y any = 1, 2
		genericNotEqualsGo(t, x, y)
	},
	"twice NotEqualsGo true": func(t *testing.T) {
		var x, y any = 1, 2
		test.NotEqualsGo(t, 1, 2)
		test.NotEqualsGo(t, x, y)
	},
	"lines NotEqualsGo false": func(t *testing.T) {
		var x, y any = 1, 1
		test.NotEqualsGo(
			t,
			x,
			y,
		)
	},
	"variable NotEqualsGo false": func(t *testing.T) {
		var x, y any = 1, 1
		f := test.NotEqualsGo
		f(t, x, y)
	},
	"deferred NotEqualsGo false": func(t *testing.T) {
		var x, y any = 1, 1
		defer test.NotEqualsGo(t, x, y)
	},
	"paren NotEqualsGo false": func(t *testing.T) {
		var x, y any = 1, 1
		(test.NotEqualsGo)(t, x, y)
	},
	"spread NotEqualsGo false": func(t *testing.T) {
		var x, y any = 1, 1
		test.NotEqualsGo(pairNotEqualsGo(t, x, y))
	},
	"literal NotEqualsGo false": func(t *testing.T) {
		var x, y any = 1, 1
		func() {}()
		test.NotEqualsGo(t, x, y)
	},
	"wrapped NotEqualsGo false": func(t *testing.T) {
		var x, y any = 1, 1
		wrappedNotEqualsGo(t, x, y)
	},
	"nested NotEqualsGo false": func(t *testing.T) {
		var x, y any = 1, 1
		run(func() { test.NotEqualsGo(t, x, y) })
	},
	"generic NotEqualsGo false": func(t *testing.T) {
		var x, y any = 1, 1
		genericNotEqualsGo(t, x, y)
	},
	"twice NotEqualsGo false": func(t *testing.T) {
		var x, y any = 1, 1
		test.NotEqualsGo(t, 1, 2)
		test.NotEqualsGo(t, x, y)
	},
	"lines EqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 1
		test.EqualsJSON(
			test.Context(t),
			x,
			y,
		)
	},
	"variable EqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 1
		f := test.EqualsJSON
		f(test.Context(t), x, y)
	},
	"deferred EqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 1
		defer test.EqualsJSON(test.Context(t), x, y)
	},
	"paren EqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 1
		(test.EqualsJSON)(test.Context(t), x, y)
	},
	"spread EqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 1
		test.EqualsJSON(pairEqualsJSON(test.Context(t), x, y))
	},
	"literal EqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 1
		func() {}()
		test.EqualsJSON(test.Context(t), x, y)
	},
	"wrapped EqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 1
		wrappedEqualsJSON(t, x, y)
	},
	"nested EqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 1
		run(func() { test.EqualsJSON(test.Context(t), x, y) })
	},
	"generic EqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 1
		genericEqualsJSON(t, x, y)
	},
	"twice EqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 1
		test.EqualsJSON(test.Context(t), 1, 1)
		test.EqualsJSON(test.Context(t), x, y)
	},
	"lines EqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 2
		test.EqualsJSON(
			test.Context(t),
			x,
			y,
		)
	},
	"variable EqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 2
		f := test.EqualsJSON
		f(test.Context(t), x, y)
	},
	"deferred EqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 2
		defer test.EqualsJSON(test.Context(t), x, y)
	},
	"paren EqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 2
		(test.EqualsJSON)(test.Context(t), x, y)
	},
	"spread EqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 2
		test.EqualsJSON(pairEqualsJSON(test.Context(t), x, y))
	},
	"literal EqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 2
		func() {}()
		test.EqualsJSON(test.Context(t), x, y)
	},
	"wrapped EqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 2
		wrappedEqualsJSON(t, x, y)
	},
	"nested EqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 2
		run(func() { test.EqualsJSON(test.Context(t), x, y) })
	},
	"generic EqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 2
		genericEqualsJSON(t, x, y)
	},
	"twice EqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 2
		test.EqualsJSON(test.Context(t), 1, 1)
		test.EqualsJSON(test.Context(t), x, y)
	},
	"lines NotEqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 2
		test.NotEqualsJSON(
			test.Context(t),
			x,
			y,
		)
	},
	"variable NotEqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 2
		f := test.NotEqualsJSON
		f(test.Context(t), x, y)
	},
	"deferred NotEqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 2
		defer test.NotEqualsJSON(test.Context(t), x, y)
	},
	"paren NotEqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 2
		(test.NotEqualsJSON)(test.Context(t), x, y)
	},
	"spread NotEqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 2
		test.NotEqualsJSON(pairNotEqualsJSON(test.Context(t), x, y))
	},
	"literal NotEqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 2
		func() {}()
		test.NotEqualsJSON(test.Context(t), x, y)
	},
	"wrapped NotEqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 2
		wrappedNotEqualsJSON(t, x, y)
	},
	"nested NotEqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 2
		run(func() { test.NotEqualsJSON(test.Context(t), x, y) })
	},
	"generic NotEqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 2
		genericNotEqualsJSON(t, x, y)
	},
	"twice NotEqualsJSON true": func(t *testing.T) {
		var x, y any = 1, 2
		test.NotEqualsJSON(test.Context(t), 1, 2)
		test.NotEqualsJSON(test.Context(t), x, y)
	},
	"lines NotEqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 1
		test.NotEqualsJSON(
			test.Context(t),
			x,
			y,
		)
	},
	"variable NotEqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 1
		f := test.NotEqualsJSON
		f(test.Context(t), x, y)
	},
	"deferred NotEqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 1
		defer test.NotEqualsJSON(test.Context(t), x, y)
	},
	"paren NotEqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 1
		(test.NotEqualsJSON)(test.Context(t), x, y)
	},
	"spread NotEqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 1
		test.NotEqualsJSON(pairNotEqualsJSON(test.Context(t), x, y))
	},
	"literal NotEqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 1
		func() {}()
		test.NotEqualsJSON(test.Context(t), x, y)
	},
	"wrapped NotEqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 1
		wrappedNotEqualsJSON(t, x, y)
	},
	"nested NotEqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 1
		run(func() { test.NotEqualsJSON(test.Context(t), x, y) })
	},
	"generic NotEqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 1
		genericNotEqualsJSON(t, x, y)
	},
	"twice NotEqualsJSON false": func(t *testing.T) {
		var x, y any = 1, 1
		test.NotEqualsJSON(test.Context(t), 1, 2)
		test.NotEqualsJSON(test.Context(t), x, y)
	},
	"lines Nil true": func(t *testing.T) {
		var x any = nil
		test.Nil(
			t,
			x,
		)
	},
	"variable Nil true": func(t *testing.T) {
		var x any = nil
		f := test.Nil
		f(t, x)
	},
	"deferred Nil true": func(t *testing.T) {
		var x any = nil
		defer test.Nil(t, x)
	},
	"paren Nil true": func(t *testing.T) {
		var x any = nil
		(test.Nil)(t, x)
	},
	"spread Nil true": func(t *testing.T) {
		var x any = nil
		test.Nil(pairNil(t, x))
	},
	"literal Nil true": func(t *testing.T) {
		var x any = nil
		func() {}()
		test.Nil(t, x)
	},
	"wrapped Nil true": func(t *testing.T) {
		var x any = nil
		wrappedNil(t, x)
	},
	"nested Nil true": func(t *testing.T) {
		var x any = nil
		run(func() { test.Nil(t, x) })
	},
	"generic Nil true": func(t *testing.T) {
		var x any = nil
		genericNil(t, x)
	},
	"twice Nil true": func(t *testing.T) {
		var x any = nil
		test.Nil(t, nil)
		test.Nil(t, x)
	},
	"lines Nil false": func(t *testing.T) {
		var x any = 1
		test.Nil(
			t,
			x,
		)
	},
	"variable Nil false": func(t *testing.T) {
		var x any = 1
		f := test.Nil
		f(t, x)
	},
	"deferred Nil false": func(t *testing.T) {
		var x any = 1
		defer test.Nil(t, x)
	},
	"paren Nil false": func(t *testing.T) {
		var x any = 1
		(test.Nil)(t, x)
	},
	"spread Nil false": func(t *testing.T) {
		var x any = 1
		test.Nil(pairNil(t, x))
	},
	"literal Nil false": func(t *testing.T) {
		test.Nil(t, func() {})
	},
	"wrapped Nil false": func(t *testing.T) {
		var x any = 1
		wrappedNil(t, x)
	},
	"nested Nil false": func(t *testing.T) {
		var x any = 1
		run(func() { test.Nil(t, x) })
	},
	"generic Nil false": func(t *testing.T) {
		var x any = 1
		genericNil(t, x)
	},
	"twice Nil false": func(t *testing.T) {
		var x any = 1
		test.Nil(t, nil)
		test.Nil(t, x)
	},
	"lines NotNil true": func(t *testing.T) {
		var x any = 1
		test.NotNil(
			t,
			x,
		)
	},
	"variable NotNil true": func(t *testing.T) {
		var x any = 1
		f := test.NotNil
		f(t, x)
	},
	"deferred NotNil true": func(t *testing.T) {
		var x any = 1
		defer test.NotNil(t, x)
	},
	"paren NotNil true": func(t *testing.T) {
		var x any = 1
		(test.NotNil)(t, x)
	},
	"spread NotNil true": func(t *testing.T) {
		var x any = 1
		test.NotNil(pairNotNil(t, x))
	},
	"literal NotNil true": func(t *testing.T) {
		test.NotNil(t, func() {})
	},
	"wrapped NotNil true": func(t *testing.T) {
		var x any = 1
		wrappedNotNil(t, x)
	},
	"nested NotNil true": func(t *testing.T) {
		var x any = 1
		run(func() { test.NotNil(t, x) })
	},
	"generic NotNil true": func(t *testing.T) {
		var x any = 1
		genericNotNil(t, x)
	},
	"twice NotNil true": func(t *testing.T) {
		var x any = 1
		test.NotNil(t, 1)
		test.NotNil(t, x)
	},
	"lines NotNil false": func(t *testing.T) {
		var x any = nil
		test.NotNil(
			t,
			x,
		)
	},
	"variable NotNil false": func(t *testing.T) {
		var x any = nil
		f := test.NotNil
		f(t, x)
	},
	"deferred NotNil false": func(t *testing.T) {
		var x any = nil
		defer test.NotNil(t, x)
	},
	"paren NotNil false": func(t *testing.T) {
		var x any = nil
		(test.NotNil)(t, x)
	},
	"spread NotNil false": func(t *testing.T) {
		var x any = nil
		test.NotNil(pairNotNil(t, x))
	},
	"literal NotNil false": func(t *testing.T) {
		var x any = nil
		func() {}()
		test.NotNil(t, x)
	},
	"wrapped NotNil false": func(t *testing.T) {
		var x any = nil
		wrappedNotNil(t, x)
	},
	"nested NotNil false": func(t *testing.T) {
		var x any = nil
		run(func() { test.NotNil(t, x) })
	},
	"generic NotNil false": func(t *testing.T) {
		var x any = nil
		genericNotNil(t, x)
	},
	"twice NotNil false": func(t *testing.T) {
		var x any = nil
		test.NotNil(t, 1)
		test.NotNil(t, x)
	},
	"lines Empty true": func(t *testing.T) {
		var x any = ""
		test.Empty(
			t,
			x,
		)
	},
	"variable Empty true": func(t *testing.T) {
		var x any = ""
		f := test.Empty
		f(t, x)
	},
	"deferred Empty true": func(t *testing.T) {
		var x any = ""
		defer test.Empty(t, x)
	},
	"paren Empty true": func(t *testing.T) {
		var x any = ""
		(test.Empty)(t, x)
	},
	"spread Empty true": func(t *testing.T) {
		var x any = ""
		test.Empty(pairEmpty(t, x))
	},
	"literal Empty true": func(t *testing.T) {
		var x any = ""
		func() {}()
		test.Empty(t, x)
	},
	"wrapped Empty true": func(t *testing.T) {
		var x any = ""
		wrappedEmpty(t, x)
	},
	"nested Empty true": func(t *testing.T) {
		var x any = ""
		run(func() { test.Empty(t, x) })
	},
	"generic Empty true": func(t *testing.T) {
		var x any = ""
		genericEmpty(t, x)
	},
	"twice Empty true": func(t *testing.T) {
		var x any = ""
		test.Empty(t, "")
		test.Empty(t, x)
	},
	"lines Empty false": func(t *testing.T) {
		var x any = "a"
		test.Empty(
			t,
			x,
		)
	},
	"variable Empty false": func(t *testing.T) {
		var x any = "a"
		f := test.Empty
		f(t, x)
	},
	"deferred Empty false": func(t *testing.T) {
		var x any = "a"
		defer test.Empty(t, x)
	},
	"paren Empty false": func(t *testing.T) {
		var x any = "a"
		(test.Empty)(t, x)
	},
	"spread Empty false": func(t *testing.T) {
		var x any = "a"
		test.Empty(pairEmpty(t, x))
	},
	"literal Empty false": func(t *testing.T) {
		var x any = "a"
		func() {}()
		test.Empty(t, x)
	},
	"wrapped Empty false": func(t *testing.T) {
		var x any = "a"
		wrappedEmpty(t, x)
	},
	"nested Empty false": func(t *testing.T) {
		var x any = "a"
		run(func() { test.Empty(t, x) })
	},
	"generic Empty false": func(t *testing.T) {
		var x any = "a"
		genericEmpty(t, x)
	},
	"twice Empty false": func(t *testing.T) {
		var x any = "a"
		test.Empty(t, "")
		test.Empty(t, x)
	},
	"lines NotEmpty true": func(t *testing.T) {
		var x any = "a"
		test.NotEmpty(
			t,
			x,
		)
	},
	"variable NotEmpty true": func(t *testing.T) {
		var x any = "a"
		f := test.NotEmpty
		f(t, x)
	},
	"deferred NotEmpty true": func(t *testing.T) {
		var x any = "a"
		defer test.NotEmpty(t, x)
	},
	"paren NotEmpty true": func(t *testing.T) {
		var x any = "a"
		(test.NotEmpty)(t, x)
	},
	"spread NotEmpty true": func(t *testing.T) {
		var x any = "a"
		test.NotEmpty(pairNotEmpty(t, x))
	},
	"literal NotEmpty true": func(t *testing.T) {
		var x any = "a"
		func() {}()
		test.NotEmpty(t, x)
	},
	"wrapped NotEmpty true": func(t *testing.T) {
		var x any = "a"
		wrappedNotEmpty(t, x)
	},
	"nested NotEmpty true": func(t *testing.T) {
		var x any = "a"
		run(func() { test.NotEmpty(t, x) })
	},
	"generic NotEmpty true": func(t *testing.T) {
		var x any = "a"
		genericNotEmpty(t, x)
	},
	"twice NotEmpty true": func(t *testing.T) {
		var x any = "a"
		test.NotEmpty(t, "a")
		test.NotEmpty(t, x)
	},
	"lines NotEmpty false": func(t *testing.T) {
		var x any = ""
		test.NotEmpty(
			t,
			x,
		)
	},
	"variable NotEmpty false": func(t *testing.T) {
		var x any = ""
		f := test.NotEmpty
		f(t, x)
	},
	"deferred NotEmpty false": func(t *testing.T) {
		var x any = ""
		defer test.NotEmpty(t, x)
	},
	"paren NotEmpty false": func(t *testing.T) {
		var x any = ""
		(test.NotEmpty)(t, x)
	},
	"spread NotEmpty false": func(t *testing.T) {
		var x any = ""
		test.NotEmpty(pairNotEmpty(t, x))
	},
	"literal NotEmpty false": func(t *testing.T) {
		var x any = ""
		func() {}()
		test.NotEmpty(t, x)
	},
	"wrapped NotEmpty false": func(t *testing.T) {
		var x any = ""
		wrappedNotEmpty(t, x)
	},
	"nested NotEmpty false": func(t *testing.T) {
		var x any = ""
		run(func() { test.NotEmpty(t, x) })
	},
	"generic NotEmpty false": func(t *testing.T) {
		var x any = ""
		genericNotEmpty(t, x)
	},
	"twice NotEmpty false": func(t *testing.T) {
		var x any = ""
		test.NotEmpty(t, "a")
		test.NotEmpty(t, x)
	},
	"lines Assert true": func(t *testing.T) {
		var x bool = true
		test.Assert(
			t,
			x,
		)
	},
	"variable Assert true": func(t *testing.T) {
		var x bool = true
		f := test.Assert
		f(t, x)
	},
	"deferred Assert true": func(t *testing.T) {
		var x bool = true
		defer test.Assert(t, x)
	},
	"paren Assert true": func(t *testing.T) {
		var x bool = true
		(test.Assert)(t, x)
	},
	"spread Assert true": func(t *testing.T) {
		var x bool = true
		test.Assert(pairAssert(t, x))
	},
	"literal Assert true": func(t *testing.T) {
		var x bool = true
		func() {}()
		test.Assert(t, x)
	},
	"wrapped Assert true": func(t *testing.T) {
		var x bool = true
		wrappedAssert(t, x)
	},
	"nested Assert true": func(t *testing.T) {
		var x bool = true
		run(func() { test.Assert(t, x) })
	},
	"generic Assert true": func(t *testing.T) {
		var x bool = true
		genericAssert(t, x)
	},
	"twice Assert true": func(t *testing.T) {
		var x bool = true
		test.Assert(t, true)
		test.Assert(t, x)
	},
	"lines Assert false": func(t *testing.T) {
		var x bool = false
		test.Assert(
			t,
			x,
		)
	},
	"variable Assert false": func(t *testing.T) {
		var x bool = false
		f := test.Assert
		f(t, x)
	},
	"deferred Assert false": func(t *testing.T) {
		var x bool = false
		defer test.Assert(t, x)
	},
	"paren Assert false": func(t *testing.T) {
		var x bool = false
		(test.Assert)(t, x)
	},
	"spread Assert false": func(t *testing.T) {
		var x bool = false
		test.Assert(pairAssert(t, x))
	},
	"literal Assert false": func(t *testing.T) {
		var x bool = false
		func() {}()
		test.Assert(t, x)
	},
	"wrapped Assert false": func(t *testing.T) {
		var x bool = false
		wrappedAssert(t, x)
	},
	"nested Assert false": func(t *testing.T) {
		var x bool = false
		run(func() { test.Assert(t, x) })
	},
	"generic Assert false": func(t *testing.T) {
		var x bool = false
		genericAssert(t, x)
	},
	"twice Assert false": func(t *testing.T) {
		var x bool = false
		test.Assert(t, true)
		test.Assert(t, x)
	},
	"lines NoError true": func(t *testing.T) {
		var x error = nil
		test.NoError(
			t,
			x,
		)
	},
	"variable NoError true": func(t *testing.T) {
		var x error = nil
		f := test.NoError
		f(t, x)
	},
	"deferred NoError true": func(t *testing.T) {
		var x error = nil
		defer test.NoError(t, x)
	},
	"paren NoError true": func(t *testing.T) {
		var x error = nil
		(test.NoError)(t, x)
	},
	"spread NoError true": func(t *testing.T) {
		var x error = nil
		test.NoError(pairNoError(t, x))
	},
	"literal NoError true": func(t *testing.T) {
		var x error = nil
		func() {}()
		test.NoError(t, x)
	},
	"wrapped NoError true": func(t *testing.T) {
		var x error = nil
		wrappedNoError(t, x)
	},
	"nested NoError true": func(t *testing.T) {
		var x error = nil
		run(func() { test.NoError(t, x) })
	},
	"generic NoError true": func(t *testing.T) {
		var x error = nil
		genericNoError(t, x)
	},
	"twice NoError true": func(t *testing.T) {
		var x error = nil
		test.NoError(t, nil)
		test.NoError(t, x)
	},
	"lines NoError false": func(t *testing.T) {
		var x error = io.EOF
		test.NoError(
			t,
			x,
		)
	},
	"variable NoError false": func(t *testing.T) {
		var x error = io.EOF
		f := test.NoError
		f(t, x)
	},
	"deferred NoError false": func(t *testing.T) {
		var x error = io.EOF
		defer test.NoError(t, x)
	},
	"paren NoError false": func(t *testing.T) {
		var x error = io.EOF
		(test.NoError)(t, x)
	},
	"spread NoError false": func(t *testing.T) {
		var x error = io.EOF
		test.NoError(pairNoError(t, x))
	},
	"literal NoError false": func(t *testing.T) {
		var x error = io.EOF
		func() {}()
		test.NoError(t, x)
	},
	"wrapped NoError false": func(t *testing.T) {
		var x error = io.EOF
		wrappedNoError(t, x)
	},
	"nested NoError false": func(t *testing.T) {
		var x error = io.EOF
		run(func() { test.NoError(t, x) })
	},
	"generic NoError false": func(t *testing.T) {
		var x error = io.EOF
		genericNoError(t, x)
	},
	"twice NoError false": func(t *testing.T) {
		var x error = io.EOF
		test.NoError(t, nil)
		test.NoError(t, x)
	},
	"lines Error true": func(t *testing.T) {
		var x error = io.EOF
		test.Error(
			t,
			x,
		)
	},
	"variable Error true": func(t *testing.T) {
		var x error = io.EOF
		f := test.Error
		f(t, x)
	},
	"deferred Error true": func(t *testing.T) {
		var x error = io.EOF
		defer test.Error(t, x)
	},
	"paren Error true": func(t *testing.T) {
		var x error = io.EOF
		(test.Error)(t, x)
	},
	"spread Error true": func(t *testing.T) {
		var x error = io.EOF
		test.Error(pairError(t, x))
	},
	"literal Error true": func(t *testing.T) {
		var x error = io.EOF
		func() {}()
		test.Error(t, x)
	},
	"wrapped Error true": func(t *testing.T) {
		var x error = io.EOF
		wrappedError(t, x)
	},
	"nested Error true": func(t *testing.T) {
		var x error = io.EOF
		run(func() { test.Error(t, x) })
	},
	"generic Error true": func(t *testing.T) {
		var x error = io.EOF
		genericError(t, x)
	},
	"twice Error true": func(t *testing.T) {
		var x error = io.EOF
		test.Error(t, io.EOF)
		test.Error(t, x)
	},
	"lines Error false": func(t *testing.T) {
		var x error = nil
		test.Error(
			t,
			x,
		)
	},
	"variable Error false": func(t *testing.T) {
		var x error = nil
		f := test.Error
		f(t, x)
	},
	"deferred Error false": func(t *testing.T) {
		var x error = nil
		defer test.Error(t, x)
	},
	"paren Error false": func(t *testing.T) {
		var x error = nil
		(test.Error)(t, x)
	},
	"spread Error false": func(t *testing.T) {
		var x error = nil
		test.Error(pairError(t, x))
	},
	"literal Error false": func(t *testing.T) {
		var x error = nil
		func() {}()
		test.Error(t, x)
	},
	"wrapped Error false": func(t *testing.T) {
		var x error = nil
		wrappedError(t, x)
	},
	"nested Error false": func(t *testing.T) {
		var x error = nil
		run(func() { test.Error(t, x) })
	},
	"generic Error false": func(t *testing.T) {
		var x error = nil
		genericError(t, x)
	},
	"twice Error false": func(t *testing.T) {
		var x error = nil
		test.Error(t, io.EOF)
		test.Error(t, x)
	},
	"lines Contains true": func(t *testing.T) {
		var x, y string = "ab", "b"
		test.Contains(
			t,
			x,
			y,
		)
	},
	"variable Contains true": func(t *testing.T) {
		var x, y string = "ab", "b"
		f := test.Contains
		f(t, x, y)
	},
	"deferred Contains true": func(t *testing.T) {
		var x, y string = "ab", "b"
		defer test.Contains(t, x, y)
	},
	"paren Contains true": func(t *testing.T) {
		var x, y string = "ab", "b"
		(test.Contains)(t, x, y)
	},
	"spread Contains true": func(t *testing.T) {
		var x, y string = "ab", "b"
		test.Contains(pairContains(t, x, y))
	},
	"literal Contains true": func(t *testing.T) {
		var x, y string = "ab", "b"
		func() {}()
		test.Contains(t, x, y)
	},
	"wrapped Contains true": func(t *testing.T) {
		var x, y string = "ab", "b"
		wrappedContains(t, x, y)
	},
	"nested Contains true": func(t *testing.T) {
		var x, y string = "ab", "b"
		run(func() { test.Contains(t, x, y) })
	},
	"generic Contains true": func(t *testing.T) {
		var x, y string = "ab", "b"
		genericContains(t, x, y)
	},
	"twice Contains true": func(t *testing.T) {
		var x, y string = "ab", "b"
		test.Contains(t, "ab", "b")
		test.Contains(t, x, y)
	},
	"lines Contains false": func(t *testing.T) {
		var x, y string = "ab", "c"
		test.Contains(
			t,
			x,
			y,
		)
	},
	"variable Contains false": func(t *testing.T) {
		var x, y string = "ab", "c"
		f := test.Contains
		f(t, x, y)
	},
	"deferred Contains false": func(t *testing.T) {
		var x, y string = "ab", "c"
		defer test.Contains(t, x, y)
	},
	"paren Contains false": func(t *testing.T) {
		var x, y string = "ab", "c"
		(test.Contains)(t, x, y)
	},
	"spread Contains false": func(t *testing.T) {
		var x, y string = "ab", "c"
		test.Contains(pairContains(t, x, y))
	},
	"literal Contains false": func(t *testing.T) {
		var x, y string = "ab", "c"
		func() {}()
		test.Contains(t, x, y)
	},
	"wrapped Contains false": func(t *testing.T) {
		var x, y string = "ab", "c"
		wrappedContains(t, x, y)
	},
	"nested Contains false": func(t *testing.T) {
		var x, y string = "ab", "c"
		run(func() { test.Contains(t, x, y) })
	},
	"generic Contains false": func(t *testing.T) {
		var x, y string = "ab", "c"
		genericContains(t, x, y)
	},
	"twice Contains false": func(t *testing.T) {
		var x, y string = "ab", "c"
		test.Contains(t, "ab", "b")
		test.Contains(t, x, y)
	},
}

func pairEqualsType(t *testing.T, x, y any) (*testing.T, any, any) { return t, x, y }
func wrappedEqualsType(t *testing.T, x, y any) {
	t.Helper()
	test.EqualsType(t, x, y)
}
func genericEqualsType[T any](t *testing.T, x, y T)                        { test.EqualsType(t, x, y) }
func pairEqualsStr(t *testing.T, x, y string) (*testing.T, string, string) { return t, x, y }
func wrappedEqualsStr(t *testing.T, x, y string) {
	t.Helper()
	test.EqualsStr(t, x, y)
}
func genericEqualsStr[T ~string](t *testing.T, x, y T) {
	test.EqualsStr(t, string(x), string(y))
}
func pairNotEqualsStr(t *testing.T, x, y string) (*testing.T, string, string) { return t, x, y }
func wrappedNotEqualsStr(t *testing.T, x, y string) {
	t.Helper()
	test.NotEqualsStr(t, x, y)
}
func genericNotEqualsStr[T ~string](t *testing.T, x, y T) {
	test.NotEqualsStr(t, string(x), string(y))
}
func pairEqualsGo(t *testing.T, x, y any) (*testing.T, any, any) { return t, x, y }
func wrappedEqualsGo(t *testing.T, x, y any) {
	t.Helper()
	test.EqualsGo(t, x, y)
}
func genericEqualsGo[T any](t *testing.T, x, y T)                   { test.EqualsGo(t, x, y) }
func pairNotEqualsGo(t *testing.T, x, y any) (*testing.T, any, any) { return t, x, y }
func wrappedNotEqualsGo(t *testing.T, x, y any) {
	t.Helper()
	test.NotEqualsGo(t, x, y)
}
func genericNotEqualsGo[T any](t *testing.T, x, y T)     { test.NotEqualsGo(t, x, y) }
func pairEqualsJSON(t ctx.C, x, y any) (ctx.C, any, any) { return t, x, y }
func wrappedEqualsJSON(t *testing.T, x, y any) {
	t.Helper()
	test.EqualsJSON(test.Context(t), x, y)
}
func genericEqualsJSON[T any](t *testing.T, x, y T)         { test.EqualsJSON(test.Context(t), x, y) }
func pairNotEqualsJSON(t ctx.C, x, y any) (ctx.C, any, any) { return t, x, y }
func wrappedNotEqualsJSON(t *testing.T, x, y any) {
	t.Helper()
	test.NotEqualsJSON(test.Context(t), x, y)
}
func genericNotEqualsJSON[T any](t *testing.T, x, y T) { test.NotEqualsJSON(test.Context(t), x, y) }
func pairNil(t *testing.T, x any) (*testing.T, any)    { return t, x }
func wrappedNil(t *testing.T, x any) {
	t.Helper()
	test.Nil(t, x)
}
func genericNil[T any](t *testing.T, x T)              { test.Nil(t, x) }
func pairNotNil(t *testing.T, x any) (*testing.T, any) { return t, x }
func wrappedNotNil(t *testing.T, x any) {
	t.Helper()
	test.NotNil(t, x)
}
func genericNotNil[T any](t *testing.T, x T)          { test.NotNil(t, x) }
func pairEmpty(t *testing.T, x any) (*testing.T, any) { return t, x }
func wrappedEmpty(t *testing.T, x any) {
	t.Helper()
	test.Empty(t, x)
}
func genericEmpty[T any](t *testing.T, x T)              { test.Empty(t, x) }
func pairNotEmpty(t *testing.T, x any) (*testing.T, any) { return t, x }
func wrappedNotEmpty(t *testing.T, x any) {
	t.Helper()
	test.NotEmpty(t, x)
}
func genericNotEmpty[T any](t *testing.T, x T)           { test.NotEmpty(t, x) }
func pairAssert(t *testing.T, x bool) (*testing.T, bool) { return t, x }
func wrappedAssert(t *testing.T, x bool) {
	t.Helper()
	test.Assert(t, x)
}
func genericAssert[T ~bool](t *testing.T, x T) {
	test.Assert(t, bool(x))
}
func pairNoError(t *testing.T, x error) (*testing.T, error) { return t, x }
func wrappedNoError(t *testing.T, x error) {
	t.Helper()
	test.NoError(t, x)
}
func genericNoError[T error](t *testing.T, x T) {
	test.NoError(t, error(x))
}
func pairError(t *testing.T, x error) (*testing.T, error) { return t, x }
func wrappedError(t *testing.T, x error) {
	t.Helper()
	test.Error(t, x)
}
func genericError[T error](t *testing.T, x T) {
	test.Error(t, error(x))
}
func pairContains(t *testing.T, x, y string) (*testing.T, string, string) { return t, x, y }
func wrappedContains(t *testing.T, x, y string) {
	t.Helper()
	test.Contains(t, x, y)
}
func genericContains[T ~string](t *testing.T, x, y T) {
	test.Contains(t, string(x), string(y))
}
