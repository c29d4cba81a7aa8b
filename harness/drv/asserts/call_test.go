package asserts

// small: the assertions read the source of their caller

import (
	"testing"

	"verif/harness/vt"

	"github.com/Aize-Public/forego/test"
)

// call asserts; the operands must not be changed by it
func call(h string, x, y any) string {
	sx, _ := x.(string)
	sy, _ := y.(string)
	was := deep(x, y)
	out := outcome(func(t *testing.T) {
		switch h {
		case "EqualsType":
			test.EqualsType(t, x, y)
		case "EqualsStr":
			test.EqualsStr(t, sx, sy)
		case "NotEqualsStr":
			test.NotEqualsStr(t, sx, sy)
		case "EqualsGo":
			test.EqualsGo(t, x, y)
		case "NotEqualsGo":
			test.NotEqualsGo(t, x, y)
		case "EqualsJSON":
			test.EqualsJSON(test.Context(t), x, y)
		case "NotEqualsJSON":
			test.NotEqualsJSON(test.Context(t), x, y)
		case "Nil":
			test.Nil(t, x)
		case "NotNil":
			test.NotNil(t, x)
		case "Empty":
			test.Empty(t, x)
		case "NotEmpty":
			test.NotEmpty(t, x)
		case "Contains":
			test.Contains(t, sx, sy)
		case "NotContains":
			test.NotContains(t, sx, sy)
		case "ContainsGo":
			test.ContainsGo(t, x, sy)
		case "ContainsJSON":
			test.ContainsJSON(test.Context(t), x, sy)
		case "NotContainsJSON":
			test.NotContainsJSON(test.Context(t), x, sy)
		case "Assert":
			test.Assert(t, x.(bool))
		case "NoError":
			err, _ := x.(error)
			test.NoError(t, err)
		case "Error":
			err, _ := x.(error)
			test.Error(t, err)
		default:
			panic(h)
		}
	})
	if now := deep(x, y); now != was {
		return out + ", and changed its arguments to " + now
	}
	return out
}

func (b *lst[T]) take(op string) any {
	x := 0
	out := outcome(func(t *testing.T) {
		if op == "Shift" {
			x = b.from(test.Shift(t, &b.l))
		} else {
			x = b.from(test.Pop(t, &b.l))
		}
	})
	return vt.J{"out": out, "x": x}
}
