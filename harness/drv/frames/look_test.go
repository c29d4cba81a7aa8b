package frames

import "github.com/Aize-Public/forego/utils/ast"

// what is found in a source which is written for every question
const source = "/tmp/verif-frames/source.go"
const sourceLine = 200

type found struct {
	call  *ast.Call
	at    string
	err   error
	short []string
}

//go:noinline
func look() (f found) {
	f.call, f.at, f.err = ast.Caller(0)
	for i := 0; i < 3; i++ {
		f.short = append(f.short, ast.Assignment(0, i))
	}
	return f
}

// the line of the call is said to be in that source
func callLook() found {
//line /tmp/verif-frames/source.go:200
	return look()
}
