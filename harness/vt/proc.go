package vt

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
)

// Patience is how long something which must happen may take
const Patience = 20 * time.Second

// Proc is a process of its own (the same binary, with VT_CHILD set), which answers actions
type Proc struct {
	Cmd  *exec.Cmd
	in   *os.File
	out  *json.Decoder
	outF *os.File
	err  bytes.Buffer
	dead bool
}

// Child returns what the process was started for, "" if it is not a child
func Child() string { return os.Getenv("VT_CHILD") }

// ChildIO returns the channels of a child with its parent
func ChildIO() (*json.Decoder, *json.Encoder) {
	d := json.NewDecoder(os.NewFile(3, "in"))
	d.UseNumber()
	return d, json.NewEncoder(os.NewFile(4, "out"))
}

func StartProc(mode string, env ...string) *Proc {
	inR, inW, _ := os.Pipe()
	outR, outW, _ := os.Pipe()
	this := &Proc{Cmd: exec.Command(os.Args[0]), in: inW, outF: outR}
	this.Cmd.Env = append(append(os.Environ(), "VT_CHILD="+mode), env...)
	this.Cmd.ExtraFiles = []*os.File{inR, outW}
	this.Cmd.Stderr = &this.err
	this.Cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := this.Cmd.Start(); err != nil {
		panic(err)
	}
	inR.Close()
	outW.Close()
	this.out = json.NewDecoder(bufio.NewReader(outR))
	this.out.UseNumber()
	return this
}

// Decode reads the next answer
func (this *Proc) Decode(v any, timeout time.Duration) error {
	this.outF.SetReadDeadline(time.Now().Add(timeout))
	return this.out.Decode(v)
}

func (this *Proc) Do(a Act) (any, any) {
	if this.dead {
		return "no process", nil
	}
	json.NewEncoder(this.in).Encode(a)
	var res struct{ Ret, Obs any }
	if err := this.Decode(&res, 3*Patience); err != nil {
		this.Cmd.Process.Kill()
		this.dead = true
		err := this.Cmd.Wait()
		if code := this.Cmd.ProcessState.ExitCode(); code > 0 && !strings.Contains(this.err.String(), "goroutine ") {
			return "ok", J{"exit": true}
		}
		return fmt.Sprint("crash: ", err, " ", this.Stderr()), nil
	}
	return res.Ret, res.Obs
}

// Stderr is the start of what it said
func (this *Proc) Stderr() string {
	s := this.err.String()
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

func (this *Proc) Close() {
	this.in.Close()
	this.outF.Close()
	if !this.dead {
		this.dead = true
		this.Cmd.Process.Kill()
		this.Cmd.Wait()
	}
}

// Await waits until the observation is the expected one (it is returned in any case), and a bit more
func Await(want any, obs func() any, every, more time.Duration) any {
	w := Canon(want)
	for t0 := time.Now(); time.Since(t0) < Patience; time.Sleep(every) {
		if Canon(obs()) == w {
			break
		}
	}
	time.Sleep(more)
	return obs()
}
