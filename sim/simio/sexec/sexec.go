// Package sexec replaces os/exec: programs are models, their failures faults.
package sexec

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"time"

	"zkverif/simio"
)

var ErrNotFound = errors.New("executable file not found in $PATH")

// Error is returned when a program cannot be found.
type Error struct {
	Name string
	Err  error
}

func (e *Error) Error() string { return "exec: " + fmt.Sprintf("%q", e.Name) + ": " + e.Err.Error() }
func (e *Error) Unwrap() error { return e.Err }

// ProcessState describes a finished process.
type ProcessState struct {
	code int
	sig  bool
}

func (p *ProcessState) ExitCode() int {
	if p == nil || p.sig {
		return -1
	}
	return p.code
}
func (p *ProcessState) Exited() bool  { return !p.sig }
func (p *ProcessState) Success() bool { return !p.sig && p.code == 0 }
func (p *ProcessState) String() string {
	if p.sig {
		return "signal: killed"
	}
	return fmt.Sprintf("exit status %d", p.code)
}

// ExitError is an unsuccessful exit.
type ExitError struct {
	*ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// Cmd is a simulated command.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	Err          error
	WaitDelay    time.Duration
	Cancel       func() error
	ProcessState *ProcessState
	started      bool
	pend         error
	pout, perr   *bytes.Buffer
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	return Command(name, arg...)
}

func LookPath(file string) (string, error) {
	if f := simio.W.Op("lookpath", file); f != nil {
		return "", &Error{file, ErrNotFound}
	}
	return file, nil
}

func (c *Cmd) String() string { return strings.Join(c.Args, " ") }

func (c *Cmd) Start() error {
	if c.started {
		return errors.New("exec: already started")
	}
	c.started = true
	w := simio.W
	f := w.Op("exec", c.Path)
	if f != nil {
		switch f.Kind {
		case "missing":
			return simio.Errno("fork/exec", c.Path, "enoent")
		case "notfound":
			return &Error{c.Path, ErrNotFound}
		case "eacces":
			return simio.Errno("fork/exec", c.Path, "eacces")
		case "eagain":
			return &os.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.EAGAIN}
		}
	}
	so, se := w.Prog(c.Path, c.Args[1:])
	c.ProcessState = &ProcessState{}
	cut := func(s string) string {
		if len(s) == 0 {
			return s
		}
		return s[:uint64(f.Arg)%uint64(len(s))]
	}
	if f != nil {
		switch f.Kind {
		case "exit":
			c.ProcessState.code = 1 + int(uint64(f.Arg)%120)
		case "exit-empty":
			c.ProcessState.code, so = 1, ""
		case "exit-cut":
			c.ProcessState.code, so = 2, cut(so)
		case "killed":
			c.ProcessState.sig, so = true, cut(so)
		case "killed-late":
			c.ProcessState.sig = true
		case "ioerr":
			c.pend = errors.New("read |0: input/output error")
			so = cut(so)
		case "cut":
			so = cut(so)
		case "empty":
			so = ""
		case "garbage":
			so = []string{"error\n", "Segmentation fault\n", "usage: see manual\n", "\x00\xff\xfe", "nan nan\n", "I: , J: , K: \n", "I: x, J: y, K: z\n", "{\n}\n", "null\n", "inf\n", "\n\n\n"}[uint64(f.Arg)%11]
		}
	}
	out, er := c.Stdout, c.Stderr
	if c.pout != nil {
		out = c.pout
	}
	if c.perr != nil {
		er = c.perr
	}
	if er != nil {
		io.WriteString(er, se)
	}
	if out != nil {
		io.WriteString(out, so)
	}
	w.Outs = append(w.Outs, so)
	if !c.ProcessState.Success() && c.pend == nil {
		ee := &ExitError{ProcessState: c.ProcessState}
		if er == nil {
			ee.Stderr = []byte(se)
		}
		c.pend = ee
	}
	return nil
}

func (c *Cmd) Wait() error {
	if !c.started {
		return errors.New("exec: not started")
	}
	return c.pend
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil || c.Stderr != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	c.pout = &bytes.Buffer{}
	return io.NopCloser(c.pout), nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	c.perr = &bytes.Buffer{}
	return io.NopCloser(c.perr), nil
}
