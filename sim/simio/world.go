// Package simio is the simulated operating system behind the generated copies
// of util and proximity: files, processes, a clock and injected faults. One
// World is one run; every fault is decided by its plan, so a run repeats
// exactly.
package simio

import (
	"errors"
	"fmt"
	"io/fs"
	"syscall"
	"time"

	"zkverif/simrt"
)

// Fault fires at the nth operation (from 0) of a class within one step.
type Fault struct {
	Class string `json:"class"`
	Nth   int    `json:"nth"`
	Kind  string `json:"kind"`
	Arg   int64  `json:"arg,omitempty"`
}

// Inode is the content of a file.
type Inode struct{ Data []byte }

// World is one simulated machine.
type World struct {
	Files  map[string]*Inode
	Faults []Fault
	count  map[string]int
	Fired  []Fault
	Full   bool // the disk stays full until the step ends
	NowUs  int64
	Cost   map[string]int64 // simulated duration of an operation class
	Log    []string
	Ops    int64
	Prog   func(path string, args []string) (stdout, stderr string)
	Jumped bool
	Outs   []string // what the programs of this step printed
	Said   []byte   // what the code under test wrote to its standard output
	Moaned []byte   // and to its standard error
	Dead   bool     // the process crashed: nothing it does has an effect any more
	rng    uint64
}

// Crash is the panic value that ends a simulated process.
const Crash = "simulated crash"

// Die ends the process at this point.
func (w *World) Die() {
	w.Dead = true
	panic(Crash)
}

// W is the current world. Runs that use it hold a lock.
var W *World

// New makes a world.
func New() *World {
	return &World{Files: map[string]*Inode{}, count: map[string]int{}, NowUs: 1700000000000000, Cost: map[string]int64{}}
}

// Begin starts a step with its own fault plan.
func (w *World) Begin(fs []Fault) {
	w.Faults, w.Fired, w.Full, w.Jumped, w.Dead = fs, nil, false, false, false
	w.count = map[string]int{}
	w.Outs, w.Said, w.Moaned = nil, nil, nil
}

// Say records what the code under test prints.
func Say(b string, stderr bool) {
	if W == nil {
		return
	}
	p := &W.Said
	if stderr {
		p = &W.Moaned
	}
	if len(*p) < 1<<20 {
		*p = append(*p, b...)
	}
}

// Share makes a world that shares the files of w but has its own faults, clock
// and programs.
func (w *World) Share() *World {
	n := New()
	n.Files = w.Files
	return n
}

// Op counts one operation, advances the clock by its cost and returns the
// fault that hits it.
func (w *World) Op(class, detail string) *Fault {
	if w.Dead {
		panic(Crash)
	}
	simrt.Yield() // somebody else may run while the system call is made
	n := w.count[class]
	w.count[class]++
	w.Ops++
	w.NowUs += w.Cost[class]
	if len(w.Log) < 400 {
		w.Log = append(w.Log, class+" "+detail)
	}
	for i := range w.Faults {
		if w.Faults[i].Class == class && w.Faults[i].Nth == n {
			w.Fired = append(w.Fired, w.Faults[i])
			if len(w.Log) < 400 {
				w.Log = append(w.Log, fmt.Sprintf("  fault %s(%d)", w.Faults[i].Kind, w.Faults[i].Arg))
			}
			if w.Faults[i].Kind == "crash" && class != "write" {
				w.Die()
			}
			return &w.Faults[i]
		}
	}
	return nil
}

// Now reads the wall clock.
func (w *World) Now() time.Time {
	w.NowUs++
	if f := w.Op("clock", ""); f != nil {
		w.NowUs += f.Arg
		w.Jumped = true
	}
	return time.UnixMicro(w.NowUs)
}

// ErrInjected is the cause of injected failures of the proof systems.
var ErrInjected = errors.New("injected failure")

// Errno maps a fault kind to the error the system would report.
func Errno(op, path, kind string) error {
	e := syscall.EIO
	switch kind {
	case "enospc", "short":
		e = syscall.ENOSPC
	case "enoent":
		e = syscall.ENOENT
	case "eacces":
		e = syscall.EACCES
	case "emfile":
		e = syscall.EMFILE
	case "edquot":
		e = syscall.EDQUOT
	case "erofs":
		e = syscall.EROFS
	}
	return &fs.PathError{Op: op, Path: path, Err: e}
}
