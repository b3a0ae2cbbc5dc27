package props

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	. "zkverif/sess"
	"zkverif/simio"
	"zkverif/simio/srand"
	"zkverif/simrt"
)

type hexCell struct{ lat, lng float64 }

type benchFn func(b *testing.B, circuit, assignment frontend.Circuit, res, index int64, path string) error
type memFn func(b *testing.B, circuit, assignment frontend.Circuit) error

// code is the generated copy of the code under test (io mode only).
var code struct {
	g16file, plonkfile benchFn
	g16mem, plonkmem   memFn
	bench              func(b *testing.B, circuit, assignment frontend.Circuit)
	ijkUtil            func(res int, lat, lng float64) (int, int, int, error)
	ijkProx            func(path string, res int, lat, lng float64) (int, int, int, error)
	cell               func(res int, lat, lng float64) (string, error)
	latlng             func(idx string) (float64, float64, error)
	boundary           func(idx string) ([][2]float64, error)
	main               func()
	write              func(cells []hexCell, name string, f32 bool) error
}

// An ioStep is one call of the code under test.
type ioStep struct {
	Fn     string           `json:"fn"`
	Path   string           `json:"path,omitempty"`
	Res    int64            `json:"res,omitempty"`
	Index  int64            `json:"index,omitempty"`
	N      int              `json:"n,omitempty"`   // size of the circuit
	Bad    string           `json:"bad,omitempty"` // unsatisfied or missing witness
	Cost   map[string]int64 `json:"cost,omitempty"`
	Cells  []string         `json:"cells,omitempty"` // hexadecimal bit patterns
	F32    bool             `json:"f32,omitempty"`
	Idx    string           `json:"idx,omitempty"`
	Lat    string           `json:"lat,omitempty"`
	Lng    string           `json:"lng,omitempty"`
	Noise  uint64           `json:"noise,omitempty"`
	Faults []simio.Fault    `json:"faults,omitempty"`
}

type ioJob struct {
	Kind  string            `json:"kind"`          // bench, tools, cells
	Par   bool              `json:"par,omitempty"` // the steps run at the same time
	Seed  uint64            `json:"seed,omitempty"`
	Rate  uint64            `json:"rate,omitempty"` // chance of a switch at a yield point, in 1/1024
	Files map[string]string `json:"files,omitempty"`
	Steps []ioStep          `json:"steps"`
}

// instrumented is set when the copies have scheduling points.
var instrumented bool

var ioMu sync.Mutex

// powCircuit states that X is the n-th power of Y.
type powCircuit struct {
	X frontend.Variable `gnark:",public"`
	Y frontend.Variable
	n int
}

func (c *powCircuit) Define(api frontend.API) error {
	if simio.W != nil && simio.W.Op("compile", "") != nil {
		return simio.ErrInjected
	}
	p := c.Y
	for i := 1; i < c.n; i++ {
		p = api.Mul(p, c.Y)
	}
	api.AssertIsEqual(c.X, p)
	return nil
}

var nbCache = map[string]int{}

func nbConstraints(n int, plonk bool) int {
	k := fmt.Sprint(n, plonk)
	if v, ok := nbCache[k]; ok {
		return v
	}
	w := simio.W
	simio.W = nil
	defer func() { simio.W = w }()
	nb := frontend.NewBuilder(r1cs.NewBuilder)
	if plonk {
		nb = scs.NewBuilder
	}
	cs, err := frontend.Compile(ecc.BN254.ScalarField(), nb, &powCircuit{n: n}, frontend.WithCompressThreshold(1000))
	if err != nil {
		panic(err)
	}
	nbCache[k] = cs.GetNbConstraints()
	return nbCache[k]
}

type ioResult struct {
	err     error
	stopped string // "", "panic: ...", "failnow"
	failed  bool
}

// asBenchmark runs f with a real *testing.B.
func asBenchmark(f func(b *testing.B) error) (r ioResult) {
	testingOnce.Do(func() {
		if flag.Lookup("test.benchtime") == nil {
			testing.Init()
		}
		flag.Set("test.benchtime", "1x")
	})
	r.stopped = "failnow"
	testing.Benchmark(func(b *testing.B) {
		defer func() {
			r.failed = b.Failed()
			if p := recover(); p != nil {
				r.stopped = fmt.Sprint("panic: ", p)
			}
		}()
		r.err = f(b)
		r.stopped = ""
	})
	return r
}

var testingOnce sync.Once

const benchHeader = "Resolution, Index, NbConstraints, CompilationTime, SetupTime, ProverTime, VerifierTime\n"

var recordRe = regexp.MustCompile(`^(-?\d+), (-?\d+), (-?\d+), (-?\d+), (-?\d+), (-?\d+), (-?\d+)\n$`)
var headerRe = regexp.MustCompile(`^[A-Za-z]\w*(, ?[A-Za-z]\w*){6}\n$`)

func firedIn(w *simio.World, classes ...string) bool {
	for _, f := range w.Fired {
		for _, c := range classes {
			if f.Class == c {
				return true
			}
		}
	}
	return false
}

// runJob executes a job and returns the violation it shows, and a digest.
func runJob(j *ioJob, cov *Coverage) (bad string, digest uint64) {
	ioMu.Lock()
	defer ioMu.Unlock()
	w := simio.New()
	for p, c := range j.Files {
		w.Files[p] = &simio.Inode{Data: []byte(c)}
	}
	simio.W = w
	simrt.NewProcess()
	srand.SimSeed(uint64(len(j.Steps)))
	defer func() { simio.W = nil }()
	step := func(w *simio.World, i int) string {
		st := &j.Steps[i]
		w.Begin(st.Faults)
		w.Cost = st.Cost
		var d string
		switch j.Kind {
		case "bench":
			d = benchStep(w, st)
		case "tools":
			d = toolStep(w, st)
		case "cells":
			d = cellStep(w, st)
		case "prox":
			d = proxStep(w, st)
		}
		if d != "" {
			d = fmt.Sprintf("step %d (%s): %s", i+1, st.Fn, d)
		}
		return d
	}
	account := func(w *simio.World) {
		for _, f := range w.Fired {
			cov.Faults[f.Class+": "+f.Kind]++
		}
		cov.Execs++
		if len(w.Fired) > 0 {
			cov.Faulted++
		}
	}
	dead := false
	sequence := func() {
		for i := range j.Steps {
			d := step(w, i)
			account(w)
			if w.Dead {
				dead = true
				simrt.NewProcess()
			}
			if d != "" {
				bad = d
				return
			}
		}
	}
	if j.Kind == "bench" || !instrumented {
		sequence()
	} else {
		// the code under test and the goroutines it starts run under the
		// simulated scheduler
		s := simrt.New(j.Seed, j.Rate)
		s.MaxSteps = 30e6
		worlds := []*simio.World{w}
		bads := make([]string, len(j.Steps))
		if j.Par {
			worlds = nil
			for i := range j.Steps {
				i := i
				wi := w.Share()
				worlds = append(worlds, wi)
				s.Spawn(0, func() { bads[i] = step(wi, i) })
			}
		} else {
			s.Spawn(0, sequence)
		}
		s.Hook = func(root int) { simio.W = worlds[root] }
		panics := s.Run()
		if j.Par {
			for i := range bads {
				account(worlds[i])
				w.Log = append(w.Log, worlds[i].Log...)
				w.Ops += worlds[i].Ops
				if bads[i] != "" && bad == "" {
					bad = bads[i] + " (while the others ran)"
				}
			}
			cov.Probes["calls made at the same time"] += int64(len(bads))
		}
		for _, p := range panics {
			if bad == "" && !dead && p != simio.Crash {
				bad = "a goroutine of the code under test panicked: " + cutText(p)
			}
		}
		if bad == "" && s.Deadlock && !dead {
			bad = "deadlock: no task can continue"
		}
		if bad == "" && s.Overrun {
			bad = "no progress within the step limit"
		}
		cov.Steps += s.Steps
		cov.Probes["task switches"] += s.Switches
		w.Log = append(w.Log, fmt.Sprintf("%x", s.Trace))
	}
	cov.Steps += w.Ops
	h := Hash64(strings.Join(w.Log, "\n"))
	for _, p := range []string{"a", "b", "c", "d"} {
		if f := w.Files[p]; f != nil {
			h = h*31 + Hash64(string(f.Data))
		}
	}
	return bad, h
}

func cutText(s string) string {
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return strconv.Quote(s)
}

func content(w *simio.World, p string) string {
	if f := w.Files[p]; f != nil {
		return string(f.Data)
	}
	return ""
}

// ---- C23 ----

func benchStep(w *simio.World, st *ioStep) string {
	plonk := strings.HasPrefix(st.Fn, "plonk")
	circuit := &powCircuit{n: st.N}
	x := new(big.Int).Exp(big.NewInt(3), big.NewInt(int64(st.N)), nil)
	asg := &powCircuit{X: x, Y: 3}
	switch st.Bad {
	case "unsatisfied":
		asg.X = new(big.Int).Add(x, big.NewInt(1))
	case "missing":
		asg.Y = nil
	}
	prev := content(w, st.Path)
	others := map[string]string{}
	for p, f := range w.Files {
		if p != st.Path {
			others[p] = string(f.Data)
		}
	}
	var r ioResult
	switch st.Fn {
	case "g16file":
		if code.g16file == nil {
			return ""
		}
		r = asBenchmark(func(b *testing.B) error { return code.g16file(b, circuit, asg, st.Res, st.Index, st.Path) })
	case "plonkfile":
		if code.plonkfile == nil {
			return ""
		}
		r = asBenchmark(func(b *testing.B) error { return code.plonkfile(b, circuit, asg, st.Res, st.Index, st.Path) })
	case "g16mem":
		if code.g16mem == nil {
			return ""
		}
		r = asBenchmark(func(b *testing.B) error { return code.g16mem(b, circuit, asg) })
	case "plonkmem":
		if code.plonkmem == nil {
			return ""
		}
		r = asBenchmark(func(b *testing.B) error { return code.plonkmem(b, circuit, asg) })
	case "bench":
		if code.bench == nil {
			return ""
		}
		r = asBenchmark(func(b *testing.B) error {
			code.bench(b, circuit, asg)
			if b.Failed() {
				return errors.New("failed")
			}
			return nil
		})
	}
	proofFault := firedIn(w, "compile", "setup", "prove", "verify", "srs") || st.Bad != ""
	fileFault := firedIn(w, "open", "stat", "read", "write", "close", "sync", "rename", "truncate", "remove")
	ok := r.err == nil && r.stopped == "" && !w.Dead
	if w.Dead {
		fileFault = true // what reached the disk may be torn
	}
	now := content(w, st.Path)
	for _, p := range []string{"a", "b"} {
		if c, had := others[p]; had && content(w, p) != c {
			return "another file was changed"
		}
	}
	if ok && proofFault {
		return "reported as successful although " + firedText(w, st)
	}
	if !ok && !proofFault && !fileFault {
		return fmt.Sprintf("failed without any failure: %v %s", r.err, r.stopped)
	}
	if st.Path == "" {
		return ""
	}
	if !strings.HasPrefix(now, prev) {
		return fmt.Sprintf("the previous content of the file was changed from %s to %s", cutText(prev), cutText(now))
	}
	tail := now[len(prev):]
	if prev == "" {
		if i := strings.IndexByte(tail, '\n'); i >= 0 {
			if !headerRe.MatchString(tail[:i+1]) {
				return "the file was empty and its first line is not a header: " + cutText(tail[:i+1])
			}
			tail = tail[i+1:]
		} else {
			if ok {
				return "reported as successful, but the file contains only " + cutText(tail)
			}
			if tail != "" && !fileFault {
				return "the header is torn: " + cutText(tail)
			}
			return ""
		}
	}
	m := recordRe.FindStringSubmatch(tail)
	if ok {
		if m == nil {
			return fmt.Sprintf("reported as successful, but it added %s instead of one record", cutText(tail))
		}
		return badRecord(w, st, m, plonk, prev == "" && strings.HasPrefix(now, benchHeader) || prev != "")
	}
	if tail == "" {
		return ""
	}
	if proofFault {
		return fmt.Sprintf("added %s although %s", cutText(tail), firedText(w, st))
	}
	// a file fault: what reached the disk may be torn; a complete record only
	// if the failure came after it
	if m != nil && !w.Dead && !firedIn(w, "close", "sync") {
		return fmt.Sprintf("reported as failed (%s), but added the record %s", firedText(w, st), cutText(tail))
	}
	if strings.Count(tail, "\n") > 1 || strings.Trim(tail, "-0123456789, \n") != "" {
		return fmt.Sprintf("left %s in the file after %s", cutText(tail), firedText(w, st))
	}
	return ""
}

func firedText(w *simio.World, st *ioStep) string {
	var s []string
	for _, f := range w.Fired {
		s = append(s, fmt.Sprintf("%s number %d failed (%s)", f.Class, f.Nth+1, f.Kind))
	}
	if st.Bad != "" {
		s = append(s, "the witness is "+st.Bad)
	}
	return strings.Join(s, ", ")
}

func badRecord(w *simio.World, st *ioStep, m []string, plonk, columns bool) string {
	var v [7]int64
	for i := range v {
		v[i], _ = strconv.ParseInt(m[i+1], 10, 64)
	}
	if v[0] != st.Res || v[1] != st.Index {
		return fmt.Sprintf("the record is for resolution %d index %d, the run was for %d, %d", v[0], v[1], st.Res, st.Index)
	}
	if nb := nbConstraints(st.N, plonk); v[2] != int64(nb) {
		return fmt.Sprintf("the record states %d constraints, the circuit has %d", v[2], nb)
	}
	if w.Jumped || !columns {
		return ""
	}
	srs := int64(0)
	if plonk {
		srs = st.Cost["srs"]
	}
	for i, c := range []string{"compile", "setup", "prove", "verify"} {
		lo, hi := st.Cost[c], st.Cost[c]+1000
		if c == "setup" {
			hi += srs
		}
		if v[3+i] < lo || v[3+i] > hi {
			return fmt.Sprintf("the record states %d microseconds for %s, it took %d", v[3+i], c, lo)
		}
	}
	return ""
}

func pickS(r *Rng, xs ...string) string { return xs[r.Intn(len(xs))] }

func genBench(r *Rng) *ioJob {
	j := &ioJob{Kind: "bench", Files: map[string]string{}}
	rec := fmt.Sprintf("%d, %d, %d, %d, %d, %d, %d\n", r.Intn(16), r.Intn(100), r.Intn(9999), r.Intn(9999), r.Intn(9999), r.Intn(9999), r.Intn(9999))
	switch r.Intn(6) {
	case 0:
		j.Files["a"] = ""
	case 1:
		j.Files["a"] = benchHeader
	case 2:
		j.Files["a"] = benchHeader + rec
	case 3:
		j.Files["a"] = benchHeader + rec + rec[:r.Intn(len(rec))]
	case 4:
		j.Files["b"] = "x"
	}
	for k := r.Range(1, 5); k > 0; k-- {
		st := ioStep{Fn: pickS(r, "g16file", "g16file", "g16file", "plonkfile", "plonkfile", "plonkfile", "g16mem", "plonkmem", "bench"),
			Path: pickS(r, "a", "a", "a", "b"), Res: int64(r.Intn(16)), Index: int64(r.Intn(1000)), N: 2 + r.Intn(4), Cost: map[string]int64{}}
		if r.Pct(4) {
			st.Res, st.Index = -int64(r.Intn(5)), int64(r.U64()>>uint(1+r.Intn(40)))
		}
		if !strings.HasSuffix(st.Fn, "file") {
			st.Path = ""
			if st.Fn == "bench" && !r.Pct(25) {
				st.Fn = "g16mem"
			}
		}
		for _, c := range []string{"compile", "setup", "prove", "verify", "srs"} {
			st.Cost[c] = int64(r.Intn(1 << uint(r.Range(1, 30))))
		}
		if r.Pct(8) {
			st.Bad = pickS(r, "unsatisfied", "missing")
		}
		for n := []int{0, 0, 0, 1, 1, 1, 2}[r.Intn(7)]; n > 0; n-- {
			f := simio.Fault{Class: pickS(r, "open", "stat", "write", "write", "write", "close", "compile", "setup", "prove", "verify", "verify", "srs", "clock", "clock"), Arg: int64(r.U64() >> 1)}
			switch f.Class {
			case "open":
				f.Kind = pickS(r, "enoent", "eacces", "emfile", "enospc", "eio")
			case "stat":
				f.Kind = "eio"
			case "write":
				f.Nth = r.Intn(2)
				f.Kind = pickS(r, "short", "short", "eio", "enospc")
			case "close":
				f.Kind = pickS(r, "eio", "enospc", "edquot")
			case "clock":
				f.Nth = r.Intn(8)
				f.Kind = "jump"
				f.Arg = int64(r.Range(-1000, 1000)) * int64(1+r.Intn(1<<30))
			default:
				f.Kind = "error"
				if r.Pct(25) {
					f.Kind = "crash"
				}
				if st.Fn == "bench" && (f.Class == "prove" || f.Class == "verify") {
					f.Nth = r.Intn(20)
				}
			}
			if r.Pct(15) {
				f.Kind = "crash"
			}
			st.Faults = append(st.Faults, f)
		}
		j.Steps = append(j.Steps, st)
	}
	return j
}

// ---- C24 ----

// argOf finds the value of a program option.
func argOf(args []string, name string) (string, bool) {
	for i, a := range args {
		a = strings.TrimLeft(a, "-")
		if a == name && i+1 < len(args) {
			return args[i+1], true
		}
		if strings.HasPrefix(a, name+"=") {
			return a[len(name)+1:], true
		}
	}
	return "", false
}

// modelOut is what the simulated program prints for a request.
func modelOut(prog, key string, noise uint64) (so, se string) {
	r := NewRng(Hash64(prog+key), 1)
	nr := NewRng(noise, 2)
	var head, tail string
	if noise != 0 {
		warn := []string{"warning: deprecated option\n", "h3: note\n", "\n", "cell follows\n"}
		if nr.Pct(40) {
			se = warn[nr.Intn(len(warn))]
		}
		if prog == "latLngToCell" && nr.Pct(40) {
			head = warn[nr.Intn(len(warn))]
		}
		if nr.Pct(30) {
			tail = "\n"
		}
	}
	coord := func(lim float64) string {
		v := (2*r.F() - 1) * lim
		switch r.Intn(10) {
		case 0:
			v = math.Round(v)
		case 1:
			v = v / 1e7
		case 2:
			v = 0
		case 3:
			v = lim
		}
		if r.Intn(30) == 0 {
			v = math.Copysign(0, -1)
		}
		return fmt.Sprintf("%.*f", 6+r.Intn(10), v)
	}
	switch prog {
	case "latLngToCell":
		var ijk [3]int
		zero := r.Intn(3)
		for i := range ijk {
			if i != zero {
				ijk[i] = r.Intn(1 << uint(r.Range(1, 31)))
			}
		}
		l1 := fmt.Sprintf("I: %d, J: %d, K: %d\n", ijk[0], ijk[1], ijk[2])
		l2 := fmt.Sprintf("--- 8%x\n", r.U64()>>5)
		if nr.Intn(2) == 0 {
			so = head + l1 + l2 + tail
		} else {
			so = head + l2 + l1 + tail
		}
	case "cellToLatLng":
		so = coord(90) + " " + coord(180) + "\n" + tail
	case "cellToBoundary":
		n := []int{5, 6, 6, 6, 7, 10}[r.Intn(6)]
		if nr.Pct(50) {
			head = key + "\n"
		}
		so = head + "{\n"
		for i := 0; i < n; i++ {
			so += "   " + coord(90) + " " + coord(180) + "\n"
		}
		so += "}\n" + tail
	}
	return
}

var (
	ijkLine = regexp.MustCompile(`(?m)(?:^|[^\w])I: ([0-9]+), J: ([0-9]+), K: ([0-9]+)`)
	idxLine = regexp.MustCompile(`--- ([0-9a-zA-Z_]+)`)
	numTok  = regexp.MustCompile(`^-?[0-9]+\.[0-9]+$`)
)

func toolStep(w *simio.World, st *ioStep) string {
	lat, _ := strconv.ParseFloat(st.Lat, 64)
	lng, _ := strconv.ParseFloat(st.Lng, 64)
	var asked []string
	w.Prog = func(path string, args []string) (string, string) {
		prog := path[strings.LastIndex(path, "/")+1:]
		key := ""
		if prog == "latLngToCell" {
			rs, ok1 := argOf(args, "resolution")
			la, ok2 := argOf(args, "latitude")
			lo, ok3 := argOf(args, "longitude")
			if !ok1 || !ok2 || !ok3 {
				asked = append(asked, fmt.Sprint("incomplete request ", args))
				return "", "usage\n"
			}
			a, _ := strconv.ParseFloat(la, 64)
			b, _ := strconv.ParseFloat(lo, 64)
			key = fmt.Sprintf("%s %g %g", rs, a, b)
		} else {
			key, _ = argOf(args, "index")
		}
		asked = append(asked, prog+" "+key)
		return modelOut(prog, key, st.Noise)
	}
	var got []string
	var err error
	want := ""
	num := func(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }
	stopped := func() (p string) {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(simrt.Killed); ok {
					panic(x)
				}
				p = fmt.Sprint("panic: ", x)
			}
		}()
		switch st.Fn {
		case "ijkUtil", "ijkProx":
			var i, j, k int
			if st.Fn == "ijkUtil" {
				i, j, k, err = code.ijkUtil(int(st.Res), lat, lng)
			} else {
				i, j, k, err = code.ijkProx("../h3-master/build/bin/latLngToCell", int(st.Res), lat, lng)
			}
			got = []string{fmt.Sprint(i), fmt.Sprint(j), fmt.Sprint(k)}
			want = fmt.Sprintf("latLngToCell %d %g %g", st.Res, roundDec(lat), roundDec(lng))
		case "cell":
			var s string
			s, err = code.cell(int(st.Res), lat, lng)
			got = []string{s}
			want = fmt.Sprintf("latLngToCell %d %g %g", st.Res, roundDec(lat), roundDec(lng))
		case "latlng":
			var a, b float64
			a, b, err = code.latlng(st.Idx)
			got = []string{num(a), num(b)}
			want = "cellToLatLng " + st.Idx
		case "boundary":
			var p [][2]float64
			p, err = code.boundary(st.Idx)
			for _, x := range p {
				got = append(got, num(x[0]), num(x[1]))
			}
			want = "cellToBoundary " + st.Idx
		}
		return
	}()
	if stopped != "" {
		return stopped
	}
	outs := w.Outs
	cut, failed := false, false
	for _, f := range w.Fired {
		switch f.Kind {
		case "cut", "empty", "garbage":
			cut = true
		default:
			failed = true
		}
	}
	if err != nil {
		if len(w.Fired) == 0 {
			return fmt.Sprintf("returned the error %q although the program succeeded and printed %s", err, cutText(strings.Join(outs, "")))
		}
		return ""
	}
	for _, a := range asked {
		if a != want {
			return fmt.Sprintf("ran %q for the request %q", a, want)
		}
	}
	if len(outs) == 0 {
		return fmt.Sprintf("returned %v without a program having run (%s)", got, firedText(w, st))
	}
	if failed && len(outs) == 1 {
		return fmt.Sprintf("returned %v although the program failed (%s)", got, firedText(w, st))
	}
	// the last run of the program supplied the result
	out := outs[len(outs)-1]
	exp, alt := parseOut(st.Fn, out)
	if exp == nil && (alt == nil || !cut) {
		return fmt.Sprintf("returned %v although the output %s is incomplete", got, cutText(out))
	}
	if fmt.Sprint(got) != fmt.Sprint(exp) && !(cut && alt != nil && fmt.Sprint(got) == fmt.Sprint(alt)) {
		return fmt.Sprintf("returned %v, the program printed %s", got, cutText(out))
	}
	return ""
}

// roundDec is the value the 30-digit decimal text of v denotes.
func roundDec(v float64) float64 {
	x, _ := strconv.ParseFloat(fmt.Sprintf("%.30f", v), 64)
	return x
}

// parseOut is the strict reader of a program's output; alt is the reading that
// drops an unterminated last line.
func parseOut(fn, out string) (exp, alt []string) {
	num := func(s string) string {
		v, _ := strconv.ParseFloat(s, 64)
		return strconv.FormatFloat(v, 'g', -1, 64)
	}
	switch fn {
	case "ijkUtil", "ijkProx":
		m := ijkLine.FindStringSubmatch(out)
		if m == nil {
			return nil, nil
		}
		for _, s := range m[1:] {
			v, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				return nil, nil
			}
			exp = append(exp, fmt.Sprint(v))
		}
		return exp, nil
	case "cell":
		m := idxLine.FindStringSubmatch(out)
		if m == nil {
			return nil, nil
		}
		return m[1:], nil
	case "latlng":
		p := strings.Fields(out)
		if len(p) < 2 {
			return nil, nil
		}
		for _, s := range p[:2] {
			v, err := strconv.ParseFloat(s, 64)
			if err != nil {
				return nil, nil
			}
			exp = append(exp, strconv.FormatFloat(v, 'g', -1, 64))
		}
		return exp, nil
	}
	lines := strings.SplitAfter(out, "\n")
	for _, l := range lines {
		p := strings.Fields(l)
		if len(p) != 2 || !numTok.MatchString(p[0]) || !numTok.MatchString(p[1]) {
			continue
		}
		if strings.HasSuffix(l, "\n") {
			alt = append(alt, num(p[0]), num(p[1]))
		}
		exp = append(exp, num(p[0]), num(p[1]))
	}
	return
}

func genTools(r *Rng) *ioJob {
	j := &ioJob{Kind: "tools"}
	for k := r.Range(1, 6); k > 0; k-- {
		st := ioStep{Fn: pickS(r, "ijkUtil", "ijkProx", "cell", "latlng", "boundary"), Res: int64(r.Intn(16))}
		st.Lat = strconv.FormatFloat((2*r.F()-1)*90, 'g', -1, 64)
		st.Lng = strconv.FormatFloat((2*r.F()-1)*180, 'g', -1, 64)
		if r.Pct(20) {
			st.Lat, st.Lng = fmt.Sprint(r.Range(-90, 90)), fmt.Sprint(r.Range(-180, 180))
		}
		if r.Pct(10) {
			st.Lat = strconv.FormatFloat((2*r.F()-1)*1e-6, 'g', -1, 64)
		}
		st.Idx = fmt.Sprintf("8%014x", r.U64()>>8)
		if r.Pct(60) {
			st.Noise = r.U64()>>8 + 1
		}
		if r.Pct(50) {
			f := simio.Fault{Class: "exec", Arg: int64(r.U64() >> 1), Kind: pickS(r, "missing", "notfound", "eacces", "eagain", "exit", "exit", "exit-empty", "exit-cut", "killed", "killed-late", "ioerr", "cut", "cut", "cut", "empty", "garbage")}
			st.Faults = append(st.Faults, f)
		}
		j.Steps = append(j.Steps, st)
	}
	j.sched(r, 30)
	return j
}

// sched decides whether the steps run one after another or at the same time.
func (j *ioJob) sched(r *Rng, pct int) {
	j.Seed = r.U64() >> 1
	j.Rate = []uint64{8, 64, 300, 700, 1024}[r.Intn(5)]
	j.Par = instrumented && len(j.Steps) > 1 && r.Pct(pct)
	if !j.Par {
		return
	}
	for i := range j.Steps {
		// a crash would end all of them
		for k := range j.Steps[i].Faults {
			if f := &j.Steps[i].Faults[k]; f.Kind == "crash" {
				f.Kind = "eio"
			}
		}
		if j.Kind == "cells" {
			j.Steps[i].Path = string(rune('a' + i))
		}
	}
}

func toolPresent(fn string) bool {
	switch fn {
	case "ijkUtil":
		return code.ijkUtil != nil
	case "ijkProx":
		return code.ijkProx != nil
	case "cell":
		return code.cell != nil
	case "latlng":
		return code.latlng != nil
	}
	return code.boundary != nil
}

// ---- C25 ----

func cellStep(w *simio.World, st *ioStep) string {
	var cells []hexCell
	var want strings.Builder
	for i := 0; i+1 < len(st.Cells); i += 2 {
		a, _ := strconv.ParseUint(st.Cells[i], 16, 64)
		b, _ := strconv.ParseUint(st.Cells[i+1], 16, 64)
		c := hexCell{math.Float64frombits(a), math.Float64frombits(b)}
		cells = append(cells, c)
		if st.F32 {
			a, b = math.Float64bits(float64(float32(c.lat))), math.Float64bits(float64(float32(c.lng)))
		}
		fmt.Fprintf(&want, "%x %x\n", a, b)
	}
	var err error
	stopped := func() (p string) {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(simrt.Killed); ok {
					panic(x)
				}
				p = fmt.Sprint("panic: ", x)
			}
		}()
		err = code.write(cells, st.Path, st.F32)
		return
	}()
	if w.Dead {
		return ""
	}
	if stopped != "" {
		return stopped
	}
	if err != nil {
		if len(w.Fired) == 0 {
			return fmt.Sprintf("returned the error %q although the disk works", err)
		}
		return ""
	}
	if got := content(w, st.Path); got != want.String() {
		return fmt.Sprintf("reported success for %d cells (%s), the file contains %s, expected %s", len(cells), firedText(w, st), cutText(got), cutText(want.String()))
	}
	return ""
}

func genCells(r *Rng) *ioJob {
	j := &ioJob{Kind: "cells", Files: map[string]string{}}
	if r.Pct(60) {
		j.Files["a"] = strings.Repeat("0123456789abcdef 0123456789abcdef\n", r.Intn(12)) + pickS(r, "", "torn")
	}
	for k := r.Range(1, 4); k > 0; k-- {
		st := ioStep{Fn: "write", Path: pickS(r, "a", "a", "b"), F32: r.Pct(50)}
		n := []int{0, 1, 2, 3, 5, 8, 20, 150}[r.Intn(8)]
		for i := 0; i < 2*n; i++ {
			v := (2*r.F() - 1) * 180
			switch r.Intn(12) {
			case 0:
				v = 0
			case 1:
				v = math.Copysign(0, -1)
			case 2:
				v = math.Round(v)
			case 3:
				v *= 1e-40
			case 4:
				v = []float64{math.Inf(1), math.Inf(-1), 1e300, 5e-324, math.MaxFloat32}[r.Intn(5)]
			}
			st.Cells = append(st.Cells, strconv.FormatUint(math.Float64bits(v), 16))
		}
		if r.Pct(55) {
			f := simio.Fault{Class: pickS(r, "open", "write", "write", "write", "close", "close", "sync", "rename"), Arg: int64(r.U64() >> 1)}
			switch f.Class {
			case "open":
				f.Kind = pickS(r, "enoent", "eacces", "emfile", "enospc", "erofs")
			case "write":
				f.Nth = r.Intn(n + 1)
				if r.Pct(30) {
					f.Nth = 0
				}
				if n > 0 && r.Pct(25) {
					f.Nth = n - 1
				}
				f.Kind = pickS(r, "short", "short", "eio", "enospc")
			default:
				f.Kind = pickS(r, "eio", "enospc", "edquot")
			}
			if r.Pct(15) {
				f.Kind = "crash"
			}
			st.Faults = append(st.Faults, f)
		}
		j.Steps = append(j.Steps, st)
	}
	j.sched(r, 30)
	return j
}

// ---- the three checks ----

func ioFound(j *ioJob, detail string) *Found {
	b, _ := json.Marshal(j)
	return &Found{Class: "io", Detail: detail, Spec: Spec{Kind: "iojob", FT: "-", M: map[string]string{"job": string(b)}}}
}

// minIO drops steps, faults, cells and costs while the job still fails.
func minIO(j *ioJob) (*ioJob, string) {
	cov := NewCoverage()
	clone := func() *ioJob {
		b, _ := json.Marshal(j)
		k := &ioJob{}
		json.Unmarshal(b, k)
		return k
	}
	best, _ := runJob(clone(), cov)
	if best == "" {
		return j, ""
	}
	try := func(k *ioJob) bool {
		if k.Par && len(k.Steps) < 2 {
			k.Par = false
		}
		if d, _ := runJob(k, cov); d != "" {
			j, best = k, d
			return true
		}
		return false
	}
	if j.Par {
		k := clone()
		k.Par = false
		try(k)
	}
	for i := len(j.Steps) - 1; i >= 0; i-- {
		if len(j.Steps) > 1 {
			k := clone()
			k.Steps = append(k.Steps[:i:i], k.Steps[i+1:]...)
			try(k)
		}
	}
	for i := range j.Steps {
		for f := len(j.Steps[i].Faults) - 1; f >= 0; f-- {
			k := clone()
			k.Steps[i].Faults = append(k.Steps[i].Faults[:f:f], k.Steps[i].Faults[f+1:]...)
			try(k)
		}
		for c := len(j.Steps[i].Cells) - 2; c >= 0; c -= 2 {
			k := clone()
			k.Steps[i].Cells = append(k.Steps[i].Cells[:c:c], k.Steps[i].Cells[c+2:]...)
			try(k)
		}
		k := clone()
		k.Steps[i].Noise = 0
		try(k)
	}
	for p := range j.Files {
		k := clone()
		delete(k.Files, p)
		try(k)
	}
	return j, best
}

func ioRun(w *Worker, j *ioJob) *Found {
	for _, st := range j.Steps {
		if j.Kind == "tools" && !toolPresent(st.Fn) || j.Kind == "cells" && code.write == nil || j.Kind == "prox" && code.main == nil {
			w.Cov.Vacuous++
			return nil
		}
	}
	b, _ := json.Marshal(j)
	d, dig := runJob(j, w.Cov)
	w.Cov.Sessions++
	if d != "" {
		m, md := minIO(j)
		if md == "" {
			w.Cov.Unconfirmed++
			return nil
		}
		return ioFound(m, md)
	}
	h := Hash64(string(b))
	w.Cov.Distinct[h] = struct{}{}
	for _, st := range j.Steps {
		if len(st.Faults) > 0 || st.Bad != "" {
			w.Cov.Nontrivial[h] = struct{}{}
		}
		w.Cov.Probes["call of "+st.Fn]++
	}
	if len(w.Cov.Samples) < 2 {
		s := string(b)
		if len(s) > 500 {
			s = s[:500]
		}
		w.Cov.Samples = append(w.Cov.Samples, s)
	}
	w.Note(dig, true)
	return nil
}

func init() {
	Register("iojob", func(s Spec) *Scn { panic("iojob is not a circuit") })
	replayers["iojob"] = func(w *Worker, f *Found) *Found {
		j := &ioJob{}
		if err := json.Unmarshal([]byte(f.Spec.M["job"]), j); err != nil {
			panic(err)
		}
		d, _ := runJob(j, NewCoverage())
		if d == "" {
			return nil
		}
		return ioFound(j, d)
	}
	disk := []string{"disk: an in-memory file system with injected failures", "wall clock: simulated, with jumps"}
	add(&Check{ID: "C23", Quick: 1500, Thorough: 60000, Serial: true, Real: []string{"util benchmark helpers (copied from the working tree with os, time, fmt, math/rand and proof-system calls redirected)", "gnark Groth16 and PLONK setup, prover and verifier on small circuits", "testing.Benchmark"},
		Stub: append(disk, "failures of compilation, setup, SRS, prover and verifier"),
		Run:  func(w *Worker, r *Rng) *Found { return ioRun(w, genBench(r)) },
		Rule: "a run draws an initial file, a history of benchmark runs and faults (open, stat, short or failed write, full disk, failed close losing data, clock jumps, failing compilation, setup, SRS, prover, verifier, unsatisfied or missing witness) by the seed; oracle: after every step the previous content plus header and record exactly as the property demands; non-trivial: a distinct history with at least one fault"})
	add(&Check{ID: "C24", Quick: 150000, Thorough: 3000000, Serial: true, Real: []string{"ExecuteLatLngToIJK, executeLatLngToIJK, latLngToCell, cellToLatLng, cellToBoundary (copied from the working tree with os/exec redirected)"},
		Stub: []string{"the external H3 programs: models that print the documented shapes, with injected start failures, exit statuses, signals, torn and garbled output"},
		Run:  func(w *Worker, r *Rng) *Found { return ioRun(w, genTools(r)) },
		Rule: "a run draws a sequence of helper calls, program outputs and process faults by the seed; oracle: a strict reader of what the program printed, or an error; non-trivial: a distinct sequence with at least one fault"})
	add(&Check{ID: "C25", Quick: 100000, Thorough: 2000000, Serial: true, Real: []string{"WriteHexCellsToFile (copied from the working tree with package os redirected)"}, Stub: disk[:1],
		Run:  func(w *Worker, r *Rng) *Found { return ioRun(w, genCells(r)) },
		Rule: "a run draws cell lists, precisions, pre-existing files and disk faults (open, short or failed write, full disk, failed close losing data) by the seed; oracle: the exact expected file content on success, an error otherwise; non-trivial: a distinct history with at least one fault"})
}
