package props

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/hint"
	"zkverif/ref"
	. "zkverif/sess"
	"zkverif/simrt"
)

// A concJob runs in a process of its own: rounds of tasks that a seeded
// cooperative scheduler interleaves at the yield points of the code under
// test.
type concJob struct {
	Seed   uint64       `json:"seed"`
	Switch uint64       `json:"switch"`
	Circ   []Spec       `json:"circuits"`
	In     [][]string   `json:"inputs"`
	Rounds [][]concTask `json:"rounds"`
	// Cross asks for the recorded hint calls to be repeated in another
	// process, the last one first.
	Cross bool    `json:"cross,omitempty"`
	On    machine `json:"on"`
}

type concTask struct {
	Mode string `json:"mode"` // compile, exec, hints
	C    int    `json:"c"`
	Kill int64  `json:"kill,omitempty"`
}

type concRes struct {
	Out      [][]string `json:"out"`
	Steps    int64      `json:"steps"`
	Switches int64      `json:"switches"`
	Kills    int64      `json:"kills"`
	Calls    int64      `json:"calls"`
	Trace    uint64     `json:"trace"`
	Problem  string     `json:"problem,omitempty"`
	Hints    []string   `json:"hints,omitempty"`
	ForeignH []string   `json:"-"`
}

const childMark = "ZKRESULT "

// Child runs a job in this process and prints its result.
func Child(kind string) {
	var out any
	switch kind {
	case "conc":
		var j concJob
		if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		out = runConc(&j)
	default:
		f := childKinds[kind]
		if f == nil {
			fmt.Fprintln(os.Stderr, "unknown child kind", kind)
			os.Exit(2)
		}
		out = f(os.Stdin)
	}
	b, _ := json.Marshal(out)
	fmt.Printf("\n%s%s\n", childMark, b)
}

var childKinds = map[string]func(in *os.File) any{}

// runChild executes a job in a fresh process.
func runChild(kind string, job, res any, limit time.Duration) error {
	return runChildOn(machine{}, kind, job, res, limit)
}

func runChildOn(m machine, kind string, job, res any, limit time.Duration) error {
	b, err := json.Marshal(job)
	if err != nil {
		return err
	}
	cmd := exec.Command("/proc/self/exe", "-child", kind)
	cmd.Stdin = bytes.NewReader(b)
	cmd.Env = append(os.Environ(), m.env()...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := m.start(cmd); err != nil {
		return err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return fmt.Errorf("child did not finish within %v", limit)
	}
	s := so.String()
	i := strings.LastIndex(s, "\n"+childMark)
	if i < 0 {
		t := se.String()
		if len(t) > 600 {
			t = t[:600]
		}
		return fmt.Errorf("child died: %v: %s", err, t)
	}
	return json.Unmarshal([]byte(s[i+1+len(childMark):]), res)
}

// hintCallRec is one captured hint call.
type hintCallRec struct {
	name  string
	f     solver.Hint
	field *big.Int
	in    []*big.Int
	out   []string
	nout  int
}

func callHintSafe(f solver.Hint, field *big.Int, in, out []*big.Int) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(simrt.Killed); ok {
				panic(r)
			}
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f(field, in, out)
}

func hintOutcome(err error, out []*big.Int) []string {
	if err != nil {
		return []string{"error"}
	}
	r := make([]string, len(out))
	for i := range out {
		r[i] = out[i].Text(16)
	}
	return r
}

// bufPool hands out scrambled big.Ints, reusing returned ones at once.
type bufPool struct {
	free []*big.Int
	val  []*big.Int
	rng  uint64
}

func (p *bufPool) rand() uint64 {
	p.rng += 0x9e3779b97f4a7c15
	z := p.rng
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (p *bufPool) get() (*big.Int, string) {
	if n := len(p.free); n > 0 && p.rand()%8 != 0 {
		i := int(p.rand() % uint64(n))
		b, v := p.free[i], p.val[i]
		p.free[i], p.val[i] = p.free[n-1], p.val[n-1]
		p.free, p.val = p.free[:n-1], p.val[:n-1]
		if b.Cmp(v) != 0 {
			return b, fmt.Sprintf("a released buffer changed from %s to %s", v.Text(16), b.Text(16))
		}
		return b, ""
	}
	b := new(big.Int)
	p.scramble(b)
	return b, ""
}

func (p *bufPool) scramble(b *big.Int) {
	switch p.rand() % 4 {
	case 0:
		b.SetUint64(p.rand())
	case 1:
		b.SetInt64(-int64(p.rand() >> 1))
	case 2:
		b.SetUint64(p.rand())
		b.Lsh(b, uint(p.rand()%260))
		b.Add(b, big.NewInt(int64(p.rand()>>1)))
	default:
		b.SetUint64(p.rand() % 3)
	}
}

func (p *bufPool) put(b *big.Int) {
	p.scramble(b)
	p.free = append(p.free, b)
	p.val = append(p.val, new(big.Int).Set(b))
}

var workerPool = sync.Pool{New: func() interface{} { return NewWorker() }}

func runConc(j *concJob) *concRes {
	res := &concRes{}
	ins := make([][]fr.Element, len(j.In))
	for i := range j.In {
		for _, h := range j.In[i] {
			ins[i] = append(ins[i], FromHex(h))
		}
	}
	problem := func(s string) {
		if res.Problem == "" {
			res.Problem = s
		}
	}
	// capture hint calls where a hints task needs them
	recs := map[int][]hintCallRec{}
	need := map[int]bool{}
	for _, rd := range j.Rounds {
		for _, t := range rd {
			if t.Mode == "hints" {
				need[t.C] = true
			}
		}
	}
	rng := NewRng(j.Seed, 77)
	names := map[string]bool{}
	for c := range j.Circ {
		if !need[c] {
			continue
		}
		w := NewWorker()
		w.OnHint(func(name string, f solver.Hint, in, out []*big.Int) error {
			rec := hintCallRec{name: name, f: f, nout: len(out), field: fr.Modulus()}
			for _, x := range in {
				rec.in = append(rec.in, new(big.Int).Set(x))
			}
			err := callHintSafe(f, fr.Modulus(), in, out)
			rec.out = hintOutcome(err, out)
			names[name] = true
			recs[c] = append(recs[c], rec)
			return err
		})
		sc := Build(j.Circ[c])
		w.Exec(sc, ins[c], nil, false, 0, nil)
		// a sample of them, and variations on the values
		if n := len(recs[c]); n > 60 {
			for i := 0; i < 60; i++ {
				k := i + rng.Intn(n-i)
				recs[c][i], recs[c][k] = recs[c][k], recs[c][i]
			}
			recs[c] = recs[c][:60]
		}
		for _, rec := range recs[c] {
			if rng.Pct(50) {
				recs[c] = append(recs[c], variant(rec, rng))
			}
		}
	}
	if j.Cross {
		if d := crossCheck(j, recs); d != "" {
			problem(d)
		}
	}
	for n := range names {
		res.Hints = append(res.Hints, n)
	}
	pool := &bufPool{rng: j.Seed}
	for ri, rd := range j.Rounds {
		outs := make([]string, len(rd))
		s := simrt.New(j.Seed+uint64(ri)*7919, j.Switch)
		for ti := range rd {
			ti := ti
			t := rd[ti]
			outs[ti] = "unfinished"
			trng := NewRng(j.Seed, uint64(ri), uint64(ti))
			switch t.Mode {
			case "compile":
				s.Spawn(t.Kill, func() {
					sc := Build(j.Circ[t.C])
					c, err := RealCompile(sc, nil, false)
					if err != nil {
						outs[ti] = "error: " + cutErr(err.Error())
						return
					}
					h := sha256.New()
					c.CS.WriteTo(h)
					outs[ti] = fmt.Sprintf("%d constraints, sha256 %x", c.CS.GetNbConstraints(), h.Sum(nil)[:12])
					if sc.Costs != nil {
						outs[ti] += fmt.Sprintf(", lookup costs %v", sc.Costs())
					}
				})
			case "exec":
				s.Spawn(t.Kill, func() {
					sc := Build(j.Circ[t.C])
					w := workerPool.Get().(*Worker)
					o := w.Exec(sc, ins[t.C], nil, false, 0, nil)
					outs[ti] = fmt.Sprintf("accepted %v, outputs %v, advice digest %016x", o.Accepted, PrettyAll(o.Outs), w.TranscriptHash())
					if o.Err != "" {
						outs[ti] = "error: " + cutErr(o.Err)
					}
					workerPool.Put(w)
				})
			case "hints":
				s.Spawn(t.Kill, func() {
					outs[ti] = "ok"
					for n := 0; n < 30; n++ {
						rs := recs[t.C]
						if len(rs) == 0 {
							return
						}
						rec := &rs[trng.Intn(len(rs))]
						res.Calls++
						if d := oneHint(rec, pool); d != "" {
							outs[ti] = d
							return
						}
					}
				})
			}
		}
		panics := s.Run()
		for id, p := range panics {
			if id < len(outs) {
				outs[id] = "panic: " + cutErr(p)
			} else {
				problem("a goroutine started by the code under test panicked: " + cutErr(p))
			}
		}
		if s.Deadlock {
			problem("deadlock: no task can continue")
		}
		if s.Overrun {
			problem("no progress within the step limit")
		}
		res.Steps += s.Steps
		res.Switches += s.Switches
		res.Kills += s.Kills
		res.Trace = res.Trace*31 + s.Trace
		for ti := range rd {
			if rd[ti].Kill > 0 && s.Kills > 0 {
				outs[ti] = "aborted"
			}
		}
		res.Out = append(res.Out, outs)
	}
	return res
}

// lookupCosts is what a gadget says about its lookups.
func lookupCosts(g any) (r []uint) {
	if x, ok := g.(interface{ LookupEntryConstraints() uint }); ok {
		r = append(r, x.LookupEntryConstraints())
	}
	if x, ok := g.(interface{ LookupQueryConstraints() uint }); ok {
		r = append(r, x.LookupQueryConstraints())
	}
	if x, ok := g.(interface{ LookupFinalizeConstraints() uint }); ok {
		r = append(r, x.LookupFinalizeConstraints())
	}
	return
}

func cutErr(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

var otherFields = []*big.Int{ecc.BLS12_381.ScalarField(), ecc.BLS12_377.ScalarField(), ecc.BW6_761.ScalarField()}

// variant is the same call over another field, or with another value: an
// assignment can be anything, so the values need not look like those of an
// honest prover. Small inputs are parameters and stay.
func variant(rec hintCallRec, r *Rng) hintCallRec {
	v := rec
	v.in = nil
	for _, x := range rec.in {
		v.in = append(v.in, new(big.Int).Set(x))
	}
	if r.Pct(60) {
		v.field = otherFields[r.Intn(len(otherFields))]
	}
	if r.Pct(70) {
		var large []int
		for i, x := range v.in {
			if x.BitLen() > 16 {
				large = append(large, i)
			}
		}
		if len(large) > 0 {
			x := v.in[large[r.Intn(len(large))]]
			switch r.Intn(5) {
			case 0:
				x.SetBit(x, r.Intn(x.BitLen()+1), x.Bit(0)^1)
			case 1:
				x.Sub(v.field, x)
				x.Mod(x, v.field)
			case 2:
				x.SetBit(x, 64+r.Intn(180), 1)
				x.Mod(x, v.field)
			case 3:
				n := x.BitLen()
				x.SetUint64(r.U64())
				x.Lsh(x, uint(n))
				x.Rsh(x, 64)
			default:
				for i := 0; i < 4; i++ {
					x.Lsh(x, 64)
					x.Add(x, new(big.Int).SetUint64(r.U64()))
				}
				x.Mod(x, v.field)
			}
		}
	}
	in := make([]*big.Int, len(v.in))
	for i := range in {
		in[i] = new(big.Int).Set(v.in[i])
	}
	out := make([]*big.Int, v.nout)
	for i := range out {
		out[i] = new(big.Int)
	}
	err := callHintSafe(v.f, new(big.Int).Set(v.field), in, out)
	v.out = hintOutcome(err, out)
	return v
}

// crossCall is a hint call to be repeated in another process.
type crossCall struct {
	Name  string   `json:"name"`
	Field string   `json:"field"`
	In    []string `json:"in"`
	NOut  int      `json:"nout"`
}

// crossCheck repeats the recorded calls in a fresh process in the opposite
// order: an answer that depends on the calls before it differs there.
func crossCheck(j *concJob, recs map[int][]hintCallRec) string {
	var calls []crossCall
	var want [][]string
	for c := len(j.Circ) - 1; c >= 0; c-- {
		for i := len(recs[c]) - 1; i >= 0; i-- {
			rec := &recs[c][i]
			calls = append(calls, crossCall{rec.name, rec.field.Text(16), hexInts(rec.in), rec.nout})
			want = append(want, rec.out)
		}
	}
	var got [][]string
	if err := runChildOn(j.On, "cross", calls, &got, 60*time.Second); err != nil || len(got) != len(want) {
		return ""
	}
	for i := range got {
		if len(got[i]) > 0 && fmt.Sprint(got[i]) != fmt.Sprint(want[i]) {
			return fmt.Sprintf("%s answers %v for inputs %v, after other calls it answers %v", calls[i].Name[strings.LastIndex(calls[i].Name, "/")+1:], got[i], calls[i].In, want[i])
		}
	}
	return ""
}

func crossChild(in *os.File) any {
	var calls []crossCall
	if err := json.NewDecoder(in).Decode(&calls); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	known := map[string]solver.Hint{}
	for _, h := range solver.GetRegisteredHints() {
		known[solver.GetHintName(h)] = h
	}
	res := make([][]string, len(calls))
	for i, c := range calls {
		h := known[c.Name]
		if h == nil {
			continue
		}
		field, _ := new(big.Int).SetString(c.Field, 16)
		var ins []*big.Int
		for _, x := range c.In {
			v, _ := new(big.Int).SetString(x, 16)
			ins = append(ins, v)
		}
		outs := make([]*big.Int, c.NOut)
		for k := range outs {
			outs[k] = new(big.Int)
		}
		res[i] = hintOutcome(callHintSafe(h, field, ins, outs), outs)
	}
	return res
}

func init() { childKinds["cross"] = crossChild }

func oneHint(rec *hintCallRec, pool *bufPool) string {
	var bad string
	get := func() *big.Int {
		b, d := pool.get()
		if d != "" && bad == "" {
			bad = d
		}
		return b
	}
	in := make([]*big.Int, len(rec.in))
	for i := range in {
		in[i] = get()
		in[i].Set(rec.in[i])
	}
	out := make([]*big.Int, rec.nout)
	for i := range out {
		out[i] = get()
	}
	if bad != "" {
		return bad
	}
	field := new(big.Int).Set(rec.field)
	inPtr := append([]*big.Int(nil), in...)
	outPtr := append([]*big.Int(nil), out...)
	err := callHintSafe(rec.f, field, in, out)
	short := rec.name[strings.LastIndex(rec.name, "/")+1:]
	if field.Cmp(rec.field) != 0 {
		return short + " modifies the field modulus"
	}
	for i := range in {
		if in[i] != inPtr[i] || in[i].Cmp(rec.in[i]) != 0 {
			return fmt.Sprintf("%s modifies its input %d from %s to %s", short, i, rec.in[i].Text(16), in[i].Text(16))
		}
	}
	for i := range out {
		if out[i] != outPtr[i] {
			return fmt.Sprintf("%s replaces its result buffer %d instead of setting it", short, i)
		}
	}
	got := hintOutcome(err, out)
	if fmt.Sprint(got) != fmt.Sprint(rec.out) {
		return fmt.Sprintf("%s answers %v for inputs %v, alone it answers %v", short, got, hexInts(rec.in), rec.out)
	}
	for _, b := range in {
		pool.put(b)
	}
	for _, b := range out {
		pool.put(b)
	}
	return ""
}

func hexInts(xs []*big.Int) (r []string) {
	for _, x := range xs {
		r = append(r, x.Text(16))
	}
	return
}

// ---- the parent side ----

const concPool = 78

// poolCircuit is circuit number i of the batch.
func poolCircuit(i int) (Spec, []fr.Element) {
	r := NewRng(Hash64("concpool"), uint64(i))
	switch {
	case i < 30:
		for {
			s, in := genProg(r, 3)
			_, ex, _, _ := progModel(s)
			if !ex.AnyReject && ex.Honest == MustAccept {
				return smallTables(s, r), in
			}
		}
	case i < 42:
		s := Spec{Kind: "poly", Op: []string{"eval", "evalk"}[r.Intn(2)], Fmt: []int{32, 64}[r.Intn(2)], FT: []string{"r1cs", "scs"}[r.Intn(2)]}
		f := ref.ByBits(s.Fmt)
		var in []fr.Element
		for k := 0; k < 3; k++ {
			b := f.FromVal(float64(r.Range(-30, 30)) / 8)
			src := []int64{srcWire, srcAlloc, srcConst}[r.Intn(3)]
			s.S, s.A = append(s.S, hexU(b)), append(s.A, src)
			in = append(in, operandInputs(f, src, b)...)
		}
		return smallTables(s, r), in
	case i < 50:
		s := Spec{Kind: "locstage", Op: []string{"ijk", "r"}[r.Intn(2)], Fmt: []int{32, 64}[r.Intn(2)], FT: []string{"r1cs", "scs"}[r.Intn(2)]}
		return smallTables(s, r), genStageInputs(r, ref.ByBits(s.Fmt), s.Op, r.Intn(16))
	case i < 62:
		for {
			s, in := genGadget(r, []int64{gCheck, gAbs, gIsPos, gMax, gMin, gPow2, gEq})
			if Build(s).Judge(in).Honest == MustAccept {
				return s, in
			}
		}
	case i < 64:
		s := Spec{Kind: "precomp", Fmt: []int{32, 64}[i&1], FT: "r1cs"}
		var in []fr.Element
		f := ref.ByBits(s.Fmt)
		for k := 0; k < 4; k++ {
			var e fr.Element
			e.SetUint64(f.FromVal((2*r.F() - 1) * 3.1))
			in = append(in, e)
		}
		return s, in
	case i >= 74:
		// the complete computation
		s := Spec{Kind: "loccell", Op: []string{"full", "cell"}[i/2&1], Fmt: []int{32, 64}[i&1], FT: []string{"r1cs", "scs"}[(i+i/2)&1]}
		return s, genStageInputs(r, ref.ByBits(s.Fmt), s.Op, r.Intn(16))
	case i >= 68:
		// the stages of the cell computation that work on many values at once
		s := Spec{Kind: "locstage", Op: []string{"face", "hex"}[i&1], Fmt: []int{32, 64}[r.Intn(2)], FT: []string{"r1cs", "scs"}[i/2&1]}
		return smallTables(s, r), genStageInputs(r, ref.ByBits(s.Fmt), s.Op, r.Intn(16))
	default:
		s := Spec{Kind: "trig", Op: []string{"atan", "sin"}[r.Intn(2)], Fmt: 32, FT: []string{"r1cs", "scs"}[r.Intn(2)], A: []int64{srcAlloc}}
		f := ref.ByBits(s.Fmt)
		b := f.FromVal(r.F() * 3)
		s.S = []string{hexU(b)}
		return smallTables(s, r), operandInputs(f, srcAlloc, b)
	}
}

func smallTables(s Spec, r *Rng) Spec {
	rs := []uint{0, 0, 2, 3, 4, 6, 8}[r.Intn(7)]
	if s.Kind == "prog" {
		for c := 0; c < len(s.A)/2; c++ {
			s.A[2*c+1] = int64(rs)
		}
	}
	s.RS = rs
	return s
}

var soloCache sync.Map // spec+mode -> result in a fresh process

func solo(c int, mode string) (string, error) {
	key := fmt.Sprint(c, mode)
	if v, ok := soloCache.Load(key); ok {
		return v.(string), nil
	}
	j := mkJob(0, 0, []int{c}, nil)
	out, err := soloOf(j, concTask{Mode: mode, C: 0})
	if err == nil {
		soloCache.Store(key, out)
	}
	return out, err
}

func mkJob(seed, sw uint64, cs []int, rounds [][]concTask) *concJob {
	j := &concJob{Seed: seed, Switch: sw, Rounds: rounds}
	for _, c := range cs {
		s, in := poolCircuit(c)
		j.Circ = append(j.Circ, s)
		var hs []string
		for i := range in {
			hs = append(hs, Hex(in[i]))
		}
		j.In = append(j.In, hs)
	}
	return j
}

// soloOf is the result of one task of a job in a process of its own.
func soloOf(j *concJob, t concTask) (string, error) {
	k := &concJob{Circ: []Spec{j.Circ[t.C]}, In: [][]string{j.In[t.C]}, Rounds: [][]concTask{{{Mode: t.Mode, C: 0}}}}
	var res concRes
	m := machineOf(Hash64(k.Circ[0].String() + fmt.Sprint(k.In, t.Mode)))
	if err := runChildOn(m, "conc", k, &res, 120*time.Second); err != nil {
		return "", err
	}
	return res.Out[0][0], nil
}

// judgeConc runs a job and compares every finished task with its result in a
// process of its own. The returned text is empty if all agree.
func judgeConc(j *concJob, want func(t concTask) (string, error)) (string, *concRes, error) {
	var res concRes
	if err := runChildOn(j.On, "conc", j, &res, 180*time.Second); err != nil {
		return "", nil, err
	}
	for ri := range j.Rounds {
		for ti, t := range j.Rounds[ri] {
			got := res.Out[ri][ti]
			if got == "aborted" {
				continue
			}
			exp := "ok"
			if t.Mode != "hints" {
				e, err := want(t)
				if err != nil {
					return "", nil, err
				}
				exp = e
			}
			if got != exp {
				return fmt.Sprintf("round %d task %d (%s of circuit %d): %s; alone: %s", ri, ti, t.Mode, t.C, got, exp), &res, nil
			}
		}
	}
	if res.Problem != "" {
		return res.Problem, &res, nil
	}
	return "", &res, nil
}

func concFound(j *concJob, detail string) *Found {
	b, _ := json.Marshal(j)
	return &Found{Class: "history-dependent", Detail: detail, Spec: Spec{Kind: "concjob", FT: "-", M: map[string]string{"job": string(b)}}}
}

// minimise drops rounds, tasks, aborts and switches while the job still fails.
func minConc(j *concJob) (*concJob, string) {
	fails := func(k *concJob) string {
		d, _, err := judgeConc(k, func(t concTask) (string, error) { return soloOf(k, t) })
		if err != nil {
			return ""
		}
		return d
	}
	best := ""
	for i := 0; i < 5 && best == ""; i++ {
		best = fails(j)
	}
	if best == "" {
		return j, ""
	}
	clone := func() *concJob {
		b, _ := json.Marshal(j)
		var k concJob
		json.Unmarshal(b, &k)
		return &k
	}
	budget := 60
	try := func(k *concJob) bool {
		if budget == 0 {
			return false
		}
		budget--
		if d := fails(k); d != "" {
			j, best = k, d
			return true
		}
		return false
	}
	k := clone()
	k.Switch = 0
	try(k)
	if j.Cross {
		k := clone()
		k.Cross = false
		try(k)
	}
	for ri := len(j.Rounds) - 1; ri >= 0; ri-- {
		k := clone()
		k.Rounds = append(k.Rounds[:ri:ri], k.Rounds[ri+1:]...)
		if len(k.Rounds) > 0 {
			try(k)
		}
	}
	for ri := len(j.Rounds) - 1; ri >= 0; ri-- {
		for ti := len(j.Rounds[ri]) - 1; ti >= 0; ti-- {
			if len(j.Rounds[ri]) < 2 {
				continue
			}
			k := clone()
			k.Rounds[ri] = append(k.Rounds[ri][:ti:ti], k.Rounds[ri][ti+1:]...)
			try(k)
		}
	}
	return j, best
}

func concRun(w *Worker, r *Rng, modes []string) *Found {
	var cs []int
	n := r.Range(2, 4)
	for i := 0; i < n; i++ {
		c := r.Intn(concPool)
		if c >= 74 && r.Pct(60) {
			c = r.Intn(74)
		}
		cs = append(cs, c)
	}
	var rounds [][]concTask
	for k := r.Range(2, 5); k > 0; k-- {
		var rd []concTask
		for i := r.Range(1, 4); i > 0; i-- {
			t := concTask{Mode: modes[r.Intn(len(modes))], C: r.Intn(n)}
			if r.Pct(15) {
				t.Kill = int64(1 + r.Intn(1<<uint(r.Range(2, 14))))
			}
			rd = append(rd, t)
		}
		rounds = append(rounds, rd)
	}
	sw := []uint64{1, 8, 40, 200, 600}[r.Intn(5)]
	j := mkJob(r.U64(), sw, cs, rounds)
	j.On = machineOf(r.U64())
	j.Cross = modes[0] == "hints" && r.Pct(20)
	d, res, err := judgeConc(j, func(t concTask) (string, error) { return solo(cs[t.C], t.Mode) })
	w.Cov.Sessions++
	if err != nil {
		d2, _, err2 := judgeConc(j, func(t concTask) (string, error) { return solo(cs[t.C], t.Mode) })
		if err2 != nil {
			return concFound(j, "a process defining circuits dies: "+err2.Error())
		}
		d = d2
	}
	if d != "" {
		if m, md := minConc(j); md != "" {
			return concFound(m, md)
		}
		// not reproduced: the environment, not the code
		w.Cov.Unconfirmed++
		return nil
	}
	if res == nil {
		return nil
	}
	h := Hash64(fmt.Sprint(res.Trace, cs, rounds))
	w.Cov.Distinct[h] = struct{}{}
	if res.Switches > 0 {
		w.Cov.Nontrivial[h] = struct{}{}
	}
	tasks := int64(0)
	for _, rd := range rounds {
		tasks += int64(len(rd))
	}
	w.Cov.Execs += tasks
	w.Cov.Faulted += res.Kills
	w.Cov.Steps += res.Steps
	w.Cov.HintCalls += res.Calls
	w.Cov.Faults["task switch at a yield point"] += res.Switches
	w.Cov.Faults["definition or prover aborted at a yield point"] += res.Kills
	for _, x := range res.Hints {
		w.Cov.Probes["hint called directly: "+x[strings.LastIndex(x, "/")+1:]]++
	}
	w.Note(Hash64(fmt.Sprint(res.Out, res.Steps, res.Switches, res.Trace)), true)
	return nil
}

var concReal = []string{"float, math, gadget, hint, loc2index packages of /repo, compiled with a yield point before every statement", "gnark R1CS and SCS builders"}
var concStub = []string{"goroutine scheduler: a seeded cooperative scheduler", "package sync inside the instrumented packages: a simulated one", "map iteration order inside the instrumented packages: seeded"}

func init() {
	// the trigonometric advice of the location circuits, outputs unconstrained
	Register("precomp", func(s Spec) *Scn {
		return &Scn{NIn: 4, Define: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			h, e, m := hint.PrecomputeHint32, 8, 23
			if s.Fmt == 64 {
				h, e, m = hint.PrecomputeHint64, 11, 52
			}
			for _, x := range in {
				if _, err := api.Compiler().NewHint(h, 16, x, e, m); err != nil {
					panic(err)
				}
			}
			return nil
		}}
	})
	Register("concjob", func(s Spec) *Scn { panic("concjob is not a circuit") })
	replayers["concjob"] = func(w *Worker, f *Found) *Found {
		var j concJob
		if err := json.Unmarshal([]byte(f.Spec.M["job"]), &j); err != nil {
			panic(err)
		}
		d, _, err := judgeConc(&j, func(t concTask) (string, error) { return soloOf(&j, t) })
		if err != nil {
			d = "a process defining circuits dies: " + err.Error()
		}
		if d == "" {
			return nil
		}
		g := concFound(&j, d)
		return g
	}
	add(&Check{ID: "C20", Quick: 2000, Thorough: 40000, Real: concReal, Stub: concStub, Run: func(w *Worker, r *Rng) *Found {
		return concRun(w, r, []string{"compile", "compile", "compile", "exec"})
	},
		Assume: []string{"a switch can happen between any two statements, not inside an expression", "gnark itself runs atomically between yield points"},
		Rule:   "a run draws circuits, rounds of concurrent and repeated definitions, aborts and a schedule by the seed and executes them in one fresh process under the cooperative scheduler; oracle: the constraint system (digest of its serialisation) each circuit compiles to alone in a fresh process; non-trivial: a distinct schedule with at least one task switch"})
	add(&Check{ID: "C21", Quick: 9000, Thorough: 120000, Real: append(concReal, "hint functions of hint and gadget packages, called with reused and dirty buffers"), Stub: concStub, Run: func(w *Worker, r *Rng) *Found {
		return concRun(w, r, []string{"hints", "hints", "exec"})
	},
		Assume: []string{"a switch can happen between any two statements, not inside an expression"},
		Rule:   "a run draws circuits whose hint calls are captured, then interleaves repetitions of those calls (dirty, reused and guarded buffers) and whole provers by the seed; oracle: the answer of the same call alone, unchanged inputs, untouched released buffers, and the advice transcript of each prover alone in a fresh process; non-trivial: a distinct schedule with at least one task switch"})
}
