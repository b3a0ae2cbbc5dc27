package sess

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend/frontendtype"
	"zkverif/engine"
)

// Worker owns the reusable simulation state of one worker goroutine.
type Worker struct {
	e   *engine.E
	a   adv
	Cov *Coverage
	log uint64 // running digest of everything that happened in this run
}

// Digest returns the digest of the current run and starts a new one.
func (w *Worker) Digest() uint64 {
	d := w.log
	w.log = 0
	return d
}

// Coverage counts what a batch actually did.
type Coverage struct {
	Sessions     int64 // (program, inputs) pairs
	Execs        int64 // simulated executions
	HintCalls    int64
	Steps        int64
	HonestOK     int64
	HonestReject int64
	Vacuous      int64
	Faulted      int64 // executions with at least one fault that changed an answer
	Rejected     int64 // faulted executions made unsatisfiable
	Absorbed     int64 // faulted, accepted, same results
	Repairs      int64
	RepairHits   int64
	Unconfirmed  int64
	RealRuns     int64
	RealAgree    int64
	Faults       map[string]int64
	Sites        map[string]int64 // hint name: faults fired there
	Distinct     map[uint64]struct{}
	Nontrivial   map[uint64]struct{}
	Probes       map[string]int64
	Samples      []string
}

func NewCoverage() *Coverage {
	return &Coverage{Faults: map[string]int64{}, Sites: map[string]int64{}, Distinct: map[uint64]struct{}{}, Nontrivial: map[uint64]struct{}{}, Probes: map[string]int64{}}
}

func (c *Coverage) Merge(o *Coverage) {
	c.Sessions += o.Sessions
	c.Execs += o.Execs
	c.HintCalls += o.HintCalls
	c.Steps += o.Steps
	c.HonestOK += o.HonestOK
	c.HonestReject += o.HonestReject
	c.Vacuous += o.Vacuous
	c.Faulted += o.Faulted
	c.Rejected += o.Rejected
	c.Absorbed += o.Absorbed
	c.Repairs += o.Repairs
	c.RepairHits += o.RepairHits
	c.Unconfirmed += o.Unconfirmed
	c.RealRuns += o.RealRuns
	c.RealAgree += o.RealAgree
	for k, v := range o.Faults {
		c.Faults[k] += v
	}
	for k, v := range o.Sites {
		c.Sites[k] += v
	}
	for k, v := range o.Probes {
		c.Probes[k] += v
	}
	for k := range o.Distinct {
		c.Distinct[k] = struct{}{}
	}
	for k := range o.Nontrivial {
		c.Nontrivial[k] = struct{}{}
	}
	c.Samples = append(c.Samples, o.Samples...)
	sort.Strings(c.Samples)
	if len(c.Samples) > 8 {
		c.Samples = c.Samples[:8]
	}
}

func NewWorker() *Worker {
	return &Worker{e: engine.New(), Cov: NewCoverage()}
}

// Outcome of one execution.
type Outcome struct {
	Accepted bool
	Outs     []fr.Element
	Err      string
	Viol     []engine.Violation
	Panic    string
}

func ftOf(s string) frontendtype.Type {
	if s == "scs" {
		return frontendtype.SCS
	}
	return frontendtype.R1CS
}

// Exec runs one simulated execution of sc.
func (w *Worker) Exec(sc *Scn, in []fr.Element, p *Plan, record bool, maxViol int, watch *engine.Violation) Outcome {
	e := w.e
	e.Reset()
	e.FT = ftOf(sc.Spec.FT)
	e.Record = record
	e.MaxViol = maxViol
	e.WOrd = 0
	if watch != nil {
		e.WKind, e.WOrd = watch.Kind, watch.Ord
	}
	w.a.reset(p)
	e.Advisor = &w.a
	r := e.Exec(in, sc.Define)
	w.Cov.Execs++
	w.Cov.HintCalls += int64(e.NCall)
	w.Cov.Steps += int64(e.Steps)
	return Outcome{Accepted: r.Accepted, Outs: r.Outs, Err: r.Err, Viol: e.Viol, Panic: e.HintPanic}
}

// Transcript copies the advice used in the last execution.
func (w *Worker) Transcript() [][]fr.Element {
	r := make([][]fr.Element, len(w.a.outs))
	for i := range r {
		r[i] = w.a.outs[i]
	}
	return r
}

// Deviations lists where the last execution's advice differs from the honest
// answer at that point.
func (w *Worker) Deviations() []Dev {
	var d []Dev
	for i := range w.a.outs {
		for j := range w.a.outs[i] {
			if w.a.honest[i] == nil || w.a.outs[i][j] != w.a.honest[i][j] {
				dv := Dev{Call: i, Slot: j, Val: Hex(w.a.outs[i][j])}
				if w.a.honest[i] != nil {
					dv.Honest = Hex(w.a.honest[i][j])
				}
				if i < len(w.e.Calls) {
					dv.Hint = w.e.Calls[i].Name
				}
				d = append(d, dv)
			}
		}
	}
	return d
}

// Dev is one dishonest answer of a minimised fault trace.
type Dev struct {
	Call   int    `json:"call"`
	Slot   int    `json:"slot"`
	Hint   string `json:"hint,omitempty"`
	Honest string `json:"honest,omitempty"`
	Val    string `json:"answer"`
}

func planOf(ds []Dev) *Plan {
	p := &Plan{}
	for _, d := range ds {
		p.Faults = append(p.Faults, Fault{Call: d.Call, Slot: d.Slot, Kind: "set", Val: FromHex(d.Val)})
	}
	return p
}

// Found is a violation together with everything needed to replay it.
type Found struct {
	Property string            `json:"property"`
	Run      int64             `json:"run"`
	Seed     uint64            `json:"seed"`
	Class    string            `json:"class"` // honest-rejected, wrong-result, forged-accept, ...
	Detail   string            `json:"detail"`
	Spec     Spec              `json:"spec"`
	Inputs   []string          `json:"inputs"`
	Devs     []Dev             `json:"faults"`
	Outs     []string          `json:"accepted_outputs,omitempty"`
	Extra    map[string]string `json:"extra,omitempty"`
	Hint     string            `json:"note,omitempty"`
}

func (w *Worker) note(xs ...uint64) {
	for _, x := range xs {
		w.log = mix(w.log, x)
	}
}

func elemHash(xs []fr.Element) uint64 {
	h := uint64(1469598103934665603)
	for i := range xs {
		for _, v := range xs[i] {
			h = (h ^ v) * 1099511628211
			h ^= h >> 29
		}
	}
	return h
}

// violates judges an accepted execution.
func violates(ex *Expect, o *Outcome) string {
	if !o.Accepted {
		return ""
	}
	if ex.AnyReject {
		return "accepted although the model rejects the input for every prover"
	}
	if ex.Check != nil {
		return ex.Check(o.Outs)
	}
	return ""
}

// Knobs of the fault search for a session.
type Knobs struct {
	Attempts           int
	RepairPct          int
	RepairTry          int
	RepairDep          int
	SkipHints          map[string]bool // hints whose faults belong to a known finding
	FocusTail          bool
	NewFloatPct        int
	NoConfirm          bool
	NoFaultDeferredPct int
}

// Session runs one (scenario, inputs) pair: the fault-free configuration and
// then a number of fault-injecting ones. It returns the first violation.
func (w *Worker) Session(r *Rng, sc *Scn, in []fr.Element, kn Knobs, foreign func(r *Rng) []fr.Element) *Found {
	w.a.protect = kn.SkipHints
	ex := sc.Judge(in)
	w.Cov.Sessions++
	sh := mix(Hash64(sc.Spec.String()), elemHash(in))
	w.Cov.Distinct[sh] = struct{}{}
	if ex.Vacuous {
		w.Cov.Vacuous++
	}
	o := w.Exec(sc, in, nil, true, 0, nil)
	w.note(sh, b2u(o.Accepted), elemHash(o.Outs))
	mk := func(class, detail string) *Found {
		f := &Found{Class: class, Detail: detail, Spec: sc.Spec}
		for i := range in {
			f.Inputs = append(f.Inputs, Hex(in[i]))
		}
		return f
	}
	if o.Err != "" && !ex.Vacuous {
		return mk("definition-failed", "circuit definition failed: "+o.Err)
	}
	if o.Panic != "" && !ex.Vacuous {
		return mk("hint-crash", "honest prover crashed: "+o.Panic)
	}
	if o.Accepted {
		w.Cov.HonestOK++
	} else {
		w.Cov.HonestReject++
	}
	if ex.Honest == MustAccept && !o.Accepted {
		return mk("honest-rejected", fmt.Sprintf("the honest prover fails: %s", violString(o.Viol)))
	}
	if ex.Honest == MustReject && o.Accepted {
		return mk("wrong-accept", "accepted for the honest prover although the model rejects")
	}
	if s := violates(&ex, &o); s != "" {
		f := mk("wrong-result", s)
		for i := range o.Outs {
			f.Outs = append(f.Outs, Hex(o.Outs[i]))
		}
		return f
	}
	if kn.Attempts == 0 || (ex.Check == nil && !ex.AnyReject) {
		return nil
	}
	resume := false
	for _, v := range o.Viol {
		if v.Kind == engine.VHint {
			resume = true
		}
	}
	if resume {
		// the honest prover gives up here; a dishonest one carries on
		o = w.Exec(sc, in, &Plan{Resume: true}, true, 0, nil)
		if o.Accepted {
			if s := violates(&ex, &o); s != "" {
				if f := w.confirm(sc, in, &ex, mk, s); f != nil {
					return f
				}
			}
		}
	}
	base := w.Transcript()
	calls := append(calls0[:0:0], w.e.Calls...)
	if len(calls) == 0 {
		return nil
	}
	honestAccepted := o.Accepted
	var baseOuts []fr.Element
	baseOuts = append(baseOuts, o.Outs...)
	w.Cov.Nontrivial[sh] = struct{}{}
	nmain := 0
	for nmain < len(calls) && !calls[nmain].Def {
		nmain++
	}
	for at := 0; at < kn.Attempts; at++ {
		p := w.plan(r, sc, in, base, calls, nmain, kn, foreign)
		if p == nil {
			continue
		}
		p.Resume = resume || r.Pct(20)
		o := w.Exec(sc, in, p, false, 12, nil)
		w.tally(p)
		if len(w.a.fired) > 0 || w.a.frozen > 0 {
			w.Cov.Faulted++
		}
		w.note(uint64(at), b2u(o.Accepted), uint64(len(o.Viol)))
		if o.Accepted {
			if s := violates(&ex, &o); s != "" {
				if f := w.confirm(sc, in, &ex, mk, s); f != nil {
					return f
				}
				continue
			}
			if honestAccepted || true {
				w.Cov.Absorbed++
			}
			continue
		}
		w.Cov.Rejected++
		if o.Err != "" || len(o.Viol) == 0 || len(o.Viol) > 6 || o.Viol[0].Kind == engine.VHint || o.Viol[0].Kind == engine.VOther {
			continue
		}
		if !r.Pct(kn.RepairPct) {
			continue
		}
		if s := w.repair(r, sc, in, &ex, o.Viol, calls, nmain, kn); s != "" {
			if f := w.confirm(sc, in, &ex, mk, s); f != nil {
				return f
			}
		}
	}
	_ = baseOuts
	return nil
}

var calls0 []engine.Call

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func violString(vs []engine.Violation) string {
	s := ""
	for i, v := range vs {
		if i == 4 {
			s += " ..."
			break
		}
		if i > 0 {
			s += "; "
		}
		switch v.Kind {
		case engine.VEq:
			s += fmt.Sprintf("equality #%d off by %s", v.Ord, Pretty(v.Val))
		case engine.VLookup:
			s += fmt.Sprintf("lookup #%d of %s not in table %d", v.Ord, Pretty(v.Val), v.Table)
		case engine.VBool:
			s += fmt.Sprintf("boolean #%d is %s", v.Ord, Pretty(v.Val))
		default:
			s += v.Msg
		}
	}
	return s
}

func (w *Worker) tally(p *Plan) {
	for _, fi := range w.a.fired {
		w.Cov.Faults[p.Faults[fi].Kind]++
		c := p.Faults[fi].Call
		_ = c
	}
	if w.a.frozen > 0 {
		if p.FreezeFrom == 0 && p.FreezeTo >= len(p.Base) {
			w.Cov.Faults["foreign_transcript"]++
		} else {
			w.Cov.Faults["frozen_transcript"]++
		}
	}
}

// plan draws a fault plan.
func (w *Worker) plan(r *Rng, sc *Scn, in []fr.Element, base [][]fr.Element, calls []engine.Call, nmain int, kn Knobs, foreign func(r *Rng) []fr.Element) *Plan {
	p := &Plan{}
	if foreign != nil && r.Pct(12) {
		// replay advice recorded in another session
		fin := foreign(r)
		if fin != nil {
			w.Exec(sc, fin, nil, false, 0, nil)
			p.Base = w.Transcript()
			p.FreezeFrom = 0
			switch r.Intn(4) {
			case 0:
				p.FreezeTo = nmain
			case 1:
				p.FreezeTo = len(p.Base)
			case 2:
				// up to some point, honestly continued
				p.FreezeTo = 1 + r.Intn(nmain+1)
			default:
				p.FreezeTo = nmain
				p.FreezeSeed = r.U64() | 1
			}
			return p
		}
	}
	pick := func() (int, int) {
		for t := 0; t < 8; t++ {
			var c int
			if nmain > 0 && (nmain == len(calls) || r.Pct(85)) {
				c = r.Intn(nmain)
			} else if nmain < len(calls) {
				c = nmain + r.Intn(len(calls)-nmain)
			} else {
				return -1, 0
			}
			if kn.SkipHints[calls[c].Name] || len(base[c]) == 0 {
				continue
			}
			return c, r.Intn(len(base[c]))
		}
		return -1, 0
	}
	if r.Pct(22) {
		// flip a subset of the boolean answers
		var bs [][2]int
		for c := 0; c < nmain; c++ {
			if kn.SkipHints[calls[c].Name] {
				continue
			}
			for s := range base[c] {
				if base[c][s].IsZero() || base[c][s].IsOne() {
					bs = append(bs, [2]int{c, s})
				}
			}
		}
		if len(bs) > 0 {
			n := 1
			if r.Pct(40) {
				n = 1 + r.Intn(3)
			}
			for i := 0; i < n; i++ {
				b := bs[r.Intn(len(bs))]
				p.Faults = append(p.Faults, Fault{Call: b[0], Slot: b[1], Kind: "complement"})
			}
			return w.withFreeze(r, p, base, nmain)
		}
	}
	n := 1
	if r.Pct(25) {
		n = 2
		if r.Pct(30) {
			n = 3
		}
	}
	for i := 0; i < n; i++ {
		c, s := pick()
		if c < 0 {
			return nil
		}
		if i > 0 && r.Pct(50) {
			// cluster: another slot of the same or a neighbouring call
			c0 := p.Faults[0].Call
			c2 := c0 + r.Intn(3)
			if c2 < len(calls) && !kn.SkipHints[calls[c2].Name] && len(base[c2]) > 0 {
				c, s = c2, r.Intn(len(base[c2]))
			}
		}
		p.Faults = append(p.Faults, w.fault(r, sc, c, s, &calls[c], len(base[c])))
	}
	return w.withFreeze(r, p, base, nmain)
}

func (w *Worker) withFreeze(r *Rng, p *Plan, base [][]fr.Element, nmain int) *Plan {
	if r.Pct(15) {
		last := 0
		for _, f := range p.Faults {
			if f.Call > last {
				last = f.Call
			}
		}
		if last+1 < nmain {
			p.Base = base
			p.FreezeFrom = last + 1
			p.FreezeTo = nmain
			if r.Bool() {
				p.FreezeSeed = r.U64() | 1
			}
		}
	}
	return p
}

func (w *Worker) fault(r *Rng, sc *Scn, c, s int, call *engine.Call, nslots int) Fault {
	f := Fault{Call: c, Slot: s}
	// powers suggested by constants passed to the hint
	var ks []int
	for i := range call.In {
		if call.InC[i] && call.In[i].IsUint64() && call.In[i].Uint64() < 254 {
			ks = append(ks, int(call.In[i].Uint64()))
		}
	}
	pickK := func() int {
		if len(ks) > 0 && r.Pct(60) {
			k := ks[r.Intn(len(ks))] + r.Range(-2, 2)
			if k < 0 {
				k = 0
			}
			return k
		}
		switch r.Intn(4) {
		case 0:
			return r.Intn(254)
		case 1:
			return r.Intn(24)
		default:
			return r.Intn(2*sc.Spec.Fmt + 8)
		}
	}
	smallD := func() int64 {
		d := int64(1)
		if r.Pct(40) {
			d = int64(1 + r.Intn(8))
		}
		if r.Bool() {
			d = -d
		}
		return d
	}
	switch r.Intn(20) {
	case 0:
		f.Kind = "drop"
	case 1:
		f.Kind = "one"
	case 2, 3:
		f.Kind = "complement"
	case 4:
		f.Kind = "negate"
	case 5, 6:
		f.Kind, f.D = "offset", smallD()
	case 7, 8:
		f.Kind, f.K, f.D = "offset_pow2", pickK(), smallD()
	case 9:
		f.Kind, f.K = "bitflip", pickK()
	case 10:
		if r.Bool() {
			f.Kind = "double"
		} else {
			f.Kind = "halve"
		}
	case 11, 12:
		f.Kind, f.K, f.D = "fraction", pickK(), smallD()
		if r.Bool() {
			// slack of a limb decomposition
			f.K = 1 + r.Intn(10)
		}
	case 13:
		f.Kind, f.K, f.D = "fraction_of_input", r.Intn(8), smallD()
	case 14:
		f.Kind, f.K, f.D = "multiple_of_input", r.Intn(8), smallD()
	case 15:
		f.Kind = "stale"
	case 16:
		if nslots > 1 {
			f.Kind, f.K = "swap", r.Intn(nslots)
		} else {
			f.Kind, f.K = "copy_input", r.Intn(8)
		}
	case 17:
		f.Kind, f.K, f.D = "random_small", r.Intn(64), int64(r.U64()>>2)
	case 18:
		f.Kind, f.D = "random_field", int64(r.U64()>>2)
	case 19:
		if r.Bool() {
			f.Kind, f.D = "small", int64(r.Range(-4, 70))
		} else {
			f.Kind, f.K, f.D = "table_alias", sc.Spec.Fmt, int64(r.Intn(80))
			if sc.Spec.Fmt == 0 {
				f.K = r.Range(1, 70)
			}
		}
	}
	return f
}

// repair tries to turn a rejected faulty execution into an accepted one by
// solving a violated constraint for another advice slot (a prover that
// compensates). It returns the reason if that produced a wrong accepted run;
// the state of the last execution is then the violating one.
func (w *Worker) repair(r *Rng, sc *Scn, in []fr.Element, ex *Expect, viol []engine.Violation, calls []engine.Call, nmain int, kn Knobs) string {
	w.Cov.Repairs++
	trans := w.Transcript()
	vs := append([]engine.Violation(nil), viol...)
	for depth := 0; depth < kn.RepairDep; depth++ {
		v := vs[r.Intn(len(vs))]
		if v.Kind == engine.VOther || v.Kind == engine.VHint || len(trans) == 0 {
			return ""
		}
		tabs := w.e.Tables
		solved := false
		for try := 0; try < kn.RepairTry && !solved; try++ {
			lim := len(trans)
			var c int
			if nmain > 0 && r.Pct(75) && nmain <= lim {
				c = r.Intn(nmain)
			} else {
				c = r.Intn(lim)
			}
			if c < len(calls) && kn.SkipHints[calls[c].Name] {
				continue
			}
			if len(trans[c]) == 0 {
				continue
			}
			s := r.Intn(len(trans[c]))
			// slope
			p := &Plan{Base: trans, FreezeTo: len(trans), UseDelta: true, DCall: c, DSlot: s}
			p.Delta.SetOne()
			w.Exec(sc, in, p, true, 40, &v)
			if !w.e.WSeen {
				continue
			}
			tabs = w.e.Tables
			var slope fr.Element
			slope.Sub(&w.e.WVal, &v.Val)
			if slope.IsZero() {
				continue
			}
			var target fr.Element
			switch v.Kind {
			case engine.VEq:
			case engine.VBool:
				target.SetUint64(uint64(r.Intn(2)))
			case engine.VLookup:
				if v.Table < len(tabs) {
					t := tabs[v.Table]
					if len(t) == 1 {
						n := t[0].Uint64()
						switch r.Intn(3) {
						case 0:
							target.SetUint64(0)
						case 1:
							target.SetUint64(n - 1)
						default:
							target.SetUint64(r.U64() % n)
						}
					} else {
						target = t[r.Intn(len(t))]
					}
				} else {
					target.SetUint64(0)
				}
			}
			var d fr.Element
			d.Sub(&target, &v.Val)
			slope.Inverse(&slope)
			d.Mul(&d, &slope)
			w.Cov.RepairHits++
			// adaptive downstream first
			nt := append([][]fr.Element(nil), trans...)
			nt[c] = append([]fr.Element(nil), trans[c]...)
			nt[c][s].Add(&nt[c][s], &d)
			for mode := 0; mode < 3; mode++ {
				q := &Plan{Base: nt, FreezeTo: len(nt), Resume: true}
				switch mode {
				case 0: // everything up to c frozen, the rest honest
					q.FreezeTo = c + 1
				case 1: // main phase frozen, deferred decompositions honest
					q.FreezeTo = nmain
				}
				o := w.Exec(sc, in, q, false, 12, nil)
				w.note(7, b2u(o.Accepted), uint64(len(o.Viol)))
				if o.Accepted {
					w.Cov.Faults["compensated"]++
					w.Cov.Faulted++
					if s := violates(ex, &o); s != "" {
						return s
					}
					w.Cov.Absorbed++
					return ""
				}
				if len(o.Viol) > 0 && len(o.Viol) <= len(vs) && mode == 1 {
					trans = w.Transcript()
					vs = append(vs[:0], o.Viol...)
					solved = true
					break
				}
			}
		}
		if !solved {
			return ""
		}
	}
	return ""
}

// confirm takes the violating execution just performed, minimises its fault
// trace and checks that the real gnark pipeline accepts the same forged run.
func (w *Worker) confirm(sc *Scn, in []fr.Element, ex *Expect, mk func(string, string) *Found, why string) *Found {
	devs := w.Deviations()
	try := func(ds []Dev) (string, Outcome) {
		o := w.Exec(sc, in, planOf(ds), true, 0, nil)
		return violates(ex, &o), o
	}
	s, o := try(devs)
	if s == "" {
		w.Cov.Unconfirmed++
		return nil
	}
	devs = w.Deviations()
	// minimise: drop deviations while the violation persists
	for changed := true; changed && len(devs) > 1; {
		changed = false
		for i := 0; i < len(devs); i++ {
			t := append(append([]Dev(nil), devs[:i]...), devs[i+1:]...)
			if s2, o2 := try(t); s2 != "" {
				nd := w.Deviations()
				if len(nd) < len(devs) {
					devs, s, o = nd, s2, o2
					changed = true
					break
				}
			}
		}
	}
	s, o = try(devs)
	if s == "" {
		w.Cov.Unconfirmed++
		return nil
	}
	devs = w.Deviations()
	f := mk("forged-accept", s)
	f.Devs = devs
	for i := range o.Outs {
		f.Outs = append(f.Outs, Hex(o.Outs[i]))
	}
	rr := RealRun(sc, in, devs, o.Outs, RealOpts{})
	w.Cov.RealRuns++
	if !rr.Accepted {
		w.Cov.Unconfirmed++
		w.Cov.Probes["unconfirmed: "+trim(rr.Err, 80)]++
		return nil
	}
	w.Cov.RealAgree++
	return f
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// RealSample runs the session's program on the real gnark compiler and solver:
// fault-free, with a wrong claimed output, and with a few dishonest
// transcripts, and compares the verdicts with the simulator's.
func (w *Worker) RealSample(r *Rng, sc *Scn, in []fr.Element) *Found {
	ex := sc.Judge(in)
	if ex.Vacuous {
		return nil
	}
	o := w.Exec(sc, in, nil, true, 0, nil)
	calls := append(calls0[:0:0], w.e.Calls...)
	base := w.Transcript()
	mk := func(class, detail string) *Found {
		f := &Found{Class: class, Detail: detail, Spec: sc.Spec}
		for i := range in {
			f.Inputs = append(f.Inputs, Hex(in[i]))
		}
		return f
	}
	c, err := RealCompile(sc, nil, false)
	if err != nil && ex.Honest == MustReject {
		// the assertion already fails on constants
		w.note(12)
		w.Cov.RealAgree++
		return nil
	}
	if err != nil {
		return mk("compile-failed", "gnark cannot compile the program: "+trim(err.Error(), 300))
	}
	res := c.Solve(bigs(in), bigs(o.Outs), nil, RealOpts{NbTasks: 1 + r.Intn(8)})
	w.Cov.RealRuns++
	w.note(11, b2u(res.Accepted))
	if ex.Honest == MustAccept && !res.Accepted {
		return mk("honest-rejected", "the honest prover fails on gnark: "+trim(res.Err, 200))
	}
	if ex.Honest == MustReject && res.Accepted {
		return mk("wrong-accept", "gnark accepts for the honest prover although the model rejects")
	}
	if res.Accepted == o.Accepted {
		w.Cov.RealAgree++
	}
	if len(o.Outs) > 0 && o.Accepted {
		bad := append([]fr.Element(nil), o.Outs...)
		i := r.Intn(len(bad))
		var one fr.Element
		one.SetOne()
		bad[i].Add(&bad[i], &one)
		if s := ex.Check(bad); s != "" {
			res := c.Solve(bigs(in), bigs(bad), nil, RealOpts{})
			w.Cov.RealRuns++
			if res.Accepted {
				f := mk("wrong-accept", "gnark accepts a wrong claimed output with honest advice")
				for i := range bad {
					f.Outs = append(f.Outs, Hex(bad[i]))
				}
				return f
			}
			w.Cov.RealAgree++
		}
	}
	if ex.Check == nil && !ex.AnyReject {
		return nil
	}
	nmain := 0
	for nmain < len(calls) && !calls[nmain].Def {
		nmain++
	}
	if len(calls) == 0 {
		return nil
	}
	for k := 0; k < 4; k++ {
		p := w.plan(r, sc, in, base, calls, nmain, Knobs{}, nil)
		if p == nil {
			continue
		}
		o := w.Exec(sc, in, p, true, 0, nil)
		w.tally(p)
		if o.Err != "" || len(o.Outs) != len(base)*0+sc.NOut {
			continue
		}
		devs := w.Deviations()
		if len(devs) > 64 {
			continue
		}
		res := c.Solve(bigs(in), bigs(o.Outs), devs, RealOpts{NbTasks: 1 + r.Intn(8)})
		w.Cov.RealRuns++
		if res.Accepted == o.Accepted {
			w.Cov.RealAgree++
		} else {
			w.Cov.Probes["real/sim verdict differs"]++
		}
		if res.Accepted {
			why := ""
			if ex.AnyReject {
				why = "accepted although the model rejects the input for every prover"
			} else {
				why = ex.Check(o.Outs)
			}
			if why != "" {
				f := mk("forged-accept", why+" (found on gnark directly)")
				f.Devs = devs
				for i := range o.Outs {
					f.Outs = append(f.Outs, Hex(o.Outs[i]))
				}
				return f
			}
		}
	}
	return nil
}

// Note folds an observation into the run's digest.
func (w *Worker) Note(h uint64, b bool) { w.note(h, b2u(b)) }

// HashElems fingerprints a vector.
func HashElems(xs []fr.Element) uint64 { return elemHash(xs) }

// OnHint makes f run every hint of the worker's executions (nil: plain calls).
func (w *Worker) OnHint(f func(name string, h solver.Hint, ins, outs []*big.Int) error) {
	w.e.OnHint = f
}

// TranscriptHash digests the advice of the last execution.
func (w *Worker) TranscriptHash() uint64 {
	h := uint64(len(w.a.outs))
	for i := range w.a.outs {
		h = mix(h, elemHash(w.a.outs[i]))
	}
	return mix(h, uint64(w.e.Steps))
}
