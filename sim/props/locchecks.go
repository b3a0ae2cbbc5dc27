package props

import (
	"fmt"
	"math"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/hint"
	loc32 "github.com/tumberger/zk-Location/loc2index32"
	loc64 "github.com/tumberger/zk-Location/loc2index64"
	"zkverif/ref"
	. "zkverif/sess"
)

type locFns struct {
	define func(api frontend.API, lat, lng, res, i, j, k frontend.Variable) error
	face   func(f *float.Context, x, y, z, lng float.FloatVar) [9]float.FloatVar
	r      func(f *float.Context, sq float.FloatVar, res frontend.Variable) float.FloatVar
	hex    func(f *float.Context, sl, cl, sg, cg float.FloatVar, c [9]float.FloatVar, r float.FloatVar, res frontend.Variable) [2]float.FloatVar
	ijk    func(f *float.Context, x, y float.FloatVar) [3]frontend.Variable
	norm   func(f *float.Context, iNeg, i, jNeg, j, kNeg, k frontend.Variable) [3]frontend.Variable
}

var locBy = map[int]locFns{
	32: {loc32.VerifDefine, loc32.VerifFace, loc32.VerifR, loc32.VerifHex2d, loc32.VerifIJK, loc32.NormalizeIJK},
	64: {loc64.VerifDefine, loc64.VerifFace, loc64.VerifR, loc64.VerifHex2d, loc64.VerifIJK, loc64.NormalizeIJK},
}

// number of float inputs of each stage, and whether a resolution follows
var stageIn = map[string]int{"face": 3, "r": 1, "hex": 13, "ijk": 2, "chain": 4, "cell": 4}
var stageRes = map[string]bool{"r": true, "hex": true, "chain": true, "cell": true}
var stageOut = map[string]int{"face": 36, "r": 4, "hex": 8, "ijk": 3, "chain": 15, "cell": 3}

// claimAPI turns the claimed cell of the complete circuit into outputs: the
// comparisons of the computed coordinates with the claim are recorded instead
// of asserted.
type claimAPI struct {
	SubAPI
	claim [3]*big.Int
	got   [3]frontend.Variable
}

func (c *claimAPI) AssertIsEqual(a, b frontend.Variable) {
	for i := range c.claim {
		if x, ok := a.(*big.Int); ok && x == c.claim[i] {
			c.got[i] = b
			return
		}
		if x, ok := b.(*big.Int); ok && x == c.claim[i] {
			c.got[i] = a
			return
		}
	}
	c.API.AssertIsEqual(a, b)
}

// forgeHints answers the precomputed trigonometric advice with the values of
// the scenario (tan, sin, half-angle sine and cosine of latitude, then of
// longitude), if it has any.
func forgeHints(s Spec) func(name string, f solver.Hint) solver.Hint {
	f := ref.ByBits(s.Fmt)
	n := 0
	return func(name string, h solver.Hint) solver.Hint {
		if len(s.S) != 8 || !precomputeHints[name] {
			return h
		}
		vals := s.S[:4]
		if n > 0 {
			vals = s.S[4:]
		}
		n++
		return func(field *big.Int, in, out []*big.Int) error {
			for i := range vals {
				es := f.Elems(unhex(vals[i]))
				for j := range es {
					es[j].BigInt(out[4*i+j])
				}
			}
			return nil
		}
	}
}

func defineStage(s Spec, fns locFns) func(api frontend.API, in []frontend.Variable) []frontend.Variable {
	return func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		if s.Op == "full" {
			c := &claimAPI{SubAPI: SubAPI{API: api, Subst: forgeHints(s)}}
			for i := range c.claim {
				c.claim[i] = big.NewInt(int64(1000003 + i))
			}
			if err := fns.define(c, in[0], in[1], in[2], c.claim[0], c.claim[1], c.claim[2]); err != nil {
				panic(err)
			}
			for i := range c.got {
				if c.got[i] == nil {
					panic("the circuit compares nothing with the claimed cell")
				}
			}
			return c.got[:]
		}
		ctx := newCtx(api, s)
		x := make([]float.FloatVar, stageIn[s.Op])
		for i := range x {
			x[i] = ctx.NewFloat(in[i])
		}
		var res frontend.Variable
		if stageRes[s.Op] {
			res = in[len(x)]
		}
		switch s.Op {
		case "face":
			c := fns.face(&ctx, x[0], x[1], x[2], x[0])
			var o []frontend.Variable
			for i := range c {
				o = append(o, flat(c[i])...)
			}
			return o
		case "r":
			return flat(fns.r(&ctx, x[0], res))
		case "hex":
			var c [9]float.FloatVar
			copy(c[1:], x[5:])
			h := fns.hex(&ctx, x[0], x[1], x[2], x[3], c, x[4], res)
			return append(flat(h[0]), flat(h[1])...)
		case "ijk":
			h := fns.ijk(&ctx, x[0], x[1])
			return h[:]
		}
		px := ctx.Mul(x[1], x[3])
		py := ctx.Mul(x[1], x[2])
		c := fns.face(&ctx, px, py, x[0], x[0])
		r := fns.r(&ctx, c[0], res)
		h := fns.hex(&ctx, x[0], x[1], x[2], x[3], c, r, res)
		k := fns.ijk(&ctx, h[0], h[1])
		if s.Op == "cell" {
			return k[:]
		}
		o := append(flat(r), append(flat(h[0]), flat(h[1])...)...)
		return append(o, k[:]...)
	}
}

func locScn(s Spec) *Scn {
	sc := &Scn{Define: defineStage(s, locBy[s.Fmt])}
	if s.Op == "full" {
		sc.NIn, sc.NOut = 3, 3
	} else {
		sc.NIn, sc.NOut = stageIn[s.Op], stageOut[s.Op]
		if stageRes[s.Op] {
			sc.NIn++
		}
	}
	return sc
}

func elem(v uint64) (x fr.Element) { x.SetUint64(v); return }

// resOf returns the resolution input, or -1 if it is none of 0..15.
func resOf(x fr.Element) int {
	if x.IsUint64() && x.Uint64() < 16 {
		return int(x.Uint64())
	}
	return -1
}

// genPoint draws a location.
func genPoint(r *Rng, res int) (lat, lng float64) {
	switch r.Intn(12) {
	case 7, 8: // a special coordinate; the other one near a border of a cell
		return specialPoint(r, res)
	case 0: // near a pole
		lat = (math.Pi/2 - math.Exp(-r.F()*20)) * float64(1-2*r.Intn(2))
		lng = (r.F()*2 - 1) * math.Pi
	case 1: // near the date line, the equator and the prime meridian
		lat = (r.F() - 0.5) * math.Exp(-r.F()*20)
		lng = (r.F() - 0.5) * math.Exp(-r.F()*20)
		if r.Bool() {
			lng = math.Pi - math.Abs(lng)
		}
		if r.Bool() {
			lng = -lng
		}
	case 2, 3: // near a face centre
		lat, lng = ref.FaceGeo(r.Intn(20))
		d := math.Exp(-r.F() * float64(16+22*r.Intn(2)))
		lat += (r.F() - 0.5) * d
		lng += (r.F() - 0.5) * d
	case 4, 5: // near a border of a cell at this resolution
		f := r.Intn(20)
		s := ref.H3Scale(res) * 0.5
		cx, cy := (r.F()-0.5)*s, (r.F()-0.5)*s
		c, _ := ref.HexOf(cx, cy)
		hx, hy := ref.HexCentre(float64(c[0]), float64(c[1]), float64(c[2]))
		a := float64(r.Intn(6)) * math.Pi / 3
		d := 0.5 + (r.F()-0.5)*math.Exp(-r.F()*16)
		t := (r.F() - 0.5) * 0.57
		lat, lng = ref.H3Unplane(hx+d*math.Cos(a)-t*math.Sin(a), hy+d*math.Sin(a)+t*math.Cos(a), f, res)
	case 6: // near a border between faces
		a, b := r.Intn(20), r.Intn(20)
		la, ga := ref.FaceGeo(a)
		lb, gb := ref.FaceGeo(b)
		u, v := ref.UnitVec(la, ga), ref.UnitVec(lb, gb)
		t := 0.5 + (r.F()-0.5)*math.Exp(-r.F()*float64(12+26*r.Intn(2)))
		var m [3]float64
		n := 0.0
		for i := range m {
			m[i] = u[i]*t + v[i]*(1-t)
			n += m[i] * m[i]
		}
		if n < 1e-3 {
			return genPoint(r, res)
		}
		lat, lng = math.Asin(m[2]/math.Sqrt(n)), math.Atan2(m[1], m[0])
	default:
		lat = math.Asin(2*r.F() - 1)
		lng = (r.F()*2 - 1) * math.Pi
	}
	if lat > math.Pi/2 {
		lat = math.Pi / 2
	}
	if lat < -math.Pi/2 {
		lat = -math.Pi / 2
	}
	if lng > math.Pi {
		lng -= 2 * math.Pi
	}
	if lng < -math.Pi {
		lng += 2 * math.Pi
	}
	return
}

// specialPoint draws a location with one coordinate at or next to a special
// value and moves the other one towards a border of a cell.
func specialPoint(r *Rng, res int) (lat, lng float64) {
	tiny := []float64{0, math.Exp(-r.F() * 40), math.Exp(-r.F() * 40), math.Ldexp(r.F(), -1022+r.Intn(40))}[r.Intn(4)]
	sign := float64(1 - 2*r.Intn(2))
	onLat := r.Bool()
	lat = math.Asin(2*r.F() - 1)
	lng = (r.F()*2 - 1) * math.Pi
	if onLat {
		lat = sign * []float64{tiny, tiny, math.Pi/2 - tiny, math.Pi/4 - tiny/4}[r.Intn(4)]
	} else {
		lng = sign * []float64{tiny, tiny, math.Pi - tiny, math.Pi/2 - tiny}[r.Intn(4)]
	}
	face, _ := ref.H3Face(ref.UnitVec(lat, lng))
	cell := func(d float64) [3]int64 {
		a, b := lat, lng
		if onLat {
			b += d
		} else {
			a += d
		}
		x, y := ref.H3Plane(ref.UnitVec(a, b), face, res)
		c, _ := ref.HexOf(x, y)
		return [3]int64{int64(c[0]), int64(c[1]), int64(c[2])}
	}
	d := 0.0
	if size := 1.5 / ref.H3Scale(res); !r.Pct(20) {
		lo, hi := 0.0, size*(1+r.F())
		if onLat {
			hi /= math.Max(math.Cos(lat), 1e-3)
		}
		if hi > 0.3 {
			hi = 0.3
		}
		if r.Bool() {
			hi = -hi
		}
		if c := cell(lo); c != cell(hi) {
			for i := 0; i < 60; i++ {
				if m := (lo + hi) / 2; cell(m) == c {
					lo = m
				} else {
					hi = m
				}
			}
		}
		d = lo + (r.F()-0.5)*size*math.Exp(-r.F()*16)
		if r.Pct(40) {
			d = lo + (r.F()-0.5)*4*tiny
		}
	}
	if onLat {
		lng += d
	} else {
		lat += d
	}
	lat = math.Max(-math.Pi/2, math.Min(math.Pi/2, lat))
	if lng > math.Pi {
		lng -= 2 * math.Pi
	}
	if lng < -math.Pi {
		lng += 2 * math.Pi
	}
	return
}

// roundCoord rounds a coordinate into the format, staying inside the limit.
func roundCoord(f ref.Fmt, v, lim float64) uint64 {
	b := f.FromVal(v)
	for math.Abs(f.Val(b)) > lim {
		b--
	}
	return b
}

// genStageInputs draws inputs of a stage that lie in its working range.
func genStageInputs(r *Rng, f ref.Fmt, op string, res int) []fr.Element {
	lat, lng := genPoint(r, res)
	sl, cl := math.Sin(lat), math.Cos(lat)
	sg, cg := math.Sin(lng), math.Cos(lng)
	p := ref.UnitVec(lat, lng)
	face, _ := ref.H3Face(p)
	fl, fg := ref.FaceGeo(face)
	var in []fr.Element
	put := func(vs ...float64) {
		for _, v := range vs {
			in = append(in, elem(f.FromVal(v)))
		}
	}
	sq := 0.0
	n := ref.UnitVec(fl, fg)
	for i := range n {
		sq += (n[i] - p[i]) * (n[i] - p[i])
	}
	x, y := ref.H3Plane(p, face, res)
	switch op {
	case "face":
		put(p[0], p[1], p[2])
	case "r":
		put(sq)
	case "hex":
		az := r.F() * 2 * math.Pi
		put(sl, cl, sg, cg, math.Hypot(x, y), math.Sin(fl), math.Cos(fl), math.Sin(fg), math.Cos(fg), math.Sin(az), math.Cos(az), math.Sin(az-0.33), math.Cos(az-0.33))
	case "ijk":
		if r.Pct(40) {
			// lattice points, edge midpoints, corners and their neighbourhood
			x = float64(r.Range(-40, 40)) / 4
			y = float64(r.Range(-40, 40)) / 4
			if r.Bool() {
				y *= 0.8660254037844386
			}
			if r.Bool() {
				x = float64(r.Range(-90, 90)) / 6
			}
		}
		bx, by := f.FromVal(x), f.FromVal(y)
		if r.Pct(30) && bx&^f.SignBit() > 4 {
			bx += uint64(r.Intn(5)) - 2
		}
		if r.Pct(10) {
			bx ^= f.SignBit()
		}
		return []fr.Element{elem(bx), elem(by)}
	case "chain", "cell":
		put(sl, cl, sg, cg)
	case "full":
		return []fr.Element{elem(roundCoord(f, lat, math.Pi/2)), elem(roundCoord(f, lng, math.Pi)), elem(uint64(res))}
	}
	if stageRes[op] {
		in = append(in, elem(uint64(res)))
	}
	return in
}

func init() {
	// C16: every accepted execution equals the honest one
	Register("locstage", func(s Spec) *Scn {
		sc := locScn(s)
		sc.Judge = func(in []fr.Element) Expect {
			sc.Spec = s
			f := ref.ByBits(s.Fmt)
			for i := 0; i < stageIn[s.Op]; i++ {
				if b, ok := f.Fits(&in[i]); !ok || f.IsNaN(b) || f.IsInf(b) {
					return Expect{Vacuous: true}
				}
			}
			if stageRes[s.Op] && resOf(in[sc.NIn-1]) < 0 {
				return Expect{Honest: MustReject, AnyReject: true}
			}
			o := honestRun(sc, in)
			if !o.Accepted {
				// nothing to compare with; C17 and C18 decide when the honest
				// prover has to succeed
				return Expect{Vacuous: true}
			}
			return Expect{Honest: MustAccept, Check: sameOuts(o.Outs)}
		}
		return sc
	})
	add(&Check{ID: "C16", Quick: 1500, Thorough: 60000, Rule: "a run draws a precision, a stage (face search, distance scaling, projection, hexagon rounding, or all of them), a location and a resolution by the seed, executes the fault-free prover and then seeded fault plans on the advice channel; oracle: the results of the fault-free run, and rejection of resolutions outside 0..15; non-trivial: a distinct (stage, input) pair that had faults injected",
		Real: circuitReal, Stub: circuitStub, Assume: circuitAssume, Run: stageRun})
}

func stageRun(w *Worker, r *Rng) *Found {
	ops := []string{"face", "r", "hex", "ijk", "ijk", "chain", "r", "hex"}
	s := Spec{Kind: "locstage", Op: ops[r.Intn(len(ops))], Fmt: []int{32, 64}[r.Intn(2)], FT: []string{"r1cs", "scs"}[r.Intn(2)]}
	s.RS = uint(r.Intn(11))
	if s.RS == 1 {
		s.RS = 0
	}
	f := ref.ByBits(s.Fmt)
	res := r.Intn(16)
	in := genStageInputs(r, f, s.Op, res)
	if stageRes[s.Op] && r.Pct(8) {
		// a resolution out of range
		var x fr.Element
		switch r.Intn(3) {
		case 0:
			x.SetUint64(uint64(16 + r.Intn(17)))
		case 1:
			x.SetInt64(-int64(1 + r.Intn(16)))
		default:
			x.SetUint64(r.U64())
		}
		in[len(in)-1] = x
	}
	sc := Build(s)
	kn := fopKnobs()
	kn.Attempts = 14
	foreign := func(r *Rng) []fr.Element {
		switch r.Intn(3) {
		case 0: // a neighbouring point
			o := append([]fr.Element(nil), in...)
			i := r.Intn(stageIn[s.Op])
			b, ok := f.Fits(&o[i])
			if ok {
				o[i] = elem(b ^ 1<<uint(r.Intn(int(f.M))))
			}
			return o
		case 1:
			o := append([]fr.Element(nil), in...)
			if stageRes[s.Op] {
				o[len(o)-1] = elem(uint64(r.Intn(16)))
			}
			return o
		}
		return genStageInputs(r, f, s.Op, res)
	}
	if f := w.Session(r, sc, in, kn, foreign); f != nil {
		return f
	}
	if realDue(r, &s, false) {
		return w.RealSample(r, sc, in)
	}
	return nil
}

// cellTol is the planar error, in grid units, allowed to the circuit.
func cellTol(f ref.Fmt, res int, t float64) float64 {
	return t * math.Ldexp(1, -int(f.M)-1) * ref.H3Scale(res)
}

const cellUlps = 24

// locModel returns the test for the cell of a location. general is false at
// face borders, where either face will do, and at face centres, where the
// honest prover need not succeed.
func locModel(f ref.Fmt, lat, lng float64, res int) (check func([]fr.Element) string, general bool) {
	p := ref.UnitVec(lat, lng)
	u := math.Ldexp(1, -int(f.M)-1)
	faces := ref.H3Faces(p, 64*u)
	general = len(faces) == 1
	var checks []func([]fr.Element) string
	for _, face := range faces {
		x, y := ref.H3Plane(p, face, res)
		tol := cellTol(f, res, cellUlps)
		if math.Hypot(x, y) < cellTol(f, res, 64) {
			general = false
			tol = cellTol(f, res, 128)
		}
		checks = append(checks, cellCheck(f, x, y, tol))
	}
	return func(o []fr.Element) (d string) {
		for _, c := range checks {
			if d = c(o); d == "" {
				break
			}
		}
		return
	}, general
}

func intOut(o fr.Element) (int64, bool) {
	b := signedOf(o)
	return b.Int64(), b.BitLen() < 60
}

func cellCheck(f ref.Fmt, x, y, tol float64) func([]fr.Element) string {
	return func(o []fr.Element) string {
		var c [3]int64
		for i := range c {
			v, ok := intOut(o[i])
			if !ok || v < 0 {
				return fmt.Sprintf("cell coordinates %v are not non-negative integers", PrettyAll(o))
			}
			c[i] = v
		}
		if c != ref.Normal(c[0], c[1], c[2]) {
			return fmt.Sprintf("cell coordinates %v are not normalised", c)
		}
		if e := ref.HexExcess(x, y, c); e > tol {
			want, _ := ref.HexOf(x, y)
			return fmt.Sprintf("planar point (%v, %v) is in cell %v, the circuit says %v (%.3g grid units too far, allowed %.3g)", x, y, want, c, e, tol)
		}
		return ""
	}
}

func init() {
	// C17: agreement with H3
	Register("loccell", func(s Spec) *Scn {
		sc := locScn(s)
		sc.Judge = func(in []fr.Element) Expect {
			f := ref.ByBits(s.Fmt)
			var v []float64
			for i := 0; i < sc.NIn-1; i++ {
				b, ok := f.Fits(&in[i])
				if !ok || f.IsNaN(b) || f.IsInf(b) {
					return Expect{Vacuous: true}
				}
				v = append(v, f.Val(b))
			}
			res := resOf(in[sc.NIn-1])
			if res < 0 {
				return Expect{Vacuous: true}
			}
			var lat, lng float64
			if s.Op == "full" {
				lat, lng = v[0], v[1]
				if math.Abs(lat) > math.Pi/2 || math.Abs(lng) > math.Pi {
					return Expect{Vacuous: true}
				}
			} else {
				lat, lng = math.Atan2(v[0], v[1]), math.Atan2(v[2], v[3])
				if math.Abs(math.Hypot(v[0], v[1])-1) > 4*math.Ldexp(1, -int(f.M)) || math.Abs(math.Hypot(v[2], v[3])-1) > 4*math.Ldexp(1, -int(f.M)) {
					return Expect{Vacuous: true}
				}
			}
			check, general := locModel(f, lat, lng, res)
			if !general {
				return Expect{Check: check}
			}
			return Expect{Honest: MustAccept, Check: check}
		}
		return sc
	})
	add(&Check{ID: "C17", Quick: 3500, Thorough: 140000, Rule: "a run draws a precision, a location (uniform, near poles, meridians, face centres, face borders, cell borders, special coordinates) and a resolution by the seed and computes the cell without and, in 30% of the runs, with seeded faults on the advice channel; oracle: the hexagon nearest to the H3 gnomonic projection, up to a stated multiple of the rounding unit; non-trivial: a distinct (circuit, input) pair that had faults injected",
		Real: circuitReal, Stub: circuitStub, Assume: circuitAssume, Run: cellRun})
}

// trigScn is the honest trigonometric advice of the complete circuit alone.
func init() {
	Register("loctrig", func(s Spec) *Scn {
		return &Scn{NIn: 1, NOut: 16, Define: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			ctx := newCtx(api, s)
			h := hint.PrecomputeHint32
			if s.Fmt == 64 {
				h = hint.PrecomputeHint64
			}
			o, err := api.Compiler().NewHint(h, 16, in[0], ctx.E, ctx.M)
			if err != nil {
				panic(err)
			}
			return o
		}, Judge: func(in []fr.Element) Expect {
			f := ref.ByBits(s.Fmt)
			b, ok := f.Fits(&in[0])
			if !ok || f.IsNaN(b) || f.IsInf(b) || math.Abs(f.Val(b)) > 3.2 {
				return Expect{Vacuous: true}
			}
			v := f.Val(b)
			return Expect{Honest: MustAccept, Check: func(o []fr.Element) string {
				var a [4]float64
				for i := range a {
					c := o[4*i : 4*i+4]
					e, ok := intOut(c[1])
					a[i] = math.Ldexp(float64(c[2].Uint64()), int(e)-int(f.M))
					if c[0].IsOne() {
						a[i] = -a[i]
					}
					if !ok || !c[2].IsUint64() || !f.SameValue(c, f.FromVal(a[i])) {
						return fmt.Sprintf("the advice %v for the angle %v is no float", PrettyAll(c), v)
					}
				}
				// the unit vector of the location must be exact up to rounding
				u := 48 * math.Ldexp(1, -int(f.M)-1)
				if math.Abs(a[1]-math.Sin(v)) > u || math.Abs(a[3]*a[3]-a[2]*a[2]-math.Cos(v)) > u {
					return fmt.Sprintf("the advice for the angle %v is sine %v and half-angle sine, cosine %v, %v", v, a[1], a[2], a[3])
				}
				return ""
			}}
		}}
	})
}

func adviceRun(w *Worker, r *Rng, res int) *Found {
	for n := 0; n < 3; n++ {
		s := Spec{Kind: "loctrig", Fmt: []int{32, 64}[r.Intn(2)], FT: "r1cs"}
		f := ref.ByBits(s.Fmt)
		gen := func(r *Rng) []fr.Element {
			return genStageInputs(r, f, "full", res)[r.Intn(2):][:1]
		}
		kn := fopKnobs()
		kn.Attempts = 0
		if f := w.Session(r, Build(s), gen(r), kn, gen); f != nil {
			return f
		}
	}
	return nil
}

func cellRun(w *Worker, r *Rng) *Found {
	if f := adviceRun(w, r, r.Intn(16)); f != nil {
		return f
	}
	s := Spec{Kind: "loccell", Op: []string{"cell", "full"}[r.Intn(2)], Fmt: []int{32, 64}[r.Intn(2)], FT: []string{"r1cs", "scs"}[r.Intn(2)]}
	f := ref.ByBits(s.Fmt)
	res := r.Intn(16)
	in := genStageInputs(r, f, s.Op, res)
	sc := Build(s)
	kn := fopKnobs()
	kn.Attempts = 4
	if !r.Pct(30) {
		kn.Attempts = 0
	}
	kn.SkipHints = precomputeHints
	foreign := func(r *Rng) []fr.Element { return genStageInputs(r, f, s.Op, res) }
	if f := w.Session(r, sc, in, kn, foreign); f != nil {
		return f
	}
	return nil
}

// precomputeHints are answered honestly: their dishonest answers are C19's
// listed finding.
var precomputeHints = map[string]bool{
	"github.com/tumberger/zk-Location/hint.PrecomputeHint32": true,
	"github.com/tumberger/zk-Location/hint.PrecomputeHint64": true,
}

// ---- C18: normalised cell coordinates ----

func init() {
	// Op norm: three magnitudes and three sign flags; Op ijk: a planar point.
	Register("locnorm", func(s Spec) *Scn {
		if s.Op == "ijk" {
			sc := locScn(s)
			sc.Judge = func(in []fr.Element) Expect {
				f := ref.ByBits(s.Fmt)
				var v [2]float64
				for i := range v {
					b, ok := f.Fits(&in[i])
					if !ok || f.IsNaN(b) || f.IsInf(b) {
						return Expect{Vacuous: true}
					}
					v[i] = f.Val(b)
				}
				// the circuit's integers are 32 bits wide
				if math.Hypot(v[0], v[1]) > 1<<29 {
					return Expect{Vacuous: true}
				}
				tol := 24 * math.Ldexp(1, -int(f.M)-1) * math.Max(1, math.Hypot(v[0], v[1]))
				check := cellCheck(f, v[0], v[1], tol)
				o := honestRun(sc, in)
				if !o.Accepted {
					return Expect{Honest: MustAccept, Check: check}
				}
				same := sameOuts(o.Outs)
				return Expect{Honest: MustAccept, Check: func(outs []fr.Element) string {
					if d := check(outs); d != "" {
						return d
					}
					return same(outs)
				}}
			}
			return sc
		}
		sc := &Scn{NOut: 3}
		for _, k := range s.A {
			if k == 0 {
				sc.NIn++
			}
		}
		sc.Define = func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			ctx := newCtx(api, s)
			var x [6]frontend.Variable
			n := 0
			for i := range x {
				if s.A[i] == 0 {
					x[i] = in[n]
					if i%2 == 0 {
						api.AssertIsBoolean(in[n])
					}
					n++
				} else {
					v, _ := new(big.Int).SetString(s.S[i], 16)
					x[i] = v
				}
			}
			o := locBy[s.Fmt].norm(&ctx, x[0], x[1], x[2], x[3], x[4], x[5])
			return o[:]
		}
		sc.Judge = func(in []fr.Element) Expect {
			var c [3]*big.Int
			n := 0
			big1 := false
			for i := 0; i < 6; i++ {
				var e fr.Element
				if s.A[i] == 0 {
					e = in[n]
					n++
				} else {
					e = FromHex(s.S[i])
				}
				if i%2 == 0 {
					if !e.IsZero() && !e.IsOne() {
						return Expect{Honest: MustReject, AnyReject: true}
					}
					c[i/2] = big.NewInt(1)
					if e.IsOne() {
						c[i/2].SetInt64(-1)
					}
				} else {
					var m big.Int
					e.BigInt(&m)
					if m.BitLen() > 29 {
						big1 = true
					}
					c[i/2].Mul(c[i/2], &m)
				}
			}
			if big1 {
				return Expect{Vacuous: true}
			}
			w := ref.Normal(c[0].Int64(), c[1].Int64(), c[2].Int64())
			return Expect{Honest: MustAccept, Check: func(o []fr.Element) string {
				for i := range w {
					if v, ok := intOut(o[i]); !ok || v != w[i] {
						return fmt.Sprintf("normalising (%v, %v, %v) gives %v, expected %v", c[0], c[1], c[2], PrettyAll(o), w)
					}
				}
				return ""
			}}
		}
		return sc
	})
	add(&Check{ID: "C18", Quick: 8000, Thorough: 400000, Rule: "a run draws a precision and either signed cell coordinates (wires or constants, with zeros, ties and every sign combination) or a planar point (near lattice points, edges, corners and anywhere up to 2^29) by the seed, executes the fault-free prover and then seeded fault plans on the advice channel; oracle: integer normalisation, or the nearest hexagon centre up to rounding; non-trivial: a distinct (program, input) pair that had faults injected",
		Real: circuitReal, Stub: circuitStub, Assume: circuitAssume, Run: normRun})
}

func normRun(w *Worker, r *Rng) *Found {
	s := Spec{Kind: "locnorm", Op: "norm", Fmt: []int{32, 64}[r.Intn(2)], FT: []string{"r1cs", "scs"}[r.Intn(2)]}
	s.RS = uint(r.Intn(11))
	if s.RS == 1 {
		s.RS = 0
	}
	f := ref.ByBits(s.Fmt)
	kn := fopKnobs()
	if r.Pct(50) {
		s.Op = "ijk"
		gen := func(r *Rng) []fr.Element {
			in := genStageInputs(r, f, "ijk", r.Intn(16))
			if r.Pct(10) {
				for i := range in {
					in[i] = elem(mk(f, r.U64()&1, f.Bias()+int64(r.Range(-60, 27)), r.Bits(f.M)))
				}
			}
			if r.Pct(10) {
				in[r.Intn(2)] = elem(uint64(r.Intn(3)) | r.U64()&1<<(f.E+f.M))
			}
			return in
		}
		in := gen(r)
		sc := Build(s)
		kn.Attempts = 14
		return finishSession(w, r, s, sc, in, kn, gen, false)
	}
	var vals [6]uint64
	gen := func(r *Rng) []fr.Element {
		var in []fr.Element
		base := r.Bits(uint(r.Range(1, 29)))
		for i := 0; i < 6; i++ {
			if i%2 == 0 {
				vals[i] = r.U64() & 1
			} else {
				switch r.Intn(5) {
				case 0:
					vals[i] = 0
				case 1, 2:
					vals[i] = base
					if r.Bool() && base > 0 {
						vals[i] += uint64(r.Intn(3)) - 1
					}
				case 3:
					vals[i] = uint64(r.Intn(4))
				default:
					vals[i] = r.Bits(uint(r.Range(1, 29)))
				}
			}
		}
		for i := range vals {
			if s.A[i] == 0 {
				in = append(in, elem(vals[i]))
			}
		}
		return in
	}
	consts := false
	for i := 0; i < 6; i++ {
		k := int64(0)
		if i >= 4 && r.Bool() || r.Pct(8) {
			k = 1
			consts = true
		}
		s.A = append(s.A, k)
	}
	in := gen(r)
	for i := range vals {
		s.S = append(s.S, hexU(vals[i]))
	}
	if consts && r.Pct(30) {
		// the way hex2dToCoordIJK calls it
		s.S[4], s.S[5] = "0", "0"
	}
	if r.Pct(3) {
		for i, n := 0, 0; i < 6; i++ {
			if s.A[i] == 0 {
				if i%2 == 0 {
					in[n] = elem(2 + uint64(r.Intn(5)))
				}
				n++
			}
		}
	}
	sc := Build(s)
	kn.Attempts = 14
	return finishSession(w, r, s, sc, in, kn, gen, consts)
}

func finishSession(w *Worker, r *Rng, s Spec, sc *Scn, in []fr.Element, kn Knobs, foreign func(r *Rng) []fr.Element, consts bool) *Found {
	if f := w.Session(r, sc, in, kn, foreign); f != nil {
		return f
	}
	if realDue(r, &s, consts) {
		return w.RealSample(r, sc, in)
	}
	return nil
}

// ---- C19: the complete circuit binds the cell to the location ----

// adviceModel decides whether the identity checks of the complete circuit let
// the given advice pass, and returns the sines and cosines used from it.
func adviceModel(f ref.Fmt, a []uint64) (trig [4]uint64, pass bool) {
	one := f.FromVal(1)
	tol := func(x, y uint64, t float64) bool {
		if f.IsNeg(x) != f.IsNeg(y) {
			return false
		}
		return x == y || f.Val(f.Abs(f.Sub(x, y))) <= t
	}
	ulp := func(x, y uint64) bool {
		if f.IsNeg(x) != f.IsNeg(y) {
			return false
		}
		d := f.Ord(x) - f.Ord(y)
		return d >= -1 && d <= 1
	}
	pass = true
	for k := 0; k < 2; k++ {
		al, be, ga, de := a[4*k], a[4*k+1], a[4*k+2], a[4*k+3]
		id := f.Add(f.Mul(ga, ga), f.Mul(de, de))
		dbl := f.Mul(f.FromVal(2), f.Mul(ga, de))
		if f.M == ref.F64.M {
			pass = pass && tol(id, one, 2)
			if k == 0 {
				pass = pass && tol(f.Mul(al, de), ga, 2)
			} else {
				pass = pass && ulp(f.Mul(al, de), ga)
			}
			pass = pass && ulp(dbl, be)
		} else {
			pass = pass && tol(id, one, 1) && tol(f.Mul(al, de), ga, 1) && tol(dbl, be, 1)
		}
		trig[2*k] = be
		trig[2*k+1] = f.Sub(f.Mul(de, de), f.Mul(ga, ga))
	}
	return
}

func init() {
	Register("locfull", func(s Spec) *Scn {
		sc := locScn(s)
		sc.Judge = func(in []fr.Element) Expect {
			sc.Spec = s
			f := ref.ByBits(s.Fmt)
			var v [2]float64
			for i := range v {
				b, ok := f.Fits(&in[i])
				if !ok || f.IsNaN(b) || f.IsInf(b) {
					return Expect{Vacuous: true}
				}
				v[i] = f.Val(b)
			}
			if resOf(in[2]) < 0 || v[0] > f.Val(f.FromVal(math.Pi/2)) || v[1] > f.Val(f.FromVal(math.Pi)) {
				return Expect{Honest: MustReject, AnyReject: true}
			}
			if len(s.S) == 0 {
				// honest trigonometric advice
				o := honestRun(sc, in)
				if !o.Accepted {
					return Expect{Vacuous: true}
				}
				return Expect{Honest: MustAccept, Check: sameOuts(o.Outs)}
			}
			var a []uint64
			for i := range s.S {
				a = append(a, unhex(s.S[i]))
				if f.IsNaN(a[i]) || f.IsInf(a[i]) {
					return Expect{Vacuous: true}
				}
			}
			trig, pass := adviceModel(f, a)
			if !pass {
				return Expect{Honest: MustReject, AnyReject: true}
			}
			t := s
			t.S, t.Op = nil, "cell"
			var cin []fr.Element
			for _, b := range trig {
				cin = append(cin, elem(b))
			}
			o := honestRun(locScn2(t), append(cin, in[2]))
			if !o.Accepted {
				return Expect{Vacuous: true}
			}
			return Expect{Honest: MustAccept, Check: sameOuts(o.Outs)}
		}
		return sc
	})
	add(&Check{ID: "C19", Quick: 3000, Thorough: 60000, Rule: "a run draws a precision, a private location and a resolution by the seed and executes the complete circuit without faults, with seeded faults on every hint but the precomputed trigonometric advice, and with whole foreign or perturbed trigonometric advice; oracle: the cell of the fault-free run, for the trigonometric advice the circuit's own identity checks in the IEEE model (what passes them is the listed finding); non-trivial: a distinct input that had faults injected",
		Real: circuitReal, Stub: circuitStub, Assume: circuitAssume, Run: fullRun, Known: fullKnown})
}

func locScn2(s Spec) *Scn {
	sc := locScn(s)
	sc.Spec = s
	return sc
}

func adviceFor(f ref.Fmt, lat, lng float64) (a []uint64) {
	for _, v := range []float64{lat, lng} {
		g, d := f.FromVal(math.Sin(v/2)), f.FromVal(math.Cos(v/2))
		a = append(a, f.Div(g, d), f.Mul(f.FromVal(2), f.Mul(g, d)), g, d)
	}
	return
}

func fullRun(w *Worker, r *Rng) *Found {
	s := Spec{Kind: "locfull", Op: "full", Fmt: []int{32, 64}[r.Intn(2)], FT: []string{"r1cs", "scs"}[r.Intn(2)]}
	f := ref.ByBits(s.Fmt)
	res := r.Intn(16)
	in := genStageInputs(r, f, s.Op, res)
	kn := fopKnobs()
	kn.SkipHints = precomputeHints
	kn.Attempts = 7
	if r.Pct(66) {
		// trigonometric advice of another location, perturbed
		lat, lng := f.Val(in[0].Uint64()), f.Val(in[1].Uint64())
		l2, g2 := genPoint(r, res)
		if r.Bool() {
			lat = l2
		}
		if r.Bool() {
			lng = g2
		}
		a := adviceFor(f, lat, lng)
		for n := (1 + r.Intn(5)) / 2; n > 0; n-- {
			i := r.Intn(len(a))
			switch r.Intn(9) {
			case 0:
				a[i] ^= f.SignBit()
			case 1:
				a[i] += uint64(r.Intn(7)) - 3
			case 5, 8:
				// the powers of two around it, and their neighbours
				a[i] &^= 1<<f.M - 1
				if r.Bool() {
					a[i] += 1 << f.M
				}
				if r.Pct(30) {
					a[i] += uint64(r.Intn(3)) - 1
				}
			case 6:
				a[i] = f.FromVal([]float64{0, 1, -1, 2, 0.5, math.Pi}[r.Intn(6)])
			case 7:
				a[i] += uint64(int64(r.Range(-2, 2)) << f.M)
			case 2:
				a[i] = f.Mul(a[i], f.FromVal(math.Exp((r.F()-0.5)*4)))
			case 3:
				a[i] = f.Add(a[i], f.FromVal((r.F()-0.5)*4))
			default:
				a[i] ^= 1 << uint(r.Intn(int(f.M)))
			}
			a[i] &= f.SignBit() | (f.SignBit() - 1)
		}
		for i := range a {
			s.S = append(s.S, hexU(a[i]))
		}
		w.Cov.Faults["foreign or perturbed trigonometric advice"]++
		kn.Attempts = 3
	} else if r.Pct(6) {
		switch r.Intn(3) {
		case 0:
			in[2] = elem(uint64(16 + r.Intn(40)))
		case 1:
			in[0] = elem(f.FromVal(math.Pi/2) + uint64(1+r.Intn(1000)))
		default:
			in[1] = elem(f.FromVal(math.Pi) + uint64(1+r.Intn(1000)))
		}
	}
	sc := Build(s)
	return finishSession(w, r, s, sc, in, kn, func(r *Rng) []fr.Element { return genStageInputs(r, f, s.Op, res) }, false)
}

// fullKnown re-demonstrates the listed finding: a location is proved to lie in
// the cell of another one by answering the precomputed trigonometric advice
// for the other location.
func fullKnown(w *Worker) string {
	bad := ""
	for _, bits := range []int{32, 64} {
		f := ref.ByBits(bits)
		s := Spec{Kind: "locfull", Op: "full", Fmt: bits, FT: "r1cs"}
		in := []fr.Element{elem(f.FromVal(0.84)), elem(f.FromVal(0.15)), elem(9)}
		h := w.Exec(Build(s), in, nil, false, 0, nil)
		hon := append([]fr.Element(nil), h.Outs...)
		for _, x := range adviceFor(f, -0.6, 2.6) {
			s.S = append(s.S, hexU(x))
		}
		sc := Build(s)
		o := w.Exec(sc, in, nil, false, 0, nil)
		if !h.Accepted || !o.Accepted || (o.Outs[0] == hon[0] && o.Outs[1] == hon[1] && o.Outs[2] == hon[2]) {
			continue
		}
		if bad != "" {
			bad += " and "
		}
		bad += fmt.Sprintf("PrecomputeHint%d (loc2Index%dCircuit: lat 0.84, lng 0.15, resolution 9 accepted with cell %v of lat -0.6, lng 2.6 instead of %v)", bits, bits, PrettyAll(o.Outs), PrettyAll(hon))
	}
	if bad == "" {
		return ""
	}
	return "trigonometric advice is not bound to the private coordinates: " + bad
}
