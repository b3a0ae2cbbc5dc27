package props

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"

	. "zkverif/sess"
	"zkverif/simio"
	"zkverif/simrt"
)

// ---- C29: the proximity program as a whole ----

// The request of the shipped program.
const (
	proxRes               = "4"
	proxLat, proxLng      = 40.689167, 74.044444
	proxFromLat, proxFrom = 40.689167, 72.044444
)

var (
	distRe    = regexp.MustCompile(`(?i)closest distance[^:\n]*:\s*(\S+)`)
	averageRe = regexp.MustCompile(`(?i)average time[^:\n]* (\d+) executions: (\S+)`)
	indexRe   = regexp.MustCompile(`(?i)generated h3 index: (\S+)`)
)

func greatCircle(la, lo, lb, lp float64) float64 {
	r := math.Pi / 180
	x := func(a, b float64) [3]float64 {
		return [3]float64{math.Cos(a*r) * math.Cos(b*r), math.Cos(a*r) * math.Sin(b*r), math.Sin(a * r)}
	}
	p, q := x(la, lo), x(lb, lp)
	d := 0.0
	for i := range p {
		d += (p[i] - q[i]) * (p[i] - q[i])
	}
	return 2 * 6371 * math.Asin(math.Min(1, math.Sqrt(d)/2))
}

// proxBoundary is what the boundary tool prints: vertices anywhere, or close
// to the position the distance is measured from.
func proxBoundary(key string, noise uint64) string {
	r := NewRng(Hash64("prox"+key)^noise, 3)
	so := ""
	if r.Pct(50) {
		so = key + "\n"
	}
	so += "{\n"
	span := math.Pow(10, float64(r.Range(-5, 2)))
	far := r.Pct(50)
	for n := []int{1, 5, 6, 6, 6, 7, 10}[r.Intn(7)]; n > 0; n-- {
		a, b := (2*r.F()-1)*90, (2*r.F()-1)*180
		if !far || r.Pct(30) {
			a, b = proxFromLat+(2*r.F()-1)*span/10, proxFrom+(2*r.F()-1)*span
			if r.Pct(5) {
				a, b = proxFromLat, proxFrom
			}
		}
		if r.Pct(10) {
			b = -b
		}
		so += fmt.Sprintf("   %.*f %.*f\n", 6+r.Intn(6), a, 6+r.Intn(6), b)
	}
	return so + "}\n"
}

func proxStep(w *simio.World, st *ioStep) string {
	type run struct{ prog, key, out string }
	var runs []run
	w.Prog = func(path string, args []string) (so, se string) {
		prog := path[strings.LastIndex(path, "/")+1:]
		key := ""
		switch prog {
		case "latLngToCell":
			rs, _ := argOf(args, "resolution")
			la, _ := argOf(args, "latitude")
			lo, _ := argOf(args, "longitude")
			a, _ := strconv.ParseFloat(la, 64)
			b, _ := strconv.ParseFloat(lo, 64)
			key = fmt.Sprintf("%s %g %g", rs, a, b)
			so, se = modelOut(prog, key+fmt.Sprint(st.Noise), st.Noise)
		case "cellToBoundary":
			key, _ = argOf(args, "index")
			so = proxBoundary(key, st.Noise)
		default:
			return "", "unknown program\n"
		}
		runs = append(runs, run{prog: prog, key: key})
		return
	}
	stopped := func() (p string) {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(simrt.Killed); ok {
					panic(x)
				}
				p = fmt.Sprint(x)
			}
		}()
		code.main()
		return
	}()
	said := string(w.Said)
	exit := strings.HasPrefix(stopped, "exit status ")
	if stopped != "" && !exit {
		return "panic: " + stopped
	}
	dist := distRe.FindAllStringSubmatch(said, -1)
	if len(runs) != len(w.Outs) {
		return "the outputs cannot be assigned to the programs"
	}
	for i := range runs {
		runs[i].out = w.Outs[i]
	}
	// did a query fail?
	failed := ""
	for _, f := range w.Fired {
		switch f.Kind {
		case "cut", "empty", "garbage":
		default:
			failed = fmt.Sprintf("query %d failed (%s)", f.Nth+1, f.Kind)
		}
	}
	idx, n := "", 0
	min, alt := math.MaxFloat64, math.MaxFloat64
	take := func(m *float64, nums []string) {
		for k := 0; k+1 < len(nums); k += 2 {
			a, _ := strconv.ParseFloat(nums[k], 64)
			b, _ := strconv.ParseFloat(nums[k+1], 64)
			if d := greatCircle(proxFromLat, proxFrom, a, b); d < *m {
				*m = d
			}
		}
	}
	for i, r := range runs {
		if failed != "" && i == len(runs)-1 {
			break // its output is that of a failed program, if it ran at all
		}
		switch r.prog {
		case "latLngToCell":
			if want := fmt.Sprintf("%s %g %g", proxRes, proxLat, proxLng); r.key != want {
				return fmt.Sprintf("asked for the cell of %q, not of %q", r.key, want)
			}
			if e, _ := parseOut("cell", r.out); e != nil {
				idx = e[0]
			} else {
				failed = "the index tool printed no index"
			}
		case "cellToBoundary":
			if r.key != idx || idx == "" {
				return fmt.Sprintf("asked for the boundary of %q, the index is %q", r.key, idx)
			}
			n++
			e, a := parseOut("boundary", r.out)
			if e == nil {
				failed = fmt.Sprintf("boundary query %d printed no vertex", n)
			}
			take(&min, e)
			if a == nil {
				a = e
			}
			take(&alt, a)
		}
	}
	if failed != "" {
		if len(dist) > 0 {
			return fmt.Sprintf("%s, and the program printed %q", failed, dist[0][0])
		}
		if all := strings.ToLower(said + string(w.Moaned)); !exit && !strings.Contains(all, "error") && !strings.Contains(all, "fail") {
			return fmt.Sprintf("%s, and the program printed only %s", failed, cutText(said))
		}
		return ""
	}
	if exit && stopped != "exit status 0" {
		return stopped + " although every query succeeded"
	}
	if n == 0 {
		return "no boundary was asked for"
	}
	if len(dist) != 1 {
		return fmt.Sprintf("%d closest distances were printed: %s", len(dist), cutText(said[max(0, len(said)-300):]))
	}
	got, err := strconv.ParseFloat(dist[0][1], 64)
	if err != nil || !(math.Abs(got-min) < 0.0051 || math.Abs(got-alt) < 0.0051) {
		return fmt.Sprintf("printed the closest distance %s, the vertices printed in %d executions are at least %.4f away", dist[0][1], n, min)
	}
	if m := indexRe.FindStringSubmatch(said); m == nil || m[1] != idx {
		return fmt.Sprintf("the index %q is printed as %q", idx, m)
	}
	m := averageRe.FindStringSubmatch(said)
	if m == nil {
		return "no average time was printed"
	}
	d, err := time.ParseDuration(m[2])
	lo, hi := w.Cost["exec"], w.Cost["exec"]+w.Cost["exec"]/int64(2*n)+60
	if k, _ := strconv.Atoi(m[1]); err != nil || k != n || d.Microseconds() < lo || d.Microseconds() > hi {
		return fmt.Sprintf("printed %q for %d executions of %d us", m[0], n, w.Cost["exec"])
	}
	return ""
}

func genProx(r *Rng) *ioJob {
	j := &ioJob{Kind: "prox"}
	for k := r.Range(1, 2); k > 0; k-- {
		st := ioStep{Fn: "main", Noise: r.U64()>>8 + 1, Cost: map[string]int64{"exec": int64(r.Range(1, 1+r.Intn(3000000)))}}
		if r.Pct(70) {
			for n := r.Range(1, 2); n > 0; n-- {
				f := simio.Fault{Class: "exec", Nth: r.Intn(21), Arg: int64(r.U64() >> 1), Kind: pickS(r, "missing", "notfound", "eacces", "eagain", "exit", "exit", "exit-empty", "exit-cut", "killed", "killed-late", "ioerr", "cut", "cut", "cut", "empty", "garbage")}
				if r.Pct(20) {
					f.Nth = 0
				}
				st.Faults = append(st.Faults, f)
			}
		}
		j.Steps = append(j.Steps, st)
	}
	j.sched(r, 0)
	return j
}

func init() {
	add(&Check{ID: "C29", Quick: 20000, Thorough: 600000, Serial: true, Real: []string{"main of the proximity program with latLngToCell and cellToBoundary (copied from the working tree with os/exec, time, fmt and log redirected)", "the haversine module"},
		Stub: []string{"the external H3 programs: models that print the documented shapes, with injected start failures, exit statuses, signals, torn and garbled output at any of the queries", "clock: advanced by the simulated duration of the programs"},
		Run:  func(w *Worker, r *Rng) *Found { return ioRun(w, genProx(r)) },
		Rule: "a run draws the outputs of the tools, their durations and faults at any of the 21 queries by the seed; oracle: an independent minimum over all vertices printed, no distance after any failed query; non-trivial: a distinct history with at least one fault"})
}
