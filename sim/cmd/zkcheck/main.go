// zkcheck runs the seeded simulation batch of one property.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"zkverif/props"
	"zkverif/sess"
)

type report struct {
	runs    int64
	target  int64
	found   *sess.Found
	wall    float64
	cov     *sess.Coverage
	recheck int
	digest  uint64
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	replay := flag.String("replay", "", "replay file")
	evid := flag.String("evidence", "", "evidence file to write")
	outDir := flag.String("out", ".", "where to write replay files")
	capS := flag.Float64("cap", 0, "wall cap in seconds (0: default)")
	nruns := flag.Int64("runs", 0, "override the number of runs")
	only := flag.Int64("run", -1, "execute only this run index")
	nw := flag.Int("workers", runtime.NumCPU(), "workers")
	keep := flag.Bool("keep-going", false, "collect several violations (exploration aid)")
	cpuprof := flag.String("cpuprofile", "", "write a CPU profile")
	child := flag.String("child", "", "run a job of the given kind from standard input")
	flag.Parse()
	if *child != "" {
		props.Child(*child)
		return
	}
	debug.SetGCPercent(400)
	if *cpuprof != "" {
		pf, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(pf)
		defer pprof.StopCPUProfile()
	}

	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	c := props.Checks[*prop]
	if c == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	n := c.Quick
	wallCap := 300.0
	if *tier == "thorough" {
		n = c.Thorough
		wallCap = 3600
	}
	if *nruns > 0 {
		n = *nruns
	}
	if *capS > 0 {
		wallCap = *capS
	}
	if c.Serial {
		*nw = 1
	}
	ph := sess.Hash64(c.ID)
	one := func(w *sess.Worker, i int64) (f *sess.Found, dig uint64) {
		r := sess.NewRng(uint64(*seed), ph, uint64(i))
		w.Digest()
		f = c.Run(w, r)
		if f != nil {
			f.Property, f.Run, f.Seed = c.ID, i, uint64(*seed)
		}
		return f, w.Digest()
	}
	if *only >= 0 {
		f, d := one(sess.NewWorker(), *only)
		fmt.Printf("run %d digest %016x\n", *only, d)
		if f != nil {
			fmt.Println(emit(f, *outDir))
			os.Exit(1)
		}
		return
	}

	start := time.Now()
	var next, done atomic.Int64
	var best atomic.Int64
	best.Store(1 << 62)
	var mu sync.Mutex
	founds := map[int64]*sess.Found{}
	const nDig = 24
	digs := make([]uint64, nDig)
	digOK := make([]bool, nDig)
	cov := sess.NewCoverage()
	var wg sync.WaitGroup
	crashed := ""
	var acc uint64
	for k := 0; k < *nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := sess.NewWorker()
			var a uint64
			var cur int64
			defer func() {
				mu.Lock()
				cov.Merge(w.Cov)
				acc += a
				if r := recover(); r != nil {
					crashed = fmt.Sprintf("run %d: %v\n%s", cur, r, debug.Stack())
				}
				mu.Unlock()
			}()
			for {
				i := next.Add(1) - 1
				cur = i
				if i >= n || (i > best.Load() && !*keep) {
					return
				}
				if time.Since(start).Seconds() > wallCap && i > best.Load() {
					return
				}
				if time.Since(start).Seconds() > wallCap && best.Load() == 1<<62 {
					return
				}
				f, d := one(w, i)
				a += d
				done.Add(1)
				if i < nDig {
					mu.Lock()
					digs[i], digOK[i] = d, true
					mu.Unlock()
				}
				if f != nil {
					mu.Lock()
					founds[i] = f
					mu.Unlock()
					for {
						b := best.Load()
						if i >= b || best.CompareAndSwap(b, i) {
							break
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	if crashed != "" {
		fmt.Fprintf(os.Stderr, "zkcheck: internal error in %s\n", crashed)
		os.Exit(2)
	}
	runWall := time.Since(start).Seconds()

	// determinism self-check: re-execute the first runs on a fresh worker
	rechecked, unrepeatable := 0, 0
	if len(founds) == 0 {
		w := sess.NewWorker()
		t0 := time.Now()
		for i := int64(0); i < nDig && i < n; i++ {
			if !digOK[i] {
				continue
			}
			_, d := one(w, i)
			if d != digs[i] {
				// what the run does depends on something outside the seed,
				// although the verdict does not
				fmt.Fprintf(os.Stderr, "zkcheck: run %d is not repeatable (digest %x, then %x)\n", i, digs[i], d)
				unrepeatable++
			}
			rechecked++
			if time.Since(t0).Seconds() > 5 {
				break
			}
		}
	}

	var f *sess.Found
	if len(founds) > 0 {
		var ks []int64
		for k := range founds {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(a, b int) bool { return ks[a] < ks[b] })
		f = founds[ks[0]]
		if *keep {
			seen := map[string]int{}
			for _, k := range ks {
				g := founds[k]
				key := g.Class + "|" + g.Spec.Kind + "|" + g.Spec.Op + "|" + cut(g.Detail, 40)
				seen[key]++
				if seen[key] <= 2 {
					fmt.Printf("run %d %s: %s spec=%s in=%v devs=%v\n", k, g.Class, g.Detail, g.Spec.String(), g.Inputs, g.Devs)
				}
			}
			fmt.Println(len(ks), "violating runs of", done.Load(), seen)
		}
	}
	var known string
	if c.Known != nil {
		known = c.Known(sess.NewWorker())
	}
	if *evid != "" {
		writeEvidence(*evid, c, *tier, *seed, cov, done.Load(), n, runWall, f, rechecked, unrepeatable, acc, known)
	}
	fmt.Printf("%s: %d runs (of %d planned), %d simulated executions, %d faulted, %d sessions, %.1fs, digest %016x\n", c.ID, done.Load(), n, cov.Execs, cov.Faulted, cov.Sessions, runWall, acc)
	if known != "" {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, known)
	}
	if f != nil {
		fmt.Println(emit(f, *outDir))
		os.Exit(1)
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func emit(f *sess.Found, dir string) string {
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", f.Property, f.Seed, f.Run))
	b, _ := json.MarshalIndent(f, "", " ")
	if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s: %s\n", f.Class, f.Detail)
	return fmt.Sprintf("VIOLATION property=%s replay=%s", f.Property, p)
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f sess.Found
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	g := props.Replay(sess.NewWorker(), &f)
	if g == nil {
		fmt.Printf("%s: the recorded execution no longer violates the property\n", f.Property)
		return 0
	}
	fmt.Printf("%s: %s\n", g.Class, g.Detail)
	if g.Class == f.Class && g.Detail == f.Detail {
		fmt.Println("identical to the recorded violation")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
	return 1
}

func writeEvidence(path string, c *props.Check, tier string, seed int64, cov *sess.Coverage, done, planned int64, wall float64, f *sess.Found, rechecked, unrepeatable int, acc uint64, known string) {
	samples := make([]any, 0, len(cov.Samples))
	for _, s := range cov.Samples {
		samples = append(samples, s)
	}
	cv := map[string]any{
		"evaluations":                       cov.Execs,
		"distinct_nontrivial":               len(cov.Nontrivial),
		"rule":                              c.Rule,
		"samples":                           samples,
		"seeded_runs":                       done,
		"seeded_runs_planned":               planned,
		"runs_per_hour":                     int64(float64(done) / wall * 3600),
		"simulated_executions_per_hour":     int64(float64(cov.Execs) / wall * 3600),
		"simulated_steps":                   cov.Steps,
		"advice_messages":                   cov.HintCalls,
		"sessions":                          cov.Sessions,
		"distinct_sessions":                 len(cov.Distinct),
		"fault_free_accepted":               cov.HonestOK,
		"fault_free_rejected":               cov.HonestReject,
		"out_of_contract_sessions":          cov.Vacuous,
		"faulted_executions":                cov.Faulted,
		"faulted_rejected":                  cov.Rejected,
		"faulted_accepted_same_result":      cov.Absorbed,
		"compensation_searches":             cov.Repairs,
		"compensations_solved":              cov.RepairHits,
		"faults_injected":                   cov.Faults,
		"gnark_solver_runs":                 cov.RealRuns,
		"gnark_solver_runs_agreeing":        cov.RealAgree,
		"candidates_not_confirmed_on_gnark": cov.Unconfirmed,
		"probes":                            cov.Probes,
		"components_real":                   c.Real,
		"components_simulated":              c.Stub,
		"determinism_rechecked_runs":        rechecked,
		"determinism_unrepeatable_runs":     unrepeatable,
		"batch_digest":                      fmt.Sprintf("%016x", acc),
	}
	for k, v := range cv {
		switch t := v.(type) {
		case int64:
			if t == 0 && k != "evaluations" && !strings.HasPrefix(k, "seeded") {
				delete(cv, k)
			}
		case map[string]int64:
			if len(t) == 0 {
				delete(cv, k)
			}
		case []string:
			if len(t) == 0 {
				delete(cv, k)
			}
		}
	}
	if known != "" {
		cv["known_finding"] = known
	}
	nv := 0
	if f != nil {
		nv = 1
	}
	e := map[string]any{
		"property":    c.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       c.Level,
		"coverage":    cv,
		"assumptions": c.Assume,
		"wall_s":      wall,
		"violations":  nv,
	}
	if c.Assume == nil {
		delete(e, "assumptions")
	}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
