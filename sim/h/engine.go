// The harness: generates scenarios from seeds, runs them under the simulator, checks the properties, minimises and
// replays failures, and writes the evidence.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"vsim/gen/s0"
	"vsim/gen/s1"
	"vsim/gen/s2"
	"vsim/simrt"
)

// Violation is one broken property.
type Violation struct {
	Sig    string   // class of the violation, stable under minimisation and what known findings name
	Msg    string   // what happened
	Detail []string // event trace of the failing run
	Sc     any      // scenario narrowed to the failing schedule or fault
}

// Check decides one property.
type Check struct {
	ID     string
	Level  string
	Rule   string
	Full   bool // count distinct executions by everything observable, not only by the system calls
	Real   []string
	Stub   []string
	Assume []string
	Quick  int // scenarios in the quick tier
	Thor   int
	Gen    func(r *simrt.RNG, i int) any
	New    func() any
	Run    func(sc any, st *Stats) *Violation
	Shrink func(sc any) []any
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Stats is what a worker measured.
type Stats struct {
	Scenarios int
	Skipped   int
	Runs      int // simulated process runs
	Worlds    int
	Nontriv   int
	SimTime   time.Duration
	Counters  map[string]int
	Injected  map[string]int
	Hashes    map[uint64]bool `json:"-"`
	HashList  []uint64
	Samples   []string
	DetOK     int
	DetBad    int
	trace     uint64
	full      bool
}

func newStats() *Stats {
	return &Stats{Counters: map[string]int{}, Injected: map[string]int{}, Hashes: map[uint64]bool{}}
}

func (st *Stats) Count(k string) { st.Counters[k]++ }

var errUnsupported string

var debugRuns = os.Getenv("SIMDEBUG") != ""

// World accounts for one finished simulated execution. nontrivial: a fault fired, several processes interleaved, or
// the environment differed from the plain one.
func (st *Stats) World(w *simrt.World, procs []*simrt.Proc, nontrivial bool) {
	st.Worlds++
	st.Runs += len(procs)
	st.SimTime += w.Mono
	for k, n := range w.Injected {
		st.Injected[k] += n
	}
	for _, p := range procs {
		if debugRuns && !p.OK() {
			fmt.Printf("DEBUG %v %s %s\n%s\n", p.Cmd.Args, p.How(), p.Detail, p.Stderr)
		}
		if p.Reason == "unsupported" && errUnsupported == "" {
			errUnsupported = p.Detail
		}
	}
	full := w.Hash()
	st.trace = st.trace*1099511628211 ^ full
	if nontrivial {
		st.Nontriv++
		if len(st.Hashes) < 2_000_000 {
			if st.full {
				st.Hashes[full] = true
			} else {
				st.Hashes[w.OpsHash()] = true
			}
		}
	}
}

func main() {
	debug.SetMaxStack(2 << 30)
	simrt.Slots = []*simrt.Slot{s0.Slot, s1.Slot, s2.Slot}
	id := flag.String("check", "", "property to check")
	replay := flag.String("replay", "", "replay file")
	worker := flag.String("worker", "", "i/n (internal)")
	seed := flag.Uint64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "quick or thorough")
	dir := flag.String("dir", "/verif", "verification directory")
	one := flag.Int("one", -1, "run only this scenario, verbosely")
	n := flag.Int("n", 0, "override the number of scenarios")
	secs := flag.Int("secs", 0, "time limit in seconds")
	flag.Parse()
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	c := checks[*id]
	if c == nil {
		fmt.Fprintf(os.Stderr, "no check %q\n", *id)
		os.Exit(2)
	}
	total := c.Quick
	limit := 420 * time.Second
	if *tier == "thorough" {
		total = c.Thor
		limit = 4 * time.Hour
	}
	if *n > 0 {
		total = *n
	}
	if *secs > 0 {
		limit = time.Duration(*secs) * time.Second
	}
	if *one >= 0 {
		sc := c.Gen(simrt.NewRNG(*seed, fmt.Sprintf("%s/%d", c.ID, *one)), *one)
		b, _ := json.MarshalIndent(sc, "", " ")
		fmt.Println(string(b))
		st := newStats()
		v := c.Run(sc, st)
		fmt.Printf("%+v\nskipped=%d worlds=%d counters=%v injected=%v\n", v, st.Skipped, st.Worlds, st.Counters, st.Injected)
		if v != nil {
			fmt.Println(v.Msg)
			fmt.Println(strings.Join(v.Detail, "\n"))
		}
		return
	}
	if *worker != "" {
		runWorker(c, *worker, *seed, total, limit)
		return
	}
	os.Exit(runCheck(c, *tier, *seed, total, limit, *dir))
}

type found struct {
	Index int
	Sig   string
	Msg   string
	Sc    json.RawMessage
	Trace []string
	Known bool
}

type workerOut struct {
	Stats *Stats
	Found []found
	Err   string
	Timed bool
}

func scenarioRNG(c *Check, seed uint64, i int) *simrt.RNG {
	return simrt.NewRNG(seed, fmt.Sprintf("%s/%d", c.ID, i))
}

func runWorker(c *Check, spec string, seed uint64, total int, limit time.Duration) {
	var wi, wn int
	fmt.Sscanf(spec, "%d/%d", &wi, &wn)
	known := loadKnown(c.ID)
	st := newStats()
	st.full = c.Full
	out := workerOut{Stats: st}
	start := time.Now()
	seen := map[string]bool{}
	for i := wi; i < total; i += wn {
		if time.Since(start) > limit {
			out.Timed = true
			break
		}
		sc := c.Gen(scenarioRNG(c, seed, i), i)
		st.Scenarios++
		t0 := st.trace
		st.trace = 0
		v := c.Run(sc, st)
		tr := st.trace
		st.trace = t0*31 ^ tr
		if errUnsupported != "" {
			out.Err = "unsupported: " + errUnsupported
			break
		}
		if (i/wn)%97 == 3 && v == nil { // determinism self-check
			st2 := newStats()
			c.Run(c.Gen(scenarioRNG(c, seed, i), i), st2)
			if st2.trace == tr {
				st.DetOK++
			} else {
				st.DetBad++
			}
		}
		if len(st.Samples) < 2 && v == nil {
			b, _ := json.Marshal(sc)
			if len(b) > 3000 {
				b = append(b[:3000:3000], "..."...)
			}
			st.Samples = append(st.Samples, string(b))
		}
		if v != nil {
			if k := known[v.Sig]; k != "" {
				if !seen[v.Sig] {
					seen[v.Sig] = true
					out.Found = append(out.Found, found{Index: i, Sig: v.Sig, Msg: v.Msg, Known: true})
				}
				continue
			}
			v = minimise(c, v)
			b, err := json.Marshal(v.Sc)
			if err != nil {
				out.Err = err.Error()
			}
			out.Found = append(out.Found, found{Index: i, Sig: v.Sig, Msg: v.Msg, Sc: b, Trace: v.Detail})
			break
		}
	}
	for h := range st.Hashes {
		st.HashList = append(st.HashList, h)
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}

// minimise greedily applies the check's simplifications while the same class of violation remains.
func minimise(c *Check, v *Violation) *Violation {
	if c.Shrink == nil || v.Sc == nil {
		return v
	}
	deadline := time.Now().Add(25 * time.Second)
	st := newStats()
	for progress := true; progress; {
		progress = false
		for _, cand := range c.Shrink(clone(c, v.Sc)) {
			if time.Now().After(deadline) {
				return v
			}
			if cand == nil {
				continue
			}
			v2 := c.Run(cand, st)
			if v2 != nil && v2.Sig == v.Sig {
				if v2.Sc == nil {
					v2.Sc = cand
				}
				v = v2
				progress = true
				break
			}
		}
	}
	return v
}

func clone(c *Check, sc any) any {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	n := c.New()
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

type replayFile struct {
	Property string
	Seed     uint64
	Index    int
	Sig      string
	Msg      string
	Scenario json.RawMessage
	Trace    []string
}

func doReplay(fn string) int {
	b, err := os.ReadFile(fn)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := checks[rf.Property]
	sc := c.New()
	if err := json.Unmarshal(rf.Scenario, sc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	v := c.Run(sc, newStats())
	if v == nil {
		fmt.Printf("replay %s: no violation\n", fn)
		return 0
	}
	same := v.Sig == rf.Sig && v.Msg == rf.Msg && reflect.DeepEqual(v.Detail, rf.Trace)
	fmt.Printf("%s\n%s\n", v.Msg, strings.Join(v.Detail, "\n"))
	fmt.Printf("reproduced exactly: %v\n", same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, fn)
	return 1
}

// loadKnown reads the open findings: "KNOWN property=<id> sig=<sig> :: <what>".
func loadKnown(id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(os.Getenv("VERIF_DIR"), "known-findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	for s.Scan() {
		l := s.Text()
		if !strings.HasPrefix(l, "known: property="+id+" sig=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+id+" sig=")
		sig, what, _ := strings.Cut(l, " :: ")
		out[sig] = what
	}
	return out
}

func runCheck(c *Check, tier string, seed uint64, total int, limit time.Duration, dir string) int {
	start := time.Now()
	os.Setenv("VERIF_DIR", dir)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	if nw > total {
		nw = total
	}
	outs := make([]workerOut, nw)
	errs := make([]error, nw)
	done := make(chan int)
	for i := 0; i < nw; i++ {
		go func(i int) {
			defer func() { done <- i }()
			cmd := exec.Command(os.Args[0], "-check", c.ID, "-worker", fmt.Sprintf("%d/%d", i, nw),
				"-seed", fmt.Sprint(seed), "-tier", tier, "-n", fmt.Sprint(total), "-secs", fmt.Sprint(int(limit/time.Second)))
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
			var stderr strings.Builder
			cmd.Stderr = &stderr
			b, err := cmd.Output()
			if err == nil {
				err = json.Unmarshal(b, &outs[i])
			}
			if err != nil {
				s := stderr.String()
				if len(s) > 3000 {
					s = s[:3000]
				}
				errs[i] = fmt.Errorf("worker %d: %v\n%s", i, err, s)
			}
		}(i)
	}
	for i := 0; i < nw; i++ {
		<-done
	}
	sum := newStats()
	var fs []found
	timed := false
	for i := range outs {
		if errs[i] == nil && outs[i].Err != "" {
			errs[i] = fmt.Errorf("worker %d: %s", i, outs[i].Err)
		}
		if errs[i] != nil {
			fmt.Fprintln(os.Stderr, errs[i])
			continue
		}
		st := outs[i].Stats
		sum.Scenarios += st.Scenarios
		sum.Skipped += st.Skipped
		sum.Runs += st.Runs
		sum.Worlds += st.Worlds
		sum.Nontriv += st.Nontriv
		sum.SimTime += st.SimTime
		sum.DetOK += st.DetOK
		sum.DetBad += st.DetBad
		for k, n := range st.Counters {
			sum.Counters[k] += n
		}
		for k, n := range st.Injected {
			sum.Injected[k] += n
		}
		for _, h := range st.HashList {
			sum.Hashes[h] = true
		}
		if len(sum.Samples) < 3 {
			sum.Samples = append(sum.Samples, st.Samples...)
		}
		fs = append(fs, outs[i].Found...)
		timed = timed || outs[i].Timed
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].Index < fs[j].Index })
	viol := 0
	rc := 0
	knownSeen := map[string]bool{}
	known := loadKnown(c.ID)
	for _, f := range fs {
		if f.Known {
			if !knownSeen[f.Sig] {
				knownSeen[f.Sig] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, known[f.Sig])
			}
			continue
		}
		viol++
		if rc == 0 {
			rc = 1
			rp := filepath.Join(dir, "build", "replays", fmt.Sprintf("%s-%d-%d.json", c.ID, seed, f.Index))
			os.MkdirAll(filepath.Dir(rp), 0o755)
			b, _ := json.MarshalIndent(replayFile{c.ID, seed, f.Index, f.Sig, f.Msg, f.Sc, f.Trace}, "", " ")
			os.WriteFile(rp, b, 0o644)
			fmt.Printf("scenario %d of seed %d: %s\n", f.Index, seed, f.Msg)
			for _, l := range f.Trace {
				fmt.Println("  " + l)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
		}
	}
	for _, e := range errs {
		if e != nil && rc == 0 {
			rc = 2
		}
	}
	wall := time.Since(start).Seconds()
	rate := func(n int) int { return int(float64(n) / wall * 3600) }
	full := ""
	if c.Full {
		full = ", the output and status of every process, the final files and the clock"
	}
	cov := map[string]any{
		"evaluations":            sum.Worlds,
		"distinct_nontrivial":    len(sum.Hashes),
		"rule":                   c.Rule + " Non-trivial: an execution in which a fault fired, several processes interleaved, or the environment (map order, read slicing, clock, random choices) was perturbed. Distinct: by hash of the sequence of (process, system call, path, outcome)" + full + ".",
		"samples":                sum.Samples,
		"scenarios":              sum.Scenarios,
		"scenarios_skipped":      sum.Skipped,
		"nontrivial_executions":  sum.Nontriv,
		"simulated_process_runs": sum.Runs,
		"runs_per_hour":          rate(sum.Runs),
		"seeds_per_hour":         rate(sum.Scenarios),
		"simulated_time_s":       sum.SimTime.Seconds(),
		"faults_injected":        sum.Injected,
		"counters":               sum.Counters,
		"determinism_rechecked":  sum.DetOK + sum.DetBad,
		"determinism_mismatches": sum.DetBad,
		"time_limit_hit":         timed,
		"components_real":        c.Real,
		"components_stub":        c.Stub,
		"known_findings_seen":    len(knownSeen),
		"workers":                nw,
	}
	ev := map[string]any{"property": c.ID, "tier": tier, "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assume, "wall_s": wall, "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if rc == 0 {
			rc = 2
		}
	}
	fmt.Printf("%s: %d scenarios (%d skipped), %d executions, %d distinct non-trivial, %.1fs, violations %d\n",
		c.ID, sum.Scenarios, sum.Skipped, sum.Worlds, len(sum.Hashes), wall, viol)
	return rc
}
