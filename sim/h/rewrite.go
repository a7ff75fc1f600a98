package main

import (
	"fmt"
	"strings"
	"time"

	"vsim/simrt"
)

// RewriteSc is a ledger, one or two in-place rewrites of some of its files, and what goes wrong.
type RewriteSc struct {
	Files   Files
	Cmds    []simrt.Cmd // the rewriters; for C03 the last one may be a reader
	Targets [][]string  // files each rewriter was given
	Reader  *simrt.Cmd  `json:",omitempty"`
	Now     time.Time
	Seed    uint64        // for crash points, faults and schedules not given explicitly
	Max     int           // number of fault points or schedules to try
	Crash   *CrashSpec    `json:",omitempty"` // C01: only this one
	Faults  []simrt.Fault `json:",omitempty"` // C02: only these
	Sched   []int         `json:",omitempty"` // C03: only this schedule
	FDLimit int           `json:",omitempty"`
	Cap     int           `json:",omitempty"`
}

type CrashSpec struct {
	Pre   []simrt.Fault `json:",omitempty"` // what has failed before
	Fault simrt.Fault
	Power bool
	PSeed uint64
}

func genTestClauses(r *simrt.RNG, l *Ledger, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		c := genReportArgs(r, l, true)
		fmt.Fprintf(&b, "test %s\n", strings.Join(c, " "))
		if r.P(25) { // a (wrong) result is present already
			b.WriteString("  " + phrase(r, 1, 3) + "\n")
		}
		b.WriteString("end test\n")
		if r.P(50) {
			b.WriteString("\n")
		}
		if r.P(20) {
			b.WriteString("; " + phrase(r, 1, 4) + "\n")
		}
	}
	return b.String()
}

// genReportArgs makes a reporting subcommand of coin with its options (no file arguments).
func genReportArgs(r *simrt.RNG, l *Ledger, inTest bool) []string {
	acct := func() string {
		if len(l.Accts) == 0 {
			return "Root"
		}
		n := simrt.Pick(r, l.Accts...).Name
		if r.P(30) {
			return n[:strings.IndexByte(n+":", ':')]
		}
		return n
	}
	dates := func(a []string) []string {
		if r.P(25) {
			a = append(a, "-b", simrt.Pick(r, "2022/12/1", "2023", "2023/06", "2023/02/28"))
		}
		if r.P(25) {
			a = append(a, "-e", simrt.Pick(r, "2023/3/1", "2024", "2023/11", "2023/12/31"))
		}
		return a
	}
	filters := func(a []string) []string {
		if r.P(15) {
			a = append(a, "-t", simrt.Pick(r, append([]string{"t", "r", "k:", "trip:a"}, tagKeys...)...))
		}
		if r.P(15) {
			a = append(a, "-p", simrt.Pick(r, "rent", "o", "T.*k", "[aeiou]s"))
		}
		return a
	}
	switch r.N(11) {
	case 0, 1:
		a := filters(dates([]string{simrt.Pick(r, "balance", "bal", "b")}))
		if r.P(25) {
			a = append(a, "-z")
		}
		if r.P(20) {
			a = append(a, "-l", fmt.Sprint(r.In(1, 3)))
		}
		if r.P(25) {
			a = append(a, acct())
		}
		return a
	case 2, 3, 4, 5:
		a := filters(dates([]string{simrt.Pick(r, "register", "reg", "r")}))
		period, category := r.P(30), r.P(25)
		if period {
			a = append(a, simrt.Pick(r, "-w", "-m", "-q", "-y"))
			if r.P(30) && !category {
				a = append(a, "-c")
			}
		}
		if category {
			a = append(a, simrt.Pick(r, "-bp", "-bt", "-bt"))
		}
		if period || category {
			if r.P(20) {
				a = append(a, "-g", fmt.Sprint(r.In(1, 4)))
			}
			if r.P(40) {
				a = append(a, "-o", simrt.Pick(r, "json", "csv", "text"))
			}
		} else {
			if r.P(20) {
				a = append(a, "-v")
			}
			if r.P(15) {
				a = append(a, "-n")
			}
			if r.P(10) {
				a = append(a, "-f")
			}
		}
		if r.P(15) {
			a = append(a, "-l", fmt.Sprint(r.In(1, 30)))
		}
		if r.P(50) {
			a = append(a, "-r")
		}
		return append(a, acct())
	case 6:
		a := dates([]string{simrt.Pick(r, "stats", "s")})
		if r.P(20) {
			a = append(a, simrt.Pick(r, "-d", "-u", "-c"))
		}
		return a
	case 7, 8:
		a := []string{"tags"}
		if r.P(50) {
			a = append(a, "-v")
		}
		if r.P(50) {
			a = append(a, "-a")
		}
		if r.P(30) {
			a = append(a, simrt.Pick(r, "t", "w.*", "k|o"))
		}
		return a
	case 9:
		a := []string{simrt.Pick(r, "commodities", "com", "c")}
		if r.P(40) {
			a = append(a, "-p")
		} else if r.P(70) {
			if r.P(30) {
				a = append(a, "-f")
			}
			a = append(a, simrt.Pick(r, l.Comms...).Id)
		}
		return a
	}
	if inTest {
		return []string{"format"}
	}
	a := []string{simrt.Pick(r, "accounts", "acc", "a")}
	if r.P(30) {
		a = append(a, "-c")
	}
	if r.P(30) {
		a = append(a, simrt.Pick(r, "e", ":", "A:", "Expenses"))
	}
	return a
}

func genTestFile(r *simrt.RNG, l *Ledger) string {
	var b strings.Builder
	b.WriteString(l.commText())
	b.WriteString(l.acctText())
	half := r.N(len(l.Txns) + 1)
	b.WriteString(l.txnsText(l.Txns[:half]))
	b.WriteString(genTestClauses(r, l, r.N(2)))
	b.WriteString(l.txnsText(l.Txns[half:]))
	b.WriteString(l.priceText(l.Prices))
	b.WriteString("\n" + genTestClauses(r, l, r.In(1, 3)))
	return b.String()
}

func relpath(r *simrt.RNG, p string) string {
	if r.P(50) {
		return strings.TrimPrefix(p, "/w/")
	}
	return p
}

// genRewriter makes a rewriting command and lists its target files.
func genRewriter(r *simrt.RNG, l *Ledger, files Files, withTest bool) (simrt.Cmd, []string) {
	tf := txnFiles(files)
	simrt.Shuffle(r, tf)
	k := simrt.Pick(r, 1, 1, 2, len(tf))
	if k > len(tf) {
		k = len(tf)
	}
	tf = tf[:k]
	var a []string
	switch x := r.N(10); {
	case x < 5:
		a = []string{"coin", simrt.Pick(r, "format", "fmt", "f"), "-i"}
		if r.P(25) {
			a = append(a, "-t")
		}
		if r.P(10) {
			a = append(a, "-ledger")
		}
	case x < 8 || !withTest:
		a = append([]string{"coin"}, genModifyArgs(r, l)...)
	default:
		fn := "/w/t/sample.test"
		files[fn] = genTestFile(r, l)
		return cmd("coin", "test", relpath(r, fn)), []string{fn}
	}
	for _, f := range tf {
		a = append(a, relpath(r, f))
	}
	return cmd(a...), tf
}

func genModifyArgs(r *simrt.RNG, l *Ledger) []string {
	a := []string{simrt.Pick(r, "modify", "mod", "m")}
	if r.P(40) {
		a = append(a, "-p", simrt.Pick(r, words...))
	}
	if r.P(20) {
		a = append(a, "-tt", simrt.Pick(r, tagKeys...))
	}
	from := -1
	if r.P(60) {
		from = r.N(len(l.Accts))
		a = append(a, "-a", l.Accts[from].Name)
		if r.P(60) {
			var c []int
			for i := range l.Accts {
				if l.Accts[i].Comm == l.Accts[from].Comm {
					c = append(c, i)
				}
			}
			a = append(a, "-a:", l.Accts[simrt.Pick(r, c...)].Name)
		}
		if r.P(50) {
			a = append(a, "-pt:", "#new: value")
		}
	}
	if r.P(30) {
		a = append(a, "-pt", simrt.Pick(r, tagKeys...))
		if r.P(60) {
			a = append(a, "-pt:", "#marked")
		}
	}
	if r.P(40) {
		a = append(a, "-tt:", "#checked, #by: me")
	}
	return a
}

func genRewriteSc(r *simrt.RNG, withTest bool, maxTxns int) *RewriteSc {
	l := genLedger(r, LedgerOpts{MaxTxns: maxTxns, Multi: true, Prices: true, Notes: true})
	if r.P(15) { // long file: several write buffers
		for i, n := 0, simrt.Pick(r, 40, 40, 40, 40, 40, 40, 40, 40, 40, 700); i < n; i++ {
			l.Txns = append(l.Txns, l.genTxn(r, LedgerOpts{Multi: true, Notes: true}))
		}
	}
	sc := &RewriteSc{Now: baseTime, Seed: r.Uint64(), Files: l.layout(r)}
	c, t := genRewriter(r, l, sc.Files, withTest)
	c.Cfg.TempSeed = r.Uint64()
	sc.Cmds = []simrt.Cmd{c}
	sc.Targets = [][]string{t}
	return sc
}

// rewriteTwin runs the rewriter fault-free: old and new content of each target.
func (sc *RewriteSc) twin(files Files, c simrt.Cmd, st *Stats) (Files, *simrt.Proc, *simrt.World) {
	w := newWorld(files, sc.Now)
	c.Cfg.Faults = nil
	c.Cfg.FDLimit = 0
	ps := w.Run(c)
	st.World(w, ps, false)
	return w.FS.Tree("/w"), ps[0], w
}

func shrinkRewrite(x any) (out []any) {
	sc := x.(*RewriteSc)
	sc.Crash, sc.Faults, sc.Sched = nil, nil, nil
	isT := map[string]bool{}
	for _, ts := range sc.Targets {
		for _, t := range ts {
			isT[t] = true
		}
	}
	for _, f := range shrinkFiles(sc.Files, func(k string) bool {
		return isT[k] || strings.HasSuffix(k, "accounts.coin") || strings.HasSuffix(k, "commodities.coin")
	}) {
		n := *sc
		n.Files = f
		out = append(out, &n)
	}
	return out
}

// ---------------------------------------------------------------------------------------------------- C01

func init() {
	register(&Check{
		ID: "C01", Level: "fault_enumeration", Quick: 700, Thor: 60000,
		Rule:   "Each scenario is a generated ledger and one rewriting command; after a fault-free twin run, every system call of the command is a crash point, also after one of them has failed: killed before it, inside it (torn write) and after it, and power lost there with several survivals of the unsynced data and the directory changes. After each crash the files, a report, and a retry are checked.",
		Real:   []string{"coin format/modify/test with the coin, check, rex packages, instrumented from the working tree", "flag, bufio, regexp, difflib"},
		Stub:   []string{"operating system: disk with page cache and directory journal, clock, environment", "temporary file names (seeded)"},
		Assume: []string{"Power loss keeps directory changes as a prefix in issue order, and file data only if synced (otherwise any prefix, zeros or nothing).", "rename is atomic with respect to crashes."},
		Gen:    func(r *simrt.RNG, i int) any { return genRewriteSc(r, true, 6) },
		New:    func() any { return &RewriteSc{} },
		Run:    runC01,
		Shrink: shrinkRewrite,
	})
}

func runC01(x any, st *Stats) *Violation {
	sc := x.(*RewriteSc)
	c, targets := sc.Cmds[0], sc.Targets[0]
	new1, p, _ := sc.twin(sc.Files, c, st)
	if !p.OK() && !sameContents(new1, sc.Files, targets) {
		return &Violation{Sig: "twin-fails-with-change", Msg: "rewrite fails without any fault, yet changed a file: " + p.How(), Sc: sc}
	}
	if !p.OK() {
		st.Skipped++
		return nil
	}
	new2, p2, _ := sc.twin(new1, c, st)
	again := p2.OK()
	r := simrt.NewRNG(sc.Seed, "crash")
	var specs, late []CrashSpec
	if sc.Crash != nil {
		specs = []CrashSpec{*sc.Crash}
	} else {
		for i, e := range p.Trace {
			specs = append(specs, CrashSpec{Fault: simrt.Fault{At: i, Kind: "kill"}})
			if e.Op == "write" {
				specs = append(specs, CrashSpec{Fault: simrt.Fault{At: i, Kind: "kill-mid", N: r.N(e.N + 1)}})
			}
			k := 1
			if e.Op != "read" && e.Op != "open" && e.Op != "write" {
				k = 5
			}
			for ; k > 0; k-- {
				specs = append(specs, CrashSpec{Fault: simrt.Fault{At: i, Kind: simrt.Pick(r, "kill", "kill-after")}, Power: true, PSeed: r.Uint64()})
			}
		}
		// power lost some time after the command has finished, before write-back
		for k := 0; k < 5; k++ {
			specs = append(specs, CrashSpec{Fault: simrt.Fault{At: 1 << 30}, Power: true, PSeed: r.Uint64()})
		}
		// a crash after an operation has failed
		var singles []simrt.Fault
		for _, fs := range faultPlans(r, p.Trace, 0) {
			if len(fs) == 1 && fs[0].Op != "read" && fs[0].Op != "readdir" && fs[0].Op != "stat" {
				singles = append(singles, fs[0])
			}
		}
		for k := 0; k < 6 && len(singles) > 0; k++ {
			f := singles[r.N(len(singles))]
			w := newWorld(sc.Files, sc.Now)
			cc := c
			cc.Cfg.Faults = []simrt.Fault{f}
			ps := w.Run(cc)
			st.World(w, ps, true)
			tr := ps[0].Trace
			for j, n := 0, min(8, len(tr)-f.At-1); j < n; j++ {
				i := f.At + 1 + r.N(len(tr)-f.At-1)
				g := simrt.Fault{At: i, Kind: simrt.Pick(r, "kill", "kill-after")}
				if tr[i].Op == "write" {
					g = simrt.Fault{At: i, Kind: "kill-mid", N: r.N(tr[i].N + 1)}
				}
				late = append(late, CrashSpec{Pre: []simrt.Fault{f}, Fault: g, Power: r.P(30), PSeed: r.Uint64()})
			}
			late = append(late, CrashSpec{Pre: []simrt.Fault{f}, Fault: simrt.Fault{At: 1 << 30}, Power: true, PSeed: r.Uint64()})
		}
		if max := 160; len(specs) > max {
			simrt.Shuffle(r, specs)
			specs = specs[:max]
		}
		specs = append(specs, late...)
	}
	report := cmd("coin", "register", "-v", "-r", "Root")
	if strings.HasPrefix(targets[0], "/w/t/") {
		report = cmd("coin", "balance")
	}
	for i := range specs {
		spec := specs[i]
		w := newWorld(sc.Files, sc.Now)
		cc := c
		cc.Cfg.Faults = append(append([]simrt.Fault{}, spec.Pre...), spec.Fault)
		ps := w.Run(cc)
		kept, total := 0, 0
		if spec.Power {
			kept, total = w.FS.PowerLoss(simrt.NewRNG(spec.PSeed, "power"))
			w.Injected["power-loss"]++
		}
		narrowed := *sc
		narrowed.Crash = &spec
		fail := func(sig, f string, a ...any) *Violation {
			d := detail(w, ps)
			if spec.Power {
				d = append(d, fmt.Sprintf("power lost: %d of %d directory changes survived", kept, total))
			}
			return &Violation{Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: d, Sc: &narrowed}
		}
		st.World(w, ps, true)
		after := w.FS.Tree("/w")
		allNew := true
		isT := map[string]bool{}
		for _, t := range targets {
			isT[t] = true
			got, ok := after[t]
			switch {
			case !ok:
				return fail("missing", "after the crash %s is missing", t)
			case got == new1[t]:
			case got == sc.Files[t]:
				allNew = false
			default:
				return fail("damaged", "after the crash %s has neither its previous nor its new content: %s", t, quote(got))
			}
		}
		for _, k := range sortedKeys(sc.Files) {
			if !isT[k] && after[k] != sc.Files[k] {
				return fail("other-file", "the crash changed %s, which was not to be rewritten", k)
			}
		}
		// leftovers do not matter
		clean := Files{}
		left := 0
		for k, v := range after {
			if _, ok := sc.Files[k]; ok {
				clean[k] = v
			} else {
				left++
			}
		}
		if left > 0 && i%3 == 0 || sc.Crash != nil {
			st.Count("leftover-checks")
			w1, w2 := newWorld(after, sc.Now), newWorld(clean, sc.Now)
			q1, q2 := w1.Run(report), w2.Run(report)
			st.World(w1, q1, false)
			st.World(w2, q2, false)
			if string(q1[0].Stdout) != string(q2[0].Stdout) || q1[0].Status != q2[0].Status {
				return fail("leftover", "a file left behind by the crash changes what a report reads: %s", firstDiff(string(q1[0].Stdout), string(q2[0].Stdout)))
			}
		}
		// retry
		if allNew && !again {
			continue
		}
		if i%4 == 1 || sc.Crash != nil {
			st.Count("retries")
			rc := c
			rc.Cfg.TempSeed = spec.PSeed
			w3 := newWorld(after, sc.Now)
			q := w3.Run(rc)
			st.World(w3, q, false)
			fin := w3.FS.Tree("/w")
			if !q[0].OK() {
				ok := true
				for _, t := range targets { // a file already rewritten may be unreadable for the command (e.g. -ledger)
					ok = ok && (again || after[t] == sc.Files[t])
				}
				if ok {
					return fail("retry-fails", "running the command again after the crash fails: %s %s", q[0].How(), q[0].Stderr)
				}
				continue
			}
			for _, t := range targets {
				if !(fin[t] == new1[t] && (after[t] == sc.Files[t] || new2[t] == new1[t])) && !(after[t] == new1[t] && fin[t] == new2[t]) {
					return fail("retry-differs", "running the command again after the crash gives a different %s: %s", t, firstDiff(fin[t], new1[t]))
				}
			}
		}
	}
	return nil
}

func sameContents(a, b Files, keys []string) bool {
	for _, k := range keys {
		if a[k] != b[k] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------------------------------- C02

func init() {
	register(&Check{
		ID: "C02", Level: "fault_enumeration", Quick: 500, Thor: 40000,
		Rule:   "Each scenario is a generated ledger and one rewriting command; after a fault-free twin run, every system call of the command fails with every error that applies to it (writes also partially, disk-full also persistently), plus random pairs of faults and further faults after the command went on from the first, small disks and low descriptor limits. After each execution the files and the exit status are checked, and the command is run again without faults.",
		Real:   []string{"coin format/modify/test with the coin, check, rex packages, instrumented from the working tree", "flag, bufio, regexp, difflib"},
		Stub:   []string{"operating system: disk, descriptors, clock, environment", "temporary file names (seeded)"},
		Assume: []string{"A failing close or sync may lose the data not yet synced (network file systems); a failing write may have transferred any prefix.", "A failing rename or remove has no effect."},
		Gen:    func(r *simrt.RNG, i int) any { return genRewriteSc(r, true, 6) },
		New:    func() any { return &RewriteSc{} },
		Run:    runC02,
		Shrink: shrinkRewrite,
	})
}

// faultPlans enumerates the single faults of a traced run plus some random combinations.
func faultPlans(r *simrt.RNG, trace []simrt.Event, max int) (plans [][]simrt.Fault) {
	for i, e := range trace {
		for _, k := range simrt.FaultKinds(e.Op) {
			f := simrt.Fault{At: i, Kind: k, Op: e.Op}
			if e.Op == "write" {
				f.N = r.N(e.N + 1)
				if r.P(40) {
					f.N = 0
				}
				f.Sticky = r.P(50)
			} else if e.Op == "readdir" {
				f.N = r.N(4)
			} else {
				f.Sticky = r.P(20)
			}
			plans = append(plans, []simrt.Fault{f})
		}
	}
	if max > 0 && len(plans) > max {
		simrt.Shuffle(r, plans)
		plans = plans[:max]
	}
	n := len(plans)
	for i := 0; i < n/8; i++ {
		a, b := plans[r.N(n)][0], plans[r.N(n)][0]
		if a.At != b.At {
			plans = append(plans, []simrt.Fault{a, b})
		}
	}
	return plans
}

// secondFault returns faults that hit a command after it went on from the first one.
func secondFault(r *simrt.RNG, first simrt.Fault, trace []simrt.Event, max int) (plans [][]simrt.Fault) {
	if first.At+1 >= len(trace) {
		return nil
	}
	for _, fs := range faultPlans(r, trace[first.At+1:], max) {
		for i := range fs {
			fs[i].At += first.At + 1
		}
		plans = append(plans, append([]simrt.Fault{first}, fs...))
	}
	return plans
}

func runC02(x any, st *Stats) *Violation {
	sc := x.(*RewriteSc)
	c, targets := sc.Cmds[0], sc.Targets[0]
	new1, p, _ := sc.twin(sc.Files, c, st)
	if !p.OK() {
		st.Skipped++
		return nil
	}
	new2, p2, _ := sc.twin(new1, c, st)
	r := simrt.NewRNG(sc.Seed, "faults")
	type plan struct {
		fs       []simrt.Fault
		fd, size int
	}
	var plans []plan
	if sc.Faults != nil || sc.FDLimit > 0 || sc.Cap > 0 {
		plans = []plan{{sc.Faults, sc.FDLimit, sc.Cap}}
	} else {
		for _, f := range faultPlans(r, p.Trace, 150) {
			plans = append(plans, plan{fs: f})
		}
		for i, n := 0, len(plans); i < 6 && n > 0; i++ {
			first := plans[r.N(n)].fs[0]
			if first.Op == "read" {
				continue
			}
			w := newWorld(sc.Files, sc.Now)
			cc := c
			cc.Cfg.Faults = []simrt.Fault{first}
			ps := w.Run(cc)
			for _, fs := range secondFault(r, first, ps[0].Trace, 5) {
				plans = append(plans, plan{fs: fs})
			}
		}
		for fd := 4; fd < 8; fd++ {
			plans = append(plans, plan{fd: fd})
		}
		used := 0
		for _, v := range sc.Files {
			used += len(v)
		}
		for i := 0; i < 6; i++ {
			plans = append(plans, plan{size: used + r.N(2000)})
		}
	}
	for i, pl := range plans {
		w := newWorld(sc.Files, sc.Now)
		w.FS.Capacity = pl.size
		cc := c
		cc.Cfg.Faults = pl.fs
		cc.Cfg.FDLimit = pl.fd
		ps := w.Run(cc)
		st.World(w, ps, true)
		narrowed := *sc
		narrowed.Faults, narrowed.FDLimit, narrowed.Cap = pl.fs, pl.fd, pl.size
		fail := func(sig, f string, a ...any) *Violation {
			return &Violation{Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: detail(w, ps), Sc: &narrowed}
		}
		after := w.FS.Tree("/w")
		isT := map[string]bool{}
		done := true
		for _, t := range targets {
			isT[t] = true
			got, ok := after[t]
			switch {
			case !ok:
				return fail("missing", "after %s, %s is missing", ps[0].How(), t)
			case got == new1[t]:
			case got == sc.Files[t]:
				done = false
			default:
				return fail("damaged", "after %s, %s has neither its previous nor its new content: %s", ps[0].How(), t, quote(got))
			}
		}
		if ps[0].Reason == "hang" {
			return fail("hang", "the command does not end")
		}
		if ps[0].OK() && !done {
			return fail("silent", "the command exits 0 although a file was not rewritten")
		}
		for _, k := range sortedKeys(sc.Files) {
			if !isT[k] && after[k] != sc.Files[k] {
				return fail("other-file", "%s, which was not to be rewritten, was changed", k)
			}
		}
		if i%5 == 0 && p2.OK() || sc.Faults != nil {
			w3 := newWorld(after, sc.Now)
			rc := c
			rc.Cfg.TempSeed = r.Uint64()
			q := w3.Run(rc)
			st.World(w3, q, false)
			fin := w3.FS.Tree("/w")
			if p2.OK() && !q[0].OK() {
				return fail("retry-fails", "running the command again after the failure fails: %s %s", q[0].How(), q[0].Stderr)
			}
			if q[0].OK() {
				for _, t := range targets {
					want := new1[t]
					if after[t] == new1[t] && after[t] != sc.Files[t] {
						want = new2[t]
					}
					if fin[t] != want && fin[t] != new2[t] {
						return fail("retry-differs", "running the command again after the failure gives a different %s: %s", t, firstDiff(fin[t], new1[t]))
					}
				}
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------------------------------------------- C03

func init() {
	register(&Check{
		ID: "C03", Level: "exploration", Quick: 700, Thor: 60000,
		Rule:   "Each scenario is a generated ledger with one or two rewriting commands and possibly a report, run concurrently under 24 seeded schedules each (uniform and sticky random choices at every system call), in a quarter of them with a fault or a kill in the first rewrite. Invariant at every event: every target file exists with complete old or new content. At the end: the report equals one of the reports on old/new combinations, and the final content is that of one rewrite or of both in sequence.",
		Real:   []string{"coin format/modify/test and reporting commands, instrumented from the working tree (one copy per simulated process)"},
		Stub:   []string{"operating system: scheduler, disk, clock, environment", "temporary file names (seeded)"},
		Assume: []string{"System calls are atomic with respect to each other; processes interleave at system calls."},
		Gen: func(r *simrt.RNG, i int) any {
			sc := genRewriteSc(r, false, 5)
			sc.Max = 24
			l := genLedger(simrt.NewRNG(sc.Seed, "reader"), LedgerOpts{MaxTxns: 0})
			if r.P(40) { // a second rewriter of the same files
				if r.P(50) {
					c := sc.Cmds[0]
					c.Cfg.TempSeed = r.Uint64()
					if r.P(20) {
						c.Cfg.TempSeed = sc.Cmds[0].Cfg.TempSeed
					}
					sc.Cmds = append(sc.Cmds, c)
				} else {
					sc.Cmds = append(sc.Cmds, cmd(append([]string{"coin", simrt.Pick(r, "format", "modify")}, append([]string{simrt.Pick(r, "-i", "-tt:")}[:0], sc.Targets[0]...)...)...))
					last := &sc.Cmds[1]
					if last.Args[1] == "format" {
						last.Args = append([]string{"coin", "format", "-i"}, sc.Targets[0]...)
					} else {
						last.Args = append([]string{"coin", "modify", "-tt:", "#second"}, sc.Targets[0]...)
					}
					last.Cfg.TempSeed = r.Uint64()
				}
				sc.Targets = append(sc.Targets, sc.Targets[0])
			}
			if len(sc.Cmds) == 1 || r.P(60) {
				a := append([]string{"coin"}, genReportArgs(r, l, false)...)
				for a[1] == "accounts" {
					a = append([]string{"coin"}, genReportArgs(r, l, false)...)
				}
				if a[1] == "register" || a[1] == "reg" || a[1] == "r" {
					a[len(a)-1] = "Root"
					if r.P(50) {
						a = append(append([]string{}, a[:len(a)-1]...), "-r", "Root")
					}
				} else if a[1][0] == 'b' && a[len(a)-1][0] >= 'A' && a[len(a)-1][0] <= 'Z' {
					a = a[:len(a)-1]
				}
				c := cmd(a...)
				sc.Reader = &c
			}
			return sc
		},
		New:    func() any { return &RewriteSc{} },
		Run:    runC03,
		Shrink: shrinkRewrite,
	})
}

func runC03(x any, st *Stats) *Violation {
	sc := x.(*RewriteSc)
	targets := sc.Targets[0]
	// allowed contents of each target: every sequence of the rewriters, each at most once
	results := []Files{sc.Files}
	var seqs func(f Files, left []int)
	finals := []Files{}
	failed := false
	seqs = func(f Files, left []int) {
		if len(left) == 0 {
			finals = append(finals, f)
			return
		}
		for i, ci := range left {
			g, p, _ := sc.twin(f, sc.Cmds[ci], st)
			if !p.OK() {
				failed = true
				return
			}
			results = append(results, g)
			seqs(g, append(append([]int{}, left[:i]...), left[i+1:]...))
		}
	}
	var all []int
	for i := range sc.Cmds {
		all = append(all, i)
	}
	seqs(sc.Files, all)
	if failed {
		st.Skipped++
		return nil
	}
	allowed := map[string]map[string]bool{}
	for _, t := range targets {
		allowed[t] = map[string]bool{}
		for _, f := range results {
			allowed[t][f[t]] = true
		}
	}
	// expected reader outputs
	type rep struct {
		out    string
		status int
	}
	reps := map[rep]bool{}
	if sc.Reader != nil {
		combos := []Files{sc.Files}
		for _, t := range targets {
			var next []Files
			for _, f := range combos {
				for c := range allowed[t] {
					g := copyFiles(f)
					g[t] = c
					next = append(next, g)
				}
			}
			combos = next
			if len(combos) > 300 {
				st.Skipped++
				return nil
			}
		}
		for _, f := range combos {
			w := newWorld(f, sc.Now)
			p := w.Run(*sc.Reader)
			st.World(w, p, false)
			reps[rep{string(p[0].Stdout), p[0].Status}] = true
		}
	}
	n := sc.Max
	var plans [][]simrt.Fault
	if sc.Sched != nil {
		n = 1
	} else {
		_, p, _ := sc.twin(sc.Files, sc.Cmds[0], st)
		r := simrt.NewRNG(sc.Seed, "faults")
		plans = faultPlans(r, p.Trace, 3)
		for k := 0; k < 3; k++ {
			i := r.N(len(p.Trace))
			f := simrt.Fault{At: i, Kind: simrt.Pick(r, "kill", "kill-after")}
			if p.Trace[i].Op == "write" {
				f = simrt.Fault{At: i, Kind: "kill-mid", N: r.N(p.Trace[i].N + 1)}
			}
			plans = append(plans, []simrt.Fault{f})
		}
		simrt.Shuffle(r, plans)
	}
	for s := 0; s < n; s++ {
		w := newWorld(sc.Files, sc.Now)
		if sc.Sched != nil {
			w.Sched = sc.Sched
		} else {
			w.SchedR = simrt.NewRNG(sc.Seed, fmt.Sprint("sched", s))
			w.Sticky = []int{0, 50, 80, 93}[s%4]
		}
		bad := ""
		sig := ""
		w.Hook = func() {
			if bad != "" {
				return
			}
			for _, t := range targets {
				c, ok := w.FS.Read(t)
				if !ok {
					bad, sig = t+" is missing while it is being rewritten", "missing"
				} else if !allowed[t][c] {
					bad, sig = t+" is incomplete while it is being rewritten: "+quote(c), "partial"
				}
			}
		}
		cs := append([]simrt.Cmd{}, sc.Cmds...)
		if sc.Reader != nil {
			cs = append(cs, *sc.Reader)
		}
		hit := sc.Faults
		if sc.Sched == nil && s%4 == 3 && len(plans) > 0 { // something happens to the first rewriter
			hit = plans[s/4%len(plans)]
		}
		cs[0].Cfg.Faults = hit
		ps := w.Run(cs...)
		st.World(w, ps, true)
		fail := func(sig, f string, a ...any) *Violation {
			narrowed := *sc
			narrowed.Sched, narrowed.Faults = append([]int{}, w.Choices...), hit
			return &Violation{Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: detail(w, ps), Sc: &narrowed}
		}
		if bad != "" {
			return fail(sig, "%s", bad)
		}
		for i := range sc.Cmds {
			if !ps[i].OK() && (i > 0 || len(ps[0].Fired) == 0) {
				return fail("rewriter-fails", "a rewrite fails because another command is running: %s: %s", ps[i].How(), ps[i].Stderr)
			}
		}
		after := w.FS.Tree("/w")
		for _, t := range targets {
			ok := !ps[0].OK() && len(sc.Cmds) == 1 && allowed[t][after[t]]
			for _, f := range results[1:] {
				ok = ok || f[t] == after[t]
			}
			if !ok {
				return fail("final", "%s ends with neither one of the rewrites nor both in sequence", t)
			}
		}
		if sc.Reader != nil {
			p := ps[len(ps)-1]
			if !reps[rep{string(p.Stdout), p.Status}] {
				return fail("reader", "a report (%s) running during the rewrite ends with %s and matches no combination of old and new files: %s",
					strings.Join(p.Cmd.Args, " "), p.How(), quote(string(p.Stdout)))
			}
		}
	}
	return nil
}
