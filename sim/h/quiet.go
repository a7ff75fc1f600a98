package main

import (
	"path"
	"strings"
	"time"

	"vsim/simrt"
)

// ---------------------------------------------------------------------------------------------------- C19

// QuietSc is a command and the files it may change; everything else must stay as it is.
type QuietSc struct {
	P       *ProgSc
	Targets []string `json:",omitempty"` // files rewritten in place
	OutDir  string   `json:",omitempty"` // directory output files go to
}

func genQuiet(r *simrt.RNG) *QuietSc {
	if r.P(25) {
		rw := genRewriteSc(r, true, 6)
		return &QuietSc{P: &ProgSc{Kind: "rewrite", Files: rw.Files, Cmd: rw.Cmds[0], Now: rw.Now, Seed: rw.Seed}, Targets: rw.Targets[0]}
	}
	q := &QuietSc{P: genProg(r, "report", "report", "report", "report", "report", "format", "format", "test", "ofx", "ofx", "csv", "gen", "gc", "html")}
	a := q.P.Cmd.Args
	switch q.P.Kind {
	case "gen":
		if last := a[len(a)-1]; last == "/w/out" || last == "out" {
			q.OutDir = "/w/out"
		}
	case "gc":
		q.OutDir = q.P.Cmd.Env["COINDB"]
	}
	if r.P(30) && len(q.Targets) == 0 { // things lying around
		for _, k := range []string{"/w/notes.txt", db + "/2023.coin~", db + "/x.bak", "/w/out/old.coin", db + "/sub/deep.coin", "/w/transactions.coin1"} {
			if r.P(50) {
				q.P.Files[k] = phrase(r, 1, 9) + "\n"
			}
		}
	}
	return q
}

func init() {
	register(&Check{
		ID: "C19", Level: "fault_enumeration", Quick: 900, Thor: 60000,
		Rule:   "Each scenario is one program with generated input (reports, imports, exports, conversions, test files, formatting to standard output, in-place rewrites), run fault-free, then with a failure or a kill at each of its system calls, with low descriptor limits and small disks. Every file it is not meant to write must be unchanged and no other file may appear; a command that succeeds leaves no temporary file.",
		Real:   progReal,
		Stub:   progStub,
		Assume: []string{"A rewrite or conversion that fails or is killed may leave a file in the directory it writes to."},
		Gen:    func(r *simrt.RNG, i int) any { return genQuiet(r) },
		New:    func() any { return &QuietSc{} },
		Run:    runC19,
		Shrink: func(x any) (out []any) {
			q := x.(*QuietSc)
			isT := map[string]bool{}
			for _, t := range q.Targets {
				isT[t] = true
			}
			for _, p := range shrinkProg(q.P) {
				n := *q
				n.P = p.(*ProgSc)
				ok := true
				for t := range isT {
					_, has := n.P.Files[t]
					ok = ok && has
				}
				if ok {
					out = append(out, &n)
				}
			}
			return out
		},
	})
}

func runC19(x any, st *Stats) *Violation {
	q := x.(*QuietSc)
	sc := q.P
	isT := map[string]bool{}
	dirs := map[string]bool{}
	for _, t := range q.Targets {
		isT[t] = true
		dirs[path.Dir(t)] = true
	}
	judge := func(pl *ProgPlan, w *simrt.World, ps []*simrt.Proc) *Violation {
		after := w.FS.Tree("/w")
		n := *q
		fail := func(sig, f string, a ...any) *Violation {
			v := progFail(sc, pl, w, ps, sig, f, a...)
			n.P = v.Sc.(*ProgSc)
			v.Sc = &n
			return v
		}
		for _, k := range sortedKeys(sc.Files) {
			got, ok := after[k]
			was := sc.Files[k]
			if strings.HasSuffix(k, ".xml.gz") {
				was = gz(was)
			}
			if isT[k] || q.OutDir != "" && strings.HasPrefix(k, q.OutDir+"/") {
				if !ok {
					return fail("removed", "%s is gone", k)
				}
				continue
			}
			if !ok {
				return fail("removed", "%s, a file the command is not meant to write, is gone", k)
			}
			if got != was {
				return fail("changed", "%s, a file the command is not meant to write, has changed: %s", k, firstDiff(was, got))
			}
		}
		for _, k := range sortedKeys(after) {
			if _, ok := sc.Files[k]; ok {
				continue
			}
			switch {
			case q.OutDir != "" && strings.HasPrefix(k, q.OutDir+"/"):
			case dirs[path.Dir(k)] && !ps[0].OK():
			case dirs[path.Dir(k)]:
				return fail("left", "the command succeeds and leaves a file %s behind", k)
			default:
				return fail("created", "the command creates %s, which it is not meant to write", k)
			}
		}
		for _, d := range []string{"/tmp", "/home"} {
			for _, k := range sortedKeys(w.FS.Tree(d)) {
				return fail("created", "the command leaves %s behind", k)
			}
		}
		return nil
	}
	w0, p0 := sc.run(&ProgPlan{})
	st.World(w0, p0, false)
	st.Count(sc.Kind + "/" + p0[0].Reason)
	if v := judge(&ProgPlan{}, w0, p0); v != nil {
		return v
	}
	r := simrt.NewRNG(sc.Seed, "c19")
	var plans []*ProgPlan
	if sc.Plan != nil {
		plans = []*ProgPlan{sc.Plan}
	} else {
		for _, f := range faultPlans(r, p0[0].Trace, 50) {
			plans = append(plans, &ProgPlan{Faults: f})
		}
		plans = append(plans, sc.deeper(r, st, plans, func(tr []simrt.Event) []simrt.Event { return tr })...)
		for i := 0; i < 15; i++ {
			plans = append(plans, &ProgPlan{Faults: []simrt.Fault{{At: r.N(len(p0[0].Trace) + 1), Kind: simrt.Pick(r, "kill", "kill-mid", "kill-after"), N: r.N(30)}}})
		}
		plans = append(plans, &ProgPlan{FDLimit: r.In(4, 7)}, &ProgPlan{Cap: max(1, w0.FS.Used()-r.N(300))},
			&ProgPlan{MapMode: 2, MapSeed: r.Uint64(), SliceMode: r.In(1, 3), SliceSeed: r.Uint64()})
	}
	for _, pl := range plans {
		w, ps := sc.run(pl)
		st.World(w, ps, true)
		if v := judge(pl, w, ps); v != nil {
			return v
		}
	}
	return nil
}

// ---------------------------------------------------------------------------------------------------- C20

// PreviewSc formats some files of a ledger in every way there is.
type PreviewSc struct {
	Files   Files
	Targets []string // formatted, in this order
	Opt     string   `json:",omitempty"`
	Seed    uint64
	Faults  []simrt.Fault `json:",omitempty"` // of the first attempt to rewrite
	Cfg     simrt.Cfg
	Shift   time.Duration
}

func init() {
	register(&Check{
		ID: "C20", Level: "exploration", Full: true, Quick: 12000, Thor: 500000,
		Rule:   "Each scenario is a generated ledger of which some files are formatted: each printed alone, all printed together, all rewritten in place (the first attempt possibly killed or hit by a fault, then repeated), and all through modify without a change; map iteration order, read slicing and time of day differ between the runs. All must give the same text for each file.",
		Real:   []string{"coin format, coin modify with the coin, check, rex packages, instrumented from the working tree"},
		Stub:   []string{"operating system: disk, descriptors, clock, environment", "map iteration order, temporary file names (seeded)"},
		Assume: []string{"The files hold transactions only, with dates that carry their year."},
		Gen: func(r *simrt.RNG, i int) any {
			l := genLedger(r, LedgerOpts{MaxTxns: 8, Multi: r.P(60), Prices: true, Notes: true, SameDay: r.P(40)})
			if r.P(5) {
				for i, n := 0, simrt.Pick(r, 40, 40, 40, 800); i < n; i++ {
					l.Txns = append(l.Txns, l.genTxn(r, LedgerOpts{Multi: true, Notes: true}))
				}
			}
			if r.P(60) {
				bal := map[int]int64{}
				for i := range l.Txns {
					l.vary(r, &l.Txns[i], bal)
				}
			}
			sc := &PreviewSc{Files: l.layout(r), Seed: r.Uint64(), Opt: simrt.Pick(r, "", "", "", "-t", "-ledger")}
			tf := txnFiles(sc.Files)
			simrt.Shuffle(r, tf)
			sc.Targets = tf[:r.In(1, len(tf))]
			if r.P(60) {
				sc.Faults = []simrt.Fault{{At: r.N(60), Kind: simrt.Pick(r, "kill", "kill-mid", "kill-after", "EIO", "ENOSPC", "short"), N: r.N(30)}}
			}
			sc.Cfg = simrt.Cfg{MapMode: r.N(4), MapSeed: r.Uint64(), SliceMode: r.N(4), SliceSeed: r.Uint64(), TempSeed: r.Uint64()}
			sc.Shift = time.Duration(r.In(-10*3600, 13*3600)) * time.Second
			return sc
		},
		New: func() any { return &PreviewSc{} },
		Run: runC20,
		Shrink: func(x any) (out []any) {
			sc := x.(*PreviewSc)
			if len(sc.Faults) > 0 {
				n := *sc
				n.Faults = nil
				out = append(out, &n)
			}
			for i := range sc.Targets {
				if len(sc.Targets) > 1 {
					n := *sc
					n.Targets = append(append([]string{}, sc.Targets[:i]...), sc.Targets[i+1:]...)
					out = append(out, &n)
				}
			}
			isT := map[string]bool{}
			for _, t := range sc.Targets {
				isT[t] = true
			}
			for _, f := range shrinkFiles(sc.Files, func(k string) bool {
				return isT[k] || strings.HasSuffix(k, "accounts.coin") || strings.HasSuffix(k, "commodities.coin")
			}) {
				n := *sc
				n.Files = f
				out = append(out, &n)
			}
			return out
		},
	})
}

func runC20(x any, st *Stats) *Violation {
	sc := x.(*PreviewSc)
	r := simrt.NewRNG(sc.Seed, "c20")
	opts := func(a ...string) []string {
		if sc.Opt != "" {
			a = append(a, sc.Opt)
		}
		return a
	}
	world := func(c simrt.Cmd, cfg simrt.Cfg, shift time.Duration, files Files) (*simrt.World, *simrt.Proc, []*simrt.Proc) {
		w := newWorld(files, baseTime.Add(shift))
		c.Cfg = cfg
		ps := w.Run(c)
		st.World(w, ps, shift != 0 || len(cfg.Faults) > 0)
		return w, ps[0], ps
	}
	alone := map[string]string{}
	all := ""
	for _, t := range sc.Targets {
		w, p, ps := world(cmd(append(opts("coin", "format"), t)...), simrt.Cfg{}, 0, sc.Files)
		if p.Reason == "hang" {
			return &Violation{Sig: "hang", Msg: "coin format does not end", Detail: detail(w, ps), Sc: sc}
		}
		if !p.OK() {
			st.Skipped++
			return nil
		}
		alone[t] = string(p.Stdout)
		all += string(p.Stdout)
	}
	fail := func(w *simrt.World, ps []*simrt.Proc, sig, msg, want, got string) *Violation {
		return &Violation{Sig: sig, Msg: msg + ": " + firstDiff(want, got), Detail: detail(w, ps), Sc: sc}
	}
	var rel []string
	for _, t := range sc.Targets {
		rel = append(rel, relpath(r, t))
	}
	w, p, ps := world(cmd(append(opts("coin", "fmt"), rel...)...), sc.Cfg, sc.Shift, sc.Files)
	if !p.OK() || string(p.Stdout) != all {
		return fail(w, ps, "together", "formatting several files at once ("+p.How()+") prints something else than formatting each of them", all, string(p.Stdout))
	}
	// in place
	files := sc.Files
	cfg := sc.Cfg
	cfg.Faults = sc.Faults
	c := cmd(append(opts("coin", "format", "-i"), rel...)...)
	rewritten := map[string]bool{}
	for try := 0; ; try++ {
		w, p, ps := world(c, cfg, sc.Shift, files)
		files = w.FS.Tree("/w")
		for _, t := range sc.Targets {
			switch {
			case files[t] == alone[t]:
				rewritten[t] = true
			case sc.Opt == "-ledger" && rewritten[t]: // not meant to be read back
			case p.OK():
				return fail(w, ps, "in-place", "coin format -i "+t+" writes something else than coin format prints", alone[t], files[t])
			}
		}
		if p.OK() {
			break
		}
		if try > 0 || len(sc.Faults) == 0 {
			if sc.Opt == "-ledger" && len(sc.Faults) > 0 {
				break
			}
			return fail(w, ps, "in-place-fails", "coin format -i "+p.How()+" although coin format succeeds", all, string(p.Stderr))
		}
		cfg.Faults = nil
		cfg.TempSeed++
	}
	if sc.Opt != "" {
		return nil
	}
	// modifying nothing
	w, p, ps = world(cmd(append([]string{"coin", "modify"}, rel...)...), sc.Cfg, 0, sc.Files)
	if !p.OK() {
		return fail(w, ps, "modify-fails", "coin modify "+p.How()+" although coin format succeeds", "", string(p.Stderr))
	}
	after := w.FS.Tree("/w")
	for _, t := range sc.Targets {
		if after[t] != alone[t] {
			return fail(w, ps, "modify", "coin modify without any change writes "+t+" differently than coin format prints it", alone[t], after[t])
		}
	}
	// and the result is stable
	w, p, ps = world(cmd(append([]string{"coin", "format"}, rel...)...), simrt.Cfg{}, sc.Shift, files)
	if !p.OK() || string(p.Stdout) != all {
		return fail(w, ps, "again", "formatting the formatted files ("+p.How()+") changes them", all, string(p.Stdout))
	}
	return nil
}
