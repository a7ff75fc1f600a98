package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"vsim/simrt"
)

// ProgSc is one program with its input files; C04, C05 and C06 run it in perturbed worlds.
type ProgSc struct {
	Kind  string
	Files Files
	Cmd   simrt.Cmd
	Now   time.Time
	Seed  uint64
	Plan  *ProgPlan `json:",omitempty"` // only this perturbation
}

// ProgPlan is one perturbed environment.
type ProgPlan struct {
	Faults    []simrt.Fault `json:",omitempty"`
	FDLimit   int           `json:",omitempty"`
	Cap       int           `json:",omitempty"`
	MapMode   int           `json:",omitempty"`
	MapSeed   uint64        `json:",omitempty"`
	SliceMode int           `json:",omitempty"`
	SliceSeed uint64        `json:",omitempty"`
	Shift     time.Duration `json:",omitempty"` // of the time of day
	Order     uint64        `json:",omitempty"` // creation order of the files
	Extra     Files         `json:",omitempty"` // unrelated files
}

// genProg makes a program run. Which kinds of programs is decided by kinds.
func genProg(r *simrt.RNG, kinds ...string) *ProgSc {
	sc := &ProgSc{Kind: simrt.Pick(r, kinds...), Now: baseTime, Seed: r.Uint64()}
	l := genLedger(r, LedgerOpts{MaxTxns: 8, Multi: r.P(50), Prices: true, Notes: true})
	if r.P(1) { // larger than any buffer
		for i, n := 0, r.In(600, 900); i < n; i++ {
			l.Txns = append(l.Txns, l.genTxn(r, LedgerOpts{Multi: len(l.Comms) > 1, Notes: true}))
		}
	}
	switch sc.Kind {
	case "report":
		sc.Files = l.layout(r)
		if r.P(35) {
			includeLayout(r, sc.Files)
		}
		if r.P(20) {
			switch r.N(4) {
			case 0:
				sc.Cmd = cmd("coin", "commodities")
			case 1:
				sc.Cmd = cmd("coin", "commodities", "-p")
			case 2:
				a := []string{"coin", "com"}
				if r.P(50) {
					a = append(a, "-f")
				}
				sc.Cmd = cmd(append(a, simrt.Pick(r, l.Comms...).Id)...)
			case 3:
				sc.Cmd = cmd("coin", "accounts")
			}
			break
		}
		sc.Cmd = cmd(append([]string{"coin"}, genReportArgs(r, l, false)...)...)
	case "format":
		sc.Files = l.layout(r)
		a := []string{"coin", simrt.Pick(r, "format", "fmt")}
		if r.P(20) {
			a = append(a, simrt.Pick(r, "-t", "-ledger"))
		}
		for _, f := range txnFiles(sc.Files) {
			if r.P(60) || len(a) == 2 {
				a = append(a, relpath(r, f))
			}
		}
		sc.Cmd = cmd(a...)
	case "test":
		fn := "/w/t/sample.test"
		text := genTestFile(r, l)
		w := newWorld(Files{fn: text}, sc.Now)
		w.Run(cmd("coin", "test", fn))
		text, _ = w.FS.Read(fn) // results filled in
		if r.P(30) {
			text = strings.Replace(text, "1", "7", 3)
		}
		sc.Files = Files{fn: text}
		a := []string{"coin", "test", fn}
		if r.P(40) {
			a = []string{"coin", "test", "-v", fn}
		}
		sc.Cmd = cmd(a...)
	case "ofx":
		ss, ids, accts := genStmts(r, l, 6)
		rules := genRules(r, l, ids, accts, true)
		if r.P(30) { // accounts known by their tag only, which another account may have too
			rules.Groups = rules.Groups[:r.N(len(rules.Groups))]
			for k := r.N(3); k > 0; k-- {
				if a := &l.Accts[r.N(len(l.Accts))]; a.OFX == "" {
					a.OFX = ids[r.N(len(ids))]
				}
			}
		}
		sc.Files = l.layout(r)
		sc.Files[db+"/ofx.rules"] = rules.text(l)
		fl := simrt.Pick(r, 0, 0, 1)
		a := []string{"ofx2coin"}
		if fl == 1 || r.P(20) {
			a = append(a, "-bmo")
		}
		if r.P(15) {
			a = append(a, "-keep-dupes")
		}
		switch r.N(12) {
		case 0:
			a = append(a, "-ids")
		case 1:
			sc.Files[db+"/ofx.rules"] = genRules(r, l, ids, accts, false).text(l)
			a = append(a, "-rules")
		}
		for i := range ss {
			fn := fmt.Sprintf("/w/s%d.qfx", i)
			sc.Files[fn] = ofxText(ss[i:i+1], l, fl)
			a = append(a, relpath(r, fn))
		}
		sc.Cmd = cmd(a...)
	case "csv":
		m := genCSV(r, l)
		sc.Files = l.layout(r)
		a := []string{"csv2coin", "-source", "src"}
		if r.P(8) {
			a = []string{"csv2coin", "-rules"}
		}
		sc.Files[db+"/csv.rules"] = m.rulesText(l)
		for i, recs := range m.Recs {
			fn := fmt.Sprintf("/w/c%d.csv", i)
			sc.Files[fn] = m.fileText(l, recs)
			a = append(a, relpath(r, fn))
		}
		sc.Cmd = cmd(a...)
	case "gen":
		sc.Files = Files{"/w/out/keep": ""}
		a := []string{"gen2coin"}
		b := r.N(100)
		a = append(a, "-b", dayText(dayOf(2023, 1, 1)+int64(b)), "-e", dayText(dayOf(2023, 1, 20)+int64(b+r.N(60))))
		if r.P(20) {
			a = append(a, "-wb")
		}
		switch r.N(5) {
		case 0:
		case 1:
			a = append(a, "-j")
		case 2:
			a = append(a, "-y", "/w/out")
		case 3:
			a = append(a, "-m", "/w/out")
		case 4:
			a = append(a, "out")
		}
		sc.Cmd = cmd(a...)
		sc.Cmd.Cfg.RandSeed = r.Uint64()
	case "gc":
		g := genGC(r, 6)
		sc.Files = Files{"/w/book.xml.gz": g.xml(), "/w/out/keep": ""}
		a := []string{"gc2coin", "-gnucashdb", "/w/book.xml.gz"}
		if r.P(20) {
			a = append(a, "-l")
		}
		sc.Cmd = cmd(a...)
		if r.P(60) {
			sc.Cmd.Env["COINDB"] = "/w/out"
			if r.P(60) && len(g.Txns) > 0 && len(g.Prices) > 0 {
				sc.Cmd.Args = append(sc.Cmd.Args, "-y")
			}
		} else {
			delete(sc.Cmd.Env, "COINDB")
		}
	case "html":
		sc.Files = l.layout(r)
		if r.P(35) {
			includeLayout(r, sc.Files)
		}
		sc.Cmd = cmd("coin2html")
	default:
		panic(sc.Kind)
	}
	return sc
}

// includeLayout moves the transaction files into a directory and includes them from transactions.coin.
func includeLayout(r *simrt.RNG, f Files) {
	var b strings.Builder
	pat := r.P(50)
	for i, k := range txnFiles(f) {
		n := fmt.Sprintf("%s/inc/part%d.coin", db, i)
		text := f[k]
		delete(f, k)
		f[n] = text
		if !pat {
			b.WriteString("include " + simrt.Pick(r, "inc/", "$COINDB/inc/", "/db/inc/", "../db/inc/") + fmt.Sprintf("part%d.coin\n", i))
		}
	}
	if pat {
		b.WriteString("include " + simrt.Pick(r, "inc/*.coin", "$COINDB/inc/*.coin", "i*/part*.coin", "inc/part?.coin") + "\n")
	}
	f[db+"/transactions.coin"] = b.String()
}

func (sc *ProgSc) run(pl *ProgPlan) (*simrt.World, []*simrt.Proc) {
	w := newWorld(nil, sc.Now.Add(pl.Shift))
	names := sortedKeys(sc.Files)
	if pl.Order != 0 {
		simrt.Shuffle(simrt.NewRNG(pl.Order, "order"), names)
	}
	for _, k := range sortedKeys(pl.Extra) {
		w.FS.Put(k, pl.Extra[k])
	}
	for _, k := range names {
		if strings.HasSuffix(k, ".xml.gz") {
			w.FS.Put(k, gz(sc.Files[k]))
		} else {
			w.FS.Put(k, sc.Files[k])
		}
	}
	w.FS.Capacity = pl.Cap
	c := sc.Cmd
	c.Cfg.Faults = pl.Faults
	c.Cfg.FDLimit = pl.FDLimit
	c.Cfg.MapMode, c.Cfg.MapSeed = pl.MapMode, pl.MapSeed
	c.Cfg.SliceMode, c.Cfg.SliceSeed = pl.SliceMode, pl.SliceSeed
	return w, w.Run(c)
}

// produced lists what the run left on the disk that was not there before, or was changed.
func (sc *ProgSc) produced(w *simrt.World, pl *ProgPlan) Files {
	out := w.FS.Tree("/w")
	for k, v := range sc.Files {
		if strings.HasSuffix(k, ".xml.gz") || out[k] == v {
			delete(out, k)
		}
	}
	for k := range pl.Extra {
		delete(out, k)
	}
	return out
}

func sameFiles(a, b Files) string {
	ks := map[string]bool{}
	for k := range a {
		ks[k] = true
	}
	for k := range b {
		ks[k] = true
	}
	for _, k := range sortedKeys(ks) {
		x, ok1 := a[k]
		y, ok2 := b[k]
		if ok1 != ok2 || x != y {
			return k + ": " + firstDiff(x, y)
		}
	}
	return ""
}

// sortLines makes the order of entries irrelevant, for files whose order is not part of the comparison.
func sortLines(f Files) Files {
	out := Files{}
	for k, v := range f {
		l := strings.Split(v, "\n")
		sort.Strings(l)
		out[k] = strings.Join(l, "\n")
	}
	return out
}

func shrinkProg(x any) (out []any) {
	sc := x.(*ProgSc)
	sc.Plan = nil
	for _, f := range shrinkFiles(sc.Files, func(k string) bool {
		return strings.HasSuffix(k, "accounts.coin") || strings.HasSuffix(k, "commodities.coin") || strings.HasPrefix(k, "/w/out")
	}) {
		n := *sc
		n.Files = f
		out = append(out, &n)
	}
	for i := range sc.Cmd.Args {
		if i > 1 && strings.HasPrefix(sc.Cmd.Args[i], "-") && len(sc.Cmd.Args[i]) == 2 {
			n := *sc
			n.Cmd.Args = append(append([]string{}, sc.Cmd.Args[:i]...), sc.Cmd.Args[i+1:]...)
			out = append(out, &n)
		}
	}
	return out
}

var progReal = []string{"coin (all reporting commands, format, test), ofx2coin, csv2coin, gen2coin, gc2coin, coin2html with the coin, gnucash, check, rex packages, instrumented from the working tree", "ofxgo, encoding/csv, encoding/xml, compress/gzip, encoding/json, bufio, regexp, flag"}
var progStub = []string{"operating system: disk, descriptors, standard streams, clock, environment", "map iteration order, random numbers (seeded)", "coin2html's embedded page (placeholder text)"}

// progFail builds the violation of a perturbed run.
func progFail(sc *ProgSc, pl *ProgPlan, w *simrt.World, ps []*simrt.Proc, sig, f string, a ...any) *Violation {
	n := *sc
	n.Plan = pl
	return &Violation{Sig: sig, Msg: strings.Join(sc.Cmd.Args, " ") + ": " + fmt.Sprintf(f, a...), Detail: detail(w, ps), Sc: &n}
}

// ---------------------------------------------------------------------------------------------------- C04

func init() {
	register(&Check{
		ID: "C04", Level: "fault_enumeration", Quick: 4000, Thor: 80000,
		Rule:   "Each scenario is one program with generated input (ledger with or without includes, OFX, CSV, GnuCash, test file); after a fault-free twin run, every open, read, stat and directory listing fails with every error that applies (a listing after having returned some entries), plus seeded pairs of faults, low descriptor limits and read slicings (single bytes, small, random). Exit 0 is allowed only with exactly the twin's output; slicings must give the twin's output and status.",
		Real:   progReal,
		Stub:   progStub,
		Assume: []string{"A failing read transfers nothing; a failing directory listing may have returned any prefix of the entries."},
		Gen: func(r *simrt.RNG, i int) any {
			return genProg(r, "report", "report", "report", "report", "format", "test", "ofx", "ofx", "csv", "gc", "html")
		},
		New:    func() any { return &ProgSc{} },
		Run:    runC04,
		Shrink: shrinkProg,
	})
}

func runC04(x any, st *Stats) *Violation {
	sc := x.(*ProgSc)
	w0, p0 := sc.run(&ProgPlan{})
	st.World(w0, p0, false)
	st.Count(sc.Kind + "/" + p0[0].Reason + fmt.Sprint(p0[0].Status))
	if p0[0].Reason == "hang" {
		return progFail(sc, &ProgPlan{}, w0, p0, "hang", "the command does not end")
	}
	files0 := sc.produced(w0, &ProgPlan{})
	r := simrt.NewRNG(sc.Seed, "c04")
	var plans []*ProgPlan
	if sc.Plan != nil {
		plans = []*ProgPlan{sc.Plan}
	} else {
		for m := 1; m <= 3; m++ {
			plans = append(plans, &ProgPlan{SliceMode: m, SliceSeed: r.Uint64()})
		}
		if p0[0].OK() {
			mask := func(trace []simrt.Event) (tr []simrt.Event) {
				for _, e := range trace {
					switch e.Op {
					case "open", "read", "stat", "readdir":
					default:
						e.Op = "-"
					}
					tr = append(tr, e)
				}
				return tr
			}
			for _, f := range faultPlans(r, mask(p0[0].Trace), 70) {
				pl := &ProgPlan{Faults: f}
				if r.P(15) {
					pl.SliceMode, pl.SliceSeed = r.In(1, 3), r.Uint64()
				}
				plans = append(plans, pl)
			}
			plans = append(plans, sc.deeper(r, st, plans[3:], mask)...)
			for fd := 4; fd < 8; fd++ {
				plans = append(plans, &ProgPlan{FDLimit: fd})
			}
		}
	}
	for _, pl := range plans {
		w, ps := sc.run(pl)
		p := ps[0]
		st.World(w, ps, true)
		fail := func(sig, f string, a ...any) *Violation { return progFail(sc, pl, w, ps, sig, f, a...) }
		if p.Reason == "hang" {
			return fail("hang", "the command does not end")
		}
		files := sc.produced(w, pl)
		same := string(p.Stdout) == string(p0[0].Stdout) && sameFiles(files, files0) == ""
		if len(pl.Faults) == 0 && pl.FDLimit == 0 {
			if p.OK() != p0[0].OK() || !same && p.OK() {
				return fail("slicing", "how the input is sliced changes the result: %s instead of %s; %s", p.How(), p0[0].How(), firstDiff(string(p.Stdout), string(p0[0].Stdout)))
			}
			continue
		}
		if p.OK() && !same {
			d := firstDiff(string(p.Stdout), string(p0[0].Stdout))
			if d == "equal" {
				d = sameFiles(files, files0)
			}
			return fail("silent", "exit status 0 although part of the input could not be read; output differs from the full one: %s", d)
		}
	}
	return nil
}

// ---------------------------------------------------------------------------------------------------- C05

func init() {
	register(&Check{
		ID: "C05", Level: "fault_enumeration", Quick: 2000, Thor: 80000,
		Rule:   "Each scenario is one program with generated input that prints or writes files; after a fault-free twin run, every create, write, sync and close fails with every error that applies (a write after any part of it; disk-full also persistently), plus seeded pairs and small disks. Exit 0 is allowed only if standard output and every output file equal the twin's.",
		Real:   progReal,
		Stub:   progStub,
		Assume: []string{"A failing write has transferred a prefix.", "A failing close loses what was not synced.", "A closed pipe kills the process with SIGPIPE, as Go programs are by default, and is therefore not simulated."},
		Gen: func(r *simrt.RNG, i int) any {
			return genProg(r, "report", "report", "report", "format", "test", "ofx", "ofx", "csv", "csv", "gen", "gen", "gc", "gc", "html")
		},
		New:    func() any { return &ProgSc{} },
		Run:    runC05,
		Shrink: shrinkProg,
	})
}

func runC05(x any, st *Stats) *Violation {
	sc := x.(*ProgSc)
	w0, p0 := sc.run(&ProgPlan{})
	st.World(w0, p0, false)
	st.Count(sc.Kind + "/" + p0[0].Reason + fmt.Sprint(p0[0].Status))
	if !p0[0].OK() {
		st.Skipped++
		return nil
	}
	files0 := sc.produced(w0, &ProgPlan{})
	r := simrt.NewRNG(sc.Seed, "c05")
	var plans []*ProgPlan
	if sc.Plan != nil {
		plans = []*ProgPlan{sc.Plan}
	} else {
		mask := func(trace []simrt.Event) (tr []simrt.Event) {
			for _, e := range trace {
				switch e.Op {
				case "create", "write", "sync", "close", "rename", "mkdir", "trunc":
					if e.Path == "<stderr>" {
						e.Op = "-"
					}
				default:
					e.Op = "-"
				}
				tr = append(tr, e)
			}
			return tr
		}
		for _, f := range faultPlans(r, mask(p0[0].Trace), 90) {
			plans = append(plans, &ProgPlan{Faults: f})
		}
		plans = append(plans, sc.deeper(r, st, plans, mask)...)
		used := w0.FS.Used()
		size := 0
		for _, v := range files0 {
			size += len(v)
		}
		for i := 0; i < 4 && size > 0; i++ {
			plans = append(plans, &ProgPlan{Cap: max(1, used-r.N(size))})
		}
	}
	for _, pl := range plans {
		w, ps := sc.run(pl)
		p := ps[0]
		st.World(w, ps, true)
		fail := func(sig, f string, a ...any) *Violation { return progFail(sc, pl, w, ps, sig, f, a...) }
		if p.Reason == "hang" {
			return fail("hang", "the command does not end")
		}
		if !p.OK() {
			continue
		}
		if string(p.Stdout) != string(p0[0].Stdout) {
			return fail("stdout", "exit status 0 although the output could not be written completely: %s", firstDiff(string(p.Stdout), string(p0[0].Stdout)))
		}
		if d := sameFiles(sc.produced(w, pl), files0); d != "" {
			return fail("files", "exit status 0 although an output file could not be written completely: %s", d)
		}
	}
	return nil
}

// deeper returns plans in which another operation fails after the command went on from the first failure.
func (sc *ProgSc) deeper(r *simrt.RNG, st *Stats, plans []*ProgPlan, mask func([]simrt.Event) []simrt.Event) (out []*ProgPlan) {
	for i := 0; i < 4 && len(plans) > 0; i++ {
		pl := plans[r.N(len(plans))]
		if len(pl.Faults) != 1 {
			continue
		}
		w, ps := sc.run(pl)
		st.World(w, ps, false)
		for _, fs := range secondFault(r, pl.Faults[0], mask(ps[0].Trace), 4) {
			out = append(out, &ProgPlan{Faults: fs})
		}
	}
	return out
}

// ---------------------------------------------------------------------------------------------------- C06

func init() {
	register(&Check{
		ID: "C06", Level: "exploration", Full: true, Quick: 10000, Thor: 400000,
		Rule:   "Each scenario is one program with generated input, run 13 times: map iteration sorted, reversed, shuffled and rotated, directory entries in other orders, reads sliced differently, another time of the same day, other files lying around. Standard output and exit status must be those of the first run.",
		Real:   progReal,
		Stub:   progStub,
		Assume: []string{"Iteration over a map visits its entries in any order (the simulator draws permutations)."},
		Gen: func(r *simrt.RNG, i int) any {
			return genProg(r, "report", "report", "report", "report", "report", "format", "test", "ofx", "ofx", "csv", "gc", "html")
		},
		New:    func() any { return &ProgSc{} },
		Run:    runC06,
		Shrink: shrinkProg,
	})
}

func runC06(x any, st *Stats) *Violation {
	sc := x.(*ProgSc)
	w0, p0 := sc.run(&ProgPlan{})
	st.World(w0, p0, false)
	st.Count(sc.Kind + "/" + p0[0].Reason + fmt.Sprint(p0[0].Status))
	if p0[0].Reason == "hang" {
		return progFail(sc, &ProgPlan{}, w0, p0, "hang", "the command does not end")
	}
	r := simrt.NewRNG(sc.Seed, "c06")
	var plans []*ProgPlan
	if sc.Plan != nil {
		plans = []*ProgPlan{sc.Plan}
	} else {
		plans = append(plans, &ProgPlan{MapMode: 1})
		for i := 0; i < 8; i++ {
			plans = append(plans, &ProgPlan{MapMode: simrt.Pick(r, 2, 2, 3), MapSeed: r.Uint64()})
		}
		plans = append(plans, &ProgPlan{Order: 1 + r.Uint64()>>1}, &ProgPlan{Shift: time.Duration(r.In(-10*3600, 13*3600)) * time.Second},
			&ProgPlan{SliceMode: r.In(1, 3), SliceSeed: r.Uint64(), MapMode: 2, MapSeed: r.Uint64(), Order: 1 + r.Uint64()>>1, Shift: time.Duration(r.In(-10*3600, 13*3600)) * time.Second})
		extra := Files{}
		for _, k := range []string{"/notes.txt", "/2023.coin~", "/2023.coin123456", "/2023.coin.bak", "/x.prices2", "/sub/deep.coin", "/README", "/coin", "/prices"} {
			if r.P(50) {
				extra[db+k] = "garbage that is no ledger\n"
			}
		}
		plans = append(plans, &ProgPlan{Extra: extra, MapMode: r.N(4), MapSeed: r.Uint64()})
	}
	files0 := sc.produced(w0, &ProgPlan{})
	for _, pl := range plans {
		w, ps := sc.run(pl)
		p := ps[0]
		st.World(w, ps, true)
		fail := func(sig, f string, a ...any) *Violation { return progFail(sc, pl, w, ps, sig, f, a...) }
		if p.OK() != p0[0].OK() {
			return fail("status", "the same command on the same files ends differently: %s, then %s", p0[0].How(), p.How())
		}
		if string(p.Stdout) != string(p0[0].Stdout) && p.OK() {
			return fail("stdout", "the same command on the same files prints something else: %s", firstDiff(string(p0[0].Stdout), string(p.Stdout)))
		}
		if d := sameFiles(files0, sc.produced(w, pl)); d != "" && p.OK() && sc.Kind == "gc" {
			return fail("files", "the same command on the same files writes something else: %s", d)
		}
	}
	return nil
}
