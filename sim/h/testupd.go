package main

import (
	"fmt"
	"os"
	"strings"

	"vsim/simrt"
)

// coin test: results filled in.

// TPart is a piece of a test file: text, an inclusion or a test.
type TPart struct {
	Text string   `json:",omitempty"`
	Inc  string   `json:",omitempty"` // path as written
	Args []string `json:",omitempty"` // test command
	Res  string   `json:",omitempty"` // state of the result: "" empty, right, wrong
	Bad  int      `json:",omitempty"` // way in which it is wrong
	End  string   `json:",omitempty"` // the end line
}

type TFile struct {
	Path  string
	Parts []TPart
}

// TRun is one run of coin test.
type TRun struct {
	Verbose bool          `json:",omitempty"`
	Clear   []int         `json:",omitempty"` // results removed before the run
	Spoil   []int         `json:",omitempty"` // results spoiled before the run
	Faults  []simrt.Fault `json:",omitempty"`
	Map     int           `json:",omitempty"`
	Slice   int           `json:",omitempty"`
	Seed    uint64        `json:",omitempty"`
}

type UpdSc struct {
	Files []TFile // the first one is the one tested
	Rel   bool
	NoEOL bool
	Runs  []TRun
}

func genUpd(r *simrt.RNG) *UpdSc {
	l := genLedger(r, LedgerOpts{MaxTxns: 7, Multi: r.P(50), Prices: r.P(50), Notes: r.P(70), Asserts: r.P(20), DayLo: dayOf(2022, 11, 1), DayHi: dayOf(2024, 2, 1), PlainDates: true})
	sc := &UpdSc{Rel: r.P(50), NoEOL: r.P(30)}
	test := func() TPart {
		p := TPart{End: simrt.Pick(r, "end test", "end test", "end test", "  end test", "end test  ")}
		switch {
		case r.P(15):
			p.Args = []string{simrt.Pick(r, "format", "fmt", "f")}
			if r.P(40) {
				p.Args = append(p.Args, "-t")
			}
			if r.P(15) {
				p.Args = append(p.Args, "-ledger")
			}
		case r.P(4):
			p.Args = []string{simrt.Pick(r, "frobnicate", "end", "balanced")}
		default:
			for {
				p.Args = genReportArgs(r, l, r.P(70))
				if !strings.ContainsAny(strings.Join(p.Args, ""), " \t") && len(p.Args) > 0 && p.Args[0] != "format" {
					break
				}
			}
		}
		switch x := r.N(10); {
		case x < 2:
			p.Res = "wrong"
			p.Bad = r.N(6)
		case x < 5:
			p.Res = "right"
		}
		return p
	}
	tests := func(n int) (out []TPart) {
		for i := 0; i < n; i++ {
			out = append(out, test())
			switch r.N(6) {
			case 0:
				out = append(out, TPart{Text: "\n"})
			case 1:
				out = append(out, TPart{Text: "; " + phrase(r, 1, 4) + "\n"})
			case 2:
				out = append(out, TPart{Text: "\n\n   \n# " + phrase(r, 1, 3) + "\n\n"})
			case 3:
				out = append(out, TPart{Text: "\n* Notes\n"})
			}
		}
		return out
	}
	// the ledger in pieces
	pieces := []string{l.acctText() + "\n"}
	for i := range l.Txns {
		pieces = append(pieces, l.txnsText(l.Txns[i:i+1])+"\n")
	}
	pieces = append(pieces, l.priceText(l.Prices)+"\n")
	if r.P(2) { // larger than any buffer
		for i := range pieces {
			pieces[i] += strings.Repeat("; "+phrase(r, 8, 12)+"\n", r.N(2000))
		}
	}
	root := TFile{Path: "/w/t/" + simrt.Pick(r, "x.test", "x.test", "a:b.test", "sample 1.test", "2024.coin")}
	var subs []TFile
	dir := "/w/t"
	names := []string{"basic.inc", "sub/more.inc", "part:2.inc", "sub/deep/z.inc"}
	nsub := simrt.Pick(r, 0, 0, 1, 1, 2, 3)
	for i := 0; i < nsub; i++ {
		subs = append(subs, TFile{Path: dir + "/" + names[i]})
	}
	// deal the pieces
	parts := make([][]TPart, nsub+1)
	for _, p := range pieces {
		k := r.N(nsub + 1)
		parts[k] = append(parts[k], TPart{Text: p})
		if r.P(25) {
			parts[k] = append(parts[k], tests(r.In(1, 2))...)
		}
	}
	for k := range parts {
		if r.P(60) {
			parts[k] = append(parts[k], tests(r.In(1, 4))...)
		}
	}
	// each sub file is included by one before it
	rel := func(from, to string) string {
		d := from[:strings.LastIndexByte(from, '/')]
		if strings.HasPrefix(to, d+"/") {
			return to[len(d)+1:]
		}
		up := ""
		for !strings.HasPrefix(to, d+"/") {
			d = d[:strings.LastIndexByte(d, '/')]
			up += "../"
		}
		return up + to[len(d)+1:]
	}
	all := append([]TFile{root}, subs...)
	for k := nsub; k > 0; k-- {
		from := r.N(k)
		at := r.N(len(parts[from]) + 1)
		inc := TPart{Inc: rel(all[from].Path, all[k].Path)}
		parts[from] = append(parts[from][:at:at], append([]TPart{inc}, parts[from][at:]...)...)
	}
	// tests shared by several inclusions
	if r.P(12) {
		f := TFile{Path: dir + "/shared.inc"}
		k := len(all)
		all = append(all, f)
		parts = append(parts, append([]TPart{{Text: "; shared\n"}}, tests(r.In(1, 3))...))
		for i, n := 0, r.In(1, 3); i < n; i++ {
			from := r.N(k)
			at := r.N(len(parts[from]) + 1)
			parts[from] = append(parts[from][:at:at], append([]TPart{{Inc: rel(all[from].Path, f.Path)}}, parts[from][at:]...)...)
		}
	}
	for k := range all {
		all[k].Parts = parts[k]
	}
	if r.P(15) { // changes the transactions, hence last
		a := genModifyArgs(r, l)
		if !strings.Contains(strings.Join(a, ""), " ") {
			all[0].Parts = append(all[0].Parts, TPart{Args: a, End: "end test"})
		}
	}
	all[0].Parts = append([]TPart{{Text: l.commText() + "\n"}}, all[0].Parts...)
	sc.Files = all
	for i, n := 0, r.In(1, 4); i < n; i++ {
		run := TRun{Verbose: r.P(30), Map: r.N(4), Slice: simrt.Pick(r, 0, 0, 1, 2, 3), Seed: r.Uint64()}
		if i > 0 {
			for r.P(50) {
				run.Clear = append(run.Clear, r.N(1000))
			}
			if r.P(25) {
				run.Spoil = append(run.Spoil, r.N(1000))
			}
		}
		if r.P(30) {
			f := simrt.Fault{At: r.N(50), Kind: simrt.Pick(r, "kill", "kill-mid", "kill-after", "EIO", "ENOSPC", "short", "EINTR"), N: r.N(30), Sticky: r.P(20)}
			if r.P(40) {
				f.At = r.N(250)
			}
			run.Faults = append(run.Faults, f)
		}
		sc.Runs = append(sc.Runs, run)
	}
	return sc
}

// text renders a file; res gives the result of the i-th test of all files.
func (sc *UpdSc) text(k int, res func(f, i int) string) string {
	var b strings.Builder
	for i, p := range sc.Files[k].Parts {
		switch {
		case p.Inc != "":
			fmt.Fprintf(&b, "include %s\n", p.Inc)
		case p.Args != nil:
			fmt.Fprintf(&b, "test %s\n%s%s\n", strings.Join(p.Args, " "), res(k, i), p.End)
		default:
			b.WriteString(p.Text)
		}
	}
	s := b.String()
	if k == 0 && sc.NoEOL && len(sc.Files[k].Parts) > 0 && sc.Files[k].Parts[len(sc.Files[k].Parts)-1].Args != nil {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

func spoil(res string, how int) string {
	ls := strings.SplitAfter(strings.TrimSuffix(res, "\n"), "\n")
	switch how {
	case 0:
		return res + "one more line\n"
	case 1:
		return "one more line\n" + res
	case 2:
		if len(ls) > 1 {
			return strings.Join(ls[:len(ls)-1], "")
		}
	case 3:
		if len(ls) > 1 {
			return strings.Join(ls[1:], "") + "\n"
		}
	case 4:
		if i := strings.LastIndexAny(res, "0123456789"); i >= 0 {
			return res[:i] + string('0'+(res[i]-'0'+1)%10) + res[i+1:]
		}
	case 5:
		if i := strings.IndexByte(res, ' '); i > 0 {
			return res[:i] + " " + res[i:]
		}
	}
	return "nonsense\n"
}

type tkey struct{ f, i int }

func runC15(x any, st *Stats) *Violation {
	sc := x.(*UpdSc)
	var w *simrt.World
	var ps []*simrt.Proc
	fail := func(sig, f string, a ...any) *Violation {
		return &Violation{Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: detail(w, ps), Sc: sc}
	}
	empty := func(f, i int) string { return "" }
	// what each command prints on its own
	want := map[tkey]string{}
	drop := map[tkey]bool{}
	var keys []tkey
	unknown := map[tkey]bool{}
	one := func(k tkey) (string, bool) {
		p := sc.Files[k.f].Parts[k.i]
		files := Files{}
		c := simrt.Cmd{Args: append([]string{"coin"}, p.Args...), Env: map[string]string{"COINDB": "/w/t", "HOME": "/home/sim"}}
		switch p.Args[0] {
		case "format", "fmt", "f", "modify", "mod", "m": // prints transactions only as part of a test: make it the only one
			for j := range sc.Files {
				t := &UpdSc{Files: append([]TFile{}, sc.Files...)}
				t.Files[j].Parts = nil
				for i, q := range sc.Files[j].Parts {
					if q.Args == nil || (tkey{j, i}) == k {
						if q.Args != nil {
							q.End = "end test"
						}
						t.Files[j].Parts = append(t.Files[j].Parts, q)
					}
				}
				files[t.Files[j].Path] = t.text(j, empty)
			}
			w = newWorld(files, baseTime)
			was := files[sc.Files[k.f].Path]
			pr := w.Run(cmd("coin", "test", sc.Files[0].Path))[0]
			ps = []*simrt.Proc{pr}
			st.World(w, ps, false)
			text, _ := w.FS.Read(sc.Files[k.f].Path)
			head := "test " + strings.Join(p.Args, " ") + "\n"
			i := strings.Index(was, head) + len(head)
			if !pr.OK() || !strings.HasPrefix(text, was[:i]) || !strings.HasSuffix(text, was[i:]) || len(text) < len(was) {
				return "", false
			}
			return text[i : len(text)-len(was[i:])], true
		}
		for j, f := range sc.Files {
			files[f.Path] = sc.text(j, empty)
		}
		files["/w/t/commodities.coin"] = files[sc.Files[0].Path]
		files["/w/t/accounts.coin"], files["/w/t/prices.coin"], files["/w/t/transactions.coin"] = "", "", ""
		w = newWorld(files, baseTime)
		pr := w.Run(c)[0]
		ps = []*simrt.Proc{pr}
		st.World(w, ps, false)
		return string(pr.Stdout), pr.OK()
	}
	files := Files{}
	for j, f := range sc.Files {
		files[f.Path] = sc.text(j, empty)
	}
	files["/w/t/commodities.coin"] = files[sc.Files[0].Path]
	files["/w/t/accounts.coin"], files["/w/t/prices.coin"], files["/w/t/transactions.coin"] = "", "", ""
	w = newWorld(files, baseTime)
	if p := w.Run(simrt.Cmd{Args: []string{"coin", "stats"}, Env: map[string]string{"COINDB": "/w/t"}})[0]; !p.OK() {
		st.Skipped++
		st.Count("ledger does not load")
		if os.Getenv("SIMDEBUG") != "" {
			fmt.Fprintf(os.Stderr, "invalid: %s\n", p.Stderr)
		}
		return nil
	}
	for f := range sc.Files {
		for i, p := range sc.Files[f].Parts {
			if p.Args == nil {
				continue
			}
			k := tkey{f, i}
			if p.Args[0] == "frobnicate" || p.Args[0] == "end" || p.Args[0] == "balanced" {
				unknown[k] = true
				keys = append(keys, k)
				continue
			}
			out, ok := one(k)
			if !ok || strings.Contains(out, "/t/") || strings.Contains(out, ".inc:") || strings.Contains(out, ".coin:") || strings.Contains(out, "commodities.coin") ||
				strings.TrimSpace(out) == "" && out != "" {
				drop[k] = true
				continue
			}
			if strings.Contains("\n"+out, "\nend test") {
				drop[k] = true
				continue
			}
			want[k] = out
			keys = append(keys, k)
		}
	}
	if len(drop) > 0 {
		n := clone(checks["C15"], sc).(*UpdSc)
		for f := range n.Files {
			var parts []TPart
			for i, p := range n.Files[f].Parts {
				if !drop[tkey{f, i}] {
					parts = append(parts, p)
				}
			}
			n.Files[f].Parts = parts
		}
		// numbers have moved
		st.Count("tests dropped")
		return runC15(n, st)
	}
	if len(keys) == 0 {
		st.Skipped++
		return nil
	}
	have := map[tkey]string{}
	for _, k := range keys {
		p := sc.Files[k.f].Parts[k.i]
		switch p.Res {
		case "right":
			have[k] = want[k]
		case "wrong":
			have[k] = spoil(want[k], p.Bad)
			if have[k] == want[k] {
				have[k] += "more\n"
			}
		}
	}
	render := func() Files {
		fs := Files{}
		for f := range sc.Files {
			fs[sc.Files[f].Path] = sc.text(f, func(f, i int) string { return have[tkey{f, i}] })
		}
		return fs
	}
	w = newWorld(render(), baseTime)
	ps = nil
	defer func() { st.World(w, ps, true) }()
	used := map[int]bool{0: true} // included files
	for ch := true; ch; {
		ch = false
		for f := range sc.Files {
			for _, p := range sc.Files[f].Parts {
				for g := range sc.Files {
					if used[f] && !used[g] && p.Inc != "" && strings.HasSuffix(sc.Files[g].Path, strings.TrimLeft(p.Inc, "./")) {
						used[g], ch = true, true
					}
				}
			}
		}
	}
	for n := range sc.Runs {
		run := &sc.Runs[n]
		for _, c := range run.Clear {
			delete(have, keys[c%len(keys)])
		}
		for _, c := range run.Spoil {
			k := keys[c%len(keys)]
			have[k] = spoil(have[k], c%6)
			if have[k] == want[k] {
				have[k] += "more\n"
			}
		}
		before := render()
		for fn, s := range before {
			if got, _ := w.FS.Read(fn); got != s && strings.TrimSuffix(got, "\n") != strings.TrimSuffix(s, "\n") {
				w.FS.Put(fn, s)
			}
		}
		w.FS.Commit()
		for fn := range before {
			before[fn], _ = w.FS.Read(fn)
		}
		// what must be there afterwards
		fails := map[string][]string{}
		filled := map[int]bool{}
		right := map[string]int{}
		was := map[tkey]string{}
		for k, v := range have {
			was[k] = v
		}
		for _, k := range keys {
			if !used[k.f] {
				continue
			}
			fn := sc.Files[k.f].Path
			cmdline := strings.Join(sc.Files[k.f].Parts[k.i].Args, " ")
			switch {
			case unknown[k]:
				fails[fn] = append(fails[fn], "")
			case have[k] == "" && want[k] != "":
				have[k] = want[k]
				filled[k.f] = true
			case have[k] != want[k]:
				fails[fn] = append(fails[fn], cmdline)
			default:
				right[fn]++
			}
		}
		after := render()
		a := []string{"coin", "test"}
		if run.Verbose {
			a = append(a, "-v")
		}
		fn := sc.Files[0].Path
		if sc.Rel {
			fn = strings.TrimPrefix(fn, "/w/")
		}
		c := cmd(append(a, fn)...)
		c.Cfg = simrt.Cfg{MapMode: run.Map, MapSeed: run.Seed, SliceMode: run.Slice, SliceSeed: run.Seed, TempSeed: run.Seed, Faults: run.Faults}
		p := w.Run(c)[0]
		ps = append(ps, p)
		w.FS.Commit()
		faulty := len(p.Fired) > 0
		if !faulty && !p.OK() {
			return fail("fails", "run %d: coin test fails: %s %s", n, p.How(), p.Stderr)
		}
		for k := range sc.Files {
			fn := sc.Files[k].Path
			got, _ := w.FS.Read(fn)
			full := got == after[fn] || (filled[k] || got == before[fn]) && strings.TrimSuffix(got, "\n") == strings.TrimSuffix(after[fn], "\n")
			if full {
				if filled[k] {
					st.Count("files updated")
				}
				continue
			}
			if faulty && !p.OK() && got == before[fn] {
				for _, q := range keys { // back to what it was
					if q.f == k {
						have[q] = was[q]
					}
				}
				continue
			}
			return fail("content", "run %d (%s %s): %s is not the file with the empty results filled in: %s\nhave %s\nwant %s", n, p.How(), p.Stderr, fn, firstDiff(got, after[fn]), quote(got), quote(after[fn]))
		}
		if faulty {
			st.Count("runs hit by a fault")
			continue
		}
		// the report
		out := strings.Split(string(p.Stdout), "\n")
		for k := range sc.Files {
			if !used[k] {
				continue
			}
			path := sc.Files[k].Path
			name := path
			if sc.Rel {
				name = strings.TrimPrefix(path, "/w/")
			}
			tests := 0
			for _, q := range keys {
				if q.f == k {
					tests++
				}
			}
			nfail, nok, summary := 0, 0, ""
			listed := map[string]bool{}
			for _, ln := range out {
				isFail, isOK := strings.HasPrefix(ln, "FAIL "), strings.HasPrefix(ln, "OK ")
				switch {
				case (isFail || isOK) && strings.HasSuffix(ln, name):
					if summary != "" {
						return fail("report", "run %d: %s is reported twice: %q", n, path, p.Stdout)
					}
					summary = strings.Fields(ln)[0]
				case isFail && strings.Contains(ln, name+":"):
					nfail++
				case isOK && strings.Contains(ln, name+":") && !listed[ln]: // a file included twice has its tests run twice
					listed[ln] = true
					nok++
				}
			}
			wrong := 0
			for _, s := range fails[path] {
				if s == "" { // reported on stderr
					continue
				}
				wrong++
				found := false
				for _, ln := range out {
					found = found || strings.HasPrefix(ln, "FAIL ") && strings.Contains(ln, name+":") && strings.HasSuffix(ln, " "+s)
				}
				if !found {
					return fail("unreported", "run %d: the result of %q in %s is wrong but not reported: %q", n, s, path, p.Stdout)
				}
			}
			if nfail > 0 && wrong == 0 {
				return fail("alarm", "run %d: all results in %s are right or empty but the report is %q", n, path, p.Stdout)
			}
			if run.Verbose && nok != right[path] {
				return fail("listing", "run %d: %d tests in %s are right, %d are listed: %q", n, right[path], path, nok, p.Stdout)
			}
			exp := "OK"
			if len(fails[path]) > 0 {
				exp = "FAIL"
			}
			if tests > 0 && !run.Verbose && summary != exp {
				return fail("summary", "run %d: %s should be reported as %s: %q", n, path, exp, p.Stdout)
			}
		}
	}
	return nil
}

func init() {
	register(&Check{
		ID: "C15", Level: "exploration", Full: true, Quick: 10000, Thor: 400000,
		Rule:   "Each scenario is a test file, with up to four files included from it at seeded places, holding a ledger in pieces and tests with empty, right and wrong results, and a history of one to four runs of coin test between which results are removed and spoiled; 30% of the runs suffer an I/O error or are killed at a seeded system call. After every run each file must be the old one with every empty result replaced by what the command prints on its own (after a failed run: that or the old file), and the report must name the wrong results and only them.",
		Real:   []string{"coin test with all reporting subcommands, the coin, check and rex packages, instrumented from the working tree"},
		Stub:   []string{"operating system: disk, clock", "map iteration order and slicing of reads (seeded)"},
		Assume: []string{"format and modify, which print only as part of a test, are compared with a file in which they are the only test.", "Tests of commands that fail on their own, print locations or only blank lines are left out."},
		Gen:    func(r *simrt.RNG, i int) any { return genUpd(r) },
		New:    func() any { return &UpdSc{} },
		Run:    runC15,
		Shrink: func(x any) (out []any) {
			sc := x.(*UpdSc)
			add := func(f func(n *UpdSc)) {
				n := clone(checks["C15"], sc).(*UpdSc)
				f(n)
				out = append(out, n)
			}
			for i := range sc.Runs {
				if len(sc.Runs) > 1 {
					add(func(n *UpdSc) { n.Runs = append(n.Runs[:i:i], n.Runs[i+1:]...) })
				}
			}
			for f := range sc.Files {
				for i := range sc.Files[f].Parts {
					add(func(n *UpdSc) { n.Files[f].Parts = append(n.Files[f].Parts[:i:i], n.Files[f].Parts[i+1:]...) })
				}
			}
			for i := range sc.Runs {
				if len(sc.Runs[i].Faults) > 0 {
					add(func(n *UpdSc) { n.Runs[i].Faults = nil })
				}
				for j := range sc.Runs[i].Clear {
					add(func(n *UpdSc) { n.Runs[i].Clear = append(n.Runs[i].Clear[:j:j], n.Runs[i].Clear[j+1:]...) })
				}
				for j := range sc.Runs[i].Spoil {
					add(func(n *UpdSc) { n.Runs[i].Spoil = append(n.Runs[i].Spoil[:j:j], n.Runs[i].Spoil[j+1:]...) })
				}
			}
			return out
		},
	})
}
