package main

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"

	"vsim/simrt"
)

// Include graphs.

// IPart is a piece of a file: text or an include line.
type IPart struct {
	Text string `json:",omitempty"`
	Inc  string `json:",omitempty"`
}

type IFile struct {
	Path  string
	Parts []IPart
}

type IncSc struct {
	Files   []IFile
	Roots   []string // the files of the ledger itself
	Env     map[string]string
	DB      string // COINDB as given
	NoEOL   bool
	Cmds    [][]string
	Map     int
	Slice   int
	Seed    uint64
	Faults  []simrt.Fault `json:",omitempty"`
	FDLimit int           `json:",omitempty"`
	Cmd     int           `json:",omitempty"` // the command of the faults
}

func relPath(from, to string) string { // of directories and files, both absolute
	d := from
	up := ""
	for d != "/" && !strings.HasPrefix(to, d+"/") {
		d = path.Dir(d)
		up += "../"
	}
	if d == "/" {
		return up + to[1:]
	}
	return up + to[len(d)+1:]
}

type incGen struct {
	r    *simrt.RNG
	sc   *IncSc
	n    int
	up   map[string]string // the file including a file
	used map[string]bool
}

var incDirs = []string{db, db + "/sub", db + "/sub/deep", db + "/2023", "/w/shared", "/srv/common", "/w"}

func (g *incGen) fresh() string {
	g.n++
	if g.r.P(25) { // the same name in several directories
		fn := simrt.Pick(g.r, incDirs...) + "/index.inc"
		if !g.used[fn] {
			g.used[fn] = true
			return fn
		}
	}
	return simrt.Pick(g.r, incDirs...) + "/" + simrt.Pick(g.r, "part", "more", "x.y", "0a") + fmt.Sprint(g.n) + simrt.Pick(g.r, ".inc", ".inc", ".txt", "")
}

// spell writes the path of an included file in one of the ways there are.
func (g *incGen) spell(from, to string) string {
	r := g.r
	rel := relPath(path.Dir(from), to)
	switch r.N(10) {
	case 0:
		return "./" + rel
	case 1:
		return "sub/../" + rel
	case 2:
		if strings.HasPrefix(to, "/w/") {
			return to[2:]
		}
	case 3:
		for _, k := range sortedKeys(g.sc.Env) {
			v := g.sc.Env[k]
			if strings.HasPrefix(v, "/") && strings.HasPrefix(to, v+"/") && r.P(70) {
				return simrt.Pick(r, "$"+k, "${"+k+"}") + to[len(v):]
			}
		}
	case 4: // relative to where the command runs
		if strings.HasPrefix(to, "/w/shared/") {
			return "$REL" + to[len("/w/shared"):]
		}
	case 5: // in the middle
		for _, k := range sortedKeys(g.sc.Env) {
			v := g.sc.Env[k]
			if i := strings.LastIndex(rel, v); i > 0 && !strings.Contains(v, "/") && r.P(70) {
				return rel[:i] + "${" + k + "}" + rel[i+len(v):]
			}
		}
	case 6: // a pattern matching the file, and maybe others
		return path.Join(path.Dir(rel), g.pattern(path.Base(to)))
	case 7:
		if d := path.Dir(rel); d != "." && !strings.Contains(path.Base(d), "..") && !strings.HasPrefix(rel, "..") {
			return path.Join(path.Dir(d), g.pattern(path.Base(d)), path.Base(rel))
		}
	}
	return rel
}

func (g *incGen) pattern(name string) string {
	r := g.r
	i := r.N(len(name))
	switch r.N(4) {
	case 0:
		return name[:i] + "?" + name[i+1:]
	case 1:
		if c := name[i]; c >= '0' && c <= '9' || c >= 'a' && c <= 'z' {
			return name[:i] + "[" + string(c) + "]" + name[i+1:]
		}
	case 2:
		return name[:i] + "*" + name[i+1:]
	}
	return name + "*"
}

// file writes pieces to a file, leaving some to files included from it.
func (g *incGen) file(fn string, pieces []string, depth int) {
	r := g.r
	k := len(g.sc.Files)
	g.sc.Files = append(g.sc.Files, IFile{Path: fn})
	var parts []IPart
	for len(pieces) > 0 {
		n := r.In(1, len(pieces))
		if n > 3 && r.P(70) {
			n = r.In(1, 3)
		}
		chunk := pieces[:n]
		pieces = pieces[n:]
		switch {
		case depth > 0 && r.P(45):
			to := g.fresh()
			g.up[to] = fn
			g.file(to, chunk, depth-1)
			parts = append(parts, IPart{Inc: g.spell(fn, to)})
		case depth > 0 && r.P(15): // several files by pattern
			g.n++
			dir, stem := simrt.Pick(r, incDirs...), fmt.Sprintf("glob%d-", g.n)
			for i, c := range chunk {
				to := fmt.Sprintf("%s/%s%d.inc", dir, stem, i)
				g.up[to] = fn
				g.file(to, []string{c}, depth-1)
			}
			parts = append(parts, IPart{Inc: path.Join(relPath(path.Dir(fn), dir+"/x"), "..", stem+simrt.Pick(r, "*.inc", "*", "?.inc", "[0-9].inc"))})
		default:
			for _, c := range chunk {
				parts = append(parts, IPart{Text: c})
			}
		}
	}
	g.sc.Files[k].Parts = parts
}

func (g *incGen) insert(k int, p IPart) {
	ps := g.sc.Files[k].Parts
	at := g.r.N(len(ps) + 1)
	g.sc.Files[k].Parts = append(ps[:at:at], append([]IPart{p}, ps[at:]...)...)
}

func genInc(r *simrt.RNG) *IncSc {
	l := genLedger(r, LedgerOpts{MaxTxns: simrt.Pick(r, 4, 8, 15), Multi: r.P(50), Prices: r.P(60), Notes: r.P(50), Asserts: r.P(30), SameDay: r.P(50), DayLo: dayOf(2022, 11, 1), DayHi: dayOf(2024, 2, 1), PlainDates: true})
	sc := &IncSc{Env: map[string]string{"INC": "/srv/common", "WORK": "/w", "REL": "shared", "YEAR": "2023", "S": "sub", "N": "1"}, DB: simrt.Pick(r, db, db, "db", "./db"), NoEOL: r.P(30), Map: r.N(4), Slice: simrt.Pick(r, 0, 0, 1, 2, 3), Seed: r.Uint64()}
	g := &incGen{r: r, sc: sc, up: map[string]string{}, used: map[string]bool{}}
	depth := simrt.Pick(r, 1, 2, 2, 3, 5)
	split := func(text string) (out []string) {
		for _, b := range strings.SplitAfter(text, "\n\n") {
			if strings.TrimSpace(b) != "" {
				out = append(out, b)
			}
		}
		return out
	}
	root := func(name string, pieces []string) {
		fn := db + "/" + name
		sc.Roots = append(sc.Roots, fn)
		g.file(fn, pieces, depth)
	}
	var txns, prices []string
	for i := range l.Txns {
		t := l.txnText(&l.Txns[i])
		if r.P(80) {
			t += "\n"
		}
		txns = append(txns, t)
	}
	seen := map[string]bool{}
	for _, p := range l.Prices {
		if k := fmt.Sprint(p.Day, p.C); !seen[k] { // one price a day
			seen[k] = true
			prices = append(prices, l.priceText([]Price{p}))
		}
	}
	accts := split(l.acctText())
	if r.P(30) { // something of everything
		all := append(append(append([]string{}, accts...), prices...), txns...)
		accts, prices, txns = nil, nil, nil
		for _, p := range all {
			switch r.N(3) {
			case 0:
				accts = append(accts, p)
			case 1:
				prices = append(prices, p)
			default:
				txns = append(txns, p)
			}
		}
	}
	root("commodities.coin", split(l.commText()))
	if r.P(50) {
		root("prices.coin", prices)
	} else {
		k := r.N(len(prices) + 1)
		root("2022.prices", prices[:k])
		root("2023.prices", prices[k:])
	}
	root("accounts.coin", accts)
	if r.P(50) {
		root("transactions.coin", txns)
	} else {
		k := r.N(len(txns) + 1)
		root("2022.coin", txns[:k])
		root("2023.coin", txns[k:])
	}
	nf := len(sc.Files)
	idx := func(fn string) int {
		for i, f := range sc.Files {
			if f.Path == fn {
				return i
			}
		}
		return 0
	}
	if r.P(3) { // far down, or one of many
		k := r.N(nf)
		for at, p := range sc.Files[k].Parts {
			if p.Text == "" {
				continue
			}
			n := r.In(20, 250)
			dir := simrt.Pick(r, db+"/sub", "/w/shared", "/srv/common")
			if r.P(50) {
				sc.Files[k].Parts[at] = IPart{Inc: relPath(path.Dir(sc.Files[k].Path), dir+"/many*.inc")}
				for i, m := 0, r.N(n); i < n; i++ {
					f := IFile{Path: fmt.Sprintf("%s/many%03d.inc", dir, i), Parts: []IPart{{Text: "; nothing\n"}}}
					if i == m {
						f.Parts[0] = p
					}
					g.up[f.Path] = sc.Files[k].Path
					sc.Files = append(sc.Files, f)
				}
				break
			}
			from := k
			for i := 0; i < n; i++ {
				f := IFile{Path: fmt.Sprintf("%s/down%d.inc", dir, i)}
				g.up[f.Path] = sc.Files[from].Path
				inc := IPart{Inc: relPath(path.Dir(sc.Files[from].Path), f.Path)}
				if from == k {
					sc.Files[k].Parts[at] = inc
				} else {
					sc.Files[from].Parts = []IPart{inc}
				}
				sc.Files = append(sc.Files, f)
				from = len(sc.Files) - 1
			}
			sc.Files[from].Parts = []IPart{p}
			break
		}
	}
	if r.P(35) { // shared
		to := g.fresh()
		g.file(to, simrt.Pick(r, txns, []string{"; shared\n"}, prices)[:0:0], 0)
		text := "; shared\n"
		if len(txns) > 0 && r.P(70) {
			text = txns[r.N(len(txns))] + "\n"
		}
		sc.Files[len(sc.Files)-1].Parts = []IPart{{Text: text}}
		for i, n := 0, r.In(2, 4); i < n; i++ {
			f := r.N(nf)
			if strings.HasPrefix(text, ";") || idx(sc.Roots[1]) <= f {
				g.insert(f, IPart{Inc: g.spell(sc.Files[f].Path, to)})
			}
		}
	}
	if r.P(25) { // a cycle
		f := r.N(len(sc.Files))
		to := sc.Files[f].Path
		for n := r.N(4); n > 0 && g.up[to] != ""; n-- {
			to = g.up[to]
		}
		g.insert(f, IPart{Inc: g.spell(sc.Files[f].Path, to)})
	}
	if r.P(8) { // across the roots
		a, b := r.N(nf), r.N(nf)
		g.insert(a, IPart{Inc: g.spell(sc.Files[a].Path, sc.Files[b].Path)})
		if r.P(50) {
			g.insert(b, IPart{Inc: g.spell(sc.Files[b].Path, sc.Files[a].Path)})
		}
	}
	if r.P(12) { // missing
		f := r.N(len(sc.Files))
		inc := simrt.Pick(r, "missing.inc", "sub/missing.inc", "nowhere/x.inc", "$INC/missing", "$UNSET/x.inc", "/missing.inc", "sub", "nothing*.inc", "nowhere*/x.inc", "$UNSET*/none*")
		g.insert(f, IPart{Inc: inc})
	}
	acct := func() string {
		n := l.Accts[r.N(len(l.Accts))].Name
		return simrt.Pick(r, n, strings.SplitN(n, ":", 2)[0])
	}
	reports := [][]string{{"stats"}, {"register", "-l", "200", acct()}, {"balance"}, {"accounts"}, {"commodities"}, {"commodities", "-p"}, {"tags"}, {"register", "-o", "json", acct()}, {"balance", "-z"}}
	simrt.Shuffle(r, reports)
	sc.Cmds = append(sc.Cmds, []string{"register", "-l", "200", "-r", acct()}, reports[0])
	if r.P(40) {
		sc.Cmds = append(sc.Cmds, []string{"format", "FILE", fmt.Sprint(r.N(len(sc.Files)))})
	}
	if r.P(25) {
		sc.Cmds = append(sc.Cmds, []string{"coin2html"})
	}
	return sc
}

func (sc *IncSc) text(k int) string {
	var b strings.Builder
	for _, p := range sc.Files[k].Parts {
		if p.Inc != "" {
			fmt.Fprintf(&b, "include %s\n", p.Inc)
		} else {
			b.WriteString(p.Text)
		}
	}
	if sc.NoEOL {
		return strings.TrimRight(b.String(), "\n")
	}
	return b.String()
}

var envRef = regexp.MustCompile(`\$(\w+)|\$\{(\w+)\}`)

// resolve gives the files an include line stands for, nil if there are none.
func (sc *IncSc) resolve(from, inc string) (files []string, literal bool) {
	expand := func(s string) string {
		return envRef.ReplaceAllStringFunc(s, func(v string) string { return sc.Env[strings.Trim(v, "${}")] })
	}
	switch {
	case inc[0] == '/':
		inc = "/w" + expand(inc)
	case inc[0] == '$':
		if inc = expand(inc); inc == "" || inc[0] != '/' {
			inc = "/w/" + inc
		}
	default:
		inc = path.Join(path.Dir(from), expand(inc))
	}
	inc = path.Clean(inc)
	if !strings.ContainsAny(inc, "*?[") {
		return []string{inc}, true
	}
	for _, f := range sc.Files {
		a, b := strings.Split(f.Path, "/"), strings.Split(inc, "/")
		if len(a) < len(b) {
			continue
		}
		ok := true
		for i := range b {
			m, _ := path.Match(b[i], a[i])
			ok = ok && m
		}
		if ok {
			files = append(files, strings.Join(a[:len(b)], "/"))
		}
	}
	sort.Slice(files, func(i, j int) bool { // names in each directory in order
		a, b := strings.Split(files[i], "/"), strings.Split(files[j], "/")
		for k := range a {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return false
	})
	var out []string
	for i, f := range files {
		if i == 0 || f != files[i-1] {
			out = append(out, f)
		}
	}
	return out, false
}

type flatErr string

// flat is the content of a file with its includes replaced by what they include.
func (sc *IncSc) flat(fn string, stack []string, budget *int) (string, flatErr) {
	if *budget--; *budget < 0 {
		return "", "too much"
	}
	for _, s := range stack {
		if s == fn {
			return "", "cycle"
		}
	}
	for k, f := range sc.Files {
		if f.Path != fn {
			continue
		}
		var b strings.Builder
		for _, p := range f.Parts {
			if p.Inc == "" {
				b.WriteString(p.Text)
				continue
			}
			files, _ := sc.resolve(fn, p.Inc)
			b.WriteString("\n")
			for _, to := range files {
				s, err := sc.flat(to, append(stack, fn), budget)
				if err != "" {
					return "", err
				}
				b.WriteString(s + "\n")
			}
		}
		_ = k
		return b.String(), ""
	}
	return "", "missing"
}

var jsonLoc = regexp.MustCompile(`"location": *"[^"]*"`)

func runC17(x any, st *Stats) *Violation {
	sc := x.(*IncSc)
	files := Files{}
	for k, f := range sc.Files {
		files[f.Path] = sc.text(k)
	}
	dirs := incDirs
	var w *simrt.World
	var ps []*simrt.Proc
	setup := func(fs Files) {
		w = newWorld(fs, baseTime)
		for _, d := range dirs {
			w.FS.MkdirAll(d)
		}
	}
	fail := func(sig, f string, a ...any) *Violation {
		return &Violation{Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: detail(w, ps), Sc: sc}
	}
	// without includes
	plain := Files{}
	bad := map[string]flatErr{}
	for _, fn := range sc.Roots {
		budget := 600
		s, err := sc.flat(fn, nil, &budget)
		if err == "too much" {
			st.Skipped++
			return nil
		}
		plain[fn], bad[fn] = s, err
	}
	mk := func(i int, e map[string]string, flat bool) (simrt.Cmd, []string, bool) {
		a := sc.Cmds[i]
		c := simrt.Cmd{Env: map[string]string{"HOME": "/home/sim", "COINDB": sc.DB}}
		if !flat {
			for k, v := range sc.Env {
				c.Env[k] = v
			}
			c.Cfg = simrt.Cfg{MapMode: sc.Map, MapSeed: sc.Seed, SliceMode: sc.Slice, SliceSeed: sc.Seed}
		}
		roots := sc.Roots
		switch a[0] {
		case "coin2html":
			c.Args = []string{"coin2html"}
		case "format":
			var n int
			fmt.Sscan(a[2], &n)
			fn := sc.Files[n%len(sc.Files)].Path
			roots = []string{db + "/commodities.coin", db + "/accounts.coin", fn}
			if flat {
				budget := 600
				s, err := sc.flat(fn, nil, &budget)
				if err == "too much" {
					return c, nil, false
				}
				bad[fn] = err
				fn = "/w/flat"
				w.FS.Put(fn, s)
			} else if sc.Seed%2 == 0 {
				fn = relPath("/w", fn)
			}
			c.Args = []string{"coin", "format", fn}
		case "accounts":
			roots = []string{db + "/commodities.coin", db + "/accounts.coin"}
			c.Args = append([]string{"coin"}, a...)
		case "commodities":
			roots = []string{db + "/commodities.coin"}
			if len(a) > 1 {
				for k, fn := range sc.Roots {
					if fn == db+"/accounts.coin" {
						roots = sc.Roots[:k]
					}
				}
			}
			c.Args = append([]string{"coin"}, a...)
		default:
			c.Args = append([]string{"coin"}, a...)
		}
		return c, roots, true
	}
	for i := range sc.Cmds {
		if sc.Faults != nil || sc.FDLimit > 0 {
			if i != sc.Cmd {
				continue
			}
		}
		setup(plain)
		c, roots, ok := mk(i, nil, true)
		if !ok {
			continue
		}
		var why flatErr
		for _, fn := range roots {
			if bad[fn] != "" {
				why = bad[fn]
			}
		}
		var ref *simrt.Proc
		if why == "" {
			ref = w.Run(c)[0]
			ps = []*simrt.Proc{ref}
			st.World(w, ps, false)
		}
		setup(files)
		c, _, _ = mk(i, nil, false)
		c.Cfg.FDLimit = 4000
		p := w.Run(c)[0]
		ps = []*simrt.Proc{p}
		st.World(w, ps, true)
		clean := func(p *simrt.Proc) string { return jsonLoc.ReplaceAllString(string(p.Stdout), "") }
		name := strings.Join(c.Args, " ")
		switch {
		case p.Reason == "hang":
			return fail("hang", "%s does not end (%s)", name, why)
		case why != "" && p.OK():
			return fail("accepted", "%s exits with status 0 although an include is %s", name, why)
		case why != "" && len(p.Stderr) == 0:
			return fail("unreported", "%s does not report an include that is %s", name, why)
		case why == "cycle" && outOfFiles(w):
			return fail("undetected", "%s follows an include cycle until it runs out of file descriptors (4000)", name)
		case why != "":
			st.Count("ledgers with includes that are " + string(why))
			continue
		case ref.OK() != p.OK():
			return fail("status", "%s: %s (%s), but with the included text in place of the includes: %s (%s)", name, p.How(), p.Stderr, ref.How(), ref.Stderr)
		case !ref.OK():
			st.Count("ledgers that do not load")
			continue
		case clean(p) != clean(ref):
			return fail("differs", "%s prints something else with the included text in place of the includes: %s", name, firstDiff(clean(p), clean(ref)))
		}
		st.Count("ledgers compared")
		// failing operations
		type plan struct {
			fs []simrt.Fault
			fd int
		}
		var plans []plan
		if sc.Faults != nil || sc.FDLimit > 0 {
			plans = []plan{{sc.Faults, sc.FDLimit}}
		} else {
			r := simrt.NewRNG(sc.Seed, fmt.Sprint("faults", i))
			for _, fs := range faultPlans(r, p.Trace, 5) {
				plans = append(plans, plan{fs: fs})
			}
			plans = append(plans, plan{fd: r.In(4, 9)})
		}
		want := clean(p)
		for _, pl := range plans {
			setup(files)
			c, _, _ := mk(i, nil, false)
			c.Cfg.Faults, c.Cfg.FDLimit = pl.fs, pl.fd
			p := w.Run(c)[0]
			ps = []*simrt.Proc{p}
			st.World(w, ps, true)
			n := *sc
			n.Faults, n.FDLimit, n.Cmd = pl.fs, pl.fd, i
			var v *Violation
			switch {
			case p.Reason == "hang":
				v = fail("hang", "%s does not end when an operation fails", name)
			case p.OK() && clean(p) != want && !brokenPipe(pl.fs):
				v = fail("silent", "%s exits with status 0 although an operation failed, and prints something else: %s", name, firstDiff(clean(p), want))
			}
			if v != nil {
				v.Sc = &n
				return v
			}
		}
	}
	return nil
}

func outOfFiles(w *simrt.World) bool {
	for _, e := range w.Events {
		if e.Op == "open" && strings.Contains(e.Err, "too many open files") {
			return true
		}
	}
	return false
}

func brokenPipe(fs []simrt.Fault) bool {
	for _, f := range fs {
		if f.Kind == "EPIPE" {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{
		ID: "C17", Level: "exploration", Full: true, Quick: 12000, Thor: 600000,
		Rule:   "Each scenario is a ledger dealt over a seeded graph of files included by relative, absolute and differently spelled paths, patterns and environment variables: trees up to five deep, shared files, and in some a cycle of any length, a missing file or a directory. Each of two to four commands must print what it prints for the ledger with every include replaced by the included text, or report the cycle or missing file and fail; then it is run again with six failing operations or small limits on open files, and must fail or print the same.",
		Real:   []string{"coin and coin2html, the coin, check and rex packages, instrumented from the working tree", "path/filepath"},
		Stub:   []string{"operating system: disk, clock, environment", "map iteration order and slicing of reads (seeded)"},
		Assume: []string{"No symbolic links.", "The order of two prices of the same day, and of the output of commands that fail, is not compared."},
		Gen:    func(r *simrt.RNG, i int) any { return genInc(r) },
		New:    func() any { return &IncSc{} },
		Run:    runC17,
		Shrink: func(x any) (out []any) {
			sc := x.(*IncSc)
			add := func(f func(n *IncSc)) {
				n := clone(checks["C17"], sc).(*IncSc)
				f(n)
				out = append(out, n)
			}
			for i := range sc.Cmds {
				if len(sc.Cmds) > 1 && sc.Faults == nil && sc.FDLimit == 0 {
					add(func(n *IncSc) { n.Cmds = append(n.Cmds[:i:i], n.Cmds[i+1:]...) })
				}
			}
			for f := range sc.Files {
				if len(sc.Files[f].Parts) > 2 {
					h := len(sc.Files[f].Parts) / 2
					add(func(n *IncSc) { n.Files[f].Parts = n.Files[f].Parts[:h] })
					add(func(n *IncSc) { n.Files[f].Parts = n.Files[f].Parts[h:] })
				}
				for i := range sc.Files[f].Parts {
					add(func(n *IncSc) { n.Files[f].Parts = append(n.Files[f].Parts[:i:i], n.Files[f].Parts[i+1:]...) })
				}
			}
			add(func(n *IncSc) { n.Slice, n.Map, n.NoEOL = 0, 0, false })
			return out
		},
	})
}
