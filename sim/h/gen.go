package main

import (
	"encoding/json"
	"fmt"
	"slices"
	"strings"
	"time"

	"vsim/simrt"
)

// Generated ledgers.

type GenSc struct {
	B, E    int64 // days, 0: not given
	Now     int64 // unix seconds
	Zone    int
	Seed    uint64
	Mode    int
	Split   string // "", -y, -m
	Before  int    // what happened to the directory before: 0 nothing, 1 a run of the same range, 2 an interrupted one
	Seed2   uint64
	Kill    int
	Jumps   []simrt.Jump `json:",omitempty"`
	Map     int
	Balance bool
}

func genGen(r *simrt.RNG) *GenSc {
	sc := &GenSc{Seed: r.Uint64(), Seed2: r.Uint64(), Mode: r.N(4), Map: r.N(4), Zone: r.In(-11, 12), Split: simrt.Pick(r, "", "-y", "-m", "-y", "-m"), Balance: r.P(60)}
	day := dayOf(2019, 1, 1) + int64(r.N(3000))
	if r.P(40) { // around the ends of months and years
		day = dayOf(2019+r.N(8), 1+r.N(12), 1) + int64(r.In(-3, 2))
	}
	sc.Now = day*86400 + int64(simrt.Pick(r, 0, 1, 43199, 43200, 43201, 86399, r.N(86400)))
	n := int64(simrt.Pick(r, -5, 0, 1, 2, 6, 13, 30, 45, 100, 400, 800))
	switch r.N(6) {
	case 0:
		sc.B = day - n
	case 1:
		sc.E = day + n
	case 2:
	default:
		sc.B = day + int64(r.In(-300, 300))
		if r.P(40) {
			sc.B = dayOf(2022+r.N(3), 1+r.N(12), 1) + int64(r.In(-2, 1))
		}
		sc.E = sc.B + n
	}
	sc.Before = r.N(3)
	sc.Kill = r.N(120)
	if r.P(25) {
		sc.Zone = namedZone + r.N(len(zoneNames))
	}
	if sc.B != 0 && sc.E != 0 && r.P(30) {
		sc.Jumps = []simrt.Jump{{At: r.N(4), Delta: time.Duration(r.In(-40, 40)) * time.Hour}}
	}
	return sc
}

type jsonTxn struct {
	Description string
	Posted      string
	Postings    []struct {
		Account, Quantity, Balance string
	}
}

func runC13(x any, st *Stats) *Violation {
	sc := x.(*GenSc)
	now := time.Unix(sc.Now, 0).UTC()
	var args []string
	if sc.B != 0 {
		args = append(args, "-b", dayText(sc.B))
	}
	if sc.E != 0 {
		args = append(args, "-e", dayText(sc.E))
	}
	var w *simrt.World
	var ps []*simrt.Proc
	fail := func(sig, f string, a ...any) *Violation {
		return &Violation{Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: detail(w, ps), Sc: sc}
	}
	world := func(f Files) {
		w = newWorld(f, now)
		w.Zone = hourZone(sc.Zone)
		ps = nil
	}
	run := func(seed uint64, faults []simrt.Fault, more ...string) *simrt.Proc {
		w.Now = now
		c := cmd(append(append([]string{"gen2coin"}, args...), more...)...)
		c.Cfg = simrt.Cfg{RandSeed: seed, RandMode: sc.Mode, MapMode: sc.Map, MapSeed: sc.Seed, Faults: faults, Jumps: sc.Jumps}
		p := w.Run(c)[0]
		ps = append(ps, p)
		return p
	}
	done := func() { st.World(w, ps, true) }

	// to standard output
	world(Files{})
	p := run(sc.Seed, nil)
	done()
	if !p.OK() {
		return fail("fails", "%s %s", p.How(), p.Stderr)
	}
	if n := len(w.FS.Tree("/w")); n > 0 {
		return fail("writes", "generating to standard output left %d files: %v", n, sortedKeys(w.FS.Tree("/w")))
	}
	text := string(p.Stdout)
	ts, err := parseCanon(text)
	if err != nil {
		return fail("garbled", "the generated ledger cannot be read: %v", err)
	}
	lo, hi := int64(-1<<40), int64(1<<40)
	local := func(t time.Time) int64 {
		y, m, d := t.In(w.Zone).Date()
		return dayOf(y, int(m), d)
	}
	early, late := now, now
	for _, j := range sc.Jumps {
		if j.Delta > 0 {
			late = late.Add(j.Delta)
		} else {
			early = early.Add(j.Delta)
		}
	}
	late = late.Add(time.Minute)
	hi = local(late)
	if sc.E != 0 {
		hi = sc.E
	}
	lo = sc.B
	if sc.B == 0 {
		e := early.In(w.Zone)
		if sc.E != 0 {
			e = dayTime(sc.E)
		}
		e = e.AddDate(0, -3, 0)
		lo = dayOf(e.Year(), int(e.Month()), e.Day()) - 1 // the dates are in UTC
	}
	day := int64(-1 << 40)
	for i := range ts {
		t := &ts[i]
		if t.Day < lo || t.Day > hi {
			return fail("range", "transaction of %s is outside of %s to %s", dayText(t.Day), dayText(lo), dayText(hi))
		}
		if t.Day < day {
			return fail("order", "transaction of %s comes after %s", dayText(t.Day), dayText(day))
		}
		day = t.Day
		if why := unbalanced(t); why != "" || t.Desc == "" {
			return fail("balance", "%s: %s", t.key(), why)
		}
	}
	st.Counters["transactions generated"] += len(ts)
	if len(ts) == 0 {
		st.Count("empty ranges")
	}
	// a range of 40 days contains a mid-month and an end of month, with a salary each
	if hi-lo >= 40 && sc.E != 0 && sc.B != 0 && len(ts) == 0 {
		return fail("empty", "nothing is generated for %s to %s", dayText(lo), dayText(hi))
	}

	if sc.B != 0 && sc.E != 0 {
		if why := followRules(ts, sc.B, sc.E); why != "" {
			return fail("rules", "%s", why)
		}
		st.Count("ranges compared with the sample rules")
	}

	// as JSON
	more := []string{"-j"}
	if sc.Balance {
		more = append(more, "-wb")
	}
	world(Files{})
	p = run(sc.Seed, nil, more...)
	done()
	if n := len(w.FS.Tree("/w")); n > 0 {
		return fail("writes", "generating JSON left %d files: %v", n, sortedKeys(w.FS.Tree("/w")))
	}
	var js []jsonTxn
	if err := json.Unmarshal(p.Stdout, &js); !p.OK() || err != nil {
		return fail("json", "the JSON form cannot be read: %s %v", p.How(), err)
	}
	if len(js) != len(ts) {
		return fail("json", "%d transactions as JSON and %d as text", len(js), len(ts))
	}
	bal := map[string]int64{}
	for i, j := range js {
		t := &ts[i]
		same := j.Posted == dayText(t.Day) && j.Description == t.Desc && len(j.Postings) == len(t.Posts)
		for k := range j.Postings {
			if !same {
				break
			}
			q, x := j.Postings[k], t.Posts[k]
			same = q.Account == x.Acct && q.Quantity == x.Qty+" "+x.Comm
			n, err := parseDec(x.Qty, 2)
			if err != nil {
				return fail("garbled", "amount %s", x.Qty)
			}
			bal[x.Acct] += n
			want := ""
			if sc.Balance {
				want = fmtQty(bal[x.Acct], 2) + " " + x.Comm
			}
			if q.Balance != want {
				return fail("running", "transaction %d of %s: the balance of %s is %s, not %s", i+1, j.Posted, q.Account, want, q.Balance)
			}
		}
		if !same {
			return fail("json", "transaction %d as JSON is %v and as text\n%s", i+1, j, t.key())
		}
	}

	// into a directory
	world(Files{db + "/keep": "mine"})
	more = []string{db}
	if sc.Split != "" {
		more = []string{sc.Split, db}
	}
	switch sc.Before {
	case 1:
		run(sc.Seed2, nil, more...)
	case 2:
		run(sc.Seed2, []simrt.Fault{{At: sc.Kill, Kind: "kill-mid", N: 7}}, more...)
	}
	w.FS.Commit()
	old := map[string]bool{}
	for _, f := range sortedKeys(w.FS.Tree(db)) {
		old[f] = true
	}
	p = run(sc.Seed, nil, more...)
	defer done()
	if !p.OK() {
		return fail("fails", "into a directory: %s %s", p.How(), p.Stderr)
	}
	label := func(t *PTxn) string {
		switch sc.Split {
		case "-y":
			return dayText(t.Day)[:4]
		case "-m":
			return dayText(t.Day)[:4] + "-" + dayText(t.Day)[5:7]
		}
		return "transactions"
	}
	want := map[string][]PTxn{}
	for i := range ts {
		l := db + "/" + label(&ts[i]) + ".coin"
		want[l] = append(want[l], ts[i])
	}
	stale := false
	for _, f := range sortedKeys(w.FS.Tree(db)) {
		b := strings.TrimPrefix(f, db+"/")
		if b == "keep" || b == "accounts.coin" || b == "commodities.coin" {
			continue
		}
		if want[f] == nil {
			if old[f] {
				stale = true
				continue
			}
			if s, _ := w.FS.Read(f); s == "" {
				continue
			}
			return fail("files", "an unexpected file %s", f)
		}
	}
	for _, f := range sortedKeys(want) {
		s, ok := w.FS.Read(f)
		if !ok {
			return fail("files", "%s is missing", f)
		}
		got, err := parseCanon(s)
		if err != nil {
			return fail("garbled", "%s: %v", f, err)
		}
		if why := sameTxns(want[f], got); why != "" {
			return fail("files", "%s does not hold the transactions of its period: %s", f, why)
		}
	}
	if s, _ := w.FS.Read(db + "/keep"); s != "mine" {
		return fail("files", "another file was touched")
	}
	st.Counters["files generated"] += len(want)
	if stale {
		return nil
	}
	load := func(a ...string) (*simrt.Proc, string) {
		c := cmd(append([]string{"coin"}, a...)...)
		p := w.Run(c)[0]
		ps = append(ps, p)
		return p, string(p.Stdout)
	}
	p, out := load("stats")
	if !p.OK() || !strings.Contains(out, fmt.Sprintf("Transactions: %d\n", len(ts))) || len(p.Stderr) > 0 {
		return fail("load", "coin does not load the %d generated transactions: %s %s %s", len(ts), p.How(), out, p.Stderr)
	}
	// the balances in the ledger are the sums of the postings
	p, out = load("balance", "-z")
	if !p.OK() || len(p.Stderr) > 0 {
		return fail("load", "coin balance fails: %s %s", p.How(), p.Stderr)
	}
	for _, a := range sortedKeys(bal) {
		b := fmtQty(bal[a], 2)
		if !strings.Contains(out, b) {
			return fail("load", "the balance %s of %s is not in the report:\n%s", b, a, out)
		}
	}
	return nil
}

// sampleRule is one of the sample rules: so many transactions in each period, on different days among
// the given ones, between the given accounts.
type sampleRule struct {
	payees   []string
	from, to []string
	lo, hi   int64 // units; the whole balance of the target if both are 0, a fraction of it if lo is -1
	weeks    int   // 0: every month
	months   int   // every so many months
	days     []int // of the week, or of the month (from its end if negative)
	count    int
}

var sampleCards = []string{"Assets:Bank:Checking", "Liabilities:MasterCard", "Liabilities:Amex"}

var sampleRules = []sampleRule{
	{[]string{"Costco"}, sampleCards, []string{"Expenses:Groceries"}, 100, 1000, 2, 0, []int{1, 2, 3, 4, 5}, 1},
	{[]string{"FARM BOY", "FRESHCO", "LOBLAWS", "LOEB", "SOBEY'S", "NO FRILLS"}, sampleCards, []string{"Expenses:Groceries"}, 30, 200, 1, 0, []int{0, 1, 2, 3, 4, 5, 6}, 2},
	{[]string{"ACME Inc"}, []string{"Income:Salary"}, []string{"Assets:Bank:Checking"}, 2000, 2000, 0, 1, []int{15, -1}, 2},
	{[]string{"repay balance"}, []string{"Assets:Bank:Checking"}, []string{"Liabilities:MasterCard"}, 0, 0, 0, 1, []int{-1, -2, -3}, 1},
	{[]string{"repay balance"}, []string{"Assets:Bank:Checking"}, []string{"Liabilities:Amex"}, 0, 0, 0, 1, []int{-1, -2, -3}, 1},
	{[]string{"Enbridge Gas"}, []string{"Assets:Bank:Checking"}, []string{"Expenses:Heat"}, 100, 200, 0, 1, []int{1}, 1},
	{[]string{"Hydro One"}, []string{"Assets:Bank:Checking"}, []string{"Expenses:Electricity"}, 50, 100, 0, 1, []int{1}, 1},
	{[]string{"City Water&Sewer"}, []string{"Assets:Bank:Checking"}, []string{"Expenses:Water"}, 100, 150, 0, 2, []int{-15}, 1},
	{[]string{"monthly savings"}, []string{"Assets:Bank:Checking"}, []string{"Assets:Bank:Savings"}, 300, 2000, 0, 1, []int{1}, 1},
	{[]string{"monthly interest %2/12"}, []string{"Income:Interest"}, []string{"Assets:Bank:Savings"}, -1, 600, 0, 1, []int{-1}, 1},
}

// followRules checks that the transactions of a range, given by both ends, are those the sample rules ask for.
func followRules(ts []PTxn, b, e int64) string {
	bal := map[string]int64{}
	on := make([]map[int64]int, len(sampleRules))
	for i := range on {
		on[i] = map[int64]int{}
	}
	for k := range ts {
		t := &ts[k]
		q := map[string]int64{}
		for _, p := range t.Posts {
			n, _ := parseDec(p.Qty, 2)
			q[p.Acct] += n
		}
		rule := -1
		for i, r := range sampleRules {
			from, to := 0, 0
			for a := range q {
				if slices.Contains(r.from, a) {
					from++
				}
				if slices.Contains(r.to, a) {
					to++
				}
			}
			if slices.Contains(r.payees, t.Desc) && from == 1 && to == 1 && len(t.Posts) == 2 && len(q) == 2 {
				rule = i
			}
		}
		if rule < 0 {
			return "no rule asks for\n" + t.key()
		}
		r := sampleRules[rule]
		var amt, was int64
		for a, n := range q {
			if slices.Contains(r.to, a) {
				amt, was = n, bal[a]
			}
			bal[a] += n
		}
		switch {
		case r.lo > 0:
			if amt < r.lo*100 || amt > r.hi*100 {
				return fmt.Sprintf("the amount is not between %d and %d in\n%s", r.lo, r.hi, t.key())
			}
		case r.lo == 0:
			if amt != -was {
				return fmt.Sprintf("the balance of %s is not repaid by\n%s", fmtQty(was, 2), t.key())
			}
		default:
			if d := amt*r.hi - was; d > r.hi || d < -r.hi {
				return fmt.Sprintf("the interest is not one %dth of %s in\n%s", r.hi, fmtQty(was, 2), t.key())
			}
		}
		on[rule][t.Day]++
	}
	for i, r := range sampleRules {
		name := fmt.Sprintf("%s (%s)", strings.Join(r.payees, "|"), strings.Join(r.to, "|"))
		period := func(days map[int64]bool, lo, hi int64) string {
			n := 0
			for d := lo; d <= hi; d++ {
				switch c := on[i][d]; {
				case c > 1:
					return fmt.Sprintf("%d transactions of %s on %s", c, name, dayText(d))
				case c == 1 && !days[d]:
					return fmt.Sprintf("a transaction of %s on %s, which is none of its days", name, dayText(d))
				default:
					n += c
				}
			}
			if n > r.count || n < r.count && lo >= b && hi <= e && e > lo {
				return fmt.Sprintf("%d transactions of %s between %s and %s instead of %d", n, name, dayText(lo), dayText(hi), r.count)
			}
			return ""
		}
		if r.weeks > 0 {
			s := b - int64(dayTime(b).Weekday())
			for k := 0; s <= e; k++ {
				days := map[int64]bool{}
				for _, d := range r.days {
					days[s+int64(d)] = k%r.weeks == 0
				}
				cr := r.count
				if k%r.weeks != 0 {
					r.count = 0
				}
				why := period(days, s, s+6)
				r.count = cr
				if why != "" {
					return why
				}
				s += 7
			}
			continue
		}
		y, m, _ := dayTime(b).Date()
		for k := 0; ; k++ {
			s, next := dayOf(y, int(m)+k, 1), dayOf(y, int(m)+k+1, 1)
			if s > e {
				break
			}
			days := map[int64]bool{}
			for _, d := range r.days {
				x := s + int64(d) - 1
				if d < 0 {
					x = next + int64(d)
				}
				days[x] = k%r.months == 0
			}
			cr := r.count
			if k%r.months != 0 {
				r.count = 0
			}
			why := period(days, s, next-1)
			r.count = cr
			if why != "" {
				return why
			}
		}
	}
	return ""
}

// unbalanced tells what is wrong with the postings of a transaction.
func unbalanced(t *PTxn) string {
	if len(t.Posts) < 2 {
		return "fewer than two postings"
	}
	var sum int64
	for _, p := range t.Posts {
		n, err := parseDec(p.Qty, 2)
		if err != nil || p.Comm != t.Posts[0].Comm {
			return "odd amount " + p.Qty + " " + p.Comm
		}
		sum += n
	}
	if sum != 0 {
		return "the sum of the postings is " + fmtQty(sum, 2)
	}
	return ""
}

func init() {
	register(&Check{
		ID: "C13", Level: "exploration", Full: true, Quick: 12000, Thor: 200000,
		Rule:   "Each scenario is a range, a clock setting with a zone and jumps, a sequence of random choices (uniform, biased to the lowest or highest value, mixed) and a way to split the output, into an empty directory, over an earlier run's files or over those of an interrupted run. The ledger on standard output must be balanced, in order and within the range; the JSON form, with running balances, and the files must hold the same transactions; coin must load them.",
		Real:   []string{"gen2coin, coin stats/balance with the coin, check and rex packages, instrumented from the working tree", "encoding/json, flag, math/rand on top of a simulated source, sort"},
		Stub:   []string{"operating system: disk, clock", "source of random numbers, map iteration order (seeded)"},
		Assume: []string{"The same random choices are made for every form of the output.", "With the range's ends left out, the range is three months up to today as the clock has it."},
		Gen:    func(r *simrt.RNG, i int) any { return genGen(r) },
		New:    func() any { return &GenSc{} },
		Run:    runC13,
		Shrink: func(x any) (out []any) {
			sc := x.(*GenSc)
			add := func(f func(n *GenSc)) {
				n := *sc
				f(&n)
				if fmt.Sprint(n) != fmt.Sprint(*sc) {
					out = append(out, &n)
				}
			}
			add(func(n *GenSc) { n.Jumps = nil })
			add(func(n *GenSc) { n.Before = 0 })
			add(func(n *GenSc) { n.Mode = 0 })
			add(func(n *GenSc) { n.Map = 0 })
			add(func(n *GenSc) { n.Zone = 0 })
			add(func(n *GenSc) { n.Balance = false })
			add(func(n *GenSc) { n.Split = "" })
			if sc.B != 0 && sc.E > sc.B {
				add(func(n *GenSc) { n.E = n.B + (n.E-n.B)/2 })
				add(func(n *GenSc) { n.B = n.E - (n.E-n.B)/2 })
				add(func(n *GenSc) { n.E-- })
			}
			return out
		},
	})
}
