package main

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"vsim/simrt"
)

// Rep is a report to be compared with the model.
type Rep struct {
	Kind  string // balance, register, stats, dups, tags, accounts, commodity, prices
	Acct  string `json:",omitempty"` // account name, "" for none given
	B, E  string `json:",omitempty"`
	Ref   string `json:",omitempty"` // the expression used for it
	Payee string `json:",omitempty"`
	Tag   string `json:",omitempty"`
	Level int    `json:",omitempty"`
	Flag  bool   `json:",omitempty"` // balance -z, register -r, tags -v, accounts -c
	Flag2 bool   `json:",omitempty"` // register -n, tags -a
	Loc   bool   `json:",omitempty"` // register -f
	Per   string `json:",omitempty"` // w m q y
	Cat   string `json:",omitempty"` // bp bt
	Out   string `json:",omitempty"`
	Top   int    `json:",omitempty"`
	Cum   bool   `json:",omitempty"`
	Alias int    `json:",omitempty"` // which name of the command is used
}

// model is the ledger as the reports should see it.
type model struct {
	l       *Ledger
	txns    []PTxn // in load order
	names   []string
	comm    map[string]int // account -> commodity
	kids    map[string][]string
	parent  map[string]string
	failing int
	noconv  bool               // an amount had no way to be converted
	zconv   bool               // zero had none
	posts   map[string][]mpost // by account, in the order of the account's register
}

type mpost struct {
	t     *PTxn
	i     int
	qty   *big.Int
	bal   *big.Int // nil: not asserted
	run   *big.Int // running balance of the account after the posting
	tags  map[string]string
	ttags map[string]string
}

func parseQ(s string, dec int) *big.Int {
	i, f, _ := strings.Cut(s, ".")
	for len(f) < dec {
		f += "0"
	}
	n, ok := new(big.Int).SetString(i+f[:dec], 10)
	if !ok {
		panic("bad quantity " + s)
	}
	return n
}

func bigQ(n *big.Int, dec int) string {
	s := new(big.Int).Abs(n).String()
	if dec > 0 {
		for len(s) <= dec {
			s = "0" + s
		}
		s = s[:len(s)-dec] + "." + s[len(s)-dec:]
	}
	if n.Sign() < 0 {
		s = "-" + s
	}
	return s
}

func newModel(l *Ledger, txns []PTxn) *model {
	m := &model{l: l, txns: txns, names: l.allNames(), comm: map[string]int{}, kids: map[string][]string{}, parent: map[string]string{}, posts: map[string][]mpost{}}
	for _, a := range l.Accts {
		m.comm[a.Name] = a.Comm
	}
	for _, n := range m.names { // implied ones have the default commodity, which is the first
		if n == "Root" {
			continue
		}
		p := "Root"
		if i := strings.LastIndex(n, ":"); i >= 0 {
			p = n[:i]
		}
		m.parent[n] = p
		m.kids[p] = append(m.kids[p], n)
	}
	for i := range txns {
		t := &txns[i]
		ttags := tagsOf(t.Notes)
		for j := range t.Posts {
			p := &t.Posts[j]
			mp := mpost{t: t, i: j, qty: parseQ(p.Qty, m.dec(p.Acct)), tags: tagsOf(p.Notes), ttags: ttags}
			if p.Bal != "" {
				mp.bal = parseQ(strings.Fields(p.Bal)[0], m.dec(p.Acct))
			}
			m.posts[p.Acct] = append(m.posts[p.Acct], mp)
		}
	}
	for _, ps := range m.posts {
		sort.SliceStable(ps, func(i, j int) bool { return ps[i].t.Day < ps[j].t.Day })
		run := new(big.Int)
		for i := range ps {
			run = new(big.Int).Add(run, ps[i].qty)
			ps[i].run = run
		}
	}
	return m
}

func (m *model) dec(acct string) int    { return m.l.Comms[m.comm[acct]].Dec }
func (m *model) cur(acct string) string { return m.l.Comms[m.comm[acct]].Id }

// walk calls f for the account and all below it.
func (m *model) walk(a string, f func(string)) {
	f(a)
	for _, k := range m.kids[a] {
		m.walk(k, f)
	}
}

func (m *model) depth(a string) int { return strings.Count(a, ":") + 1 }

func truncTo(n *big.Int, from, to int) *big.Int {
	p := func(k int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil) }
	if from < to {
		return new(big.Int).Mul(n, p(to-from))
	}
	return new(big.Int).Quo(n, p(from-to))
}

// conv converts between commodities by the latest prices: by a direct one, or else through other commodities.
func (m *model) conv(n *big.Int, from, to int) *big.Int {
	v := m.convert(n, from, to, map[int]bool{})
	if v == nil {
		if n.Sign() != 0 {
			m.noconv = true
		}
		m.zconv = true
		return new(big.Int)
	}
	return v
}

func (m *model) convert(n *big.Int, from, to int, seen map[int]bool) *big.Int {
	if from == to {
		return n
	}
	step := func(to int) *big.Int {
		var best *Price
		for i := range m.l.Prices {
			if p := &m.l.Prices[i]; p.C == from && p.K == to && (best == nil || p.Day > best.Day) {
				best = p
			}
		}
		if best == nil {
			return nil
		}
		v := new(big.Int).Mul(n, big.NewInt(best.Val))
		return truncTo(v, m.l.Comms[from].Dec, 0)
	}
	if v := step(to); v != nil {
		return v
	}
	seen[from] = true
	for k := range m.l.Comms { // the prices of a scenario leave at most one way
		if !seen[k] {
			if v := step(k); v != nil {
				if v = m.convert(v, k, to, seen); v != nil {
					return v
				}
			}
		}
	}
	return nil
}

// treePrices leaves one way to convert a commodity into another, mostly through others, or none if cut.
func (l *Ledger) treePrices(r *simrt.RNG, cut bool) {
	var ps []Price
	edge := func(c, k int) {
		seen := map[int64]bool{}
		for n := r.In(1, 3); n > 0; n-- {
			d := dayOf(2022, 1, 1) + int64(r.N(500))
			if !seen[d] {
				seen[d] = true
				ps = append(ps, Price{Day: d, C: c, K: k, Val: int64(r.In(1, 300000))})
			}
		}
	}
	order := simrt.Shuffled(r, seq(len(l.Comms)))
	broken := -1
	if cut {
		broken = r.In(1, len(order)-1)
	}
	for i := 1; i < len(order); i++ {
		k := order[r.N(i)]
		if r.P(60) {
			k = order[i-1]
		}
		way := 3
		if i == broken {
			way = r.N(3)
		}
		if way&1 != 0 {
			edge(order[i], k)
		}
		if way&2 != 0 {
			edge(k, order[i])
		}
	}
	simrt.Shuffle(r, ps)
	l.Prices = ps
}

func optDay(s string) int64 {
	var y, mo, d int
	switch strings.Count(s, "/") {
	case 0:
		fmt.Sscanf(s, "%d", &y)
		mo, d = 1, 1
	case 1:
		fmt.Sscanf(s, "%d/%d", &y, &mo)
		d = 1
	default:
		fmt.Sscanf(s, "%d/%d/%d", &y, &mo, &d)
	}
	return dayOf(y, mo, d)
}

func (r *Rep) inPeriod(day int64) bool {
	return (r.B == "" || day >= optDay(r.B)) && (r.E == "" || day < optDay(r.E))
}

// selects says whether the report includes the posting.
func (r *Rep) selects(p *mpost) bool {
	if !r.inPeriod(p.t.Day) {
		return false
	}
	if r.Payee != "" {
		rx, inv := strings.CutPrefix(r.Payee, "!")
		if regexp.MustCompile("(?i)"+rx).MatchString(p.t.Desc) == inv {
			return false
		}
	}
	if r.Tag != "" && !tagKeyMatch(r.Tag, p.tags) && !tagKeyMatch(r.Tag, p.ttags) {
		return false
	}
	return true
}

func (r *Rep) args() []string {
	a := []string{"coin", r.Kind}
	opt := func(n, v string) {
		if v != "" {
			a = append(a, n, v)
		}
	}
	flag := func(n string, on bool) {
		if on {
			a = append(a, n)
		}
	}
	switch r.Kind {
	case "balance":
		opt("-b", r.B)
		opt("-e", r.E)
		opt("-p", r.Payee)
		opt("-t", r.Tag)
		flag("-z", r.Flag)
		if r.Level > 0 {
			a = append(a, "-l", fmt.Sprint(r.Level))
		}
		if r.Acct != "" {
			a = append(a, r.acctArg())
		}
	case "register":
		opt("-b", r.B)
		opt("-e", r.E)
		opt("-p", r.Payee)
		opt("-t", r.Tag)
		flag("-r", r.Flag)
		flag("-n", r.Flag2)
		flag("-f", r.Loc)
		if r.Per != "" {
			a = append(a, "-"+r.Per)
		}
		if r.Cat != "" {
			a = append(a, "-"+r.Cat)
		}
		opt("-o", r.Out)
		if r.Top > 0 {
			a = append(a, "-g", fmt.Sprint(r.Top))
		}
		flag("-c", r.Cum)
		a = append(a, "-l", "200", r.acctArg())
	case "stats":
		flag("-u", r.Flag)
		flag("-c", r.Flag2)
		opt("-b", r.B)
		opt("-e", r.E)
	case "dups":
		a[1] = "stats"
		a = append(a, "-d")
		opt("-b", r.B)
		opt("-e", r.E)
	case "tags":
		flag("-v", r.Flag)
		flag("-a", r.Flag2)
		opt0 := r.Tag
		if opt0 != "" {
			a = append(a, opt0)
		}
	case "accounts":
		flag("-c", r.Flag)
		if r.Acct != "" {
			a = append(a, r.Acct)
		}
	case "commodity":
		a = []string{"coin", "commodities"}
		flag("-f", r.Loc)
		a = append(a, r.Acct)
	case "prices":
		a = []string{"coin", "commodities", "-p"}
	case "listing":
		a = []string{"coin", "commodities"}
	}
	if names := aliases[a[1]]; r.Alias > 0 && len(names) > 0 {
		if a[1] == "balance" && len(a) == 2 && r.Alias > 2 { // what coin does by default
			return a[:1]
		}
		a[1] = names[r.Alias%len(names)]
	}
	return a
}

var aliases = map[string][]string{
	"balance":     {"bal", "b"},
	"register":    {"reg", "r"},
	"stats":       {"s"},
	"accounts":    {"acc", "a"},
	"commodities": {"com", "c"},
}

func (r *Rep) acctArg() string {
	if r.Ref != "" {
		return r.Ref
	}
	return r.Acct
}

// h0cwd is the working directory of the simulated processes.
const h0cwd = "/w"

func multiset(have, want []string) string {
	n := map[string]int{}
	for _, w := range want {
		n[w]++
	}
	for _, h := range have {
		n[h]--
	}
	var missing, extra []string
	for _, k := range sortedKeys(n) {
		switch {
		case n[k] > 0:
			missing = append(missing, k)
		case n[k] < 0:
			extra = append(extra, k)
		}
	}
	if missing == nil && extra == nil {
		return ""
	}
	return fmt.Sprintf("missing %q, unexpected %q", missing, extra)
}

func outLines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

func cells(line string) []string {
	cs := strings.Split(line, "|")
	for i := range cs {
		cs[i] = strings.TrimSpace(cs[i])
	}
	return cs
}

// check compares the output of the report with the model and says what is wrong, or "".
func (r *Rep) check(m *model, out string) string {
	switch r.Kind {
	case "balance":
		return r.checkBalance(m, out)
	case "register":
		if r.Per != "" || r.Cat != "" {
			return r.checkAggregated(m, out)
		}
		return r.checkRegister(m, out)
	case "stats":
		n := 0
		for i := range m.txns {
			if r.inPeriod(m.txns[i].Day) {
				n++
			}
		}
		want := []string{fmt.Sprintf("Commodities: %d", len(m.l.Comms)), fmt.Sprintf("Prices: %d", len(m.l.Prices)),
			fmt.Sprintf("Accounts: %d", len(m.names)), fmt.Sprintf("Transactions: %d", n)}
		ls := outLines(out)
		if len(ls) < 4 {
			return "no totals"
		}
		if why := multiset(ls[len(ls)-4:], want); why != "" {
			return why
		}
		// what is found: by location, once or more
		found := map[string]bool{}
		for i, x := range ls[:len(ls)-4] {
			if x == "UNBALANCED TRANSACTION!" {
				found["unbalanced "+ls[i+1]] = true
			}
			if strings.HasPrefix(x, "BAD CONVERSION: ") {
				found["conversion "+x[strings.LastIndexByte(x, ' ')+1:]] = true
			}
		}
		for i := range m.txns {
			t := &m.txns[i]
			unb := false
			for _, p := range t.Posts {
				unb = unb || p.Acct == "Unbalanced"
			}
			if k := "unbalanced " + t.Loc; found[k] != (r.Flag && unb && r.inPeriod(t.Day)) {
				return fmt.Sprintf("%s: reported %v, should be %v", k, found[k], !found[k])
			} else {
				delete(found, k)
			}
			bad, cut := false, false
			if len(t.Posts) == 2 && m.comm[t.Posts[0].Acct] != m.comm[t.Posts[1].Acct] {
				d0, d1 := m.dec(t.Posts[0].Acct), m.dec(t.Posts[1].Acct)
				a, b := parseQ(t.Posts[0].Qty, d0), new(big.Int).Neg(parseQ(t.Posts[1].Qty, d1))
				bad = truncTo(a, d0, 30).Cmp(truncTo(b, d1, 30)) == 0
				cut = truncTo(a, d0, 0).Cmp(truncTo(b, d1, 0)) == 0 // equal up to decimals one of them does not have: left open
			}
			k := "conversion " + t.Loc
			if want := r.Flag2 && bad && r.inPeriod(t.Day); found[k] && !(r.Flag2 && (bad || cut) && r.inPeriod(t.Day)) || !found[k] && want {
				return fmt.Sprintf("%s: reported %v, should be %v", k, found[k], !found[k])
			}
			delete(found, k)
		}
		for _, k := range sortedKeys(found) {
			return k + " is reported, which is no transaction of the ledger"
		}
	case "dups":
		want := map[string]bool{}
		n := 0
		for i := range m.txns {
			for j := 0; j < i; j++ {
				if a, b := &m.txns[i], &m.txns[j]; r.inPeriod(a.Day) && sameEntry(m, a, b) {
					n++
					want[a.Loc+" "+b.Loc] = true
					want[b.Loc+" "+a.Loc] = true
				}
			}
		}
		if got := strings.Count(out, "DUPLICATE TRANSACTION?\n"); got != n {
			return fmt.Sprintf("%d pairs of equal transactions on one day, %d reported", n, got)
		}
		for _, b := range strings.Split(out, "DUPLICATE TRANSACTION?\n")[1:] {
			var locs []string
			for _, x := range strings.Split(b, "\n") {
				if strings.HasPrefix(x, db+"/") {
					locs = append(locs, x)
				}
			}
			if k := strings.Join(locs, " "); !want[k] {
				return fmt.Sprintf("transactions reported as duplicates of each other are not: %q", k)
			}
		}
	case "tags":
		return r.checkTags(m, out)
	case "accounts":
		var want, got []string
		closed := map[string]bool{}
		desc := map[string]string{}
		for _, a := range m.l.Accts {
			closed[a.Name] = a.Closed != ""
			desc[a.Name] = a.Note
		}
		for _, n := range m.names {
			hide := false
			for x := n; x != ""; x = m.parent[x] {
				hide = hide || closed[x]
			}
			if r.Acct != "" && !strings.Contains(strings.ToLower(n), strings.ToLower(r.Acct)) {
				continue
			}
			if !hide || r.Flag {
				want = append(want, fmt.Sprintf("%s|%s|%s", n, m.cur(n), desc[n]))
			}
		}
		for _, x := range outLines(out) {
			got = append(got, strings.Join(cells(x), "|"))
		}
		return multiset(got, want)
	case "listing":
		var want, got []string
		for _, c := range m.l.Comms {
			quoted := ""
			if c.Symbol != "" && !c.NoMarket {
				quoted = "Q"
			}
			want = append(want, fmt.Sprintf("%s|%s|%s|%s", c.Id, c.Symbol, quoted, c.Note))
		}
		for _, x := range outLines(out) {
			got = append(got, strings.Join(cells(x), "|"))
		}
		return multiset(got, want)
	case "commodity":
		type located struct {
			Price
			line int
		}
		var want []located
		for i, p := range m.l.Prices {
			if m.l.Comms[p.C].Id == r.Acct {
				want = append(want, located{p, i + 1})
			}
		}
		sort.SliceStable(want, func(i, j int) bool {
			if want[i].K != want[j].K {
				return m.l.Comms[want[i].K].Id < m.l.Comms[want[j].K].Id
			}
			return want[i].Day > want[j].Day
		})
		w := ""
		for _, p := range want {
			w += fmt.Sprintf("%s %s %s", dayText(p.Day), fmtQty(p.Val, m.l.Comms[p.K].Dec), m.l.Comms[p.K].Id)
			if r.Loc {
				w += fmt.Sprintf(" %s/2022.prices:%d", db, p.line)
			}
			w += "\n"
		}
		if w != out {
			return "prices differ: " + firstDiff(w, out)
		}
	case "prices":
		for c := range m.l.Comms {
			n := map[int]int{}
			last := map[int]Price{}
			for _, p := range m.l.Prices {
				if p.C == c {
					if n[p.K]++; n[p.K] == 1 || p.Day > last[p.K].Day {
						last[p.K] = p
					}
				}
			}
			var want []string
			for k := range n {
				want = append(want, fmt.Sprintf("%s %s %s [%d]", dayText(last[k].Day), fmtQty(last[k].Val, m.l.Comms[k].Dec), m.l.Comms[k].Id, n[k]))
			}
			found := false
			for _, x := range outLines(out) {
				id, rest, has := strings.Cut(x, ": ")
				if id == m.l.Comms[c].Id {
					found = true
					var got []string
					if has {
						got = strings.Split(rest, ", ")
					}
					if why := multiset(got, want); why != "" {
						return "prices of " + id + ": " + why
					}
				}
			}
			if !found {
				return "no line for commodity " + m.l.Comms[c].Id
			}
		}
	}
	return ""
}

func sameEntry(m *model, a, b *PTxn) bool {
	if a.Day != b.Day || a.Code != b.Code || len(a.Posts) != len(b.Posts) {
		return false
	}
	for i := range a.Posts {
		if a.Posts[i].Acct != b.Posts[i].Acct || parseQ(a.Posts[i].Qty, m.dec(a.Posts[i].Acct)).Cmp(parseQ(b.Posts[i].Qty, m.dec(a.Posts[i].Acct))) != 0 {
			return false
		}
	}
	return true
}

func (r *Rep) root(m *model) string {
	if r.Acct == "" {
		return "Root"
	}
	return r.Acct
}

// unconvertible says whether the report has to add up an amount that cannot be converted, and whether it has to convert
// anything, if only zero, that cannot be.
func (r *Rep) unconvertible(m *model) (sure, maybe bool) {
	defer func(a, b bool) { m.noconv, m.zconv = a, b }(m.noconv, m.zconv)
	m.noconv, m.zconv = false, false
	switch {
	case r.Kind == "balance":
		r.balances(m)
		return m.noconv, m.zconv
	case r.Kind == "register" && r.Per == "" && r.Cat == "":
		n := m.selected(r)
		for _, a := range sortedKeys(n) {
			for _, p := range n[a] {
				m.conv(p.qty, m.comm[a], m.comm[r.Acct])
			}
		}
		return m.noconv, m.zconv
	case r.Kind == "register":
		if r.Flag {
			n := m.selected(r)
			for _, a := range sortedKeys(n) {
				if len(n[a]) > 0 && a != r.Acct {
					m.conv(new(big.Int), m.comm[a], m.comm[m.parent[a]])
				}
			}
		}
		m.walk(r.Acct, func(a string) { // small columns are added to the largest of them
			m.walk(r.Acct, func(b string) { m.conv(new(big.Int), m.comm[a], m.comm[b]) })
		})
		return false, m.zconv
	}
	return false, false
}

// selected lists the postings of a register by account.
func (m *model) selected(r *Rep) map[string][]*mpost {
	out := map[string][]*mpost{}
	add := func(a string) {
		for i := range m.posts[a] {
			if p := &m.posts[a][i]; r.selects(p) {
				out[a] = append(out[a], p)
			}
		}
	}
	if r.Flag {
		m.walk(r.Acct, add)
	} else {
		add(r.Acct)
	}
	return out
}

func (r *Rep) balances(m *model) (tot, cum map[string]*big.Int) {
	tot = map[string]*big.Int{}
	cum = map[string]*big.Int{}
	var rec func(a string)
	rec = func(a string) {
		s := new(big.Int)
		for i := range m.posts[a] {
			if p := &m.posts[a][i]; r.selects(p) {
				s.Add(s, p.qty)
			}
		}
		tot[a] = s
		c := new(big.Int).Set(s)
		for _, k := range m.kids[a] {
			rec(k)
			c.Add(c, m.conv(cum[k], m.comm[k], m.comm[a]))
		}
		cum[a] = c
	}
	rec(r.root(m))
	return tot, cum
}

func (r *Rep) checkBalance(m *model, out string) string {
	tot, cum := r.balances(m)
	var want, got []string
	m.walk(r.root(m), func(a string) {
		if r.Level > 0 && a != "Root" && m.depth(a) > r.Level {
			return
		}
		if r.Flag || cum[a].Sign() != 0 {
			want = append(want, fmt.Sprintf("%s|%s %s|%s", bigQ(tot[a], m.dec(a)), bigQ(cum[a], m.dec(a)), m.cur(a), a))
		}
	})
	for _, x := range outLines(out) {
		cs := cells(x)
		if len(cs) == 3 {
			cs[1] = strings.Join(strings.Fields(cs[1]), " ")
		}
		got = append(got, strings.Join(cs, "|"))
	}
	return multiset(got, want)
}

func (r *Rep) checkRegister(m *model, out string) string {
	ls := outLines(out)
	if head := r.Acct + " " + m.cur(r.Acct); len(ls) == 0 || ls[0] != head {
		return fmt.Sprintf("first line should be %q: %q", head, out)
	}
	ls = ls[1:]
	type line struct{ key, date, qty, total string }
	var want []string
	add := func(a string) {
		for i := range m.posts[a] {
			p := &m.posts[a][i]
			if !r.selects(p) {
				continue
			}
			k := []string{dayText(p.t.Day), strings.TrimSpace(p.t.Desc)}
			if r.Flag {
				k = append(k, strings.TrimPrefix(a, r.Acct))
			}
			if len(p.t.Posts) == 2 {
				k = append(k, strings.TrimPrefix(p.t.Posts[1-p.i].Acct, r.Acct))
			} else {
				k = append(k, "*")
			}
			star := ""
			if p.bal != nil {
				star = "*"
			}
			k = append(k, bigQ(p.qty, m.dec(a)), m.cur(a)+star)
			if r.Loc {
				k[len(k)-1] += " " + p.t.Loc
			}
			if r.Flag2 {
				k = append(k, fmt.Sprintf("%q", trimAll(append(append([]string{}, p.t.Posts[p.i].Notes...), p.t.Notes...))))
			}
			want = append(want, strings.Join(k, "|"))
		}
	}
	if r.Flag {
		m.walk(r.Acct, add)
	} else {
		add(r.Acct)
	}
	// which postings have more than one other: decided by the model, by position among equals
	many := map[string]bool{}
	for _, w := range want {
		cs := strings.Split(w, "|")
		if i := len(cs) - 3; true {
			if r.Flag2 {
				i--
			}
			if cs[i] == "*" {
				many[w] = true
			}
		}
	}
	var got []string
	total := new(big.Int)
	last := ""
	ncol := 5
	if r.Flag {
		ncol = 6
	}
	for i := 0; i < len(ls); i++ {
		body, loc := ls[i], ""
		if j := strings.LastIndex(body, "| "); r.Loc && j >= 0 {
			loc = strings.TrimSpace(body[j+1:])
			body = body[:j]
			if strings.HasPrefix(loc, "./") {
				loc = h0cwd + loc[1:]
			}
		}
		cs := strings.SplitN(body, "|", ncol)
		if len(cs) != ncol {
			return fmt.Sprintf("line %d is not a posting: %q", i+2, ls[i])
		}
		for j := range cs {
			cs[j] = strings.TrimSpace(cs[j])
		}
		f := strings.Fields(cs[ncol-1])
		if len(f) != 2 {
			return fmt.Sprintf("line %d has no total: %q", i+2, ls[i])
		}
		if cs[0] < last {
			return fmt.Sprintf("line %d is out of order: %q", i+2, ls[i])
		}
		last = cs[0]
		cur := strings.TrimSuffix(f[1], "*")
		ci := -1
		for k, c := range m.l.Comms {
			if c.Id == cur {
				ci = k
			}
		}
		if ci < 0 {
			return fmt.Sprintf("line %d: %q", i+2, ls[i])
		}
		q := parseQ(cs[ncol-2], m.l.Comms[ci].Dec)
		if bigQ(q, m.l.Comms[ci].Dec) != cs[ncol-2] {
			return fmt.Sprintf("line %d: the quantity does not have the decimals of %s: %q", i+2, cur, ls[i])
		}
		total.Add(total, m.conv(q, ci, m.comm[r.Acct]))
		if w := bigQ(total, m.dec(r.Acct)); w != f[0] {
			return fmt.Sprintf("line %d: running total is %s, should be %s: %q", i+2, f[0], w, ls[i])
		}
		k := append([]string{}, cs[:ncol-1]...)
		k = append(k, f[1])
		if r.Loc {
			k[len(k)-1] += " " + loc
		}
		if r.Flag2 {
			ns := []string{}
			for i+1 < len(ls) && strings.HasPrefix(ls[i+1], "           ;") {
				i++
				ns = append(ns, strings.TrimSpace(strings.TrimPrefix(ls[i], "           ;")))
			}
			k = append(k, fmt.Sprintf("%q", trimAll(ns)))
		}
		g := strings.Join(k, "|")
		// the counterpart is only defined for two postings
		k2 := append([]string{}, k...)
		at := ncol - 3
		k2[at] = "*"
		if w := strings.Join(k2, "|"); many[w] && !contains(want, g) {
			g = w
		}
		got = append(got, g)
	}
	if why := multiset(got, want); why != "" {
		return why
	}
	// the postings of an account that are on the same day keep their order
	byAcct := func(ls []string) map[string][]string {
		out := map[string][]string{}
		for _, l := range ls {
			k := ""
			if r.Flag {
				k = strings.Split(l, "|")[2]
			}
			out[k] = append(out[k], l)
		}
		return out
	}
	w := byAcct(want)
	for k, g := range byAcct(got) {
		for i := range g {
			if g[i] != w[k][i] {
				return fmt.Sprintf("posting %d (of %s%s) is %q, in the ledger it is %q", i+1, r.Acct, k, g[i], w[k][i])
			}
		}
	}
	return ""
}

func trimAll(in []string) []string {
	out := []string{}
	for _, s := range in {
		out = append(out, strings.TrimSpace(s))
	}
	return out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// key is the row of an aggregated register a posting falls into.
func (r *Rep) key(p *mpost) [2]string {
	var k [2]string
	t := dayTime(p.t.Day)
	switch r.Per {
	case "w":
		k[0] = dayText(p.t.Day - int64(t.Weekday()))
	case "m":
		k[0] = t.Format("2006/01")
	case "q":
		k[0] = fmt.Sprintf("%d/%02d", t.Year(), (int(t.Month())-1)/3*3+1)
	case "y":
		k[0] = t.Format("2006")
	}
	switch r.Cat {
	case "bp":
		k[1] = p.t.Desc
	case "bt":
		tags := map[string]string{}
		for a, v := range p.ttags {
			tags[a] = v
		}
		for a, v := range p.tags {
			tags[a] = v
		}
		var kv []string
		for a, v := range tags {
			if v != "" {
				a += ":" + v
			}
			kv = append(kv, a)
		}
		sort.Strings(kv)
		k[1] = strings.Join(kv, ",")
		if len(kv) == 0 {
			k[1] = "<no-tags>"
		}
	}
	return k
}

func (r *Rep) checkAggregated(m *model, out string) string {
	type col map[[2]string]*big.Int
	cols := map[string]col{}
	rows := map[[2]string]bool{}
	var rec func(a string)
	rec = func(a string) {
		c := col{}
		for i := range m.posts[a] {
			if p := &m.posts[a][i]; r.selects(p) {
				k := r.key(p)
				rows[k] = true
				if c[k] == nil {
					c[k] = new(big.Int)
				}
				c[k].Add(c[k], p.qty)
			}
		}
		cols[a] = c
		for _, kid := range m.kids[a] {
			rec(kid)
			if !r.Flag {
				continue
			}
			for k, v := range cols[kid] {
				if c[k] == nil {
					c[k] = new(big.Int)
				}
				c[k].Add(c[k], m.conv(v, m.comm[kid], m.comm[a]))
			}
		}
	}
	rec(r.Acct)
	var keys [][2]string
	for k := range rows {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i][0] < keys[j][0] || keys[i][0] == keys[j][0] && keys[i][1] < keys[j][1]
	})
	// the table printed
	var tab [][]string
	nk := 0
	if r.Per != "" {
		nk++
	}
	if r.Cat != "" {
		nk++
	}
	switch r.Out {
	case "csv":
		cr := csv.NewReader(strings.NewReader(out))
		cr.FieldsPerRecord = -1
		t, err := cr.ReadAll()
		if err != nil {
			return "not CSV: " + err.Error()
		}
		tab = t
	case "json":
		for _, x := range outLines(out) {
			var row []string
			if err := json.Unmarshal([]byte(x), &row); err != nil {
				return "not JSON: " + err.Error()
			}
			tab = append(tab, row)
		}
	default:
		ls := outLines(out)
		if head := r.Acct + " " + m.cur(r.Acct); len(ls) == 0 || ls[0] != head {
			return fmt.Sprintf("first line should be %q: %q", head, out)
		}
		for _, x := range ls[1:] {
			tab = append(tab, cells(x))
		}
	}
	if len(keys) == 0 {
		if len(tab) != 0 {
			return fmt.Sprintf("nothing is selected but the report has %d lines: %s", len(tab), quote(out))
		}
		return ""
	}
	if len(tab) != len(keys)+1 {
		return fmt.Sprintf("%d rows should be %d: %s", len(tab)-1, len(keys), quote(out))
	}
	got := map[string][]string{}
	var labels []string
	for j := nk; j < len(tab[0]); j++ {
		lab := tab[0][j]
		if got[lab] != nil {
			return "two columns are called " + lab
		}
		labels = append(labels, lab)
		got[lab] = []string{}
		for i := range keys {
			if len(tab[i+1]) != len(tab[0]) {
				return fmt.Sprintf("row %d has %d cells, the head %d", i+1, len(tab[i+1]), len(tab[0]))
			}
			got[lab] = append(got[lab], tab[i+1][j])
		}
	}
	for i, k := range keys {
		want := []string{}
		if r.Per != "" {
			want = append(want, k[0])
		}
		if r.Cat != "" {
			w := k[1]
			if r.Out == "" || r.Out == "text" {
				w = strings.TrimSpace(w)
			}
			want = append(want, w)
		}
		if fmt.Sprintf("%q", tab[i+1][:nk]) != fmt.Sprintf("%q", want) {
			return fmt.Sprintf("row %d is %q, should be %q", i+1, tab[i+1][:nk], want)
		}
	}
	vec := func(a string) (out []string, sum *big.Int, nonzero bool) {
		sum = new(big.Int)
		run := new(big.Int)
		for _, k := range keys {
			v := cols[a][k]
			if v == nil {
				v = new(big.Int)
			}
			if v.Sign() != 0 {
				nonzero = true
			}
			sum.Add(sum, v)
			run = new(big.Int).Add(run, v)
			if r.Cum {
				v = run
			}
			out = append(out, bigQ(v, m.dec(a)))
		}
		return
	}
	shown := map[string]bool{}
	var worst *big.Int // smallest magnitude shown
	why := ""
	m.walk(r.Acct, func(a string) {
		lab := strings.TrimPrefix(a, r.Acct)
		if a == r.Acct {
			lab = a[strings.LastIndex(a, ":")+1:]
		}
		g, ok := got[lab]
		if !ok {
			return
		}
		shown[a] = true
		w, sum, _ := vec(a)
		if mag := new(big.Int).Abs(sum); worst == nil || mag.Cmp(worst) < 0 {
			worst = mag
		}
		if fmt.Sprint(g) != fmt.Sprint(w) && why == "" {
			why = fmt.Sprintf("column %s is %v, should be %v (rows %v)", lab, g, w, keys)
		}
	})
	if why != "" {
		return why
	}
	other, hasOther := got["Other"]
	if n := len(labels); n != len(shown) && !(hasOther && n == len(shown)+1) {
		return fmt.Sprintf("columns %q", labels)
	}
	if r.Top > 0 && len(shown) > r.Top {
		return fmt.Sprintf("%d columns, at most %d were asked for: %q", len(shown), r.Top, labels)
	}
	rest := make([]*big.Int, len(keys))
	for i := range rest {
		rest[i] = new(big.Int)
	}
	single := true
	m.walk(r.Acct, func(a string) {
		single = single && m.comm[a] == m.comm[r.Acct]
		if shown[a] {
			return
		}
		_, sum, nz := vec(a)
		if nz && !hasOther && why == "" {
			why = fmt.Sprintf("account %s has amounts but no column: %q", a, labels)
		}
		if single && worst != nil && new(big.Int).Abs(sum).Cmp(worst) > 0 && why == "" {
			why = fmt.Sprintf("account %s with total %s is left out in favour of a smaller one: %q", a, sum, labels)
		}
		run := new(big.Int)
		for i, k := range keys {
			v := cols[a][k]
			if v == nil {
				v = new(big.Int)
			}
			run = new(big.Int).Add(run, v)
			if r.Cum {
				v = run
			}
			rest[i].Add(rest[i], v)
		}
	})
	if why != "" {
		return why
	}
	if hasOther && single && !r.Flag {
		for i := range rest {
			if w := bigQ(rest[i], m.dec(r.Acct)); other[i] != w {
				return fmt.Sprintf("row %d: Other is %s, the accounts without a column add up to %s", i+1, other[i], w)
			}
		}
	}
	return ""
}

func (r *Rep) checkTags(m *model, out string) string {
	vals := map[string]map[string]bool{}
	accs := map[string]map[string]bool{}
	rx := regexp.MustCompile("(?i)" + r.Tag)
	add := func(tags map[string]string, accounts ...string) {
		for k, v := range tags {
			if !rx.MatchString(k) {
				continue
			}
			if vals[k] == nil {
				vals[k] = map[string]bool{}
				accs[k] = map[string]bool{}
			}
			vals[k][v] = true
			for _, a := range accounts {
				accs[k][a] = true
			}
		}
	}
	for i := range m.txns {
		t := &m.txns[i]
		var all []string
		for j := range t.Posts {
			add(tagsOf(t.Posts[j].Notes), t.Posts[j].Acct)
			all = append(all, t.Posts[j].Acct)
		}
		add(tagsOf(t.Notes), all...)
	}
	var want, got []string
	for k, vs := range vals {
		delete(vs, "")
		w := k
		if len(vs) > 0 {
			w += ":"
			if r.Flag {
				w += ` "` + strings.Join(sortedKeys(vs), `", "`) + `"`
			}
		}
		if r.Flag2 {
			for _, a := range sortedKeys(accs[k]) {
				w += "\n" + a
			}
		}
		want = append(want, w)
	}
	ls := outLines(out)
	for i := 0; i < len(ls); i++ {
		g := ls[i]
		var as []string
		for i+1 < len(ls) && strings.HasPrefix(ls[i+1], "\t") {
			i++
			as = append(as, strings.TrimSpace(ls[i]))
		}
		sort.Strings(as)
		for _, a := range as {
			g += "\n" + a
		}
		got = append(got, g)
	}
	return multiset(got, want)
}

// hasWord tells whether the account or number occurs on its own, not as part of a longer or negative one.
func hasWord(s, w string) bool {
	word := func(c byte) bool {
		return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || strings.IndexByte("_-/", c) >= 0
	}
	for from := 0; ; {
		i := strings.Index(s[from:], w)
		if i < 0 {
			return false
		}
		i += from
		j := i + len(w)
		before := i > 0 && (word(s[i-1]) || i > 1 && (s[i-1] == ':' || s[i-1] == '.') && word(s[i-2]))
		after := j < len(s) && (word(s[j]) || j+1 < len(s) && (s[j] == ':' || s[j] == '.') && word(s[j+1]))
		if !before && !after {
			return true
		}
		from = i + 1
	}
}

// assertions lists the balance assertions that do not hold, and checks that exactly these are reported.
func (m *model) assertions(stderr string) string {
	ls := outLines(stderr)
	used := make([]bool, len(ls))
	why := ""
	n := 0
	for _, a := range sortedKeys(m.posts) {
		for i := range m.posts[a] {
			p := &m.posts[a][i]
			if p.bal == nil || p.bal.Cmp(p.run) == 0 {
				continue
			}
			n++
			m.failing = n
			found := false
			for j, x := range ls {
				if !used[j] && hasWord(x, a) && strings.Contains(x, dayText(p.t.Day)) &&
					hasWord(x, bigQ(p.bal, m.dec(a))) && hasWord(x, bigQ(p.run, m.dec(a))) {
					used[j] = true
					found = true
					break
				}
			}
			if !found && why == "" {
				why = fmt.Sprintf("the balance assertion of %s on %s (%s, the balance is %s) is not reported", a, dayText(p.t.Day), bigQ(p.bal, m.dec(a)), bigQ(p.run, m.dec(a)))
			}
		}
	}
	if why == "" {
		for j, x := range ls {
			if !used[j] {
				return fmt.Sprintf("%q is reported, but all balance assertions that fail are accounted for (%d)", x, n)
			}
		}
	}
	return why
}

// ---------------------------------------------------------------------------------------------------- generator

func (l *Ledger) genRep(r *simrt.RNG, multi bool) *Rep {
	x := &Rep{}
	names := l.allNames()
	period := func() {
		day := func() string {
			d := dayOf(2022, 11, 1) + int64(r.N(540))
			if r.P(40) {
				d = dayOf(2022, 11, 1) + int64(r.N(4))
			}
			t := dayTime(d)
			switch r.N(6) {
			case 0:
				return t.Format("2006")
			case 1:
				return t.Format("2006/01")
			case 2:
				return fmt.Sprintf("%d/%d/%d", t.Year(), t.Month(), t.Day())
			}
			return dayText(d)
		}
		if r.P(35) {
			x.B = day()
		}
		if r.P(35) {
			x.E = day()
		}
	}
	filter := func() {
		if r.P(20) {
			x.Payee = simrt.Pick(r, "rent", "coffee", "o", "^t", "S$", "[0-9]", "no such payee", ".")
			if x.Payee[0] != '.' && r.P(20) && x.Kind == "register" {
				x.Payee = "!" + x.Payee
			}
		}
		if r.P(20) {
			x.Tag = simrt.Pick(r, append([]string{"t", "o", "k:", "trip:a", "one:x|y"}, tagKeys...)...)
			if r.P(40) {
				x.Tag = simrt.Pick(r, tagKeys...) + ":" + simrt.Pick(r, "a", "^a$", "7", "two", "x", "2024", "b", "paris|7")
			}
			if r.P(25) {
				x.Tag = "!" + x.Tag
			}
		}
	}
	acct := func() string {
		if r.P(60) {
			return l.Accts[r.N(len(l.Accts))].Name
		}
		return simrt.Pick(r, names...)
	}
	switch r.N(16) {
	case 0, 1, 2, 3:
		x.Kind = "balance"
		period()
		filter()
		if r.P(40) {
			x.Acct = acct()
		}
		if r.P(30) {
			x.Level = r.In(1, 3)
		}
		x.Flag = r.P(40)
	case 4, 5, 6:
		x.Kind = "register"
		x.Acct = acct()
		period()
		filter()
		x.Flag = r.P(50)
		x.Flag2 = r.P(25)
		x.Loc = r.P(25)
	case 7, 8, 9, 10, 11:
		x.Kind = "register"
		x.Acct = acct()
		if r.P(40) { // something with descendants
			a := l.Accts[r.N(len(l.Accts))].Name
			x.Acct, _, _ = strings.Cut(a, ":")
			if r.P(40) {
				x.Acct = "Root"
			}
		}
		period()
		filter()
		x.Flag = r.P(40)
		if r.P(80) {
			x.Per = simrt.Pick(r, "w", "m", "q", "y")
		}
		if x.Per == "" || r.P(30) {
			x.Cat = simrt.Pick(r, "bp", "bt")
		}
		x.Out = simrt.Pick(r, "csv", "json", "csv", "text", "")
		x.Top = simrt.Pick(r, 100, 100, 1, 2, 3, 0)
		x.Cum = x.Cat == "" && r.P(30)
	case 12:
		x.Kind = "stats"
		x.Flag, x.Flag2 = r.P(40), r.P(40)
		period()
	case 13:
		x.Kind = simrt.Pick(r, "dups", "accounts")
		if x.Kind == "accounts" {
			x.Flag = r.P(50)
			if r.P(40) {
				x.Acct = simrt.Pick(r, strings.Split(acct(), ":")...)
				if r.P(50) {
					x.Acct = strings.ToLower(x.Acct)
				}
				if r.P(40) {
					k := r.N(len(x.Acct))
					if w := x.Acct[k : k+1+r.N(len(x.Acct)-k)]; w[0] != '-' {
						x.Acct = w
					}
				}
			}
		} else {
			period()
		}
	case 14:
		x.Kind = "tags"
		x.Flag = r.P(60)
		x.Flag2 = r.P(50)
		if r.P(30) {
			x.Tag = simrt.Pick(r, "t", "o", "^w", "nothing")
		}
	case 15:
		x.Kind = simrt.Pick(r, "commodity", "commodity", "prices", "prices", "listing")
		if x.Kind == "commodity" {
			x.Acct = l.Comms[r.N(len(l.Comms))].Id
			x.Loc = r.P(40)
		}
	}
	if r.P(20) {
		x.Alias = r.In(1, 4)
	}
	if x.Kind == "balance" && r.P(10) {
		*x = Rep{Kind: "balance", Alias: r.N(5)}
	}
	if (x.Kind == "balance" || x.Kind == "register") && x.Acct != "" && r.P(25) {
		x.Ref = l.ref(r, x.Acct)
	}
	return x
}

func genReports(r *simrt.RNG) *HistSc {
	sc := genHist(r, false)
	l := sc.L
	for i := range l.Accts {
		if r.P(8) {
			l.Accts[i].Closed = "2023/01/02"
		}
	}
	if len(l.Comms) > 2 && r.P(50) {
		l.treePrices(r, false)
	} else if len(l.Comms) > 1 && r.P(15) {
		l.treePrices(r, true)
	}
	var ops []HOp
	var all []Txn
	seen := map[int]int64{}
	for _, op := range sc.Ops {
		if op.Kind == "append" {
			for i := range op.Txns { // what the reports print must be readable back
				t := &op.Txns[i]
				t.Desc = strings.ReplaceAll(t.Desc, "|", "/")
			}
			if len(all) > 0 && r.P(30) { // a duplicate
				t := all[r.N(len(all))]
				t.Posts = append([]Post{}, t.Posts...)
				if r.P(50) {
					t.Desc = phrase(r, 1, 3)
				}
				op.Txns = append(op.Txns, t)
			}
			if len(l.Comms) > 1 && r.P(15) { // one that mixes commodities up
				t := l.genTxn(r, LedgerOpts{})
				a, b := r.N(len(l.Accts)), r.N(len(l.Accts))
				if l.Accts[a].Comm != l.Accts[b].Comm {
					q := int64(r.In(-5000, 5000))
					da, db := l.Comms[l.Accts[a].Comm].Dec, l.Comms[l.Accts[b].Comm].Dec
					qa, qb := q, -q
					for ; da > db; db++ {
						qa *= 10
					}
					for ; db > da; da++ {
						qb *= 10
					}
					da, db = l.Comms[l.Accts[a].Comm].Dec, l.Comms[l.Accts[b].Comm].Dec
					if r.P(20) {
						qb++
					}
					t.Posts = []Post{{Acct: a, Qty: qa, Amt: fmtQty(qa, da)}, {Acct: b, Qty: qb, Amt: fmtQty(qb, db)}}
					if r.P(25) { // and one more
						t.Posts = append(t.Posts, Post{Acct: a, Qty: 1, Amt: fmtQty(1, da)})
					}
					op.Txns = append(op.Txns, t)
				}
			}
			all = append(all, op.Txns...)
		}
		ops = append(ops, op)
		for n := r.N(4); n > 0; n-- {
			x := l.genRep(r, len(l.Comms) > 1)
			if (x.Kind == "register" || x.Kind == "balance") && x.Tag == "" && r.P(20) && len(all) > 0 { // a tag that is there
				t := &all[r.N(len(all))]
				notes := t.Notes
				if p := t.Posts[r.N(len(t.Posts))]; len(p.Notes) > 0 && r.P(50) {
					notes = p.Notes
				} else if len(p.Notes) > 0 {
					x.Acct, x.Ref = l.Accts[p.Acct].Name, ""
				}
				tags := tagsOf(notes)
				for _, k := range sortedKeys(tags) {
					if v := tags[k]; v != "" {
						x.Tag = k + ":" + regexp.QuoteMeta(v)
					}
				}
			}
			ops = append(ops, HOp{Kind: "report", Rep: x, Map: r.N(4), Seed: r.Uint64()})
		}
		if r.P(8) {
			ops = append(ops, l.genBroken(r, len(sc.Names)))
		}
	}
	_ = seen
	ops = append(ops, HOp{Kind: "report", Rep: l.genRep(r, len(l.Comms) > 1), Map: r.N(4), Seed: r.Uint64()})
	sc.Ops = ops
	return sc
}

// genBroken is text no ledger may contain.
func (l *Ledger) genBroken(r *simrt.RNG, nf int) HOp {
	a := l.Accts[r.N(len(l.Accts))]
	c := l.Comms[a.Comm]
	b := a
	for _, x := range simrt.Shuffled(r, l.Accts) {
		if x.Comm == a.Comm {
			b = x
			break
		}
	}
	q := int64(r.In(1, 100000))
	day := dayText(dayOf(2022, 11, 1) + int64(r.N(500)))
	head := day + " broken\n"
	p := func(x Acct, q int64) string { return fmt.Sprintf("  %s  %s %s\n", x.Name, fmtQty(q, c.Dec), c.Id) }
	kind := simrt.Pick(r, "unbalanced", "unbalanced", "elided", "account", "commodity", "garbled", "mixed", "total", "ambiguous", "ambiguous", "long")
	text := ""
	switch kind {
	case "unbalanced":
		text = head + p(a, q) + p(b, -q+simrt.Pick(r, int64(1), -1, 100, -q))
		if text == head+p(a, q)+p(b, -q) {
			text = head + p(a, q) + p(b, q)
		}
	case "total": // three postings off by the smallest unit
		text = head + p(a, q) + p(b, q+1) + p(a, -2*q)
	case "elided":
		text = head + p(a, q) + "  " + b.Name + "\n  " + a.Name + "\n"
	case "account":
		text = head + p(a, q) + "  Nowhere:At:All\n"
	case "long": // a line longer than a reader may be prepared for
		if r.P(50) {
			text = day + " long ; @LONG@\n" + p(a, q) + p(b, -q)
		} else {
			text = head + p(a, q) + "    ; @LONG@\n" + p(b, -q)
		}
	case "ambiguous":
		e := l.ambiguous(r)
		if e == "" {
			e = "Nowhere::All"
		}
		if _, ms := l.resolve(e, false); len(ms) > 0 { // nothing else to complain about, should it be taken for this one
			taken := simrt.Pick(r, ms...)
			for _, x := range l.Accts {
				if x.Name == taken {
					a = x
				}
			}
		}
		c = l.Comms[a.Comm]
		text = head + p(a, q) + fmt.Sprintf("  %s  %s %s\n", e, fmtQty(-q, c.Dec), c.Id)
		if r.P(30) { // in the arguments
			rep := &Rep{Kind: simrt.Pick(r, "balance", "register"), Acct: e}
			return HOp{Kind: "broken", Files: []int{r.N(nf)}, N: r.N(1000), Map: r.N(4), Seed: r.Uint64(), Rep: rep}
		}
	case "commodity":
		text = head + fmt.Sprintf("  %s  1 ZZZ\n  %s  -1 ZZZ\n", a.Name, b.Name)
	case "garbled":
		text = simrt.Pick(r, "what is this\n", "=====\n", "Assets:Bank 5\n", "P 2024/01/01\n")
	case "mixed":
		var o *Acct
		for i := range l.Accts {
			if l.Accts[i].Comm != a.Comm {
				o = &l.Accts[i]
			}
		}
		if o == nil {
			kind, text = "unbalanced", head+p(a, q)+p(b, q)
			break
		}
		text = head + p(a, q) + "  " + o.Name + "\n"
	}
	return HOp{Kind: "broken", Text: text, Files: []int{r.N(nf)}, N: r.N(1000), Map: r.N(4), Seed: r.Uint64(),
		Rep: &Rep{Kind: simrt.Pick(r, "balance", "register", "stats", "tags"), Acct: a.Name}, Mod: nil}
}

// ---------------------------------------------------------------------------------------------------- execution

// loadOrder lists the transactions in the order in which the ledger's files are read.
func (h *hist) loadOrder() (out []PTxn) {
	order := seq(len(h.sc.Names))
	if h.sc.Layout != 1 {
		sort.Slice(order, func(i, j int) bool { return h.sc.Names[order[i]] < h.sc.Names[order[j]] })
	}
	for _, i := range order {
		line := 1
		for _, s := range h.files[i] {
			s.t.Loc = fmt.Sprintf("%s:%d", h.sc.Names[i], line)
			out = append(out, s.t)
			line += strings.Count(s.text, "\n") + 1
		}
	}
	return out
}

func (h *hist) report(op *HOp) *Violation {
	c := cmd(op.Rep.args()...)
	c.Cfg = simrt.Cfg{MapMode: op.Map, MapSeed: op.Seed, SliceMode: int(op.Seed % 4), SliceSeed: op.Seed}
	p := h.run(c)
	line := strings.Join(c.Args, " ")
	m := newModel(h.sc.L, h.loadOrder())
	sure, maybe := op.Rep.unconvertible(m)
	if !p.OK() && maybe && p.Reason == "exit" {
		h.st.Count("reports without a conversion")
		return nil
	}
	if !p.OK() {
		return h.fail("fails", "%s fails on a valid ledger: %s %s", line, p.How(), p.Stderr)
	}
	if sure {
		return h.fail("unconvertible", "%s: an amount cannot be converted for lack of a price, and the report succeeds: %s", line, quote(string(p.Stdout)))
	}
	if why := op.Rep.check(m, string(p.Stdout)); why != "" {
		return h.fail("report-"+op.Rep.Kind, "%s: %s\n%s", line, why, quote(string(p.Stdout)))
	}
	switch op.Rep.Kind {
	case "balance", "register", "stats", "dups", "tags":
		if why := m.assertions(string(p.Stderr)); why != "" {
			return h.fail("assertion", "%s: %s", line, why)
		}
	}
	h.st.Count("report " + op.Rep.Kind)
	if m.failing > 0 {
		h.st.Count("reports with failing assertions")
	}
	return nil
}

func (h *hist) broken(op *HOp) *Violation {
	i := op.Files[0]
	fn := h.sc.Names[i]
	segs := h.files[i]
	k := op.N % (len(segs) + 1)
	with := append([]hseg{}, segs[:k]...)
	text := strings.Replace(op.Text, "@LONG@", strings.Repeat("long ", 14000), 1)
	with = append(with, hseg{text: text})
	with = append(with, segs[k:]...)
	h.files[i] = with
	h.put(i)
	c := cmd(op.Rep.args()...)
	c.Cfg = simrt.Cfg{MapMode: op.Map, MapSeed: op.Seed}
	p := h.run(c)
	complete := false
	if text != op.Text { // fine if all of it is read
		n := len(h.loadOrder())
		s := h.run(cmd("coin", "stats"))
		complete = s.OK() && strings.Contains(string(s.Stdout), fmt.Sprintf("Transactions: %d\n", n))
	}
	h.files[i] = segs
	h.put(i)
	h.w.FS.Commit()
	h.st.Count("broken ledger")
	if p.OK() && !complete {
		return h.fail("accepted", "%s exits with 0 although %s contains\n%s", strings.Join(c.Args, " "), fn, op.Text)
	}
	return nil
}

// export compares the data embedded in the HTML page with the model.
func (m *model) export(page string) string {
	block := func(id string, to any) string {
		tag := `id="` + id + `">`
		i := strings.Index(page, tag)
		if i < 0 || strings.Count(page, tag) != 1 {
			return "the page does not have exactly one element " + id
		}
		body := page[i+len(tag):]
		j := strings.Index(strings.ToLower(body), "</script")
		if j < 0 {
			return "element " + id + " is not closed"
		}
		if err := json.Unmarshal([]byte(body[:j]), to); err != nil {
			return fmt.Sprintf("element %s is not JSON: %v: %s", id, err, quote(body[:j]))
		}
		return ""
	}
	var comms map[string]struct {
		Id, Name, Location string
		Decimals           int
	}
	var accts map[string]struct{ Name, FullName, Commodity, Parent, Closed, Location string }
	var prices []struct{ Time, Commodity, Currency, Value, Location string }
	type jpost struct {
		Account, Quantity, Balance string
		Asserted                   bool `json:"balance_asserted"`
		Notes                      []string
		Tags                       map[string]string
	}
	type jtxn struct {
		Description, Posted, Code, Location string
		Notes                               []string
		Tags                                map[string]string
		Postings                            []jpost
	}
	var txns []jtxn
	for _, b := range []struct {
		id string
		to any
	}{{"importedCommodities", &comms}, {"importedPrices", &prices}, {"importedAccounts", &accts}, {"importedTransactions", &txns}} {
		if why := block(b.id, b.to); why != "" {
			return why
		}
	}
	var want, got []string
	at := func(file, text, head string) string {
		for i, x := range strings.Split(text, "\n") {
			if x == head {
				return fmt.Sprintf("%s/%s:%d", db, file, i+1)
			}
		}
		return ""
	}
	for _, c := range m.l.Comms {
		want = append(want, fmt.Sprintf("%s %d %q %s", c.Id, c.Dec, c.Note, at("commodities.coin", m.l.commText(), "commodity "+c.Id)))
	}
	for k, c := range comms {
		got = append(got, fmt.Sprintf("%s %d %q %s", c.Id, c.Decimals, c.Name, c.Location))
		if k != c.Id {
			return fmt.Sprintf("commodity %s is exported as %s", c.Id, k)
		}
	}
	if why := multiset(got, want); why != "" {
		return "commodities: " + why
	}
	want, got = nil, nil
	closed := map[string]string{}
	for _, a := range m.l.Accts {
		closed[a.Name] = a.Closed
	}
	for _, n := range m.names {
		want = append(want, fmt.Sprintf("%s %s %s parent %s closed %s %s", n, n[strings.LastIndex(n, ":")+1:], m.cur(n), m.parent[n], closed[n], at("accounts.coin", m.l.acctText(), "account "+n)))
	}
	for k, a := range accts {
		got = append(got, fmt.Sprintf("%s %s %s parent %s closed %s %s", k, a.Name, a.Commodity, a.Parent, a.Closed, a.Location))
		if k != a.FullName {
			return fmt.Sprintf("account %s is exported as %s", a.FullName, k)
		}
	}
	if why := multiset(got, want); why != "" {
		return "accounts: " + why
	}
	want, got = nil, nil
	for i, p := range m.l.Prices {
		k := m.l.Comms[p.K]
		want = append(want, fmt.Sprintf("%s %s %s %s %s %s/2022.prices:%d", dayText(p.Day), m.l.Comms[p.C].Id, k.Id, fmtQty(p.Val, k.Dec), k.Id, db, i+1))
	}
	last := ""
	for _, p := range prices {
		got = append(got, fmt.Sprintf("%s %s %s %s %s", p.Time, p.Commodity, p.Currency, p.Value, p.Location))
		if p.Time < last {
			return "prices are not in the order of their dates"
		}
		last = p.Time
	}
	if why := multiset(got, want); why != "" {
		return "prices: " + why
	}
	want, got = nil, nil
	runs := map[*PTxn][]*mpost{}
	for a := range m.posts {
		for i := range m.posts[a] {
			p := &m.posts[a][i]
			runs[p.t] = append(runs[p.t], p)
		}
	}
	tags := func(t map[string]string) string {
		if len(t) == 0 {
			return ""
		}
		return fmt.Sprint(t)
	}
	for i := range m.txns {
		t := &m.txns[i]
		w := fmt.Sprintf("%s (%s) %q %q %s %s", dayText(t.Day), t.Code, t.Desc, t.Notes, tags(tagsOf(t.Notes)), t.Loc)
		ps := make([]*mpost, len(t.Posts))
		for _, p := range runs[t] {
			ps[p.i] = p
		}
		for j, p := range t.Posts {
			bal := ps[j].run
			if ps[j].bal != nil {
				bal = ps[j].bal
			}
			cur := m.cur(p.Acct)
			w += fmt.Sprintf("\n%s %s %s = %s %s %v %q %s", p.Acct, p.Qty, cur, bigQ(bal, m.dec(p.Acct)), cur, ps[j].bal != nil, p.Notes, tags(ps[j].tags))
		}
		want = append(want, w)
	}
	last = ""
	for _, t := range txns {
		w := fmt.Sprintf("%s (%s) %q %q %s %s", t.Posted, t.Code, t.Description, t.Notes, tags(t.Tags), t.Location)
		for _, p := range t.Postings {
			w += fmt.Sprintf("\n%s %s = %s %v %q %s", p.Account, p.Quantity, p.Balance, p.Asserted, p.Notes, tags(p.Tags))
		}
		got = append(got, w)
		if t.Posted < last {
			return "transactions are not in the order of their dates"
		}
		last = t.Posted
	}
	if why := multiset(got, want); why != "" {
		return "transactions: " + why
	}
	return ""
}

func (h *hist) export(op *HOp) *Violation {
	c := cmd("coin2html")
	c.Cfg = simrt.Cfg{MapMode: op.Map, MapSeed: op.Seed, SliceMode: int(op.Seed % 4), SliceSeed: op.Seed}
	p := h.run(c)
	if !p.OK() {
		return h.fail("fails", "coin2html fails on a valid ledger: %s %s", p.How(), p.Stderr)
	}
	m := newModel(h.sc.L, h.loadOrder())
	if why := m.export(string(p.Stdout)); why != "" {
		return h.fail("export", "coin2html: %s", why)
	}
	return nil
}

func genExport(r *simrt.RNG) *HistSc {
	sc := genReports(r)
	var ops []HOp
	for _, op := range sc.Ops {
		if op.Kind == "append" {
			for i := range op.Txns {
				odd := func(s string) string {
					if r.P(8) {
						s += simrt.Pick(r, "</script>", "<!-- <script>", "\"q\"", "back\\slash", "a & b", "<b>", "€5", "{}")
					}
					return s
				}
				t := &op.Txns[i]
				t.Desc = odd(t.Desc)
				for j := range t.Notes {
					t.Notes[j] = odd(t.Notes[j])
				}
				for j := range t.Posts {
					for k := range t.Posts[j].Notes {
						t.Posts[j].Notes[k] = odd(t.Posts[j].Notes[k])
					}
				}
			}
		}
		if op.Kind == "report" || op.Kind == "broken" {
			if r.P(70) {
				continue
			}
			op = HOp{Kind: "export", Map: op.Map, Seed: op.Seed}
		}
		ops = append(ops, op)
	}
	sc.Ops = append(ops, HOp{Kind: "export", Map: r.N(4), Seed: r.Uint64()})
	return sc
}

func runReports(x any, st *Stats) *Violation {
	sc := x.(*HistSc)
	h := sc.start(st)
	defer func() { st.World(h.w, h.ps, true) }()
	for k := range sc.Ops {
		op := &sc.Ops[k]
		var v *Violation
		switch op.Kind {
		case "append", "split":
			h.edit(op)
		case "format", "modify":
			v = h.rewrite(op)
			h.w.FS.Commit()
		case "print":
			v = h.print(op)
		case "report":
			v = h.report(op)
		case "broken":
			v = h.broken(op)
		case "export":
			v = h.export(op)
		}
		if v != nil {
			return v
		}
		st.Count(op.Kind)
	}
	return nil
}

func init() {
	register(&Check{
		ID: "C10", Level: "exploration", Full: true, Quick: 16000, Thor: 2000000,
		Rule:   "Each scenario is a history of a ledger (transactions appended and moved between files, files formatted and modified) with reports in between: balance, plain and aggregated register with every combination of period, category, recursion, cumulation and output format, stats, duplicates, tags, accounts and prices, under seeded map orders and read slicings. Every report is compared with a reference model of the ledger, every failing balance assertion must be reported and nothing else, and a ledger with one broken entry at a seeded position must be rejected.",
		Real:   histReal,
		Stub:   histStub,
		Assume: []string{"A conversion has one way only (a direct price, or one path of prices); amounts are truncated to the decimals of each commodity on the way."},
		Gen:    func(r *simrt.RNG, i int) any { return genReports(r) },
		New:    func() any { return &HistSc{} },
		Run:    runReports,
		Shrink: shrinkHist,
	})
	register(&Check{
		ID: "C18", Level: "exploration", Full: true, Quick: 10000, Thor: 2000000,
		Rule:   "Each scenario is a history of a ledger as for C10, with coin2html run in between under seeded map orders and read slicings. The data embedded in each page is extracted as a browser would and compared with the reference model: commodities, accounts, prices, and transactions with location, notes, tags, quantities and running balances.",
		Real:   append([]string{"coin2html"}, histReal...),
		Stub:   append([]string{"the page around the data (placeholder text; it is built with npm)"}, histStub...),
		Assume: []string{"A browser ends a script element at the first </script."},
		Gen:    func(r *simrt.RNG, i int) any { return genExport(r) },
		New:    func() any { return &HistSc{} },
		Run:    runReports,
		Shrink: shrinkHist,
	})
}
