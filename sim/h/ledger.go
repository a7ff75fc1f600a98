package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"time"

	"vsim/simrt"
)

// The reference model of a ledger. Quantities are integers in the smallest unit of the commodity.

type Comm struct {
	Id       string
	Dec      int
	Symbol   string `json:",omitempty"`
	NoMarket bool   `json:",omitempty"`
	Default  bool   `json:",omitempty"`
	Note     string `json:",omitempty"`
}

type Acct struct {
	Name   string
	Comm   int
	Note   string `json:",omitempty"`
	Closed string `json:",omitempty"`
	Head   string `json:",omitempty"`
	OFX    string `json:",omitempty"`
	Dflt   bool   `json:",omitempty"` // the commodity goes without saying
}

type Post struct {
	Acct  int
	Qty   int64
	Hi    int64    `json:",omitempty"` // the quantity is Hi * 10^15 + Qty
	Bal   *int64   `json:",omitempty"`
	BalHi int64    `json:",omitempty"`
	Notes []string `json:",omitempty"`
	// surface
	Elide bool   `json:",omitempty"`
	Ref   string `json:",omitempty"` // account expression used
	Amt   string `json:",omitempty"` // amount text
}

type Txn struct {
	Day   int64  // days since 1970-01-01
	Code  string `json:",omitempty"`
	Desc  string
	Notes []string `json:",omitempty"`
	Posts []Post
	// surface
	Date  string `json:",omitempty"` // date text
	Style int    `json:",omitempty"`
}

type Price struct {
	Day  int64
	C, K int // commodity, currency
	Val  int64
}

type Ledger struct {
	Comms  []Comm
	Accts  []Acct
	Prices []Price
	Txns   []Txn
}

func dayOf(y, m, d int) int64 {
	return time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC).Unix() / 86400
}

func dayTime(day int64) time.Time { return time.Unix(day*86400, 0).UTC() }

func dayText(day int64) string { return dayTime(day).Format("2006/01/02") }

func fmtQty(q int64, dec int) string {
	s := ""
	neg := q < 0
	u := uint64(q)
	if neg {
		u = uint64(-q)
	}
	s = fmt.Sprint(u)
	if dec > 0 {
		for len(s) <= dec {
			s = "0" + s
		}
		s = s[:len(s)-dec] + "." + s[len(s)-dec:]
	}
	if neg {
		s = "-" + s
	}
	return s
}

// fmtBig is fmtQty of hi * 10^15 + q.
func fmtBig(hi, q int64, dec int) string {
	if hi == 0 {
		return fmtQty(q, dec)
	}
	n := new(big.Int).Mul(big.NewInt(hi), big.NewInt(1_000_000_000_000_000))
	return bigQ(n.Add(n, big.NewInt(q)), dec)
}

var words = strings.Fields("rent coffee books train salary dinner hotel garage phone taxi power water insurance gift music repair school bakery market travel pharmacy parking ticket refund bonus")

func phrase(r *simrt.RNG, lo, hi int) string {
	n := r.In(lo, hi)
	var ws []string
	for i := 0; i < n; i++ {
		w := simrt.Pick(r, words...)
		if r.P(30) {
			w = strings.ToUpper(w[:1]) + w[1:]
		}
		if r.P(6) {
			w += simrt.Pick(r, "'s", ".", ",", " 12", "-in", " & co", "é")
		}
		ws = append(ws, w)
	}
	return strings.Join(ws, " ")
}

var tagKeys = []string{"trip", "work", "one", "two-b", "a/b", "kids"}

func note(r *simrt.RNG) string {
	switch r.N(6) {
	case 0:
		return "#" + simrt.Pick(r, tagKeys...)
	case 1:
		return "#" + simrt.Pick(r, tagKeys...) + ": " + phrase(r, 1, 2)
	case 2:
		return phrase(r, 1, 3) + " #" + simrt.Pick(r, tagKeys...)
	case 3:
		return "#" + simrt.Pick(r, tagKeys...) + ", #" + simrt.Pick(r, tagKeys...) + ": " + simrt.Pick(r, words...)
	case 4:
		if r.P(50) {
			return "#" + strings.Join(simrt.Shuffled(r, tagKeys)[:3], " #")
		}
		return phrase(r, 8, 16)
	}
	return phrase(r, 1, 5)
}

func genNotes(r *simrt.RNG, pct int) (out []string) {
	for r.P(pct) && len(out) < 3 {
		out = append(out, note(r))
		pct = pct / 2
	}
	return out
}

type LedgerOpts struct {
	MaxTxns    int
	Multi      bool // several commodities
	Prices     bool
	Notes      bool
	Asserts    bool
	DayLo      int64
	DayHi      int64
	PlainDates bool
	SameDay    bool
	CAD        bool // the default commodity is CAD
}

func genLedger(r *simrt.RNG, o LedgerOpts) *Ledger {
	l := &Ledger{}
	decs := []int{2, 2, 0, 4, 3}
	ids := []string{"CAD", "USD", "EUR", "VT1", "BTC"}
	nc := 1
	if o.Multi {
		nc = r.In(1, 4)
	}
	if r.P(30) && !o.CAD { // the default is not what the default is without a default
		ids[0], ids[1] = ids[1], ids[0]
	}
	for i := 0; i < nc; i++ {
		c := Comm{Id: ids[i], Dec: decs[i], Default: i == 0}
		if i > 0 && r.P(30) {
			c.Dec = r.In(0, 6)
		}
		if r.P(30) {
			c.Note = phrase(r, 1, 3)
		}
		if i > 0 && r.P(40) {
			c.Symbol = ids[i] + ".TO"
		}
		if r.P(15) {
			c.NoMarket = true
		}
		l.Comms = append(l.Comms, c)
	}
	tops := []string{"Assets", "Expenses", "Income", "Liabilities", "Equity"}
	mids := []string{"Bank", "Bank2", "Joint_A", "Food", "Joint", "Broker", "Home", "Car", "Card", "Fun"}
	leaves := []string{"Checking", "Savings", "Groceries", "Dining", "Fuel", "Visa", "Chequing", "Rent", "Misc", "Visa-2", "M/C"}
	seen := map[string]bool{}
	na := r.In(3, 10)
	for len(l.Accts) < na {
		name := simrt.Pick(r, tops...)
		if r.P(85) {
			name += ":" + simrt.Pick(r, mids...)
			if r.P(60) {
				name += ":" + simrt.Pick(r, leaves...)
			}
		}
		if seen[name] {
			continue
		}
		seen[name] = true
		a := Acct{Name: name}
		if r.P(30) {
			a.Comm = r.N(nc)
		}
		if r.P(20) {
			a.Note = phrase(r, 1, 4)
		}
		a.Dflt = a.Comm == 0 && r.P(25)
		l.Accts = append(l.Accts, a)
	}
	if o.Prices && nc > 1 {
		for i, n := 0, r.In(0, 6); i < n; i++ {
			p := Price{Day: o.day(r), C: r.In(1, nc-1), K: r.N(nc)}
			if p.K == p.C {
				p.K = 0
			}
			p.Val = int64(r.In(1, 200000))
			l.Prices = append(l.Prices, p)
		}
	}
	nt := r.N(o.MaxTxns + 1)
	for i := 0; i < nt; i++ {
		l.Txns = append(l.Txns, l.genTxn(r, o))
	}
	return l
}

func (o LedgerOpts) day(r *simrt.RNG) int64 {
	lo, hi := o.DayLo, o.DayHi
	if hi == 0 {
		lo, hi = dayOf(2022, 11, 1), dayOf(2024, 4, 30)
	}
	if o.SameDay && r.P(50) {
		return lo + int64(r.N(3))
	}
	return lo + int64(r.N(int(hi-lo+1)))
}

func genQty(r *simrt.RNG) int64 {
	var q int64
	switch r.N(8) {
	case 0:
		q = int64(r.N(100))
	case 1:
		q = int64(r.N(10_000_000_000_000))
	case 2:
		q = int64(r.N(10)) * 100
	default:
		q = int64(r.N(1_000_000))
	}
	if r.P(50) {
		q = -q
	}
	return q
}

// genTxn makes a balanced transaction within one commodity, or a mixed one.
func (l *Ledger) genTxn(r *simrt.RNG, o LedgerOpts) Txn {
	t := Txn{Day: o.day(r), Desc: phrase(r, 1, 4), Style: r.N(4)}
	if r.P(20) {
		t.Code = fmt.Sprint(simrt.Pick(r, "A", "", "chk")) + fmt.Sprint(r.In(1, 9999))
	}
	if o.Notes {
		t.Notes = genNotes(r, 40)
	}
	mixed := o.Multi && r.P(25)
	comm := l.Accts[r.N(len(l.Accts))].Comm
	var cand []int
	for i, a := range l.Accts {
		if mixed || a.Comm == comm {
			cand = append(cand, i)
		}
	}
	np := simrt.Pick(r, 2, 2, 2, 3, 4)
	huge := r.P(4)
	var sum, hi int64
	for i := 0; i < np; i++ {
		p := Post{Acct: cand[r.N(len(cand))], Qty: genQty(r)}
		if huge {
			p.Hi = int64(r.N(simrt.Pick(r, 100, 100_000, 1_000_000_000_000))) * int64(1-2*r.N(2))
		}
		if o.Notes {
			p.Notes = genNotes(r, 25)
		}
		t.Posts = append(t.Posts, p)
	}
	same := true
	for _, p := range t.Posts {
		same = same && l.Accts[p.Acct].Comm == l.Accts[t.Posts[0].Acct].Comm
	}
	if !same && np == 2 && !huge && r.P(20) { // an amount taken over without converting it
		dec := func(i int) int { return l.Comms[l.Accts[t.Posts[i].Acct].Comm].Dec }
		if q, d := t.Posts[0].Qty, dec(1)-dec(0); q < 1e9 && q > -1e9 {
			for ; d > 0; d-- {
				q *= 10
			}
			for ; d < 0; d++ {
				q /= 10
			}
			t.Posts[1].Qty = -q
		}
	}
	if same { // balance it
		k := r.N(np)
		sum = 0
		for i, p := range t.Posts {
			if i != k {
				sum += p.Qty
				hi += p.Hi
			}
		}
		t.Posts[k].Qty, t.Posts[k].Hi = -sum, -hi
		if r.P(40) {
			t.Posts[k].Elide = true
		}
	}
	for i := range t.Posts {
		p := &t.Posts[i]
		dec := l.Comms[l.Accts[p.Acct].Comm].Dec
		p.Amt = fmtBig(p.Hi, p.Qty, dec)
		if dec > 0 && r.P(15) { // fewer or more decimals than the commodity has
			if strings.HasSuffix(p.Amt, strings.Repeat("0", dec)) && r.P(70) {
				p.Amt = p.Amt[:len(p.Amt)-dec-1]
			} else if len(p.Amt) < 16 {
				p.Amt += "00"
			}
		}
		if r.P(20) {
			p.Ref = l.ref(r, l.Accts[p.Acct].Name)
		}
	}
	return t
}

// bank is the id of the bank of some of the accounts that have an id.
func (a *Acct) bank() string {
	if a.OFX == "" || (a.OFX[len(a.OFX)-1]-'0')%2 == 1 {
		return ""
	}
	return fmt.Sprint(1000 + len(a.Name))
}

// matchExpr reports whether an account expression matches a name. The words of the expression are
// found in consecutive elements of the name, with any number of elements in place of a double colon;
// loosely, the words around the double colon may also be in the same element.
func matchExpr(expr, name string, loose bool) bool {
	gap := `[^:]*:(?:.*:)?[^:]*`
	if loose {
		gap = `.*`
	}
	var segs []string
	for _, s := range strings.Split(expr, "::") {
		ws := strings.Split(s, ":")
		for i := range ws {
			ws[i] = regexp.QuoteMeta(ws[i])
		}
		segs = append(segs, strings.Join(ws, `[^:]*:[^:]*`))
	}
	return regexp.MustCompile(`(?i)` + strings.Join(segs, gap)).MatchString(name)
}

// resolve is the account an expression stands for: the one with that name, the only one it matches,
// or the one it matches that all the others it matches are below. Otherwise it is "", with the matches.
func (l *Ledger) resolve(expr string, loose bool) (string, []string) {
	var m []string
	for _, n := range l.allNames() {
		if n == expr {
			return n, nil
		}
		if matchExpr(expr, n, loose) {
			m = append(m, n)
		}
	}
	for _, top := range m {
		all := true
		for _, n := range m {
			all = all && (n == top || strings.HasPrefix(n, top+":"))
		}
		if all {
			return top, m
		}
	}
	return "", m
}

// genExpr is an account expression made from a name.
func genExpr(r *simrt.RNG, name string) string {
	els := strings.Split(name, ":")
	expr := ""
	last := -1
	for i, e := range els {
		if r.P(40) && !(i == len(els)-1 && last < 0) {
			continue
		}
		w := e
		switch r.N(4) {
		case 0:
			w = e[:1+r.N(len(e))]
		case 1:
			k := r.N(len(e))
			w = e[k : k+1+r.N(len(e)-k)]
			if c := w[0] | 0x20; c < 'a' || c > 'z' {
				w = e
			}
		}
		if r.P(20) {
			w = strings.ToLower(w)
		}
		switch {
		case last < 0:
			expr = w
		case last == i-1 && r.P(75):
			expr += ":" + w
		default:
			expr += "::" + w
		}
		last = i
	}
	return expr
}

// ref is an expression that can only stand for the account, or "".
func (l *Ledger) ref(r *simrt.RNG, name string) string {
	for i := 0; i < 4; i++ {
		e := genExpr(r, name)
		if e == "" {
			continue
		}
		strict, _ := l.resolve(e, false)
		loose, _ := l.resolve(e, true)
		if strict == name && loose == name {
			return e
		}
	}
	return ""
}

// ambiguous is an expression that stands for no account, although it matches several, or "".
func (l *Ledger) ambiguous(r *simrt.RNG) string {
	for i := 0; i < 20; i++ {
		e := genExpr(r, simrt.Pick(r, l.allNames()...))
		if e != "" && l.isAmbiguous(e) {
			return e
		}
	}
	return ""
}

func (l *Ledger) isAmbiguous(e string) bool {
	strict, m := l.resolve(e, false)
	loose, _ := l.resolve(e, true)
	return strict == "" && loose == "" && len(m) > 1
}

// allNames includes the implied parents and the built-in accounts.
func (l *Ledger) allNames() []string {
	m := map[string]bool{"Root": true, "Unbalanced": true}
	for _, a := range l.Accts {
		n := a.Name
		for {
			m[n] = true
			i := strings.LastIndex(n, ":")
			if i < 0 {
				break
			}
			n = n[:i]
		}
	}
	return sortedKeys(m)
}

func (l *Ledger) commText() string {
	var b strings.Builder
	for _, c := range l.Comms {
		fmt.Fprintf(&b, "commodity %s\n", c.Id)
		if c.Note != "" {
			fmt.Fprintf(&b, "  note %s\n", c.Note)
		}
		f := "1"
		if c.Dec > 0 {
			f = "1." + strings.Repeat("0", c.Dec)
		}
		fmt.Fprintf(&b, "  format %s %s\n", f, c.Id)
		if c.Symbol != "" {
			fmt.Fprintf(&b, "  symbol %s\n", c.Symbol)
		}
		if c.NoMarket {
			b.WriteString("  nomarket\n")
		}
		if c.Default {
			b.WriteString("  default\n")
		}
		b.WriteString("\n")
	}
	return b.String()
}

func (l *Ledger) acctText() string {
	var b strings.Builder
	for _, a := range l.Accts {
		fmt.Fprintf(&b, "account %s\n", a.Name)
		if a.Note != "" {
			fmt.Fprintf(&b, "  note %s\n", a.Note)
		}
		if !a.Dflt {
			fmt.Fprintf(&b, "  commodity %s\n", l.Comms[a.Comm].Id)
		}
		if a.Closed != "" {
			fmt.Fprintf(&b, "  closed %s\n", a.Closed)
		}
		if b2 := a.bank(); b2 != "" {
			fmt.Fprintf(&b, "  ofx_bankid %s\n", b2)
		}
		if a.OFX != "" {
			fmt.Fprintf(&b, "  ofx_acctid %s\n", a.OFX)
		}
		b.WriteString("\n")
	}
	return b.String()
}

func (l *Ledger) priceText(ps []Price) string {
	var b strings.Builder
	for _, p := range ps {
		fmt.Fprintf(&b, "P %s %s %s %s\n", dayText(p.Day), l.Comms[p.C].Id, fmtQty(p.Val, l.Comms[p.K].Dec), l.Comms[p.K].Id)
	}
	return b.String()
}

// txnText renders a transaction the way a user might type it.
func (l *Ledger) txnText(t *Txn) string {
	var b strings.Builder
	date := t.Date
	if date == "" {
		date = dayText(t.Day)
		if t.Style == 3 {
			d := dayTime(t.Day)
			date = fmt.Sprintf("%d/%d/%d", d.Year(), d.Month(), d.Day())
		}
	}
	sp := []string{" ", " ", "  ", "\t"}[t.Style]
	b.WriteString(date)
	if t.Code != "" {
		b.WriteString(sp + "(" + t.Code + ")")
	}
	b.WriteString(sp + t.Desc)
	ns := t.Notes
	if len(ns) > 0 && t.Style != 1 {
		b.WriteString(" ; " + ns[0])
		ns = ns[1:]
	}
	b.WriteString("\n")
	for _, n := range ns {
		b.WriteString("  ; " + n + "\n")
	}
	for i := range t.Posts {
		b.WriteString(l.postText(&t.Posts[i], t.Style))
	}
	return b.String()
}

func (l *Ledger) postText(p *Post, style int) string {
	ind := []string{"  ", "    ", " ", "\t"}[style]
	a := l.Accts[p.Acct]
	ref := p.Ref
	if ref == "" {
		ref = a.Name
	}
	c := l.Comms[a.Comm]
	s := ind + ref
	if !p.Elide {
		s += []string{"  ", " ", "      ", "\t"}[style] + p.Amt + " " + c.Id
		if p.Bal != nil {
			s += " = " + fmtBig(p.BalHi, *p.Bal, c.Dec) + " " + c.Id
		}
	}
	ns := p.Notes
	if len(ns) > 0 && style != 1 {
		s += " ; " + ns[0]
		ns = ns[1:]
	}
	s += "\n"
	for _, n := range ns {
		s += ind + ind + "; " + n + "\n"
	}
	return s
}

func (l *Ledger) txnsText(ts []Txn) string {
	var b strings.Builder
	for i := range ts {
		b.WriteString(l.txnText(&ts[i]))
		b.WriteString("\n")
	}
	return b.String()
}

// layout writes the ledger to files: one transactions file or several .coin files, one or several price files.
func (l *Ledger) layout(r *simrt.RNG) Files {
	f := Files{db + "/commodities.coin": l.commText(), db + "/accounts.coin": l.acctText()}
	switch {
	case r.P(30):
		f[db+"/transactions.coin"] = l.txnsText(l.Txns)
		if len(l.Txns) > 0 && r.P(25) { // not part of the ledger
			f[db+"/"+simrt.Pick(r, "2019.coin", "unused.coin")] = l.txnsText(l.Txns[:1])
		}
	default:
		names := []string{"2022.coin", "2023.coin", "2024.coin", "misc.coin"}[:r.In(1, 4)]
		parts := make([][]Txn, len(names))
		for _, t := range l.Txns {
			i := r.N(len(names))
			parts[i] = append(parts[i], t)
		}
		for i, n := range names {
			f[db+"/"+n] = l.txnsText(parts[i])
		}
	}
	if r.P(50) {
		f[db+"/prices.coin"] = l.priceText(l.Prices)
		if len(l.Prices) > 0 && r.P(25) {
			f[db+"/2019.prices"] = l.priceText(l.Prices[:1])
		}
	} else {
		k := 0
		if len(l.Prices) > 0 {
			k = r.N(len(l.Prices) + 1)
		}
		f[db+"/2022.prices"] = l.priceText(l.Prices[:k])
		f[db+"/2023.prices"] = l.priceText(l.Prices[k:])
	}
	return f
}

// txnFiles lists the files of a layout that hold transactions only.
func txnFiles(f Files) (out []string) {
	for _, k := range sortedKeys(f) {
		if strings.HasSuffix(k, ".coin") && !strings.HasSuffix(k, "/commodities.coin") &&
			!strings.HasSuffix(k, "/accounts.coin") && !strings.HasSuffix(k, "/prices.coin") {
			out = append(out, k)
		}
	}
	return out
}
