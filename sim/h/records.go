package main

import (
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"vsim/simrt"
)

// An import converts every record of its input, or fails.

// CDef is a line of a source definition.
type CDef struct {
	Name string
	Col  int    // column, -1: derived
	Out  string `json:",omitempty"`
	Cond string `json:",omitempty"`
	Rx   string `json:",omitempty"`
}

type CFile struct {
	Head  [][]string
	Rows  [][]string
	CRLF  bool `json:",omitempty"`
	NoNL  bool `json:",omitempty"`
	Quote int  `json:",omitempty"` // 0 where needed, 1 everywhere, 2 here and there
	Blank bool `json:",omitempty"` // blank lines between the rows
	Cut   int  `json:",omitempty"` // bytes left of it
}

// RecSc is one import.
type RecSc struct {
	L     *Ledger
	Rules *RulesM
	// CSV
	Defs   []CDef  `json:",omitempty"`
	Skip   int     `json:",omitempty"`
	Before string  `json:",omitempty"` // other sources
	After  string  `json:",omitempty"`
	Fields bool    `json:",omitempty"` // the columns are named on the command line
	Files  []CFile `json:",omitempty"`
	// OFX
	OFX   []OFile `json:",omitempty"`
	Keep  bool    `json:",omitempty"`
	BMO   bool    `json:",omitempty"`
	Run   [][]RecRun
	Noise int `json:",omitempty"`
}

type OFile struct {
	Stmts []Stmt
	BMO   bool `json:",omitempty"`
	NoNL  bool `json:",omitempty"`
	CRLF  bool `json:",omitempty"`
	Cut   int  `json:",omitempty"`
}

// RecRun is a way to run the import.
type RecRun struct {
	Slice, Map int
	Seed       uint64
	Faults     []simrt.Fault `json:",omitempty"`
}

var labels = []string{"account", "description", "date", "amount", "currency", "symbol", "quantity", "note"}

// ---------------------------------------------------------------------------------------------------- reading CSV

var errCSV = errors.New("malformed csv")

// splitCSV splits the text into rows of cells, the way RFC 4180 has it. Blank lines are no rows.
func splitCSV(s string) (rows [][]string, err error) {
	s = strings.ReplaceAll(s, "\r\n", "\n")
	s = strings.TrimSuffix(s, "\r")
	for s != "" {
		if s[0] == '\n' {
			s = s[1:]
			continue
		}
		var row []string
		for {
			var cell string
			if strings.HasPrefix(s, `"`) {
				s = s[1:]
				for {
					i := strings.IndexByte(s, '"')
					if i < 0 {
						return rows, errCSV
					}
					cell += s[:i]
					s = s[i+1:]
					if !strings.HasPrefix(s, `"`) {
						break
					}
					cell += `"`
					s = s[1:]
				}
				if s != "" && s[0] != ',' && s[0] != '\n' {
					return rows, errCSV
				}
			} else {
				i := strings.IndexAny(s, ",\n")
				if i < 0 {
					i = len(s)
				}
				cell, s = s[:i], s[i:]
				if strings.Contains(cell, `"`) {
					return rows, errCSV
				}
			}
			row = append(row, cell)
			if s == "" || s[0] == '\n' {
				break
			}
			s = s[1:]
		}
		rows = append(rows, row)
		s = strings.TrimPrefix(s, "\n")
	}
	return rows, nil
}

func (f *CFile) text() string {
	nl := "\n"
	if f.CRLF {
		nl = "\r\n"
	}
	var b strings.Builder
	all := append(append([][]string{}, f.Head...), f.Rows...)
	for i, row := range all {
		for k, c := range row {
			if k > 0 {
				b.WriteString(",")
			}
			q := strings.ContainsAny(c, ",\"\n\r") || strings.HasPrefix(c, " ") || f.Quote == 1 || f.Quote == 2 && (i*7+k*3)%4 == 0
			if q {
				c = `"` + strings.ReplaceAll(c, `"`, `""`) + `"`
			}
			b.WriteString(c)
		}
		if i < len(all)-1 || !f.NoNL {
			b.WriteString(nl)
		}
		if f.Blank && i >= len(f.Head) && i%2 == 0 && i < len(all)-1 {
			b.WriteString(nl)
		}
	}
	s := b.String()
	if f.Cut > 0 && f.Cut < len(s) {
		s = s[:f.Cut]
	}
	return s
}

// ---------------------------------------------------------------------------------------------------- the model

// value evaluates a name for a row.
func (sc *RecSc) value(name string, row []string) (string, error) {
	for _, d := range sc.Defs {
		if d.Name != name {
			continue
		}
		v := ""
		if d.Col >= 0 {
			if d.Col >= len(row) {
				return "", errCSV
			}
			v = row[d.Col]
			if d.Rx != "" {
				m := regexp.MustCompile(d.Rx).FindStringSubmatch(v)
				v = ""
				if m != nil {
					v = regexp.MustCompile(`\$[0-9]`).ReplaceAllStringFunc(d.Out, func(s string) string { return m[s[1]-'0'] })
				}
			}
		} else {
			ok := true
			if d.Cond != "" {
				c, err := sc.value(d.Cond, row)
				if err != nil {
					return "", err
				}
				ok = regexp.MustCompile(d.Rx).MatchString(c)
			}
			if ok {
				var err error
				v = regexp.MustCompile(`\$\{\w+\}`).ReplaceAllStringFunc(d.Out, func(s string) string {
					x, e := sc.value(s[2:len(s)-1], row)
					if e != nil {
						err = e
					}
					return x
				})
				if err != nil {
					return "", err
				}
			}
		}
		if v != "" {
			return v, nil
		}
	}
	return "", nil
}

var decRE = regexp.MustCompile(`^([+-]?)(\d+)(\.(\d*))?$|^([+-]?)\.(\d+)$`)

// parseDec reads a decimal number as units of 10^-dec.
func parseDec(s string, dec int) (int64, error) {
	m := decRE.FindStringSubmatch(s)
	if m == nil {
		return 0, errCSV
	}
	sign, whole, frac := m[1]+m[5], m[2], m[4]+m[6]
	for len(frac) < dec {
		frac += "0"
	}
	if len(frac) > dec && strings.Trim(frac[dec:], "0") != "" {
		return 0, errors.New("too precise")
	}
	n, err := strconv.ParseInt(sign+whole+frac[:dec], 10, 64)
	if err != nil {
		return 0, errCSV
	}
	return n, nil
}

// commOf is an account's commodity; undeclared accounts have the default one.
func (l *Ledger) commOf(name string) int {
	for _, a := range l.Accts {
		if a.Name == name {
			return a.Comm
		}
	}
	return 0
}

// inComm finds the account for a commodity: under the account first, else itself, else Unbalanced.
func (l *Ledger) inComm(c int, root string) string {
	if root == "Unbalanced" {
		return root
	}
	var kids []string
	for _, n := range l.allNames() { // sorted
		if strings.HasPrefix(n, root+":") && !strings.Contains(n[len(root)+1:], ":") {
			kids = append(kids, n)
		}
	}
	for _, k := range kids {
		if a := l.inComm(c, k); a != "Unbalanced" {
			return a
		}
	}
	if l.commOf(root) == c {
		return root
	}
	return "Unbalanced"
}

func (l *Ledger) findComm(s string) int {
	for i, c := range l.Comms {
		if c.Id == s {
			return i
		}
	}
	for i, c := range l.Comms {
		if c.Symbol == s {
			return i
		}
	}
	return -1
}

// acctFor finds the account an id stands for.
func (sc *RecSc) acctFor(id string) string {
	if sc.Rules != nil {
		for _, g := range sc.Rules.Groups {
			if g.Id == id {
				return sc.L.Accts[g.Acct].Name
			}
		}
	}
	best := ""
	for _, a := range sc.L.Accts {
		if a.OFX == id && id != "" && (best == "" || a.Name < best) {
			best = a.Name
		}
	}
	return best
}

// record converts a row; ok is false if the rules drop it.
func (sc *RecSc) record(row []string) (p PTxn, ok bool, err error) {
	v := map[string]string{}
	need := func(ns ...string) error { // a column that is missing matters when it is used
		for _, n := range ns {
			x, e := sc.value(n, row)
			if e != nil {
				return e
			}
			v[n] = x
		}
		return nil
	}
	if err = need("account", "description"); err != nil {
		return p, false, err
	}
	l := sc.L
	from := sc.acctFor(v["account"])
	if from == "" {
		return p, false, fmt.Errorf("account %q", v["account"])
	}
	p.Desc = strings.Join(strings.Fields(v["description"]), " ")
	to, comm := "Unbalanced", 0
	if sc.Rules != nil {
		if m := sc.Rules.match(v["account"], p.Desc); m != nil {
			if m.Acct < 0 {
				return p, false, nil
			}
			to, comm = l.Accts[m.Acct].Name, l.Accts[m.Acct].Comm
			p.Notes = m.notes()
		}
	}
	if err = need("date", "note", "amount", "symbol"); err == nil && v["amount"] != "" {
		err = need("currency")
	}
	if err == nil && v["symbol"] != "" {
		err = need("quantity")
	}
	if err != nil {
		return p, false, err
	}
	d := regexp.MustCompile(`^(\d\d\d\d)/(\d\d)/(\d\d)$`).FindStringSubmatch(v["date"])
	if d == nil {
		return p, false, fmt.Errorf("date %q", v["date"])
	}
	y, _ := strconv.Atoi(d[1])
	mo, _ := strconv.Atoi(d[2])
	dd, _ := strconv.Atoi(d[3])
	if p.Day = dayOf(y, mo, dd); dayText(p.Day) != v["date"] {
		return p, false, fmt.Errorf("date %q", v["date"])
	}
	if n := strings.Join(strings.Fields(v["note"]), " "); n != "" {
		p.Notes = []string{n}
	}
	if v["currency"] != "" {
		if comm = l.findComm(v["currency"]); comm < 0 {
			return p, false, fmt.Errorf("currency %q", v["currency"])
		}
	}
	amt, err := parseDec(v["amount"], l.Comms[comm].Dec)
	if err != nil {
		return p, false, fmt.Errorf("amount %q: %w", v["amount"], err)
	}
	to = l.inComm(comm, to)
	post := func(acct string, q int64, c int) PPost {
		return PPost{Acct: acct, Qty: fmtQty(q, l.Comms[c].Dec), Comm: l.Comms[c].Id}
	}
	a, x := post(l.inComm(comm, from), amt, comm), post(to, -amt, comm)
	q := amt
	if v["symbol"] != "" {
		k := l.findComm(v["symbol"])
		if k < 0 {
			return p, false, fmt.Errorf("symbol %q", v["symbol"])
		}
		if v["quantity"] != "" {
			if q, err = parseDec(v["quantity"], l.Comms[k].Dec); err != nil {
				return p, false, fmt.Errorf("quantity %q: %w", v["quantity"], err)
			}
			if q > 0 && amt > 0 || q < 0 && amt < 0 {
				q = -q
			}
			a, x = post(l.inComm(k, from), q, k), post(to, amt, comm)
		}
	}
	p.Posts = []PPost{a, x}
	if q < 0 {
		p.Posts = []PPost{x, a}
	}
	return p, true, nil
}

// want is what the import must emit; an error means that it has to fail.
func (sc *RecSc) want() (out []PTxn, err error) {
	if len(sc.OFX) > 0 {
		var files [][]Stmt
		for i := range sc.OFX {
			for _, s := range sc.OFX[i].Stmts {
				if sc.acctFor(s.AcctId) != sc.L.Accts[s.Acct].Name {
					err = fmt.Errorf("account %q", s.AcctId)
				}
			}
			files = append(files, sc.OFX[i].Stmts)
		}
		out = importedAll(sc.L, sc.Rules, files)
		if !sc.Keep {
			out = dedupe(out, nil)
		}
		return out, err
	}
	for i := range sc.Files {
		rows, err := splitCSV(sc.Files[i].text())
		if len(rows) < sc.Skip {
			return nil, errCSV
		}
		if err != nil {
			return nil, err
		}
		n := 0
		if sc.Skip > 0 {
			n = len(rows[sc.Skip-1])
		}
		for _, row := range rows[sc.Skip:] {
			if n == 0 {
				n = len(row)
			}
			if len(row) != n {
				return nil, errCSV
			}
			p, ok, err := sc.record(row)
			if err != nil {
				return nil, err
			}
			if ok {
				out = append(out, p)
			}
		}
	}
	return sortedTxns(out), nil
}

func (sc *RecSc) rulesFile() string {
	var b strings.Builder
	b.WriteString(sc.Before)
	if len(sc.Defs) > 0 && !sc.Fields {
		fmt.Fprintf(&b, "src %d\n", sc.Skip)
		for _, d := range sc.Defs {
			switch {
			case d.Col >= 0 && d.Rx != "":
				fmt.Fprintf(&b, "  %s %d \"%s\" %s\n", d.Name, d.Col, d.Out, d.Rx)
			case d.Col >= 0:
				fmt.Fprintf(&b, "  %s %d\n", d.Name, d.Col)
			case d.Cond != "":
				fmt.Fprintf(&b, "  %s \"%s\" %s %s\n", d.Name, d.Out, d.Cond, d.Rx)
			default:
				fmt.Fprintf(&b, "  %s \"%s\"\n", d.Name, d.Out)
			}
		}
	}
	b.WriteString(sc.After)
	b.WriteString("---\n")
	if sc.Rules != nil {
		b.WriteString(sc.Rules.text(sc.L))
	}
	return b.String()
}

// ---------------------------------------------------------------------------------------------------- generator

// csvGen assigns columns and produces cells.
type csvGen struct {
	sc   *RecSc
	r    *simrt.RNG
	n    int
	cell []func(rec *csvRec) string
}

type csvRec struct {
	day       int64
	id        string
	what      string
	more      string
	cur       int // -1: none
	sym       int
	amt, qty  string // magnitudes
	neg, qneg bool
	note      string
}

func (g *csvGen) col(f func(rec *csvRec) string) int {
	g.cell = append(g.cell, f)
	return len(g.cell) - 1
}

func (g *csvGen) def(name string, col int, out, rx string) {
	g.sc.Defs = append(g.sc.Defs, CDef{Name: name, Col: col, Out: out, Rx: rx})
}

func (g *csvGen) derive(name, out, cond, rx string) {
	g.sc.Defs = append(g.sc.Defs, CDef{Name: name, Col: -1, Out: out, Cond: cond, Rx: rx})
}

func signed(neg bool, s string) string {
	if neg {
		return "-" + s
	}
	return s
}

func genCSVImport(r *simrt.RNG) *RecSc {
	sc := &RecSc{L: genLedger(r, LedgerOpts{Multi: r.P(50)})}
	l := sc.L
	g := &csvGen{sc: sc, r: r}
	sc.Fields = r.P(20)
	sc.Skip = r.N(3)
	other := func(name string) string {
		return fmt.Sprintf("%s %d\n  account \"%d\"\n  description %d\n  date \"2001/01/01\"\n  amount %d \"-$1\" (\\d)\n  note \"other\"\n", name, r.N(4), r.N(100), r.N(3), r.N(3))
	}
	if r.P(25) {
		sc.Before = other(simrt.Pick(r, "a", "sr", "src0", "zz"))
	}
	if r.P(25) {
		sc.After = other(simrt.Pick(r, "b", "srcs", "S", "zzz"))
	}
	perm := make([]int, len(l.Accts))
	for i := range perm {
		perm[i] = i
	}
	simrt.Shuffle(r, perm)
	k := r.In(1, min(3, len(perm)))
	var ids []string
	for i := 0; i < k; i++ {
		ids = append(ids, fmt.Sprintf("%s%d%c", simrt.Pick(r, "X", "", "acct_"), r.In(10, 9999), 'A'+i))
	}
	noRules := r.P(10)
	if noRules || r.P(15) {
		for i := 0; i < k; i++ {
			ids[i] = fmt.Sprintf("%d%d", r.In(10, 9999), i)
		}
		for i := 0; i < k; i++ {
			l.Accts[perm[i]].OFX = ids[i]
		}
	}
	var accts []ImpAcct
	for i := 0; i < k; i++ {
		accts = append(accts, ImpAcct{Acct: perm[i], Id: ids[i]})
	}
	var targets []int
	for i := range l.Accts {
		targets = append(targets, i)
	}
	sc.Rules = impRules(r, l, accts, targets)
	switch {
	case noRules:
		sc.Rules = &RulesM{}
		if sc.Fields && r.P(70) {
			sc.Rules = nil
		}
	case r.P(30) && l.Accts[perm[k-1]].OFX != "": // known by its tag only
		sc.Rules.Groups = sc.Rules.Groups[:k-1]
	}
	simple := sc.Fields
	mode := func(n int) int {
		if simple {
			return 0
		}
		return r.N(n)
	}
	noise := func() {
		for r.P(35) {
			v := simrt.Pick(r, "", "x", "1,2", `say "hi"`, "two\nlines", " lead", "é", "2023/01/01", "0")
			g.col(func(rec *csvRec) string { return v })
		}
	}
	dir := func(name string, f func(rec *csvRec) string) { g.def(name, g.col(f), "", "") }
	parts := []func(){
		func() { // account
			switch mode(5) {
			default:
				dir("account", func(rec *csvRec) string { return rec.id })
			case 1:
				id := ids[0]
				g.derive("account", id, "", "")
				ids = ids[:1]
			case 2:
				g.def("account", g.col(func(rec *csvRec) string { return "No. " + rec.id + " (CAD)" }), "$1", `No\. (\w+)`)
			case 3:
				dir("kind", func(rec *csvRec) string { return "K" + rec.id })
				for i, id := range ids {
					if i == len(ids)-1 && r.P(50) {
						g.derive("account", id, "", "")
						continue
					}
					g.derive("account", id, "kind", "^K"+id+"$")
				}
			}
		},
		func() { // description
			switch mode(5) {
			default:
				dir("description", func(rec *csvRec) string { return rec.what })
			case 1:
				dir("what", func(rec *csvRec) string { return rec.what })
				dir("more", func(rec *csvRec) string { return rec.more })
				g.derive("description", simrt.Pick(r, "${what} ${more}", "${more} - ${what}", "POS ${what} at ${more}!", "${what}"), "", "")
			case 2:
				g.def("description", g.col(func(rec *csvRec) string { return rec.what + " REF" + rec.more }), "$1", `^(.*) REF`)
			case 3:
				g.def("description", g.col(func(rec *csvRec) string { return rec.what }), "$2 of $1", `^(\w+) (\w+)$`)
				g.def("description", len(g.cell)-1, "", "")
			}
		},
		func() { // date
			t := func(rec *csvRec, f string) string { return dayTime(rec.day).Format(f) }
			switch mode(6) {
			default:
				dir("date", func(rec *csvRec) string { return t(rec, "2006/01/02") })
			case 1:
				g.def("date", g.col(func(rec *csvRec) string { return t(rec, "2006-01-02") }), "$1/$2/$3", `(\d\d\d\d)-(\d\d)-(\d\d)`)
			case 2:
				g.def("date", g.col(func(rec *csvRec) string { return t(rec, "01/02/2006") }), "$3/$1/$2", `^(\d+)/(\d+)/(\d+)$`)
			case 3:
				g.def("date", g.col(func(rec *csvRec) string { return t(rec, "2006-01-02T15:04:05") }), "$1/$2/$3", `(\d+)-(\d+)-(\d+)T`)
			case 4: // two forms
				c := g.col(func(rec *csvRec) string {
					if rec.day%2 == 0 {
						return t(rec, "20060102")
					}
					return t(rec, "02.01.2006")
				})
				g.def("date", c, "$1/$2/$3", `^(\d{4})(\d\d)(\d\d)$`)
				g.def("date", c, "$3/$2/$1", `^(\d\d)\.(\d\d)\.(\d{4})$`)
			}
		},
		func() { // amount
			switch mode(7) {
			default:
				dir("amount", func(rec *csvRec) string { return signed(rec.neg, rec.amt) })
			case 1: // two columns
				cr := g.col(func(rec *csvRec) string {
					if rec.neg {
						return ""
					}
					return rec.amt
				})
				dr := g.col(func(rec *csvRec) string {
					if rec.neg {
						return rec.amt
					}
					return ""
				})
				g.def("amount", cr, "", "")
				g.def("amount", dr, "-$1", `([\d\.]+)`)
			case 2: // the other way round
				c := g.col(func(rec *csvRec) string { return signed(!rec.neg, rec.amt) })
				g.def("amount", c, "$1", `^-([\d\.]+)`)
				g.def("amount", c, "-$0", `^[\d\.]+`)
			case 3: // parentheses
				c := g.col(func(rec *csvRec) string {
					if rec.neg {
						return "($" + rec.amt + ")"
					}
					return "$" + rec.amt
				})
				g.def("amount", c, "-$1", `\(\$([\d\.]+)\)`)
				g.def("amount", c, "$1", `\$([\d\.]+)`)
			case 4: // kind of transaction
				dir("raw", func(rec *csvRec) string { return rec.amt })
				dir("dc", func(rec *csvRec) string {
					if rec.neg {
						return "DEBIT"
					}
					return "CREDIT"
				})
				g.derive("amount", "-${raw}", "dc", "^DEBIT")
				g.derive("amount", "${raw}", "", "")
			case 5:
				g.def("amount", g.col(func(rec *csvRec) string { return "VALUE = " + signed(rec.neg, rec.amt) + " X" }), "$1", `VALUE = (-?[\d\.]+)`)
			}
		},
	}
	withCur, withSym := len(l.Comms) > 1 && r.P(60), len(l.Comms) > 1 && r.P(40)
	optional := []func(){
		func() { // currency
			name := func(c int) string {
				if c < 0 {
					return ""
				}
				if s := l.Comms[c].Symbol; s != "" && r.P(50) {
					return s
				}
				return l.Comms[c].Id
			}
			switch mode(4) {
			default:
				dir("currency", func(rec *csvRec) string { return name(rec.cur) })
			case 2: // the bank's own names
				c := g.col(func(rec *csvRec) string {
					if rec.cur < 0 {
						return ""
					}
					return fmt.Sprintf("Cur %d.", rec.cur)
				})
				for i := range l.Comms {
					g.def("currency", c, name(i), fmt.Sprintf(`^Cur %d\.$`, i))
				}
			case 1:
				dir("cc", func(rec *csvRec) string { return name(rec.cur) })
				g.derive("currency", "${cc}", "cc", `\w`)
				g.derive("currency", l.Comms[0].Id, "", "")
			}
		},
		func() { // symbol and quantity
			bySymbol := r.P(50)
			s := func(rec *csvRec) string {
				if rec.sym < 0 {
					return ""
				}
				if x := l.Comms[rec.sym].Symbol; x != "" && bySymbol {
					return x
				}
				return l.Comms[rec.sym].Id
			}
			q := func(rec *csvRec) string {
				if rec.sym < 0 {
					return simrt.Pick(r, "", "0")
				}
				if r.P(8) { // none
					return ""
				}
				return signed(rec.qneg, rec.qty)
			}
			switch mode(3) {
			default:
				dir("symbol", s)
				dir("quantity", q)
			case 1:
				dir("sy", s)
				g.derive("symbol", "${sy}", "sy", `[A-Z]`)
				g.def("quantity", g.col(q), "$0", `-?[\d\.]+`)
			}
		},
		func() { // note
			switch mode(4) {
			default:
				dir("note", func(rec *csvRec) string { return rec.note })
			case 1:
				dir("n1", func(rec *csvRec) string { return rec.note })
				dir("n2", func(rec *csvRec) string { return rec.more })
				g.derive("note", "${n1} => ${n2}", "", "")
			case 2:
				dir("n1", func(rec *csvRec) string { return rec.note })
				g.derive("note", "see ${n1}", "n1", simrt.Pick(r, "a", "^.", "[0-9]"))
			}
		},
	}
	if sc.Fields {
		sc.Skip = 0
	}
	last := 4
	if sc.Fields { // a prefix of the list of labels
		parts = []func(){parts[0], parts[1], parts[2], parts[3]}
		for _, f := range parts {
			f()
		}
		last = simrt.Pick(r, 4, 4, 5, 7, 8)
		if len(l.Comms) == 1 && last < 8 {
			last = simrt.Pick(r, 4, 8)
		}
		if last >= 5 {
			optional[0]()
		}
		if last >= 6 {
			optional[1]()
		}
		if last >= 8 {
			optional[2]()
		}
		noise()
	} else {
		if withCur {
			parts = append(parts, optional[0])
		}
		if withSym {
			parts = append(parts, optional[1])
		}
		if r.P(40) {
			parts = append(parts, optional[2])
		}
		simrt.Shuffle(r, parts)
		for _, f := range parts {
			f()
			noise()
		}
	}
	if sc.Fields || r.P(50) { // shuffle the columns
		pos := make([]int, len(g.cell))
		for i := range pos {
			pos[i] = i
		}
		simrt.Shuffle(r, pos)
		cells := make([]func(*csvRec) string, len(pos))
		for i, p := range pos {
			cells[p] = g.cell[i]
		}
		g.cell = cells
		for i := range sc.Defs {
			if sc.Defs[i].Col >= 0 {
				sc.Defs[i].Col = pos[sc.Defs[i].Col]
			}
		}
	}
	minDec := 9
	for _, c := range l.Comms {
		minDec = min(minDec, c.Dec)
	}
	number := func(dec int) string {
		q := genQty(r)
		if q < 0 {
			q = -q
		}
		if q == 0 {
			q = 5
		}
		s := fmtQty(q, dec)
		switch {
		case dec > 0 && r.P(15):
			s = s[:len(s)-dec-1] // whole
		case dec > 1 && r.P(15):
			s = s[:len(s)-1]
		case dec > 0 && r.P(8):
			s += "0"
		case dec > 0 && r.P(5) && strings.HasPrefix(s, "0."):
			s = s[1:]
		}
		return s
	}
	for f, n := 0, simrt.Pick(r, 1, 1, 1, 2, 3); f < n; f++ {
		file := CFile{CRLF: r.P(15), NoNL: r.P(25), Quote: r.N(3), Blank: r.P(10)}
		for i := 0; i < sc.Skip; i++ {
			cols := len(g.cell)
			if i < sc.Skip-1 && r.P(50) {
				cols = r.In(1, cols+2)
			}
			var h []string
			for c := 0; c < cols; c++ {
				h = append(h, simrt.Pick(r, "Date", "Amount", "Head "+fmt.Sprint(c), "Total, CAD"))
			}
			file.Head = append(file.Head, h)
		}
		rows := simrt.Pick(r, 0, 1, 2, 3, 4, 6, 12, 40)
		if r.P(1) { // larger than any buffer
			rows = r.In(1000, 2000)
		}
		for i := 0; i < rows; i++ {
			rec := &csvRec{day: dayOf(2023, 1, 1) + int64(r.N(simrt.Pick(r, 5, 400, 9000))), id: simrt.Pick(r, ids...), what: payeeText(r), more: phrase(r, 1, 2), cur: -1, sym: -1, neg: r.P(50), qneg: r.P(50)}
			for strings.HasPrefix(rec.what, "(") || strings.Contains(rec.what, ";") {
				rec.what = payeeText(r)
			}
			if r.P(10) {
				rec.what += simrt.Pick(r, "  ", ", INC", " \"THE\"", "\n2ND LINE", "\tTAB")
			}
			dec := minDec
			if r.P(80) && (withCur && !sc.Fields || sc.Fields && last >= 5) {
				rec.cur = r.N(len(l.Comms))
				dec = l.Comms[rec.cur].Dec
			}
			rec.amt = number(dec)
			if len(l.Comms) > 1 && r.P(60) {
				rec.sym = r.In(1, len(l.Comms)-1)
				rec.qty = number(l.Comms[rec.sym].Dec)
			}
			if r.P(50) {
				rec.note = phrase(r, 1, 6)
			}
			var row []string
			for _, f := range g.cell {
				row = append(row, f(rec))
			}
			file.Rows = append(file.Rows, row)
		}
		sc.Files = append(sc.Files, file)
	}
	if r.P(35) {
		sc.damage(r)
	}
	return sc
}

// damage spoils the input.
func (sc *RecSc) damage(r *simrt.RNG) {
	f := &sc.Files[r.N(len(sc.Files))]
	t := f.text()
	if len(t) > 1 && r.P(50) {
		f.Cut = 1 + r.N(len(t)-1)
		return
	}
	if len(f.Rows) == 0 {
		return
	}
	k := r.N(len(f.Rows))
	if r.P(20) { // whose record is it?
		for _, d := range sc.Defs {
			if d.Name == "account" && d.Col >= 0 && d.Col < len(f.Rows[k]) {
				f.Rows[k] = append([]string{}, f.Rows[k]...)
				f.Rows[k][d.Col] = simrt.Pick(r, "", "", "0", "nobody's")
				return
			}
		}
	}
	switch r.N(4) {
	case 0:
		f.Rows[k] = f.Rows[k][:r.N(len(f.Rows[k]))]
		if len(f.Rows[k]) == 0 {
			f.Rows = append(f.Rows[:k], f.Rows[k+1:]...)
		}
	case 1:
		f.Rows[k] = append(f.Rows[k], "more")
	default:
		row := append([]string{}, f.Rows[k]...)
		row[r.N(len(row))] = simrt.Pick(r, "", "x", "-", "1.2.3", "2023/02/30", "2023/13/01", "1e5", "12a", "--4", "NaN", "0x10", "$")
		f.Rows[k] = row
	}
}

func genOFXImport(r *simrt.RNG) *RecSc {
	sc := &RecSc{Keep: r.P(35)}
	sc.L = genLedger(r, LedgerOpts{Multi: r.P(40)})
	var accts []ImpAcct
	for i, n := 0, simrt.Pick(r, 1, 1, 1, 2, 3); i < n; i++ {
		l2 := &Ledger{Comms: sc.L.Comms, Accts: sc.L.Accts}
		ss, ids, as := genStmts(r, l2, simrt.Pick(r, 3, 10, 30, 3, 10, 30, 3, 10, 30, 3, 10, 30, 3, 10, 30, 3, 10, 30, 3, 10, 30, 3, 10, 600))
		for k := range ss {
			ss[k].AcctId = fmt.Sprintf("%s%d", ids[k], i)
			if r.P(8) {
				ss[k].Txns = nil
			}
			simrt.Shuffle(r, ss[k].Txns)
			for t := range ss[k].Txns {
				x := &ss[k].Txns[t]
				x.Name = payeeText(r)
				x.Amt %= 100000000000000000
				if x.Amt == 0 {
					x.Amt = 7
				}
				if t > 0 && r.P(10) {
					y := ss[k].Txns[t-1]
					x.Day, x.Amt = y.Day, y.Amt
				}
			}
			known := false
			for _, a := range accts {
				known = known || a.Acct == as[k]
			}
			id := ss[k].AcctId
			if known { // one id per account
				for _, a := range accts {
					if a.Acct == as[k] {
						id = a.Id
					}
				}
			} else {
				accts = append(accts, ImpAcct{Acct: as[k], Id: id})
			}
			ss[k].AcctId = id
			sc.L.Accts[as[k]].OFX = id
		}
		f := OFile{Stmts: ss, BMO: r.P(25), NoNL: r.P(20)}
		f.CRLF = !f.BMO && r.P(15)
		sc.BMO = sc.BMO || f.BMO
		sc.OFX = append(sc.OFX, f)
	}
	sc.BMO = sc.BMO || r.P(25)
	var targets []int
	for i := range sc.L.Accts {
		targets = append(targets, i)
	}
	if !r.P(10) {
		sc.Rules = impRules(r, sc.L, accts, targets)
	}
	if r.P(10) { // an account nobody knows
		f := &sc.OFX[r.N(len(sc.OFX))]
		f.Stmts[r.N(len(f.Stmts))].AcctId = simrt.Pick(r, "0", "no such", "1", "")
	}
	if r.P(20) {
		f := &sc.OFX[r.N(len(sc.OFX))]
		f.Cut = 1 + r.N(len(sc.ofxFile(f))-1)
	}
	return sc
}

func (sc *RecSc) ofxFile(f *OFile) string {
	fl := 0
	if f.BMO {
		fl = 1
	}
	s := ofxText(f.Stmts, sc.L, fl)
	if f.NoNL {
		s = strings.TrimSuffix(s, "\n")
	}
	if f.CRLF {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	if f.Cut > 0 && f.Cut < len(s) {
		s = s[:f.Cut]
	}
	return s
}

func genRec(r *simrt.RNG, i int) *RecSc {
	var sc *RecSc
	if i%3 == 2 {
		sc = genOFXImport(r)
	} else {
		sc = genCSVImport(r)
	}
	runs := []RecRun{{}, {Slice: 1 + r.N(3), Map: r.N(4), Seed: r.Uint64()}}
	for k := 0; k < 3; k++ {
		run := RecRun{Slice: r.N(4), Map: r.N(4), Seed: r.Uint64()}
		run.Faults = []simrt.Fault{{At: r.N(simrt.Pick(r, 12, 40, 90)), Kind: simrt.Pick(r, "EIO", "EIO", "EINTR", "EACCES", "short"), Sticky: r.P(15)}}
		runs = append(runs, run)
	}
	sc.Run = [][]RecRun{runs}
	return sc
}

func runC12(x any, st *Stats) *Violation {
	sc := x.(*RecSc)
	f := Files{db + "/commodities.coin": sc.L.commText(), db + "/accounts.coin": sc.L.acctText()}
	args := []string{"csv2coin"}
	if len(sc.OFX) > 0 {
		args[0] = "ofx2coin"
		if sc.BMO {
			args = append(args, "-bmo")
		}
		if sc.Keep {
			args = append(args, "-keep-dupes")
		}
		if sc.Rules != nil {
			f[db+"/ofx.rules"] = sc.Rules.text(sc.L)
		}
		for i := range sc.OFX {
			n := fmt.Sprintf("/w/dl%d.qfx", i)
			f[n] = sc.ofxFile(&sc.OFX[i])
			args = append(args, n)
		}
	} else {
		if sc.Fields {
			var cols []string
			for _, lb := range labels {
				for _, d := range sc.Defs {
					if d.Name == lb {
						cols = append(cols, fmt.Sprint(d.Col))
					}
				}
			}
			args = append(args, "-fields", strings.Join(cols, ","))
		} else {
			args = append(args, "-source", "src")
		}
		if !sc.Fields || sc.Rules != nil {
			f[db+"/csv.rules"] = sc.rulesFile()
		}
		for i := range sc.Files {
			n := fmt.Sprintf("/w/in%d.csv", i)
			f[n] = sc.Files[i].text()
			if !utf8.ValidString(f[n]) {
				st.Count("skipped: cut inside a character")
				return nil
			}
			args = append(args, n)
		}
	}
	want, werr := sc.want()
	if werr != nil && strings.Contains(werr.Error(), "too precise") {
		st.Count("skipped: more decimals than the commodity has")
		return nil
	}
	if len(sc.OFX) > 0 {
		var ids []string
		for _, a := range sc.L.Accts {
			switch {
			case a.bank() != "":
				ids = append(ids, a.bank()+"/"+a.OFX+" "+a.Name)
			case a.OFX != "":
				ids = append(ids, a.OFX+" "+a.Name)
			}
		}
		w := newWorld(f, baseTime)
		ps := w.Run(cmd("ofx2coin", "-ids"))
		st.World(w, ps, false)
		if why := multiset(outLines(string(ps[0].Stdout)), ids); !ps[0].OK() || why != "" {
			return &Violation{Sig: "ids", Msg: fmt.Sprintf("ofx2coin -ids does not list the accounts: %s %s", ps[0].How(), why), Detail: detail(w, ps), Sc: sc}
		}
	}
	cut := false
	for i := range sc.OFX {
		cut = cut || sc.OFX[i].Cut > 0
	}
	for k, run := range sc.Run[0] {
		w := newWorld(f, baseTime)
		c := cmd(args...)
		c.Cfg = simrt.Cfg{MapMode: run.Map, MapSeed: run.Seed, SliceMode: run.Slice, SliceSeed: run.Seed, Faults: run.Faults}
		ps := w.Run(c)
		p := ps[0]
		st.World(w, ps, true)
		fail := func(sig, f string, a ...any) *Violation {
			n := *sc
			n.Run = [][]RecRun{{run}}
			return &Violation{Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: detail(w, ps), Sc: &n}
		}
		if !p.OK() {
			switch {
			case werr != nil:
				st.Count("bad input rejected")
			case cut:
				st.Count("truncated statement rejected")
			case len(p.Fired) > 0:
				st.Count("failed with a fault")
			default:
				return fail("fails", "run %d: import of well-formed input without a fault fails: %s %s", k, p.How(), p.Stderr)
			}
			continue
		}
		got, err := parseCanon(string(p.Stdout))
		if err != nil {
			return fail("garbled", "run %d: the output cannot be read: %v", k, err)
		}
		if werr != nil {
			return fail("accepted", "run %d: the import succeeds although the input is bad (%v); %d transactions", k, werr, len(got))
		}
		st.Count("imports done")
		st.Counters["records imported"] += len(got)
		if why := sameTxns(want, got); why != "" {
			return fail("records", "run %d: the import does not emit what the records say: %s", k, why)
		}
		rfile := db + "/csv.rules"
		if len(sc.OFX) > 0 {
			rfile = db + "/ofx.rules"
		}
		if _, ok := f[rfile]; ok && len(run.Faults) == 0 { // the rules as the program prints them mean the same
			w = newWorld(f, baseTime)
			dc := cmd(args[0], "-rules")
			dc.Cfg = simrt.Cfg{MapMode: run.Map, MapSeed: run.Seed, SliceMode: run.Slice, SliceSeed: run.Seed}
			ps = w.Run(dc)
			if !ps[0].OK() {
				return fail("rules-fail", "%s -rules: %s %s", args[0], ps[0].How(), ps[0].Stderr)
			}
			w.FS.Put(rfile, string(ps[0].Stdout))
			again := w.Run(cmd(args...))
			ps = append(ps, again...)
			st.World(w, ps, false)
			st.Count("imports with printed rules")
			if !again[0].OK() || string(again[0].Stdout) != string(p.Stdout) {
				return fail("rules", "with the rules as printed by -rules the import %s and gives something else: %s", again[0].How(), firstDiff(string(p.Stdout), string(again[0].Stdout)))
			}
			third := w.Run(dc)
			ps = append(ps, third...)
			if string(third[0].Stdout) != string(ps[0].Stdout) {
				return fail("rules-unstable", "the rules printed by -rules are printed differently when read back: %s", firstDiff(string(ps[0].Stdout), string(third[0].Stdout)))
			}
		}
	}
	return nil
}

func shrinkRec(x any) (out []any) {
	sc := x.(*RecSc)
	add := func(f func(n *RecSc)) {
		n := clone(checks["C12"], sc).(*RecSc)
		f(n)
		out = append(out, n)
	}
	for i := range sc.Run[0] {
		if len(sc.Run[0]) > 1 {
			add(func(n *RecSc) { n.Run[0] = n.Run[0][i : i+1] })
		}
	}
	if len(sc.Run[0]) == 1 {
		r := sc.Run[0][0]
		if len(r.Faults) > 0 {
			add(func(n *RecSc) { n.Run[0][0].Faults = nil })
		}
		if r.Slice+r.Map > 0 {
			add(func(n *RecSc) { n.Run[0][0].Slice, n.Run[0][0].Map = 0, 0 })
		}
	}
	for i := range sc.Files {
		if len(sc.Files) > 1 {
			add(func(n *RecSc) { n.Files = append(n.Files[:i:i], n.Files[i+1:]...) })
		}
		f := sc.Files[i]
		if len(f.Rows) > 3 {
			h := len(f.Rows) / 2
			add(func(n *RecSc) { n.Files[i].Rows = n.Files[i].Rows[:h] })
			add(func(n *RecSc) { n.Files[i].Rows = n.Files[i].Rows[h:] })
		}
		for k := range f.Rows {
			if len(f.Rows) < 15 {
				add(func(n *RecSc) { n.Files[i].Rows = append(n.Files[i].Rows[:k:k], n.Files[i].Rows[k+1:]...) })
			}
		}
		if f.CRLF || f.Blank || f.Quote > 0 {
			add(func(n *RecSc) { n.Files[i].CRLF, n.Files[i].Blank, n.Files[i].Quote = false, false, 0 })
		}
		if f.NoNL {
			add(func(n *RecSc) { n.Files[i].NoNL = false })
		}
		if f.Cut > 0 {
			add(func(n *RecSc) { n.Files[i].Cut = 0 })
		}
	}
	for i := range sc.OFX {
		if len(sc.OFX) > 1 {
			add(func(n *RecSc) { n.OFX = append(n.OFX[:i:i], n.OFX[i+1:]...) })
		}
		for k := range sc.OFX[i].Stmts {
			if len(sc.OFX[i].Stmts) > 1 {
				add(func(n *RecSc) {
					f := &n.OFX[i]
					f.Stmts = append(f.Stmts[:k:k], f.Stmts[k+1:]...)
				})
			}
			ts := sc.OFX[i].Stmts[k].Txns
			for t := range ts {
				if len(ts) < 12 {
					add(func(n *RecSc) {
						s := &n.OFX[i].Stmts[k]
						s.Txns = append(s.Txns[:t:t], s.Txns[t+1:]...)
					})
				}
			}
			if len(ts) > 3 {
				add(func(n *RecSc) { n.OFX[i].Stmts[k].Txns = ts[:len(ts)/2] })
				add(func(n *RecSc) { n.OFX[i].Stmts[k].Txns = ts[len(ts)/2:] })
			}
		}
	}
	if sc.Rules != nil {
		if len(sc.Rules.Common) > 0 {
			add(func(n *RecSc) {
				n.Rules.Common = nil
				for i := range n.Rules.Groups {
					n.Rules.Groups[i].Common = -1
				}
			})
		}
		for i := range sc.Rules.Groups {
			for k := range sc.Rules.Groups[i].Rules {
				add(func(n *RecSc) {
					g := &n.Rules.Groups[i]
					g.Rules = append(g.Rules[:k:k], g.Rules[k+1:]...)
					if g.Common > len(g.Rules) {
						g.Common = len(g.Rules)
					}
				})
			}
		}
	}
	return out
}

func init() {
	register(&Check{
		ID: "C12", Level: "exploration", Full: true, Quick: 9000, Thor: 500000,
		Rule:   "Each scenario is one import of one to three CSV files (source definitions with extraction, derivation and conditions, or -fields) or OFX files, well-formed, truncated at a seeded byte or otherwise spoiled. It runs five times: as is, with reads sliced, and with faults in its reads. A run that exits 0 must have emitted exactly what a reference interpreter of the definitions and rules makes of the records; bad input must be rejected; good input without a fault must not.",
		Real:   []string{"csv2coin and ofx2coin with the coin, check and rex packages, instrumented from the working tree", "encoding/csv, ofxgo, flag, bufio, regexp, sort"},
		Stub:   []string{"operating system: disk, clock", "map iteration order and slicing of reads (seeded)"},
		Assume: []string{"Amounts have no more decimals than their commodity.", "Header lines of CSV files are not blank.", "The rules and sources are well-formed."},
		Gen:    func(r *simrt.RNG, i int) any { return genRec(r, i) },
		New:    func() any { return &RecSc{} },
		Run:    runC12,
		Shrink: shrinkRec,
	})
}
