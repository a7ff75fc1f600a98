package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"regexp"
	"strings"
	"time"

	"vsim/simrt"
)

// ---------------------------------------------------------------------------------------------------- OFX

type BankTxn struct {
	Day   int64
	Sec   int // local time of day
	TZ    int // hours east of UTC
	Style int // how the date is written
	Amt   int64
	Name  string
	Memo  string `json:",omitempty"`
	Fitid string
}

type Stmt struct {
	Acct   int // index of the ledger account
	AcctId string
	CC     bool `json:",omitempty"`
	Txns   []BankTxn
	Bal    int64
}

// payee is the description the transaction gets.
func (t *BankTxn) payee(cc bool) string {
	if cc {
		return t.Name
	}
	return strings.Join(strings.Fields(strings.TrimSpace(t.Name)+strings.TrimSpace(t.Memo)), " ")
}

func ofxDate(t *BankTxn) string {
	d := dayTime(t.Day).Add(time.Duration(t.Sec) * time.Second)
	zone := fmt.Sprintf("[%+d:XYZ]", t.TZ)
	switch t.Style {
	case 0:
		return d.Format("20060102150405.000") + zone
	case 1:
		return d.Format("20060102150405") + zone
	case 2:
		return d.Format("20060102150405")
	}
	return d.Format("20060102")
}

// ofxText renders statements as OFX 1.02. flavour 0: well-formed; 1: as the Bank of Montreal writes it.
func ofxText(ss []Stmt, l *Ledger, flavour int) string {
	var b strings.Builder
	if flavour == 1 {
		b.WriteString("\n\n")
	}
	b.WriteString("OFXHEADER:100\nDATA:OFXSGML\nVERSION:102\nSECURITY:NONE\nENCODING:USASCII\nCHARSET:1252\nCOMPRESSION:NONE\nOLDFILEUID:NONE\nNEWFILEUID:NONE\n")
	if flavour == 0 {
		b.WriteString("\n")
	}
	b.WriteString("<OFX>\n<SIGNONMSGSRSV1>\n<SONRS>\n<STATUS>\n<CODE>0\n<SEVERITY>INFO\n<MESSAGE>OK\n</STATUS>\n<DTSERVER>20240127181602.926[-5:EDT]\n<LANGUAGE>ENG\n</SONRS>\n</SIGNONMSGSRSV1>\n")
	for _, cc := range []bool{false, true} {
		n := 0
		for _, s := range ss {
			if s.CC == cc {
				n++
			}
		}
		if n == 0 {
			continue
		}
		set, rs, st, from := "BANKMSGSRSV1", "STMTTRNRS", "STMTRS", "BANKACCTFROM"
		if cc {
			set, rs, st, from = "CREDITCARDMSGSRSV1", "CCSTMTTRNRS", "CCSTMTRS", "CCACCTFROM"
		}
		if flavour == 1 && !cc {
			b.WriteString("<BANKMSGSETV1><BANKMSGSET>\n")
		}
		fmt.Fprintf(&b, "<%s>\n\n", set)
		for i, s := range ss {
			if s.CC != cc {
				continue
			}
			c := l.Comms[l.Accts[s.Acct].Comm]
			cur := c.Id
			if cur != "USD" && cur != "EUR" { // must be a real one
				cur = "CAD"
			}
			fmt.Fprintf(&b, "<%s>\n<TRNUID>%d\n<STATUS>\n<CODE>0\n<SEVERITY>INFO\n<MESSAGE>OK\n</STATUS>\n<%s>\n<CURDEF>%s\n<%s>\n", rs, i+1, st, cur, from)
			if !cc {
				b.WriteString("<BANKID>200000100\n")
			}
			fmt.Fprintf(&b, "<ACCTID>%s\n", s.AcctId)
			if !cc {
				b.WriteString("<ACCTTYPE>CHECKING\n")
			}
			fmt.Fprintf(&b, "</%s>\n<BANKTRANLIST>\n<DTSTART>20190127000000.000[-5:EDT]\n<DTEND>20290127000000.000[-5:EDT]\n", from)
			for _, t := range s.Txns {
				typ := "CREDIT"
				if t.Amt < 0 {
					typ = "DEBIT"
				}
				fmt.Fprintf(&b, "\n<STMTTRN>\n<TRNTYPE>%s\n<DTPOSTED>%s\n<TRNAMT>%s\n<FITID>%s\n\n<NAME>%s\n", typ, ofxDate(&t), fmtQty(t.Amt, c.Dec), t.Fitid, t.Name)
				if t.Memo != "" {
					fmt.Fprintf(&b, "<MEMO>%s\n", t.Memo)
				}
				b.WriteString("</STMTTRN>\n")
			}
			b.WriteString("</BANKTRANLIST>\n<LEDGERBAL>\n")
			fmt.Fprintf(&b, "<BALAMT>%s\n<DTASOF>20290127181602.926[-5:EDT]\n</LEDGERBAL>\n", fmtQty(s.Bal, c.Dec))
			fmt.Fprintf(&b, "</%s>\n</%s>\n", st, rs)
		}
		fmt.Fprintf(&b, "\n</%s>\n", set)
		if flavour == 1 && !cc {
			b.WriteString("<BANKMSGSET><BANKMSGSETV1>\n")
		}
	}
	b.WriteString("</OFX>\n")
	return b.String()
}

// ---------------------------------------------------------------------------------------------------- rules

type RuleM struct {
	Acct int // -1: drop
	Rx   string
	Note string `json:",omitempty"`
	More string `json:",omitempty"` // a second note
}

// notes are what the rule writes into the transactions it applies to.
func (m *RuleM) notes() (out []string) {
	for _, n := range []string{m.Note, m.More} {
		if n != "" {
			out = append(out, n)
		}
	}
	return out
}

type RulesM struct {
	Common []RuleM
	Groups []RuleGroup
	Split  int    `json:",omitempty"` // so many of the common rules are in a set of their own, which the common one refers to
	Lay    uint64 `json:",omitempty"` // blank lines, comments between groups, shortened account names
}

type RuleGroup struct {
	Id     string
	Acct   int
	Rules  []RuleM
	Common int    // position of the @common reference among the rules, -1 none
	Remark string `json:",omitempty"` // a comment under the reference, which no rule has
}

func genRules(r *simrt.RNG, l *Ledger, ids []string, accts []int, drop bool) *RulesM {
	rule := func() RuleM {
		m := RuleM{Acct: r.N(len(l.Accts))}
		if drop && r.P(12) {
			m.Acct = -1
		}
		var ws []string
		for i, n := 0, r.In(1, 3); i < n; i++ {
			ws = append(ws, strings.ToUpper(simrt.Pick(r, words...)))
		}
		m.Rx = strings.Join(ws, "|")
		if r.P(25) {
			m.Note = note(r)
			if r.P(25) {
				m.More = note(r)
			}
		}
		return m
	}
	rs := &RulesM{}
	for i, n := 0, r.N(3); i < n; i++ {
		rs.Common = append(rs.Common, rule())
	}
	for i, id := range ids {
		g := RuleGroup{Id: id, Acct: accts[i], Common: -1}
		for k, n := 0, r.N(3); k < n; k++ {
			g.Rules = append(g.Rules, rule())
		}
		if len(rs.Common) > 0 && r.P(60) {
			g.Common = r.N(len(g.Rules) + 1)
			if r.P(20) {
				g.Remark = phrase(r, 1, 3)
			}
		}
		rs.Groups = append(rs.Groups, g)
	}
	if r.P(30) {
		rs.Split = r.N(len(rs.Common) + 1)
	}
	if r.P(40) {
		rs.Lay = r.Uint64() | 1
	}
	return rs
}

func (rs *RulesM) text(l *Ledger) string {
	var b strings.Builder
	lay := simrt.NewRNG(rs.Lay, "layout")
	blank := func(p int) {
		if rs.Lay != 0 && lay.P(p) {
			b.WriteString(simrt.Pick(lay, "\n", "\n\n", "  \n", "\t\n"))
		}
	}
	acct := func(k int) string {
		if rs.Lay != 0 && lay.P(20) {
			if e := l.ref(lay, l.Accts[k].Name); e != "" {
				return e
			}
		}
		return l.Accts[k].Name
	}
	rule := func(m RuleM) {
		n := "--"
		if m.Acct >= 0 {
			n = acct(m.Acct)
		}
		blank(8)
		in := "  "
		if rs.Lay != 0 && lay.P(20) {
			in = simrt.Pick(lay, " ", "\t", "    ")
		}
		fmt.Fprintf(&b, "%s%s  %s\n", in, n, m.Rx)
		for _, n := range m.notes() {
			fmt.Fprintf(&b, "%s; %s\n", in, n)
		}
	}
	head := func(s string) {
		blank(30)
		if rs.Lay != 0 && lay.P(15) {
			b.WriteString(simrt.Pick(lay, "; the rules of "+s, "# "+s, "-- "+s, ";") + "\n")
			blank(20)
		}
		b.WriteString(s + "\n")
	}
	common := rs.Common
	if n := min(rs.Split, len(common)); n > 0 {
		head("base_1")
		for _, m := range common[:n] {
			rule(m)
		}
		common = common[n:]
	}
	if len(rs.Common) > 0 {
		head("common")
		if len(common) < len(rs.Common) {
			b.WriteString("  @base_1\n")
		}
		for _, m := range common {
			rule(m)
		}
	}
	for _, g := range rs.Groups {
		head(g.Id + " " + acct(g.Acct))
		ref := func() {
			blank(8)
			b.WriteString("  @common\n")
			if g.Remark != "" {
				fmt.Fprintf(&b, "  ; %s\n", g.Remark)
			}
		}
		for i, m := range g.Rules {
			if g.Common == i {
				ref()
			}
			rule(m)
		}
		if g.Common == len(g.Rules) {
			ref()
		}
	}
	blank(30)
	return b.String()
}

// match returns the rule that applies, or nil.
func (rs *RulesM) match(id, payee string) *RuleM {
	find := func(ms []RuleM) *RuleM {
		for i := range ms {
			if regexp.MustCompile(ms[i].Rx).MatchString(payee) {
				return &ms[i]
			}
		}
		return nil
	}
	for _, g := range rs.Groups {
		if g.Id != id {
			continue
		}
		for i := range g.Rules {
			if g.Common == i {
				if m := find(rs.Common); m != nil {
					return m
				}
			}
			if m := find(g.Rules[i : i+1]); m != nil {
				return m
			}
		}
		if g.Common == len(g.Rules) {
			return find(rs.Common)
		}
	}
	return nil
}

func shout(r *simrt.RNG, lo, hi int) string {
	var ws []string
	for i, n := 0, r.In(lo, hi); i < n; i++ {
		ws = append(ws, strings.ToUpper(simrt.Pick(r, words...)))
	}
	if r.P(30) {
		ws = append(ws, fmt.Sprintf("NO.%d", r.In(1, 999)))
	}
	s := strings.Join(ws, " ")
	if len(s) > 30 {
		s = s[:30]
	}
	return strings.TrimSpace(s)
}

func bankAmt(r *simrt.RNG) int64 {
	if r.P(3) {
		return genQty(r) * int64(r.In(1, 4000)) // 16 digits
	}
	return genQty(r) % 10000000
}

// genStmts makes statements for some of the ledger's accounts, which get OFX ids.
func genStmts(r *simrt.RNG, l *Ledger, maxTxns int) (ss []Stmt, ids []string, accts []int) {
	k := r.In(1, min(3, len(l.Accts)))
	perm := make([]int, len(l.Accts))
	for i := range perm {
		perm[i] = i
	}
	simrt.Shuffle(r, perm)
	for i := 0; i < k; i++ {
		a := perm[i]
		id := fmt.Sprintf("%d%d", r.In(100000, 999999), i)
		l.Accts[a].OFX = id
		s := Stmt{Acct: a, AcctId: id, CC: r.P(30), Bal: genQty(r) % 100000000}
		n := r.In(1, maxTxns)
		day := dayOf(2023, 1+r.N(12), 1+r.N(28))
		tz, style := r.In(-11, 12), r.N(4)
		for j := 0; j < n; j++ {
			t := BankTxn{Day: day, TZ: tz, Style: style, Amt: bankAmt(r), Name: shout(r, 1, 3), Fitid: fmt.Sprintf("%d%d", 20230000+i*1000+j, r.N(10))}
			if r.P(30) {
				t.Sec = r.N(86400)
			}
			if r.P(25) {
				t.Memo = " " + shout(r, 1, 2)
			}
			if t.Amt == 0 {
				t.Amt = -100
			}
			s.Txns = append(s.Txns, t)
			day += int64(r.N(3))
		}
		ss = append(ss, s)
		ids = append(ids, id)
		accts = append(accts, a)
	}
	return ss, ids, accts
}

// ---------------------------------------------------------------------------------------------------- CSV

type CSVRec struct {
	Acct  int // index into the groups
	Day   int64
	Amt   int64
	Desc  string
	Note  string
	Width int
}

type CSVM struct {
	Cols     int // total columns
	ColAcct  int // -1: constant
	ColDate  int
	ColDesc  int
	ColAmt   int
	ColNote  int // -1: none
	ISO      bool
	Negate   bool // the amount column is a debit: positive means money out
	TwoCol   bool // debit and credit columns; ColAmt is credit, ColAmt2 debit
	ColAmt2  int
	Skip     int
	Rules    *RulesM
	Recs     [][]CSVRec // per file
	Joined   bool       // description derived from two values
	NoNL     bool       // no newline at the end of the files
	CRLF     bool
	QuoteAll bool
}

func genCSV(r *simrt.RNG, l *Ledger) *CSVM {
	m := &CSVM{ColAcct: -1, ColNote: -1, ISO: r.P(40), Negate: r.P(20), TwoCol: r.P(20), Skip: r.N(3), NoNL: r.P(30), CRLF: r.P(15), QuoteAll: r.P(20), Joined: r.P(20)}
	m.Cols = r.In(6, 9)
	perm := make([]int, m.Cols)
	for i := range perm {
		perm[i] = i
	}
	simrt.Shuffle(r, perm)
	m.ColDate, m.ColDesc, m.ColAmt, m.ColAmt2 = perm[0], perm[1], perm[2], perm[3]
	if r.P(50) {
		m.ColAcct = perm[4]
	}
	if r.P(40) {
		m.ColNote = perm[5]
	}
	var cand []int
	for i, a := range l.Accts {
		if a.Comm == 0 {
			leaf := true
			for _, b := range l.Accts {
				leaf = leaf && !strings.HasPrefix(b.Name, a.Name+":")
			}
			if leaf {
				cand = append(cand, i)
			}
		}
	}
	if len(cand) == 0 {
		l.Accts = append(l.Accts, Acct{Name: "Assets:Bank:Current"})
		cand = []int{len(l.Accts) - 1}
	}
	simrt.Shuffle(r, cand)
	k := r.In(1, min(2, len(cand)))
	var ids []string
	for i := 0; i < k; i++ {
		ids = append(ids, fmt.Sprintf("X%d%c", r.In(10, 99), 'A'+i))
	}
	// targets of rules are leaves in the default commodity too
	sub := &Ledger{Comms: l.Comms}
	for _, c := range cand {
		sub.Accts = append(sub.Accts, l.Accts[c])
	}
	m.Rules = genRules(r, sub, ids, cand[:k], true)
	fix := func(ms []RuleM) {
		for i := range ms {
			if ms[i].Acct >= 0 {
				ms[i].Acct = cand[ms[i].Acct]
			}
		}
	}
	fix(m.Rules.Common)
	for i := range m.Rules.Groups {
		fix(m.Rules.Groups[i].Rules)
	}
	for f, n := 0, r.In(1, 2); f < n; f++ {
		var recs []CSVRec
		for i, n := 0, r.N(6); i < n; i++ {
			rec := CSVRec{Acct: 0, Day: dayOf(2023, 1, 1) + int64(r.N(400)), Amt: genQty(r) % 100000000, Desc: shout(r, 1, 3)}
			if m.ColAcct >= 0 {
				rec.Acct = r.N(k)
			}
			if rec.Amt == 0 {
				rec.Amt = 1500
			}
			if m.ColNote >= 0 && r.P(50) {
				rec.Note = phrase(r, 1, 3)
				rec.Note = strings.NewReplacer(",", "", "é", "e").Replace(rec.Note)
			}
			recs = append(recs, rec)
		}
		m.Recs = append(m.Recs, recs)
	}
	return m
}

func (m *CSVM) sourceText() string {
	var b strings.Builder
	fmt.Fprintf(&b, "src %d\n", m.Skip)
	if m.ColAcct >= 0 {
		fmt.Fprintf(&b, "  account %d\n", m.ColAcct)
	} else {
		fmt.Fprintf(&b, "  account \"%s\"\n", m.Rules.Groups[0].Id)
	}
	if m.ISO {
		fmt.Fprintf(&b, "  date %d \"$1/$2/$3\" (\\d\\d\\d\\d)-(\\d\\d)-(\\d\\d)\n", m.ColDate)
	} else {
		fmt.Fprintf(&b, "  date %d\n", m.ColDate)
	}
	if m.Joined {
		fmt.Fprintf(&b, "  what %d\n  description \"${what}\"\n", m.ColDesc)
	} else {
		fmt.Fprintf(&b, "  description %d\n", m.ColDesc)
	}
	switch {
	case m.TwoCol:
		fmt.Fprintf(&b, "  amount %d\n  amount %d \"-$1\" ([\\d\\.]+)\n", m.ColAmt, m.ColAmt2)
	case m.Negate:
		fmt.Fprintf(&b, "  amount %d \"$1\" -([\\d\\.]+)\n  amount %d \"-$1\" ([\\d\\.]+)\n", m.ColAmt, m.ColAmt)
	default:
		fmt.Fprintf(&b, "  amount %d\n", m.ColAmt)
	}
	if m.ColNote >= 0 {
		fmt.Fprintf(&b, "  note %d\n", m.ColNote)
	}
	return b.String()
}

func (m *CSVM) rulesText(l *Ledger) string { return m.sourceText() + "---\n" + m.Rules.text(l) }

func (m *CSVM) fileText(l *Ledger, recs []CSVRec) string {
	nl := "\n"
	if m.CRLF {
		nl = "\r\n"
	}
	var rows []string
	for i := 0; i < m.Skip; i++ {
		var cells []string
		for c := 0; c < m.Cols; c++ {
			cells = append(cells, fmt.Sprintf("Head%d", c))
		}
		rows = append(rows, strings.Join(cells, ","))
	}
	for _, rec := range recs {
		cells := make([]string, m.Cols)
		for c := range cells {
			cells[c] = fmt.Sprintf("f%d", c)
		}
		d := dayTime(rec.Day)
		cells[m.ColDate] = d.Format("2006/01/02")
		if m.ISO {
			cells[m.ColDate] = d.Format("2006-01-02")
		}
		cells[m.ColDesc] = rec.Desc
		dec := l.Comms[0].Dec
		switch {
		case m.TwoCol && rec.Amt < 0:
			cells[m.ColAmt], cells[m.ColAmt2] = "", fmtQty(-rec.Amt, dec)
		case m.TwoCol:
			cells[m.ColAmt], cells[m.ColAmt2] = fmtQty(rec.Amt, dec), ""
		case m.Negate:
			cells[m.ColAmt] = fmtQty(-rec.Amt, dec)
		default:
			cells[m.ColAmt] = fmtQty(rec.Amt, dec)
		}
		if m.ColAcct >= 0 {
			cells[m.ColAcct] = m.Rules.Groups[rec.Acct].Id
		}
		if m.ColNote >= 0 {
			cells[m.ColNote] = rec.Note
		}
		if m.QuoteAll {
			for c := range cells {
				cells[c] = `"` + cells[c] + `"`
			}
		}
		rows = append(rows, strings.Join(cells, ","))
	}
	s := strings.Join(rows, nl)
	if !m.NoNL && s != "" {
		s += nl
	}
	return s
}

// ---------------------------------------------------------------------------------------------------- GnuCash

type GCTxn struct {
	Txn
	Sec, TZ int
}

type GCPrice struct {
	Price
	Sec, TZ int
}

type GC struct {
	L      *Ledger // commodities and accounts; every parent account is listed
	Txns   []GCTxn
	Prices []GCPrice
}

func genGC(r *simrt.RNG, maxTxns int) *GC {
	l := genLedger(r, LedgerOpts{Multi: r.P(50), CAD: true})
	l.Comms[0].Dec = 2
	// complete the tree
	have := map[string]bool{}
	for _, a := range l.Accts {
		have[a.Name] = true
	}
	for i := 0; i < len(l.Accts); i++ {
		n := l.Accts[i].Name
		if k := strings.LastIndex(n, ":"); k >= 0 && !have[n[:k]] {
			have[n[:k]] = true
			l.Accts = append(l.Accts, Acct{Name: n[:k]})
		}
	}
	g := &GC{L: l}
	lo, hi := dayOf(2021, 12, 20), dayOf(2024, 1, 12)
	sec := func() (int, int) {
		return simrt.Pick(r, 0, 10*3600+59*60, 23*3600+1800, r.N(86400)), r.In(-11, 12)
	}
	day := func() int64 {
		if r.P(40) { // around new year
			return dayOf(2022+r.N(3), 1, 1) + int64(r.In(-2, 1))
		}
		return lo + int64(r.N(int(hi-lo)))
	}
	for i, n := 0, r.N(maxTxns+1); i < n; i++ {
		t := GCTxn{Txn: l.genTxn(r, LedgerOpts{Multi: len(l.Comms) > 1, DayLo: lo, DayHi: hi})}
		t.Day = day()
		t.Sec, t.TZ = sec()
		for k := range t.Posts { // gnucash has 64 bits for a number
			if h := t.Posts[k].Hi; h > 4000 || h < -4000 {
				for k := range t.Posts {
					t.Posts[k].Hi = 0
				}
			}
		}
		if r.P(20) {
			t.Desc += " - " + simrt.Pick(r, phrase(r, 1, 3), "x", "12", phrase(r, 1, 2)+" - "+phrase(r, 1, 2))
		}
		for k := range t.Posts {
			if r.P(15) {
				t.Posts[k].Notes = []string{phrase(r, 1, 3)}
			}
		}
		g.Txns = append(g.Txns, t)
	}
	if len(l.Comms) > 1 {
		for i, n := 0, r.N(5); i < n; i++ {
			p := GCPrice{Price: Price{Day: day(), C: r.In(1, len(l.Comms)-1), K: 0, Val: int64(r.In(1, 900000))}}
			if k := r.N(len(l.Comms)); r.P(30) && k != p.C {
				p.K = k
			}
			p.Sec, p.TZ = sec()
			g.Prices = append(g.Prices, p)
		}
	}
	return g
}

func xmlEsc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

func gcStamp(day int64, sec, tz int) string {
	return dayTime(day).Add(time.Duration(sec)*time.Second).Format("2006-01-02 15:04:05") + fmt.Sprintf(" %+03d00", tz)
}

func frac(hi, q int64, dec int) string {
	return fmtBig(hi, q, 0) + "/1" + strings.Repeat("0", dec)
}

func (g *GC) xml() string {
	l := g.L
	var b strings.Builder
	b.WriteString(`<?xml version="1.0" encoding="utf-8" ?>
<gnc-v2 xmlns:gnc="http://www.gnucash.org/XML/gnc" xmlns:act="http://www.gnucash.org/XML/act" xmlns:book="http://www.gnucash.org/XML/book" xmlns:cmdty="http://www.gnucash.org/XML/cmdty" xmlns:price="http://www.gnucash.org/XML/price" xmlns:trn="http://www.gnucash.org/XML/trn" xmlns:split="http://www.gnucash.org/XML/split" xmlns:ts="http://www.gnucash.org/XML/ts">
<gnc:count-data cd:type="book" xmlns:cd="http://www.gnucash.org/XML/cd">1</gnc:count-data>
<gnc:book version="2.0.0">
`)
	for _, c := range l.Comms {
		fmt.Fprintf(&b, "<gnc:commodity version=\"2.0.0\"><cmdty:space>X</cmdty:space><cmdty:id>%s</cmdty:id><cmdty:name>%s</cmdty:name><cmdty:fraction>1%s</cmdty:fraction></gnc:commodity>\n", c.Id, xmlEsc(c.Note), strings.Repeat("0", c.Dec))
	}
	if len(g.Prices) > 0 {
		b.WriteString("<gnc:pricedb version=\"1\">\n")
		for i, p := range g.Prices {
			fmt.Fprintf(&b, "<price><price:id type=\"guid\">p%d</price:id><price:commodity><cmdty:space>X</cmdty:space><cmdty:id>%s</cmdty:id></price:commodity><price:currency><cmdty:space>X</cmdty:space><cmdty:id>%s</cmdty:id></price:currency><price:time><ts:date>%s</ts:date></price:time><price:value>%s</price:value></price>\n",
				i, l.Comms[p.C].Id, l.Comms[p.K].Id, gcStamp(p.Day, p.Sec, p.TZ), frac(0, p.Val, l.Comms[p.K].Dec))
		}
		b.WriteString("</gnc:pricedb>\n")
	}
	b.WriteString("<gnc:account version=\"2.0.0\"><act:name>Root Account</act:name><act:id type=\"guid\">root</act:id><act:type>ROOT</act:type></gnc:account>\n")
	idx := map[string]int{}
	for i, a := range l.Accts {
		idx[a.Name] = i
	}
	for i, a := range l.Accts {
		parent, name := "root", a.Name
		if k := strings.LastIndex(a.Name, ":"); k >= 0 {
			parent, name = fmt.Sprintf("a%d", idx[a.Name[:k]]), a.Name[k+1:]
		}
		fmt.Fprintf(&b, "<gnc:account version=\"2.0.0\"><act:name>%s</act:name><act:id type=\"guid\">a%d</act:id><act:type>BANK</act:type><act:commodity><cmdty:space>X</cmdty:space><cmdty:id>%s</cmdty:id></act:commodity><act:commodity-scu>100</act:commodity-scu><act:description>%s</act:description><act:parent type=\"guid\">%s</act:parent></gnc:account>\n",
			name, i, l.Comms[a.Comm].Id, xmlEsc(a.Note), parent)
	}
	for i, t := range g.Txns {
		fmt.Fprintf(&b, "<gnc:transaction version=\"2.0.0\"><trn:id type=\"guid\">t%d</trn:id><trn:currency><cmdty:space>X</cmdty:space><cmdty:id>CAD</cmdty:id></trn:currency>", i)
		if t.Code != "" {
			fmt.Fprintf(&b, "<trn:num>%s</trn:num>", t.Code)
		}
		fmt.Fprintf(&b, "<trn:date-posted><ts:date>%s</ts:date></trn:date-posted><trn:date-entered><ts:date>2024-02-14 23:50:26 -0500</ts:date></trn:date-entered><trn:description>%s</trn:description><trn:splits>\n", gcStamp(t.Day, t.Sec, t.TZ), xmlEsc(t.Desc))
		for k, p := range t.Posts {
			a := l.Accts[p.Acct]
			memo := ""
			if len(p.Notes) > 0 {
				memo = "<split:memo>" + xmlEsc(p.Notes[0]) + "</split:memo>"
			}
			fmt.Fprintf(&b, "<trn:split><split:id type=\"guid\">s%d.%d</split:id>%s<split:reconciled-state>n</split:reconciled-state><split:value>%s</split:value><split:quantity>%s</split:quantity><split:account type=\"guid\">a%d</split:account></trn:split>\n",
				i, k, memo, frac(p.Hi, p.Qty, 2), frac(p.Hi, p.Qty, l.Comms[a.Comm].Dec), p.Acct)
		}
		b.WriteString("</trn:splits></gnc:transaction>\n")
	}
	b.WriteString("</gnc:book>\n</gnc-v2>\n")
	return b.String()
}

func gz(s string) string {
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	w.Write([]byte(s))
	w.Close()
	return b.String()
}
