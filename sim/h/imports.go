package main

import (
	"fmt"
	"sort"
	"strings"

	"vsim/simrt"
)

// Importing bank statements and CSV files.

// ImpAcct is an account at a bank and everything that happens on it.
type ImpAcct struct {
	Acct int
	Id   string
	CC   bool `json:",omitempty"`
	Txns []BankTxn
}

// ImpStmt is a download: the transactions [From, To) of an account, as the bank renders them this time.
type ImpStmt struct {
	A        int
	From, To int
	TZ       int
	Style    int
	Sec      uint64
}

type ImpFile struct {
	BMO   bool `json:",omitempty"`
	NoNL  bool `json:",omitempty"`
	Stmts []ImpStmt
}

type ImpOp struct {
	Kind   string // import, format, tag, move, note, own
	Files  []ImpFile
	Dst    int
	N      int
	Faults []simrt.Fault `json:",omitempty"`
	Cap    int           `json:",omitempty"`
	Map    int
	Slice  int
	Seed   uint64
	Flag   bool `json:",omitempty"` // -bmo
}

// ImpSc is a history of imports into a ledger.
type ImpSc struct {
	L     *Ledger
	Rules *RulesM
	Accts []ImpAcct
	Names []string
	Ops   []ImpOp
	Tgt   []int // accounts that are not at a bank
}

// impLedger has one commodity, bank accounts and others.
func impLedger(r *simrt.RNG, nb int) (*Ledger, []int, []int) {
	l := &Ledger{Comms: []Comm{{Id: "CAD", Dec: simrt.Pick(r, 2, 2, 2, 0, 3), Default: true}}}
	banks := simrt.Shuffled(r, []string{"Assets:Bank:Checking", "Assets:Bank:Savings", "Liabilities:Credit:Visa", "Assets:Joint", "Liabilities:Line"})[:nb]
	others := simrt.Shuffled(r, []string{"Expenses:Food", "Expenses:Food:Dining", "Expenses:Home/Rent", "Income:Salary", "Expenses", "Equity:Open", "Income:Other_1", "Expenses:Car-Fuel"})[:r.In(1, 6)]
	var bi, oi []int
	all := append(append([]string{}, banks...), others...)
	simrt.Shuffle(r, all)
	for i, n := range all {
		l.Accts = append(l.Accts, Acct{Name: n})
		isBank := false
		for _, b := range banks {
			isBank = isBank || b == n
		}
		if isBank {
			bi = append(bi, i)
		} else {
			oi = append(oi, i)
		}
	}
	return l, bi, oi
}

func payeeText(r *simrt.RNG) string {
	s := shout(r, 1, 3)
	switch r.N(8) {
	case 0:
		s = "[" + simrt.Pick(r, "CW", "DN", "CK", "PR") + "]" + s
	case 1:
		s = simrt.Pick(r, "SOBEY'S", "7-ELEVEN", "A+B CO.", "#42 "+s, "J. DOE (CA)", "X", "2023/01/05", "100.00 CAD", "PMT *99", "a lower case one", "= 5.00", "//")
	}
	return s
}

// impRules directs imports of the accounts; targets are the given accounts. Some patterns are single letters.
func impRules(r *simrt.RNG, l *Ledger, accts []ImpAcct, targets []int) *RulesM {
	var ids []string
	var as []int
	for _, a := range accts {
		ids = append(ids, a.Id)
		as = append(as, a.Acct)
	}
	sub := &Ledger{Comms: l.Comms}
	for _, t := range targets {
		sub.Accts = append(sub.Accts, l.Accts[t])
	}
	m := genRules(r, sub, ids, as, true)
	fix := func(ms []RuleM) {
		for i := range ms {
			if ms[i].Acct >= 0 {
				ms[i].Acct = targets[ms[i].Acct]
			}
			switch r.N(12) {
			case 0:
				ms[i].Rx = simrt.Pick(r, "X", "Z", "7", "Q")
			case 1:
				ms[i].Rx = ""
			case 2:
				ms[i].Rx = simrt.Pick(r, `^\[CW\]`, `NO\.\d+$`, `[0-9]{2}`, "(RENT|COFFEE) ?N", "^X$")
			}
			if ms[i].Note != "" && r.P(20) {
				ms[i].Note = "#" + simrt.Pick(r, tagKeys...)
			}
		}
	}
	fix(m.Common)
	for i := range m.Groups {
		fix(m.Groups[i].Rules)
	}
	return m
}

func genImp(r *simrt.RNG) *ImpSc {
	sc := &ImpSc{}
	var banks, others []int
	sc.L, banks, others = impLedger(r, r.In(1, 3))
	sc.Tgt = others
	ids := simrt.Pick(r, "%d%03d", "%[2]d", "%[3]d", "%[4]d") // unique, per account, per day, ...
	for i, b := range banks {
		a := ImpAcct{Acct: b, Id: fmt.Sprintf("%d%d", r.In(100000, 999999), i), CC: r.P(25)}
		day := dayOf(2023, 12, 1) + int64(r.N(40))
		n := r.In(1, 14)
		if r.P(1) {
			n = r.In(200, 400)
		}
		seen := map[string]bool{}
		for len(a.Txns) < n {
			day += int64(simrt.Pick(r, 0, 0, 1, 1, 2, 15, 300, -0))
			t := BankTxn{Day: day, Amt: bankAmt(r), Name: payeeText(r), Fitid: strings.SplitN(fmt.Sprintf(ids, i, len(a.Txns), day, 1+len(a.Txns)/3), "%", 2)[0]}
			if r.P(25) {
				t.Memo = " " + shout(r, 1, 2)
			}
			k := fmt.Sprint(day, t.Amt)
			if t.Amt == 0 || seen[k] {
				continue
			}
			seen[k] = true
			a.Txns = append(a.Txns, t)
		}
		sc.Accts = append(sc.Accts, a)
	}
	transfers := len(sc.Accts) > 1 && r.P(50)
	if transfers { // between the accounts, found in the statements of both
		for i, n := 0, r.In(1, 4); i < n; i++ {
			k := r.N(len(sc.Accts))
			a, b := &sc.Accts[k], &sc.Accts[(k+1)%len(sc.Accts)]
			t := BankTxn{Day: simrt.Pick(r, a.Txns...).Day, Amt: 1 + genQty(r)%100000, Name: "TRANSFER OUT", Fitid: fmt.Sprintf("%d9%03d", k, len(a.Txns))}
			if !a.add(t) {
				continue
			}
			t.Amt = -t.Amt
			t.Name = "TRANSFER IN"
			t.Fitid += "7"
			if r.P(10) {
				t.Day++
			}
			b.add(t)
		}
	}
	targets := others
	if r.P(30) {
		targets = append(append([]int{}, others...), banks...)
	}
	sc.Rules = impRules(r, sc.L, sc.Accts, targets)
	if transfers && r.P(85) {
		for k := range sc.Rules.Groups {
			g := &sc.Rules.Groups[k]
			x := RuleM{Acct: sc.Accts[(k+1)%len(sc.Accts)].Acct, Rx: "TRANSFER OUT"}
			y := RuleM{Acct: sc.Accts[(k+len(sc.Accts)-1)%len(sc.Accts)].Acct, Rx: "TRANSFER IN"}
			if len(g.Rules) > 0 && r.P(50) {
				y.Note = "#transfer"
			}
			if r.P(5) { // one side only
				y.Acct = -1
			}
			g.Rules = append([]RuleM{x, y}, g.Rules...)
			if g.Common >= 0 {
				g.Common = r.In(min(2, g.Common+2), g.Common+2)
			}
		}
	}
	for i := range sc.Accts {
		a := &sc.Accts[i]
		if len(sc.Rules.Groups[i].Rules) > 0 || sc.Rules.Groups[i].Common >= 0 {
			if r.P(60) {
				sc.L.Accts[a.Acct].OFX = a.Id
			}
		} else {
			sc.L.Accts[a.Acct].OFX = a.Id
		}
	}
	if r.P(8) {
		sc.Rules = &RulesM{}
		for _, a := range sc.Accts {
			sc.L.Accts[a.Acct].OFX = a.Id
		}
		if r.P(50) {
			sc.Rules = nil // no file at all
		}
	}
	for i, n := 0, r.In(1, 3); i < n; i++ {
		sc.Names = append(sc.Names, fmt.Sprintf("%s/%s%d.coin", db, simrt.Pick(r, "2023", "z", "bank"), i))
	}
	for i, n := 0, r.In(2, 6); i < n; i++ {
		op := ImpOp{Kind: "import", Dst: r.N(len(sc.Names)), Map: r.N(4), Seed: r.Uint64(), N: r.N(20)}
		if i > 0 {
			op.Kind = simrt.Pick(r, "import", "import", "import", "import", "format", "tag", "move", "note", "own", "own")
		}
		if op.Kind == "import" {
			op.Slice = r.N(4)
			for f, n := 0, simrt.Pick(r, 1, 1, 2, 3); f < n; f++ {
				op.Files = append(op.Files, sc.genFile(r))
			}
			for _, f := range op.Files {
				op.Flag = op.Flag || f.BMO
			}
			op.Flag = op.Flag || r.P(10)
			if r.P(30) {
				op.Faults = []simrt.Fault{{At: r.N(60), Kind: simrt.Pick(r, "kill", "kill-mid", "kill-after", "EIO", "EIO", "ENOSPC", "short", "EINTR"), N: r.N(40), Sticky: r.P(20)}}
			}
		}
		sc.Ops = append(sc.Ops, op)
		if op.Kind == "import" && r.P(15) { // the same again
			op.Faults = nil
			op.Seed = r.Uint64()
			sc.Ops = append(sc.Ops, op)
		}
	}
	return sc
}

// add puts a transaction in its place, unless there is one like it.
func (a *ImpAcct) add(t BankTxn) bool {
	at := len(a.Txns)
	for i := len(a.Txns) - 1; i >= 0; i-- {
		o := &a.Txns[i]
		if o.Day == t.Day && o.Amt == t.Amt {
			return false
		}
		if o.Day > t.Day {
			at = i
		}
	}
	a.Txns = append(a.Txns[:at:at], append([]BankTxn{t}, a.Txns[at:]...)...)
	return t.Amt != 0
}

func (sc *ImpSc) genFile(r *simrt.RNG) ImpFile {
	f := ImpFile{BMO: r.P(20), NoNL: r.P(15)}
	for s, n := 0, simrt.Pick(r, 1, 1, 1, 2, 3); s < n; s++ {
		a := r.N(len(sc.Accts))
		k := len(sc.Accts[a].Txns)
		from := r.N(k)
		f.Stmts = append(f.Stmts, ImpStmt{A: a, From: from, To: r.In(from+1, k), TZ: r.In(-11, 12), Style: r.N(4), Sec: r.Uint64()})
	}
	return f
}

// stmts renders the downloads of a file.
func (sc *ImpSc) stmts(f *ImpFile) (out []Stmt) {
	for _, s := range f.Stmts {
		a := sc.Accts[s.A]
		r := simrt.NewRNG(s.Sec, "sec")
		st := Stmt{Acct: a.Acct, AcctId: a.Id, CC: a.CC}
		for i, t := range a.Txns {
			if i < s.To {
				st.Bal += t.Amt
			}
			if i >= s.From && i < s.To {
				t.TZ, t.Style = s.TZ, s.Style
				if r.P(70) {
					t.Sec = simrt.Pick(r, r.N(86400), r.N(3600), 86399, 43200)
				}
				st.Txns = append(st.Txns, t)
			}
		}
		out = append(out, st)
	}
	return out
}

func (sc *ImpSc) text(f *ImpFile) string {
	fl := 0
	if f.BMO {
		fl = 1
	}
	s := ofxText(sc.stmts(f), sc.L, fl)
	if f.NoNL {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

// imported is the ledger transaction for a bank transaction; ok is false if the rules drop it.
func imported(l *Ledger, rs *RulesM, s *Stmt, t *BankTxn, bal *int64) (p PTxn, ok bool) {
	payee := t.payee(s.CC)
	to := "Unbalanced"
	p = PTxn{Day: t.Day, Desc: payee}
	if rs != nil {
		if m := rs.match(s.AcctId, payee); m != nil {
			if m.Acct < 0 {
				return p, false
			}
			to = l.Accts[m.Acct].Name
			p.Notes = m.notes()
		}
	}
	a := l.Accts[s.Acct]
	c := l.Comms[a.Comm]
	x := PPost{Acct: a.Name, Qty: fmtQty(t.Amt, c.Dec), Comm: c.Id}
	y := PPost{Acct: to, Qty: fmtQty(-t.Amt, c.Dec), Comm: c.Id}
	if bal != nil {
		x.Bal = fmtQty(*bal, c.Dec) + " " + c.Id
	}
	if t.Amt < 0 {
		p.Posts = []PPost{y, x}
	} else {
		p.Posts = []PPost{x, y}
	}
	return p, true
}

// importedAll lists the transactions of statements in the order they are written, before duplicates are removed.
func importedAll(l *Ledger, rs *RulesM, files [][]Stmt) []PTxn {
	var out []PTxn
	for _, ss := range files {
		for _, cc := range []bool{false, true} {
			for i := range ss {
				s := &ss[i]
				if s.CC != cc {
					continue
				}
				for k := range s.Txns {
					var bal *int64
					if k == len(s.Txns)-1 && !s.CC {
						bal = &s.Bal
					}
					if p, ok := imported(l, rs, s, &s.Txns[k], bal); ok {
						out = append(out, p)
					}
				}
			}
		}
	}
	return sortedTxns(out)
}

// ident is what makes two imported transactions the same one.
func (p *PTxn) ident() string {
	var b strings.Builder
	b.WriteString(dayText(p.Day))
	for _, s := range p.Posts {
		b.WriteString("|" + s.Acct + " " + s.Qty)
	}
	return b.String()
}

func dedupe(ts []PTxn, have map[string]bool) (out []PTxn) {
	at := map[string]int{}
	for _, t := range ts {
		id := t.ident()
		if have[id] {
			continue
		}
		i, dup := at[id]
		if !dup {
			at[id] = len(out)
			t.Posts = append([]PPost{}, t.Posts...)
			out = append(out, t)
			continue
		}
		for k := range out[i].Posts {
			if out[i].Posts[k].Bal == "" {
				out[i].Posts[k].Bal = t.Posts[k].Bal
			}
		}
	}
	return out
}

// sameSet compares transactions regardless of their order, and checks that they are in date order.
func sameSet(want, got []PTxn) string {
	m := map[string]int{}
	for i := range want {
		m[want[i].key()]++
	}
	var extra []string
	for i := range got {
		if i > 0 && got[i].Day < got[i-1].Day {
			return fmt.Sprintf("transaction %d of %s comes after one of %s", i+1, dayText(got[i].Day), dayText(got[i-1].Day))
		}
		k := got[i].key()
		if m[k]--; m[k] < 0 {
			extra = append(extra, k)
		}
	}
	var missing []string
	for _, k := range sortedKeys(m) {
		for n := m[k]; n > 0; n-- {
			missing = append(missing, k)
		}
	}
	sort.Strings(extra)
	if len(extra)+len(missing) == 0 {
		return ""
	}
	return fmt.Sprintf("missing %d:\n%s\nunexpected %d:\n%s", len(missing), strings.Join(missing, "\n"), len(extra), strings.Join(extra, "\n"))
}

func runC11(x any, st *Stats) *Violation {
	sc := x.(*ImpSc)
	hs := &HistSc{L: sc.L, Names: sc.Names}
	h := hs.start(st)
	h.w.FS.Put(db+"/prices.coin", "")
	if sc.Rules != nil {
		h.w.FS.Put(db+"/ofx.rules", sc.Rules.text(sc.L))
	}
	h.w.FS.Commit()
	defer func() { st.World(h.w, h.ps, true) }()
	fail := func(sig, f string, a ...any) *Violation {
		return &Violation{Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: detail(h.w, h.ps), Sc: sc}
	}
	have := func() map[string]bool {
		m := map[string]bool{}
		for i := range h.files {
			for _, s := range h.files[i] {
				m[s.t.ident()] = true
			}
		}
		return m
	}
	imp := func(op *ImpOp) *Violation {
		args := []string{"ofx2coin"}
		if op.Flag {
			args = append(args, "-bmo")
		}
		var files [][]Stmt
		for i := range op.Files {
			fn := fmt.Sprintf("/w/dl%d.qfx", i)
			h.w.FS.Put(fn, sc.text(&op.Files[i]))
			args = append(args, fn)
			files = append(files, sc.stmts(&op.Files[i]))
		}
		want := dedupe(importedAll(sc.L, sc.Rules, files), have())
		c := cmd(args...)
		c.Cfg = simrt.Cfg{MapMode: op.Map, MapSeed: op.Seed, SliceMode: op.Slice, SliceSeed: op.Seed, Faults: op.Faults}
		p := h.run(c)
		out := string(p.Stdout)
		if !p.OK() {
			if len(p.Fired) == 0 {
				return fail("fails", "import fails without any fault: %s %s", p.How(), p.Stderr)
			}
			st.Count("imports interrupted")
			// whatever came out in one piece may be kept
			paras := strings.SplitAfter(out, "\n\n")
			if k := op.N % 4; k == 0 || len(paras) < 2 {
				out = ""
			} else {
				paras = paras[:len(paras)-1]
				if k == 1 {
					paras = paras[:op.N%(len(paras)+1)]
				}
				out = strings.Join(paras, "")
				st.Count("parts of interrupted imports kept")
			}
		}
		got, err := parseCanon(out)
		if err != nil {
			return fail("garbled", "the output of an import cannot be read: %v", err)
		}
		if p.OK() {
			st.Count("imports done")
			st.Counters["transactions imported"] += len(got)
			dropped := len(importedAll(sc.L, sc.Rules, files)) - len(want)
			if n := strings.Count(string(p.Stderr), "DROPPING DUPLICATE TRANSACTION:\n"); n != dropped && len(p.Fired) == 0 {
				return fail("report", "the import drops %d transactions and reports %d", dropped, n)
			}
			if why := sameSet(want, got); why != "" {
				return fail("import", "the import does not emit exactly the new transactions: %s", why)
			}
		} else {
			m := map[string]bool{}
			for i := range want {
				m[want[i].key()] = true
			}
			for i := range got {
				if !m[got[i].key()] {
					return fail("import", "an interrupted import emits\n%s", got[i].key())
				}
			}
		}
		texts := strings.SplitAfter(out, "\n\n")
		for i, t := range got {
			h.files[op.Dst] = append(h.files[op.Dst], hseg{t, strings.TrimSuffix(texts[i], "\n")})
		}
		h.put(op.Dst)
		h.w.FS.Commit()
		return nil
	}
	// note changes the description and the notes of a transaction, as the user would.
	note := func(op *ImpOp) {
		segs := h.files[op.Dst]
		if len(segs) == 0 {
			return
		}
		r := simrt.NewRNG(op.Seed, "note")
		t := segs[op.N%len(segs)].t
		t.Desc = simrt.Pick(r, shout(r, 1, 2), phrase(r, 1, 3), t.Desc)
		t.Notes = append(append([]string{}, t.Notes...), phrase(r, 1, 2))
		if r.P(50) {
			t.Posts = append([]PPost{}, t.Posts...)
			t.Posts[0].Notes = append(append([]string{}, t.Posts[0].Notes...), "#"+simrt.Pick(r, tagKeys...))
		}
		segs[op.N%len(segs)] = hseg{t, t.text()}
		h.put(op.Dst)
	}
	// own enters a transaction of the user's, much like one of the bank's, or the same before it is imported.
	owned := 0
	own := func(op *ImpOp) {
		r := simrt.NewRNG(op.Seed, "own")
		a := &sc.Accts[r.N(len(sc.Accts))]
		b := &a.Txns[r.N(len(a.Txns))]
		s := Stmt{Acct: a.Acct, AcctId: a.Id, CC: a.CC}
		t, ok := imported(sc.L, sc.Rules, &s, b, nil)
		if !ok {
			return
		}
		acct := sc.L.Accts[a.Acct]
		dec := sc.L.Comms[acct.Comm].Dec
		kind := r.N(6)
		at := 0
		if b.Amt < 0 {
			at = 1
		}
		switch kind {
		case 0: // another counterpart
			t.Posts[1-at].Acct = simrt.Pick(r, sc.L.Accts...).Name
		case 1: // another amount
			d := simrt.Pick(r, int64(1), -1, 100, -2*b.Amt)
			t.Posts[at].Qty, t.Posts[1-at].Qty = fmtQty(b.Amt+d, dec), fmtQty(-b.Amt-d, dec)
		case 2: // another day
			t.Day += simrt.Pick(r, int64(1), -1, 365)
		case 3: // in three parts
			x := t.Posts[1-at]
			t.Posts[1-at].Qty, x.Qty = fmtQty(-b.Amt-7, dec), "7"
			if dec > 0 {
				x.Qty = "0." + strings.Repeat("0", dec-1) + "7"
			}
			t.Posts = append(t.Posts, x)
		}
		t.Desc, t.Notes = simrt.Pick(r, t.Desc, shout(r, 1, 2)), nil
		id := t.ident()
		if have()[id] {
			return
		}
		bank := false
		for i := range sc.Accts {
			a := &sc.Accts[i]
			s := Stmt{Acct: a.Acct, AcctId: a.Id, CC: a.CC}
			for k := range a.Txns {
				if p, ok := imported(sc.L, sc.Rules, &s, &a.Txns[k], nil); ok && p.ident() == id {
					bank = true
				}
			}
		}
		if bank && kind < 4 {
			return
		}
		if !bank {
			owned++
		}
		st.Count("transactions entered by hand")
		segs := h.files[op.Dst]
		k := op.N % (len(segs) + 1)
		h.files[op.Dst] = append(segs[:k:k], append([]hseg{{t, t.text()}}, segs[k:]...)...)
		h.put(op.Dst)
	}
	tag := 0
	for k := range sc.Ops {
		op := &sc.Ops[k]
		st.Count(op.Kind)
		var v *Violation
		switch op.Kind {
		case "import":
			v = imp(op)
		case "note":
			note(op)
			h.w.FS.Commit()
		case "own":
			own(op)
			h.w.FS.Commit()
		case "format":
			v = h.rewrite(&HOp{Kind: "format", Files: []int{op.Dst}, Map: op.Map, Seed: op.Seed})
		case "tag":
			tag++
			v = h.rewrite(&HOp{Kind: "modify", Files: []int{op.Dst}, Map: op.Map, Seed: op.Seed, Mod: &ModOp{From: -1, To: -1, SetTTag: fmt.Sprintf("t%d", tag)}})
		case "move":
			h.edit(&HOp{Kind: "split", Files: []int{op.Dst, op.N % len(sc.Names)}, N: op.N % 10})
		}
		if v != nil {
			v.Sc = sc
			return v
		}
	}
	// in the end everything is downloaded once more
	last := ImpOp{Kind: "import"}
	for i, a := range sc.Accts {
		last.Files = append(last.Files, ImpFile{Stmts: []ImpStmt{{A: i, To: len(a.Txns), Style: 3}}})
	}
	if v := imp(&last); v != nil {
		return v
	}
	var all []PTxn
	for i := range sc.Names {
		text, _ := h.w.FS.Read(sc.Names[i])
		ts, err := parseCanon(text)
		if err != nil {
			return fail("garbled", "%s: %v", sc.Names[i], err)
		}
		all = append(all, ts...)
	}
	n, kept := map[string]int{}, map[string]bool{}
	for i := range all {
		n[all[i].ident()]++
	}
	for i := range sc.Accts {
		a := &sc.Accts[i]
		s := Stmt{Acct: a.Acct, AcctId: a.Id, CC: a.CC}
		for k := range a.Txns {
			if p, ok := imported(sc.L, sc.Rules, &s, &a.Txns[k], nil); ok {
				kept[p.ident()] = true
				if got := n[p.ident()]; got != 1 {
					return fail("once", "bank transaction %s %s is in the ledger %d times", p.ident(), p.Desc, got)
				}
			}
		}
	}
	if len(all) != len(kept)+owned {
		return fail("once", "%d transactions are in the ledger; the banks had %d and the user %d", len(all), len(kept), owned)
	}
	p := h.run(cmd("coin", "stats"))
	if want := fmt.Sprintf("Transactions: %d\n", len(all)); !p.OK() || !strings.Contains(string(p.Stdout), want) {
		return fail("count", "%d transactions were imported; coin stats: %s %s %s", len(all), p.How(), p.Stdout, p.Stderr)
	}
	return nil
}

func shrinkImp(x any) (out []any) {
	sc := x.(*ImpSc)
	add := func(f func(n *ImpSc)) {
		n := clone(checks["C11"], sc).(*ImpSc)
		f(n)
		out = append(out, n)
	}
	for i := range sc.Ops {
		add(func(n *ImpSc) { n.Ops = append(n.Ops[:i:i], n.Ops[i+1:]...) })
	}
	for i := range sc.Ops {
		op := sc.Ops[i]
		for j := range op.Files {
			if len(op.Files) > 1 {
				add(func(n *ImpSc) {
					n.Ops[i].Files = append(n.Ops[i].Files[:j:j], n.Ops[i].Files[j+1:]...)
				})
			}
			if len(op.Files[j].Stmts) > 1 {
				for k := range op.Files[j].Stmts {
					add(func(n *ImpSc) {
						f := &n.Ops[i].Files[j]
						f.Stmts = append(f.Stmts[:k:k], f.Stmts[k+1:]...)
					})
				}
			}
			for k, s := range op.Files[j].Stmts {
				if s.To-s.From > 1 {
					add(func(n *ImpSc) { n.Ops[i].Files[j].Stmts[k].From = (s.From + s.To) / 2 })
					add(func(n *ImpSc) { n.Ops[i].Files[j].Stmts[k].From++ })
					add(func(n *ImpSc) { n.Ops[i].Files[j].Stmts[k].To-- })
				}
				if s.Sec != 0 && s.Style != 3 {
					add(func(n *ImpSc) { n.Ops[i].Files[j].Stmts[k].Style = 3 })
				}
			}
		}
		if len(op.Faults) > 0 {
			add(func(n *ImpSc) { n.Ops[i].Faults = nil })
		}
		if op.Slice > 0 || op.Map > 0 || op.Flag {
			add(func(n *ImpSc) { n.Ops[i].Slice, n.Ops[i].Map = 0, 0 })
		}
	}
	if sc.Rules != nil {
		if len(sc.Rules.Common) > 0 {
			add(func(n *ImpSc) {
				n.Rules.Common = nil
				for i := range n.Rules.Groups {
					n.Rules.Groups[i].Common = -1
				}
			})
		}
		for i := range sc.Rules.Groups {
			if len(sc.Rules.Groups[i].Rules) > 0 {
				add(func(n *ImpSc) { n.Rules.Groups[i].Rules = nil; n.Rules.Groups[i].Common = -1 })
			}
		}
	}
	return out
}

func init() {
	register(&Check{
		ID: "C11", Level: "exploration", Full: true, Quick: 12000, Thor: 600000,
		Rule:   "Each scenario is one to three bank or card accounts with all their transactions and a history of downloads: windows of them, overlapping, repeated, several per file and per import, with times of day and zones that change from download to download, some imports hit by a fault and kept in part, with formatting, tagging and moving of the ledger's transactions between them. Every import's output is compared with a reference model; in the end everything is downloaded once more and the ledger must hold every transaction exactly once.",
		Real:   []string{"ofx2coin, coin format/modify/stats with the coin, check and rex packages, instrumented from the working tree", "ofxgo, flag, bufio, regexp, sort"},
		Stub:   []string{"operating system: disk, clock", "map iteration order and slicing of reads (seeded)"},
		Assume: []string{"The rules and accounts stay the same over the history.", "No two transactions of an account have the same date and amount.", "Statements list their transactions oldest first."},
		Gen:    func(r *simrt.RNG, i int) any { return genImp(r) },
		New:    func() any { return &ImpSc{} },
		Run:    runC11,
		Shrink: shrinkImp,
	})
}
