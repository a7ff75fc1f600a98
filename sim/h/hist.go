package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"vsim/simrt"
)

// Histories of a ledger: files of transactions that are appended to, moved about, formatted, modified and reported on.

// HOp is one step of a history.
type HOp struct {
	Kind   string        // append, format, print, modify, split, rename, power, report, broken
	Files  []int         `json:",omitempty"`
	Txns   []Txn         `json:",omitempty"`
	Trim   bool          `json:",omitempty"`
	Ledger bool          `json:",omitempty"`
	Mod    *ModOp        `json:",omitempty"`
	N      int           `json:",omitempty"`
	Faults []simrt.Fault `json:",omitempty"`
	Cap    int           `json:",omitempty"` // free bytes on the disk, plus one
	FDs    int           `json:",omitempty"`
	Rep    *Rep          `json:",omitempty"`
	Text   string        `json:",omitempty"`
	Map    int           `json:",omitempty"`
	Seed   uint64        `json:",omitempty"`
}

// ModOp is one use of coin modify.
type ModOp struct {
	Payee   string `json:",omitempty"` // -p
	TTag    string `json:",omitempty"` // -tt
	PTag    string `json:",omitempty"` // -pt
	From    int    // -a, account index or -1
	To      int    // -a:, account index or -1
	SetPTag string `json:",omitempty"` // key or key: value
	SetTTag string `json:",omitempty"`
}

// HistSc is a ledger and its history.
type HistSc struct {
	L      *Ledger
	Names  []string // transaction files, paths
	Layout int      // 0: *.coin in the directory, 1: transactions.coin including the files by name, 2: main.coin including them by a wildcard
	Ops    []HOp
}

// PTxn is a transaction as a file or the model has it.
type PTxn struct {
	Day   int64
	Code  string
	Desc  string
	Notes []string
	Posts []PPost
	Loc   string // file and line
}

type PPost struct {
	Acct  string
	Qty   string
	Comm  string
	Bal   string
	Notes []string
}

func (p *PTxn) asserted() bool {
	for _, s := range p.Posts {
		if s.Bal != "" {
			return true
		}
	}
	return false
}

// key identifies a transaction with everything it says.
func (p *PTxn) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%s|%s|%q", dayText(p.Day), p.Code, p.Desc, p.Notes)
	for _, s := range p.Posts {
		fmt.Fprintf(&b, "\n%s|%s|%s|%s|%q", s.Acct, s.Qty, s.Comm, s.Bal, s.Notes)
	}
	return b.String()
}

func (l *Ledger) ptxn(t *Txn) PTxn {
	p := PTxn{Day: t.Day, Code: t.Code, Desc: strings.TrimRight(t.Desc, " "), Notes: append([]string{}, t.Notes...)}
	for _, s := range t.Posts {
		a := l.Accts[s.Acct]
		c := l.Comms[a.Comm]
		pp := PPost{Acct: a.Name, Qty: fmtBig(s.Hi, s.Qty, c.Dec), Comm: c.Id, Notes: append([]string{}, s.Notes...)}
		if s.Bal != nil && !s.Elide {
			pp.Bal = fmtBig(s.BalHi, *s.Bal, c.Dec) + " " + c.Id
		}
		p.Posts = append(p.Posts, pp)
	}
	return p
}

var (
	headRE = regexp.MustCompile(`^(\d{4})/(\d\d)/(\d\d) (?:\((\w+)\) )?([^;]*)(;.*)?$`)
	postRE = regexp.MustCompile(`^  ([A-Za-z][\w/_:-]*) +(-?\d+(?:\.\d+)?) (\w+)(?: = (-?\d+(?:\.\d+)? \w+))?(?: (;.*))?$`)
)

func noteText(s string) string { return strings.TrimPrefix(strings.TrimPrefix(s, ";"), " ") }

// parseCanon reads a rewritten file with a reader of its own.
func parseCanon(text string) (out []PTxn, err error) {
	lines := strings.Split(text, "\n")
	for i := 0; i < len(lines); i++ {
		if lines[i] == "" {
			continue
		}
		m := headRE.FindStringSubmatch(lines[i])
		if m == nil {
			return nil, fmt.Errorf("line %d: %q", i+1, lines[i])
		}
		y, _ := strconv.Atoi(m[1])
		mo, _ := strconv.Atoi(m[2])
		d, _ := strconv.Atoi(m[3])
		t := PTxn{Day: dayOf(y, mo, d), Code: m[4], Desc: strings.TrimRight(m[5], " ")}
		if m[6] != "" {
			t.Notes = append(t.Notes, noteText(m[6]))
		}
		for i+1 < len(lines) && lines[i+1] != "" {
			i++
			if x := strings.TrimLeft(lines[i], " "); strings.HasPrefix(x, ";") && len(x) < len(lines[i]) {
				if n := len(t.Posts); n > 0 {
					t.Posts[n-1].Notes = append(t.Posts[n-1].Notes, noteText(x))
				} else {
					t.Notes = append(t.Notes, noteText(x))
				}
				continue
			}
			m := postRE.FindStringSubmatch(lines[i])
			if m == nil {
				return nil, fmt.Errorf("line %d: %q", i+1, lines[i])
			}
			p := PPost{Acct: m[1], Qty: m[2], Comm: m[3], Bal: m[4]}
			if m[5] != "" {
				p.Notes = append(p.Notes, noteText(m[5]))
			}
			t.Posts = append(t.Posts, p)
		}
		out = append(out, t)
	}
	return out, nil
}

// text is the transaction as a user might write it.
func (p *PTxn) text() string {
	var b strings.Builder
	b.WriteString(dayText(p.Day))
	if p.Code != "" {
		b.WriteString(" (" + p.Code + ")")
	}
	b.WriteString(" " + p.Desc + "\n")
	for _, n := range p.Notes {
		b.WriteString("  ; " + n + "\n")
	}
	for _, s := range p.Posts {
		b.WriteString("  " + s.Acct + "  " + s.Qty + " " + s.Comm)
		if s.Bal != "" {
			b.WriteString(" = " + s.Bal)
		}
		b.WriteString("\n")
		for _, n := range s.Notes {
			b.WriteString("    ; " + n + "\n")
		}
	}
	return b.String()
}

// sorted is the order a rewrite puts transactions into: by day, those with balance assertions last, else as they were.
func sortedTxns(ts []PTxn) []PTxn {
	out := append([]PTxn{}, ts...)
	less := func(a, b *PTxn) bool {
		return a.Day < b.Day || a.Day == b.Day && !a.asserted() && b.asserted()
	}
	for i := 1; i < len(out); i++ { // insertion sort is stable
		for j := i; j > 0 && less(&out[j], &out[j-1]); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func trimTxns(ts []PTxn) []PTxn {
	out := append([]PTxn{}, ts...)
	sq := func(s string) string { return strings.Join(strings.Fields(s), " ") }
	for i := range out {
		out[i].Desc = sq(out[i].Desc)
		ns := []string{}
		for _, n := range out[i].Notes {
			ns = append(ns, sq(n))
		}
		out[i].Notes = ns
	}
	return out
}

func sameTxns(a, b []PTxn) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<none>", "<none>"
		if i < len(a) {
			x = a[i].key()
		}
		if i < len(b) {
			y = b[i].key()
		}
		if x != y {
			return fmt.Sprintf("transaction %d should be\n%s\nbut is\n%s", i+1, x, y)
		}
	}
	return ""
}

// ---------------------------------------------------------------------------------------------------- tags

func tagKeyChar(c byte) bool {
	return c == '_' || c == '-' || c == '/' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}

// tagsOf reads the tags of notes: #key, or #key: value up to a comma or the end of the line.
func tagsOf(notes []string) map[string]string {
	out := map[string]string{}
	for _, n := range notes {
		for i := 0; i < len(n); i++ {
			if n[i] != '#' {
				continue
			}
			j := i + 1
			for j < len(n) && tagKeyChar(n[j]) {
				j++
			}
			if j == i+1 {
				continue
			}
			key := n[i+1 : j]
			i = j - 1
			val := ""
			if j < len(n) && n[j] == ':' {
				k := strings.IndexByte(n[j:], ',')
				end := len(n)
				if k >= 0 {
					end = j + k
				}
				if v := strings.TrimSpace(n[j+1 : end]); v != "" {
					val = v
					i = end
				}
			}
			out[key] = val
		}
	}
	return out
}

// tagKeyMatch says whether there is a tag that matches, or with a ! in front, one that does not.
func tagKeyMatch(rx string, tags map[string]string) bool {
	rx, inv := strings.CutPrefix(rx, "!")
	key, val, hasVal := strings.Cut(rx, ":")
	kr := regexp.MustCompile("(?i)" + key)
	var vr *regexp.Regexp
	if hasVal {
		vr = regexp.MustCompile("(?i)" + val)
	}
	for k, v := range tags {
		if (kr.MatchString(k) && (vr == nil || vr.MatchString(v))) != inv {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------------------------------- modify

// args are the options of the operation.
func (m *ModOp) args(l *Ledger) (a []string) {
	opt := func(n, v string) {
		if v != "" {
			a = append(a, n, v)
		}
	}
	opt("-p", m.Payee)
	opt("-tt", m.TTag)
	opt("-pt", m.PTag)
	if m.From >= 0 {
		opt("-a", l.Accts[m.From].Name)
	}
	if m.To >= 0 {
		opt("-a:", l.Accts[m.To].Name)
	}
	if m.SetPTag != "" {
		opt("-pt:", "#"+m.SetPTag)
	}
	if m.SetTTag != "" {
		opt("-tt:", "#"+m.SetTTag)
	}
	return a
}

// apply returns the transaction after the operation, and for each of its note lists (transaction first) the tag added.
func (m *ModOp) apply(l *Ledger, t PTxn) (PTxn, []string) {
	n := t
	n.Posts = append([]PPost{}, t.Posts...)
	added := make([]string, len(t.Posts)+1)
	if m.Payee != "" && !regexp.MustCompile("(?i)"+m.Payee).MatchString(t.Desc) {
		return n, added
	}
	if m.TTag != "" && !tagKeyMatch(m.TTag, tagsOf(t.Notes)) {
		return n, added
	}
	hit := m.From < 0
	for i := range n.Posts {
		p := &n.Posts[i]
		sel := m.From >= 0 && p.Acct == l.Accts[m.From].Name || m.PTag != "" && tagKeyMatch(m.PTag, tagsOf(p.Notes))
		if !sel {
			continue
		}
		hit = true
		if m.To >= 0 {
			p.Acct = l.Accts[m.To].Name
		}
		added[i+1] = m.SetPTag
	}
	if hit {
		added[0] = m.SetTTag
	}
	return n, added
}

// count returns how many of the transactions change, and how many are selected.
func (m *ModOp) count(l *Ledger, ts []PTxn) (lo, hi int) {
	for _, t := range ts {
		n, added := m.apply(l, t)
		moved, change := false, false
		for i := range n.Posts {
			moved = moved || m.To >= 0 && (m.From >= 0 && t.Posts[i].Acct == l.Accts[m.From].Name || m.PTag != "" && tagKeyMatch(m.PTag, tagsOf(t.Posts[i].Notes)))
			change = change || n.Posts[i].Acct != t.Posts[i].Acct
		}
		if m.Payee != "" && !regexp.MustCompile("(?i)"+m.Payee).MatchString(t.Desc) || m.TTag != "" && !tagKeyMatch(m.TTag, tagsOf(t.Notes)) {
			moved = false
		}
		for _, a := range added {
			change = change || a != ""
		}
		if change {
			lo++
		}
		if change || moved {
			hi++
		}
	}
	return lo, hi
}

func noteWords(notes []string) map[string]int {
	out := map[string]int{}
	for _, n := range notes {
		for _, w := range strings.FieldsFunc(n, func(r rune) bool { return r == ' ' || r == ',' || r == '\t' }) {
			out[w]++
		}
	}
	return out
}

// taggedNotes says what is wrong with notes after a tag was added to them, or "".
func taggedNotes(before, after []string, tag string) string {
	if tag == "" {
		if fmt.Sprintf("%q", before) != fmt.Sprintf("%q", after) {
			return fmt.Sprintf("notes %q became %q", before, after)
		}
		return ""
	}
	key, val, _ := strings.Cut(tag, ": ")
	want := tagsOf(before)
	want[key] = val
	got := tagsOf(after)
	if fmt.Sprint(want) != fmt.Sprint(got) {
		return fmt.Sprintf("tags %v plus #%s became %v (notes %q)", tagsOf(before), tag, got, after)
	}
	ww := noteWords(before)
	w := "#" + key
	if val != "" {
		w += ":" + val
	}
	for k, n := range noteWords([]string{w}) {
		ww[k] += n
	}
	gw := noteWords(after)
	// a value may be set off from its key by a space
	if fmt.Sprint(ww) != fmt.Sprint(gw) {
		delete(ww, "#"+key+":"+strings.Fields(val + " x")[0])
		delete(gw, "#"+key+":")
		if n := strings.Fields(val); len(n) > 0 {
			if gw[n[0]]--; gw[n[0]] == 0 {
				delete(gw, n[0])
			}
		}
		if fmt.Sprint(ww) != fmt.Sprint(gw) {
			return fmt.Sprintf("notes %q plus #%s became %q", before, tag, after)
		}
	}
	return ""
}

// checkModified compares a modified file with the model and returns what is now in it.
func (m *ModOp) checkModified(l *Ledger, before, after []PTxn) string {
	want := sortedTxns(before)
	if len(want) != len(after) {
		return fmt.Sprintf("%d transactions became %d", len(want), len(after))
	}
	for i := range want {
		w, added := m.apply(l, want[i])
		g := after[i]
		if why := taggedNotes(want[i].Notes, g.Notes, added[0]); why != "" {
			return fmt.Sprintf("transaction %d %q: %s", i+1, w.Desc, why)
		}
		w.Notes = g.Notes
		if len(w.Posts) == len(g.Posts) {
			for j := range w.Posts {
				if why := taggedNotes(want[i].Posts[j].Notes, g.Posts[j].Notes, added[j+1]); why != "" {
					return fmt.Sprintf("transaction %d %q posting %d: %s", i+1, w.Desc, j+1, why)
				}
				w.Posts[j].Notes = g.Posts[j].Notes
			}
		}
		if w.key() != g.key() {
			return fmt.Sprintf("transaction %d should be\n%s\nbut is\n%s", i+1, w.key(), g.key())
		}
	}
	return ""
}

// ---------------------------------------------------------------------------------------------------- generator

// tagVals are the values of generated tags.
var tagVals = []string{"a", "7", "two words", "x:y", "2024/01", "b", "paris"}

func rnote(r *simrt.RNG) string {
	n := note(r)
	switch r.N(12) {
	case 0:
		n = "  " + n
	case 1:
		n += " ; " + simrt.Pick(r, words...)
	case 2:
		n = phrase(r, 6, 12)
	case 3:
		n = simrt.Pick(r, "x", "#y", "=", "1.00 CAD", "Assets:Bank", "2024/01/01 foo", "a  b", "100%", "#", "\"q\"", "é")
	case 4:
		n = "#" + simrt.Pick(r, tagKeys...) + ": " + simrt.Pick(r, tagVals...)
	}
	return n
}

func genHist(r *simrt.RNG, faults bool) *HistSc {
	o := LedgerOpts{Notes: true, Multi: r.P(40), Prices: true, SameDay: r.P(50)}
	l := genLedger(r, o)
	if r.P(12) { // where imports put what they cannot place
		l.Accts = append(l.Accts, Acct{Name: "Unbalanced", Comm: r.N(r.In(1, len(l.Comms))), Note: simrt.Pick(r, "", "to be sorted")})
	}
	sc := &HistSc{L: l, Layout: simrt.Pick(r, 0, 0, 1, 2)}
	l.fullPrices(r)
	nf := r.In(1, 4)
	for i := 0; i < nf; i++ {
		ext := ".coin"
		dir := db
		if sc.Layout == 2 || sc.Layout == 1 && r.P(50) {
			dir, ext = db+"/sub", ".ledger"
		}
		sc.Names = append(sc.Names, fmt.Sprintf("%s/%s%d%s", dir, simrt.Pick(r, "year", "a", "z", "n-"), i, ext))
	}
	tag := 0
	seenBal := map[int]int64{}
	no := r.In(3, 9)
	for i := 0; i < no; i++ {
		op := HOp{Seed: r.Uint64()}
		op.Files = []int{r.N(nf)}
		kind := r.N(100)
		if i == 0 {
			kind = 0
		}
		switch {
		case kind < 40:
			op.Kind = "append"
			n := r.In(1, 5)
			if r.P(3) {
				n = r.In(20, 50)
			}
			if i == 0 && r.P(1) { // larger than any buffer
				n = r.In(600, 900)
			}
			for j := 0; j < n; j++ {
				t := l.genTxn(r, o)
				l.vary(r, &t, seenBal)
				op.Txns = append(op.Txns, t)
			}
		case kind < 65:
			op.Kind = "format"
			op.Trim = r.P(20)
			if r.P(50) {
				op.Files = simrt.Shuffled(r, seq(nf))[:r.In(1, nf)]
			}
		case kind < 90:
			op.Kind = "modify"
			tag++
			op.Mod = l.genMod(r, tag)
			if r.P(50) {
				op.Files = simrt.Shuffled(r, seq(nf))[:r.In(1, nf)]
			}
		default:
			op.Kind = "split"
			op.Files = []int{r.N(nf), r.N(nf)}
			op.N = r.N(10)
		}
		if op.Kind == "format" && r.P(25) {
			op.Kind = "print"
			op.Ledger = r.P(50)
		}
		op.Map = r.N(4)
		if faults && (op.Kind == "format" || op.Kind == "modify") && r.P(45) {
			k := 1
			if r.P(20) {
				k = 2
			}
			for ; k > 0; k-- {
				f := simrt.Fault{At: r.N(60), Kind: simrt.Pick(r, "kill", "kill-mid", "kill-after", "EIO", "ENOSPC", "EIO", "short", "EINTR")}
				if r.P(30) {
					f.At = r.N(200)
				}
				f.N = r.N(30)
				f.Sticky = r.P(20)
				op.Faults = append(op.Faults, f)
			}
			if r.P(10) {
				op.Cap = r.N(600) + 1
			}
			if r.P(5) {
				op.FDs = r.In(3, 6)
			}
		}
		sc.Ops = append(sc.Ops, op)
		if faults && r.P(12) && (op.Kind == "format" || op.Kind == "modify") {
			sc.Ops = append(sc.Ops, HOp{Kind: "power", Seed: r.Uint64()})
		}
	}
	return sc
}

func seq(n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return out
}

// fullPrices makes every commodity convertible into every other.
func (l *Ledger) fullPrices(r *simrt.RNG) {
	type dk struct {
		c, k int
		d    int64
	}
	seen := map[dk]bool{}
	var ps []Price
	for _, p := range l.Prices {
		if k := (dk{p.C, p.K, p.Day}); !seen[k] && p.C != p.K {
			seen[k] = true
			ps = append(ps, p)
		}
	}
	for c := range l.Comms {
		for k := range l.Comms {
			if c == k {
				continue
			}
			x := dk{c, k, dayOf(2022, 1, 1) + int64(r.N(300))}
			if !seen[x] {
				seen[x] = true
				ps = append(ps, Price{Day: x.d, C: c, K: k, Val: int64(r.In(1, 300000))})
			}
		}
	}
	simrt.Shuffle(r, ps)
	l.Prices = ps
}

// vary adds the unusual: balance assertions, odd notes, missing and long descriptions.
func (l *Ledger) vary(r *simrt.RNG, t *Txn, bal map[int]int64) {
	switch r.N(14) {
	case 0:
		t.Desc = ""
	case 1:
		t.Desc = phrase(r, 8, 14)
	case 2:
		t.Desc = simrt.Pick(r, "X", "100% wool", "a  b", "2024/01/01", "= 5", "#5 shop", "Böhm & Söhne", "p.a. (net)")
	}
	if r.P(60) {
		t.Notes = nil
		for r.P(40) && len(t.Notes) < 4 {
			t.Notes = append(t.Notes, rnote(r))
		}
	}
	if len(t.Notes) > 0 && r.P(25) { // near the length where the note moves to a line of its own
		n := len(dayText(t.Day)) + 1 + len(t.Desc)
		if t.Code != "" {
			n += len(t.Code) + 3
		}
		if k := r.In(72, 84) - n; k > 0 {
			t.Notes[0] = strings.Repeat("w", k)
		}
	}
	same := "" // a tag both the transaction and a posting carry
	if r.P(10) {
		same = simrt.Pick(r, tagKeys...)
		t.Notes = append(t.Notes, "#"+same+": "+simrt.Pick(r, tagVals...))
	}
	for i := range t.Posts {
		p := &t.Posts[i]
		if same != "" && r.P(50) {
			p.Notes = []string{"#" + same + ": " + simrt.Pick(r, tagVals...)}
		} else if r.P(40) {
			p.Notes = nil
			for r.P(35) && len(p.Notes) < 3 {
				p.Notes = append(p.Notes, rnote(r))
			}
		}
		bal[p.Acct] += p.Qty
		bal[-1-p.Acct] += p.Hi
		if r.P(12) && !p.Elide {
			b := bal[p.Acct]
			if r.P(35) {
				b += int64(r.In(-3, 3))
			} else if r.P(12) {
				b = simrt.Pick(r, -b, 0, b*10, b/10)
			}
			p.Bal, p.BalHi = &b, bal[-1-p.Acct]
		}
		if len(p.Notes) > 0 && r.P(20) {
			if k := r.In(30, 60) - len(l.Accts[p.Acct].Name); k > 0 {
				p.Notes[0] = strings.Repeat("v", k)
			}
		}
	}
}

func (l *Ledger) genMod(r *simrt.RNG, n int) *ModOp {
	m := &ModOp{From: -1, To: -1}
	key := func(p string) string {
		k := fmt.Sprintf("%s%d", p, n)
		if r.P(40) {
			k += ": " + simrt.Pick(r, "v", "some value", "7", "2024")
		}
		return k
	}
	switch r.N(5) {
	case 0, 1: // postings of an account
		m.From = r.N(len(l.Accts))
		if r.P(70) {
			var same []int
			for i, a := range l.Accts {
				if a.Comm == l.Accts[m.From].Comm {
					same = append(same, i)
				}
			}
			m.To = simrt.Pick(r, same...)
		}
		if r.P(40) || m.To < 0 {
			m.SetPTag = key("p")
		}
		if r.P(25) {
			m.SetTTag = key("t")
		}
	case 2: // postings with a tag
		m.PTag = simrt.Pick(r, tagKeys...)
		if r.P(15) {
			m.PTag = "!" + m.PTag
		}
		m.SetPTag = key("p")
	case 3: // transactions
		m.SetTTag = key("t")
	case 4: // transactions having an account
		m.From = r.N(len(l.Accts))
		m.SetTTag = key("t")
	}
	if r.P(35) {
		m.Payee = simrt.Pick(r, "rent", "coffee", "o", "^t", "S$", "[0-9]", "no such payee", ".")
	}
	if r.P(25) {
		m.TTag = simrt.Pick(r, append([]string{"t", "k", "p1", "t1"}, tagKeys...)...)
	}
	return m
}

// ---------------------------------------------------------------------------------------------------- execution

type hseg struct {
	t    PTxn
	text string
}

// hist executes a history.
type hist struct {
	sc    *HistSc
	w     *simrt.World
	st    *Stats
	files [][]hseg
	ps    []*simrt.Proc
	fault bool
}

func (sc *HistSc) start(st *Stats) *hist {
	l := sc.L
	f := Files{db + "/commodities.coin": l.commText(), db + "/accounts.coin": l.acctText(), db + "/2022.prices": l.priceText(l.Prices)}
	var inc strings.Builder
	for _, n := range sc.Names {
		f[n] = ""
		fmt.Fprintf(&inc, "include %s\n", strings.TrimPrefix(n, db+"/"))
	}
	switch sc.Layout {
	case 1:
		f[db+"/transactions.coin"] = inc.String()
	case 2:
		f[db+"/main.coin"] = "include sub/*.ledger\n"
	}
	return &hist{sc: sc, w: newWorld(f, baseTime), st: st, files: make([][]hseg, len(sc.Names))}
}

func (h *hist) fail(sig, f string, a ...any) *Violation {
	return &Violation{Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: detail(h.w, h.ps), Sc: h.sc}
}

func (h *hist) run(c simrt.Cmd) *simrt.Proc {
	ps := h.w.Run(c)
	h.ps = append(h.ps, ps...)
	return ps[0]
}

// put writes the model's idea of a file, as an editor would.
func (h *hist) put(i int) {
	var b strings.Builder
	for _, s := range h.files[i] {
		b.WriteString(s.text)
		b.WriteString("\n")
	}
	h.w.FS.Put(h.sc.Names[i], b.String())
}

func (h *hist) txns(i int) (out []PTxn) {
	for _, s := range h.files[i] {
		out = append(out, s.t)
	}
	return out
}

// adopt takes over the content of a rewritten file.
func (h *hist) adopt(i int, ts []PTxn, text string) {
	var segs []hseg
	paras := strings.Split(strings.TrimSuffix(text, "\n"), "\n\n")
	for k, t := range ts {
		x := ""
		if k < len(paras) {
			x = strings.TrimSuffix(paras[k], "\n") + "\n"
		}
		segs = append(segs, hseg{t, x})
	}
	h.files[i] = segs
}

// edit performs the steps that happen without the programs.
func (h *hist) edit(op *HOp) {
	switch op.Kind {
	case "append":
		i := op.Files[0]
		for k := range op.Txns {
			t := &op.Txns[k]
			h.files[i] = append(h.files[i], hseg{h.sc.L.ptxn(t), h.sc.L.txnText(t)})
		}
		h.put(i)
	case "split":
		a, b := op.Files[0], op.Files[1]
		if a == b {
			return
		}
		k := len(h.files[a]) * op.N / 10
		moved := append([]hseg{}, h.files[a][k:]...)
		h.files[a] = h.files[a][:k:k]
		h.files[b] = append(h.files[b], moved...)
		h.put(a)
		h.put(b)
	}
	h.w.FS.Commit()
}

// rewrite runs a format or modify step and checks the files afterwards.
func (h *hist) rewrite(op *HOp) *Violation {
	sc, l := h.sc, h.sc.L
	var a []string
	if op.Kind == "format" {
		a = []string{"coin", "format", "-i"}
		if op.Trim {
			a = append(a, "-t")
		}
	} else {
		a = append([]string{"coin", "modify"}, op.Mod.args(l)...)
	}
	target := map[string]int{}
	var order []string
	for _, i := range op.Files {
		if _, ok := target[sc.Names[i]]; !ok {
			target[sc.Names[i]] = i
			order = append(order, sc.Names[i])
		}
	}
	c := cmd(append(a, order...)...)
	c.Cfg = simrt.Cfg{MapMode: op.Map, MapSeed: op.Seed, TempSeed: op.Seed, Faults: op.Faults, FDLimit: op.FDs}
	if op.Cap > 0 {
		h.w.FS.Capacity = h.w.FS.Used() + op.Cap
	}
	before := h.w.FS.Tree(db)
	p := h.run(c)
	h.w.FS.Capacity = 0
	after := h.w.FS.Tree(db)
	faulty := len(p.Fired) > 0 || op.Cap > 0 || op.FDs > 0
	if len(p.Fired) > 0 {
		h.st.Count("rewrites hit by a fault")
		h.fault = true
	}
	if !p.OK() && !faulty {
		return h.fail("fails", "%s fails on a valid file without any fault: %s %s", strings.Join(c.Args, " "), p.How(), p.Stderr)
	}
	if p.OK() {
		h.st.Count("rewrites done")
	}
	for fn, was := range before {
		if _, ok := target[fn]; !ok && after[fn] != was {
			return h.fail("bystander", "%s changed %s, which it was not given", strings.Join(c.Args, " "), fn)
		}
	}
	for _, fn := range order {
		i := target[fn]
		if op.Kind == "modify" && p.OK() {
			if m := regexp.MustCompile(`(?m)(\d+) transactions? in ` + regexp.QuoteMeta(fn) + "$").FindStringSubmatch(string(p.Stderr)); m != nil {
				n, _ := strconv.Atoi(m[1])
				if lo, hi := op.Mod.count(l, h.txns(i)); n < lo || n > hi {
					return h.fail("count", "%s reports %q and %d to %d transactions are selected", strings.Join(c.Args, " "), m[0], lo, hi)
				}
			}
		}
		now, ok := after[fn]
		if !ok {
			return h.fail("missing", "%s is gone after %s (%s)", fn, strings.Join(c.Args, " "), p.How())
		}
		if v := h.settle(op, i, before[fn], now, !p.OK()); v != nil {
			return v
		}
	}
	return nil
}

// print runs format without -i, which writes to standard output and leaves the files alone.
func (h *hist) print(op *HOp) *Violation {
	a := []string{"coin", "format"}
	if op.Trim {
		a = append(a, "-t")
	}
	if op.Ledger {
		a = append(a, "-ledger")
	}
	var want []PTxn
	for _, i := range op.Files {
		a = append(a, h.sc.Names[i])
		w := sortedTxns(h.txns(i))
		if op.Trim {
			w = trimTxns(w)
		}
		want = append(want, w...)
	}
	c := cmd(a...)
	c.Cfg = simrt.Cfg{MapMode: op.Map, MapSeed: op.Seed, TempSeed: op.Seed}
	before := h.w.FS.Tree(db)
	p := h.run(c)
	if !p.OK() {
		return h.fail("fails", "%s fails on a valid file without any fault: %s %s", strings.Join(a, " "), p.How(), p.Stderr)
	}
	if d := diffTree(before, h.w.FS.Tree(db)); d != "" {
		return h.fail("bystander", "%s without -i changed the files: %s", strings.Join(a, " "), d)
	}
	text := string(p.Stdout)
	if op.Ledger {
		var lines []string
		for _, x := range strings.Split(text, "\n") {
			body, note, has := strings.Cut(x, ";")
			for _, c := range h.sc.L.Comms {
				if !strings.ContainsAny(c.Id, "0123456789") { // ledger has these in quotes
					continue
				}
				if strings.HasPrefix(x, "  ") && regexp.MustCompile(`[0-9] `+c.Id+`\b`).MatchString(body) {
					return h.fail("ledger", "%s leaves %s unquoted: %s", strings.Join(a, " "), c.Id, x)
				}
				if strings.HasPrefix(x, "  ") {
					body = strings.ReplaceAll(body, ` "`+c.Id+`"`, " "+c.Id)
				}
			}
			if x = body; has {
				x += ";" + note
			}
			lines = append(lines, x)
		}
		text = strings.Join(lines, "\n")
	}
	got, err := parseCanon(text)
	if err != nil {
		return h.fail("garbled", "the output of %s is not a sequence of transactions: %v", strings.Join(a, " "), err)
	}
	if why := sameTxns(want, got); why != "" {
		return h.fail("printed", "%s: %s", strings.Join(a, " "), why)
	}
	return nil
}

// settle compares a file after a rewrite with what it must contain.
func (h *hist) settle(op *HOp, i int, was, now string, mayBeOld bool) *Violation {
	if mayBeOld && now == was {
		return nil
	}
	fn := h.sc.Names[i]
	got, err := parseCanon(now)
	if err != nil {
		return h.fail("garbled", "%s is not a sequence of transactions after %s: %v", fn, op.Kind, err)
	}
	model := h.txns(i)
	why := ""
	if op.Kind == "format" {
		want := sortedTxns(model)
		if op.Trim {
			want = trimTxns(want)
		}
		why = sameTxns(want, got)
	} else {
		why = op.Mod.checkModified(h.sc.L, model, got)
	}
	if why != "" {
		return h.fail("altered", "%s after %s: %s", fn, op.Kind, why)
	}
	h.adopt(i, got, now)
	return nil
}

func runC09(x any, st *Stats) *Violation {
	sc := x.(*HistSc)
	h := sc.start(st)
	defer func() { st.World(h.w, h.ps, true) }()
	var last *HOp
	var pre []Files
	var preSegs [][]hseg
	_ = pre
	for k := range sc.Ops {
		op := &sc.Ops[k]
		switch op.Kind {
		case "append", "split":
			h.edit(op)
			st.Count(op.Kind)
		case "print":
			if v := h.print(op); v != nil {
				return v
			}
			st.Count(op.Kind)
		case "format", "modify":
			preSegs = append([][]hseg{}, h.files...)
			if v := h.rewrite(op); v != nil {
				return v
			}
			last = op
			st.Count(op.Kind)
			if k+1 >= len(sc.Ops) || sc.Ops[k+1].Kind != "power" {
				h.w.FS.Commit()
			}
			continue
		case "power":
			if last == nil {
				continue
			}
			// what the disk held before the rewrite may come back
			h.w.FS.PowerLoss(simrt.NewRNG(op.Seed, "power"))
			h.w.Injected["power-loss"]++
			tree := h.w.FS.Tree(db)
			for i, fn := range sc.Names {
				now, ok := tree[fn]
				if !ok {
					return h.fail("missing", "%s is gone after a power loss", fn)
				}
				var old strings.Builder
				for _, s := range preSegs[i] {
					old.WriteString(s.text + "\n")
				}
				var cur strings.Builder
				for _, s := range h.files[i] {
					cur.WriteString(s.text + "\n")
				}
				switch now {
				case cur.String():
				case old.String():
					h.files[i] = preSegs[i]
				default:
					return h.fail("power", "%s holds neither what it held before nor after the last rewrite once power was lost: %s", fn, quote(now))
				}
			}
			h.w.FS.Commit()
		}
		last = nil
	}
	// at the end everything entered is there, in one register over all accounts
	p := h.run(cmd("coin", "stats"))
	n := 0
	for i := range h.files {
		n += len(h.files[i])
	}
	if !p.OK() {
		return h.fail("report", "the ledger cannot be read at the end of its history: %s %s", p.How(), p.Stderr)
	}
	if want := fmt.Sprintf("Transactions: %d\n", n); !strings.Contains(string(p.Stdout), want) {
		return h.fail("count", "%d transactions were entered, stats says %s", n, p.Stdout)
	}
	return nil
}

func shrinkHist(x any) (out []any) {
	sc := x.(*HistSc)
	add := func(f func(n *HistSc)) {
		n := *sc
		n.Ops = append([]HOp{}, sc.Ops...)
		f(&n)
		out = append(out, &n)
	}
	for i := range sc.Ops {
		add(func(n *HistSc) { n.Ops = append(n.Ops[:i:i], n.Ops[i+1:]...) })
	}
	if sc.Layout != 0 && strings.HasPrefix(sc.Names[0], db+"/") {
		add(func(n *HistSc) {
			n.Layout = 0
			n.Names = nil
			for i := range sc.Names {
				n.Names = append(n.Names, fmt.Sprintf("%s/f%d.coin", db, i))
			}
		})
	}
	for i := range sc.Ops {
		op := sc.Ops[i]
		for j := range op.Txns {
			add(func(n *HistSc) {
				n.Ops[i].Txns = append(append([]Txn{}, op.Txns[:j]...), op.Txns[j+1:]...)
			})
		}
		for j := range op.Faults {
			add(func(n *HistSc) {
				n.Ops[i].Faults = append(append([]simrt.Fault{}, op.Faults[:j]...), op.Faults[j+1:]...)
			})
		}
		if op.Cap > 0 || op.FDs > 0 {
			add(func(n *HistSc) { n.Ops[i].Cap, n.Ops[i].FDs = 0, 0 })
		}
		if len(op.Files) > 1 && op.Kind != "split" {
			for j := range op.Files {
				add(func(n *HistSc) {
					n.Ops[i].Files = append(append([]int{}, op.Files[:j]...), op.Files[j+1:]...)
				})
			}
		}
		for j := range op.Txns {
			edit := func(f func(t *Txn)) {
				add(func(n *HistSc) {
					ts := append([]Txn{}, op.Txns...)
					t := ts[j]
					t.Posts = append([]Post{}, t.Posts...)
					f(&t)
					ts[j] = t
					n.Ops[i].Txns = ts
				})
			}
			if len(op.Txns[j].Notes) > 0 {
				edit(func(t *Txn) { t.Notes = nil })
			}
			if op.Txns[j].Code != "" {
				edit(func(t *Txn) { t.Code = "" })
			}
			if op.Txns[j].Style != 0 {
				edit(func(t *Txn) { t.Style = 0 })
			}
			for k := range op.Txns[j].Posts {
				p := op.Txns[j].Posts[k]
				if len(p.Notes) > 0 {
					edit(func(t *Txn) { t.Posts[k].Notes = nil })
				}
				if p.Bal != nil {
					edit(func(t *Txn) { t.Posts[k].Bal = nil })
				}
			}
		}
	}
	if len(sc.L.Prices) > 0 {
		add(func(n *HistSc) {
			l := *sc.L
			l.Prices = nil
			n.L = &l
		})
	}
	return out
}

var histReal = []string{"coin format, modify, balance, register, stats, tags with the coin, check and rex packages, instrumented from the working tree", "flag, bufio, regexp, encoding/csv, encoding/json"}
var histStub = []string{"operating system: disk, clock, descriptors", "temporary file names (seeded)", "map iteration order (seeded)"}

func init() {
	register(&Check{
		ID: "C09", Level: "exploration", Full: true, Quick: 60000, Thor: 3000000,
		Rule:   "Each scenario is a history of 3 to 9 steps over 1 to 4 files: transactions are appended, moved between files, files are formatted or modified in place, half of the rewrites with faults (kill before, inside or after a system call, EIO, ENOSPC, EINTR, short writes, small disks, few descriptors) and some followed by a power loss. After every rewrite each file is read by the harness's own reader and compared, transaction by transaction, with a reference model.",
		Real:   histReal,
		Stub:   histStub,
		Assume: []string{"Files hold transactions only (format and modify document that they rewrite transactions).", "A posting is moved only between accounts of one commodity."},
		Gen:    func(r *simrt.RNG, i int) any { return genHist(r, true) },
		New:    func() any { return &HistSc{} },
		Run:    runC09,
		Shrink: shrinkHist,
	})
}

// diffTree names the files that differ.
func diffTree(a, b Files) string {
	var out []string
	for _, f := range sortedKeys(a) {
		if x, ok := b[f]; !ok {
			out = append(out, f+" is gone")
		} else if x != a[f] {
			out = append(out, f+" differs")
		}
	}
	for _, f := range sortedKeys(b) {
		if _, ok := a[f]; !ok {
			out = append(out, f+" is new")
		}
	}
	return strings.Join(out, ", ")
}
