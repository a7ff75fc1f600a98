package main

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"vsim/simrt"
)

// GnuCash databases converted.

// GCExtra is what a database has beyond the plain one.
type GCExtra struct {
	NoFrac   []int          `json:",omitempty"` // commodities without a fraction
	Scale    []int64        `json:",omitempty"` // quantities are written with a denominator this much bigger
	PriceDen []int64        `json:",omitempty"` // prices are this fraction
	Space    []int          `json:",omitempty"` // account names with a space at this place
	OFX      map[int]string `json:",omitempty"` // online ids of accounts
	Template bool           `json:",omitempty"`
	Shuffle  uint64         `json:",omitempty"`
	Slots    bool           `json:",omitempty"`
}

type GCSc struct {
	G      *GC
	X      GCExtra
	Yearly bool
	Stdout bool
	Old    bool // files of an earlier conversion are there
	Trunc  []int
	Flip   []int         // bits
	Faults []simrt.Fault `json:",omitempty"`
	Map    int
	Slice  int
	Seed   uint64
}

func genGCSc(r *simrt.RNG) *GCSc {
	sc := &GCSc{G: genGC(r, simrt.Pick(r, 1, 4, 10, 25, 1, 4, 10, 25, 1, 4, 10, 25, 1, 4, 10, 25, 1, 4, 10, 25, 1, 4, 10, 25, 1, 4, 10, 600)), Map: r.N(4), Slice: simrt.Pick(r, 0, 0, 1, 3), Seed: r.Uint64()}
	switch r.N(5) {
	case 0:
		sc.Stdout = true
	case 1:
	default:
		sc.Yearly = true
	}
	sc.Old = !sc.Stdout && r.P(30)
	g, x := sc.G, &sc.X
	if r.P(40) {
		used := map[int]bool{}
		for _, a := range g.L.Accts {
			used[a.Comm] = true
		}
		for i, c := range g.L.Comms {
			if (c.Dec == 2 || c.Dec > 2 && used[i]) && r.P(60) {
				x.NoFrac = append(x.NoFrac, i)
			}
		}
	}
	for i := 0; i < 5; i++ {
		x.Scale = append(x.Scale, simrt.Pick[int64](r, 1, 1, 10, 3, 1000, 7))
		x.PriceDen = append(x.PriceDen, simrt.Pick[int64](r, 0, 0, 0, 211, 3, 1000000))
	}
	for range g.L.Accts {
		x.Space = append(x.Space, simrt.Pick(r, 0, 0, 0, 1, 2, 3))
	}
	if r.P(40) {
		x.OFX = map[int]string{}
		for i := range g.L.Accts {
			if r.P(40) {
				x.OFX[i] = simrt.Pick(r, "", fmt.Sprint(r.In(1, 99999))+" ", fmt.Sprint(r.In(1, 99999))+"   ") + fmt.Sprint(r.In(1, 99999999))
			}
		}
	}
	x.Template, x.Slots = r.P(30), r.P(40)
	if r.P(60) {
		x.Shuffle = r.Uint64() | 1
	}
	for i := 0; i < 4; i++ {
		sc.Trunc = append(sc.Trunc, r.N(1001))
		sc.Flip = append(sc.Flip, r.N(1<<30))
	}
	return sc
}

func (sc *GCSc) xml() string {
	g, l, x := sc.G, sc.G.L, &sc.X
	cm := func(tag string, i int) string {
		return fmt.Sprintf("<%s:commodity><cmdty:space>%s</cmdty:space><cmdty:id>%s</cmdty:id></%s:commodity>", tag, sc.space(i), l.Comms[i].Id, tag)
	}
	ns := ""
	for _, n := range strings.Fields("gnc act book cd cmdty price slot split sx trn ts fs bgt lot") {
		ns += fmt.Sprintf("\n     xmlns:%s=\"http://www.gnucash.org/XML/%s\"", n, n)
	}
	var b strings.Builder
	b.WriteString("<?xml version=\"1.0\" encoding=\"utf-8\" ?>\n<gnc-v2" + ns + ">\n<gnc:count-data cd:type=\"book\">1</gnc:count-data>\n<gnc:book version=\"2.0.0\">\n<book:id type=\"guid\">3dc1c84173022dfdb9410e0933fa2fa3</book:id>\n")
	slots := func(tag string) string {
		if !x.Slots {
			return ""
		}
		return "<" + tag + ":slots><slot><slot:key>options</slot:key><slot:value type=\"frame\"><slot><slot:key>color</slot:key><slot:value type=\"string\">Not Set</slot:value></slot></slot:value></slot></" + tag + ":slots>"
	}
	b.WriteString(slots("book"))
	fmt.Fprintf(&b, "<gnc:count-data cd:type=\"transaction\">%d</gnc:count-data>\n", len(g.Txns))
	if x.Template {
		b.WriteString("<gnc:commodity version=\"2.0.0\"><cmdty:space>template</cmdty:space><cmdty:id>template</cmdty:id><cmdty:name>template</cmdty:name><cmdty:xcode>template</cmdty:xcode><cmdty:fraction>1</cmdty:fraction></gnc:commodity>\n")
	}
	for i, c := range l.Comms {
		fr := fmt.Sprintf("<cmdty:fraction>1%s</cmdty:fraction>", strings.Repeat("0", c.Dec))
		if sc.noFrac(i) {
			fr = ""
		}
		name := ""
		if c.Note != "" {
			name = "<cmdty:name>" + xmlEsc(c.Note) + "</cmdty:name>"
		}
		fmt.Fprintf(&b, "<gnc:commodity version=\"2.0.0\"><cmdty:space>%s</cmdty:space><cmdty:id>%s</cmdty:id>%s%s<cmdty:get_quotes/><cmdty:quote_tz/></gnc:commodity>\n", sc.space(i), c.Id, name, fr)
	}
	order := func(n int) []int {
		o := seq(n)
		if x.Shuffle != 0 {
			simrt.Shuffle(simrt.NewRNG(x.Shuffle, "order"), o)
		}
		return o
	}
	if len(g.Prices) > 0 {
		b.WriteString("<gnc:pricedb version=\"1\">\n")
		for _, i := range order(len(g.Prices)) {
			p := g.Prices[i]
			n, d := sc.price(i)
			fmt.Fprintf(&b, "<price><price:id type=\"guid\">p%d</price:id>%s%s<price:time><ts:date>%s</ts:date></price:time><price:source>user:price</price:source><price:value>%d/%d</price:value></price>\n",
				i, cm("price", p.C), strings.NewReplacer("price:commodity", "price:currency").Replace(cm("price", p.K)), gcStamp(p.Day, p.Sec, p.TZ), n, d)
		}
		b.WriteString("</gnc:pricedb>\n")
	}
	b.WriteString("<gnc:account version=\"2.0.0\"><act:name>Root Account</act:name><act:id type=\"guid\">root</act:id><act:type>ROOT</act:type></gnc:account>\n")
	idx := map[string]int{}
	for i, a := range l.Accts {
		idx[a.Name] = i
	}
	for _, i := range order(len(l.Accts)) {
		a := l.Accts[i]
		parent, name := "root", a.Name
		if k := strings.LastIndex(a.Name, ":"); k >= 0 {
			parent, name = fmt.Sprintf("a%d", idx[a.Name[:k]]), a.Name[k+1:]
		}
		if k := x.Space[i%len(x.Space)]; k > 0 && k < len(name) {
			name = name[:k] + " " + name[k:]
		}
		s := slots("act")
		if id := x.OFX[i]; id != "" {
			s = "<act:slots><slot><slot:key>color</slot:key><slot:value type=\"string\">Not Set</slot:value></slot><slot><slot:key>online_id</slot:key><slot:value type=\"string\">" + id + "</slot:value></slot></act:slots>"
		}
		fmt.Fprintf(&b, "<gnc:account version=\"2.0.0\"><act:name>%s</act:name><act:id type=\"guid\">a%d</act:id><act:type>BANK</act:type>%s<act:commodity-scu>1%s</act:commodity-scu><act:description>%s</act:description>%s<act:parent type=\"guid\">%s</act:parent></gnc:account>\n",
			name, i, cm("act", a.Comm), strings.Repeat("0", l.Comms[a.Comm].Dec), xmlEsc(a.Note), s, parent)
	}
	txn := func(i int, t *GCTxn) {
		fmt.Fprintf(&b, "<gnc:transaction version=\"2.0.0\"><trn:id type=\"guid\">t%d</trn:id><trn:currency><cmdty:space>%s</cmdty:space><cmdty:id>CAD</cmdty:id></trn:currency>", i, sc.space(0))
		if t.Code != "" {
			fmt.Fprintf(&b, "<trn:num>%s</trn:num>", t.Code)
		}
		fmt.Fprintf(&b, "<trn:date-posted><ts:date>%s</ts:date></trn:date-posted><trn:date-entered><ts:date>2024-02-14 23:50:26 -0500</ts:date></trn:date-entered><trn:description>%s</trn:description>%s<trn:splits>\n", gcStamp(t.Day, t.Sec, t.TZ), xmlEsc(t.Desc), slots("trn"))
		for k, p := range t.Posts {
			a := l.Accts[p.Acct]
			memo := ""
			if len(p.Notes) > 0 {
				memo = "<split:memo>" + xmlEsc(p.Notes[0]) + "</split:memo>"
			}
			s := x.Scale[(i+k)%len(x.Scale)]
			if p.Qty > 1<<50 || p.Qty < -1<<50 || p.Hi != 0 {
				s = 1
			}
			fmt.Fprintf(&b, "<trn:split><split:id type=\"guid\">s%d.%d</split:id>%s<split:action>%s</split:action><split:reconciled-state>n</split:reconciled-state><split:value>%s</split:value><split:quantity>%s/%d%s</split:quantity><split:account type=\"guid\">a%d</split:account></trn:split>\n",
				i, k, memo, []string{"Buy", "", "Deposit"}[(i+k)%3], frac(0, p.Qty*31, 3), fmtBig(p.Hi, p.Qty*s, 0), s, strings.Repeat("0", l.Comms[a.Comm].Dec), p.Acct)
		}
		b.WriteString("</trn:splits></gnc:transaction>\n")
	}
	for _, i := range order(len(g.Txns)) {
		txn(i, &g.Txns[i])
	}
	if x.Template {
		b.WriteString("<gnc:template-transactions>\n<gnc:account version=\"2.0.0\"><act:name>Template Root</act:name><act:id type=\"guid\">troot</act:id><act:type>ROOT</act:type></gnc:account>\n")
		if len(g.Txns) > 0 {
			txn(9999, &g.Txns[0])
		}
		b.WriteString("</gnc:template-transactions>\n")
	}
	b.WriteString("</gnc:book>\n</gnc-v2>\n\n<!-- Local variables: -->\n<!-- mode: xml        -->\n<!-- End:             -->\n")
	return b.String()
}

func instant(day int64, sec, tz int) int64 { return day*86400 + int64(sec) - int64(tz)*3600 }

func (sc *GCSc) noFrac(i int) bool {
	for _, k := range sc.X.NoFrac {
		if k == i {
			return true
		}
	}
	return false
}

func (sc *GCSc) space(i int) string {
	if sc.noFrac(i) {
		return "CURRENCY"
	}
	return "TSX"
}

// price is the fraction written for a price.
func (sc *GCSc) price(i int) (int64, int64) {
	p := sc.G.Prices[i]
	if d := sc.X.PriceDen[i%len(sc.X.PriceDen)]; d > 0 {
		return p.Val, d
	}
	d := int64(1)
	for k := 0; k < sc.G.L.Comms[p.K].Dec; k++ {
		d *= 10
	}
	return p.Val, d
}

func (sc *GCSc) want(i int) PTxn {
	l, t := sc.G.L, &sc.G.Txns[i]
	p := l.ptxn(&t.Txn)
	p.Notes = nil
	if d := strings.SplitN(t.Desc, " - ", 2); len(d) == 2 {
		p.Desc, p.Notes = strings.TrimRight(d[0], " "), []string{d[1]}
	}
	for k := range p.Posts {
		p.Posts[k].Bal = ""
		if n := p.Posts[k].Notes; len(n) > 1 {
			p.Posts[k].Notes = n[:1]
		}
	}
	return p
}

// blocks splits text into its paragraphs.
func blocks(s string) (out []string) {
	for _, b := range strings.Split(s, "\n\n") {
		if b = strings.Trim(b, "\n"); b != "" {
			out = append(out, b)
		}
	}
	return out
}

func runC16(x any, st *Stats) *Violation {
	sc := x.(*GCSc)
	l := sc.G.L
	text := sc.xml()
	data := gz(text)
	var w *simrt.World
	var ps []*simrt.Proc
	fail := func(sig, f string, a ...any) *Violation {
		return &Violation{Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: detail(w, ps), Sc: sc}
	}
	const in = "/w/books.gnucash"
	old := Files{}
	if sc.Old {
		old = Files{db + "/commodities.coin": "; old\n", db + "/accounts.coin": "; old\n"}
		if !sc.Yearly {
			old[db+"/prices.coin"], old[db+"/transactions.coin"] = strings.Repeat("; old\n", 100), strings.Repeat("; old\n", 500)
		} else {
			old[db+"/2022.coin"], old[db+"/2023.prices"] = strings.Repeat("; old\n", 500), strings.Repeat("; old\n", 30)
		}
	}
	var faults []simrt.Fault
	ledger := false
	convert := func(data string) (*simrt.Proc, Files) {
		w = newWorld(old, baseTime)
		w.FS.Put(in, data)
		a := []string{"gc2coin", "-gnucashdb", in}
		if sc.Yearly {
			a = append(a, "-y")
		}
		if ledger {
			a = append(a, "-l")
		}
		c := cmd(a...)
		if sc.Stdout {
			c.Env["COINDB"] = ""
		}
		c.Cfg = simrt.Cfg{MapMode: sc.Map, MapSeed: sc.Seed, SliceMode: sc.Slice, SliceSeed: sc.Seed, Faults: faults}
		p := w.Run(c)[0]
		ps = []*simrt.Proc{p}
		w.FS.Commit()
		return p, w.FS.Tree(db)
	}
	// nothing to convert, or nowhere to put it
	for _, a := range [][]string{{"gc2coin"}, {"gc2coin", "-y", "-gnucashdb", in}, {"gc2coin", "-gnucashdb", "/w/other.gnucash"}} {
		w = newWorld(old, baseTime)
		w.FS.Put(in, data)
		c := cmd(a...)
		c.Env["COINDB"] = ""
		ps = w.Run(c)
		st.World(w, ps, false)
		if ps[0].OK() {
			return fail("nothing", "%s without $COINDB exits with status 0", strings.Join(a, " "))
		}
	}
	// damaged databases
	p0, ref := convert(data)
	refOut := string(p0.Stdout)
	damaged := func(name, data string) *Violation {
		p, got := convert(data)
		st.World(w, ps, true)
		st.Injected[name]++
		if !p.OK() {
			return nil
		}
		same := p0.OK() && string(p.Stdout) == refOut && len(got) == len(ref)
		for k, v := range ref {
			same = same && got[k] == v
		}
		if !same {
			return fail("damaged", "gc2coin exits with status 0 for a damaged database (%s) but its result is not that for the intact one", name)
		}
		return nil
	}
	for _, t := range sc.Trunc {
		n := len(data) * t / 1000
		if t > 900 { // close to the end
			n = len(data) - (1000 - t) - 1
		}
		if n >= len(data) || n < 0 {
			continue
		}
		if v := damaged("database truncated", data[:n]); v != nil {
			return v
		}
	}
	for _, f := range sc.Flip {
		b := []byte(data)
		b[f/8%len(b)] ^= 1 << (f % 8)
		if v := damaged("database bit flipped", string(b)); v != nil {
			return v
		}
	}
	// failing operations
	tryFault := func(fs []simrt.Fault) *Violation {
		faults = fs
		p, got := convert(data)
		faults = nil
		st.World(w, ps, true)
		if len(p.Fired) == 0 || !p.OK() || !p0.OK() {
			return nil
		}
		same := string(p.Stdout) == refOut && len(got) == len(ref)
		for k, v := range ref {
			same = same && got[k] == v
		}
		if same {
			return nil
		}
		n := *sc
		n.Faults = fs
		v := fail("fault", "gc2coin exits with status 0 although an operation failed and its result is not complete")
		v.Sc = &n
		return v
	}
	if sc.Faults != nil {
		if v := tryFault(sc.Faults); v != nil {
			return v
		}
	} else {
		for _, fs := range faultPlans(simrt.NewRNG(sc.Seed, "faults"), p0.Trace, 5) {
			if v := tryFault(fs); v != nil {
				return v
			}
		}
	}
	// the intact one
	ledger = true
	pl, lfiles := convert(data)
	ledger = false
	st.World(w, ps, false)
	p, files := convert(data)
	defer func() { st.World(w, ps, true) }()
	if !p.OK() {
		return fail("fails", "gc2coin fails on a valid database: %s %s", p.How(), p.Stderr)
	}
	st.Count("databases converted")
	// for ledger, the same without the bank ids and with some commodities in quotes
	lfiles["output"], files["output"] = string(pl.Stdout), refOut
	for _, fn := range sortedKeys(files) {
		var want []string
		for _, ln := range strings.Split(files[fn], "\n") {
			if strings.HasPrefix(ln, "  ofx_") {
				continue
			}
			body, note, has := strings.Cut(ln, ";")
			if has {
				note = ";" + note
			}
			if !strings.HasPrefix(ln, "  note ") && (ln == "" || ln[0] < '0' || ln[0] > '9') {
				for _, c := range l.Comms {
					if strings.ContainsAny(c.Id, "0123456789") {
						body = regexp.MustCompile(` `+c.Id+`\b`).ReplaceAllString(body, ` "`+c.Id+`"`)
					}
				}
			}
			want = append(want, body+note)
		}
		if w := strings.Join(want, "\n"); !pl.OK() || lfiles[fn] != w {
			return fail("ledger", "%s with -l: %s %s", fn, pl.How(), firstDiff(w, lfiles[fn]))
		}
	}
	delete(files, "output")
	part := map[string]string{}
	if sc.Stdout {
		if len(files) > 0 {
			return fail("files", "gc2coin writes files although COINDB is not set: %v", sortedKeys(files))
		}
		for _, b := range blocks(refOut) {
			switch {
			case strings.HasPrefix(b, "commodity "):
				part["commodities.coin"] += b + "\n\n"
			case strings.HasPrefix(b, "account "):
				part["accounts.coin"] += b + "\n\n"
			case strings.HasPrefix(b, "P "):
				// prices are followed by the accounts without an empty line
				for _, ln := range strings.SplitAfter(b+"\n", "\n") {
					if strings.HasPrefix(ln, "P ") {
						part["prices.coin"] += ln
					} else {
						part["accounts.coin"] += ln
					}
				}
				part["accounts.coin"] += "\n"
			default:
				part["transactions.coin"] += b + "\n\n"
			}
		}
	} else {
		for k, v := range files {
			part[strings.TrimPrefix(k, db+"/")] = v
		}
	}
	// commodities
	var want, got []string
	for i, c := range l.Comms {
		b := "commodity " + c.Id
		if c.Note != "" {
			b += "\n  note " + c.Note
		}
		f := "1"
		if c.Dec > 0 {
			f += "." + strings.Repeat("0", c.Dec)
		}
		_ = i
		want = append(want, b+"\n  format "+f+" "+c.Id)
	}
	for _, b := range blocks(part["commodities.coin"]) {
		got = append(got, b)
	}
	if d := multiset(got, want); d != "" {
		return fail("commodities", "the commodities differ: %s", d)
	}
	// accounts
	want, got = []string{"account Root\n  commodity CAD"}, nil
	for i, a := range l.Accts {
		b := []string{"account " + a.Name}
		if a.Note != "" {
			b = append(b, "  note "+a.Note)
		}
		b = append(b, "  commodity "+l.Comms[a.Comm].Id)
		if id := strings.Fields(sc.X.OFX[i]); len(id) > 0 {
			if len(id) > 1 {
				b = append(b, "  ofx_bankid "+id[0])
			}
			b = append(b, "  ofx_acctid "+id[len(id)-1])
		}
		sort.Strings(b)
		want = append(want, strings.Join(b, "\n"))
	}
	want[0] = "  commodity CAD\naccount Root"
	for _, b := range blocks(part["accounts.coin"]) {
		ls := strings.Split(b, "\n")
		sort.Strings(ls)
		got = append(got, strings.Join(ls, "\n"))
	}
	if d := multiset(got, want); d != "" {
		return fail("accounts", "the accounts differ: %s", d)
	}
	// prices, by file
	used := map[string]bool{"commodities.coin": true, "accounts.coin": true}
	prices := map[string][]int{}
	for i, p := range sc.G.Prices {
		f := "prices.coin"
		if sc.Yearly {
			f = dayText(p.Day)[:4] + ".prices"
		}
		prices[f] = append(prices[f], i)
	}
	if !sc.Yearly {
		used["prices.coin"], used["transactions.coin"] = true, true
	}
	for f, is := range prices {
		used[f] = true
		var got []string
		for _, ln := range strings.Split(part[f], "\n") {
			if ln != "" {
				got = append(got, ln)
			}
		}
		for _, i := range is {
			p := sc.G.Prices[i]
			n, d := sc.price(i)
			pre := fmt.Sprintf("P %s %s ", dayText(p.Day), l.Comms[p.C].Id)
			k := l.Comms[p.K]
			found := -1
			for j, ln := range got {
				f := strings.Fields(strings.TrimPrefix(ln, pre))
				if !strings.HasPrefix(ln, pre) || len(f) != 2 || f[1] != k.Id {
					continue
				}
				v, ok := new(big.Rat).SetString(f[0])
				if !ok {
					continue
				}
				v.Sub(v, big.NewRat(n, d))
				unit := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k.Dec)), nil))
				if v.Abs(v).Cmp(unit) < 0 && (v.Sign() == 0 || sc.X.PriceDen[i%len(sc.X.PriceDen)] > 0) {
					found = j
					break
				}
			}
			if found < 0 {
				return fail("prices", "the price of %s on %s (%d/%d %s) is not in %s: %q", l.Comms[p.C].Id, dayText(p.Day), n, d, k.Id, f, part[f])
			}
			got = append(got[:found:found], got[found+1:]...)
		}
		if len(got) > 0 {
			return fail("prices", "%s has prices that are not in the database: %q", f, got)
		}
	}
	// transactions, by file
	at := map[string][]int64{} // instants of the transactions of a file by their content
	txns := map[string][]PTxn{}
	var all []PTxn
	for i, t := range sc.G.Txns {
		f := "transactions.coin"
		if sc.Yearly {
			f = dayText(t.Day)[:4] + ".coin"
		}
		w := sc.want(i)
		txns[f] = append(txns[f], w)
		at[f+w.key()] = append(at[f+w.key()], instant(t.Day, t.Sec, t.TZ))
		all = append(all, sc.want(i))
	}
	for f, want := range txns {
		used[f] = true
		got, err := parseCanon(part[f])
		if err != nil {
			return fail("unreadable", "%s cannot be read: %s", f, err)
		}
		var a, b []string
		for i := range got {
			a = append(a, got[i].key())
		}
		for i := range want {
			b = append(b, want[i].key())
		}
		if d := multiset(a, b); d != "" {
			return fail("transactions", "the transactions in %s differ: %s", f, d)
		}
		// in date order: by calendar day or by instant
		byDay, byInstant, last := true, true, int64(math.MinInt64)
		for i := range got { // equal ones: take them in order
			k := f + got[i].key()
			sort.Slice(at[k], func(a, b int) bool { return at[k][a] < at[k][b] })
			byInstant = byInstant && at[k][0] >= last
			byDay = byDay && (i == 0 || got[i].Day >= got[i-1].Day)
			last, at[k] = at[k][0], at[k][1:]
		}
		if !byDay && !byInstant {
			return fail("order", "the transactions in %s are not in date order", f)
		}
	}
	for _, f := range sortedKeys(part) {
		if !used[f] && strings.Trim(strings.ReplaceAll(part[f], "; old\n", ""), "\n") != "" {
			return fail("extra", "%s should not have anything: %q", f, part[f])
		}
	}
	// balances
	if sc.Stdout {
		w.FS.Put(db+"/commodities.coin", refOut)
		for _, f := range []string{"accounts.coin", "prices.coin", "transactions.coin"} {
			w.FS.Put(db+"/"+f, "")
		}
		w.FS.Commit()
	}
	c := cmd("coin", "stats")
	q := w.Run(c)[0]
	ps = append(ps, q)
	if !q.OK() || !strings.Contains(string(q.Stdout), fmt.Sprintf("Transactions: %d\n", len(all))) {
		return fail("load", "the converted ledger does not load with its %d transactions: %s %s%s", len(all), q.How(), q.Stdout, q.Stderr)
	}
	bal := w.Run(cmd("coin", "balance", "-z"))[0]
	ps = append(ps, bal)
	if !bal.OK() {
		if len(l.Comms) == 1 {
			return fail("load", "the converted ledger cannot be reported: %s %s", bal.How(), bal.Stderr)
		}
		return nil
	}
	tot := map[string]*big.Int{}
	for i := range all {
		for _, p := range all[i].Posts {
			if tot[p.Acct] == nil {
				tot[p.Acct] = new(big.Int)
			}
			for _, a := range l.Accts {
				if a.Name == p.Acct {
					tot[p.Acct].Add(tot[p.Acct], parseQ(p.Qty, l.Comms[a.Comm].Dec))
				}
			}
		}
	}
	have := map[string]string{}
	for _, ln := range outLines(string(bal.Stdout)) {
		if cs := cells(ln); len(cs) == 3 {
			have[cs[2]] = cs[0]
		}
	}
	for _, a := range l.Accts {
		t := tot[a.Name]
		if t == nil {
			t = new(big.Int)
		}
		if s := bigQ(t, l.Comms[a.Comm].Dec); have[a.Name] != s {
			return fail("balance", "%s has %s in the database but %q in the ledger", a.Name, s, have[a.Name])
		}
	}
	return nil
}

func init() {
	register(&Check{
		ID: "C16", Level: "exploration", Full: true, Quick: 8000, Thor: 400000,
		Rule:   "Each scenario is a GnuCash database with accounts, commodities (with and without a fraction), prices and transactions stamped in mixed time zones, many around new year, in seeded order, converted into one file per kind, one per year, or to standard output, over files of an earlier run or none. What is in each file is compared with the database, and the balances coin prints from the result too. Each database is also converted damaged: truncated at four places and with a bit flipped at four places; these runs must fail or give the same result.",
		Real:   []string{"gc2coin, the gnucash, coin, check and rex packages, instrumented from the working tree", "compress/gzip, encoding/xml"},
		Stub:   []string{"operating system: disk", "map iteration order and slicing of reads (seeded)"},
		Assume: []string{"Account names consist of letters and spaces and stay different without the spaces, numbers of transactions of word characters.", "Quantities have no more decimals than their commodity.", "The default currency is CAD."},
		Gen:    func(r *simrt.RNG, i int) any { return genGCSc(r) },
		New:    func() any { return &GCSc{} },
		Run:    runC16,
		Shrink: func(x any) (out []any) {
			sc := x.(*GCSc)
			add := func(f func(n *GCSc)) {
				n := clone(checks["C16"], sc).(*GCSc)
				f(n)
				out = append(out, n)
			}
			for i := range sc.G.Txns {
				add(func(n *GCSc) { n.G.Txns = append(n.G.Txns[:i:i], n.G.Txns[i+1:]...) })
			}
			for i := range sc.G.Prices {
				add(func(n *GCSc) { n.G.Prices = append(n.G.Prices[:i:i], n.G.Prices[i+1:]...) })
			}
			for i := range sc.Trunc {
				add(func(n *GCSc) { n.Trunc = append(n.Trunc[:i:i], n.Trunc[i+1:]...) })
			}
			for i := range sc.Flip {
				add(func(n *GCSc) { n.Flip = append(n.Flip[:i:i], n.Flip[i+1:]...) })
			}
			for _, f := range []func(n *GCSc){
				func(n *GCSc) { n.X.NoFrac = nil }, func(n *GCSc) { n.X.OFX = nil }, func(n *GCSc) { n.X.Template = false },
				func(n *GCSc) { n.X.Slots = false }, func(n *GCSc) { n.X.Shuffle = 0 }, func(n *GCSc) { n.Old = false },
				func(n *GCSc) { n.X.Scale = []int64{1} }, func(n *GCSc) { n.X.PriceDen = []int64{0} }, func(n *GCSc) { n.X.Space = []int{0} },
			} {
				add(f)
			}
			return out
		},
	})
}
