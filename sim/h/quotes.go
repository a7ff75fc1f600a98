package main

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	_ "unsafe"

	finance "github.com/piquette/finance-go"

	"vsim/simrt"
)

// Quotes from a simulated quote service.

//go:linkname yCrumb github.com/piquette/finance-go.yCrumb
var yCrumb string

// QResp is what the service makes of a request.
type QResp struct {
	Kind  string
	Price string `json:",omitempty"`
	Cur   string `json:",omitempty"`
	Secs  int    `json:",omitempty"`
}

type QDay struct {
	Day   int64
	Sec   int
	Crumb []QResp `json:",omitempty"`
	Resp  []QResp // per commodity
	Map   int
	Seed  uint64
	Slice int
}

type QuoteSc struct {
	Comms []Comm
	Zone  int
	Days  []QDay
	File  string
}

var badQuotes = []string{"refused", "timeout", "reset", "401", "404", "429", "500", "503", "html", "empty", "truncated", "error", "null", "none", "nullquote", "noprice", "nocur", "othercur", "crash-body"}

func genPrice(r *simrt.RNG) string {
	switch r.N(10) {
	case 0:
		return simrt.Pick(r, "19.99", "0.29", "1.15", "4.35", "2.675", "1.1", "0.57", "8.41", "1136.13", "0.07")
	case 1: // as rounded to 32 bits by the service
		return fmt.Sprint(float64(float32(r.N(100000)) / 100))
	case 2:
		return fmtQty(int64(r.In(1, 1<<40)), r.In(0, 8))
	case 3:
		return fmt.Sprintf("%d.%02d", r.In(1, 1<<45), r.N(100))
	case 4:
		return fmt.Sprintf("%d", r.In(1, 1<<30)) + strings.Repeat("0", r.N(8))
	case 5:
		return simrt.Pick(r, "1e-5", "1.5e3", "2.5E10", "1e15", "0.000001", "0.005", "0.5", "999.999", "0.9999999", "1")
	}
	return fmtQty(int64(r.In(1, 1000000)), r.In(1, 4))
}

func genQuotes(r *simrt.RNG) *QuoteSc {
	sc := &QuoteSc{Zone: r.In(-11, 12), File: simrt.Pick(r, "prices.coin", "2024.prices", "quotes.prices")}
	if r.P(25) {
		sc.Zone = namedZone + r.N(len(zoneNames))
	}
	ids := []string{"CAD", "USD", "EUR", "VTI", "BTC", "XAU", "AAPL", "JPY", "ETH", "GLD"}
	n := r.In(2, len(ids))
	if r.P(4) {
		for len(ids) < 70 {
			ids = append(ids, fmt.Sprintf("Q%c%c", 'A'+len(ids)/26, 'A'+len(ids)%26))
		}
		n = len(ids)
	}
	for i := 0; i < n; i++ {
		c := Comm{Id: ids[i], Dec: simrt.Pick(r, 2, 2, 2, 0, 3, 4, 6, 8, 18), Default: i == 0}
		if i > 0 && r.P(50) {
			c.Symbol = simrt.Pick(r, c.Id, c.Id+".TO")
		}
		c.NoMarket = i > 0 && r.P(15)
		sc.Comms = append(sc.Comms, c)
	}
	simrt.Shuffle(r, sc.Comms)
	day := dayOf(2024, 1, 1) + int64(r.N(400))
	for d, n := 0, r.In(1, 4); d < n; d++ {
		q := QDay{Day: day, Sec: simrt.Pick(r, 3600*12, 86399, 86350, r.N(86400)), Map: r.N(4), Seed: r.Uint64(), Slice: r.N(4)}
		day += int64(r.In(3, 40))
		bad := simrt.Pick(r, 0, 10, 30, 60)
		for range sc.Comms {
			x := QResp{Kind: "ok", Price: genPrice(r), Cur: "CAD"}
			if r.P(25) {
				x.Cur = simrt.Pick(r, sc.Comms...).Id
			}
			if r.P(bad) {
				x.Kind = simrt.Pick(r, badQuotes...)
			} else if r.P(10) {
				x.Kind = "several"
			}
			if r.P(30) {
				x.Secs = r.N(90)
			}
			q.Resp = append(q.Resp, x)
		}
		if r.P(30) {
			for i, n := 0, r.In(1, 5); i < n; i++ {
				q.Crumb = append(q.Crumb, QResp{Kind: simrt.Pick(r, "ok", "refused", "timeout", "reset", "500", "empty"), Secs: r.N(40)})
			}
		}
		sc.Days = append(sc.Days, q)
	}
	return sc
}

// netErr is a failing connection.
type netErr struct {
	s       string
	timeout bool
}

func (e *netErr) Error() string   { return e.s }
func (e *netErr) Timeout() bool   { return e.timeout }
func (e *netErr) Temporary() bool { return true }

// brokenBody delivers a part of the response.
type brokenBody struct {
	io.Reader
	err error
}

func (b *brokenBody) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF && b.err != nil {
		err = b.err
	}
	return n, err
}
func (b *brokenBody) Close() error { return nil }

// service is the network and the quote service behind it.
type service struct {
	w         *simrt.World
	sc        *QuoteSc
	day       *QDay
	crumbs    int
	delivered map[string]QResp // by symbol
	requests  int
	slice     *simrt.RNG
}

func (sc *QuoteSc) symbol(i int) string {
	c := sc.Comms[i]
	if c.Symbol != "" {
		return c.Symbol
	}
	return c.Id + "CAD=X"
}

func (s *service) RoundTrip(req *http.Request) (*http.Response, error) {
	if req.Body != nil {
		req.Body.Close()
	}
	s.requests++
	isQuote := req.URL.Path == "/v7/finance/quote"
	x := QResp{Kind: "ok"}
	sym := ""
	if isQuote {
		sym = req.URL.Query().Get("symbols")
		x.Kind = "null"
		for i := range s.sc.Comms {
			if s.sc.symbol(i) == sym {
				x = s.day.Resp[i]
			}
		}
	} else {
		if s.crumbs < len(s.day.Crumb) {
			x = s.day.Crumb[s.crumbs]
		}
		s.crumbs++
	}
	s.w.Now = s.w.Now.Add(time.Duration(x.Secs)*time.Second + 50*time.Millisecond)
	resp := func(code int, body string, err error) (*http.Response, error) {
		rd := &brokenBody{strings.NewReader(body), err}
		return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{}, Body: rd, ContentLength: -1, Request: req}, nil
	}
	if x.Kind != "ok" && x.Kind != "several" {
		s.w.Injected["net:"+x.Kind]++
	}
	quote := func(price, cur string) string {
		f := []string{fmt.Sprintf(`"symbol":%q`, sym), `"quoteType":"EQUITY"`}
		if price != "" {
			f = append(f, `"regularMarketPrice":`+price)
		}
		if cur != "" {
			f = append(f, fmt.Sprintf(`"currency":%q`, cur))
		}
		return "{" + strings.Join(f, ",") + "}"
	}
	doc := func(result, err string) string {
		return `{"quoteResponse":{"result":` + result + `,"error":` + err + `}}`
	}
	switch x.Kind {
	case "refused":
		return nil, &netErr{"dial tcp: connection refused", false}
	case "timeout":
		s.w.Now = s.w.Now.Add(80 * time.Second)
		return nil, &netErr{"net/http: request canceled (Client.Timeout exceeded)", true}
	case "reset":
		return resp(200, `{"quoteResp`, errors.New("read: connection reset by peer"))
	case "401", "404", "429", "500", "503":
		var code int
		fmt.Sscan(x.Kind, &code)
		return resp(code, doc("null", `{"code":"Error","description":"no"}`), nil)
	case "html":
		return resp(200, "<html>we will be back</html>", nil)
	case "empty":
		return resp(200, "", nil)
	}
	if !isQuote {
		return resp(200, "cRuMb", nil)
	}
	q := quote(x.Price, x.Cur)
	switch x.Kind {
	case "truncated":
		d := doc("["+q+"]", "null")
		return resp(200, d[:len(d)*2/3], nil)
	case "crash-body":
		d := doc("["+q+"]", "null")
		return resp(200, d, io.ErrUnexpectedEOF)
	case "error":
		return resp(200, doc("null", `{"code":"Not Found","description":"no data"}`), nil)
	case "null":
		return resp(200, doc("null", "null"), nil)
	case "none":
		return resp(200, doc("[]", "null"), nil)
	case "nullquote":
		return resp(200, doc("[null]", "null"), nil)
	case "noprice":
		return resp(200, doc("["+quote("", x.Cur)+"]", "null"), nil)
	case "nocur":
		return resp(200, doc("["+quote(x.Price, "")+"]", "null"), nil)
	case "othercur":
		return resp(200, doc("["+quote(x.Price, "ZZZ")+"]", "null"), nil)
	case "several":
		q += "," + quote("123456", "CAD")
	}
	s.delivered[sym] = x
	return resp(200, doc("["+q+"]", "null"), nil)
}

var quoteRE = regexp.MustCompile(`^P (\d{4})/(\d\d)/(\d\d) (\w+) (-?\d+(?:\.(\d+))?) (\w+)$`)

// rounded tells whether the value is the delivered price, to the given number of decimals.
func rounded(val, price string, dec int) bool {
	v, ok1 := new(big.Rat).SetString(val)
	p, ok2 := new(big.Rat).SetString(price)
	if !ok1 || !ok2 {
		return false
	}
	d := new(big.Rat).Sub(v, p)
	d.Abs(d)
	lim := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(dec)), nil))
	lim.Quo(lim, big.NewRat(2, 1))
	lim.Add(lim, new(big.Rat).Quo(p, new(big.Rat).SetInt64(1<<51))) // numbers are transferred as binary fractions
	return d.Cmp(lim) <= 0
}

func runC14(x any, st *Stats) *Violation {
	sc := x.(*QuoteSc)
	l := &Ledger{Comms: sc.Comms}
	w := newWorld(Files{db + "/commodities.coin": l.commText(), db + "/accounts.coin": "", db + "/" + sc.File: ""}, baseTime)
	w.Zone = hourZone(sc.Zone)
	var ps []*simrt.Proc
	defer func() { st.World(w, ps, true) }()
	fail := func(sig, f string, a ...any) *Violation {
		return &Violation{Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: detail(w, ps), Sc: sc}
	}
	local := func() int64 {
		y, m, d := w.Now.In(w.Zone).Date()
		return dayOf(y, int(m), d)
	}
	want := map[string][]string{} // what the ledger has for each commodity
	for k := range sc.Days {
		q := &sc.Days[k]
		if t := time.Unix(q.Day*86400+int64(q.Sec), 0).UTC(); t.After(w.Now) {
			w.Now = t
		}
		from := local()
		s := &service{w: w, sc: sc, day: q, delivered: map[string]QResp{}}
		yCrumb = ""
		client := &http.Client{Transport: s}
		finance.SetHTTPClient(client)
		finance.SetBackend(finance.YFinBackend, finance.NewBackends(client).YFin)
		c := cmd("coin", "commodities", "-q")
		c.Cfg = simrt.Cfg{MapMode: q.Map, MapSeed: q.Seed, SliceMode: q.Slice, SliceSeed: q.Seed}
		p := w.Run(c)[0]
		ps = append(ps, p)
		to := local()
		st.Counters["requests"] += s.requests
		out := string(p.Stdout)
		lines := map[string][]string{}
		for _, ln := range strings.SplitAfter(out, "\n") {
			if ln == "" {
				continue
			}
			m := quoteRE.FindStringSubmatch(strings.TrimSuffix(ln, "\n"))
			if m == nil || !strings.HasSuffix(ln, "\n") {
				return fail("line", "day %d: %q is not a price line", k, ln)
			}
			y, _ := strconv.Atoi(m[1])
			mo, _ := strconv.Atoi(m[2])
			d, _ := strconv.Atoi(m[3])
			if day := dayOf(y, mo, d); day < from || day > to {
				return fail("date", "day %d: %q is dated outside of %s to %s", k, ln, dayText(from), dayText(to))
			}
			lines[m[4]] = append(lines[m[4]], strings.TrimSuffix(ln, "\n"))
			want[m[4]] = append(want[m[4]], fmt.Sprintf("%s/%s/%s %s %s", m[1], m[2], m[3], m[5], m[7]))
		}
		all := true
		for i, c := range sc.Comms {
			got := lines[c.Id]
			delete(lines, c.Id)
			x, ok := s.delivered[sc.symbol(i)]
			cur := l.findComm(x.Cur)
			if c.NoMarket || c.Default {
				if len(got) > 0 {
					return fail("unwanted", "day %d: %s is not on the market but %q is printed", k, c.Id, got)
				}
				continue
			}
			if !ok || cur < 0 || l.Comms[cur].Id != x.Cur {
				all = false
				st.Count("quotes not delivered")
				if len(got) > 0 {
					return fail("made up", "day %d: no quote was delivered for %s but %q is printed", k, c.Id, got)
				}
				if !strings.Contains(string(p.Stderr), c.Id) {
					return fail("silent", "day %d: the missing quote for %s is not reported (%s): %q", k, c.Id, p.How(), p.Stderr)
				}
				continue
			}
			st.Count("quotes delivered")
			if len(got) != 1 {
				return fail("lost", "day %d: %s %s was delivered for %s but %q is printed (%s %s)", k, x.Price, x.Cur, c.Id, got, p.How(), p.Stderr)
			}
			m := quoteRE.FindStringSubmatch(got[0])
			dec := l.Comms[cur].Dec
			if m[7] != x.Cur || len(m[6]) != dec || !rounded(m[5], x.Price, dec) {
				return fail("price", "day %d: %s %s was delivered for %s but %q is printed", k, x.Price, x.Cur, c.Id, got[0])
			}
		}
		if len(lines) > 0 {
			return fail("made up", "day %d: unexpected lines %v", k, lines)
		}
		if all && !p.OK() {
			return fail("fails", "day %d: all quotes were delivered: %s %s", k, p.How(), p.Stderr)
		}
		have, _ := w.FS.Read(db + "/" + sc.File)
		w.FS.Put(db+"/"+sc.File, have+out)
		w.FS.Commit()
	}
	for _, c := range sc.Comms {
		p := w.Run(cmd("coin", "commodities", c.Id))[0]
		ps = append(ps, p)
		got := strings.Split(strings.TrimSuffix(string(p.Stdout), "\n"), "\n")
		if len(p.Stdout) == 0 {
			got = nil
		}
		sort.Strings(got)
		sort.Strings(want[c.Id])
		if !p.OK() || strings.Join(got, "\n") != strings.Join(want[c.Id], "\n") {
			return fail("load", "the prices of %s were printed as %q and are loaded as %q: %s %s", c.Id, want[c.Id], got, p.How(), p.Stderr)
		}
	}
	return nil
}

func init() {
	register(&Check{
		ID: "C14", Level: "exploration", Full: true, Quick: 8000, Thor: 400000,
		Rule:   "Each scenario is a set of commodities and one to four days on which their quotes are fetched from a simulated service whose responses (delivered, refused, timed out, reset, rejected, malformed, incomplete, for an unknown currency; crumb requests likewise) and delays, across midnight, are seeded. Every delivered quote must be printed once, rounded correctly; every other must be reported; the printed lines, appended to a price file day by day, must load as they are.",
		Real:   []string{"coin commodities with the coin, check and rex packages, instrumented from the working tree", "finance-go, net/http client, encoding/json, math/big"},
		Stub:   []string{"network and quote service (HTTP transport)", "operating system: disk, clock", "map iteration order and slicing of reads (seeded)"},
		Assume: []string{"The service's prices are positive.", "Numbers are transferred as JSON numbers, precise to a 64-bit float."},
		Gen:    func(r *simrt.RNG, i int) any { return genQuotes(r) },
		New:    func() any { return &QuoteSc{} },
		Run:    runC14,
		Shrink: func(x any) (out []any) {
			sc := x.(*QuoteSc)
			add := func(f func(n *QuoteSc)) {
				n := clone(checks["C14"], sc).(*QuoteSc)
				f(n)
				out = append(out, n)
			}
			for i := range sc.Days {
				if len(sc.Days) > 1 {
					add(func(n *QuoteSc) { n.Days = append(n.Days[:i:i], n.Days[i+1:]...) })
				}
				if len(sc.Days[i].Crumb) > 0 {
					add(func(n *QuoteSc) { n.Days[i].Crumb = nil })
				}
			}
			for i, c := range sc.Comms {
				if !c.Default && len(sc.Comms) > 1 {
					add(func(n *QuoteSc) {
						n.Comms = append(n.Comms[:i:i], n.Comms[i+1:]...)
						for d := range n.Days {
							n.Days[d].Resp = append(n.Days[d].Resp[:i:i], n.Days[d].Resp[i+1:]...)
						}
					})
				}
			}
			if sc.Zone != 0 {
				add(func(n *QuoteSc) { n.Zone = 0 })
			}
			return out
		},
	})
}
