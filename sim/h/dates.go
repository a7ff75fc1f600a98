package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"
	_ "time/tzdata" // the zones, wherever this runs

	"vsim/simrt"
)

// DForm is a date expression as a user writes it, and what it means.
type DForm struct {
	Kind    string // full, yy, md, year, month, off
	Y, M, D int    `json:",omitempty"`
	Off     int    `json:",omitempty"`
	Unit    string `json:",omitempty"` // of the offset; "": none
	Text    string
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// resolve lists the days the expression may denote when today is the given day; nil: left open.
func (f *DForm) resolve(today int64) (days []int64) {
	t := dayTime(today)
	ty, tm, td := t.Date()
	switch f.Kind {
	case "full":
		days = []int64{dayOf(f.Y, f.M, f.D)}
	case "yy":
		best := 1 << 30
		for c := -200; c <= 200; c += 100 {
			y := ty/100*100 + c + f.Y
			d := int(abs64(int64(y - ty)))
			if d < best {
				best, days = d, nil
			}
			if d == best {
				days = append(days, dayOf(y, f.M, f.D))
			}
		}
	case "md":
		best := int64(1) << 40
		for y := ty - 1; y <= ty+1; y++ {
			x := dayOf(y, f.M, f.D)
			d := abs64(x - today)
			if d < best {
				best, days = d, nil
			}
			if d == best {
				days = append(days, x)
			}
		}
	case "year":
		days = []int64{dayOf(f.Y, 1, 1)}
	case "month":
		days = []int64{dayOf(f.Y, f.M, 1)}
	case "off":
		days = []int64{dayOf(ty, int(tm), td)}
	}
	if f.Unit == "" {
		return days
	}
	for i, d := range days {
		b := dayTime(d)
		switch f.Unit {
		case "d":
			days[i] = d + int64(f.Off)
		case "w":
			days[i] = d + 7*int64(f.Off)
		case "m", "y":
			if b.Day() > 28 {
				return nil
			}
			n := f.Off
			if f.Unit == "y" {
				n *= 12
			}
			m := b.Year()*12 + int(b.Month()) - 1 + n
			days[i] = dayOf(m/12, m%12+1, b.Day())
		}
	}
	return days
}

func fits(days []int64, d int64) bool {
	if days == nil {
		return true
	}
	for _, x := range days {
		if x == d {
			return true
		}
	}
	return false
}

// genForm makes an expression that is interesting on the given day.
func genForm(r *simrt.RNG, today int64) DForm {
	t := dayTime(today)
	near := func() int64 {
		switch r.N(6) {
		case 0:
			return today + int64(r.In(-2, 2))
		case 1:
			return today + simrt.Pick(r, int64(1), int64(-1))*int64(r.In(178, 187))
		case 2:
			return dayOf(t.Year()+r.In(-1, 1), simrt.Pick(r, 1, 12, 2, 3, 6, 7), simrt.Pick(r, 1, 28, 30, 31, 15))
		}
		return today + int64(r.In(-400, 400))
	}
	pad := func(v int) string {
		if v < 10 && r.P(50) {
			return fmt.Sprintf("0%d", v)
		}
		return fmt.Sprint(v)
	}
	f := DForm{Kind: simrt.Pick(r, "full", "full", "yy", "yy", "md", "md", "md", "year", "month", "off", "off")}
	n := dayTime(near())
	switch f.Kind {
	case "full":
		f.Y, f.M, f.D = n.Year(), int(n.Month()), n.Day()
		if r.P(30) {
			f.Y += r.In(-300, 300)
			if f.M == 2 && f.D == 29 {
				f.D = 28
			}
		}
		f.Text = fmt.Sprintf("%04d/%s/%s", f.Y, pad(f.M), pad(f.D))
	case "yy", "md":
		f.M, f.D = int(n.Month()), n.Day()
		if f.M == 2 && f.D == 29 {
			f.D = 28
		}
		f.Text = pad(f.M) + "/" + pad(f.D)
		if f.Kind == "yy" {
			switch r.N(3) {
			case 0:
				f.Y = r.N(100)
			case 1:
				f.Y = (n.Year() + r.In(-3, 3)) % 100
			case 2:
				f.Y = (n.Year() + simrt.Pick(r, 48, 49, 50, 51, 52)) % 100
			}
			f.Text = fmt.Sprintf("%02d/", f.Y) + f.Text
		}
	case "year":
		f.Y = n.Year()
		f.Text = fmt.Sprintf("%04d", f.Y)
	case "month":
		f.Y, f.M = n.Year(), int(n.Month())
		f.Text = fmt.Sprintf("%04d/%s", f.Y, pad(f.M))
	}
	if f.Kind == "off" || r.P(20) {
		f.Unit = simrt.Pick(r, "d", "d", "w", "m", "y")
		f.Off = r.In(-40, 40)
		if r.P(20) {
			f.Off = 0
		}
		f.Text += fmt.Sprintf("%+d%s", f.Off, f.Unit)
	}
	return f
}

// genClock is an instant whose local date is likely to be at an edge.
func genClock(r *simrt.RNG) (now time.Time, zone int) {
	y := r.In(2015, 2040)
	if r.P(20) {
		y = r.In(1990, 2130)
	}
	var day int64
	switch r.N(4) {
	case 0:
		day = dayOf(y, simrt.Pick(r, 12, 1), simrt.Pick(r, 31, 1, 30, 2))
	case 1:
		day = dayOf(y, simrt.Pick(r, 2, 3, 6, 7, 8), simrt.Pick(r, 1, 28, 29, 30, 31))
	default:
		day = dayOf(y, 1, 1) + int64(r.N(365))
	}
	zone = simrt.Pick(r, 0, 0, -5, 2, 13, -11, 9) * 3600
	if r.P(10) {
		zone += 1800
	}
	if r.P(30) { // with summer time, some of them changing over at midnight
		zone = namedZone + r.N(len(zoneNames))
		if r.P(60) { // on a day of the change, or next to it
			var days []int64
			noon := func(d int64) int {
				_, o := time.Unix(d*86400+43200, 0).In(location(zone)).Zone()
				return o
			}
			for d := dayOf(y, 1, 1); d < dayOf(y+1, 1, 1); d++ {
				if noon(d) != noon(d+1) {
					days = append(days, d, d+1, d+1, d+2)
				}
			}
			if len(days) > 0 {
				day = simrt.Pick(r, days...)
			}
		}
	}
	sec := r.N(86400)
	switch r.N(4) {
	case 0:
		sec = r.N(5)
	case 1:
		sec = 86399
	}
	t := dayTime(day)
	now = time.Date(t.Year(), t.Month(), t.Day(), 0, 0, sec, r.N(1000)*1e6, location(zone)).UTC()
	if sec == 86399 && r.P(60) { // midnight passes while the command runs
		now = now.Truncate(time.Second).Add(time.Second - time.Duration(r.N(2000))*time.Microsecond)
	}
	return now, zone
}

func genJumps(r *simrt.RNG, n int) (js []simrt.Jump) {
	for i := 0; i < n; i++ {
		d := time.Duration(r.In(1, 3)) * 24 * time.Hour
		switch r.N(4) {
		case 0:
			d = time.Duration(r.N(7200)) * time.Second
		case 1:
			d = time.Duration(r.N(400*24)) * time.Hour
		}
		if r.P(40) {
			d = -d
		}
		js = append(js, simrt.Jump{At: r.N(simrt.Pick(r, 6, 20, 60)), Delta: d})
	}
	sort.SliceStable(js, func(i, j int) bool { return js[i].At < js[j].At })
	return js
}

// A zone is an offset in seconds or, from namedZone on, one of these.
const namedZone = 1000000

var zoneNames = []string{"America/New_York", "Europe/Berlin", "Asia/Beirut", "America/Havana", "Australia/Lord_Howe", "Pacific/Apia", "America/St_Johns"}
var zoneCache = map[int]*time.Location{}
var zoneLock sync.Mutex

func location(zone int) *time.Location {
	zoneLock.Lock()
	defer zoneLock.Unlock()
	l := zoneCache[zone]
	if l == nil {
		l = time.FixedZone("sim", zone)
		if zone >= namedZone {
			var err error
			if l, err = time.LoadLocation(zoneNames[zone-namedZone]); err != nil {
				panic(err)
			}
		}
		zoneCache[zone] = l
	}
	return l
}

// hourZone is a zone given in hours, or a named one.
func hourZone(z int) *time.Location {
	if z < namedZone {
		z *= 3600
	}
	return location(z)
}

func localDay(t time.Time, zone int) int64 {
	y, m, d := t.In(location(zone)).Date()
	return dayOf(y, int(m), d)
}

// runAt runs a command with the clock set; it returns the local dates the clock showed while it ran.
func runAt(w *simrt.World, now time.Time, zone int, c simrt.Cmd) (*simrt.Proc, []int64) {
	w.Now = now
	w.Zone = location(zone)
	seen := map[int64]bool{localDay(now, zone): true}
	w.Hook = func() { seen[localDay(w.Now, zone)] = true }
	t := now
	for _, j := range c.Cfg.Jumps { // also between events
		seen[localDay(t.Add(20*time.Millisecond), zone)] = true
		t = t.Add(j.Delta)
		seen[localDay(t, zone)] = true
	}
	ps := w.Run(c)
	w.Hook = nil
	var out []int64
	for d := range seen {
		out = append(out, d)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return ps[0], out
}

const twoAccounts = "account A:One\n\naccount B:Two\n\n"
const cadVTI = "commodity CAD\n  format 1.00 CAD\n  default\n\ncommodity VTI\n  format 1.000 VTI\n\n"

// DateSc is one program that resolves several dates.
type DateSc struct {
	Kind  string // file, prices, option
	Now   time.Time
	Zone  int
	Forms []DForm
	Split int // first form of the second file
	Jumps []simrt.Jump
	Sub   string // option: subcommand
}

func init() {
	register(&Check{
		ID: "C07", Level: "exploration", Full: true, Quick: 150000, Thor: 2000000,
		Rule:   "Each scenario is a clock setting (date, time of day, time zone; biased to year ends, month ends and midnight) with up to three clock jumps at seeded events of the run, and a handful of date expressions (full, two-digit year, no year, month, year, offsets) in transactions, in prices or as report options. The printed dates must be what the expressions mean for one single today that the local clock showed during the run; options must select what the absolute dates select.",
		Real:   []string{"coin format, commodities -p, register, balance, stats with the coin package, instrumented from the working tree"},
		Stub:   []string{"operating system: clock, time zone, disk, descriptors"},
		Assume: []string{"Left open, as undocumented: February 29 without a year, exact ties, month and year offsets from days after the 28th, invalid days."},
		Gen:    func(r *simrt.RNG, i int) any { return genDateSc(r) },
		New:    func() any { return &DateSc{} },
		Run:    runC07,
		Shrink: func(x any) (out []any) {
			sc := x.(*DateSc)
			for i := range sc.Jumps {
				n := *sc
				n.Jumps = append(append([]simrt.Jump{}, sc.Jumps[:i]...), sc.Jumps[i+1:]...)
				out = append(out, &n)
			}
			if sc.Kind != "option" {
				for i := range sc.Forms {
					n := *sc
					n.Forms = append(append([]DForm{}, sc.Forms[:i]...), sc.Forms[i+1:]...)
					n.Split = min(n.Split, len(n.Forms))
					out = append(out, &n)
				}
			}
			return out
		},
	})
}

func genDateSc(r *simrt.RNG) *DateSc {
	sc := &DateSc{Kind: simrt.Pick(r, "file", "file", "file", "prices", "option", "option")}
	sc.Now, sc.Zone = genClock(r)
	today := localDay(sc.Now, sc.Zone)
	n := r.In(1, 6)
	if sc.Kind == "option" {
		n = 2
		sc.Sub = simrt.Pick(r, "register", "balance", "stats")
	}
	for i := 0; i < n; i++ {
		sc.Forms = append(sc.Forms, genForm(r, today))
	}
	sc.Split = r.In(0, n)
	if r.P(60) {
		sc.Jumps = genJumps(r, r.In(1, 3))
	}
	return sc
}

func runC07(x any, st *Stats) *Violation {
	sc := x.(*DateSc)
	if len(sc.Forms) == 0 {
		return nil
	}
	files := Files{db + "/commodities.coin": cadVTI, db + "/accounts.coin": twoAccounts}
	var c simrt.Cmd
	var parts [2]strings.Builder
	switch sc.Kind {
	case "file":
		for i, f := range sc.Forms {
			k := 0
			if i >= sc.Split {
				k = 1
			}
			fmt.Fprintf(&parts[k], "%s item%d\n  A:One  %d.00 CAD\n  B:Two\n\n", f.Text, i, i+1)
		}
		files["/w/a.coin"], files["/w/b.coin"] = parts[0].String(), parts[1].String()
		c = cmd("coin", "format", "a.coin", "b.coin")
	case "prices":
		for i, f := range sc.Forms {
			k := 0
			if i >= sc.Split {
				k = 1
			}
			fmt.Fprintf(&parts[k], "P %s VTI %d.00 CAD\n", f.Text, i+1)
		}
		files[db+"/a.prices"], files[db+"/b.prices"] = parts[0].String(), parts[1].String()
		c = cmd("coin", "commodities", "-p", "VTI")
	case "option":
		var b strings.Builder
		// one transaction on every day that matters
		on := map[int64]bool{}
		today := localDay(sc.Now, sc.Zone)
		for _, f := range sc.Forms {
			for d := today - 3; d <= today+3; d++ {
				for _, x := range f.resolve(d) {
					on[x-1], on[x], on[x+1] = true, true, true
				}
			}
		}
		i := 0
		for _, d := range sortedDays(on) {
			i++
			fmt.Fprintf(&b, "%s item%d\n  A:One  %d.00 CAD\n  B:Two\n\n", dayText(d), i, i)
		}
		files[db+"/t.coin"] = b.String()
		c = sc.optionCmd(sc.Forms[0].Text, sc.Forms[1].Text)
	}
	w := newWorld(files, sc.Now)
	c.Cfg.Jumps = sc.Jumps
	p, todays := runAt(w, sc.Now, sc.Zone, c)
	st.World(w, []*simrt.Proc{p}, true)
	st.Count(sc.Kind)
	if len(todays) > 1 {
		st.Count("date changes during the run")
	}
	fail := func(sig, f string, a ...any) *Violation {
		d := detail(w, []*simrt.Proc{p})
		var ds []string
		for _, t := range todays {
			ds = append(ds, dayText(t))
		}
		d = append(d, "local dates shown by the clock: "+strings.Join(ds, " "))
		return &Violation{Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: d, Sc: sc}
	}
	if !p.OK() {
		return fail("fails", "%s fails on valid dates: %s %s", strings.Join(c.Args, " "), p.How(), p.Stderr)
	}
	out := string(p.Stdout)
	if sc.Kind == "option" {
		for _, d := range todays {
			a, b := sc.Forms[0].resolve(d), sc.Forms[1].resolve(d)
			if a == nil || b == nil {
				return nil
			}
			for _, x := range a {
				for _, y := range b {
					w2 := newWorld(files, sc.Now)
					p2, _ := runAt(w2, sc.Now, sc.Zone, sc.optionCmd(dayText(x), dayText(y)))
					st.World(w2, []*simrt.Proc{p2}, false)
					if p2.OK() && string(p2.Stdout) == out {
						return nil
					}
				}
			}
		}
		return fail("option", "%s does not select what the dates denote on the day the clock showed: %s", strings.Join(c.Args, " "), quote(out))
	}
	got := make([]int64, len(sc.Forms))
	seen := make([]bool, len(sc.Forms))
	for _, l := range strings.Split(out, "\n") {
		f := strings.Fields(l)
		i, d := -1, ""
		switch {
		case sc.Kind == "file" && len(f) == 2 && strings.HasPrefix(f[1], "item"):
			fmt.Sscanf(f[1], "item%d", &i)
			d = f[0]
		case sc.Kind == "prices" && len(f) == 3:
			fmt.Sscanf(f[1], "%d.00", &i)
			i--
			d = f[0]
		default:
			continue
		}
		t, err := time.Parse("2006/01/02", d)
		if err != nil || i < 0 || i >= len(seen) || seen[i] {
			return fail("line", "unexpected line %q", l)
		}
		seen[i], got[i] = true, t.Unix()/86400
		if t.Unix()%86400 < 0 {
			got[i]--
		}
	}
	for i := range seen {
		if !seen[i] {
			return fail("lost", "the entry dated %s is not printed", sc.Forms[i].Text)
		}
	}
	why := ""
	for _, d := range todays {
		ok := true
		for i := range sc.Forms {
			if days := sc.Forms[i].resolve(d); !fits(days, got[i]) {
				ok = false
				if why == "" {
					why = fmt.Sprintf("on %s, %s is %s, not %s", dayText(d), sc.Forms[i].Text, dayText(days[0]), dayText(got[i]))
				}
			}
		}
		if ok {
			return nil
		}
	}
	return fail("date", "dates are not resolved against one today: %s", why)
}

func (sc *DateSc) optionCmd(a, b string) simrt.Cmd {
	switch sc.Sub {
	case "register":
		return cmd("coin", "register", "-b", a, "-e", b, "A:One")
	case "balance":
		return cmd("coin", "balance", "-z", "-b", a, "-e", b)
	}
	return cmd("coin", "stats", "-b", a, "-e", b)
}

func sortedDays(m map[int64]bool) (out []int64) {
	for d := range m {
		out = append(out, d)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// ---------------------------------------------------------------------------------------------------- C08

// SettleSc is a history of entries with abbreviated dates, rewrites and clock movements.
type SettleSc struct {
	Zone  int
	Steps []SettleStep
	Seed  uint64
}

type SettleStep struct {
	Now    time.Time
	Append []DForm // entries added before the rewrite
	File   []int   // which file each goes to
	Modify bool    // rewrite with modify instead of format
	Jumps  []simrt.Jump
	Fault  *simrt.Fault
	Later  time.Time // when the files are read again
	Again  bool      // reformat at that time
}

func init() {
	register(&Check{
		ID: "C08", Level: "exploration", Full: true, Quick: 60000, Thor: 600000,
		Rule:   "Each scenario is a history of up to four rounds: entries with abbreviated, relative or full dates are appended to two files, the files are rewritten in place at some clock setting (the clock may jump meanwhile, and the rewrite may be killed or fail), the clock moves by minutes to centuries in either direction, the files are read back and reformatted. Every entry settled by a rewrite must denote, at every later reading, one of the dates it denoted while it was rewritten, always the same, and reformatting must not change a byte.",
		Real:   []string{"coin format, modify, register with the coin package, instrumented from the working tree"},
		Stub:   []string{"operating system: clock, time zone, disk, descriptors"},
		Assume: []string{"As for C07."},
		Gen:    func(r *simrt.RNG, i int) any { return genSettle(r) },
		New:    func() any { return &SettleSc{} },
		Run:    runC08,
		Shrink: func(x any) (out []any) {
			sc := x.(*SettleSc)
			for i := range sc.Steps {
				n := *sc
				n.Steps = append(append([]SettleStep{}, sc.Steps[:i]...), sc.Steps[i+1:]...)
				out = append(out, &n)
			}
			for i := range sc.Steps {
				edit := func(f func(s *SettleStep)) {
					n := *sc
					n.Steps = append([]SettleStep{}, sc.Steps...)
					f(&n.Steps[i])
					out = append(out, &n)
				}
				if sc.Steps[i].Fault != nil {
					edit(func(s *SettleStep) { s.Fault = nil })
				}
				if len(sc.Steps[i].Jumps) > 0 {
					edit(func(s *SettleStep) { s.Jumps = nil })
				}
				if len(sc.Steps[i].Append) > 0 {
					for k := range sc.Steps[i].Append {
						edit(func(s *SettleStep) {
							s.Append = append(append([]DForm{}, s.Append[:k]...), s.Append[k+1:]...)
						})
					}
				}
			}
			return out
		},
	})
}

func genSettle(r *simrt.RNG) *SettleSc {
	sc := &SettleSc{Seed: r.Uint64()}
	now, zone := genClock(r)
	sc.Zone = zone
	move := func(t time.Time) time.Time {
		var d time.Duration
		switch r.N(5) {
		case 0:
			d = time.Duration(r.N(3000)) * time.Minute
		case 1:
			d = time.Duration(r.N(400)) * 24 * time.Hour
		case 2:
			d = time.Duration(r.N(30*365)) * 24 * time.Hour
		case 3:
			d = time.Duration(r.N(90*365)) * 24 * time.Hour
		case 4:
			d = time.Duration(r.In(170, 200)) * 24 * time.Hour
		}
		if r.P(35) {
			d = -d
		}
		n := t.Add(d)
		if n.Year() < 1950 || n.Year() > 2190 {
			n = t.Add(-d)
		}
		return n
	}
	for i, k := 0, r.In(1, 4); i < k; i++ {
		s := SettleStep{Now: now, Modify: r.P(30), Again: r.P(60)}
		for j, m := 0, r.N(5); j < m; j++ {
			s.Append = append(s.Append, genForm(r, localDay(now, zone)))
			s.File = append(s.File, r.N(2))
		}
		if r.P(25) {
			s.Jumps = genJumps(r, r.In(1, 2))
		}
		if r.P(25) {
			f := simrt.Fault{At: r.N(40), Kind: simrt.Pick(r, "kill", "kill-after", "EIO", "ENOSPC")}
			s.Fault = &f
		}
		s.Later = move(now)
		sc.Steps = append(sc.Steps, s)
		now = move(s.Later)
	}
	return sc
}

func runC08(x any, st *Stats) *Violation {
	sc := x.(*SettleSc)
	names := []string{db + "/a.coin", db + "/b.coin"}
	files := Files{db + "/commodities.coin": cadVTI, db + "/accounts.coin": twoAccounts, names[0]: "", names[1]: ""}
	w := newWorld(files, baseTime)
	type entry struct {
		f       DForm
		file    int
		settled bool
		days    map[int64][]int64 // pending: today -> meaning
		day     int64
	}
	var es []*entry
	var ps []*simrt.Proc
	fail := func(sig, f string, a ...any) *Violation {
		return &Violation{Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: detail(w, ps), Sc: sc}
	}
	run := func(now time.Time, c simrt.Cmd, ff string) (*simrt.Proc, []int64) {
		p, todays := runAt(w, now, sc.Zone, c)
		ps = append(ps, p)
		return p, todays
	}
	defer func() { st.World(w, ps, true) }()
	for si := range sc.Steps {
		s := &sc.Steps[si]
		for i, f := range s.Append {
			k := s.File[i]
			t, _ := w.FS.Read(names[k])
			w.FS.Put(names[k], t+fmt.Sprintf("%s item%d\n  A:One  %d.00 CAD\n  B:Two\n\n", f.Text, len(es), len(es)+1))
			es = append(es, &entry{f: f, file: k})
		}
		old := w.FS.Tree(db)
		c := cmd("coin", "format", "-i", names[0], names[1])
		if s.Modify {
			c = cmd("coin", "modify", "-p", "item1", "-tt:", "#tag", names[0], names[1])
		}
		c.Cfg.Jumps = s.Jumps
		c.Cfg.TempSeed = sc.Seed + uint64(si)
		if s.Fault != nil {
			c.Cfg.Faults = []simrt.Fault{*s.Fault}
		}
		p, todays := run(s.Now, c, "")
		if !p.OK() && len(p.Fired) == 0 {
			return fail("fails", "%s fails: %s %s", strings.Join(c.Args[:3], " "), p.How(), p.Stderr)
		}
		if len(p.Fired) > 0 {
			st.Count("rewrites hit by a fault")
		}
		done := [2]bool{}
		for k := range names {
			t, ok := w.FS.Read(names[k])
			if !ok {
				return fail("missing", "%s is missing after the rewrite", names[k])
			}
			done[k] = p.OK() || t != old[names[k]]
		}
		// read back at a later time
		rp, _ := run(s.Later, cmd("coin", "register", "A:One"), "")
		if !rp.OK() {
			return fail("report", "the rewritten ledger cannot be read: %s %s", rp.How(), rp.Stderr)
		}
		got := map[int]int64{}
		for _, l := range strings.Split(string(rp.Stdout), "\n") {
			f := strings.Split(l, "|")
			if len(f) < 4 {
				continue
			}
			i := -1
			fmt.Sscanf(strings.TrimSpace(f[1]), "item%d", &i)
			t, err := time.Parse("2006/01/02", strings.TrimSpace(f[0]))
			if _, dup := got[i]; err != nil || i < 0 || i >= len(es) || dup {
				return fail("line", "unexpected register line %q", l)
			}
			got[i] = t.Unix() / 86400
			if t.Unix()%86400 < 0 {
				got[i]--
			}
		}
		for i, e := range es {
			g, ok := got[i]
			if !ok {
				return fail("lost", "the entry dated %s is missing from the register", e.f.Text)
			}
			if e.settled && g != e.day {
				return fail("moved", "the entry settled on %s now reads %s (clock %s)", dayText(e.day), dayText(g), s.Later)
			}
		}
		okAny := false
		why := ""
		for _, d := range todays {
			ok := true
			for i, e := range es {
				if !e.settled && done[e.file] && !fits(e.f.resolve(d), got[i]) {
					ok = false
					if why == "" {
						why = fmt.Sprintf("%s written on %s reads %s at %s", e.f.Text, dayText(d), dayText(got[i]), s.Later.Format(time.RFC3339))
					}
				}
			}
			okAny = okAny || ok
		}
		if !okAny {
			return fail("settled", "a rewritten entry does not read back with the date it denoted: %s", why)
		}
		for i, e := range es {
			if !e.settled && done[e.file] {
				e.settled, e.day = true, got[i]
				st.Count("entries settled")
			}
		}
		if s.Again && done[0] && done[1] {
			before := w.FS.Tree(db)
			c := cmd("coin", "format", "-i", names[0], names[1])
			c.Cfg.TempSeed = sc.Seed + 77
			p, _ := run(s.Later, c, "")
			if !p.OK() {
				return fail("again", "formatting again fails: %s %s", p.How(), p.Stderr)
			}
			after := w.FS.Tree(db)
			for _, n := range names {
				if before[n] != after[n] {
					return fail("unstable", "formatting again at another time changes %s: %s", n, firstDiff(before[n], after[n]))
				}
			}
		}
	}
	return nil
}
