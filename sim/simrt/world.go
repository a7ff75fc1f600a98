// Package simrt is the simulator: a kernel (disk, clock, scheduler, faults) under which instrumented programs run as
// simulated processes.
package simrt

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Slot is one instrumented copy of the programs; it hosts one simulated process at a time.
type Slot struct {
	Bind func(*Proc)
	Cmds map[string]func()
}

var Slots []*Slot

// Fault strikes one numbered system call of a process.
type Fault struct {
	At     int    `json:"at"`               // system call number in the process
	Op     string `json:"op,omitempty"`     // only if it is this operation
	Kind   string `json:"kind"`             // errno name, "kill", "kill-mid", "kill-after", "short"
	N      int    `json:"n,omitempty"`      // bytes transferred before the fault (writes)
	Sticky bool   `json:"sticky,omitempty"` // all later calls of the same kind fail too
}

// Jump moves the wall clock at a numbered kernel event of the process.
type Jump struct {
	At    int           `json:"at"`
	Delta time.Duration `json:"delta"`
}

// Cfg is the environment of one process: everything that may differ between two executions of the same command.
type Cfg struct {
	MapMode   int     `json:"map,omitempty"` // 0 sorted, 1 reversed, 2 shuffled, 3 rotated
	MapSeed   uint64  `json:"mapseed,omitempty"`
	SliceMode int     `json:"slice,omitempty"` // 0 full reads, 1 random, 2 single bytes, 3 small
	SliceSeed uint64  `json:"sliceseed,omitempty"`
	RandSeed  uint64  `json:"rand,omitempty"`
	RandMode  int     `json:"randmode,omitempty"` // 0 uniform, 1 mostly low, 2 mostly high, 3 mixed
	FDLimit   int     `json:"fds,omitempty"`
	TempSeed  uint64  `json:"temp,omitempty"`
	Faults    []Fault `json:"faults,omitempty"`
	Jumps     []Jump  `json:"jumps,omitempty"`
}

// Cmd is a program invocation.
type Cmd struct {
	Args  []string          `json:"args"`
	Env   map[string]string `json:"env,omitempty"`
	Stdin string            `json:"stdin,omitempty"`
	Cfg   Cfg               `json:"cfg"`
}

// Event is one kernel event, the unit of schedules and traces.
type Event struct {
	Proc int
	Op   string
	Path string
	N    int
	Err  string
}

func (e Event) String() string {
	s := fmt.Sprintf("p%d %s %s", e.Proc, e.Op, e.Path)
	if e.N != 0 {
		s += fmt.Sprintf(" n=%d", e.N)
	}
	if e.Err != "" {
		s += " = " + e.Err
	}
	return s
}

// World is one simulated machine.
type World struct {
	FS     *FS
	Now    time.Time // wall clock
	Zone   *time.Location
	Mono   time.Duration // simulated time passed
	Cwd    string
	Events []Event
	Hook   func() // invariants, evaluated after every event
	procs  []*Proc

	// scheduler
	Sched   []int // explicit choices, used first
	SchedR  *RNG
	Sticky  int // percentage of keeping the current process
	Choices []int
	last    *Proc
	multi   bool
	yieldc  chan *Proc
	// fault statistics
	Injected map[string]int
}

func NewWorld(now time.Time, zone *time.Location) *World {
	if zone == nil {
		zone = time.UTC
	}
	return &World{FS: NewFS(), Now: now, Zone: zone, Cwd: "/w", Injected: map[string]int{}}
}

// Proc is a simulated process.
type Proc struct {
	W     *World
	ID    int
	Cmd   Cmd
	Slot  *Slot
	Trace []Event // own system calls

	Status int    // exit status
	Reason string // exit, panic, kill, sigpipe, hang
	Detail string // panic value
	Stdout []byte
	Stderr []byte

	dead    bool
	done    bool
	nsys    int
	nev     int
	nfds    int
	inPos   int
	resume  chan struct{}
	MapR    *RNG
	sliceR  *RNG
	RandR   *RNG
	tempR   *RNG
	sticky  map[string]string
	Fired   []Fault
	TickMax int64
	OutErr  bool // a write to stdout was hit by a fault

	// goroutines
	threads  []*thread
	cur      *thread
	mainT    *thread
	nthr     int
	thrR     *RNG
	timers   []*Timer
	reapc    chan struct{}
	Switches int
}

const defaultTicks = 10_000_000

// Run executes the commands concurrently (each in its own slot) under the seeded scheduler.
func (w *World) Run(cmds ...Cmd) []*Proc {
	if len(cmds) > len(Slots) {
		panic("not enough slots")
	}
	var ps []*Proc
	for i, c := range cmds {
		p := &Proc{W: w, ID: len(w.procs), Cmd: c, Slot: Slots[i], resume: make(chan struct{}),
			MapR: NewRNG(c.Cfg.MapSeed, "map"), sliceR: NewRNG(c.Cfg.SliceSeed, "slice"),
			RandR: NewRNG(c.Cfg.RandSeed, "rand"), tempR: NewRNG(c.Cfg.TempSeed, "temp"), sticky: map[string]string{}, TickMax: defaultTicks}
		w.procs = append(w.procs, p)
		ps = append(ps, p)
	}
	w.multi = len(ps) > 1
	w.yieldc = make(chan *Proc)
	for _, p := range ps {
		go p.main()
	}
	if !w.multi {
		p := ps[0]
		p.resume <- struct{}{}
		<-w.yieldc
	} else {
		live := append([]*Proc{}, ps...)
		for len(live) > 0 {
			p := live[w.choose(live)]
			p.resume <- struct{}{}
			<-w.yieldc
			if p.done {
				for i := range live {
					if live[i] == p {
						live = append(live[:i], live[i+1:]...)
						break
					}
				}
			}
		}
	}
	for _, p := range ps {
		p.Slot.Bind(nil)
	}
	return ps
}

func (w *World) choose(live []*Proc) int {
	if len(live) == 1 {
		return 0
	}
	c := 0
	if len(w.Choices) < len(w.Sched) {
		c = w.Sched[len(w.Choices)] % len(live)
	} else if w.SchedR != nil {
		c = w.SchedR.N(len(live))
		if w.Sticky > 0 && w.SchedR.P(w.Sticky) {
			for i, p := range live {
				if p == w.last {
					c = i
				}
			}
		}
	}
	w.Choices = append(w.Choices, c)
	w.last = live[c]
	return c
}

func (p *Proc) main() {
	<-p.resume
	p.Slot.Bind(p)
	normal := false
	defer func() {
		if e := recover(); e != nil {
			if !p.dead {
				p.panicked(e)
			}
		} else if normal && !p.dead {
			p.Status, p.Reason = 0, "exit"
		}
		p.dead = true
		p.reap()
		p.done = true
		p.W.log(p, "exit", p.Reason, p.Status, "")
		p.W.yieldc <- p
	}()
	f := p.Slot.Cmds[p.Cmd.Args[0]]
	if f == nil {
		panic("no such program " + p.Cmd.Args[0])
	}
	f()
	normal = true
}

// Unsupported is panicked by shims for calls the simulator does not model.
type Unsupported string

func (w *World) log(p *Proc, op, path string, n int, err string) {
	w.Events = append(w.Events, Event{p.ID, op, path, n, err})
	if w.Hook != nil {
		w.Hook()
	}
}

// Hash identifies the execution: every event and everything the processes printed.
func (w *World) Hash() uint64 {
	h := fnv.New64a()
	for _, e := range w.Events {
		fmt.Fprintln(h, e.String())
	}
	for _, p := range w.procs {
		h.Write(p.Stdout)
		h.Write([]byte{0})
		fmt.Fprint(h, p.Status, p.Reason)
	}
	t := w.FS.Tree("/")
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(h, "%s\x00%s\x00", k, t[k])
	}
	fmt.Fprint(h, w.Now.UnixNano())
	return h.Sum64()
}

// OpsHash identifies the interleaving only.
func (w *World) OpsHash() uint64 {
	h := fnv.New64a()
	for _, e := range w.Events {
		fmt.Fprintf(h, "%d %s %s %s\n", e.Proc, e.Op, e.Path, e.Err)
	}
	return h.Sum64()
}

// Die ends the process at once.
func (p *Proc) die(status int, reason string) {
	p.dead = true
	p.Status, p.Reason = status, reason
	runtime.Goexit()
}

// Exit is os.Exit.
func (p *Proc) Exit(code int) {
	if p.dead {
		runtime.Goexit()
	}
	p.die(code, "exit")
}

func (p *Proc) Over() {
	if p.dead {
		runtime.Goexit()
	}
	p.die(-1, "hang")
}

func (p *Proc) event() {
	w := p.W
	d := time.Duration(1+p.nev%7) * 10 * time.Microsecond
	w.Mono += d
	w.Now = w.Now.Add(d)
	for _, j := range p.Cmd.Cfg.Jumps {
		if j.At == p.nev {
			w.Now = w.Now.Add(j.Delta)
			w.Injected["clock-jump"]++
		}
	}
	p.nev++
}

// Clock is time.Now.
func (p *Proc) Clock() time.Time {
	p.event()
	return p.W.Now.In(p.W.Zone)
}

// Sleep lets simulated time pass.
func (p *Proc) Sleep(d time.Duration) {
	if len(p.threads) > 1 {
		done := false
		p.AddTimer(d, func() { done = true })
		p.Await(func() bool { return done })
	} else if d > 0 {
		p.W.Mono += d
		p.W.Now = p.W.Now.Add(d)
	}
	p.enter("sleep", "", 0)
}

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE,
	"ENFILE": syscall.ENFILE, "ENOENT": syscall.ENOENT, "EPERM": syscall.EPERM, "EROFS": syscall.EROFS,
	"EDQUOT": syscall.EDQUOT, "EBUSY": syscall.EBUSY, "EPIPE": syscall.EPIPE, "EFBIG": syscall.EFBIG,
	"ENOMEM": syscall.ENOMEM, "ESTALE": syscall.ESTALE, "ENAMETOOLONG": syscall.ENAMETOOLONG, "EXDEV": syscall.EXDEV,
	"ELOOP": syscall.ELOOP,
}

// faultKinds lists what can happen to each system call.
var faultKinds = map[string][]string{
	"open":    {"EIO", "EACCES", "EMFILE", "ENFILE", "ENOMEM", "ESTALE"},
	"create":  {"EIO", "EACCES", "EMFILE", "ENOSPC", "EROFS", "EDQUOT"},
	"read":    {"EIO", "ESTALE", "ENOMEM"},
	"write":   {"EIO", "ENOSPC", "EDQUOT", "EFBIG"},
	"close":   {"EIO", "ENOSPC", "EDQUOT"},
	"sync":    {"EIO", "ENOSPC", "EDQUOT"},
	"remove":  {"EIO", "EACCES", "EPERM", "EROFS", "EBUSY"},
	"rename":  {"EIO", "EACCES", "EPERM", "ENOSPC", "EROFS", "EBUSY"},
	"stat":    {"EIO", "EACCES", "ENOMEM", "ESTALE"},
	"readdir": {"EIO", "ESTALE", "ENOMEM"},
	"seek":    {"EIO"},
	"trunc":   {"EIO", "ENOSPC"},
	"chmod":   {"EPERM", "EIO", "EROFS"},
	"mkdir":   {"EIO", "EACCES", "ENOSPC", "EROFS"},
	"link":    {"EIO", "EPERM"},
}

// FaultKinds returns the errors that can strike the operation.
func FaultKinds(op string) []string { return faultKinds[op] }

// stickyClass: operations that keep failing together.
func stickyClass(op, kind string) string {
	switch kind {
	case "ENOSPC", "EDQUOT", "EROFS":
		switch op {
		case "write", "create", "rename", "mkdir", "trunc", "sync":
			return kind
		}
	}
	return op + kind
}

// enter is the start of every system call: a scheduling point, a clock tick, and possibly a fault.
func (p *Proc) enter(op, path string, n int) (*Fault, error) {
	if p.dead {
		return nil, syscall.EBADF
	}
	w := p.W
	if len(p.threads) > 1 {
		p.Yield()
	}
	if w.multi {
		w.yieldc <- p
		<-p.resume
	}
	idx := p.nsys
	p.nsys++
	p.event()
	p.Trace = append(p.Trace, Event{p.ID, op, path, n, ""})
	for i := range p.Cmd.Cfg.Faults {
		f := &p.Cmd.Cfg.Faults[i]
		if f.At != idx || f.Op != "" && f.Op != op {
			continue
		}
		switch f.Kind {
		case "kill":
			w.Injected["kill"]++
			p.Fired = append(p.Fired, *f)
			w.log(p, op, path, n, "killed")
			p.die(-9, "kill")
		case "kill-mid", "kill-after", "short":
			return f, nil
		default:
			ok := false
			for _, k := range faultKinds[op] {
				ok = ok || k == f.Kind
			}
			if !ok {
				continue
			}
			w.Injected[op+":"+f.Kind]++
			p.Fired = append(p.Fired, *f)
			if f.Sticky {
				p.sticky[stickyClass(op, f.Kind)] = f.Kind
			}
			return f, errnos[f.Kind]
		}
	}
	for _, k := range faultKinds[op] {
		if len(p.sticky) > 0 && p.sticky[stickyClass(op, k)] == k {
			w.Injected[op+":"+k]++
			return nil, errnos[k]
		}
	}
	return nil, nil
}

func (p *Proc) leave(f *Fault, op, path string, n int, err error) {
	if p.dead {
		return
	}
	e := ""
	if err != nil {
		e = err.Error()
	}
	p.W.log(p, op, path, n, e)
	if f != nil && (f.Kind == "kill-after" || f.Kind == "kill-mid") {
		p.W.Injected[f.Kind]++
		p.Fired = append(p.Fired, *f)
		p.die(-9, "kill")
	}
}

// OK tells whether the process ended with status 0.
func (p *Proc) OK() bool { return p.Status == 0 && p.Reason == "exit" }

func (p *Proc) How() string {
	s := fmt.Sprintf("%s(%d)", p.Reason, p.Status)
	if p.Detail != "" {
		s += " " + strings.SplitN(p.Detail, "\n", 2)[0]
	}
	return s
}

// JSON is a helper for logs.
func JSON(v any) string { b, _ := json.Marshal(v); return string(b) }
