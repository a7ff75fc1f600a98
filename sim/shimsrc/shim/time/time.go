package time

import (
	std "time"

	"vsim/shimsrc/rt"
	"vsim/simrt"
)

// Local is the simulated time zone.
var Local = std.UTC

func SimReset() { Local = rt.P.W.Zone }

func Now() Time {
	if rt.P == nil {
		return Time{}
	}
	return rt.P.Clock()
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { rt.P.Sleep(d) }

// Timer and Ticker run on simulated time.
type Timer struct {
	C <-chan Time
	t *simrt.Timer
}

func (t *Timer) Stop() bool            { return t.t.Stop() }
func (t *Timer) Reset(d Duration) bool { return t.t.Reset(d) }

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	return &Timer{C: c, t: rt.P.AddTimer(d, func() { rt.Put(c, rt.P.W.Now.In(rt.P.W.Zone)) })}
}
func AfterFunc(d Duration, f func()) *Timer {
	return &Timer{t: rt.P.AddTimer(d, func() { rt.P.Spawn(f) })}
}
func After(d Duration) <-chan Time { return NewTimer(d).C }

type Ticker struct {
	C <-chan Time
	t *simrt.Timer
	d Duration
}

func (t *Ticker) Stop()            { t.t.Stop() }
func (t *Ticker) Reset(d Duration) { t.d = d; t.t.Reset(d) }

func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Ticker{C: c, d: d}
	t.t = rt.P.AddTimer(d, func() {
		rt.Put(c, rt.P.W.Now.In(rt.P.W.Zone))
		t.t.Reset(t.d)
	})
	return t
}
func Tick(d Duration) <-chan Time { return NewTicker(d).C }
