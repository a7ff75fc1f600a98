// Package signal: no signals arrive in the simulation (a process is killed by a fault instead).
package signal

import (
	"context"
	std "os"
)

func Notify(c chan<- std.Signal, sig ...std.Signal) {}
func Stop(c chan<- std.Signal)                      {}
func Ignore(sig ...std.Signal)                      {}
func Reset(sig ...std.Signal)                       {}
func Ignored(sig std.Signal) bool                   { return false }
func NotifyContext(parent context.Context, sig ...std.Signal) (context.Context, context.CancelFunc) {
	return context.WithCancel(parent)
}
