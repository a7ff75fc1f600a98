// Generated from the export list of the standard package.
package runtime

import std "runtime"

type (
	BlockProfileRecord = std.BlockProfileRecord
	Cleanup            = std.Cleanup
	Error              = std.Error
	Frame              = std.Frame
	Frames             = std.Frames
	Func               = std.Func
	MemProfileRecord   = std.MemProfileRecord
	MemStats           = std.MemStats
	PanicNilError      = std.PanicNilError
	Pinner             = std.Pinner
	StackRecord        = std.StackRecord
	TypeAssertionError = std.TypeAssertionError
)

const (
	Compiler = std.Compiler
	GOARCH   = std.GOARCH
	GOOS     = std.GOOS
)

var (
	BlockProfile            = std.BlockProfile
	Breakpoint              = std.Breakpoint
	CPUProfile              = std.CPUProfile
	Caller                  = std.Caller
	Callers                 = std.Callers
	CallersFrames           = std.CallersFrames
	FuncForPC               = std.FuncForPC
	GOROOT                  = std.GOROOT
	GoroutineProfile        = std.GoroutineProfile
	KeepAlive               = std.KeepAlive
	LockOSThread            = std.LockOSThread
	MemProfile              = std.MemProfile
	MemProfileRate          = std.MemProfileRate
	MutexProfile            = std.MutexProfile
	NumCgoCall              = std.NumCgoCall
	ReadMemStats            = std.ReadMemStats
	ReadTrace               = std.ReadTrace
	SetBlockProfileRate     = std.SetBlockProfileRate
	SetCPUProfileRate       = std.SetCPUProfileRate
	SetCgoTraceback         = std.SetCgoTraceback
	SetDefaultGOMAXPROCS    = std.SetDefaultGOMAXPROCS
	SetFinalizer            = std.SetFinalizer
	SetMutexProfileFraction = std.SetMutexProfileFraction
	Stack                   = std.Stack
	StartTrace              = std.StartTrace
	StopTrace               = std.StopTrace
	ThreadCreateProfile     = std.ThreadCreateProfile
	UnlockOSThread          = std.UnlockOSThread
	Version                 = std.Version
)
