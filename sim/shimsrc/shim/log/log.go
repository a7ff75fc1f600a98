package log

import (
	"fmt"
	"io"
	"log"

	"vsim/shimsrc/shim/os"
)

type Logger = log.Logger

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

var std = log.New(io.Discard, "", 0)

func SimReset() { std = log.New(os.Stderr, "", 0) }
func New(w io.Writer, prefix string, flag int) *Logger {
	return log.New(w, prefix, flag&^(Ldate|Ltime|Lmicroseconds))
}
func Default() *Logger             { return std }
func SetOutput(w io.Writer)        { std.SetOutput(w) }
func SetPrefix(s string)           { std.SetPrefix(s) }
func SetFlags(f int)               { std.SetFlags(f &^ (Ldate | Ltime | Lmicroseconds)) }
func Flags() int                   { return std.Flags() }
func Prefix() string               { return std.Prefix() }
func Writer() io.Writer            { return std.Writer() }
func Print(a ...any)               { std.Print(a...) }
func Println(a ...any)             { std.Println(a...) }
func Printf(f string, a ...any)    { std.Printf(f, a...) }
func Fatal(a ...any)               { std.Print(a...); os.Exit(1) }
func Fatalln(a ...any)             { std.Println(a...); os.Exit(1) }
func Fatalf(f string, a ...any)    { std.Printf(f, a...); os.Exit(1) }
func Panic(a ...any)               { s := fmt.Sprint(a...); std.Print(s); panic(s) }
func Panicln(a ...any)             { s := fmt.Sprintln(a...); std.Print(s); panic(s) }
func Panicf(f string, a ...any)    { s := fmt.Sprintf(f, a...); std.Print(s); panic(s) }
func Output(d int, s string) error { return std.Output(d+1, s) }
