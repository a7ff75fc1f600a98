package fmt

import (
	std "fmt"

	"vsim/shimsrc/shim/os"
)

func Print(a ...any) (int, error)            { return std.Fprint(os.Stdout, a...) }
func Println(a ...any) (int, error)          { return std.Fprintln(os.Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return std.Fprintf(os.Stdout, f, a...) }
func Scan(a ...any) (int, error)             { return std.Fscan(os.Stdin, a...) }
func Scanln(a ...any) (int, error)           { return std.Fscanln(os.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)  { return std.Fscanf(os.Stdin, f, a...) }
