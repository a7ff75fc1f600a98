// Generated from the export list of the standard package.
package fmt

import std "fmt"

type (
	Formatter  = std.Formatter
	GoStringer = std.GoStringer
	ScanState  = std.ScanState
	Scanner    = std.Scanner
	State      = std.State
	Stringer   = std.Stringer
)

var (
	Append       = std.Append
	Appendf      = std.Appendf
	Appendln     = std.Appendln
	Errorf       = std.Errorf
	FormatString = std.FormatString
	Fprint       = std.Fprint
	Fprintf      = std.Fprintf
	Fprintln     = std.Fprintln
	Fscan        = std.Fscan
	Fscanf       = std.Fscanf
	Fscanln      = std.Fscanln
	Sprint       = std.Sprint
	Sprintf      = std.Sprintf
	Sprintln     = std.Sprintln
	Sscan        = std.Sscan
	Sscanf       = std.Sscanf
	Sscanln      = std.Sscanln
)
