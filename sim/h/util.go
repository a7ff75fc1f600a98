package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"vsim/simrt"
)

type Files = map[string]string

var baseTime = time.Date(2024, 5, 17, 10, 30, 0, 0, time.UTC)

const db = "/w/db"

func env() map[string]string { return map[string]string{"COINDB": db, "HOME": "/home/sim"} }

func newWorld(files Files, now time.Time) *simrt.World {
	w := simrt.NewWorld(now, nil)
	w.FS.MkdirAll(db)
	w.FS.MkdirAll("/tmp")
	for _, k := range sortedKeys(files) {
		if strings.HasSuffix(k, ".xml.gz") { // kept readable in scenarios
			w.FS.Put(k, gz(files[k]))
			continue
		}
		w.FS.Put(k, files[k])
	}
	return w
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func copyFiles(f Files) Files {
	n := Files{}
	for k, v := range f {
		n[k] = v
	}
	return n
}

func cmd(args ...string) simrt.Cmd { return simrt.Cmd{Args: args, Env: env()} }

func quote(s string) string {
	if len(s) > 1500 {
		return fmt.Sprintf("%q... (%d bytes)", s[:1500], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// detail renders the trace of an execution for the report.
func detail(w *simrt.World, ps []*simrt.Proc) (out []string) {
	for _, p := range ps {
		out = append(out, fmt.Sprintf("p%d: %s -> %s", p.ID, strings.Join(p.Cmd.Args, " "), p.How()))
	}
	ev := w.Events
	skipped := 0
	for i, e := range ev {
		if e.Err == "" && i > 25 && i < len(ev)-25 {
			skipped++
			continue
		}
		if len(out) > 150 && i < len(ev)-25 {
			skipped++
			continue
		}
		if skipped > 0 {
			out = append(out, fmt.Sprintf("... %d events", skipped))
			skipped = 0
		}
		out = append(out, e.String())
	}
	for _, p := range ps {
		if len(p.Stderr) > 0 {
			s := string(p.Stderr)
			if len(s) > 400 {
				s = s[:400]
			}
			out = append(out, fmt.Sprintf("p%d stderr: %q", p.ID, s))
		}
	}
	return out
}

// shrinkFiles proposes smaller sets of files: without a file, without a paragraph, without a line.
func shrinkFiles(f Files, keep func(string) bool) (out []Files) {
	for _, k := range sortedKeys(f) {
		if keep == nil || !keep(k) {
			n := copyFiles(f)
			delete(n, k)
			out = append(out, n)
		}
	}
	for _, k := range sortedKeys(f) {
		paras := strings.Split(f[k], "\n\n")
		if len(paras) > 3 {
			for _, half := range [][2]int{{0, len(paras) / 2}, {len(paras) / 2, len(paras)}} {
				n := copyFiles(f)
				n[k] = strings.Join(append(append([]string{}, paras[:half[0]]...), paras[half[1]:]...), "\n\n")
				out = append(out, n)
			}
		}
		if len(paras) > 1 {
			for i := range paras {
				n := copyFiles(f)
				n[k] = strings.Join(append(append([]string{}, paras[:i]...), paras[i+1:]...), "\n\n")
				out = append(out, n)
			}
		}
	}
	return out
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %q vs %q", i+1, x, y)
		}
	}
	return "equal"
}
