package main

import (
	"fmt"
	"go/importer"
	"go/types"
	"os"
	"strings"
	"go/token"
)

func main() {
	path := os.Args[1]
	skip := map[string]bool{}
	for _, s := range os.Args[2:] { skip[s] = true }
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(path)
	if err != nil { panic(err) }
	var ty, co, va []string
	sc := p.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() || skip[n] { continue }
		switch o := o.(type) {
		case *types.TypeName: ty = append(ty, n)
		case *types.Const: co = append(co, n)
		case *types.Var: va = append(va, n)
		case *types.Func: va = append(va, n); _ = o
		}
	}
	w := func(kw string, ns []string) {
		if len(ns) == 0 { return }
		fmt.Printf("%s (\n", kw)
		for _, n := range ns { fmt.Printf("\t%s = std.%s\n", n, n) }
		fmt.Println(")\n")
	}
	fmt.Printf("// Generated from the export list of the standard package.\npackage %s\n\nimport std %q\n\n", path[strings.LastIndex(path,"/")+1:], path)
	w("type", ty); w("const", co); w("var", va)
}
