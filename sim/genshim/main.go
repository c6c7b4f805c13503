// Command genshim writes re-exports of everything in a standard library
// package except the names given, for the simulator's version of the package.
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"strings"
)

func main() {
	pkg, name := os.Args[1], os.Args[2]
	skip := map[string]bool{}
	for _, s := range os.Args[3:] {
		skip[s] = true
	}
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(pkg)
	if err != nil {
		panic(err)
	}
	base := pkg[strings.LastIndex(pkg, "/")+1:]
	fmt.Printf("// Code generated by genshim. DO NOT EDIT.\n\npackage %s\n\nimport %q\n\n", name, pkg)
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Printf("const %s = %s.%s\n", n, base, n)
		case *types.TypeName:
			if o.IsAlias() || true {
				fmt.Printf("type %s = %s.%s\n", n, base, n)
			}
		case *types.Var:
			fmt.Printf("var %s = %s.%s\n", n, base, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Printf("var %s = %s.%s\n", n, base, n)
		}
	}
}
