// shimgen writes a package that forwards everything a standard package exports, except the
// names given, which the hand-written file beside it defines.
// usage: go run main.go IMPORT NAME OUT [skipped names...]
package main

import (
	"bytes"
	"fmt"
	"go/format"
	"go/importer"
	"go/token"
	"go/types"
	"os"
)

func main() {
	path, name, out := os.Args[1], os.Args[2], os.Args[3]
	skip := map[string]bool{}
	for _, s := range os.Args[4:] {
		skip[s] = true
	}
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by tools/shimgen from %s. DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", path, name, path)
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch x := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := x.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		case *types.Func:
			if x.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		}
	}
	src, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(out, src, 0o644); err != nil {
		panic(err)
	}
}
