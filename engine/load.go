package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/CAU-CPSS/logument"
const zzPath = repoModule + "/internal/zzvf"

var repoDir = "/repo"
var verifDir = "/verif"

// Loaded is the program under analysis.
type Loaded struct {
	prog       *ssa.Program
	pkgs       []*ssa.Package
	zz         *ssa.Package
	harness    *ssa.Package
	rtErrType  types.Type
	models     map[string]*ssa.Function
	decodeRune *ssa.Function
	mcache     map[string]*ssa.Function
	overlay    map[string]string // repository path -> real file
	rtype      types.Type
	errString  types.Type
	wrapError  types.Type
	anyT       types.Type
	numberT    types.Type
	byteSlice  types.Type
	mapSA      types.Type
	sliceA     types.Type
	strT       types.Type
	f64T       types.Type
	boolT      types.Type
}

// HarnessPkg describes one harness directory of /verif/harness.
type HarnessPkg struct {
	Dir     string            // directory name under /verif/harness
	Target  string            // directory inside the repository
	Import  string            // import path
	PkgName string            // Go package name
	Prefix  string            // file-name prefix for in-package harnesses
	Imports map[string]string // import rewriting for repository files
	Rewrite []string          // repository packages (directories) whose imports are rewritten
}

// buildOverlay computes overlay files: target path -> content (and writes rewritten copies into dir).
func buildOverlay(hp *HarnessPkg, dir string) (map[string]string, error) {
	ov := map[string]string{}
	add := func(src, dst, prefix string) error {
		es, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				ov[filepath.Join(dst, prefix+e.Name())] = filepath.Join(src, e.Name())
			}
		}
		return nil
	}
	if err := add(filepath.Join(verifDir, "harness/zzvf"), filepath.Join(repoDir, "internal/zzvf"), ""); err != nil {
		return nil, err
	}
	if err := add(filepath.Join(verifDir, "harness/gen"), filepath.Join(repoDir, "internal/zzgen"), ""); err != nil {
		return nil, err
	}
	shims, _ := os.ReadDir(filepath.Join(verifDir, "harness/shim"))
	for _, s := range shims {
		if err := add(filepath.Join(verifDir, "harness/shim", s.Name()), filepath.Join(repoDir, "internal/"+s.Name()), ""); err != nil {
			return nil, err
		}
	}
	if err := add(filepath.Join(verifDir, "harness", hp.Dir), filepath.Join(repoDir, hp.Target), hp.Prefix); err != nil {
		return nil, err
	}
	for _, rp := range hp.Rewrite {
		d := filepath.Join(repoDir, rp)
		es, err := os.ReadDir(d)
		if err != nil {
			return nil, err
		}
		for _, e := range es {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			src := filepath.Join(d, e.Name())
			out, ch, err := rewriteImports(src, hp.Imports)
			if err != nil {
				return nil, err
			}
			if ch {
				dst := filepath.Join(dir, "rw", strings.ReplaceAll(rp, "/", "_"), e.Name())
				os.MkdirAll(filepath.Dir(dst), 0o755)
				if err := os.WriteFile(dst, out, 0o644); err != nil {
					return nil, err
				}
				ov[src] = dst
			}
		}
	}
	return ov, nil
}

func rewriteImports(file string, m map[string]string) ([]byte, bool, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, nil, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	ch := false
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		if r, ok := m[p]; ok {
			ch = true
			im.Path.Value = `"` + r + `"`
			if im.Name == nil {
				base := filepath.Base(p)
				if len(base) > 1 && base[0] == 'v' && strings.Trim(base[1:], "0123456789") == "" {
					base = filepath.Base(filepath.Dir(p))
				}
				im.Name = ast.NewIdent(base)
			}
		}
	}
	if !ch {
		return nil, false, nil
	}
	var b bytes.Buffer
	if err := format.Node(&b, fs, f); err != nil {
		return nil, false, err
	}
	return b.Bytes(), true, nil
}

func writeOverlayFile(ov map[string]string, path string) error {
	b, _ := json.MarshalIndent(map[string]any{"Replace": ov}, "", " ")
	return os.WriteFile(path, b, 0o644)
}

func Load(hp *HarnessPkg, ov map[string]string) (*Loaded, error) {
	content := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		content[k] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Overlay: content,
		Env:     os.Environ(),
	}
	pk, err := packages.Load(cfg, hp.Import, zzPath)
	if err != nil {
		return nil, err
	}
	var errs []string
	var all []packages.Error
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
			all = append(all, e)
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		all0 = all
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	ld := &Loaded{prog: prog, models: map[string]*ssa.Function{}, mcache: map[string]*ssa.Function{}, overlay: ov}
	for _, p := range pk {
		sp := prog.Package(p.Types)
		if p.PkgPath == zzPath {
			ld.zz = sp
		}
		if p.PkgPath == hp.Import {
			ld.harness = sp
		}
	}
	if ld.harness == nil || ld.zz == nil {
		return nil, fmt.Errorf("load: packages not found")
	}
	ld.rtErrType = ld.zz.Type("RuntimeError").Type()
	imp := func(path string) *ssa.Package { return prog.ImportedPackage(path) }
	if p := imp("unicode/utf8"); p != nil {
		ld.decodeRune = p.Func("DecodeRuneInString")
	}
	for name, f := range map[string]string{
		"strings.Index": "StringsIndex", "strings.IndexByte": "StringsIndexByte", "strings.Count": "StringsCount",
		"strings.LastIndex": "StringsLastIndex", "strings.LastIndexByte": "StringsLastIndexByte",
		"bytes.IndexByte": "BytesIndexByte", "bytes.Index": "BytesIndex", "bytes.Count": "BytesCount",
		"internal/bytealg.IndexByteString": "StringsIndexByte", "internal/bytealg.IndexByte": "BytesIndexByte",
		"internal/stringslite.Index": "StringsIndex", "internal/stringslite.IndexByte": "StringsIndexByte",
		"internal/bytealg.LastIndexByteString": "StringsLastIndexByte",
		"strings.Compare":                      "StringsCompare", "internal/bytealg.CompareString": "StringsCompare",
	} {
		if fn := ld.zz.Func(f); fn != nil {
			ld.models[name] = fn
		}
	}
	if p := imp("errors"); p != nil {
		ld.errString = types.NewPointer(p.Type("errorString").Type())
	}
	if p := imp("fmt"); p != nil {
		ld.wrapError = types.NewPointer(p.Type("wrapError").Type())
	}
	if p := imp("reflect"); p != nil {
		ld.rtype = types.NewPointer(p.Type("rtype").Type())
	}
	if p := imp("encoding/json"); p != nil {
		ld.numberT = p.Type("Number").Type()
	}
	ld.anyT = types.Universe.Lookup("any").Type()
	ld.strT = types.Typ[types.String]
	ld.f64T = types.Typ[types.Float64]
	ld.boolT = types.Typ[types.Bool]
	ld.byteSlice = types.NewSlice(types.Typ[types.Byte])
	ld.mapSA = types.NewMap(ld.strT, ld.anyT)
	ld.sliceA = types.NewSlice(ld.anyT)
	return ld, nil
}

// all0 holds the errors of the last load.
var all0 []packages.Error

// reduce takes the functions that do not compile out of the harness files, so that a changed tree that renames
// something a harness calls leaves the other harnesses working. It returns the names of the functions taken out.
func reduce(hp *HarnessPkg, ov map[string]string, dir string) []string {
	at := map[string][]packages.Error{}
	for _, e := range all0 {
		f, _, ok := strings.Cut(e.Pos, ".go:")
		if !ok {
			continue
		}
		f += ".go"
		if v := ov[f]; strings.HasPrefix(v, filepath.Join(verifDir, "harness", hp.Dir)+"/") || strings.HasPrefix(v, filepath.Join(dir, "reduced")+"/") {
			at[f] = append(at[f], e)
		}
	}
	var gone []string
	for f, es := range at {
		src, err := os.ReadFile(ov[f])
		if err != nil {
			continue
		}
		fs := token.NewFileSet()
		tree, err := parser.ParseFile(fs, f, src, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		cutName := ""
		for _, im := range tree.Imports {
			if strings.Trim(im.Path.Value, `"`) == zzPath {
				cutName = "zzvf"
				if im.Name != nil {
					cutName = im.Name.Name
				}
			}
		}
		bad := map[ast.Decl]bool{}
		ch := false
		for _, e := range es {
			var line int
			fmt.Sscanf(strings.TrimPrefix(e.Pos, f+":"), "%d", &line)
			for _, d := range tree.Decls {
				if fs.Position(d.Pos()).Line > line || fs.Position(d.End()).Line < line {
					continue
				}
				if g, is := d.(*ast.GenDecl); is && g.Tok == token.IMPORT {
					for _, sp := range g.Specs {
						if im := sp.(*ast.ImportSpec); fs.Position(im.Pos()).Line == line && strings.Contains(e.Msg, "imported and not used") {
							im.Name = ast.NewIdent("_")
							ch = true
						}
					}
					continue
				}
				if !bad[d] {
					bad[d], ch = true, true
				}
			}
		}
		var keep []ast.Decl
		for _, d := range tree.Decls {
			fn, is := d.(*ast.FuncDecl)
			switch {
			case !bad[d]:
				keep = append(keep, d)
			case !is:
				gone = append(gone, "declaration at "+fs.Position(d.Pos()).String())
			case len(fn.Name.Name) > 4 && fn.Name.Name[0] == 'C' && fn.Name.Name[3] == '_' || cutName == "":
				gone = append(gone, fn.Name.Name)
			default:
				gone = append(gone, fn.Name.Name)
				b, _ := parser.ParseExpr("func() { " + cutName + `.Cut("a helper of the harness does not fit this tree"); panic(0) }`)
				fn.Body = b.(*ast.FuncLit).Body
				keep = append(keep, fn)
			}
		}
		if !ch {
			continue
		}
		tree.Decls = keep
		tree.Comments = nil
		var b bytes.Buffer
		if err := format.Node(&b, fs, tree); err != nil {
			continue
		}
		dst := filepath.Join(dir, "reduced", fmt.Sprint(len(gone)), filepath.Base(f))
		os.MkdirAll(filepath.Dir(dst), 0o755)
		if os.WriteFile(dst, b.Bytes(), 0o644) == nil {
			ov[f] = dst
			if len(bad) == 0 {
				gone = append(gone, "")
			}
		}
	}
	sort.Strings(gone)
	return gone
}

func (ld *Loaded) model(n string) *ssa.Function {
	f := ld.zz.Func(n)
	if f == nil {
		panic("no model " + n)
	}
	return f
}

func (ld *Loaded) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := ld.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return ld.prog.MethodValue(sel)
}

// Harnesses lists the harness functions of a property.
func (ld *Loaded) Harnesses(prop string) []*ssa.Function {
	var r []*ssa.Function
	for n, mem := range ld.harness.Members {
		if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(n, prop+"_") && f.Signature.Params().Len() == 0 {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}
