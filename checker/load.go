package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir  = "/repo"
	modPath  string
	theProg  *ssa.Program
	theFset  *token.FileSet
	evalPkg  *ssa.Package
	modPkg   *ssa.Package
	specPkg  *ssa.Package
	repoPkgs []*packages.Package
)

func isRepoPkg(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func goEnv() []string {
	return []string{"HOME=/root", "PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on", "GOFLAGS=-mod=readonly",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build", "GOSUMDB=off", "CGO_ENABLED=0"}
}

// loadRepo type-checks /repo's current source (plus the in-memory reference
// package of /verif/spec) and builds SSA for it.
func loadRepo(specDir string) error {
	overlay := map[string][]byte{}
	patterns := []string{"./..."}
	if specDir != "" {
		fs, err := filepath.Glob(filepath.Join(specDir, "*.go"))
		if err != nil {
			return err
		}
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			overlay[filepath.Join(repoDir, "verifspec", filepath.Base(f))] = b
		}
		overlay[filepath.Join(repoDir, "verifspec", "dist_gen.go")] = distSource(filepath.Join(repoDir, "evaluation"))
		if len(fs) > 0 {
			patterns = append(patterns, "./verifspec")
		}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repoDir, Env: goEnv(), Overlay: overlay, Fset: token.NewFileSet(),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		if p.Module != nil && modPath == "" {
			modPath = p.Module.Path
		}
	}
	repoPkgs = pkgs
	theFset = cfg.Fset
	prog, ssaPkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	theProg = prog
	for i, p := range pkgs {
		switch p.PkgPath {
		case modPath + "/evaluation":
			evalPkg = ssaPkgs[i]
		case modPath + "/models":
			modPkg = ssaPkgs[i]
		case modPath + "/verifspec":
			specPkg = ssaPkgs[i]
		}
	}
	if evalPkg == nil || modPkg == nil {
		return fmt.Errorf("packages evaluation and models not found in %s", repoDir)
	}
	return nil
}

// distSource declares the reference package's score distribution with the
// layout of the repository's own (one string and the three numbers), so that
// the two can be compared; which field is which follows from the names.
func distSource(dir string) []byte {
	names := []string{"value", "confidence", "probability", "recordCount"}
	typs := []string{"string", "float64", "float64", "float64"}
	role := func(n string) string {
		l := strings.ToLower(n)
		switch {
		case strings.Contains(l, "conf"):
			return "confidence"
		case strings.Contains(l, "prob"):
			return "probability"
		case strings.Contains(l, "count") || strings.Contains(l, "record"):
			return "recordCount"
		}
		return "value"
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(files)
	for _, fn := range files {
		if strings.HasSuffix(fn, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), fn, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			st, ok := n.(*ast.StructType)
			if !ok {
				return true
			}
			var ns, ts []string
			roles := map[string]bool{}
			for _, fl := range st.Fields.List {
				id, ok := fl.Type.(*ast.Ident)
				if !ok || id.Name != "string" && id.Name != "float64" {
					return true
				}
				for _, x := range fl.Names {
					ns, ts = append(ns, x.Name), append(ts, id.Name)
					roles[role(x.Name)] = true
				}
			}
			if len(ns) == 4 && len(roles) == 4 {
				names, typs = ns, ts
			}
			return true
		})
	}
	var b strings.Builder
	b.WriteString("package verifspec\n\ntype Dist struct {\n")
	for i, n := range names {
		fmt.Fprintf(&b, "\t%s %s\n", n, typs[i])
	}
	b.WriteString("}\n\nfunc mkDist(v string, c, p, n float64) (d Dist) {\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\td.%s = %s\n", n, map[string]string{"value": "v", "confidence": "c", "probability": "p", "recordCount": "n"}[role(n)])
	}
	b.WriteString("\treturn\n}\n\n")
	for _, n := range names {
		fmt.Fprintf(&b, "func (d Dist) %s() %s { return d.%s }\n", map[string]string{"value": "Value", "confidence": "Conf", "probability": "Prob", "recordCount": "Count"}[role(n)],
			map[bool]string{true: "string", false: "float64"}[role(n) == "value"], n)
	}
	return []byte(b.String())
}

func posString(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	q := theFset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(repoDir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func modType(name string) types.Type {
	o := modPkg.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}
func evType(name string) types.Type {
	o := evalPkg.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// methodOf returns the SSA function of a method of *T or T.
func methodOf(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := theProg.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := theProg.MethodValue(ms.At(i))
				if f != nil && f.Synthetic == "" {
					return f
				}
				if o, ok := ms.At(i).Obj().(*types.Func); ok {
					if g := theProg.FuncValue(o); g != nil {
						return g
					}
				}
			}
		}
	}
	return nil
}
