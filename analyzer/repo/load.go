// Package repo loads and type-checks the repository under analysis and
// lowers it to SSA form.
package repo

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Repo struct {
	Dir  string
	Pkg  *packages.Package
	Prog *ssa.Program
	SSA  *ssa.Package
	Info *types.Info
}

const Path = "github.com/cloudprivacylabs/opencypher"

// Load type-checks the package in dir; any error is fatal to the analysis.
func Load(dir string) (*Repo, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule,
		Dir: dir,
		Env: env,
	}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("expected one package in %s, found %d", dir, len(ps))
	}
	p := ps[0]
	if len(p.Errors) > 0 {
		return nil, fmt.Errorf("%s does not type-check: %v", dir, p.Errors[0])
	}
	if p.PkgPath != Path {
		return nil, fmt.Errorf("unexpected package %s", p.PkgPath)
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	if sp[0] == nil {
		return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
	}
	prog.Build()
	return &Repo{Dir: dir, Pkg: p, Prog: prog, SSA: sp[0], Info: p.TypesInfo}, nil
}

// Rel renders a file name relative to the repository.
func (r *Repo) Rel(f string) string {
	if s, err := filepath.Rel(r.Dir, f); err == nil && !strings.HasPrefix(s, "..") {
		return s
	}
	return f
}

// Func finds a package-level function; nil if there is none.
func (r *Repo) Func(name string) *ssa.Function { return r.SSA.Func(name) }

// Type finds a named type.
func (r *Repo) Type(name string) *types.Named {
	o, ok := r.Pkg.Types.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Method finds a method of T or *T.
func (r *Repo) Method(typ, name string) *ssa.Function {
	n := r.Type(typ)
	if n == nil {
		return nil
	}
	for _, t := range []types.Type{n, types.NewPointer(n)} {
		ms := r.Prog.MethodSets.MethodSet(t)
		if sel := ms.Lookup(r.Pkg.Types, name); sel != nil {
			if f := r.Prog.MethodValue(sel); f != nil && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}

// Funcs lists every function of the package, including methods and closures.
func (r *Repo) Funcs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(r.Prog) {
		if len(f.Blocks) == 0 {
			continue
		}
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg == r.SSA && root.Synthetic == "" {
			out = append(out, f)
		}
	}
	return out
}

// FileOf finds the syntax of a file.
func (r *Repo) FileOf(n ast.Node) string {
	return r.Rel(r.Pkg.Fset.Position(n.Pos()).Filename)
}
