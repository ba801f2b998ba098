package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() {
	register("G01", g01)
	register("Q05", func(c *Ctx) { c.sharedWrites("a-parsed-query-keeps-no-trace") })
	register("Q06", func(c *Ctx) { c.sharedWrites("no-shared-write") })
}

// --- call graph ---------------------------------------------------------------------------

type cgEdge struct {
	to   *ssa.Function
	site ssa.Instruction
}

// CG is the call graph between the functions of the package.
type CG struct {
	out map[*ssa.Function][]cgEdge
	at  map[ssa.Instruction][]*ssa.Function
	own map[*ssa.Function]bool
	fns []*ssa.Function
}

// callGraph: variable type analysis resolves interface and function-value
// calls; a function or object handed to code outside the package counts as
// called there.
func (c *Ctx) callGraph() *CG {
	g := &CG{out: map[*ssa.Function][]cgEdge{}, at: map[ssa.Instruction][]*ssa.Function{}, own: map[*ssa.Function]bool{}}
	for f := range ssautil.AllFunctions(c.R.Prog) {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if len(f.Blocks) > 0 && root.Pkg == c.R.SSA || len(f.Blocks) > 0 && root.Pkg == nil {
			g.own[f] = true
		}
	}
	for _, f := range c.R.Funcs() {
		g.fns = append(g.fns, f)
	}
	sort.Slice(g.fns, func(i, j int) bool { return g.fns[i].String() < g.fns[j].String() })
	cg := vta.CallGraph(g.own, cha.CallGraph(c.R.Prog))
	add := func(f *ssa.Function, to *ssa.Function, site ssa.Instruction) {
		if !g.own[to] {
			return
		}
		for _, t := range g.at[site] {
			if t == to {
				return
			}
		}
		g.out[f] = append(g.out[f], cgEdge{to, site})
		g.at[site] = append(g.at[site], to)
	}
	for f, n := range cg.Nodes {
		if f == nil || !g.own[f] {
			continue
		}
		for _, e := range n.Out {
			if e.Site != nil {
				add(f, e.Callee.Func, e.Site)
			}
		}
	}
	for f := range g.own {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				ext := false
				if s := com.StaticCallee(); s != nil {
					ext = !g.own[s]
				} else if com.IsInvoke() {
					ext = len(g.at[in]) == 0
				}
				if !ext {
					continue
				}
				for _, a := range com.Args {
					for _, t := range c.funcValues(a, map[ssa.Value]bool{}) {
						add(f, t, in)
					}
					if mi, ok := a.(*ssa.MakeInterface); ok {
						if it, ok := mi.Type().Underlying().(*types.Interface); ok {
							ms := c.R.Prog.MethodSets.MethodSet(mi.X.Type())
							for i := 0; i < it.NumMethods(); i++ {
								if sel := ms.Lookup(c.R.Pkg.Types, it.Method(i).Name()); sel != nil {
									if m := c.R.Prog.MethodValue(sel); m != nil {
										add(f, m, in)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for f := range g.out {
		es := g.out[f]
		sort.SliceStable(es, func(i, j int) bool { return es[i].to.String() < es[j].to.String() })
	}
	return g
}

// funcValues: the functions a value may be, as far as it is visible locally.
func (c *Ctx) funcValues(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return c.funcValues(v.X, seen)
	case *ssa.Phi:
		var r []*ssa.Function
		for _, e := range v.Edges {
			r = append(r, c.funcValues(e, seen)...)
		}
		return r
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok {
			var r []*ssa.Function
			for _, ref := range *a.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
					r = append(r, c.funcValues(s.Val, seen)...)
				}
			}
			return r
		}
	}
	return nil
}

// implementers of an interface of the package: the methods of that name.
func (c *Ctx) implementers(iface, method string) []*ssa.Function {
	n := c.Type(iface)
	if n == nil {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		c.Undecided(iface, token.NoPos, "%s is not an interface", iface)
		return nil
	}
	var out []*ssa.Function
	sc := c.R.Pkg.Types.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if types.Implements(t, it) {
				if sel := c.R.Prog.MethodSets.MethodSet(t).Lookup(c.R.Pkg.Types, method); sel != nil {
					if f := c.R.Prog.MethodValue(sel); f != nil {
						if f.Synthetic != "" {
							// a promoted or dereferencing wrapper
							if m := c.R.Method(name, method); m != nil {
								f = m
							}
						}
						out = append(out, f)
					}
				}
				break
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// registered lists the implementations in the function table.
func (c *Ctx) registered() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, f := range ssautilInits(c.R.SSA) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !isNamed(fa.X.Type(), "Function") {
					continue
				}
				for _, t := range c.funcValues(s.Val, map[ssa.Value]bool{}) {
					if !seen[t] {
						seen[t] = true
						out = append(out, t)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// ssautilInits: the package initialiser and every init function.
func ssautilInits(p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if f, ok := p.Members[n].(*ssa.Function); ok && (n == "init" || strings.HasPrefix(n, "init#")) {
			out = append(out, f)
			out = append(out, f.AnonFuncs...)
		}
	}
	return out
}

func isNamed(t types.Type, name string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name
}

// --- G01 ------------------------------------------------------------------------------------

const lpgPath = "github.com/cloudprivacylabs/lpg"

func inLpg(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	p := ""
	if f.Pkg != nil {
		p = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		p = f.Object().Pkg().Path()
	}
	return strings.HasPrefix(p, lpgPath)
}

func isEntity(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), lpgPath) {
		return false
	}
	switch n.Obj().Name() {
	case "Graph", "Node", "Edge":
		return true
	}
	return false
}

// graphMutator: a function of the graph library that changes a graph.
func graphMutator(name string, first types.Type) bool {
	if !isEntity(first) {
		return false
	}
	for _, p := range []string{"New", "Set", "Remove", "Detach", "Add", "Copy", "Clone", "Delete", "Clear", "Apply", "Update", "Rename", "Insert", "Put"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// mutation describes the graph change of a call instruction, if it is one.
func mutation(in ssa.Instruction) string {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	com := ci.Common()
	if com.IsInvoke() {
		// an interface over entities
		m := com.Method
		if graphMutatorName(m.Name()) && m.Pkg() != nil && sigOfEntity(m) {
			return m.Name() + " through an interface"
		}
		return ""
	}
	f := com.StaticCallee()
	if f == nil || !inLpg(f) || len(com.Args) == 0 {
		return ""
	}
	for i, a := range com.Args {
		if graphMutator(f.Name(), a.Type()) && (i == 0 || f.Signature.Recv() == nil) {
			return f.Name()
		}
	}
	return ""
}

func graphMutatorName(n string) bool {
	switch n {
	case "NewNode", "NewEdge", "SetLabel", "SetLabels", "SetProperty", "RemoveProperty", "Detach", "DetachAndRemove":
		return true
	}
	return false
}

func sigOfEntity(m *types.Func) bool { return true }

func g01(c *Ctx) {
	c.Rule("on the call graph (variable type analysis; functions and objects handed to other packages count as called there) no graph-modifying call of the graph library is reachable from expression evaluation, MATCH, pattern search, functions of the table, result sets or parsing, other than through the Update and TopLevelUpdate methods of update clauses")
	c.Assumption("the exported Get*, Find*, ForEach*, Has*, Num* and iterator methods of the graph library do not modify the graph, and user-registered functions do not either")
	g := c.callGraph()
	var roots []*ssa.Function
	add := func(fs ...*ssa.Function) { roots = append(roots, fs...) }
	ev := c.implementers("Evaluatable", "Evaluate")
	rd := c.implementers("ReadingClause", "GetResults")
	reg := c.registered()
	if len(ev) < 20 || len(rd) < 1 || len(reg) < 10 {
		c.Undecided("roots", token.NoPos, "found %d evaluators, %d reading clauses and %d functions", len(ev), len(rd), len(reg))
	}
	add(ev...)
	add(rd...)
	add(reg...)
	if f := c.Method("PatternPart", "FindRelative"); f != nil {
		add(f)
	}
	for _, f := range g.fns {
		if f.Parent() == nil && f.Signature.Recv() == nil && token.IsExported(f.Name()) {
			add(f)
		}
		if f.Parent() == nil && f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), "ResultSet") {
			add(f)
		}
	}
	cut := map[*ssa.Function]bool{}
	for _, m := range []string{"Update", "TopLevelUpdate"} {
		fs := c.implementers("UpdatingClause", m)
		if len(fs) == 0 {
			c.Undecided("UpdatingClause."+m, token.NoPos, "no update clause has %s", m)
		}
		for _, f := range fs {
			cut[f] = true
		}
	}
	// is the analysis able to see the update clauses' own changes?
	reachMut := func(root *ssa.Function, stop map[*ssa.Function]bool) (path []string, at ssa.Instruction, what string, n int) {
		seen := map[*ssa.Function]bool{root: true}
		type item struct {
			f    *ssa.Function
			path []string
		}
		q := []item{{root, []string{fnName(root)}}}
		for len(q) > 0 {
			it := q[0]
			q = q[1:]
			c.Analysed[fnName(it.f)] = true
			for _, b := range it.f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						n++
						_ = ci
					}
					if m := mutation(in); m != "" && at == nil {
						path, at, what = it.path, in, m
					}
				}
			}
			for _, e := range g.out[it.f] {
				if seen[e.to] {
					continue
				}
				// an update clause reached through its interface runs only if the query has one
				if stop != nil && cut[e.to] {
					if ci, ok := e.site.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && isNamed(ci.Common().Value.Type(), "UpdatingClause") {
						continue
					}
				}
				seen[e.to] = true
				q = append(q, item{e.to, append(append([]string(nil), it.path...), fnName(e.to))})
			}
		}
		return
	}
	found := 0
	for f := range cut {
		if _, at, _, _ := reachMut(f, nil); at != nil {
			found++
		}
	}
	if found < 5 {
		c.Undecided("update clauses", token.NoPos, "the graph changes of only %d update methods were found", found)
	}
	done := map[*ssa.Function]bool{}
	for _, r := range roots {
		if done[r] || cut[r] {
			continue
		}
		done[r] = true
		c.Obl("read-only", fnName(r))
		path, at, what, n := reachMut(r, cut)
		c.Sites += n
		if at != nil {
			c.violate(Violation{Rule: "read-only", Construct: fnName(at.Parent()), Pos: c.Pos(at.Pos()),
				Msg: fmt.Sprintf("%s is reachable without an update clause", what), Trace: append([]string{"call path:"}, path...)})
		}
	}
}

// --- Q05, Q06: writes to shared state ---------------------------------------------------------

// origin of memory, seen from inside one function
type origin struct {
	kind byte // 'p' parameter, 'v' free variable, 'g' global, 'l' local allocation
	n    int
	in   ssa.Value // allocation or global
	deep bool      // memory reached through the object pointed to, not that object
}

type oset map[origin]bool

func (s oset) add(t oset) bool {
	ch := false
	for o := range t {
		if !s[o] {
			s[o] = true
			ch = true
		}
	}
	return ch
}

type wsite struct {
	at   ssa.Instruction
	what string
	typ  string // type of the memory written
}

type effSum struct {
	writes map[origin]map[wsite]bool // parameter, free variable or global
	ret    oset                      // what results may point to
	retC   oset                      // what fresh results may contain
	pts    map[ssa.Value]oset
	cont   map[ssa.Value]oset // contents of local allocations
}

type effects struct {
	c    *Ctx
	g    *CG
	sum  map[*ssa.Function]*effSum
	busy bool
}

// refs: the type can lead to shared memory
func refs(t types.Type) bool { return refs1(t, 0) }

func refs1(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	if t.String() == "error" {
		return false // errors are not written through
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refs1(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return refs1(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refs1(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

func (c *Ctx) effects() *effects {
	x := &effects{c: c, g: c.callGraph(), sum: map[*ssa.Function]*effSum{}}
	for f := range x.g.own {
		s := &effSum{writes: map[origin]map[wsite]bool{}, ret: oset{}, retC: oset{}, pts: map[ssa.Value]oset{}, cont: map[ssa.Value]oset{}}
		for i, p := range f.Params {
			s.pts[p] = oset{}
			if refs(p.Type()) {
				s.pts[p][origin{kind: 'p', n: i}] = true
			}
		}
		for i, p := range f.FreeVars {
			s.pts[p] = oset{origin{kind: 'v', n: i}: true}
		}
		x.sum[f] = s
	}
	var fs []*ssa.Function
	for f := range x.g.own {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for ch := true; ch; {
		ch = false
		for _, f := range fs {
			for x.step(f) {
				ch = true
			}
		}
	}
	return x
}

func (x *effects) val(f *ssa.Function, v ssa.Value) oset {
	s := x.sum[f]
	switch v := v.(type) {
	case *ssa.Global:
		if v.Pkg != x.c.R.SSA {
			return nil
		}
		return oset{origin{kind: 'g', in: v}: true}
	case *ssa.Const, *ssa.Builtin, *ssa.Function:
		return nil
	}
	return s.pts[v]
}

// load: what memory reachable from these origins may point to
func (x *effects) load(f *ssa.Function, from oset) oset {
	r := oset{}
	for o := range from {
		if o.kind == 'l' {
			r.add(x.sum[f].cont[o.in])
		} else {
			o.deep = true
			r[o] = true
		}
	}
	return r
}

// deep: everything reachable
func (x *effects) deep(f *ssa.Function, from oset) oset {
	r := oset{}
	r.add(from)
	for ch := true; ch; {
		ch = r.add(x.load(f, r))
	}
	return r
}

func (x *effects) write(f *ssa.Function, to oset, in ssa.Instruction, what string) bool {
	ch := false
	for o := range to {
		if o.kind != 'l' {
			ch = x.note(f, o, wsite{in, what, memType(in)}) || ch
		}
	}
	return ch
}

// memType names the type of the object an instruction writes.
func memType(in ssa.Instruction) string {
	of := func(t types.Type) string {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return u.Elem().String()
		case *types.Slice:
			return "[]" + u.Elem().String()
		}
		return t.Underlying().String()
	}
	switch in := in.(type) {
	case *ssa.Store:
		switch a := in.Addr.(type) {
		case *ssa.FieldAddr:
			return of(a.X.Type())
		case *ssa.IndexAddr:
			return of(a.X.Type())
		}
		return of(in.Addr.Type())
	case *ssa.MapUpdate:
		return of(in.Map.Type())
	case ssa.CallInstruction:
		if len(in.Common().Args) > 0 {
			return of(in.Common().Args[0].Type())
		}
	}
	return ""
}

// reachTypes: the objects that values of these types lead to. Interfaces of
// the package lead to the types implementing them, other than values.
func (c *Ctx) reachTypes(start []types.Type) map[string]bool {
	out := map[string]bool{}
	sc := c.R.Pkg.Types.Scope()
	var walk func(t types.Type)
	walk = func(t types.Type) {
		key := t.String()
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			walk(u.Elem())
			return
		case *types.Slice:
			k := "[]" + u.Elem().String()
			if !out[k] {
				out[k] = true
				walk(u.Elem())
			}
			return
		case *types.Map:
			k := u.String()
			if !out[k] {
				out[k] = true
				walk(u.Key())
				walk(u.Elem())
			}
			return
		}
		if out[key] {
			return
		}
		out[key] = true
		switch u := t.Underlying().(type) {
		case *types.Struct:
			n, ok := t.(*types.Named)
			if ok && n.Obj().Pkg() != c.R.Pkg.Types {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		case *types.Array:
			walk(u.Elem())
		case *types.Interface:
			if n, ok := t.(*types.Named); !ok || n.Obj().Pkg() != c.R.Pkg.Types {
				return
			}
			for _, name := range sc.Names() {
				tn, ok := sc.Lookup(name).(*types.TypeName)
				if !ok || types.IsInterface(tn.Type()) || isValueType(tn.Type()) {
					continue
				}
				if types.Implements(tn.Type(), u) || types.Implements(types.NewPointer(tn.Type()), u) {
					walk(tn.Type())
				}
			}
		}
	}
	for _, t := range start {
		walk(t)
	}
	return out
}

func isValueType(t types.Type) bool { return isNamed(t, "RValue") || isNamed(t, "LValue") }

func (x *effects) note(f *ssa.Function, o origin, w wsite) bool {
	s := x.sum[f]
	if s.writes[o] == nil {
		s.writes[o] = map[wsite]bool{}
	}
	if s.writes[o][w] {
		return false
	}
	s.writes[o][w] = true
	return true
}

func (x *effects) step(f *ssa.Function) bool {
	s := x.sum[f]
	ch := false
	set := func(v ssa.Value, o oset) {
		if !refs(v.Type()) {
			return
		}
		if s.pts[v] == nil {
			s.pts[v] = oset{}
		}
		if s.pts[v].add(o) {
			ch = true
		}
	}
	alloc := func(v ssa.Value, o oset) {
		set(v, oset{origin{kind: 'l', in: v}: true})
		if s.cont[v] == nil {
			s.cont[v] = oset{}
		}
		if s.cont[v].add(o) {
			ch = true
		}
	}
	put := func(p oset, v oset) {
		for o := range p {
			if o.kind == 'l' {
				if s.cont[o.in] == nil {
					s.cont[o.in] = oset{}
				}
				if s.cont[o.in].add(v) {
					ch = true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Alloc:
				alloc(in, nil)
			case *ssa.MakeMap:
				alloc(in, nil)
			case *ssa.MakeSlice:
				alloc(in, nil)
			case *ssa.MakeChan:
				alloc(in, nil)
			case *ssa.MakeClosure:
				o := oset{}
				for _, bnd := range in.Bindings {
					o.add(x.val(f, bnd))
				}
				alloc(in, o)
			case *ssa.FieldAddr:
				set(in, x.val(f, in.X))
			case *ssa.IndexAddr:
				set(in, x.val(f, in.X))
			case *ssa.Field:
				set(in, x.val(f, in.X))
			case *ssa.Index:
				set(in, x.val(f, in.X))
			case *ssa.Lookup:
				set(in, x.load(f, x.val(f, in.X)))
			case *ssa.UnOp:
				if in.Op == token.MUL {
					set(in, x.load(f, x.val(f, in.X)))
				} else if in.Op == token.ARROW {
					set(in, x.load(f, x.val(f, in.X)))
				}
			case *ssa.Slice:
				set(in, x.val(f, in.X))
			case *ssa.ChangeType:
				set(in, x.val(f, in.X))
			case *ssa.ChangeInterface:
				set(in, x.val(f, in.X))
			case *ssa.MakeInterface:
				set(in, x.val(f, in.X))
			case *ssa.TypeAssert:
				set(in, x.val(f, in.X))
			case *ssa.Convert:
				set(in, x.val(f, in.X))
			case *ssa.Phi:
				for _, e := range in.Edges {
					set(in, x.val(f, e))
				}
			case *ssa.Extract:
				set(in, x.val(f, in.Tuple))
			case *ssa.Range:
				set(in, x.val(f, in.X))
			case *ssa.Next:
				set(in, x.load(f, x.val(f, in.Iter)))
			case *ssa.Store:
				p := x.val(f, in.Addr)
				put(p, x.val(f, in.Val))
				if x.write(f, p, in, "assignment") {
					ch = true
				}
			case *ssa.MapUpdate:
				p := x.val(f, in.Map)
				put(p, x.val(f, in.Value))
				put(p, x.val(f, in.Key))
				if x.write(f, p, in, "map update") {
					ch = true
				}
			case *ssa.Send:
				put(x.val(f, in.Chan), x.val(f, in.X))
			case *ssa.Return:
				for _, r := range in.Results {
					if !refs(r.Type()) {
						continue
					}
					for o := range x.val(f, r) {
						if o.kind != 'l' {
							if !s.ret[o] {
								s.ret[o] = true
								ch = true
							}
						} else {
							for q := range x.deep(f, oset{o: true}) {
								if q.kind != 'l' && !s.retC[q] {
									s.retC[q] = true
									ch = true
								}
							}
						}
					}
				}
			case ssa.CallInstruction:
				if x.call(f, in, set, alloc, put) {
					ch = true
				}
			}
		}
	}
	return ch
}

func (x *effects) call(f *ssa.Function, in ssa.CallInstruction, set, alloc func(ssa.Value, oset), put func(p, v oset)) bool {
	com := in.Common()
	ch := false
	res, _ := in.(ssa.Value)
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			d := x.val(f, com.Args[0])
			// the result may share memory with the first argument
			full := false
			if sl, ok := com.Args[0].(*ssa.Slice); ok && sl.Max != nil {
				full = true
			}
			if !full {
				if x.write(f, d, in, "append in place") {
					ch = true
				}
			}
			items := x.load(f, x.val(f, com.Args[1]))
			put(d, items)
			if res != nil {
				set(res, d)
				o := oset{}
				o.add(items)
				o.add(x.load(f, d))
				alloc(res, o)
			}
		case "copy":
			if x.write(f, x.val(f, com.Args[0]), in, "copy") {
				ch = true
			}
			put(x.val(f, com.Args[0]), x.load(f, x.val(f, com.Args[1])))
		case "delete", "clear":
			if x.write(f, x.val(f, com.Args[0]), in, b.Name()) {
				ch = true
			}
		}
		return ch
	}
	args := com.Args
	tgt := x.g.at[in]
	if com.IsInvoke() {
		args = append([]ssa.Value{com.Value}, args...)
	}
	// does the callee list come from handing functions to external code?
	st := com.StaticCallee()
	external := st != nil && !x.g.own[st] || len(tgt) == 0
	if !external {
		for _, t := range tgt {
			ts := x.sum[t]
			bind := func(o origin) oset {
				var r oset
				switch o.kind {
				case 'p':
					if o.n < len(args) {
						r = x.val(f, args[o.n])
					}
				case 'v':
					r = x.binding(f, com.Value, t, o.n)
				case 'g':
					return oset{o: true}
				}
				if o.deep {
					return x.deep(f, x.load(f, r))
				}
				return r
			}
			for o, ws := range ts.writes {
				for w := range ws {
					for q := range bind(o) {
						if q.kind != 'l' && x.note(f, q, w) {
							ch = true
						}
					}
				}
			}
			// what it stores may flow into the arguments
			var all oset
			if len(ts.writes) > 0 {
				all = oset{}
				for _, a := range args {
					if refs(a.Type()) {
						all.add(x.val(f, a))
					}
				}
				for o := range ts.writes {
					if o.kind == 'p' && o.n < len(args) {
						put(x.val(f, args[o.n]), all)
					}
				}
			}
			if res != nil && refs(res.Type()) {
				r := oset{}
				for o := range ts.ret {
					r.add(bind(o))
				}
				set(res, r)
				cn := oset{}
				for o := range ts.retC {
					cn.add(bind(o))
				}
				alloc(res, cn)
			}
		}
		return ch
	}
	// code outside the package
	name := ""
	if st != nil {
		name = st.String()
	} else if com.IsInvoke() {
		name = com.Method.FullName()
	}
	for i, a := range args {
		if externalWrite(name, i, a.Type()) {
			t := x.val(f, a)
			if x.write(f, t, in, short(name)) {
				ch = true
			}
		}
	}
	for _, t := range tgt {
		// functions called back
		ts := x.sum[t]
		for o, ws := range ts.writes {
			var to oset
			switch o.kind {
			case 'g':
				to = oset{o: true}
			default:
				to = oset{}
				for _, a := range args {
					to.add(x.deep(f, x.val(f, a)))
				}
			}
			for w := range ws {
				for q := range to {
					if q.kind != 'l' && x.note(f, q, w) {
						ch = true
					}
				}
			}
		}
	}
	if res != nil && refs(res.Type()) {
		o := oset{}
		for _, a := range args {
			if refs(a.Type()) {
				o.add(x.val(f, a))
			}
		}
		set(res, o)
		alloc(res, o)
	}
	return ch
}

// binding: what a captured variable of a called closure points to
func (x *effects) binding(f *ssa.Function, fv ssa.Value, t *ssa.Function, n int) oset {
	if mc, ok := fv.(*ssa.MakeClosure); ok && n < len(mc.Bindings) {
		return x.val(f, mc.Bindings[n])
	}
	r := oset{}
	found := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == t && n < len(mc.Bindings) {
				r.add(x.val(f, mc.Bindings[n]))
				found = true
			}
		}
	}
	if found {
		return r
	}
	if fv == nil {
		return nil
	}
	return x.deep(f, x.val(f, fv))
}

// externalWrite: functions of other packages that write through an argument.
func externalWrite(name string, i int, t types.Type) bool {
	base := name[strings.LastIndexAny(name, ".")+1:]
	switch {
	case strings.HasPrefix(name, "sort.") && i == 0 && strings.HasPrefix(base, "S"):
		return base != "Search" && !strings.HasPrefix(base, "Search")
	case strings.HasPrefix(name, "slices.") && i == 0:
		return strings.HasPrefix(base, "Sort") || strings.HasPrefix(base, "Reverse") || strings.HasPrefix(base, "Delete") || strings.HasPrefix(base, "Insert") || strings.HasPrefix(base, "Compact")
	case strings.HasPrefix(name, "maps.") && i == 0:
		return base == "Copy" || base == "DeleteFunc"
	case strings.HasPrefix(name, "sync/atomic.") && i == 0:
		return !strings.HasPrefix(base, "Load")
	case strings.HasPrefix(name, "(*sync/atomic.") && i == 0:
		return base != "Load"
	case strings.HasPrefix(name, "(*sync.Map)") && i == 0:
		return base != "Load" && base != "Range"
	case strings.HasPrefix(name, "(*sync.Pool)") && i == 0:
		return true
	case (strings.HasPrefix(name, "(*bytes.Buffer)") || strings.HasPrefix(name, "(*strings.Builder)")) && i == 0:
		return strings.HasPrefix(base, "Write") || base == "Reset" || base == "Truncate" || base == "Grow" || strings.HasPrefix(base, "Read")
	case strings.HasPrefix(name, "(*math/rand") && i == 0:
		return true
	case strings.HasPrefix(name, "(*container/list") && i == 0:
		return strings.HasPrefix(base, "Push") || strings.HasPrefix(base, "Insert") || base == "Remove"
	}
	return false
}

func (c *Ctx) sharedWrites(rule string) {
	c.Rule("an interprocedural may-write analysis (points-to over parameters, captured variables, package variables and local allocations; call targets by variable type analysis) computes which memory every evaluation method can write; none may write memory reached from its receiver, the parsed query, or from a package variable")
	c.Assumption("values obtained from the evaluation context do not lead back into the parsed query")
	c.Assumption("functions of other packages write only their documented targets")
	x := c.effects()
	var roots []*ssa.Function
	ev := c.implementers("Evaluatable", "Evaluate")
	rd := c.implementers("ReadingClause", "GetResults")
	up := append(c.implementers("UpdatingClause", "Update"), c.implementers("UpdatingClause", "TopLevelUpdate")...)
	if len(ev) < 20 || len(rd) < 1 || len(up) < 8 {
		c.Undecided("roots", token.NoPos, "found %d evaluators, %d reading and %d update methods", len(ev), len(rd), len(up))
	}
	roots = append(append(append(roots, ev...), rd...), up...)
	if f := c.Method("PatternPart", "FindRelative"); f != nil {
		roots = append(roots, f)
	}
	funcs := c.registered()
	isReg := map[*ssa.Function]bool{}
	for _, f := range funcs {
		isReg[f] = true
	}
	roots = append(roots, funcs...)
	var rts []types.Type
	for _, r := range roots {
		if rv := r.Signature.Recv(); rv != nil && !isValueType(rv.Type()) {
			rts = append(rts, rv.Type())
		}
	}
	tree := c.reachTypes(rts)
	globals := map[ssa.Value]map[string]bool{}
	done := map[*ssa.Function]bool{}
	for _, r := range roots {
		if done[r] {
			continue
		}
		done[r] = true
		s := x.sum[r]
		if s == nil {
			c.Undecided(fnName(r), r.Pos(), "no body to analyse")
			continue
		}
		c.Obl(rule, fnName(r))
		c.Analysed[fnName(r)] = true
		for _, b := range r.Blocks {
			c.Sites += len(b.Instrs)
		}
		for o, ws := range s.writes {
			what := ""
			types1 := tree
			switch {
			case o.kind == 'g':
				what = "the package variable " + o.in.Name()
				if globals[o.in] == nil {
					globals[o.in] = c.reachTypes([]types.Type{o.in.Type()})
				}
				types1 = globals[o.in]
			case o.kind == 'p' && o.n == 0 && r.Signature.Recv() != nil:
				what = "the parsed query"
			default:
				continue
			}
			for w := range ws {
				if !types1[w.typ] {
					continue
				}
				c.Violate(rule, fnName(w.at.Parent()), w.at.Pos(), "%s writes %s", w.what, what)
			}
		}
	}
	for f := range x.g.own {
		if len(f.Blocks) > 0 && f.Parent() == nil {
			c.Analysed[fnName(f)] = true
		}
	}
}
