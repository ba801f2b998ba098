package checks

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register("R04", r04)
	register("R05", r05)
}

// isBuilder: functions turning a parse-tree node into syntax tree nodes.
func isBuilder(f *ssa.Function) bool {
	p := f.Signature.Params()
	return f.Parent() == nil && p.Len() > 0 && strings.Contains(p.At(0).Type().String(), "parser.OC_")
}

// isTextHelper: a function from text to text.
func isTextHelper(f *ssa.Function) bool {
	p, r := f.Signature.Params(), f.Signature.Results()
	return f.Signature.Recv() == nil && f.Parent() == nil && p.Len() == 1 && r.Len() == 1 && isStr(p.At(0).Type()) && isStr(r.At(0).Type())
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// builders of the package, by name.
func (c *Ctx) builders() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.R.Funcs() {
		if isBuilder(f) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// isGrammarRule: a method of the generated parser that parses one rule.
func isGrammarRule(name string) bool {
	i := strings.LastIndex(name, ".")
	return strings.Contains(name, "parser.CypherParser)") && strings.HasPrefix(name[i+1:], "OC_")
}

// callees lists the static callees of a function, including its closures.
func callees(f *ssa.Function) map[*ssa.Function][]ssa.Instruction {
	out := map[*ssa.Function][]ssa.Instruction{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						out[g] = append(out[g], in)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(f)
	return out
}

// parseUsers: functions from which a rule of the generated parser is started.
func (c *Ctx) parseUsers() []*ssa.Function {
	uses := map[*ssa.Function]bool{}
	fns := c.R.Funcs()
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if uses[f] || f.Parent() != nil {
				continue
			}
			for g := range callees(f) {
				if uses[g] || isGrammarRule(g.String()) {
					uses[f] = true
					changed = true
				}
			}
		}
	}
	var out []*ssa.Function
	for f := range uses {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func exported(f *ssa.Function) bool {
	return f.Parent() == nil && token.IsExported(f.Name())
}

// recvRoot: the type name of the object whose (embedded) method is called.
func recvRoot(v *ai.V) string {
	for v != nil {
		if v.T != nil {
			t := v.T
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok && strings.HasPrefix(n.Obj().Name(), "Cypher") {
				return n.Obj().Name()
			}
		}
		if len(v.Args) == 0 {
			return ""
		}
		v = v.Args[0]
	}
	return ""
}

func r05(c *Ctx) {
	c.Rule("every entry point that starts a rule of the generated parser is followed by abstract interpretation; at the start of a rule the lexer and the parser may each report a syntax error to the listeners attached to them at that point, whose SyntaxError method is followed too; an outcome after a reported (or unlistened) error must be a definite error with no parsed query")
	c.Assumption("the generated lexer and parser report every syntax error to their listeners before the rule method returns")
	e := c.E
	n := 0
	for _, fn := range c.parseUsers() {
		if !exported(fn) {
			continue
		}
		n++
		fn := fn
		what := fnName(fn)
		for _, k := range []string{"lexer", "parser"} {
			c.Obl("syntax-error-reported", what+" ("+k+" error)")
		}
		rt := fn.Signature.Results()
		started := false
		mon := &ai.Monitor{Boundary: func(x *ai.Exec, st *ai.State, f *ssa.Function) bool {
			return f != x.Entry && (isBuilder(f) || e.IsEvaluate(f))
		}}
		mon.Ext = func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, name string) ([]*ai.State, bool) {
			last := name[strings.LastIndexAny(name, ".:")+1:]
			switch {
			case last == "AddErrorListener" && len(ci.Args) == 2:
				g := "parser"
				if strings.Contains(recvRoot(ci.Args[0]), "Lexer") {
					g = "lexer"
				}
				l := st.Ghost["listen:"+g]
				st.Ghost["listen:"+g] = e.List(l.T, append(append([]*ai.V(nil), l.Args...), e.One(ci.Args[1]))...)
				return []*ai.State{st}, true
			case last == "RemoveErrorListeners":
				g := "parser"
				if strings.Contains(recvRoot(ci.Args[0]), "Lexer") {
					g = "lexer"
				}
				st.Ghost["listen:"+g] = e.List(st.Ghost["listen:"+g].T)
				return []*ai.State{st}, true
			case last == "SetErrorHandler":
				x.Report(st, "syntax-error-reported", ci.Instr, "the parser's error strategy is replaced")
				return nil, false
			case isGrammarRule(name):
				started = true
				ret := func(s *ai.State) []*ai.State {
					r := e.Fresh(ci.Sig.Results().At(0).Type(), "tree")
					s.AssumeNil(r, false)
					return []*ai.State{x.Ret(s, ci, r)}
				}
				var out []*ai.State
				for _, g := range []string{"lexer", "parser"} {
					s := st.Clone()
					s.SetGS("syntax", g)
					s.Note("    the %s reports a syntax error", g)
					var fns []*ssa.Function
					var args [][]*ai.V
					for _, seg := range s.Ghost["listen:"+g].Args {
						l := seg.Args[0]
						k := s.KindOf(l)
						if k.Nil {
							x.Report(s, "undecided", ci.Instr, "a nil listener is attached to the %s", g)
							continue
						}
						if k.Pos == nil {
							continue
						}
						ms := e.Prog.MethodSets.MethodSet(k.Pos)
						sel := ms.Lookup(nil, "SyntaxError")
						if sel == nil {
							continue
						}
						f := e.Prog.MethodValue(sel)
						as := []*ai.V{s.Payload(l, k.Pos)}
						for i := 0; i < f.Signature.Params().Len(); i++ {
							p := e.Fresh(f.Signature.Params().At(i).Type(), "arg")
							as = append(as, p)
						}
						fns = append(fns, f)
						args = append(args, as)
					}
					out = append(out, x.PushCalls(s, ci.Instr, "syntax error", fns, args, func(x *ai.Exec, s *ai.State) []*ai.State { return ret(s) })...)
				}
				return append(out, ret(st)...), true
			}
			return nil, false
		}
		mon.OnReturn = func(x *ai.Exec, st *ai.State, res []*ai.V) {
			g := st.GS("syntax")
			if g == "" {
				return
			}
			if rt.Len() == 0 || st.IsNil(res[rt.Len()-1]) != 0 {
				x.Report(st, "syntax-error-reported", fn.Blocks[0].Instrs[0], "a syntax error of the %s may go unreported", g)
				return
			}
			if rt.Len() > 1 && ai.IsIface(res[0].T) && st.IsNil(res[0]) != 1 {
				x.Report(st, "syntax-error-reported", fn.Blocks[0].Instrs[0], "a parsed query is returned next to a syntax error of the %s", g)
			}
		}
		x := ai.NewExec(e, fn, mon)
		x.Debug = c.Debug
		st, _ := c.startMethod(x)
		for _, g := range []string{"lexer", "parser"} {
			st.Ghost["listen:"+g] = e.List(types.NewSlice(types.Universe.Lookup("any").Type()))
		}
		x.Run(st)
		c.Collect(x, what)
		if !started {
			c.Undecided(what, fn.Pos(), "no rule of the generated parser is started")
		}
		if rt.Len() == 0 || rt.At(rt.Len()-1).Type().String() != "error" {
			c.Violate("syntax-error-reported", what, fn.Pos(), "parses text but cannot return an error")
		}
	}
	if n < 2 {
		c.Undecided("entry points", token.NoPos, "found %d entry points that parse text", n)
	}
	// nothing but the parsing layer may start a rule
}

func r04(c *Ctx) {
	c.Rule("every tree builder is followed by abstract interpretation over all parse trees the grammar admits (children present or absent as in Cypher.g4, any child list): no nil dereference, failed type assertion or index out of range may be reachable, and an explicit panic must carry a value the entry points recover; every function that calls a builder defers, before the call, a function that stops such a panic and stores an error")
	c.Assumption("the generated parser builds trees that conform to Cypher.g4 when it reports no error, and neither it nor the ANTLR runtime panics")
	e := c.E
	bs := c.builders()
	if len(bs) < 40 {
		c.Undecided("builders", token.NoPos, "found only %d tree builders", len(bs))
	}
	isB := map[*ssa.Function]bool{}
	for _, b := range bs {
		isB[b] = true
	}
	// helpers on literal text are followed on their own, for any text
	seen := map[*ssa.Function]bool{}
	for _, b := range append([]*ssa.Function(nil), bs...) {
		for g := range callees(b) {
			if !seen[g] && g.Pkg == b.Pkg && isTextHelper(g) {
				seen[g] = true
				bs = append(bs, g)
			}
		}
	}
	// what panic values do the entry points recover?
	type pan struct {
		fn, what string
		at       ssa.Instruction
		val      *ai.V
	}
	var panics []pan
	for _, fn := range bs {
		fn := fn
		what := fnName(fn)
		c.Obl("no-crash", what)
		mon := &ai.Monitor{Boundary: func(x *ai.Exec, st *ai.State, f *ssa.Function) bool {
			return f != x.Entry && (isB[f] || isTextHelper(f)) || e.IsEvaluate(f)
		}}
		mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {
			if p, ok := at.(*ssa.Panic); ok {
				v := x.PanicValue(st, p)
				panics = append(panics, pan{what, w, at, v})
				return
			}
			x.Report(st, "no-crash", at, "%s", scrub(w))
		}
		mon.BoundaryCall = c.builderResult
		mon.OnReturn = func(x *ai.Exec, st *ai.State, res []*ai.V) {
			for i, r := range res {
				if isPtrOrIface(fn.Signature.Results().At(i).Type()) && st.GrammarOK() && st.IsNil(r) != 0 {
					x.Report(st, "builder-result", fn.Blocks[0].Instrs[0], "may return nil")
				}
			}
		}
		x := ai.NewExec(e, fn, mon)
		x.Debug = c.Debug
		x.MaxTime = 15 * time.Second
		st, _ := c.startMethod(x)
		x.Run(st)
		c.Collect(x, what)
	}
	// callers of builders
	n := 0
	for _, f := range c.R.Funcs() {
		if isB[f] || f.Parent() != nil {
			continue
		}
		var sites []ssa.Instruction
		for g, is := range callees(f) {
			if isB[g] {
				sites = append(sites, is...)
			}
		}
		if len(sites) == 0 {
			continue
		}
		what := fnName(f)
		n++
		c.Obl("builder-panics-recovered", what)
		var guards []*ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				d, ok := in.(*ssa.Defer)
				if !ok {
					continue
				}
				g := d.Common().StaticCallee()
				if g == nil {
					continue
				}
				dom := true
				for _, s := range sites {
					if s.Parent() != f || !(b.Dominates(s.Block()) && (b != s.Block() || before(in, s))) {
						dom = false
					}
				}
				if dom {
					guards = append(guards, g)
				}
			}
		}
		for _, p := range panics {
			ok := false
			for _, g := range guards {
				ok = ok || c.recovers(g, p.val)
			}
			if !ok {
				c.Violate("builder-panics-recovered", p.fn, ai.InstrPos(p.at), "%s does not turn the panic of this builder into an error", what)
			}
		}
	}
	for _, p := range panics {
		c.Obl("builder-panics-recovered", p.fn)
	}
	if n == 0 {
		c.Undecided("entry points", token.NoPos, "no caller of a tree builder found")
	}
	// the entry points themselves
	for _, fn := range c.parseUsers() {
		if !exported(fn) {
			continue
		}
		c.Obl("no-crash", fnName(fn))
		mon := &ai.Monitor{Boundary: func(x *ai.Exec, st *ai.State, f *ssa.Function) bool {
			return f != x.Entry && (isB[f] || e.IsEvaluate(f))
		}}
		mon.BoundaryCall = c.builderResult
		mon.Ext = func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, name string) ([]*ai.State, bool) {
			pkg := ""
			if ci.Fn != nil && ci.Fn.Pkg != nil {
				pkg = ci.Fn.Pkg.Pkg.Path()
			}
			if !strings.Contains(pkg, "antlr") && !strings.HasSuffix(pkg, "/parser") {
				return nil, false
			}
			rt := ci.Sig.Results()
			var res []*ai.V
			for i := 0; i < rt.Len(); i++ {
				r := e.Fresh(rt.At(i).Type(), "antlr")
				if isPtrOrIface(rt.At(i).Type()) {
					st.AssumeNil(r, false)
				}
				res = append(res, r)
			}
			return []*ai.State{x.Ret(st, ci, res...)}, true
		}
		mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {
			if strings.Contains(w, "embedded") {
				return
			}
			x.Report(st, "no-crash", at, "%s", scrub(w))
		}
		x := ai.NewExec(e, fn, mon)
		x.Debug = c.Debug
		st, _ := c.startMethod(x)
		x.Run(st)
		c.Collect(x, fnName(fn))
	}
}

func isPtrOrIface(t types.Type) bool {
	if ai.IsIface(t) {
		return true
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func before(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// scrub removes term names from a message, which differ between paths.
func scrub(w string) string {
	for _, s := range []string{" of ", " on "} {
		if i := strings.Index(w, s); i > 0 && !strings.Contains(w[:i], "out") {
			return w[:i]
		}
	}
	return w
}

// recovers: the deferred function stops a panic with this value and stores a
// non-nil error through one of its arguments or captured variables.
func (c *Ctx) recovers(d *ssa.Function, val *ai.V) bool {
	if len(d.Blocks) == 0 {
		return false
	}
	e := c.E
	ok, rets := true, 0
	stored := "stored"
	mon := &ai.Monitor{Recovered: val}
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		if ev.Kind == "store" && len(ev.Args) > 0 {
			v := ev.Args[len(ev.Args)-1]
			t := v.T
			if v.Op == "iface" {
				t = v.Args[0].T
			}
			if t != nil && types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) && st.IsNil(v) != 1 {
				st.SetGS(stored, "y")
			}
		}
		return nil
	}
	mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) { ok = false }
	mon.OnReturn = func(x *ai.Exec, st *ai.State, res []*ai.V) {
		rets++
		if st.GS(stored) == "" {
			ok = false
		}
	}
	x := ai.NewExec(e, d, mon)
	st, _ := c.startMethod(x)
	x.Run(st)
	return ok && rets > 0 && x.Undecided == ""
}

// builderResult: builders are analysed one by one; each returns something.
func (c *Ctx) builderResult(x *ai.Exec, st *ai.State, ci *ai.CallInfo) ([]*ai.State, bool) {
	if isTextHelper(ci.Fn) {
		return []*ai.State{x.Ret(st, ci, c.E.Mk("text", ci.Sig.Results().At(0).Type(), ci.Fn.Name(), ci.Args...))}, true
	}
	if !isBuilder(ci.Fn) {
		return nil, false
	}
	rt := ci.Sig.Results()
	var res []*ai.V
	for i := 0; i < rt.Len(); i++ {
		n := "ast"
		if rt.Len() > 1 {
			n += "#" + string(rune('0'+i))
		}
		var args []*ai.V
		for _, a := range ci.Args {
			if p := ai.ParseNode(a); p != nil {
				a = p
			}
			args = append(args, a)
		}
		r := c.E.Mk("ast", rt.At(i).Type(), ci.Fn.Name()+n[3:], args...)
		if isPtrOrIface(rt.At(i).Type()) {
			st.AssumeNil(r, false)
		}
		res = append(res, r)
	}
	return []*ai.State{x.Ret(st, ci, res...)}, true
}
