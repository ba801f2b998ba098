package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// --- the table of built-in functions ---------------------------------------------------------

type fnEntry struct {
	Key, Name string
	Min, Max  int64
	Func, Val *ssa.Function
	At        ssa.Instruction
}

func (f *fnEntry) impl() *ssa.Function {
	if f.Val != nil {
		return f.Val
	}
	return f.Func
}

func constInt(v *ai.V) (int64, bool) {
	if v == nil || v.Op != "const" || v.C == nil || v.C.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v.C)
}

func constStr(v *ai.V) (string, bool) {
	if v == nil || v.Op != "const" || v.C == nil || v.C.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(v.C), true
}

// isRegistry: a map from names to Function.
func isRegistry(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isNamed(m.Elem(), "Function")
}

// table runs the package initialisation abstractly and collects what it puts
// into the function table.
func (c *Ctx) table() []*fnEntry {
	init := c.R.SSA.Func("init")
	if init == nil {
		c.Undecided("init", token.NoPos, "package initialiser not found")
		return nil
	}
	var out []*fnEntry
	mon := &ai.Monitor{NoModel: map[string]bool{}}
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		if ev.Kind != "mapstore" || len(ev.Args) < 2 {
			return nil
		}
		v := ev.Args[1]
		if v.T == nil || !isNamed(v.T, "Function") {
			return nil
		}
		f := &fnEntry{At: ev.Instr}
		out = append(out, f)
		var ok bool
		bad := func(what string) {
			c.Undecided("function table", ai.InstrPos(ev.Instr), "the %s of an entry is not a constant", what)
		}
		if f.Key, ok = constStr(ev.Args[0]); !ok {
			bad("key")
		}
		if f.Name, ok = constStr(c.E.FieldByName(v, "Name")); !ok {
			bad("name")
		}
		if f.Min, ok = constInt(c.E.FieldByName(v, "MinArgs")); !ok {
			bad("minimum")
		}
		if f.Max, ok = constInt(c.E.FieldByName(v, "MaxArgs")); !ok {
			bad("maximum")
		}
		fn := func(n string) *ssa.Function {
			g := c.E.FieldByName(v, n)
			switch {
			case c.E.IsNilV(g) == c.E.Bool(true):
			case g.Op == "func", g.Op == "closure":
				if g.Fn != nil {
					return g.Fn
				}
				bad(n)
			default:
				bad(n)
			}
			return nil
		}
		f.Func, f.Val = fn("Func"), fn("ValueFunc")
		return nil
	}
	x := ai.NewExec(c.E, init, mon)
	x.Debug = c.Debug
	st := ai.NewState(c.E)
	x.Run(x.Start(st, nil))
	c.Collect(x, "package initialisation")
	return out
}

func init() {
	register("F01", f01)
	register("R03", r03)
	register("F02", f02)
}

// entries is the table without repetitions, reporting unusable entries.
func (c *Ctx) entries() []*fnEntry {
	var out []*fnEntry
	seen := map[string]bool{}
	for _, f := range c.table() {
		if f.impl() == nil || seen[f.Key] {
			continue
		}
		seen[f.Key] = true
		out = append(out, f)
	}
	if len(out) == 0 {
		c.Undecided("function table", token.NoPos, "the package initialisation registers no function")
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return out
}

// runBuiltin interprets an implementation with any admissible argument list
// with lo to hi elements (hi < 0: no upper bound).
func (c *Ctx) runBuiltin(f *fnEntry, lo, hi int64, mon *ai.Monitor) (*ai.Exec, *ai.V) {
	e := c.E
	fn := f.impl()
	x := ai.NewExec(e, fn, mon)
	x.Debug = c.Debug
	st := ai.NewState(e)
	var args []*ai.V
	var list *ai.V
	for _, p := range fn.Params {
		n := "arg:" + p.Name()
		if isCtx(p.Type()) {
			n = "ctx"
		}
		v := e.Sym(n, p.Type())
		if isCtx(p.Type()) {
			st.AssumeNil(v, false)
		}
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			list = v
		}
		args = append(args, v)
	}
	if list == nil {
		c.Undecided(fnName(fn), fn.Pos(), "the implementation takes no argument list")
		return nil, nil
	}
	st.Ghost["args"] = list
	for i := int64(0); i < 8 && (i < hi || i < f.Max); i++ {
		st.Ghost[fmt.Sprint("arg", i)] = e.Elem(list, e.Int(i), e.ValueT)
	}
	st.Assume(e.Cmp(e.Len(list), e.Int(lo), ai.GT|ai.EQ), true)
	if hi >= 0 {
		st.Assume(e.Cmp(e.Len(list), e.Int(hi), ai.LT|ai.EQ), true)
	}
	x.Run(x.Start(st, args))
	return x, list
}

func f01(c *Ctx) {
	if os.Getenv("INV") != "" {
		c.invocation()
		return
	}
	c.Rule("the package initialisation is interpreted abstractly and every entry it stores in a table of functions is compared with its key, its implementation and the other entries")
	c.Rule("every implementation is interpreted with each admissible number of arguments, with one less and with one more: it must stay within its arguments, must not handle fewer and must not read more than declared")
	c.Rule("every path of the function call evaluator that reaches an implementation must have established that the number of arguments is admissible and pass the evaluated arguments in order")
	tab := c.table()
	if len(tab) == 0 {
		c.Undecided("function table", token.NoPos, "the package initialisation registers no function")
	}
	keys := map[string]ssa.Instruction{}
	impls := map[*ssa.Function]string{}
	for _, f := range tab {
		at := ai.InstrPos(f.At)
		what := "function " + f.Key
		c.Obl("own-name", what)
		if f.Key != f.Name {
			c.Violate("own-name", what, at, "the function named %q is registered as %q", f.Name, f.Key)
		}
		c.Obl("one-implementation", what)
		switch {
		case f.Func == nil && f.Val == nil:
			c.Violate("one-implementation", what, at, "it has no implementation")
		case f.Func != nil && f.Val != nil:
			c.Violate("one-implementation", what, at, "it has two implementations")
		}
		c.Obl("argument-range", what)
		if f.Min < 0 || f.Max >= 0 && f.Max < f.Min || f.Max < -1 {
			c.Violate("argument-range", what, at, "its argument range %d to %d is empty", f.Min, f.Max)
		}
		c.Obl("registered-once", what)
		if o := keys[f.Key]; o != nil && o != f.At {
			c.Violate("registered-once", what, at, "it is registered again, replacing the one at %s", c.Pos(ai.InstrPos(o)))
		}
		keys[f.Key] = f.At
		if i := f.impl(); i != nil {
			c.Obl("distinct-implementation", what)
			if o, ok := impls[i]; ok && o != f.Key {
				c.Violate("distinct-implementation", what, at, "it shares its implementation %s with %s", fnName(i), o)
			}
			impls[i] = f.Key
		}
	}
	for _, f := range c.entries() {
		c.arity(f)
	}
	c.registerFn()
	c.invocation()
}

// arity compares the declared argument range with the implementation.
func (c *Ctx) arity(f *fnEntry) {
	fn := f.impl()
	what := "function " + f.Key
	if f.Max >= 0 && f.Max < f.Min || f.Min < 0 {
		return
	}
	argPanic := func(w string, at ssa.Instruction) bool {
		ia, ok := at.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		_, ok = ia.X.(*ssa.Parameter)
		return ok && at.Parent() == fn
	}
	c.Obl("within-arguments", what)
	mon := &ai.Monitor{OnPanic: func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {
		if argPanic(w, at) {
			x.Report(st, "within-arguments", at, "%s", fmt.Sprintf("called with an admissible number of arguments (%d to %d), it reads one it was not given", f.Min, f.Max))
		}
	}}
	if x, _ := c.runBuiltin(f, f.Min, f.Max, mon); x != nil {
		c.Collect(x, what)
	}
	// is the last argument it accepts of any use?
	if f.Max > 0 {
		c.Obl("uses-declared", what)
		used := false
		var list *ai.V
		for _, p := range fn.Params {
			if _, ok := p.Type().Underlying().(*types.Slice); ok {
				list = c.E.Sym("arg:"+p.Name(), p.Type())
			}
		}
		mon := &ai.Monitor{}
		see := func(st *ai.State, vs []*ai.V) {
			if used || list == nil {
				return
			}
			a := c.E.Elem(list, c.E.Int(f.Max-1), c.E.ValueT)
			used = inspected(st, c.E.Get(st, a))
			for _, v := range vs {
				used = used || mentions(v, a) || v == list
			}
		}
		mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
			see(st, ev.Args)
			return nil
		}
		mon.OnReturn = func(x *ai.Exec, st *ai.State, res []*ai.V) { see(st, res) }
		if x, _ := c.runBuiltin(f, f.Max, f.Max, mon); x != nil {
			c.Collect(x, what)
			if !used && x.Bounded == "" {
				c.Violate("uses-declared", what, ai.InstrPos(f.At), "it accepts %d arguments, but its implementation %s ignores the last", f.Max, fnName(fn))
			}
		}
	}
	// more than declared: does it read what can never be passed?
	if f.Max >= 0 {
		c.Obl("reads-declared", what)
		found := map[ssa.Instruction]bool{}
		var list *ai.V
		mon := &ai.Monitor{}
		mon.OnReturn = func(x *ai.Exec, st *ai.State, res []*ai.V) {
			l := c.E.Sym(list.Aux, list.T)
			i := c.E.Get(st, c.E.Elem(l, c.E.Int(f.Max), c.E.ValueT))
			if len(res) == 2 && st.IsNil(res[1]) != 0 && (inspected(st, i) || mentions(res[0], i)) {
				for in := range x.Calls {
					if in.Parent() == fn {
						found[in] = true
					}
				}
				c.Violate("reads-declared", what, ai.InstrPos(f.At), "its implementation %s uses argument %d, but at most %d can be passed", fnName(fn), f.Max+1, f.Max)
			}
		}
		for _, p := range fn.Params {
			if _, ok := p.Type().Underlying().(*types.Slice); ok {
				list = c.E.Sym("arg:"+p.Name(), p.Type())
			}
		}
		if list != nil {
			if x, _ := c.runBuiltin(f, f.Max+1, f.Max+1, mon); x != nil {
				c.Collect(x, what+" with one argument more")
			}
		}
	}
	// fewer than declared: does it handle what is rejected?
	if f.Min > 0 {
		c.Obl("needs-declared", what)
		mon := &ai.Monitor{OnReturn: func(x *ai.Exec, st *ai.State, res []*ai.V) {
			if len(res) != 2 {
				return
			}
			s := st.Clone()
			if s.AssumeNil(res[1], true) && s.AssumeNil(res[0], false) && s.IsNil(c.E.Get(s, res[0])) == 0 {
				c.Violate("needs-declared", what, ai.InstrPos(f.At), "its implementation %s handles %d arguments, but fewer than %d are rejected", fnName(fn), f.Min-1, f.Min)
			}
		}}
		if x, _ := c.runBuiltin(f, f.Min-1, f.Min-1, mon); x != nil {
			c.Collect(x, what+" with one argument less")
		}
	}
}

// inspected: the path has learnt something about v.
func inspected(st *ai.State, v *ai.V) bool {
	k := st.KindOf(v)
	return k.Nil || k.Pos != nil || k.Neg != "" || k.ImplPos != "" || k.ImplNeg != ""
}

func mentions(t, v *ai.V) bool {
	if t == v {
		return true
	}
	if t == nil {
		return false
	}
	for _, a := range t.Args {
		if mentions(a, v) {
			return true
		}
	}
	return false
}

func r03(c *Ctx) {
	c.Rule("every function the package initialisation registers is interpreted abstractly with any admissible number of arguments of any kind; a path that panics, or that ends without an error and without a value, is a violation")
	for _, f := range c.entries() {
		fn := f.impl()
		what := fnName(fn)
		c.Obl("no-panic", what)
		c.Obl("value-or-error", what)
		mon := &ai.Monitor{}
		mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {
			x.Report(st, "no-panic", at, "%s", w)
		}
		mon.OnReturn = func(x *ai.Exec, st *ai.State, res []*ai.V) {
			s := st.Clone()
			if len(res) == 2 && s.AssumeNil(res[1], true) && s.AssumeNil(res[0], true) {
				x.Report(st, "value-or-error", fn.Blocks[0].Instrs[0], "it can succeed without a value")
			}
		}
		if x, _ := c.runBuiltin(f, f.Min, f.Max, mon); x != nil {
			c.Collect(x, "function "+f.Key)
		}
	}
}

func f02(c *Ctx) {
	c.Rule("every registered function is interpreted abstractly with arguments of any kind; a path on which an argument was inspected, or used in the result, and may still be null must end with null and no error, and a function named *OrNull has no path ending with an error")
	n := 0
	for _, f := range c.entries() {
		f := f
		fn := f.impl()
		what := fnName(fn)
		orNull := strings.HasSuffix(f.Key, "OrNull")
		strict := f.Key != "range" && f.Key != "print"
		if orNull {
			n++
			c.Obl("never-fails", what)
		}
		if strict && f.Max != 0 {
			c.Obl("null-in-null-out", what)
		}
		var list *ai.V
		mon := &ai.Monitor{}
		mon.OnReturn = func(x *ai.Exec, st *ai.State, res []*ai.V) {
			if len(res) != 2 {
				return
			}
			at := fn.Blocks[0].Instrs[0]
			if orNull {
				s := st.Clone()
				if s.AssumeNil(res[1], false) {
					x.Report(s, "never-fails", at, "%s", f.Key+" can report an error")
				}
			}
			if !strict {
				return
			}
			for i := int64(0); i < f.Max; i++ {
				a := c.E.Get(st, c.E.Elem(list, c.E.Int(i), c.E.ValueT))
				if !inspected(st, a) && !mentions(res[0], a) {
					continue
				}
				s := st.Clone()
				if !s.AssumeNil(a, true) {
					continue
				}
				s.Note("argument %d is null", i+1)
				bad := s.Clone()
				if bad.AssumeNil(res[1], false) {
					x.Report(bad, "null-in-null-out", at, "%s", fmt.Sprintf("%s can fail when argument %d is null", f.Key, i+1))
				}
				if s.AssumeNil(res[1], true) && s.AssumeNil(res[0], false) && s.AssumeNil(c.E.Get(s, res[0]), false) {
					x.Report(s, "null-in-null-out", at, "%s", fmt.Sprintf("%s can give a value when argument %d is null", f.Key, i+1))
				}
			}
		}
		for _, p := range fn.Params {
			if _, ok := p.Type().Underlying().(*types.Slice); ok {
				list = c.E.Sym("arg:"+p.Name(), p.Type())
			}
		}
		if x, _ := c.runBuiltin(f, f.Min, f.Max, mon); x != nil {
			c.Collect(x, "function "+f.Key)
		}
	}
	if n == 0 {
		c.Undecided("function table", token.NoPos, "no function named *OrNull is registered")
	}
}

// registerFn: registering a function stores it under its own name.
func (c *Ctx) registerFn() {
	fn := c.Func("RegisterGlobalFunc")
	if fn == nil {
		return
	}
	what := fnName(fn)
	c.Obl("registered-by-name", what)
	stored := false
	mon := &ai.Monitor{OnEvent: func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		if ev.Kind == "mapstore" && len(ev.Args) == 2 && ev.Args[1].T != nil && isNamed(ev.Args[1].T, "Function") {
			stored = true
			if n := c.E.FieldByName(ev.Args[1], "Name"); n != ev.Args[0] {
				x.Report(st, "registered-by-name", ev.Instr, "%s", "a function is registered under a name other than its own")
			}
		}
		return nil
	}}
	x := ai.NewExec(c.E, fn, mon)
	x.Debug = c.Debug
	st, _ := c.startMethod(x)
	x.Run(st)
	c.Collect(x, what)
	if !stored {
		c.Violate("registered-by-name", what, fn.Pos(), "no function is registered")
	}
}

// invocation: the evaluator of function calls.
func (c *Ctx) invocation() {
	fn := c.Method("functionInvocation", "Evaluate")
	if fn == nil {
		return
	}
	what := fnName(fn)
	for _, r := range []string{"arity-checked", "arguments-in-order", "result-of-call", "valid-call-accepted"} {
		c.Obl(r, what)
	}
	e := c.E
	impl := func(v *ai.V) *ai.V { // the function whose implementation v is
		if v != nil && v.Op == "field" && (v.Aux == "ValueFunc" || v.Aux == "Func") && v.Args[0].T != nil && isNamed(v.Args[0].T, "Function") {
			return v.Args[0]
		}
		return nil
	}
	calls := 0
	// arity: the number of arguments is known to be admissible
	arity := func(st *ai.State) bool {
		f := st.Ghost["function"]
		if f == nil {
			return false
		}
		if st.GS("arity") != "" {
			return true
		}
		n := e.Len(c.field(st, st.Ghost["recv"], "args"))
		min, max := e.FieldByName(f, "MinArgs"), e.FieldByName(f, "MaxArgs")
		s := st.Clone()
		if s.Assume(e.Cmp(n, min, ai.LT), true) {
			return false
		}
		s = st.Clone()
		if s.Assume(e.Cmp(n, max, ai.GT), true) && s.Assume(e.Cmp(max, e.Int(-1), ai.EQ), false) {
			return false
		}
		st.SetGS("arity", "y")
		return true
	}
	mon := &ai.Monitor{Boundary: evalBoundary}
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		switch ev.Kind {
		case "eval":
			appendGhost(st, "evaluated", ev.Res[0])
		case "evalerr", "fail":
			st.SetGS("failed", "y")
		case "call":
			if ev.Name == "GetFunction" {
				st.Ghost["function"] = ev.Res[0]
			}
			f := impl(ev.Recv)
			if f == nil {
				return nil
			}
			calls++
			if st.Ghost["function"] != f {
				x.Report(st, "result-of-call", ev.Instr, "%s", "the function called is not the one looked up")
			}
			if st.GS("called") != "" {
				x.Report(st, "result-of-call", ev.Instr, "%s", "the function is called twice")
			}
			st.SetGS("called", "y")
			args := ev.Args[len(ev.Args)-1]
			if !arity(st) {
				x.Report(st, "arity-checked", ev.Instr, "%s", "the function may be called with fewer arguments than it needs or more than it accepts")
			}
			if !st.SameList(e.List(args.T, st.Segs(args)...), e.List(args.T, st.Segs(st.Ghost["evaluated"])...)) {
				x.Report(st, "arguments-in-order", ev.Instr, "%s", "the function is not called with the values of all its arguments in the order they were evaluated")
			}
			if !c.evaluatedField(st, "args") {
				x.Report(st, "arguments-in-order", ev.Instr, "%s", "the arguments evaluated are not those of the call, in the written order")
			}
			st.Ghost["result"] = ev.Res[0]
		}
		return nil
	}
	mon.OnReturn = func(x *ai.Exec, st *ai.State, res []*ai.V) {
		at := fn.Blocks[0].Instrs[0]
		switch {
		case st.GS("called") != "":
			if res[0] != st.Ghost["result"] && st.IsNil(res[1]) != 0 {
				x.Report(st, "result-of-call", at, "%s", "the result is not that of the function called")
			}
		case st.IsNil(res[1]) != 0:
			x.Report(st, "result-of-call", at, "%s", "it succeeds without having called the function")
		case st.GS("failed") == "":
			// rejected: the number of arguments must be inadmissible
			f := st.Ghost["function"]
			if f == nil {
				return
			}
			s := st.Clone()
			n := e.Len(c.field(st, st.Ghost["recv"], "args"))
			min, max := e.FieldByName(f, "MinArgs"), e.FieldByName(f, "MaxArgs")
			if !s.Assume(e.Cmp(n, min, ai.LT), false) {
				return
			}
			a, b := s.Clone(), s
			if a.Assume(e.Cmp(max, e.Int(-1), ai.EQ), true) || b.Assume(e.Cmp(n, max, ai.GT), false) {
				x.Report(st, "valid-call-accepted", at, "%s", "a call with an admissible number of arguments is rejected")
			}
		}
	}
	mon.AtMerge = func(x *ai.Exec, st *ai.State) { arity(st) }
	x := ai.NewExec(e, fn, mon)
	x.Debug = c.Debug
	x.DebugJoin = os.Getenv("DJ") != ""
	st, args := c.startMethod(x)
	st.Ghost["recv"] = args[0]
	st.Ghost["evaluated"] = e.List(types.NewSlice(e.ValueT))
	// operands evaluated
	prev := mon.OnEvent
	st.Ghost["operands"] = e.List(types.NewSlice(types.Typ[types.Int]))
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		if ev.Kind == "eval" {
			appendGhost(st, "operands", ev.Recv)
		}
		return prev(x, st, ev)
	}
	x.Run(st)
	c.Collect(x, what)
	if calls == 0 {
		c.Undecided(what, fn.Pos(), "no call of an implementation was found")
	}
}

// field reads a field of a structure or of what a pointer refers to.
func (c *Ctx) field(st *ai.State, v *ai.V, name string) *ai.V {
	if p, ok := v.T.Underlying().(*types.Pointer); ok {
		s, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return st.Load(c.E.FAddr(v, i, types.NewPointer(s.Field(i).Type())))
			}
		}
		return nil
	}
	return c.E.FieldByName(v, name)
}

// evaluatedField: the ghost list "operands" is exactly the receiver's field.
func (c *Ctx) evaluatedField(st *ai.State, field string) bool {
	p := c.field(st, st.Ghost["recv"], field)
	if p == nil {
		return false
	}
	want := c.E.List(st.Ghost["operands"].T, st.Segs(p)...)
	return st.SameList(want, st.Ghost["operands"])
}
