package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() { register("Q09", q09) }

// Q09: histories of definitions in nested contexts, with all names unknown,
// are followed through the code of the context; a look-up must agree with the
// plain meaning of nesting.

// scopeParent: which context each context is nested in; the last two are
// siblings.
var scopeParent = []int{-1, 0, 1, 1}

// scopeSteps is the number of operations of a history.
const scopeSteps = 3

// scopeStep is one operation of a history, with a name of its own.
type scopeStep struct {
	op  string // new, sub, set, remove
	ctx int
}

type scopeKind struct {
	what             string
	set, get, remove string
	many             bool // set takes a map
}

// scopeHistories are all sequences of operations, on contexts which are all
// made at the start or as late as possible.
func scopeHistories(remove bool) [][]scopeStep {
	var out [][]scopeStep
	var walk func(h []scopeStep, n int, made int, late bool)
	walk = func(h []scopeStep, n, made int, late bool) {
		if n == 0 {
			for ; made < len(scopeParent); made++ {
				h = append(h, scopeStep{"sub", made})
			}
			out = append(out, h)
			return
		}
		for c := range scopeParent {
			for _, op := range []string{"set", "remove"} {
				if op == "remove" && !remove {
					continue
				}
				k, m := append([]scopeStep(nil), h...), made
				for ; m <= c || !late && m < len(scopeParent); m++ {
					k = append(k, scopeStep{"sub", m})
				}
				walk(append(k, scopeStep{op, c}), n-1, m, late)
			}
		}
	}
	for _, late := range []bool{false, true} {
		walk([]scopeStep{{"new", 0}}, scopeSteps, 1, late)
	}
	return out
}

var scopeKinds = []scopeKind{
	{what: "parameter", set: "SetParameter", get: "GetParameter"},
	{what: "variable", set: "SetVar", get: "GetVar", remove: "RemoveVar"},
	{what: "variable of a row", set: "SetVars", get: "GetVar", many: true},
}

func q09(c *Ctx) {
	c.Rule("every history of %d definitions and removals in %d nested contexts, with every name and value unknown, is followed through the methods of EvalContext; what a look-up at any level gives must be the innermost definition of an equal name around that level, or an error whose text holds the name", scopeSteps, len(scopeParent))
	for _, k := range scopeKinds {
		for _, h := range scopeHistories(k.remove != "") {
			c.scopeHistory(k, h)
		}
	}
	c.scopeFunctions()
}

func (c *Ctx) noCtxModels() map[string]bool {
	m := map[string]bool{}
	P := "(*" + c.E.Pkg.Pkg.Path() + ".EvalContext)."
	for _, n := range []string{"GetParameter", "GetVar", "SetVars", "GetFunction", "getFunction"} {
		m[P+n] = true
	}
	return m
}

// sameValue: the value of a variable without its mark of being constant.
func (c *Ctx) sameValue(st *ai.State, a, b *ai.V) bool {
	if a == b {
		return true
	}
	k := st.KindOf(b)
	if k.Pos == nil {
		return false
	}
	v := c.E.FieldByName(st.Payload(b, k.Pos), "Value")
	return v != nil && c.E.Get(st, a) == v
}

func (k scopeKind) text(h []scopeStep) string {
	s := k.what + ":"
	for i, o := range h {
		switch o.op {
		case "set":
			s += fmt.Sprintf(" set(%d)@%d", i, o.ctx)
		case "remove":
			s += fmt.Sprintf(" remove(%d)@%d", i, o.ctx)
		case "sub":
			s += fmt.Sprintf(" nest(%d in %d)", o.ctx, scopeParent[o.ctx])
		}
	}
	return s
}

func (c *Ctx) scopeHistory(k scopeKind, h []scopeStep) {
	e := c.E
	mk := c.Func("NewEvalContext")
	sub, set, get := c.Method("EvalContext", "SubContext"), c.Method("EvalContext", k.set), c.Method("EvalContext", k.get)
	if mk == nil || sub == nil || set == nil || get == nil {
		return
	}
	var rm *ssa.Function
	if k.remove != "" {
		if rm = c.Method("EvalContext", k.remove); rm == nil {
			return
		}
	}
	what := k.text(h)
	c.Obl("innermost", what)
	str := types.Typ[types.String]
	asked := e.Sym("asked", str)
	val := func(i int) *ai.V { return e.Sym(fmt.Sprint("value", i), e.ValueT) }
	key := func(i int) *ai.V {
		if k.many {
			// names of columns are never bound; these are names of variables
			return e.Const1(string(rune('a'+i%2)), str)
		}
		return e.Sym(fmt.Sprint("name", i), str)
	}
	cx := func(l int) string { return fmt.Sprint("ctx", l) }
	for l := range scopeParent {
		l := l
		at := mk.Blocks[0].Instrs[0]
		mon := &ai.Monitor{NoModel: c.noCtxModels()}
		mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, in ssa.Instruction) {
			x.Report(st, "innermost", in, "%s panics: %s", k.what, w)
		}
		x := ai.NewExec(e, mk, mon)
		x.Debug = c.Debug
		x.Recur, x.Unroll = len(scopeParent)+1, 300
		st := ai.NewState(e)
		graph := e.Sym("graph", mk.Signature.Params().At(0).Type())
		for i := range h {
			st.AssumeNil(val(i), false)
			st.Ghost[fmt.Sprint("v", i)] = val(i)
		}
		x.RunScript(st, func(st *ai.State, i int, prev *ai.V) *ai.Call {
			if i > 0 && i <= len(h) && (h[i-1].op == "new" || h[i-1].op == "sub") {
				st.Ghost[cx(h[i-1].ctx)] = prev
			}
			switch {
			case i < len(h):
				s := h[i]
				on := st.Ghost[cx(s.ctx)]
				switch s.op {
				case "new":
					return &ai.Call{Fn: mk, Args: []*ai.V{graph}}
				case "sub":
					return &ai.Call{Fn: sub, Args: []*ai.V{st.Ghost[cx(scopeParent[s.ctx])]}}
				case "set":
					if k.many {
						m := e.Ptr(e.NewObj(), set.Signature.Params().At(0).Type())
						st.SetMapContent(m, e.Mk("mcont", nil, ""))
						st.MapAdd(m, e.Mk("ent", nil, "", key(i), val(i)))
						return &ai.Call{Fn: set, Args: []*ai.V{on, m}}
					}
					return &ai.Call{Fn: set, Args: []*ai.V{on, key(i), val(i)}}
				case "remove":
					return &ai.Call{Fn: rm, Args: []*ai.V{on, key(i)}}
				}
			case i == len(h):
				return &ai.Call{Fn: get, Args: []*ai.V{st.Ghost[cx(l)], asked}}
			case i == len(h)+1:
				if prev.Op != "tuple" || len(prev.Args) != 2 {
					panic("result of a look-up is not a pair")
				}
				res := prev.Args
				var unknown *ai.Call
				for _, w := range c.scopeSpec(st, h, l, key, asked) {
					switch s := w.st; {
					case w.i < 0 && !s.AssumeNil(res[1], false):
						x.Report(s, "innermost", at, "%s: a name not defined around context %d is found there", what, l)
					case w.i < 0:
						unknown = &ai.Call{Recv: res[1], Method: "Error"}
					case !s.AssumeNil(res[1], true):
						x.Report(s, "innermost", at, "%s: definition %d is not found from context %d", what, w.i, l)
					case !c.sameValue(s, res[0], val(w.i)):
						x.Report(s, "innermost", at, "%s: looking up from context %d gives %s instead of definition %d", what, l, res[0].Show(), w.i)
					}
				}
				return unknown
			case i == len(h)+2:
				if !ai.Contains(prev, asked) {
					x.Report(st, "innermost", at, "%s: the error for an unknown name is %s, which does not hold the name", k.what, prev.Show())
				}
			}
			return nil
		})
		c.Collect(x, what)
	}
}

type scopeFound struct {
	st *ai.State
	i  int // step of the definition; -1: none
}

// scopeSpec splits the state by which definition the asked name has.
func (c *Ctx) scopeSpec(st *ai.State, h []scopeStep, from int, key func(int) *ai.V, asked *ai.V) []scopeFound {
	type step struct{ ctx, i int }
	var order []step // the definitions and removals that count, in turn
	for l := from; l >= 0; l = scopeParent[l] {
		for i := len(h) - 1; i >= 0; i-- {
			if h[i].ctx == l && (h[i].op == "set" || h[i].op == "remove") {
				order = append(order, step{l, i})
			}
		}
	}
	var out []scopeFound
	var walk func(st *ai.State, k int)
	walk = func(st *ai.State, k int) {
		if k == len(order) {
			out = append(out, scopeFound{st, -1})
			return
		}
		d := order[k]
		t, f := split(st, st.Equal(key(d.i), asked))
		if t != nil {
			if h[d.i].op == "set" {
				out = append(out, scopeFound{t, d.i})
			} else {
				n := k + 1
				for n < len(order) && order[n].ctx == d.ctx {
					n++
				}
				walk(t, n)
			}
		}
		if f != nil {
			walk(f, k+1)
		}
	}
	walk(st, 0)
	return out
}

// scopeFunctions: functions come from one table, whatever the context, under
// the parts of their name joined by dots.
func (c *Ctx) scopeFunctions() {
	e := c.E
	mk, sub, get := c.Func("NewEvalContext"), c.Method("EvalContext", "SubContext"), c.Method("EvalContext", "GetFunction")
	if mk == nil || sub == nil || get == nil {
		return
	}
	str := types.Typ[types.String]
	for n := 1; n <= 3; n++ {
		what := fmt.Sprintf("function name of %d parts", n)
		c.Obl("function", what)
		mon := &ai.Monitor{NoModel: c.noCtxModels()}
		at := mk.Blocks[0].Instrs[0]
		mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, in ssa.Instruction) {
			x.Report(st, "function", in, "%s: panics: %s", what, w)
		}
		x := ai.NewExec(e, mk, mon)
		x.Debug = c.Debug
		x.Unroll = 300
		var parts []*ai.V
		want := ""
		for i := 0; i < n; i++ {
			p := e.Sym(fmt.Sprint("part", i), str)
			parts = append(parts, e.One(p))
			if i > 0 {
				want += "."
			}
			want += pieces(p)
		}
		x.RunScript(ai.NewState(e), func(st *ai.State, i int, prev *ai.V) *ai.Call {
			switch i {
			case 0:
				return &ai.Call{Fn: mk, Args: []*ai.V{e.Sym("graph", mk.Signature.Params().At(0).Type())}}
			case 1:
				return &ai.Call{Fn: sub, Args: []*ai.V{prev}}
			case 2:
				return &ai.Call{Fn: get, Args: []*ai.V{prev, e.List(get.Signature.Params().At(0).Type(), parts...)}}
			case 3:
				if prev.Op != "tuple" || len(prev.Args) != 2 {
					panic("result of a look-up is not a pair")
				}
				found, err := prev.Args[0], prev.Args[1]
				if st.IsNil(err) == 0 {
					for _, p := range parts {
						if !ai.Contains(err, p.Args[0]) {
							x.Report(st, "function", at, "%s: the error for an unknown function is %s, which does not hold all of the name", what, err.Show())
						}
					}
					return nil
				}
				ok := false
				ai.Walk(found, map[*ai.V]bool{}, func(v *ai.V) {
					if v.Op == "mapget" && strings.HasPrefix(v.Args[0].Op, "gload") && pieces(v.Args[1]) == want {
						ok = st.IsNil(err) == 1
					}
				})
				if !ok {
					x.Report(st, "function", at, "%s: the look-up gives %s, which is not the function of that name", what, found.Show())
				}
			}
			return nil
		})
		c.Collect(x, what)
	}
}

// pieces writes down a text however it is put together.
func pieces(v *ai.V) string {
	switch {
	case v.Op == "const" && v.C.Kind() == constant.String:
		return constant.StringVal(v.C)
	case v.Op == "const" && v.C.Kind() == constant.Int:
		if n, ok := constant.Int64Val(v.C); ok {
			return string(rune(n))
		}
	case v.Op == "bin:+":
		return pieces(v.Args[0]) + pieces(v.Args[1])
	case v.Op == "text" || v.Op == "ctype":
		return pieces(v.Args[0])
	case v.Op == "sbuf":
		s := ""
		for _, p := range v.Args {
			s += pieces(p)
		}
		return s
	case v.Op == "one":
		return pieces(v.Args[0])
	case v.Op == "call" && v.Aux == "strings.Join" && v.Args[0].Op == "list":
		s, sep := "", pieces(v.Args[1])
		for i, p := range v.Args[0].Args {
			if i > 0 {
				s += sep
			}
			s += pieces(p)
		}
		return s
	}
	return fmt.Sprintf("<%d>", v.ID)
}
