package checks

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"verif/analyzer/ai"
)

func init() {
	register("G08", g08)
	register("G09", g09)
}

// Creation: the text of a CREATE or MERGE clause is built and run in a context
// of which everything is known: which variables are bound (to values of any
// kind), the parameters, and whether there is a filter for properties. What is
// created is compared with what the text says.

// createUse is a clause that creates patterns.
type createUse struct {
	name  string
	merge bool
	tree  func(parts ...*ai.Tree) *ai.Tree
}

func (c *Ctx) createUses() []createUse {
	one := func(rule string, ok func(t *ai.Tree) bool) *ai.Tree {
		if ts := c.pick(rule, 1, ok); len(ts) > 0 {
			return ts[0]
		}
		return nil
	}
	create := one("oC_Create", func(t *ai.Tree) bool { return t.Has("SP") })
	merge := one("oC_Merge", func(t *ai.Tree) bool { return !t.Has("oC_MergeAction") && t.Has("SP") })
	pats := c.pick("oC_Pattern", 2, tight)
	if create == nil || merge == nil || pats == nil {
		return nil
	}
	return []createUse{
		{"CREATE", false, func(parts ...*ai.Tree) *ai.Tree {
			for _, p := range pats {
				if len(p.All("oC_PatternPart")) != len(parts) {
					continue
				}
				p = clone(p)
				for i, k := 0, 0; i < len(p.Kids); i++ {
					if p.Kids[i].Rule == "oC_PatternPart" {
						p.Kids[i] = clone(parts[k])
						k++
					}
				}
				return expandAll(create, "oC_Pattern", []*ai.Tree{p})[0]
			}
			return nil
		}},
		{"MERGE", true, func(parts ...*ai.Tree) *ai.Tree {
			if len(parts) != 1 {
				return nil
			}
			return expandAll(merge, "oC_PatternPart", parts)[0]
		}},
	}
}

// createShapes are patterns to create, as lists of parts.
func (c *Ctx) createShapes() [][]*ai.Tree {
	var out [][]*ai.Tree
	for _, p := range c.patternParts() {
		out = append(out, []*ai.Tree{p})
	}
	pl := c.plain()
	part := &ai.Tree{Rule: "oC_PatternPart"}
	grow1 := func(o map[string][]*ai.Tree) *ai.Tree { return grow(part, o)[0] }
	node := func(n int, named bool) []*ai.Tree {
		return c.pick("oC_NodePattern", 1, func(t *ai.Tree) bool { return tight(t) && len(t.Kids) == n && t.Has("oC_Variable") == named })
	}
	rel := c.pick("oC_RelationshipDetail", 1, func(t *ai.Tree) bool {
		return tight(t) && len(t.Kids) == 4 && t.Has("oC_Variable") && t.Has("oC_RelationshipTypes")
	})
	typed := c.pick("oC_RelationshipDetail", 1, func(t *ai.Tree) bool {
		return tight(t) && len(t.Kids) == 3 && t.Has("oC_RelationshipTypes")
	})
	chain := c.pick("oC_PatternElement", 1, func(t *ai.Tree) bool { return tight(t) && len(t.All("oC_PatternElementChain")) == 1 })
	chain2 := c.pick("oC_PatternElement", 2, func(t *ai.Tree) bool { return tight(t) && len(t.All("oC_PatternElementChain")) == 2 })
	named := c.pick("oC_PatternPart", 1, func(t *ai.Tree) bool { return tight(t) && t.Has("oC_Variable") })
	if len(node(3, true)) == 0 || len(node(5, true)) == 0 || len(rel) == 0 || len(typed) == 0 || len(chain) == 0 || len(chain2) == 0 || len(named) == 0 {
		return nil
	}
	// plain named nodes and relationships
	o := with(with(with(pl, "oC_NodePattern", node(3, true)[0]), "oC_RelationshipDetail", rel[0]), "oC_PatternElement", chain[0])
	arrow := grow1(o)
	single := grow1(with(pl, "oC_NodePattern", node(3, true)[0]))
	full := grow1(with(pl, "oC_NodePattern", node(5, true)[0]))
	// properties of relationships
	for _, d := range c.pick("oC_RelationshipDetail", 1, func(t *ai.Tree) bool {
		return tight(t) && t.Has("oC_Properties") && !t.Has("oC_RangeLiteral") && !t.Has("oC_RelationshipTypes")
	}) {
		for _, t := range grow(part, with(with(with(pl, "oC_RelationshipDetail", d), "oC_PatternElement", chain[0]), "oC_Properties", c.allProperties()...)) {
			out = append(out, []*ai.Tree{t})
		}
	}
	// several types
	for _, t := range c.pick("oC_RelationshipTypes", 2, func(t *ai.Tree) bool { return tight(t) && len(t.All("oC_RelTypeName")) > 1 }) {
		out = append(out, grow(part, with(with(with(pl, "oC_RelationshipTypes", t), "oC_RelationshipDetail", typed[0]), "oC_PatternElement", chain[0])))
	}
	// (a)-[:T]->(b)-[:T]->(c)
	out = append(out, grow(part, with(with(with(pl, "oC_NodePattern", node(3, true)[0]), "oC_RelationshipDetail", typed[0]), "oC_PatternElement", chain2[0])))
	out = append(out, []*ai.Tree{arrow}, []*ai.Tree{single, arrow}, []*ai.Tree{full, arrow}, []*ai.Tree{arrow, full}, []*ai.Tree{single, single})
	for _, n := range named {
		out = append(out, []*ai.Tree{grow(n, o)[0], single}, []*ai.Tree{grow(n, with(pl, "oC_NodePattern", node(3, true)[0]))[0], single})
	}
	return out
}

// creation is a clause with what the names in it stand for.
type creation struct {
	u      createUse
	what   string
	t      *ai.Tree
	items  []*patItem
	class  map[*patItem]int // of the items with a name
	names  []*ai.V          // text of each class
	paths  map[int]bool     // classes that name a whole part
	bound  int              // bit per class
	filter bool
	param  string // what the parameters are
	exprs  []*ai.Tree
}

// boundTo is the value a variable had before.
func (k *creation) boundTo(c *Ctx, i int) *ai.V {
	return c.E.Sym(fmt.Sprint("bound", i), types.NewInterfaceType(nil, nil))
}

// sameName gives the tokens of names the same text when they are of one class.
func nameTokens(t *ai.Tree) []*ai.Tree {
	var out []*ai.Tree
	for _, v := range find(t, "oC_Variable") {
		if k := tokenOf(v); k != nil {
			out = append(out, k)
		}
	}
	return out
}

// partitions of n things, as class numbers.
func partitions(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, p := range partitions(n - 1) {
		max := -1
		for _, x := range p {
			if x > max {
				max = x
			}
		}
		for k := 0; k <= max+1; k++ {
			out = append(out, append(append([]int(nil), p...), k))
		}
	}
	return out
}

func g08(c *Ctx) {
	c.Rule("builder and evaluator of CREATE and of MERGE that finds nothing are followed for every form of node and relationship pattern, with variables that are the same or differ, and are bound or not; the nodes and relationships that are created must be the ones written, and clauses that redefine a bound variable must fail")
	pk := c.propKinds()
	if pk == nil {
		return
	}
	shapes := c.createShapes()
	for _, u := range c.createUses() {
		for _, parts := range shapes {
			base := u.tree(parts...)
			if base == nil {
				continue
			}
			if f := os.Getenv("PSHAPE"); f != "" && !strings.Contains(base.String(), f) { // for debugging
				continue
			}
			n := len(nameTokens(base))
			var ps [][]int
			if n <= 4 {
				ps = partitions(n)
			} else { // all different
				var p []int
				for i := 0; i < n; i++ {
					p = append(p, i)
				}
				ps = [][]int{p}
			}
			for _, p := range ps {
				c.creations(u, base, p, pk)
			}
		}
	}
}

// g09: arrows mean the same everywhere.
func g09(c *Ctx) {
	c.Rule("builder and evaluator of patterns are followed for every form of arrow, in MATCH, CREATE, MERGE and pattern searches, up to the call that hands the pattern to the graph package or creates the relationship; the direction of every relationship must be the one of its arrows")
	pk := c.propKinds()
	if pk == nil {
		return
	}
	pl := c.plain()
	part := &ai.Tree{Rule: "oC_PatternPart"}
	chain := c.pick("oC_PatternElement", 2, func(t *ai.Tree) bool { return tight(t) && t.Has("oC_PatternElementChain") })
	arrows := c.pick("oC_RelationshipPattern", 1, nil)
	tightArrows := c.pick("oC_RelationshipPattern", 1, tight)
	nodes := c.pick("oC_NodePattern", 1, func(t *ai.Tree) bool {
		return tight(t) && (len(t.Kids) == 2 || len(t.Kids) == 3 && t.Has("oC_Variable"))
	})
	typed := c.pick("oC_RelationshipDetail", 1, func(t *ai.Tree) bool { return tight(t) && len(t.Kids) == 3 && t.Has("oC_RelationshipTypes") })
	named := c.pick("oC_RelationshipDetail", 1, func(t *ai.Tree) bool { return tight(t) && len(t.Kids) == 3 && t.Has("oC_Variable") })
	ranged := c.pick("oC_RelationshipDetail", 1, func(t *ai.Tree) bool { return tight(t) && len(t.Kids) == 3 && t.Has("oC_RangeLiteral") })
	if len(chain) == 0 || len(arrows) == 0 || len(nodes) == 0 || len(typed) == 0 || len(named) == 0 || len(ranged) == 0 {
		return
	}
	var parts []*ai.Tree
	for _, e := range chain {
		o := with(with(pl, "oC_PatternElement", e), "oC_RelationshipDetail", typed[0])
		if len(e.All("oC_PatternElementChain")) > 1 {
			parts = append(parts, grow(part, with(o, "oC_RelationshipPattern", tightArrows...))...)
			continue
		}
		for _, n := range nodes {
			o := with(o, "oC_NodePattern", n)
			parts = append(parts, grow(part, with(o, "oC_RelationshipPattern", arrows...))...)
			for _, d := range []*ai.Tree{named[0], ranged[0]} {
				parts = append(parts, grow(part, with(with(o, "oC_RelationshipDetail", d), "oC_RelationshipPattern", tightArrows...))...)
			}
		}
	}
	c.only = map[string]bool{"direction": true, "created": true, "undecided": true}
	for _, u := range c.patternUses() {
		for _, p := range parts {
			c.patternShape(u, u.tree(p))
		}
	}
	for _, u := range c.createUses() {
		for _, p := range parts {
			base := u.tree(p)
			var classes []int
			for i := range nameTokens(base) {
				classes = append(classes, i)
			}
			c.creations(u, base, classes, pk)
		}
	}
}

func (c *Ctx) creations(u createUse, base *ai.Tree, classes []int, pk *propKinds) {
	max := -1
	for _, x := range classes {
		if x > max {
			max = x
		}
	}
	params := []string{""}
	if len(find(base, "oC_Parameter")) > 0 {
		params = []string{"map", "none", "other"}
	}
	filters := []bool{false}
	if len(find(base, "oC_Properties")) > 0 {
		filters = []bool{false, true}
	}
	if c.onlyFiltered {
		filters = filters[1:]
	}
	for bound := 0; bound < 1<<uint(max+1); bound++ {
		if max >= 4 && bound != 0 {
			break
		}
		for _, p := range params {
			for _, f := range filters {
				if f && bound != 0 {
					continue
				}
				k := &creation{u: u, t: clone(base), bound: bound, filter: f, param: p}
				if c.name(k, classes) {
					c.create(k, pk)
				}
			}
		}
	}
}

// name gives the names their texts.
func (c *Ctx) name(k *creation, classes []int) bool {
	e := c.E
	str := types.Typ[types.String]
	k.what = k.u.name + " " + k.t.String()
	k.class = map[*patItem]int{}
	k.paths = map[int]bool{}
	toks := nameTokens(k.t)
	byTok := map[*ai.Tree]int{}
	for i, x := range classes {
		for len(k.names) <= x {
			k.names = append(k.names, e.Sym(fmt.Sprint("name", len(k.names)), str))
		}
		toks[i].TextV = k.names[x]
		byTok[toks[i]] = x
	}
	if len(classes) > 0 {
		k.what += fmt.Sprintf(" variables %v bound %b", classes, k.bound)
	}
	if k.filter {
		k.what += " filtered"
	}
	if k.param != "" {
		k.what += " parameter: " + k.param
	}
	k.items = patItems(k.t)
	for _, it := range k.items {
		if it.name != nil {
			if x, ok := byTok[tokenOf(it.name)]; ok {
				k.class[it] = x
			} else {
				k.class[it] = -1
			}
		}
		k.exprs = append(k.exprs, it.values...)
	}
	// the name of a whole part is not used for anything else in it, and not bound
	for _, p := range find(k.t, "oC_PatternPart") {
		v := p.One("oC_Variable")
		if v == nil {
			continue
		}
		x := byTok[tokenOf(v)]
		k.paths[x] = true
		if k.bound&(1<<uint(x)) != 0 {
			return false
		}
	}
	for x := range k.paths {
		for _, it := range patItems(find(k.t, "oC_PatternPart")[0]) {
			if it.name != nil && tokenOf(it.name).TextV == k.names[x] {
				return false
			}
		}
	}
	return true
}

// paramValue is the value of a parameter: a map with two entries.
func (c *Ctx) paramEntries() (keys, vals []*ai.V) {
	for i := 0; i < 2; i++ {
		keys = append(keys, c.E.Sym(fmt.Sprint("paramkey", i), types.Typ[types.String]))
		vals = append(vals, c.E.Sym(fmt.Sprint("paramval", i), types.NewInterfaceType(nil, nil)))
	}
	return
}

func (c *Ctx) create(k *creation, pk *propKinds) {
	e := c.E
	mk, set, setp, get := c.Func("NewEvalContext"), c.Method("EvalContext", "SetVar"), c.Method("EvalContext", "SetParameter"), c.Method("EvalContext", "GetVar")
	rv := c.Type("RValue")
	if mk == nil || set == nil || setp == nil || get == nil || rv == nil {
		return
	}
	c.Obl("created", k.what)
	rvalue := func(v *ai.V) *ai.V {
		z := e.Zero(rv)
		return e.Box(c.withField(z, "Value", v))
	}
	graph := e.Sym("graph", mk.Signature.Params().At(0).Type())
	mon := &ai.Monitor{NoModel: c.noCtxModels()}
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		switch ev.Kind {
		case "eval", "evalerr":
			i := indexOf(k.exprs, c.leafOf(ev.Recv))
			if i < 0 {
				return nil
			}
			if ev.Kind == "evalerr" {
				st.SetGS("cause", fmt.Sprint("expr", i))
				return nil
			}
			st.Ghost[fmt.Sprint("value", i)] = e.Get(st, ev.Res[0])
		case "effect":
			c.reach(ev.Instr)
			var args []*ai.V
			for _, a := range ev.Args {
				args = append(args, st.Freeze(a))
			}
			n := len(effectsOf(st))
			st.Ghost[fmt.Sprintf("effect%02d", n)] = e.Mk("tuple", nil, ev.Name, append([]*ai.V{e.Mk("tuple", nil, "", ev.Res...), e.Mk("tuple", nil, "", args...)}, ev.Recv)...)
		case "call":
			if ev.Name == "Path.Append" && len(ev.Args) == 1 {
				for _, s := range st.Segs(ev.Args[0]) {
					n := 0
					for st.Ghost[fmt.Sprintf("step%02d", n)] != nil {
						n++
					}
					st.Ghost[fmt.Sprintf("step%02d", n)] = st.Freeze(s)
				}
			}
			if strings.HasPrefix(ev.Name, "dyn:") && ev.Recv != nil && len(ev.Args) == 2 && len(ev.Res) == 1 {
				n := 0
				for st.Ghost[fmt.Sprintf("filter%02d", n)] != nil {
					n++
				}
				st.Ghost[fmt.Sprintf("filter%02d", n)] = e.Mk("tuple", nil, "", ev.Args[0], ev.Args[1], ev.Res[0])
			}
		}
		return nil
	}
	mon.Ext = func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, name string) ([]*ai.State, bool) {
		if len(ci.Args) == 0 || !isPatternT(ci.Args[0].T) {
			return nil, false
		}
		if strings.HasSuffix(name, ".GetSymbolNames") {
			return []*ai.State{x.Ret(st, ci, c.symbolNames(st, ci))}, true
		}
		// nothing is found, or the search fails
		bad := st.Clone()
		bad.SetGS("cause", "search")
		return []*ai.State{x.Ret(st, ci, e.Nil(ci.Sig.Results().At(0).Type())), x.Ret(bad, ci, bad.NewError("Pattern.Run"))}, true
	}
	var steps []func(st *ai.State) *ai.Call
	// a variable with an empty name stands for nothing
	steps = append(steps, func(st *ai.State) *ai.Call {
		return &ai.Call{Fn: set, Args: []*ai.V{st.Ghost["ctx"], e.Str(""), rvalue(e.Sym("unnamed", types.NewInterfaceType(nil, nil)))}}
	})
	for i := range k.names {
		i := i
		if k.bound&(1<<uint(i)) != 0 {
			steps = append(steps, func(st *ai.State) *ai.Call {
				return &ai.Call{Fn: set, Args: []*ai.V{st.Ghost["ctx"], k.names[i], rvalue(k.boundTo(c, i))}}
			})
		}
	}
	pkeys, pvals := c.paramEntries()
	if k.param == "map" || k.param == "other" {
		for _, it := range k.items {
			if it.param == nil {
				continue
			}
			it := it
			steps = append(steps, func(st *ai.State) *ai.Call {
				n := c.paramName(it.param)
				v := e.Box(e.Int(1))
				if k.param == "map" {
					m := e.NewMap(c.mapT())
					st.SetMapContent(m, e.Mk("mcont", nil, ""))
					for i := range pkeys {
						st.MapAdd(m, e.Mk("ent", nil, "", pkeys[i], rvalue(pvals[i])))
					}
					v = e.Box(m)
				}
				return &ai.Call{Fn: setp, Args: []*ai.V{st.Ghost["ctx"], n, rvalue(v)}}
			})
		}
	}
	c.runScript(k.t, k.what, mon, func(st *ai.State) {
		c.knownTexts(st, k.t)
		for i, n := range k.names {
			st.Ghost[fmt.Sprint("name", i)] = n
			st.Ghost[fmt.Sprint("bound", i)] = k.boundTo(c, i)
			st.AssumeCmp(e.Len(n), e.Int(1), ai.GT|ai.EQ)
			for j := 0; j < i; j++ {
				st.Assume(st.Equal(k.names[i], k.names[j]), false)
			}
		}
		if k.param == "map" {
			st.Assume(st.Equal(pkeys[0], pkeys[1]), false)
			for i := range pkeys {
				st.Ghost[fmt.Sprint("pkey", i)], st.Ghost[fmt.Sprint("pval", i)] = pkeys[i], pvals[i]
			}
		}
	}, func(r *shapeRun, st *ai.State, n int, prev *ai.V) *ai.Call {
		switch {
		case n == 1:
			st.Ghost["built"] = prev
			return &ai.Call{Fn: mk, Args: []*ai.V{graph}}
		case n == 2:
			st.Ghost["ctx"] = prev
			if k.filter {
				c.setFilter(st, prev)
			}
		}
		if n-2 < len(steps) {
			return steps[n-2](st)
		}
		n -= 2 + len(steps)
		if n == 0 {
			return &ai.Call{Recv: st.Ghost["built"], Method: "TopLevelUpdate", Args: []*ai.V{st.Ghost["ctx"]}}
		}
		if n == 1 {
			st.Ghost["result"], st.Ghost["err"] = prev.Args[0], prev.Args[1]
		} else {
			st.Ghost[fmt.Sprint("var", n-2)] = prev
		}
		if n <= len(k.names) {
			return &ai.Call{Fn: get, Args: []*ai.V{st.Ghost["ctx"], k.names[n-1]}}
		}
		c.created(r, st, k, st.Ghost["err"], pk)
		return nil
	})
}

// setFilter sets the property filter of a context to an unknown function.
func (c *Ctx) setFilter(st *ai.State, ctx *ai.V) {
	e := c.E
	cur := st.Load(ctx)
	old := e.FieldByName(cur, "PropertyValueFromNativeFilter")
	if old == nil {
		panic("contexts have no property filter")
	}
	f := e.Sym("filter", old.T)
	st.AssumeNil(f, false)
	st.Store(ctx, c.withField(cur, "PropertyValueFromNativeFilter", f))
}

// effect is something done to the graph.
type graphEffect struct {
	name string
	on   *ai.V
	res  []*ai.V
	args []*ai.V
}

func effectsOf(st *ai.State) []graphEffect {
	var out []graphEffect
	for {
		v := st.Ghost[fmt.Sprintf("effect%02d", len(out))]
		if v == nil {
			return out
		}
		out = append(out, graphEffect{v.Aux, v.Args[2], v.Args[0].Args, v.Args[1].Args})
	}
}

// wanted is an element that should be created.
type wanted struct {
	it   *patItem
	from int // of a relationship: index of the node item, see nodeRef
	to   int
	may  bool // may be missing
}

// created compares the effects with the text.
func (c *Ctx) created(r *shapeRun, st *ai.State, k *creation, err *ai.V, pk *propKinds) {
	// know the kinds of what variables are bound to, and which values are null
	states := []*ai.State{st}
	for i := range k.names {
		if k.bound&(1<<uint(i)) == 0 {
			continue
		}
		var next []*ai.State
		for _, s := range states {
			for _, kc := range c.byKind(s, k.boundTo(c, i), pk.base, "node") {
				kc.st.SetGS(fmt.Sprint("kind", i), kc.k)
				next = append(next, kc.st)
			}
		}
		states = next
	}
	var vals []*ai.V
	for i := range k.exprs {
		if v := st.Ghost[fmt.Sprint("value", i)]; v != nil {
			vals = append(vals, v)
		}
	}
	if k.param == "map" {
		_, pv := c.paramEntries()
		vals = append(vals, pv...)
	}
	for _, v := range vals {
		var next []*ai.State
		for _, s := range states {
			if s.IsNil(v) >= 0 {
				next = append(next, s)
				continue
			}
			o := s.Clone()
			if s.AssumeNil(v, true) {
				next = append(next, s)
			}
			if o.AssumeNil(v, false) {
				next = append(next, o)
			}
		}
		states = next
	}
	for _, s := range states {
		c.createdIn(r, s, k, err)
	}
}

func (c *Ctx) createdIn(r *shapeRun, st *ai.State, k *creation, err *ai.V) {
	cause := st.GS("cause")
	var fails string
	maybe := false
	fail := func(f string, a ...interface{}) {
		if fails == "" {
			fails = fmt.Sprintf(f, a...)
		}
	}
	// what the clause says
	type ref struct {
		node int   // wanted node, or -1
		v    *ai.V // or a node that was there
	}
	env := map[int]*ref{}
	relName := map[int]int{}
	nameUses := map[int]int{}
	for _, it := range k.items {
		if x, ok := k.class[it]; ok {
			nameUses[x]++
			if !it.node {
				relName[x]++
			}
		}
	}
	var nodes, rels []*wanted
	at := map[*patItem]*ref{}
	for _, p := range find(k.t, "oC_PatternPart") {
		its := c.partItems(k, p)
		for _, it := range its {
			if !it.node {
				continue
			}
			x, named := k.class[it]
			if named && x >= 0 {
				if k.bound&(1<<uint(x)) != 0 && env[x] == nil {
					env[x] = &ref{-1, nil}
					if st.GS(fmt.Sprint("kind", x)) == "node" {
						env[x].v = st.Payload(k.boundTo(c, x), types.NewPointer(c.lpgType("Node")))
					}
				}
				if b := env[x]; b != nil {
					if len(it.labels) > 0 || len(it.keys) > 0 || it.param != nil {
						fail("%s redefines a bound variable", it.t)
						continue
					}
					if it.propsAt != nil {
						maybe = true
					}
					if b.node < 0 && b.v == nil {
						fail("%s is bound to something that is not a node", it.t)
						continue
					}
					at[it] = b
					continue
				}
			}
			w := &wanted{it: it}
			if named && relName[x] > 0 {
				w.may = true
			}
			nodes = append(nodes, w)
			at[it] = &ref{len(nodes) - 1, nil}
			if named && x >= 0 {
				env[x] = at[it]
			}
		}
		for i, it := range its {
			if it.node {
				continue
			}
			bad := ""
			switch {
			case it.rng != nil:
				bad = "has a length"
			case len(it.labels) > 1:
				bad = "has several types"
			}
			if x, ok := k.class[it]; ok && x >= 0 {
				if k.bound&(1<<uint(x)) != 0 {
					bad = "is bound"
				} else if nameUses[x] > 1 || k.paths[x] {
					fail("%s shares its variable with another element", it.t)
					if bad == "" && at[its[i-1]] != nil && at[its[i+1]] != nil {
						rels = append(rels, &wanted{it: it, from: i - 1, to: i + 1, may: true})
					}
					continue
				}
			}
			if bad != "" {
				fail("relationship %s %s", it.t, bad)
				continue
			}
			if at[its[i-1]] == nil || at[its[i+1]] == nil {
				continue
			}
			rels = append(rels, &wanted{it: it})
		}
		if v := p.One("oC_Variable"); v != nil {
			for x, n := range k.names {
				if n == tokenOf(v).TextV {
					env[x] = &ref{-1, nil}
					if len(its) == 1 {
						env[x] = at[its[0]]
					}
				}
			}
		}
	}
	if k.param == "none" {
		fail("the parameter is not defined")
	}
	if k.param == "other" {
		fail("the parameter is not a map")
	}
	if cause != "" {
		fail("of %s", cause)
	}
	// does it fail when it should
	failed := false
	switch {
	case fails != "":
		if !st.AssumeNil(err, false) {
			r.report(st, "fails", "%s succeeds although %s", k.u.name, fails)
			return
		}
		failed = true
	case st.IsNil(err) == 0:
		if !maybe {
			r.report(st, "fails", "%s fails although nothing is wrong: %s", k.u.name, err.Show())
			return
		}
		failed = true
	case !st.AssumeNil(err, true):
		r.report(st, "fails", "%s may fail although nothing is wrong", k.u.name)
		return
	}
	// the effects are the elements
	effs := effectsOf(st)
	used := make([]bool, len(effs))
	var why string
	var edges func(i int, done func() bool) bool
	nodeOf := make([]*ai.V, len(nodes))
	edgeOf := map[*patItem]*ai.V{}
	end := func(it *patItem) *ai.V {
		f := at[it]
		if f.node >= 0 {
			return nodeOf[f.node]
		}
		return f.v
	}
	around := func(it *patItem) (l, r *patItem) {
		for _, p := range find(k.t, "oC_PatternPart") {
			its := c.partItems(k, p)
			for i := range its {
				if its[i] == it {
					return its[i-1], its[i+1]
				}
			}
		}
		return
	}
	edges = func(i int, done func() bool) bool {
		if i == len(rels) {
			return done()
		}
		w := rels[i]
		a, b := around(w.it)
		from, to := end(a), end(b)
		if w.it.left && !w.it.right {
			from, to = to, from
		}
		for j, f := range effs {
			if used[j] || f.name != "Graph.NewEdge" || len(f.args) != 4 {
				continue
			}
			if from == nil || to == nil {
				continue
			}
			rev := w.it.left && !w.it.right
			if w.it.left == w.it.right && c.same(st, f.args[0], to) && c.same(st, f.args[1], from) {
				// without a direction, either will do
				rev = !c.same(st, from, to)
			} else if !c.same(st, f.args[0], from) || !c.same(st, f.args[1], to) {
				why = fmt.Sprintf("%s is created from %s to %s", w.it.t, f.args[0].Show(), f.args[1].Show())
				continue
			}
			if y := c.edgeLabel(st, w.it, f.args[2]); y != "" {
				why = y
				continue
			}
			if y := c.createdProps(r, st, k, w.it, f.args[3]); y != "" {
				why = y
				continue
			}
			if y := c.stepsOf(st, w.it, f.res[0], rev); y != "" {
				why = y
				continue
			}
			used[j], edgeOf[w.it] = true, f.res[0]
			if edges(i+1, done) {
				return true
			}
			used[j], edgeOf[w.it] = false, nil
		}
		if failed || w.may {
			return edges(i+1, done)
		}
		if why == "" {
			why = fmt.Sprintf("%s is not created", w.it.t)
		}
		return false
	}
	done := func() bool {
		for j, f := range effs {
			if !used[j] {
				why = fmt.Sprintf("%s is done once more than is written", f.name)
				return false
			}
		}
		if failed || maybe {
			return true
		}
		for x := range k.names {
			got, y := c.boundNow(r, st, k, x)
			if y != "" {
				why = y
				return false
			}
			if got == nil {
				continue
			}
			switch f := env[x]; {
			case k.bound&(1<<uint(x)) != 0:
				if !c.same(st, got, k.boundTo(c, x)) {
					why = fmt.Sprintf("bound variable %d is changed", x)
				}
			case f != nil && f.node >= 0:
				if n := nodeOf[f.node]; n != nil && !c.isPtr(st, got, n) {
					why = fmt.Sprintf("variable %d is %s and not the node created for it", x, got.Show())
				}
			case f != nil && f.v != nil:
				if !c.isPtr(st, got, f.v) {
					why = fmt.Sprintf("variable %d is %s and not the node it stands for", x, got.Show())
				}
			default:
				var its []*patItem
				for _, p := range find(k.t, "oC_PatternPart") {
					if v := p.One("oC_Variable"); v != nil && tokenOf(v).TextV == k.names[x] {
						its = c.partItems(k, p)
					}
				}
				for _, it := range k.items {
					if y, ok := k.class[it]; ok && y == x {
						its = []*patItem{it}
					}
				}
				var want []*ai.V
				for _, it := range its {
					if !it.node {
						want = append(want, edgeOf[it])
					}
				}
				if y := c.pathOf(st, got, want); y != "" {
					why = fmt.Sprintf("variable %d %s", x, y)
				}
			}
			if why != "" {
				return false
			}
		}
		return true
	}
	var place func(i int) bool
	place = func(i int) bool {
		if i == len(nodes) {
			return edges(0, done)
		}
		w := nodes[i]
		for j, f := range effs {
			if used[j] || f.name != "Graph.NewNode" || len(f.args) != 2 {
				continue
			}
			if y := c.createdLabels(st, w.it, f.args[0]); y != "" {
				why = y
				continue
			}
			if y := c.createdProps(r, st, k, w.it, f.args[1]); y != "" {
				why = y
				continue
			}
			used[j] = true
			nodeOf[i] = f.res[0]
			if place(i + 1) {
				return true
			}
			used[j], nodeOf[i] = false, nil
		}
		if failed || w.may {
			return place(i + 1)
		}
		if why == "" {
			why = fmt.Sprintf("%s is not created", w.it.t)
		}
		return false
	}
	why, c.notFiltered = "", ""
	if !place(0) {
		if c.notFiltered != "" {
			r.report(st, "filter", "%s", c.notFiltered)
		}
		r.report(st, "created", "%s does not create what is written: %s", k.u.name, why)
	}
}

// partItems are the items of a part, among the items of the clause.
func (c *Ctx) partItems(k *creation, p *ai.Tree) []*patItem {
	var out []*patItem
	for _, q := range patItems(p) {
		for _, it := range k.items {
			if it.t == q.t {
				out = append(out, it)
			}
		}
	}
	return out
}

func (c *Ctx) createdLabels(st *ai.State, it *patItem, got *ai.V) string {
	var ents []*ai.V
	if got.Op == "call" && strings.HasPrefix(got.Aux, "StringSet.") && len(got.Args) == 1 {
		got = got.Args[0]
	}
	switch got.Op {
	case "sset":
		for _, s := range got.Args {
			if s.Op != "ent" {
				panic("labels are not known: " + got.Show())
			}
			ents = append(ents, s.Args[0])
		}
	case "zero", "nil":
	case "struct":
		if st.IsNil(got.Args[0]) != 1 {
			panic("labels are not known: " + got.Show())
		}
	default:
		for _, s := range st.Segs(got) {
			if s.Op != "one" {
				panic("labels are not known: " + got.Show())
			}
			ents = append(ents, s.Args[0])
		}
	}
	has := func(l *ai.V, in []*ai.V) bool {
		for _, x := range in {
			if c.sameText(st, l, x) {
				return true
			}
		}
		return false
	}
	var want []*ai.V
	for _, l := range it.labels {
		want = append(want, c.nameText(l))
	}
	for i, w := range want {
		if !has(w, ents) {
			return fmt.Sprintf("%s is created without label %s", it.t, it.labels[i])
		}
	}
	for _, l := range ents {
		if !has(l, want) {
			return fmt.Sprintf("%s is created with label %s", it.t, l.Show())
		}
	}
	return ""
}

func (c *Ctx) edgeLabel(st *ai.State, it *patItem, got *ai.V) string {
	if len(it.labels) == 0 {
		if got != c.E.Const1("", got.T) {
			return fmt.Sprintf("%s is created with type %s", it.t, got.Show())
		}
		return ""
	}
	if !c.sameText(st, got, c.nameText(it.labels[0])) {
		return fmt.Sprintf("%s is created with type %s", it.t, got.Show())
	}
	return ""
}

// createdProps compares the properties of a new element with the written ones.
func (c *Ctx) createdProps(r *shapeRun, st *ai.State, k *creation, it *patItem, got *ai.V) string {
	e := c.E
	var keys, vals []*ai.V
	var what []string
	if it.param != nil {
		if k.param != "map" {
			return fmt.Sprintf("%s is created although its parameter is not a map", it.t)
		}
		keys, vals = c.paramEntries()
		what = []string{"first key of parameter", "second key of parameter"}
	}
	for i, n := range it.keys {
		v := st.Ghost[fmt.Sprint("value", indexOf(k.exprs, it.values[i]))]
		if v == nil {
			return fmt.Sprintf("%s is created without evaluating %s", it.t, n)
		}
		keys, vals, what = append(keys, c.nameText(n)), append(vals, v), append(what, n.String())
	}
	if st.IsNil(got) == 1 {
		for i := range keys {
			if st.IsNil(vals[i]) != 1 {
				return fmt.Sprintf("%s is created without property %s", it.t, what[i])
			}
		}
		return ""
	}
	for _, s := range st.MapContent(got).Args {
		if s.Op == "del" {
			continue
		}
		if s.Op != "ent" {
			panic("properties are not known: " + got.Show())
		}
		ok := false
		for _, w := range keys {
			ok = ok || c.sameText(st, s.Args[0], w)
		}
		if !ok {
			return fmt.Sprintf("%s is created with property %s", it.t, s.Args[0].Show())
		}
	}
	mt := got.T.Underlying().(*types.Map)
	why := ""
	for i := range keys {
		i := i
		r.x.MapLookup(st.Clone(), got, e.ChangeType(keys[i], mt.Key()), mt.Elem(), func(s *ai.State, v *ai.V, found bool) {
			for j := range c.alike(s, keys, i) {
				null := s.IsNil(vals[j]) == 1
				switch {
				case !found:
					if null {
						return
					}
				case null:
				case !k.filter:
					if c.same(s, v, vals[j]) {
						return
					}
				default:
					for n := 0; ; n++ {
						f := s.Ghost[fmt.Sprintf("filter%02d", n)]
						if f == nil {
							break
						}
						if v == f.Args[2] && c.sameText(s, f.Args[0], keys[i]) && c.same(s, f.Args[1], vals[j]) {
							return
						}
					}
				}
			}
			if found && k.filter {
				c.notFiltered = fmt.Sprintf("%s is created with %s for property %s, which is not the filter's result", it.t, v.Show(), what[i])
			}
			if found {
				why = fmt.Sprintf("%s is created with the value %s of property %s", it.t, v.Show(), what[i])
			} else {
				why = fmt.Sprintf("%s is created without property %s", it.t, what[i])
			}
		})
	}
	return why
}

func (c *Ctx) withField(x *ai.V, name string, v *ai.V) *ai.V {
	t := x.T.Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == name {
			return c.E.WithField(x, i, v)
		}
	}
	panic("no field " + name)
}

// isPtr: value x holds pointer p.
func (c *Ctx) isPtr(st *ai.State, x, p *ai.V) bool {
	return x == p || st.Payload(x, p.T) == p || c.same(st, x, c.E.Box(p))
}

// stepsOf: the edge of a relationship is put on paths in the direction it is written.
func (c *Ctx) stepsOf(st *ai.State, it *patItem, edge *ai.V, back bool) string {
	for n := 0; ; n++ {
		s := st.Ghost[fmt.Sprintf("step%02d", n)]
		if s == nil {
			return ""
		}
		if s.Op != "one" {
			panic("path of unknown steps: " + s.Show())
		}
		el := s.Args[0]
		if !c.same(st, c.E.FieldByName(el, "Edge"), edge) {
			continue
		}
		rev := c.E.FieldByName(el, "Reverse")
		want := 0
		if back {
			want = 1
		}
		if st.Decide(rev) != want {
			return fmt.Sprintf("the path over %s goes the wrong way", it.t)
		}
	}
}

// boundNow is what a variable is bound to after the clause.
func (c *Ctx) boundNow(r *shapeRun, st *ai.State, k *creation, x int) (*ai.V, string) {
	e := c.E
	if !k.u.merge {
		res := st.Ghost[fmt.Sprint("var", x)]
		if st.IsNil(res.Args[1]) != 1 {
			return nil, fmt.Sprintf("variable %d is not bound afterwards", x)
		}
		return e.Get(st, res.Args[0]), ""
	}
	// the row of the result
	if k.bound&(1<<uint(x)) != 0 {
		return nil, ""
	}
	rs := e.Get(st, st.Ghost["result"])
	if p := st.Payload(rs, c.R.Type("ResultSet")); p != nil {
		rs = p
	}
	rows := e.FieldByName(rs, "Rows")
	if rows == nil {
		panic("result of unknown form: " + rs.Show())
	}
	segs := st.Segs(rows)
	if len(segs) != 1 || segs[0].Op != "one" {
		return nil, "the result is not one row"
	}
	row := segs[0].Args[0]
	var got *ai.V
	missing := false
	r.x.MapLookup(st.Clone(), row, k.names[x], row.T.Underlying().(*types.Map).Elem(), func(s *ai.State, v *ai.V, found bool) {
		if !found {
			missing = true
			return
		}
		got = e.Get(s, v)
	})
	if missing {
		return nil, fmt.Sprintf("variable %d is not in the row", x)
	}
	return got, ""
}

// pathOf: value x is the path over some edges.
func (c *Ctx) pathOf(st *ai.State, x *ai.V, edges []*ai.V) string {
	p := st.Payload(x, types.NewPointer(c.lpgType("Path")))
	if p == nil {
		return "is not a path: " + x.Show()
	}
	if p.Op == "ptr" {
		p = st.Load(p)
	}
	els, ok := st.PathElements(p)
	if !ok || len(els) != len(edges) {
		return "is not the path that is written: " + p.Show()
	}
	for i, el := range els {
		if edges[i] != nil && !c.same(st, c.E.FieldByName(el, "Edge"), edges[i]) {
			return "is not the path that is written: " + p.Show()
		}
	}
	return ""
}
