package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() { register("A08", a08) }

// A08: builder and evaluator of a chain of property lookups are followed for
// every kind of base and every kind of stored value.

func a08(c *Ctx) {
	c.Rule("builder and evaluator of property lookups (chains of up to two) are followed for every kind of base and every kind of stored value; the result is compared with the value stored under the written key")
	c.Assumption("maps held by values have no nil elements; the lpg accessors NumEdges, GetEdge and GetProperty are functions of the graph")
	e := c.E
	keys := e.Gram.Shapes("oC_PropertyKeyName", 1)
	names := c.nameTrees()
	var lookups []*ai.Tree
	for _, l := range e.Gram.Shapes("oC_PropertyLookup", 1) {
		for _, k := range expandAll(l, "oC_PropertyKeyName", keys) {
			lookups = append(lookups, expandAll(k, "oC_SchemaName", names)...)
		}
	}
	if len(lookups) == 0 {
		c.Undecided("oC_PropertyLookup", 0, "no shape of a property lookup")
		return
	}
	c.shapes("oC_PropertyOrLabelsExpression", 3, func(t *ai.Tree) bool { return !t.Has("oC_NodeLabels") }, func(t0 *ai.Tree) {
		use := lookups
		if len(t0.All("oC_PropertyLookup")) > 1 {
			use = lookups[:1]
			if t0.Has("SP") {
				return
			}
		}
		for _, t := range expandAll(t0, "oC_PropertyLookup", use) {
			c.propShape(t)
		}
	})
}

// nameTrees: a plain name and a reserved word used as a name.
func (c *Ctx) nameTrees() []*ai.Tree {
	g := c.E.Gram
	var out []*ai.Tree
	pick := func(rule string, ok func(t *ai.Tree) bool) {
		for _, s := range g.Shapes("oC_SchemaName", 1) {
			if !s.Has(rule) {
				continue
			}
			for _, n := range g.Shapes(rule, 1) {
				if ok(n) {
					out = append(out, expandAll(s, rule, []*ai.Tree{n})...)
					return
				}
			}
		}
	}
	pick("oC_SymbolicName", func(t *ai.Tree) bool { return t.Has("UnescapedSymbolicName") })
	pick("oC_ReservedWord", func(t *ai.Tree) bool { return true })
	if len(out) != 2 {
		c.Undecided("oC_SchemaName", 0, "the grammar of names has changed")
	}
	return out
}

// expandAll replaces the opaque nodes of a rule, at any depth, by each shape.
func expandAll(t *ai.Tree, rule string, ks []*ai.Tree) []*ai.Tree {
	if t.Rule == rule && len(t.Kids) == 0 {
		var out []*ai.Tree
		for _, k := range ks {
			out = append(out, clone(k))
		}
		return out
	}
	cur := []*ai.Tree{{Rule: t.Rule, Sym: t.Sym, Text: t.Text, Empty: t.Empty}}
	for _, k := range t.Kids {
		var next []*ai.Tree
		for _, o := range expandAll(k, rule, ks) {
			for _, c := range cur {
				next = append(next, &ai.Tree{Rule: c.Rule, Sym: c.Sym, Text: c.Text, Empty: c.Empty, Kids: append(append([]*ai.Tree(nil), c.Kids...), clone(o))})
			}
		}
		cur = next
	}
	return cur
}

func sig(params []types.Type, results ...types.Type) *types.Signature {
	tuple := func(ts []types.Type) *types.Tuple {
		var vs []*types.Var
		for _, t := range ts {
			vs = append(vs, types.NewVar(0, nil, "", t))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, tuple(params), tuple(results), false)
}

func ifaceWith(name string, s *types.Signature) types.Type {
	return types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, name, s)}, nil).Complete()
}

type propKinds struct {
	any, withProp, withNative types.Type
	base                      map[string]types.Type
	baseOrder                 []string
	stored                    map[string]types.Type
	storedOrder               []string
}

func (c *Ctx) lpgType(name string) types.Type {
	for _, p := range c.E.Pkg.Pkg.Imports() {
		if strings.Contains(p.Path(), "/lpg") {
			if o := p.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	c.Undecided("lpg."+name, 0, "the graph package has no type %s", name)
	return nil
}

func (c *Ctx) propKinds() *propKinds {
	node, edge, path, set := c.lpgType("Node"), c.lpgType("Edge"), c.lpgType("Path"), c.lpgType("StringSet")
	if node == nil || edge == nil || path == nil || set == nil {
		return nil
	}
	tany := types.NewInterfaceType(nil, nil)
	str := types.Typ[types.String]
	p := &propKinds{any: tany}
	p.withProp = ifaceWith("GetProperty", sig([]types.Type{str}, tany, types.Typ[types.Bool]))
	p.withNative = ifaceWith("GetNativeValue", sig(nil, tany))
	m := types.NewMap(str, c.E.ValueT)
	edges := types.NewSlice(types.NewPointer(edge))
	p.base = map[string]types.Type{"map": m, "node": types.NewPointer(node), "path": types.NewPointer(path), "edges": edges}
	p.baseOrder = []string{"map", "node", "path", "edges"}
	p.stored = map[string]types.Type{}
	add := func(n string, t types.Type) {
		p.stored[n] = t
		p.storedOrder = append(p.storedOrder, n)
	}
	for _, k := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint8, types.Uint16, types.Uint32, types.Float32, types.Float64, types.String, types.Bool} {
		add(types.Typ[k].Name(), types.Typ[k])
	}
	for _, n := range []string{"Duration", "Date", "LocalDateTime", "LocalTime"} {
		t := c.Type(n)
		if t == nil {
			return nil
		}
		add(n, t)
	}
	add("node", types.NewPointer(node))
	add("edges", edges)
	add("path", types.NewPointer(path))
	add("set", set)
	add("list", c.valueList())
	add("map", m)
	return p
}

// splitStored splits a stored value by its kind.
func (c *Ctx) splitStored(pk *propKinds, st *ai.State, v *ai.V, native bool) []kindCase {
	var out []kindCase
	o := st.Clone()
	if native {
		if s := o.Clone(); s.AssumeType(v, pk.withNative, true) {
			out = append(out, kindCase{s, "native", nil})
		}
		if !o.AssumeType(v, pk.withNative, false) {
			return out
		}
	}
	if s := o.Clone(); s.AssumeType(v, c.E.ValueT, true) {
		out = append(out, kindCase{s, "Value", nil})
	}
	if !o.AssumeType(v, c.E.ValueT, false) {
		return out
	}
	return append(out, c.byKind(o, v, pk.stored, pk.storedOrder...)...)
}

func (c *Ctx) propShape(t *ai.Tree) {
	e := c.E
	pk := c.propKinds()
	if pk == nil {
		return
	}
	what := "PropertyOrLabelsExpression " + t.String()
	c.Obl("text", what)
	c.Obl("crash", what)
	atom := t.One("oC_Atom")
	mon := &ai.Monitor{}
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		if ev.Kind != "eval" && ev.Kind != "evalerr" || c.leafOf(ev.Recv) != atom {
			return nil
		}
		if ev.Kind == "evalerr" {
			st.SetGS(leafKey(0), "failed")
			return nil
		}
		g := e.Get(st, ev.Res[0])
		st.Ghost[valKey(0)] = g
		var out []*ai.State
		for _, k := range c.byKind(st, g, pk.base, pk.baseOrder...) {
			k.st.SetGS("base", k.k)
			out = append(out, k.st)
		}
		return out
	}
	stored := func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, v *ai.V, native bool, rest ...*ai.V) []*ai.State {
		var out []*ai.State
		for _, k := range c.splitStored(pk, st, v, native) {
			k.st.SetGS("stored "+fmt.Sprint(v.ID), k.k)
			out = append(out, x.Ret(k.st, ci, append([]*ai.V{v}, rest...)...))
		}
		return out
	}
	mon.Ext = func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, name string) ([]*ai.State, bool) {
		n := name[strings.LastIndexAny(name, ".:")+1:]
		switch n {
		case "GetProperty":
			if len(ci.Args) != 2 || ci.Sig.Results().Len() != 2 {
				return nil, false
			}
			var out []*ai.State
			for _, b := range c.receivers(pk, st, ci.Args[0]) {
				has := c.hasProp(b.p, ci.Args[1])
				b.st.Ghost["looked up"+fmt.Sprint(has.ID)] = has
				if s := b.st.Clone(); s.Assume(has, false) {
					out = append(out, x.Ret(s, ci, e.Nil(pk.any), e.Bool(false)))
				}
				if b.st.Assume(has, true) {
					out = append(out, stored(x, b.st, ci, c.propTerm(pk, b.p, ci.Args[1]), true, e.Bool(true))...)
				}
			}
			return out, true
		case "GetNativeValue":
			if len(ci.Args) != 1 {
				return nil, false
			}
			return stored(x, st, ci, e.Mk("call", pk.any, "GetNativeValue", ci.Args[0]), false), true
		case "NumEdges", "GetEdge", "NumNodes", "GetNode":
			rt := ci.Sig.Results()
			if rt.Len() != 1 {
				return nil, false
			}
			r := e.Mk("call", rt.At(0).Type(), n, ci.Args...)
			if n == "GetEdge" || n == "GetNode" {
				st.AssumeNil(r, false)
			} else {
				st.AssumeCmp(r, e.Int(0), ai.GT|ai.EQ)
			}
			return []*ai.State{x.Ret(st, ci, r)}, true
		}
		return nil, false
	}
	mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {
		x.Report(st, "crash", at, "%s panics: %s", what, w)
	}
	c.runShape(t, mon, nil, true, func(r *shapeRun, st *ai.State, built *ai.V, res []*ai.V) {
		if st.GS(leafKey(0)) == "failed" {
			c.specMatch(r, specOut{st: st, err: true, why: "the base fails"}, res)
			return
		}
		v := st.Ghost[valKey(0)]
		if v == nil {
			r.report(st, "text", "%s does not evaluate its base", t)
			return
		}
		cur := []specOut{{st: st, v: v, why: "there is nothing to look up"}}
		for _, l := range t.All("oC_PropertyLookup") {
			key := e.TextOf(l.Kids[len(l.Kids)-1], types.Typ[types.String])
			var next []specOut
			for _, o := range cur {
				if o.any || o.err {
					next = append(next, o)
					continue
				}
				next = append(next, c.specLookup(pk, r, o, key)...)
			}
			cur = next
		}
		for _, o := range cur {
			c.specMatch(r, o, res)
		}
	})
}

// receivers splits what has the properties by its kind.
func (c *Ctx) receivers(pk *propKinds, st *ai.State, v *ai.V) []kindCase {
	if !ai.IsIface(v.T) {
		return []kindCase{{st, "", v}}
	}
	if k := st.KindOf(v); k.Pos != nil {
		return []kindCase{{st, "", st.Payload(v, k.Pos)}}
	}
	out := c.byKind(st, v, pk.base, "node")
	for i := range out {
		if out[i].p == nil {
			out[i].p = v
		}
	}
	return out
}

func (c *Ctx) hasProp(recv, key *ai.V) *ai.V {
	return c.E.Mk("call", types.Typ[types.Bool], "hasProperty", recv, c.plainStr(key))
}

func (c *Ctx) propTerm(pk *propKinds, recv, key *ai.V) *ai.V {
	return c.E.Mk("call", pk.any, "GetProperty", recv, c.plainStr(key))
}

// plainStr is a string whatever named type it had on the way.
func (c *Ctx) plainStr(v *ai.V) *ai.V {
	for v.Op == "ctype" || v.Op == "conv" {
		v = v.Args[0]
	}
	if v.Op == "px" || v.Op == "const" {
		return c.E.ChangeType(v, types.Typ[types.String])
	}
	return v
}

func (c *Ctx) specLookup(pk *propKinds, r *shapeRun, in specOut, key *ai.V) []specOut {
	e := c.E
	var out []specOut
	for _, b := range c.byKind(in.st, in.v, pk.base, pk.baseOrder...) {
		why := "the base is " + b.k
		on := func(st *ai.State, recv *ai.V) {
			t, f := split(st, c.hasProp(recv, key))
			if f != nil {
				out = append(out, specOut{st: f, v: c.null(), why: why + " without the key"})
			}
			if t != nil {
				out = append(out, c.specStored(pk, t, c.propTerm(pk, recv, key), true, why)...)
			}
		}
		switch b.k {
		case "null":
			out = append(out, specOut{st: b.st, v: c.null(), why: why})
		case "map":
			r.x.MapLookup(b.st, b.p, key, e.ValueT, func(s *ai.State, v *ai.V, ok bool) {
				if !ok {
					out = append(out, specOut{st: s, v: c.null(), why: why + " without the key"})
					return
				}
				out = append(out, specOut{st: s, v: e.Get(s, v), why: why + " with the key"})
			})
		case "node":
			on(b.st, b.p)
		case "path", "edges":
			n, first := b.st.LenOf(b.p), e.Elem(b.p, e.Int(0), b.p.T)
			if b.k == "path" {
				n = e.Mk("call", types.Typ[types.Int], "NumEdges", b.p)
				first = e.Mk("call", types.NewPointer(c.lpgType("Edge")), "GetEdge", b.p, e.Int(0))
			} else {
				first = e.Elem(b.p, e.Int(0), b.p.T.Underlying().(*types.Slice).Elem())
			}
			t, f := split(b.st, e.Cmp(n, e.Int(1), ai.EQ))
			if f != nil {
				out = append(out, specOut{st: f, err: true, why: why + " of several or no relationships"})
			}
			if t != nil {
				on(t, first)
			}
		default:
			if s := b.st.Clone(); s.AssumeType(in.v, pk.withProp, true) {
				out = append(out, specOut{st: s, any: true})
			}
			if b.st.AssumeType(in.v, pk.withProp, false) {
				out = append(out, specOut{st: b.st, err: true, why: "the base has no properties"})
			}
		}
	}
	return out
}

func (c *Ctx) specStored(pk *propKinds, st *ai.State, v *ai.V, native bool, why string) []specOut {
	e := c.E
	var out []specOut
	for _, k := range c.splitStored(pk, st, v, native) {
		why := why + ", the stored value is " + k.k
		switch k.k {
		case "native":
			out = append(out, c.specStored(pk, k.st, e.Mk("call", pk.any, "GetNativeValue", v), false, why)...)
		case "Value":
			out = append(out, specOut{st: k.st, v: e.Get(k.st, v), why: why})
		case "null":
			out = append(out, specOut{st: k.st, v: c.null(), why: why})
		case "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32":
			out = append(out, specOut{st: k.st, v: e.Box(e.Conv(k.p, types.Typ[types.Int])), why: why})
		case "float32":
			out = append(out, specOut{st: k.st, v: e.Box(e.Conv(k.p, types.Typ[types.Float64])), why: why})
		case "other":
			out = append(out, specOut{st: k.st, any: true})
		default:
			out = append(out, specOut{st: k.st, v: e.Box(k.p), why: why})
		}
	}
	return out
}
