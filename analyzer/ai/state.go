package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind is what is known about the dynamic type of an interface value.
type Kind struct {
	Nil     bool       // known nil
	Pos     types.Type // known dynamic type
	Neg     string     // sorted ";"-separated type keys (and "nil") that are excluded
	ImplPos string     // sorted ";"-separated interface type keys known implemented
	ImplNeg string
}

func has(set, k string) bool { return strings.Contains(";"+set+";", ";"+k+";") && set != "" }
func add(set, k string) string {
	if has(set, k) {
		return set
	}
	if set == "" {
		return k
	}
	ks := append(strings.Split(set, ";"), k)
	sort.Strings(ks)
	return strings.Join(ks, ";")
}
func inter(a, b string) string {
	r := ""
	if a == "" {
		return r
	}
	for _, k := range strings.Split(a, ";") {
		if has(b, k) {
			r = add(r, k)
		}
	}
	return r
}

type Trace struct {
	prev *Trace
	msg  string
	n    int
}

type Frame struct {
	fn    *ssa.Function
	block *ssa.BasicBlock
	prev  *ssa.BasicBlock
	idx   int
	regs  map[ssa.Value]*V
	call  ssa.Instruction // the call in the caller, nil for the root or native callers
	defrs []deferred
	nat   *Native
	nv    []*V
	top   bool
}

type deferred struct {
	call *CallInfo
}

// Native is a modelled callee that calls back into analysed code.
type Native struct {
	Name string
	At   ssa.Instruction
	Step func(x *Exec, st *State, f *Frame) []*State
}

type State struct {
	e      *Eng
	frames []*Frame
	heap   map[int64]*V
	over   map[*V]*V
	kinds  map[*V]Kind
	bools  map[*V]bool
	rel    map[[2]*V]uint8
	dbm    map[[2]*V]int64
	distC  map[*V]map[*V]int64 // cache over dbm
	distN  int
	adj    map[*V][]edge
	Ghost  map[string]*V
	trace  *Trace
	steps  int
}

func NewState(e *Eng) *State {
	return &State{e: e, heap: map[int64]*V{}, over: map[*V]*V{}, kinds: map[*V]Kind{}, bools: map[*V]bool{},
		rel: map[[2]*V]uint8{}, dbm: map[[2]*V]int64{}, Ghost: map[string]*V{}}
}

func (st *State) Clone() *State {
	n := &State{e: st.e, trace: st.trace, steps: st.steps}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		n.frames[i] = f.clone()
	}
	n.heap = cloneMap(st.heap)
	n.over = cloneMap(st.over)
	n.kinds = cloneMap(st.kinds)
	n.bools = cloneMap(st.bools)
	n.rel = cloneMap(st.rel)
	n.dbm = cloneMap(st.dbm)
	n.Ghost = cloneMap(st.Ghost)
	return n
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = cloneMap(f.regs)
	n.defrs = nil
	for _, d := range f.defrs {
		c := *d.call
		c.Args = append([]*V(nil), c.Args...)
		n.defrs = append(n.defrs, deferred{&c})
	}
	n.nv = append([]*V(nil), f.nv...)
	return &n
}

func cloneMap[K comparable, T any](m map[K]T) map[K]T {
	n := make(map[K]T, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (st *State) E() *Eng { return st.e }

func (st *State) Note(format string, args ...any) {
	n := 1
	if st.trace != nil {
		n = st.trace.n + 1
	}
	st.trace = &Trace{prev: st.trace, msg: fmt.Sprintf(format, args...), n: n}
}

// TraceLines returns the recorded path, oldest first.
func (st *State) TraceLines() []string {
	var r []string
	for t := st.trace; t != nil; t = t.prev {
		r = append(r, t.msg)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	if len(r) > 60 {
		r = append(append(append([]string{}, r[:20]...), "..."), r[len(r)-38:]...)
	}
	return r
}

// GhostStr / SetGhostStr hold finite monitor state.
func (st *State) GS(k string) string {
	v := st.Ghost[k]
	if v == nil || v.Op != "const" {
		return ""
	}
	return constant.StringVal(v.C)
}
func (st *State) SetGS(k, s string) {
	if s == "" {
		delete(st.Ghost, k)
		return
	}
	st.Ghost[k] = st.e.Str(s)
}

// --- dynamic kinds -------------------------------------------------------------

func (e *Eng) implements(t types.Type, i types.Type) bool {
	k := e.tkey(t) + "<" + e.tkey(i)
	if r, ok := e.implCache[k]; ok {
		return r
	}
	r := types.Implements(t, i.Underlying().(*types.Interface))
	e.implCache[k] = r
	return r
}

// KindOf returns what is known about interface value x.
func (st *State) KindOf(x *V) Kind {
	switch x.Op {
	case "nil":
		return Kind{Nil: true}
	case "iface":
		return Kind{Pos: x.Args[0].T}
	}
	k := st.kinds[x]
	if k.Nil || k.Pos != nil {
		return k
	}
	if st.e.nonNil(x) {
		k.Neg = add(k.Neg, "nil")
	}
	return st.closeKind(x, k)
}

// closeKind uses the closed universe of the Value interface.
func (st *State) closeKind(x *V, k Kind) Kind {
	if k.Nil || k.Pos != nil {
		return k
	}
	e := st.e
	if e.ValueT != nil && x.T != nil && types.Identical(x.T, e.ValueT) {
		var left []types.Type
		for _, n := range []string{"RValue", "LValue"} {
			o := e.Pkg.Pkg.Scope().Lookup(n)
			if o != nil && !has(k.Neg, e.tkey(o.Type())) {
				left = append(left, o.Type())
			}
		}
		if has(k.Neg, "nil") && len(left) == 1 {
			return Kind{Pos: left[0]}
		}
		if len(left) == 0 {
			return Kind{Nil: true}
		}
	}
	return k
}

// NonNilField tells which fields of input structures are never nil.
var NonNilField = map[string]bool{}

func (e *Eng) nonNil(x *V) bool {
	if e.Trees[x] != nil {
		return true
	}
	switch x.Op {
	case "ev", "var", "param", "nonnil", "callres", "ast":
		return true
	case "elem", "mval":
		return true // elements of lists, patterns and rows are never nil interfaces or pointers
	case "as":
		if x.Aux == "impl" {
			return true
		}
		if _, ok := x.T.Underlying().(*types.Pointer); ok {
			return true
		}
	case "mapget":
		return x.T != nil && (IsIface(x.T) && e.ValueT != nil && types.Identical(x.T, e.ValueT))
	case "field":
		if p, ok := x.T.(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "antlr") {
				return true // embedded parts of parser objects
			}
		}
		if n, ok := types.Unalias(x.Args[0].T).(*types.Named); ok {
			return NonNilField[n.Obj().Name()+"."+x.Aux]
		}
	case "ctype":
		return e.nonNil(x.Args[0])
	case "gload":
		if IsIface(x.T) {
			return true // package error variables
		}
	}
	return false
}

// TypeFact decides whether x's dynamic type is T: 1 yes, 0 no, -1 unknown.
// plainIface: what holds of an interface holds under any name it has.
func plainIface(t types.Type) types.Type {
	if i, ok := t.Underlying().(*types.Interface); ok && i.NumMethods() < 3 {
		return i
	}
	return t
}

func (st *State) TypeFact(x *V, t types.Type) int {
	t = plainIface(t)
	k := st.KindOf(x)
	if k.Nil {
		return 0
	}
	e := st.e
	if IsIface(t) {
		it := t.Underlying().(*types.Interface)
		if k.Pos != nil {
			if e.implements(k.Pos, t) {
				return 1
			}
			return 0
		}
		if has(k.ImplPos, e.tkey(t)) {
			return 1
		}
		if has(k.ImplNeg, e.tkey(t)) {
			return 0
		}
		if x.T != nil && IsIface(x.T) && has(k.Neg, "nil") && types.Implements(x.T, it) {
			return 1
		}
		if it.NumMethods() == 0 && has(k.Neg, "nil") {
			return 1
		}
		return -1
	}
	if k.Pos != nil {
		if types.Identical(k.Pos, t) {
			return 1
		}
		return 0
	}
	if r := ruleOf(t); r != "" && has(k.Neg, "nil") && x.T != nil && ruleOf(x.T) == r {
		return 1 // the parser makes one kind of node per rule
	}
	if has(k.Neg, e.tkey(t)) {
		return 0
	}
	// excluded by interface facts?
	if x.T != nil && IsIface(x.T) && !e.implements(t, x.T) {
		return 0
	}
	for _, it := range e.ifaces(k.ImplPos) {
		if !e.implements(t, it) {
			return 0
		}
	}
	for _, it := range e.ifaces(k.ImplNeg) {
		if e.implements(t, it) {
			return 0
		}
	}
	return -1
}

func (e *Eng) ifaces(set string) []types.Type {
	if set == "" {
		return nil
	}
	var r []types.Type
	want := map[string]bool{}
	for _, k := range strings.Split(set, ";") {
		want[k] = true
	}
	e.tkeys.Iterate(func(t types.Type, v any) {
		if want[v.(string)] {
			r = append(r, t)
		}
	})
	return r
}

// AssumeType records x's dynamic type being (or not being) T; false if contradictory.
func (st *State) AssumeType(x *V, t types.Type, is bool) bool {
	t = plainIface(t)
	switch st.TypeFact(x, t) {
	case 1:
		return is
	case 0:
		return !is
	}
	e := st.e
	k := st.KindOf(x)
	if IsIface(t) {
		if is {
			k.ImplPos = add(k.ImplPos, e.tkey(t))
			k.Neg = add(k.Neg, "nil")
		} else {
			k.ImplNeg = add(k.ImplNeg, e.tkey(t))
		}
	} else if is {
		k = Kind{Pos: t}
	} else {
		k.Neg = add(k.Neg, e.tkey(t))
	}
	k = st.closeKind(x, k)
	st.kinds[x] = k
	return true
}

// IsNil of an interface: 1 yes, 0 no, -1 unknown.
func (st *State) IsNil(x *V) int {
	if x.Op == "ast" && IsIface(x.T) {
		return 0 // what builders return is checked where they are defined
	}
	if st.elemNonNil(x) {
		return 0
	}
	if IsIface(x.T) || x.Op == "iface" {
		k := st.KindOf(x)
		if k.Nil {
			return 1
		}
		if k.Pos != nil || has(k.Neg, "nil") || k.ImplPos != "" {
			return 0
		}
		return -1
	}
	if x.Op == "nil" {
		return 1
	}
	c := st.e.IsNilV(x)
	if c.Op == "const" {
		if constant.BoolVal(c.C) {
			return 1
		}
		return 0
	}
	if b, ok := st.bools[c]; ok {
		if b {
			return 1
		}
		return 0
	}
	if st.e.nonNil(x) {
		return 0
	}
	if _, ok := x.T.Underlying().(*types.Slice); ok {
		if lb := st.lower(st.e.Len(x)); lb > 0 {
			return 0
		}
	}
	if x.Op == "ctype" {
		return st.IsNil(x.Args[0])
	}
	return -1
}

// elemNonNil: a part of an element of a list whose position is not known, in
// a list where that part of every element is not nil.
func (st *State) elemNonNil(x *V) bool {
	var path []int
	y := x
	for y.Op == "field" && len(y.Args) == 1 {
		i := st.e.fieldIndex(y)
		if i < 0 {
			return false
		}
		path = append(path, i)
		y = y.Args[0]
	}
	if y.Op != "elem" || y.Args[0].Op != "list" || len(y.Args[0].Args) == 0 {
		return false
	}
	for _, sg := range y.Args[0].Args {
		var b *V
		switch sg.Op {
		case "one":
			b = sg.Args[0]
		case "comp":
			b = sg.Args[2]
		default:
			return false
		}
		for i := len(path) - 1; i >= 0; i-- {
			b = st.e.Field(b, path[i])
		}
		if b == x || st.IsNil(b) != 0 {
			return false
		}
	}
	return true
}

func (st *State) AssumeNil(x *V, is bool) bool {
	switch st.IsNil(x) {
	case 1:
		return is
	case 0:
		return !is
	}
	if IsIface(x.T) {
		k := st.KindOf(x)
		if is {
			k = Kind{Nil: true}
		} else {
			k.Neg = add(k.Neg, "nil")
			k = st.closeKind(x, k)
		}
		st.kinds[x] = k
		return true
	}
	st.bools[st.e.IsNilV(x)] = is
	if is {
		switch x.T.Underlying().(type) {
		case *types.Slice:
			return st.AssumeCmp(st.e.Len(x), st.e.Int(0), EQ)
		case *types.Map:
			return st.AssumeCmp(st.e.MLen(x), st.e.Int(0), EQ)
		}
	}
	return true
}

// --- booleans --------------------------------------------------------------------

// Decide a boolean term: 1, 0 or -1 (unknown).
func (st *State) Decide(b *V) int {
	switch b.Op {
	case "const":
		if constant.BoolVal(b.C) {
			return 1
		}
		return 0
	case "not":
		r := st.Decide(b.Args[0])
		if r < 0 {
			return r
		}
		return 1 - r
	case "ctype":
		return st.Decide(b.Args[0])
	case "cmp":
		poss := st.Rel(b.Args[0], b.Args[1])
		m := uint8(b.N)
		if poss&m == 0 {
			return 0
		}
		if poss&^m == 0 {
			return 1
		}
		return -1
	case "isnil":
		return st.IsNil(b.Args[0])
	case "and":
		x, y := st.Decide(b.Args[0]), st.Decide(b.Args[1])
		if x == 0 || y == 0 {
			return 0
		}
		if x == 1 && y == 1 {
			return 1
		}
	case "beq":
		x, y := st.Decide(b.Args[0]), st.Decide(b.Args[1])
		if x >= 0 && y >= 0 {
			if x == y {
				return 1
			}
			return 0
		}
	}
	if v, ok := st.bools[b]; ok {
		if v {
			return 1
		}
		return 0
	}
	return -1
}

// Assume a boolean term; false when contradictory.
func (st *State) Assume(b *V, truth bool) bool {
	switch st.Decide(b) {
	case 1:
		return truth
	case 0:
		return !truth
	}
	switch b.Op {
	case "not":
		return st.Assume(b.Args[0], !truth)
	case "ctype":
		return st.Assume(b.Args[0], truth)
	case "cmp":
		m := uint8(b.N)
		if !truth {
			m = ^m & (LT | EQ | GT | UN)
		}
		return st.AssumeCmp(b.Args[0], b.Args[1], m)
	case "isnil":
		return st.AssumeNil(b.Args[0], truth)
	case "and":
		if truth {
			return st.Assume(b.Args[0], true) && st.Assume(b.Args[1], true)
		}
		if st.Decide(b.Args[0]) == 1 {
			return st.Assume(b.Args[1], false)
		}
		if st.Decide(b.Args[1]) == 1 {
			return st.Assume(b.Args[0], false)
		}
	case "beq":
		x, y := b.Args[0], b.Args[1]
		if d := st.Decide(x); d >= 0 {
			return st.Assume(y, (d == 1) == truth)
		}
		if d := st.Decide(y); d >= 0 {
			return st.Assume(x, (d == 1) == truth)
		}
	}
	st.bools[b] = truth
	return true
}

// --- order relations -----------------------------------------------------------------

func relKey(a, b *V) ([2]*V, bool) {
	if a.ID > b.ID {
		return [2]*V{b, a}, true
	}
	return [2]*V{a, b}, false
}

func constRel(a, b *V) (uint8, bool) {
	if a.Op != "const" || b.Op != "const" {
		return 0, false
	}
	x, y := a.C, b.C
	if x.Kind() == constant.Bool || y.Kind() == constant.Bool {
		if x.Kind() == y.Kind() && constant.BoolVal(x) == constant.BoolVal(y) {
			return EQ, true
		}
		return LT, true
	}
	if (x.Kind() == constant.String) != (y.Kind() == constant.String) {
		return 0, false
	}
	switch {
	case constant.Compare(x, token.LSS, y):
		return LT, true
	case constant.Compare(x, token.EQL, y):
		return EQ, true
	}
	return GT, true
}

// Rel returns the set of relations possible between a and b.
func (st *State) Rel(a, b *V) uint8 {
	if m, ok := constRel(a, b); ok {
		return m
	}
	if a == b {
		if isFloat(a.T) && !st.notNaN(a) {
			return EQ | UN
		}
		return EQ
	}
	full := uint8(LT | EQ | GT)
	if (isFloat(a.T) || isFloat(b.T)) && !(st.notNaN(a) && st.notNaN(b)) {
		full |= UN
	}
	k, sw := relKey(a, b)
	m := full
	if r, ok := st.rel[k]; ok {
		if sw {
			r = mirror(r)
		}
		m &= r
	}
	if isInt(a.T) && isInt(b.T) {
		ub, lb := st.bound(a, b), -st.bound(b, a)
		if lb >= 0 {
			m &^= LT
		}
		if ub <= 0 {
			m &^= GT
		}
		if lb > 0 || ub < 0 {
			m &^= EQ
		}
	} else {
		if isStr(a.T) && isStr(b.T) {
			m = st.relEqual(a, b, m)
			for _, x := range [2][2]*V{{a, b}, {b, a}} {
				if x[1].Op == "const" && constant.StringVal(x[1].C) == "" && st.Rel(st.e.Len(x[0]), st.e.Int(0))&EQ == 0 {
					m &^= EQ
				}
			}
		}
		// equality with a constant
		if a.Op != "const" && b.Op != "const" {
			return m
		}
		if a.Op == "const" {
			a, b = b, a
			m = mirror(m)
			defer func() {}()
			m = mirror(st.constNarrow(a, b, m))
			return m
		}
		m = st.constNarrow(a, b, m)
	}
	return m
}

// equals are the strings known to be equal to a.
func (st *State) equals(a *V) []*V {
	out := []*V{a}
	for i := 0; i < len(out); i++ {
		for k, r := range st.rel {
			if r != EQ || k[0] != out[i] && k[1] != out[i] {
				continue
			}
			o := k[0]
			if o == out[i] {
				o = k[1]
			}
			known := false
			for _, x := range out {
				known = known || x == o
			}
			if !known {
				out = append(out, o)
			}
		}
	}
	return out
}

// relEqual narrows the relation of strings by those of strings equal to them.
func (st *State) relEqual(a, b *V, m uint8) uint8 {
	as, bs := st.equals(a), st.equals(b)
	if len(as) == 1 && len(bs) == 1 {
		return m
	}
	for _, x := range as {
		for _, y := range bs {
			if x == y {
				return m & EQ
			}
			if r, ok := constRel(x, y); ok {
				m &= r
				continue
			}
			k, sw := relKey(x, y)
			if r, ok := st.rel[k]; ok {
				if sw {
					r = mirror(r)
				}
				m &= r
			}
		}
	}
	return m
}

// constNarrow narrows the relation of x and constant c by other constants x is related to.
func (st *State) constNarrow(x, c *V, m uint8) uint8 {
	for k, r := range st.rel {
		var o *V
		switch {
		case k[0] == x && k[1].Op == "const":
			o = k[1]
		case k[1] == x && k[0].Op == "const":
			o = k[0]
			r = mirror(r)
		default:
			continue
		}
		if o == c {
			continue
		}
		if r == EQ {
			if q, ok := constRel(o, c); ok {
				return m & q
			}
		}
	}
	return m
}

func (st *State) notNaN(a *V) bool {
	switch a.Op {
	case "const":
		return true
	case "conv":
		return isInt(a.Args[0].T)
	}
	b, ok := st.bools[st.e.Mk("isnan", types.Typ[types.Bool], "", a)]
	return ok && !b
}

const inf = int64(1) << 60

var zeroBase = &V{ID: -1, Op: "zerobase"}

// bound returns the least k known with a-b <= k (inf if none).
func (st *State) bound(a, b *V) int64 {
	ab, ao := st.e.SplitInt(a)
	bb, bo := st.e.SplitInt(b)
	if ab == nil {
		ab = zeroBase
	}
	if bb == nil {
		bb = zeroBase
	}
	d := st.dist(ab, bb)
	if d >= inf {
		return inf
	}
	return d + ao - bo
}

// dist: least k with a-b <= k over the difference constraints.
func (st *State) dist(a, b *V) int64 {
	if a == b {
		return 0
	}
	if r, ok := st.distFrom(a)[b]; ok {
		return r
	}
	// a term without constraints of its own
	if r, ok := st.distFrom(a)[zeroBase]; ok && implicitLow(b) {
		return r
	}
	return inf
}

func implicitLow(v *V) bool {
	return v != nil && (v.Op == "len" || v.Op == "mlen" || v.Op == "natural" || isUnsigned(v.T))
}

// distFrom: shortest distances from a over edges x -> y of weight k for x-y <= k.
func (st *State) distFrom(a *V) map[*V]int64 {
	if st.distN != len(st.dbm) || st.distC == nil {
		st.distC = map[*V]map[*V]int64{}
		st.distN = len(st.dbm)
		st.adj = map[*V][]edge{}
		for k, w := range st.dbm {
			st.adj[k[0]] = append(st.adj[k[0]], edge{k[1], w})
			for _, v := range k {
				if _, ok := st.adj[v]; !ok {
					st.adj[v] = nil
				}
			}
		}
		for v := range st.adj {
			if implicitLow(v) {
				st.adj[zeroBase] = append(st.adj[zeroBase], edge{v, 0}) // 0 - v <= 0
			}
			if isByte(v.T) {
				st.adj[v] = append(st.adj[v], edge{zeroBase, 255})
			}
		}
	}
	if d, ok := st.distC[a]; ok {
		return d
	}
	d := map[*V]int64{a: 0}
	queue := []*V{a}
	in := map[*V]bool{a: true}
	if isByte(a.T) && st.adj[a] == nil {
		d[zeroBase] = 255
		queue = append(queue, zeroBase)
		in[zeroBase] = true
	}
	limit := (len(st.adj) + 2) * (len(st.adj) + 2) * 4
	for n := 0; len(queue) > 0 && n < limit; n++ {
		x := queue[0]
		queue = queue[1:]
		in[x] = false
		for _, e := range st.adj[x] {
			if dy, ok := d[e.to]; !ok || d[x]+e.w < dy {
				d[e.to] = d[x] + e.w
				if !in[e.to] {
					in[e.to] = true
					queue = append(queue, e.to)
				}
			}
		}
	}
	st.distC[a] = d
	return d
}

type edge struct {
	to *V
	w  int64
}

func isByte(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (st *State) lower(a *V) int64 {
	r := st.bound(st.e.Int(0), a)
	if r >= inf {
		return -inf
	}
	return -r
}
func (st *State) upper(a *V) int64 { return st.bound(a, st.e.Int(0)) }

// addDiff records a-b <= k.
func (st *State) addDiff(a, b *V, k int64) bool {
	ab, ao := st.e.SplitInt(a)
	bb, bo := st.e.SplitInt(b)
	if ab == nil {
		ab = zeroBase
	}
	if bb == nil {
		bb = zeroBase
	}
	k = k - ao + bo
	if ab == bb {
		return k >= 0
	}
	if back := st.dist(bb, ab); back < inf && back+k < 0 {
		return false
	}
	if st.dist(ab, bb) <= k {
		return true
	}
	st.dbm[[2]*V{ab, bb}] = k
	st.distC = nil
	return true
}

// AssumeCmp records that the relation of a and b is in mask.
func (st *State) AssumeCmp(a, b *V, mask uint8) bool {
	poss := st.Rel(a, b)
	m := poss & mask
	if m == 0 {
		return false
	}
	if m == poss {
		return true
	}
	if isInt(a.T) && isInt(b.T) {
		ok := true
		switch m & (LT | EQ | GT) {
		case LT:
			ok = st.addDiff(a, b, -1)
		case LT | EQ:
			ok = st.addDiff(a, b, 0)
		case EQ:
			ok = st.addDiff(a, b, 0) && st.addDiff(b, a, 0)
		case GT | EQ:
			ok = st.addDiff(b, a, 0)
		case GT:
			ok = st.addDiff(b, a, -1)
		case LT | GT:
			k, _ := relKey(a, b)
			st.rel[k] = LT | GT | UN
		}
		if !ok {
			return false
		}
		// neq facts tighten touching bounds
		for changed := true; changed; {
			changed = false
			for k, r := range st.rel {
				if r&EQ != 0 || !isInt(k[0].T) || !isInt(k[1].T) {
					continue
				}
				if st.bound(k[0], k[1]) == 0 {
					if !st.addDiff(k[0], k[1], -1) {
						return false
					}
					delete(st.rel, k)
					changed = true
					break
				}
				if st.bound(k[1], k[0]) == 0 {
					if !st.addDiff(k[1], k[0], -1) {
						return false
					}
					delete(st.rel, k)
					changed = true
					break
				}
			}
		}
		return true
	}
	k, sw := relKey(a, b)
	if sw {
		m = mirror(m)
	}
	st.rel[k] = m
	if m == EQ {
		// transport facts for pointers/strings is not needed: terms keep both names
	}
	return true
}

// equalInts finds integer flexible symbols proven equal to another term and
// substitutes them in the whole state.
func (st *State) unifyInts() {
	for {
		done := true
		var syms []*V
		for k := range st.dbm {
			for _, v := range k {
				if v.Op == "sym" && v.N > 0 && isInt(v.T) {
					syms = append(syms, v)
				}
			}
		}
		sort.Slice(syms, func(i, j int) bool { return syms[i].ID < syms[j].ID })
	outer:
		for _, z := range syms {
			for k := range st.dbm {
				for _, o := range k {
					if o == z || Contains(o, z) {
						continue
					}
					d1 := st.dist(z, o)
					if d1 >= inf {
						continue
					}
					if d2 := st.dist(o, z); d2 == -d1 {
						var to *V
						if o == zeroBase {
							to = st.e.Const(constant.MakeInt64(d1), z.T)
						} else {
							to = st.e.Lin(o, d1, z.T)
						}
						st.Subst(z, to)
						done = false
						break outer
					}
				}
			}
		}
		if done {
			return
		}
	}
}

// Subst replaces a term in the whole state.
func (st *State) Subst(from, to *V) {
	memo := map[*V]*V{}
	f := func(v *V) *V {
		if v == from {
			return to
		}
		return nil
	}
	st.mapAll(func(v *V) *V { return st.e.rewrite(v, f, memo) })
}

// mapAll applies a rewriting to every value held by the state.
func (st *State) mapAll(r func(*V) *V) {
	for _, f := range st.frames {
		for k, v := range f.regs {
			f.regs[k] = r(v)
		}
		for i, v := range f.nv {
			if v != nil {
				f.nv[i] = r(v)
			}
		}
	}
	for k, v := range st.heap {
		st.heap[k] = r(v)
	}
	over := map[*V]*V{}
	for k, v := range st.over {
		over[r(k)] = r(v)
	}
	st.over = over
	kinds := map[*V]Kind{}
	for k, v := range st.kinds {
		kinds[r(k)] = v
	}
	st.kinds = kinds
	bools := map[*V]bool{}
	for k, v := range st.bools {
		n := r(k)
		if n.Op != "const" {
			bools[n] = v
		}
	}
	st.bools = bools
	rel := map[[2]*V]uint8{}
	for k, v := range st.rel {
		a, b := r(k[0]), r(k[1])
		if a == b {
			continue
		}
		nk, sw := relKey(a, b)
		if sw {
			v = mirror(v)
		}
		rel[nk] = v
	}
	st.rel = rel
	old := st.dbm
	st.dbm = map[[2]*V]int64{}
	st.distC = nil
	for k, w := range old {
		var a, b *V
		if k[0] == zeroBase {
			a = st.e.Int(0)
		} else {
			a = r(k[0])
		}
		if k[1] == zeroBase {
			b = st.e.Int(0)
		} else {
			b = r(k[1])
		}
		st.addDiff(a, b, w)
	}
	for k, v := range st.Ghost {
		st.Ghost[k] = r(v)
	}
}

// --- memory --------------------------------------------------------------------------

// Load through a pointer value.
func (st *State) Load(p *V) *V {
	e := st.e
	switch p.Op {
	case "ptr":
		v := st.heap[p.N]
		if v == nil {
			panic("load of unknown object")
		}
		return v
	case "faddr":
		return e.Field(st.Load(p.Args[0]), int(p.N))
	case "eaddr":
		base := p.Args[0]
		et := p.T.Underlying().(*types.Pointer).Elem()
		if pt, ok := base.T.Underlying().(*types.Pointer); ok {
			if _, isArr := pt.Elem().Underlying().(*types.Array); isArr {
				return st.arrElem(st.Load(base), p.Args[1], et)
			}
		}
		return st.ElemOf(base, p.Args[1], et)
	}
	if v, ok := st.over[p]; ok {
		return v
	}
	et := p.T.Underlying().(*types.Pointer).Elem()
	if p.Op == "gaddr" {
		return e.Mk("gload", et, p.Aux)
	}
	return e.Mk("deref", et, "", p)
}

func (st *State) arrElem(arr, i *V, et types.Type) *V {
	if arr.Op == "array" {
		if b, n := st.e.SplitInt(i); b == nil && n >= 0 && int(n) < len(arr.Args) {
			return arr.Args[n]
		}
		return st.e.Fresh(et, "arrayelem")
	}
	return st.e.Mk("elem", et, "", arr, i)
}

// ElemOf reads an element of a slice value.
func (st *State) ElemOf(s, i *V, et types.Type) *V {
	e := st.e
	if s.Op == "slref" {
		s = st.heap[s.N]
	}
	if s.Op == "lany" {
		return st.freshen(s.Args[1])
	}
	if s.Op == "lupd" {
		switch r := st.Rel(s.Args[1], i); {
		case r == EQ:
			return s.Args[2]
		case r&EQ == 0:
			return st.ElemOf(s.Args[0], i, et)
		}
		v := e.Fresh(et, "item")
		if IsIface(et) {
			k := e.joinKind(st.KindOf(s.Args[2]), st.KindOf(st.ElemOf(s.Args[0], i, et)))
			if k != (Kind{}) {
				st.kinds[v] = st.closeKind(v, k)
			}
		}
		return v
	}
	r := e.Elem(s, i, et)
	if r.Op == "elem" && s.Op == "list" {
		for _, sg := range s.Args {
			if sg.Op == "all" && isListy(sg.Args[0]) {
				// some element: one that stands for all
				g := &gen{e: e, a: st, b: st, c: st}
				return st.freshen(g.summary(g.items(st, s), 0))
			}
		}
	}
	return r
}

// freshen renames the flexible symbols of a summary element.
func (st *State) freshen(t *V) *V {
	e := st.e
	memo := map[*V]*V{}
	ren := map[*V]*V{}
	r := e.rewrite(t, func(v *V) *V {
		if v.Op == "sym" && v.N > 0 {
			n := e.Fresh(v.T, v.Aux)
			ren[v] = n
			return n
		}
		return nil
	}, memo)
	for o, n := range memo {
		if o == n {
			continue
		}
		if k, ok := st.kinds[o]; ok {
			st.kinds[n] = k
		}
		if b, ok := st.bools[o]; ok {
			st.bools[n] = b
		}
	}
	return r
}

// ListOf resolves a slice reference to its current content.
func (st *State) ListOf(s *V) *V {
	if s.Op == "slref" {
		return st.heap[s.N]
	}
	return s
}

func (st *State) Store(p, v *V) {
	e := st.e
	switch p.Op {
	case "ptr":
		st.heap[p.N] = v
	case "faddr":
		st.Store(p.Args[0], e.WithField(st.Load(p.Args[0]), int(p.N), v))
	case "eaddr":
		base := p.Args[0]
		if pt, ok := base.T.Underlying().(*types.Pointer); ok {
			if _, isArr := pt.Elem().Underlying().(*types.Array); isArr {
				arr := st.Load(base)
				if arr.Op == "array" {
					args := append([]*V(nil), arr.Args...)
					if b, n := e.SplitInt(p.Args[1]); b == nil && n >= 0 && int(n) < len(args) {
						args[n] = v
					} else {
						for i := range args {
							args[i] = e.Fresh(args[i].T, "weak")
						}
					}
					st.Store(base, e.Mk("array", arr.T, "", args...))
				}
				return
			}
		}
		st.storeElem(base, p.Args[1], v)
	default:
		st.over[p] = v
	}
}

func (st *State) storeElem(s, i, v *V) {
	e := st.e
	cur := st.ListOf(s)
	upd := func(l *V) *V {
		if l.Op == "list" {
			if b, n := e.SplitInt(i); b == nil && n >= 0 {
				ok := true
				for k := 0; k <= int(n) && ok; k++ {
					ok = k < len(l.Args) && l.Args[k].Op == "one"
				}
				if ok {
					segs := append([]*V(nil), l.Args...)
					segs[n] = e.One(v)
					return e.List(l.T, segs...)
				}
			}
		}
		// an update at an unknown place: remember it as the last write
		return e.Mk("lupd", l.T, "", l, i, v)
	}
	n := upd(cur)
	if s.Op == "slref" {
		st.heap[s.N] = n
		return
	}
	if s.Op == "list" || s.Op == "lany" || s.Op == "lupd" {
		// aliases of an immutable list value: replace everywhere
		st.Subst(s, n)
		return
	}
	st.over[e.Mk("eaddr", types.NewPointer(v.T), "", s, i)] = v
}

// MapContent of a map value: an "mcont" term whose first argument may be a
// symbolic base map.
func (st *State) MapContent(m *V) *V {
	e := st.e
	switch m.Op {
	case "map":
		return st.heap[m.N]
	case "fmap":
		return m.Args[0]
	case "nil":
		return e.Mk("mcont", nil, "")
	case "ctype":
		return st.MapContent(m.Args[0])
	}
	if c, ok := st.over[m]; ok {
		return c
	}
	return e.Mk("mcont", nil, "", e.Mk("base", nil, "", m))
}

func (st *State) SetMapContent(m, c *V) {
	switch m.Op {
	case "map":
		st.heap[m.N] = c
	case "ctype":
		st.SetMapContent(m.Args[0], c)
	default:
		st.over[m] = c
	}
}

// MapAdd appends an update to a map's content.
func (st *State) MapAdd(m *V, ent *V) {
	e := st.e
	c := st.MapContent(m)
	args := append([]*V(nil), c.Args...)
	if ent.Op == "ent" || ent.Op == "del" {
		// an earlier entry for the very same key is superseded
		for i := len(args) - 1; i >= 0; i-- {
			if (args[i].Op == "ent" || args[i].Op == "del") && args[i].Args[0] == ent.Args[0] {
				args = append(args[:i:i], args[i+1:]...)
				break
			}
			if args[i].Op != "ent" && args[i].Op != "del" {
				break
			}
		}
	}
	args = append(args, ent)
	st.SetMapContent(m, e.Mk("mcont", nil, "", e.normSegs(args)...))
}

// Freeze turns references to mutable maps inside a term into immutable ones.
func (st *State) Freeze(t *V) *V {
	e := st.e
	memo := map[*V]*V{}
	return e.rewrite(t, func(v *V) *V {
		if v.Op == "map" {
			return e.Mk("fmap", v.T, "", st.Freeze(st.heap[v.N]))
		}
		if v.Op == "slref" {
			return st.Freeze(st.heap[v.N])
		}
		return nil
	}, memo)
}

// concretize replaces decided boolean values by constants where values are
// held; the facts that decided them can then be forgotten.
func (st *State) concretize() {
	e := st.e
	memo := map[*V]*V{}
	var r func(v *V) *V
	r = func(v *V) *V {
		if v == nil {
			return nil
		}
		if w, ok := memo[v]; ok {
			return w
		}
		w := v
		switch {
		case v.Op == "const":
		case v.T != nil && isBool(v.T):
			if d := st.Decide(v); d >= 0 && v.T != nil {
				w = e.Const(constant.MakeBool(d == 1), v.T)
			}
		case v.Op == "struct" || v.Op == "iface" || v.Op == "tuple" || v.Op == "array" || v.Op == "list" || v.Op == "one":
			args := make([]*V, len(v.Args))
			ch := false
			for i, a := range v.Args {
				args[i] = r(a)
				ch = ch || args[i] != a
			}
			if ch {
				w = e.rebuild(v, args)
			}
		}
		memo[v] = w
		return w
	}
	st.roots(func(where string, v *V) *V {
		if strings.HasPrefix(where, "g:") {
			return v
		}
		return r(v)
	})
	for k, v := range st.heap {
		st.heap[k] = r(v)
	}
}
