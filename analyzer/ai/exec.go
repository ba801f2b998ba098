package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	Kind  string // eval, evalerr, call, fail, store, gstore, mapstore, inerr, branch
	Name  string
	Recv  *V
	Env   *V
	Args  []*V
	Res   []*V
	Instr ssa.Instruction
	Fn    *ssa.Function // enclosing function
}

type CallInfo struct {
	Instr  ssa.Instruction
	Val    ssa.Value
	Fn     *ssa.Function
	Method *types.Func
	Args   []*V
	Sig    *types.Signature
	FnV    *V
	native bool
}

// Monitor is a specification automaton.
type Monitor struct {
	OnEvent  func(x *Exec, st *State, ev *Event) []*State // nil result: unchanged
	OnReturn func(x *Exec, st *State, res []*V)
	OnPanic  func(x *Exec, st *State, what string, at ssa.Instruction)
	// Boundary decides whether a static in-package callee is left opaque.
	Boundary func(x *Exec, st *State, fn *ssa.Function) bool
	// BoundaryCall may model a boundary callee itself.
	BoundaryCall func(x *Exec, st *State, ci *CallInfo) ([]*State, bool)
	NoModel      map[string]bool
	// BoundaryArgs is Boundary for callees judged by their arguments.
	BoundaryArgs func(x *Exec, st *State, ci *CallInfo) bool
	// AtMerge lets the specification record facts that joining may lose.
	AtMerge func(x *Exec, st *State)
	// Eval may model the evaluation of an opaque expression.
	Eval func(x *Exec, st *State, ci *CallInfo, recv, ctx *V) ([]*State, bool)
	// Ext may model a call of a function or method outside the package.
	Ext func(x *Exec, st *State, ci *CallInfo, name string) ([]*State, bool)
	// Recovered is the result of recover(); nil: no panic is in flight.
	Recovered *V
}

type Finding struct {
	Rule  string
	Pos   token.Pos
	Fn    string
	Msg   string
	Trace []string
}

type Exec struct {
	E        *Eng
	Mon      *Monitor
	Entry    *ssa.Function
	Findings []Finding
	fkeys    map[string]bool

	work   []*State
	seen   map[string]bool
	heads  map[string]*headEntry
	Steps  int
	Limit  int
	MaxDep int
	Recur  int // how deep a function may call itself, at least 2

	Returns   int
	Joins     int
	States    int
	Panics    int
	Undecided string
	Bounded   string        // why exploration was cut short: what remains was not explored
	MaxTime   time.Duration // of exploration
	start     time.Time
	stop      bool
	Funcs     map[string]bool // functions traversed
	Calls     map[ssa.Instruction]bool
	Debug     bool
	DebugJoin bool
	Unroll    int // loop heads are joined only after this many arrivals
	unrolled  map[string]int
}

func NewExec(e *Eng, entry *ssa.Function, mon *Monitor) *Exec {
	return &Exec{E: e, Mon: mon, Entry: entry, fkeys: map[string]bool{}, seen: map[string]bool{}, heads: map[string]*headEntry{},
		Limit: 2000000, MaxTime: 100 * time.Second, MaxDep: 24, Funcs: map[string]bool{}, Calls: map[ssa.Instruction]bool{}}
}

// Report records a finding once per rule, construct and message.
func (x *Exec) Report(st *State, rule string, at ssa.Instruction, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	pos := token.NoPos
	fn := x.Entry.String()
	if at != nil {
		pos = InstrPos(at)
		if at.Parent() != nil {
			fn = at.Parent().String()
		}
	}
	k := rule + "|" + fn + "|" + msg
	if x.fkeys[k] {
		return
	}
	x.fkeys[k] = true
	f := Finding{Rule: rule, Pos: pos, Fn: fn, Msg: msg}
	if st != nil {
		f.Trace = st.TraceLines()
	}
	x.Findings = append(x.Findings, f)
}

// InstrPos finds a usable position for an instruction.
func InstrPos(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	if v, ok := i.(ssa.Value); ok {
		for _, o := range i.Operands(nil) {
			if *o != nil && (*o).Pos().IsValid() {
				return (*o).Pos()
			}
		}
		_ = v
	}
	b := i.Block()
	if b == nil {
		return token.NoPos
	}
	p := token.NoPos
	for _, j := range b.Instrs {
		if j.Pos().IsValid() {
			p = j.Pos()
		}
		if j == i && p.IsValid() {
			return p
		}
	}
	if !p.IsValid() && i.Parent() != nil {
		return i.Parent().Pos()
	}
	return p
}

func (x *Exec) loc(i ssa.Instruction) string {
	p := x.E.Prog.Fset.Position(InstrPos(i))
	f := p.Filename
	for j := len(f) - 1; j >= 0; j-- {
		if f[j] == '/' {
			f = f[j+1:]
			break
		}
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// Run explores from the given initial states (frames set up by Start).
func (x *Exec) Run(init ...*State) {
	x.work = append(x.work, init...)
	x.start = time.Now()
	if x.late() {
		return
	}
	for len(x.work) > 0 {
		st := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.run(st)
		if x.Undecided != "" || x.stop {
			return
		}
	}
}

// Until is when all explorations end.
var Until time.Time

func (x *Exec) late() bool {
	if !Until.IsZero() && time.Now().After(Until) {
		x.Bounded = "the time of the check was used up"
		x.stop = true
		return true
	}
	return false
}

// Start pushes the entry frame with the given arguments.
func (x *Exec) Start(st *State, args []*V) *State {
	f := &Frame{fn: x.Entry, block: x.Entry.Blocks[0], regs: map[ssa.Value]*V{}, top: true}
	for i, p := range x.Entry.Params {
		f.regs[p] = args[i]
	}
	for _, fv := range x.Entry.FreeVars {
		v := x.E.Sym("captured:"+fv.Name(), fv.Type())
		st.AssumeNil(v, false)
		f.regs[fv] = v
	}
	st.frames = append(st.frames, f)
	x.Funcs[x.Entry.String()] = true
	return st
}

func (st *State) Top() *Frame { return st.frames[len(st.frames)-1] }

// Caller returns the innermost analysed function.
func (st *State) CurFn() *ssa.Function {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].fn != nil {
			return st.frames[i].fn
		}
	}
	return nil
}

func (x *Exec) run(st *State) {
	for {
		x.Steps++
		if x.Steps > x.Limit {
			x.Bounded = fmt.Sprintf("more than %d abstract steps", x.Limit)
			x.stop = true
			return
		}
		if x.Steps%64 == 0 && time.Since(x.start) > x.MaxTime {
			x.Bounded = fmt.Sprintf("more than %v of exploration", x.MaxTime)
			x.stop = true
			return
		}
		if x.Steps%64 == 0 && x.late() {
			return
		}
		f := st.Top()
		var next []*State
		if f.nat != nil {
			next = f.nat.Step(x, st, f)
		} else {
			next = x.step(st, f)
		}
		switch len(next) {
		case 0:
			return
		case 1:
			st = next[0]
		default:
			x.work = append(x.work, next[1:]...)
			st = next[0]
		}
	}
}

func one(st *State) []*State { return []*State{st} }

// val of an SSA operand.
func (x *Exec) val(f *Frame, v ssa.Value) *V {
	e := x.E
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return e.Zero(c.Type())
		}
		if isFloat(c.Type()) {
			return e.Const(constant.ToFloat(c.Value), c.Type())
		}
		return e.Const(c.Value, c.Type())
	case *ssa.Function:
		return e.intern(V{Op: "func", Fn: c, T: c.Type()})
	case *ssa.Global:
		return e.Mk("gaddr", c.Type(), c.String())
	case *ssa.Builtin:
		return e.Mk("builtin", c.Type(), c.Name())
	}
	r, ok := f.regs[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, f.fn))
	}
	return r
}

func (x *Exec) panicOut(st *State, what string, at ssa.Instruction) {
	if !st.GrammarOK() {
		return
	}
	x.Panics++
	if x.Mon.OnPanic != nil {
		x.Mon.OnPanic(x, st, what, at)
	}
}

// require: fork a panic outcome unless cond is known true; continue assuming it.
func (x *Exec) require(st *State, cond *V, what string, at ssa.Instruction) bool {
	switch st.Decide(cond) {
	case 1:
		return true
	case 0:
		x.panicOut(st, what, at)
		return false
	}
	p := st.Clone()
	if p.Assume(cond, false) {
		x.panicOut(p, what, at)
	}
	return st.Assume(cond, true)
}

func (x *Exec) nonNil(st *State, p *V, at ssa.Instruction) bool {
	switch st.IsNil(p) {
	case 0:
		return true
	case 1:
		x.panicOut(st, "nil dereference", at)
		return false
	}
	q := st.Clone()
	if q.AssumeNil(p, true) {
		x.panicOut(q, "nil dereference of "+p.Show(), at)
	}
	return st.AssumeNil(p, false)
}

func (x *Exec) emit(st *State, ev *Event) []*State {
	if ev.Fn == nil {
		ev.Fn = st.CurFn()
	}
	if x.Mon.OnEvent != nil {
		if r := x.Mon.OnEvent(x, st, ev); r != nil {
			return r
		}
	}
	return one(st)
}

func (e *Eng) FAddr(p *V, i int, t types.Type) *V {
	return e.intern(V{Op: "faddr", T: t, Args: []*V{p}, N: int64(i)})
}

func (x *Exec) step(st *State, f *Frame) []*State {
	e := x.E
	in := f.block.Instrs[f.idx]
	set := func(v ssa.Value, r *V) []*State {
		if r == nil {
			panic("nil abstract value for " + v.String())
		}
		f.regs[v] = r
		f.idx++
		return one(st)
	}
	if x.Debug {
		fmt.Println("   ", len(st.frames), f.fn.Name(), f.block.Index, in)
	}
	switch i := in.(type) {
	case *ssa.DebugRef:
		f.idx++
		return one(st)
	case *ssa.Alloc:
		obj := e.NewObj()
		st.heap[obj] = e.Zero(i.Type().Underlying().(*types.Pointer).Elem())
		return set(i, e.Ptr(obj, i.Type()))
	case *ssa.BinOp:
		return x.binop(st, f, i)
	case *ssa.UnOp:
		v := x.val(f, i.X)
		switch i.Op {
		case token.MUL:
			if !x.nonNil(st, v, i) {
				return nil
			}
			return set(i, st.Load(v))
		case token.NOT:
			return set(i, e.Not(v))
		case token.SUB:
			if v.Op == "const" {
				r := constant.UnaryOp(token.SUB, v.C, 0)
				if isFloat(v.T) || constInRange(r, v.T) {
					return set(i, e.Const(r, i.Type()))
				}
			}
			return set(i, e.Neg(v))
		}
		return set(i, e.Mk("un:"+i.Op.String(), i.Type(), "", v))
	case *ssa.ChangeInterface:
		return set(i, x.val(f, i.X))
	case *ssa.ChangeType:
		if IsIface(i.Type()) {
			return set(i, x.val(f, i.X)) // between interfaces with the same methods
		}
		return set(i, e.ChangeType(x.val(f, i.X), i.Type()))
	case *ssa.Convert:
		v := x.val(f, i.X)
		if r := st.convText(v, i.Type()); r != nil {
			return set(i, r)
		}
		r := e.Conv(v, i.Type())
		st.convFacts(v, r)
		return set(i, r)
	case *ssa.MakeInterface:
		return set(i, e.Box(x.val(f, i.X)))
	case *ssa.MakeClosure:
		var b []*V
		for _, v := range i.Bindings {
			b = append(b, x.val(f, v))
		}
		return set(i, e.intern(V{Op: "closure", Fn: i.Fn.(*ssa.Function), Args: b, T: i.Type()}))
	case *ssa.MakeMap:
		obj := e.NewObj()
		st.heap[obj] = e.Mk("mcont", nil, "")
		return set(i, e.intern(V{Op: "map", T: i.Type(), N: obj}))
	case *ssa.MakeSlice:
		n, c := x.val(f, i.Len), x.val(f, i.Cap)
		if !x.require(st, e.Cmp(n, e.Int(0), GT|EQ), "makeslice: negative length", i) {
			return nil
		}
		if !x.require(st, e.Cmp(c, n, GT|EQ), "makeslice: capacity below length", i) {
			return nil
		}
		et := i.Type().Underlying().(*types.Slice).Elem()
		if b, k := e.SplitInt(n); b == nil && k == 0 {
			return set(i, e.List(i.Type()))
		} else if b == nil && k <= 8 {
			var segs []*V
			for j := int64(0); j < k; j++ {
				segs = append(segs, e.One(e.Zero(et)))
			}
			obj := e.NewObj()
			st.heap[obj] = e.List(i.Type(), segs...)
			return set(i, e.intern(V{Op: "slref", T: i.Type(), N: obj}))
		}
		obj := e.NewObj()
		st.heap[obj] = e.Mk("lany", i.Type(), "zero", n, e.Zero(et))
		return set(i, e.intern(V{Op: "slref", T: i.Type(), N: obj}))
	case *ssa.Field:
		return set(i, e.Field(x.val(f, i.X), i.Field))
	case *ssa.FieldAddr:
		p := x.val(f, i.X)
		if !x.nonNil(st, p, i) {
			return nil
		}
		return set(i, e.FAddr(p, i.Field, i.Type()))
	case *ssa.Index:
		s, k := x.val(f, i.X), x.val(f, i.Index)
		if isStr(i.X.Type()) {
			if !x.index(st, e.Len(s), k, i) {
				return nil
			}
			return set(i, e.ByteAt(s, k))
		}
		if at, ok := i.X.Type().Underlying().(*types.Array); ok {
			if !x.index(st, e.Int(at.Len()), k, i) {
				return nil
			}
		}
		return set(i, st.arrElem(s, k, i.Type()))
	case *ssa.IndexAddr:
		s, k := x.val(f, i.X), x.val(f, i.Index)
		var n *V
		if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			if !x.nonNil(st, s, i) {
				return nil
			}
			n = e.Int(pt.Elem().Underlying().(*types.Array).Len())
		} else {
			n = st.LenOf(s)
		}
		if !x.index(st, n, k, i) {
			return nil
		}
		return set(i, e.Mk("eaddr", i.Type(), "", s, k))
	case *ssa.Lookup:
		return x.lookup(st, f, i)
	case *ssa.MapUpdate:
		m := x.val(f, i.Map)
		switch st.IsNil(m) {
		case 1:
			x.panicOut(st, "assignment to nil map", i)
			return nil
		case -1:
			p := st.Clone()
			if p.AssumeNil(m, true) {
				x.panicOut(p, "assignment to possibly nil map "+m.Show(), i)
			}
			if !st.AssumeNil(m, false) {
				return nil
			}
		}
		k, v := x.val(f, i.Key), x.val(f, i.Value)
		f.idx++
		st.MapAdd(m, e.Mk("ent", nil, "", k, v))
		return x.emit(st, &Event{Kind: "mapstore", Recv: m, Args: []*V{k, v}, Instr: i})
	case *ssa.Next:
		return x.next(st, f, i)
	case *ssa.Range:
		v := x.val(f, i.X)
		obj := e.NewObj()
		src := v
		if _, ok := i.X.Type().Underlying().(*types.Map); ok {
			c := st.MapContent(v)
			if c == nil {
				panic("map of unknown content: " + v.Show() + " at " + x.loc(i))
			}
			if len(c.Args) == 1 && c.Args[0].Op == "base" {
				src = c.Args[0].Args[0]
			} else if len(c.Args) == 1 && c.Args[0].Op == "spread" {
				src = c.Args[0].Args[0]
			} else {
				src = e.Mk("fmap", i.X.Type(), "", st.Freeze(c))
			}
		}
		st.heap[obj] = e.Mk("iterst", nil, "", src, e.Int(0))
		return set(i, e.intern(V{Op: "iter", N: obj}))
	case *ssa.Slice:
		return x.slice(st, f, i)
	case *ssa.Store:
		p, v := x.val(f, i.Addr), x.val(f, i.Val)
		if !x.nonNil(st, p, i) {
			return nil
		}
		f.idx++
		st.Store(p, v)
		if r := rootAddr(p); r.Op != "ptr" && r.Op != "slref" && r.Op != "list" && r.Op != "lany" && r.Op != "lupd" {
			k := "store"
			if r.Op == "gaddr" {
				k = "gstore"
			}
			return x.emit(st, &Event{Kind: k, Recv: p, Args: []*V{v}, Instr: i})
		}
		return one(st)
	case *ssa.TypeAssert:
		return x.typeAssert(st, f, i)
	case *ssa.Extract:
		t := x.val(f, i.Tuple)
		if t.Op != "tuple" {
			panic("extract of " + t.Op)
		}
		return set(i, t.Args[i.Index])
	case *ssa.Call:
		f.idx++
		return x.call(st, f, i, i.Common(), i)
	case *ssa.Defer:
		f.idx++
		ci := x.callInfo(f, i, i.Common(), nil)
		f.defrs = append(f.defrs, deferred{ci})
		return one(st)
	case *ssa.RunDefers:
		if n := len(f.defrs); n > 0 {
			d := f.defrs[n-1]
			f.defrs = f.defrs[:n-1]
			return x.doCall(st, d.call)
		}
		f.idx++
		return one(st)
	case *ssa.Jump:
		return x.jump(st, f, f.block.Succs[0])
	case *ssa.If:
		c := x.val(f, i.Cond)
		switch st.Decide(c) {
		case 1:
			return x.jump(st, f, f.block.Succs[0])
		case 0:
			return x.jump(st, f, f.block.Succs[1])
		}
		o := st.Clone()
		var r []*State
		if st.Assume(c, true) {
			st.Note("%s: assume %s", x.loc(i), c.Show())
			st.unifyInts()
			r = append(r, x.jump(st, st.Top(), f.block.Succs[0])...)
		}
		if o.Assume(c, false) {
			o.Note("%s: assume not %s", x.loc(i), c.Show())
			o.unifyInts()
			r = append(r, x.jump(o, o.Top(), o.Top().block.Succs[1])...)
		}
		return r
	case *ssa.Return:
		var res []*V
		for _, r := range i.Results {
			res = append(res, x.val(f, r))
		}
		return x.doReturn(st, f, res, i)
	case *ssa.Panic:
		x.panicOut(st, "explicit panic", i)
		return nil
	}
	x.Undecided = fmt.Sprintf("unsupported instruction %T at %s", in, x.loc(in))
	return nil
}

func rootAddr(p *V) *V {
	for p.Op == "faddr" || p.Op == "eaddr" {
		p = p.Args[0]
	}
	return p
}

func (e *Eng) Neg(v *V) *V {
	if v.Op == "un:-" {
		return v.Args[0]
	}
	return e.Mk("un:-", v.T, "", v)
}

func (e *Eng) ByteAt(s, k *V) *V {
	if s.Op == "const" {
		if b, n := e.SplitInt(k); b == nil {
			str := constant.StringVal(s.C)
			if n >= 0 && int(n) < len(str) {
				return e.Const(constant.MakeInt64(int64(str[n])), types.Typ[types.Uint8])
			}
		}
	}
	if s.Op == "bytes" && fixed(s.Args) {
		if b, n := e.SplitInt(k); b == nil && n >= 0 && int(n) < len(s.Args) {
			return s.Args[n]
		}
	}
	return e.Mk("byteat", types.Typ[types.Uint8], "", s, k)
}

// LenOf a slice or string value in this state.
func (st *State) LenOf(s *V) *V {
	s = st.ListOf(s)
	for s.Op == "lupd" {
		s = s.Args[0]
	}
	return st.e.Len(s)
}

func (x *Exec) index(st *State, n, k *V, at ssa.Instruction) bool {
	e := x.E
	if isInt(k.T) && !types.Identical(k.T, e.tint) {
		k = st.convInt(k)
	}
	if !x.require(st, e.Cmp(k, e.Int(0), GT|EQ), "index may be negative: "+k.Show(), at) {
		return false
	}
	return x.require(st, e.Cmp(k, n, LT), "index may be out of range: "+k.Show()+" of "+n.Show(), at)
}

func (st *State) convInt(k *V) *V {
	r := st.e.Conv(k, st.e.tint)
	st.convFacts(k, r)
	return r
}

// convFacts relates a value-preserving integer conversion to its operand.
func (st *State) convFacts(v, r *V) {
	if v == r || !isInt(v.T) || !isInt(r.T) || r.Op == "const" {
		return
	}
	vb, rb := v.T.Underlying().(*types.Basic), r.T.Underlying().(*types.Basic)
	sz := map[types.BasicKind]int{types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Int: 64, types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64}
	vs, rs := sz[vb.Kind()], sz[rb.Kind()]
	vu, ru := vb.Info()&types.IsUnsigned != 0, rb.Info()&types.IsUnsigned != 0
	if vu == ru && rs >= vs || vu && !ru && rs > vs {
		st.addDiff(v, r, 0)
		st.addDiff(r, v, 0)
	}
}

// --- operators ------------------------------------------------------------------------

func (st *State) upperOK(a *V) bool {
	b, _ := st.e.SplitInt(a)
	if b == nil {
		return true
	}
	if st.upper(a) < inf {
		return true
	}
	if b.Op == "len" || b.Op == "mlen" {
		return true
	}
	seen := map[*V]bool{}
	for k := range st.dbm {
		for _, n := range k {
			if !seen[n] && (n.Op == "len" || n.Op == "mlen" || n.Op == "natural") {
				seen[n] = true
				if st.dist(b, n) < inf {
					return true
				}
			}
		}
	}
	return false
}
func (st *State) lowerOK(a *V) bool { return st.lower(a) > -inf }

// AddInt is machine integer addition or subtraction with overflow awareness.
func (st *State) AddInt(a, b *V, sub bool, t types.Type) *V {
	e := st.e
	op := token.ADD
	if sub {
		op = token.SUB
	}
	ab, ao := e.SplitInt(a)
	bb, bo := e.SplitInt(b)
	if ab == nil && bb == nil {
		return e.Arith(op, a, b, t)
	}
	if sub && ab == bb && wide(t) {
		return e.Const(constant.MakeInt64(ao-bo), t)
	}
	var noUp, noDown bool
	if sub {
		noUp = st.upperOK(a) && st.lowerOK(b) || st.lower(b) >= 0 || st.upper(a) < 0
		noDown = st.lowerOK(a) && st.upperOK(b) || st.upper(b) <= 0 || st.lower(a) >= 0
	} else {
		noUp = st.upperOK(a) && st.upperOK(b) || st.upper(a) <= 0 || st.upper(b) <= 0
		noDown = st.lowerOK(a) && st.lowerOK(b) || st.lower(a) >= 0 || st.lower(b) >= 0
	}
	safe := noUp && noDown && wide(t)
	if safe {
		if bb == nil {
			if sub {
				bo = -bo
			}
			return e.Lin(ab, ao+bo, t)
		}
		if ab == nil && !sub {
			return e.Lin(bb, ao+bo, t)
		}
	}
	if sub && bb == nil { // a - c = a + (-c)
		return e.Arith(token.ADD, a, e.Const(constant.MakeInt64(-bo), t), t)
	}
	r := e.Arith(op, a, b, t)
	if r.Op == "const" {
		return r
	}
	if !sub && st.lower(a) >= 0 && st.lower(b) >= 0 {
		// a + b with b <= L - a
		for k := range st.dbm {
			for _, n := range k {
				if n.Op == "bin:-" && (n.Args[1] == a && st.bound(b, n) <= 0 || n.Args[1] == b && st.bound(a, n) <= 0) {
					safe = true
					st.addDiff(r, n.Args[0], 0)
				}
			}
		}
	}
	if !safe {
		return r
	}
	rel := func(p, q *V, k int64) {
		if k < inf && k > -inf {
			st.addDiff(p, q, k)
		}
	}
	if sub {
		if l := st.lower(b); l > -inf {
			rel(r, a, -l)
		}
		if u := st.upper(b); u < inf {
			rel(a, r, u)
		}
		rel(r, e.Int(0), st.bound(a, b))
		rel(e.Int(0), r, st.bound(b, a))
	} else {
		rel(r, a, st.upper(b))
		rel(r, b, st.upper(a))
		if l := st.lower(b); l > -inf {
			rel(a, r, -l)
		}
		if l := st.lower(a); l > -inf {
			rel(b, r, -l)
		}
	}
	return r
}

func (x *Exec) binop(st *State, f *Frame, i *ssa.BinOp) []*State {
	e := x.E
	a, b := x.val(f, i.X), x.val(f, i.Y)
	set := func(r *V) []*State {
		f.regs[i] = r
		f.idx++
		return one(st)
	}
	switch i.Op {
	case token.EQL, token.NEQ:
		c := st.Equal(a, b)
		if i.Op == token.NEQ {
			c = e.Not(c)
		}
		return set(c)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		m := map[token.Token]uint8{token.LSS: LT, token.LEQ: LT | EQ, token.GTR: GT, token.GEQ: GT | EQ}[i.Op]
		return set(e.Cmp(a, b, m))
	case token.ADD, token.SUB:
		if isInt(i.Type()) {
			return set(st.AddInt(a, b, i.Op == token.SUB, i.Type()))
		}
		return set(e.Arith(i.Op, a, b, i.Type()))
	case token.QUO, token.REM:
		if isInt(i.Type()) {
			if !x.require(st, e.Cmp(b, e.Const(constant.MakeInt64(0), b.T), LT|GT), "division by zero", i) {
				return nil
			}
		}
		return set(e.Arith(i.Op, a, b, i.Type()))
	}
	return set(e.Arith(i.Op, a, b, i.Type()))
}

// Equal builds the boolean a == b.
func (st *State) Equal(a, b *V) *V {
	e := st.e
	if a == b && !isFloat(a.T) && a.Op != "lany" {
		return e.Bool(true)
	}
	if a.Op == "nil" {
		a, b = b, a
	}
	if b.Op == "nil" {
		switch st.IsNil(a) {
		case 1:
			return e.Bool(true)
		case 0:
			return e.Bool(false)
		}
		return e.Mk("isnil", types.Typ[types.Bool], "", a)
	}
	ai, bi := a.Op == "iface" || IsIface(a.T), b.Op == "iface" || IsIface(b.T)
	if ai && bi {
		ka, kb := st.KindOf(a), st.KindOf(b)
		if ka.Pos != nil && kb.Pos != nil {
			if !types.Identical(ka.Pos, kb.Pos) {
				return e.Bool(false)
			}
			return st.Equal(st.Payload(a, ka.Pos), st.Payload(b, kb.Pos))
		}
		if (ka.Nil && (kb.Pos != nil || has(kb.Neg, "nil"))) || (kb.Nil && (ka.Pos != nil || has(ka.Neg, "nil"))) {
			return e.Bool(false)
		}
		if ka.Pos != nil && has(kb.Neg, e.tkey(ka.Pos)) || kb.Pos != nil && has(ka.Neg, e.tkey(kb.Pos)) {
			return e.Bool(false)
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return e.Mk("ifeq", types.Typ[types.Bool], "", a, b)
	}
	if isBool(a.T) {
		if a.Op == "const" {
			a, b = b, a
		}
		if b.Op == "const" {
			if constant.BoolVal(b.C) {
				return a
			}
			return e.Not(a)
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return e.Mk("beq", types.Typ[types.Bool], "", a, b)
	}
	if _, ok := a.T.Underlying().(*types.Struct); ok && !opaqueStruct(a.T) {
		su := a.T.Underlying().(*types.Struct)
		var cs []*V
		for i := 0; i < su.NumFields(); i++ {
			cs = append(cs, st.Equal(e.Field(a, i), e.Field(b, i)))
		}
		return e.And(cs...)
	}
	if a.Op == "ptr" && b.Op == "ptr" {
		return e.Bool(a.N == b.N)
	}
	if (a.Op == "ptr") != (b.Op == "ptr") {
		return e.Bool(false)
	}
	return e.Cmp(a, b, EQ)
}

// And is a conjunction term.
func (e *Eng) And(cs ...*V) *V {
	var as []*V
	for _, c := range cs {
		if c.Op == "const" {
			if !constant.BoolVal(c.C) {
				return e.Bool(false)
			}
			continue
		}
		as = append(as, c)
	}
	if len(as) == 0 {
		return e.Bool(true)
	}
	if len(as) == 1 {
		return as[0]
	}
	r := as[0]
	for _, a := range as[1:] {
		r = e.Mk("and", types.Typ[types.Bool], "", r, a)
	}
	return r
}

// Payload of interface x at dynamic type t.
func (st *State) Payload(x *V, t types.Type) *V {
	if x.Op == "iface" {
		return x.Args[0]
	}
	return st.e.Mk("as", t, "", x)
}

func (x *Exec) typeAssert(st *State, f *Frame, i *ssa.TypeAssert) []*State {
	e := x.E
	v := x.val(f, i.X)
	t := i.AssertedType
	yes := func(s *State) []*State {
		p := v
		if !IsIface(t) {
			p = s.Payload(v, t)
		}
		if i.CommaOk {
			s.Top().regs[i] = e.Mk("tuple", i.Type(), "", p, e.Bool(true))
		} else {
			s.Top().regs[i] = p
		}
		s.Top().idx++
		return one(s)
	}
	no := func(s *State) []*State {
		if !i.CommaOk {
			x.panicOut(s, "type assertion to "+shortT(t)+" may fail on "+v.Show(), i)
			return nil
		}
		s.Top().regs[i] = e.Mk("tuple", i.Type(), "", e.Zero(t), e.Bool(false))
		s.Top().idx++
		return one(s)
	}
	switch st.TypeFact(v, t) {
	case 1:
		return yes(st)
	case 0:
		return no(st)
	}
	o := st.Clone()
	var r []*State
	if st.AssumeType(v, t, true) {
		st.Note("%s: %s is %s", x.loc(i), v.Show(), shortT(t))
		r = append(r, yes(st)...)
	}
	if o.AssumeType(v, t, false) {
		o.Note("%s: %s is not %s", x.loc(i), v.Show(), shortT(t))
		r = append(r, no(o)...)
	}
	return r
}

func (x *Exec) slice(st *State, f *Frame, i *ssa.Slice) []*State {
	e := x.E
	v := x.val(f, i.X)
	get := func(s ssa.Value) *V {
		if s == nil {
			return nil
		}
		r := x.val(f, s)
		if !types.Identical(r.T, e.tint) {
			r = st.convInt(r)
		}
		return r
	}
	lo, hi := get(i.Low), get(i.High)
	if lo == nil {
		lo = e.Int(0)
	}
	if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok { // *array
		if !x.nonNil(st, v, i) {
			return nil
		}
		at := pt.Elem().Underlying().(*types.Array)
		arr := st.Load(v)
		if arr.Op == "array" && i.Low == nil && i.High == nil {
			var segs []*V
			for _, a := range arr.Args {
				segs = append(segs, e.One(a))
			}
			f.regs[i] = e.List(i.Type(), segs...)
			f.idx++
			return one(st)
		}
		lb, l := e.SplitInt(lo)
		h := at.Len()
		known := lb == nil
		if hi != nil {
			hb, n := e.SplitInt(hi)
			known = known && hb == nil
			h = n
		}
		if known && 0 <= l && l <= h && h <= at.Len() && h-l <= 64 {
			var el []*V
			for k := l; k < h; k++ {
				switch {
				case arr.Op == "array" && int(k) < len(arr.Args):
					el = append(el, e.One(arr.Args[k]))
				case arr.Op == "zero":
					el = append(el, e.One(e.Zero(at.Elem())))
				}
			}
			if int64(len(el)) == h-l {
				f.regs[i] = e.List(i.Type(), el...)
				f.idx++
				return one(st)
			}
		}
		f.regs[i] = e.Mk("lany", i.Type(), "", e.Fresh(e.tint, "len"), e.Fresh(at.Elem(), "elem"))
		st.AssumeCmp(e.Len(f.regs[i]), e.Int(0), GT|EQ)
		st.AssumeCmp(e.Len(f.regs[i]), e.Int(at.Len()), LT|EQ)
		f.idx++
		return one(st)
	}
	str := isStr(i.X.Type())
	n := st.LenOf(v)
	if hi == nil {
		hi = n
	}
	if !x.require(st, e.Cmp(lo, e.Int(0), GT|EQ), "slice bound may be negative: "+lo.Show(), i) {
		return nil
	}
	if !x.require(st, e.Cmp(lo, hi, LT|EQ), "slice bounds may cross: "+lo.Show()+" > "+hi.Show(), i) {
		return nil
	}
	if !x.require(st, e.Cmp(hi, n, LT|EQ), "slice bound may be out of range: "+hi.Show()+" of "+n.Show(), i) {
		return nil
	}
	f.idx++
	if str {
		r := e.SubStr(v, lo, hi, i.Type())
		if r != v && r.Op == "substr" {
			// length facts
			l := e.Len(r)
			d := st.AddInt(hi, lo, true, e.tint)
			st.addDiff(l, d, 0)
			st.addDiff(d, l, 0)
		}
		f.regs[i] = r
		return one(st)
	}
	f.regs[i] = st.SubSlice(v, lo, hi, i.Type())
	return one(st)
}

// SubStr is s[lo:hi].
func (e *Eng) SubStr(s, lo, hi *V, t types.Type) *V {
	if b, o := e.SplitInt(lo); b == nil && o == 0 && hi == e.Len(s) {
		return s
	}
	if s.Op == "const" {
		lb, l := e.SplitInt(lo)
		hb, h := e.SplitInt(hi)
		str := constant.StringVal(s.C)
		if lb == nil && hb == nil && 0 <= l && l <= h && int(h) <= len(str) {
			return e.Const(constant.MakeString(str[l:h]), t)
		}
	}
	if s.Op == "bytes" && fixed(s.Args) {
		lb, l := e.SplitInt(lo)
		hb, h := e.SplitInt(hi)
		if lb == nil && hb == nil && 0 <= l && l <= h && int(h) <= len(s.Args) {
			return e.Bytes(t, s.Args[l:h])
		}
	}
	return e.Mk("substr", t, "", s, lo, hi)
}

// SubSlice is s[lo:hi] of a slice value.
func (st *State) SubSlice(s, lo, hi *V, t types.Type) *V {
	e := st.e
	c := st.ListOf(s)
	lb, l := e.SplitInt(lo)
	if lb == nil && l == 0 && hi == e.Len(c) {
		return s
	}
	if c.Op == "list" {
		hb, h := e.SplitInt(hi)
		if lb == nil && hb == nil {
			ok := true
			for j := int64(0); j < h && ok; j++ {
				ok = int(j) < len(c.Args) && c.Args[j].Op == "one"
			}
			if ok {
				return e.List(t, c.Args[l:h]...)
			}
		}
		if lb == nil && hi == e.Len(c) { // drop a prefix
			ok := true
			for j := int64(0); j < l && ok; j++ {
				ok = int(j) < len(c.Args) && c.Args[j].Op == "one"
			}
			if ok {
				return e.List(t, c.Args[l:]...)
			}
		}
	}
	if c.Op == "subsl" {
		cb, cl := e.SplitInt(c.Args[1])
		if lb == nil && hi == e.Len(c) {
			return e.Mk("subsl", t, "", c.Args[0], e.Lin(cb, cl+l, e.tint), c.Args[2])
		}
	}
	return e.Mk("subsl", t, "", c, lo, hi)
}

func (x *Exec) lookup(st *State, f *Frame, i *ssa.Lookup) []*State {
	e := x.E
	m, k := x.val(f, i.X), x.val(f, i.Index)
	if isStr(i.X.Type()) {
		if !x.index(st, e.Len(m), k, i) {
			return nil
		}
		f.regs[i] = e.ByteAt(m, k)
		f.idx++
		return one(st)
	}
	mt := i.X.Type().Underlying().(*types.Map)
	f.idx++
	var out []*State
	x.MapLookup(st, m, k, mt.Elem(), func(s *State, v *V, ok bool) {
		if i.CommaOk {
			s.Top().regs[i] = e.Mk("tuple", i.Type(), "", v, e.Bool(ok))
		} else {
			s.Top().regs[i] = v
		}
		out = append(out, s)
	})
	return out
}

// MapLookup enumerates the possible results of m[k].
func (x *Exec) MapLookup(st *State, m, k *V, et types.Type, yield func(*State, *V, bool)) {
	e := x.E
	if st.IsNil(m) == 1 {
		yield(st, e.Zero(et), false)
		return
	}
	c := st.MapContent(m)
	x.lookupSegs(st, c.Args, k, et, yield)
}

func (x *Exec) lookupSegs(st *State, segs []*V, k *V, et types.Type, yield func(*State, *V, bool)) {
	e := x.E
	for i := len(segs) - 1; i >= 0; i-- {
		s := segs[i]
		switch s.Op {
		case "ent", "del":
			c := st.Equal(s.Args[0], k)
			d := st.Decide(c)
			if d == 0 {
				continue
			}
			if d < 0 {
				o := st.Clone()
				if o.Assume(c, false) {
					x.lookupSegs(o, segs[:i], k, et, yield)
				}
				if !st.Assume(c, true) {
					return
				}
			}
			if s.Op == "del" {
				yield(st, e.Zero(et), false)
			} else {
				yield(st, s.Args[1], true)
			}
			return
		default: // base, spread, comp
			src := s
			if s.Op == "base" || s.Op == "spread" {
				src = s.Args[0]
			}
			if src.Op == "fmap" {
				x.lookupSegs(st, append(append([]*V(nil), segs[:i]...), src.Args[0].Args...), k, et, yield)
				return
			}
			if k.Op == "mkey" && k.Args[0] == src {
				yield(st, e.Mk("mval", et, "", k.Args[0], k.Args[1]), true)
				return
			}
			okT := e.Mk("mapok", types.Typ[types.Bool], "", src, k)
			d := st.Decide(okT)
			if d != 1 {
				o := st
				if d < 0 {
					o = st.Clone()
				}
				if d == 0 || o.Assume(okT, false) {
					x.lookupSegs(o, segs[:i], k, et, yield)
				}
				if d == 0 {
					return
				}
			}
			if d == 1 || st.Assume(okT, true) {
				yield(st, e.Mk("mapget", et, "", src, k), true)
			}
			return
		}
	}
	yield(st, e.Zero(et), false)
}

func (x *Exec) next(st *State, f *Frame, i *ssa.Next) []*State {
	e := x.E
	it := x.val(f, i.Iter)
	s := st.heap[it.N]
	src, pos := s.Args[0], s.Args[1]
	tt := i.Type().(*types.Tuple)
	f.idx++
	fin := func(s *State, ok bool, k, v *V, np *V) *State {
		if k == nil {
			k, v = e.Zero1(tt.At(1).Type()), e.Zero1(tt.At(2).Type())
		}
		s.Top().regs[i] = e.Mk("tuple", i.Type(), "", e.Bool(ok), k, v)
		if np != nil {
			s.heap[it.N] = e.Mk("iterst", nil, "", src, np)
		}
		return s
	}
	if i.IsString {
		if el, ok := e.BytesOf(src); ok && fixed(el) {
			if b, p := e.SplitInt(pos); b == nil {
				if int(p) >= len(el) {
					return one(fin(st, false, nil, nil, nil))
				}
				if r, w, ok := st.decode(el, int(p)); ok {
					return one(fin(st, true, pos, r, e.Int(p+int64(w))))
				}
			}
		}
		n := e.Len(src)
		c := e.Cmp(pos, n, LT)
		var out []*State
		o := st.Clone()
		if st.Assume(c, true) {
			np := e.Fresh(e.tint, "pos")
			st.addDiff(pos, np, -1)
			st.addDiff(np, n, 0)
			out = append(out, fin(st, true, pos, e.Mk("runeat", types.Typ[types.Int32], "", src, pos), np))
		}
		if o.Assume(c, false) {
			o.unifyInts()
			out = append(out, fin(o, false, nil, nil, nil))
		}
		return out
	}
	if src.Op == "fmap" {
		b, p := e.SplitInt(pos)
		cont := src.Args[0].Args
		explicit := b == nil && len(cont) <= 8
		for _, c := range cont {
			if c.Op != "ent" {
				explicit = false
			}
		}
		if explicit {
			// an entry is replaced by a later one with the same key
			var out []*State
			for ; int(p) < len(cont); p++ {
				gone := false
				for _, l := range cont[p+1:] {
					same := st.Equal(cont[p].Args[0], l.Args[0])
					d := st.Decide(same)
					if d < 0 {
						o := st.Clone()
						if o.Assume(same, true) {
							out = append(out, x.nextFrom(o, i, src, p+1, it)...)
						}
						if !st.Assume(same, false) {
							return out
						}
					}
					if d == 1 {
						gone = true
						break
					}
				}
				if !gone {
					return append(out, fin(st, true, cont[p].Args[0], cont[p].Args[1], e.Int(p+1)))
				}
			}
			return append(out, fin(st, false, nil, nil, nil))
		}
	}
	mt := i.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	n := e.MLen(src)
	c := e.Cmp(pos, n, LT)
	var out []*State
	o := st.Clone()
	if st.Assume(c, true) {
		st.Note("%s: next entry of %s", x.loc(i), src.Show())
		pb, po := e.SplitInt(pos)
		out = append(out, fin(st, true, e.Mk("mkey", mt.Key(), "", src, pos), e.Mk("mval", mt.Elem(), "", src, pos), e.Lin(pb, po+1, e.tint)))
	}
	if o.Assume(c, false) {
		o.unifyInts()
		s := o.heap[it.N]
		src = s.Args[0]
		out = append(out, fin(o, false, nil, nil, nil))
	}
	return out
}

// nextFrom goes on with the p-th entry of a known map.
func (x *Exec) nextFrom(st *State, i *ssa.Next, src *V, p int64, it *V) []*State {
	f := st.Top()
	st.heap[it.N] = x.E.Mk("iterst", nil, "", src, x.E.Int(p))
	f.idx--
	return x.next(st, f, i)
}

// Zero1 tolerates invalid types (unused range variables).
func (e *Eng) Zero1(t types.Type) *V {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return e.Mk("zero", t, "")
	}
	return e.Zero(t)
}

// --- control flow ---------------------------------------------------------------------------

func (x *Exec) jump(st *State, f *Frame, b *ssa.BasicBlock) []*State {
	from := f.block
	f.prev, f.block, f.idx = from, b, 0
	// phis
	var phis []*ssa.Phi
	var vals []*V
	pi := -1
	for k, p := range b.Preds {
		if p == from {
			pi = k
			break
		}
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.val(f, ph.Edges[pi]))
		f.idx++
	}
	for k, ph := range phis {
		f.regs[ph] = vals[k]
	}
	if len(b.Preds) > 1 {
		return x.merge(st, isLoopHead(b))
	}
	return one(st)
}

func isLoopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func (x *Exec) doReturn(st *State, f *Frame, res []*V, at ssa.Instruction) []*State {
	e := x.E
	// an in-package callee that reports an error
	pop := func(s *State) []*State {
		fr := s.Top()
		s.frames = s.frames[:len(s.frames)-1]
		if len(s.frames) == 0 {
			x.Returns++
			if x.Mon.OnReturn != nil {
				x.Mon.OnReturn(x, s, res)
			}
			return nil
		}
		var r *V
		switch len(res) {
		case 0:
			r = nil
		case 1:
			r = res[0]
		default:
			r = e.Mk("tuple", fr.fn.Signature.Results(), "", res...)
		}
		c := s.Top()
		if c.nat != nil {
			if r == nil {
				r = e.Bool(true)
			}
			c.nv[0] = r
			return one(s)
		}
		if fr.call != nil {
			if v, ok := fr.call.(ssa.Value); ok && r != nil {
				c.regs[v] = r
			}
		}
		return one(s)
	}
	n := len(res)
	if n > 0 && !f.top && isErrorT(f.fn.Signature.Results().At(n-1).Type()) {
		if st.IsNil(res[n-1]) == 0 {
			var out []*State
			for _, s := range x.emit(st, &Event{Kind: "inerr", Name: f.fn.String(), Res: res, Instr: at, Fn: f.fn}) {
				out = append(out, pop(s)...)
			}
			return out
		}
	}
	return pop(st)
}

func isErrorT(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (x *Exec) callInfo(f *Frame, in ssa.Instruction, c *ssa.CallCommon, val ssa.Value) *CallInfo {
	ci := &CallInfo{Instr: in, Val: val, Sig: c.Signature()}
	if c.IsInvoke() {
		ci.Method = c.Method
		ci.Args = append(ci.Args, x.val(f, c.Value))
	} else {
		ci.FnV = x.val(f, c.Value)
	}
	for _, a := range c.Args {
		ci.Args = append(ci.Args, x.val(f, a))
	}
	return ci
}

func (x *Exec) call(st *State, f *Frame, in ssa.Instruction, c *ssa.CallCommon, val ssa.Value) []*State {
	x.Calls[in] = true
	return x.doCall(st, x.callInfo(f, in, c, val))
}

// Ret sets the results of a modelled call.
func (x *Exec) Ret(st *State, ci *CallInfo, res ...*V) *State {
	f := st.Top()
	var r *V
	switch len(res) {
	case 0:
		return st
	case 1:
		r = res[0]
	default:
		r = x.E.Mk("tuple", ci.Sig.Results(), "", res...)
	}
	if f.nat != nil {
		f.nv[0] = r
	} else if ci.Val != nil {
		f.regs[ci.Val] = r
	}
	return st
}

func (x *Exec) doCall(st *State, ci *CallInfo) []*State {
	e := x.E
	if ci.Method != nil {
		recv := ci.Args[0]
		switch st.IsNil(recv) {
		case 1:
			x.panicOut(st, "method call on nil interface", ci.Instr)
			return nil
		case -1:
			p := st.Clone()
			if p.AssumeNil(recv, true) {
				x.panicOut(p, "method call on possibly nil interface "+recv.Show(), ci.Instr)
			}
			if !st.AssumeNil(recv, false) {
				return nil
			}
		}
		k := st.KindOf(recv)
		if k.Pos != nil {
			if fn := e.Prog.LookupMethod(k.Pos, ci.Method.Pkg(), ci.Method.Name()); fn != nil {
				n := *ci
				n.Method = nil
				n.Fn = fn
				n.Args = append([]*V{st.Payload(recv, k.Pos)}, ci.Args[1:]...)
				return x.static(st, &n)
			}
		}
		return x.invoke(st, ci)
	}
	switch ci.FnV.Op {
	case "builtin":
		return x.builtin(st, ci)
	case "func":
		n := *ci
		n.Fn = ci.FnV.Fn
		return x.static(st, &n)
	case "closure":
		n := *ci
		n.Fn = ci.FnV.Fn
		return x.static(st, &n)
	}
	switch st.IsNil(ci.FnV) {
	case 1:
		x.panicOut(st, "call of nil function", ci.Instr)
		return nil
	case -1:
		p := st.Clone()
		if p.AssumeNil(ci.FnV, true) {
			x.panicOut(p, "call of possibly nil function "+ci.FnV.Show(), ci.Instr)
		}
		if !st.AssumeNil(ci.FnV, false) {
			return nil
		}
	}
	return x.dynCall(st, ci)
}

// dynCall is a call of an unknown function value.
func (x *Exec) dynCall(st *State, ci *CallInfo) []*State {
	e := x.E
	fv := ci.FnV
	if fv.Op == "field" && fv.Args[0].Op == "as" {
		o := fv.Args[0].Args[0] // the opaque Value
		switch fv.Aux {
		case "getter":
			return one(x.Ret(st, ci, e.Get(st, o)))
		case "setter":
			return x.emit(st, &Event{Kind: "lset", Recv: o, Args: ci.Args, Instr: ci.Instr})
		}
	}
	return x.opaque(st, ci, "dyn:"+fv.Show(), fv)
}

// Get of a Value term.
func (e *Eng) Get(st *State, v *V) *V {
	if v.Op == "iface" {
		p := v.Args[0]
		if r := e.FieldByName(p, "Value"); r != nil {
			return r
		}
	}
	return e.Mk("Get", e.tany, "", v)
}

func (x *Exec) static(st *State, ci *CallInfo) []*State {
	fn := ci.Fn
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if x.Mon.Ext != nil && fn.Pkg != x.E.Pkg {
		if r, ok := x.Mon.Ext(x, st, ci, name); ok {
			return r
		}
	}
	if r, ok := x.textCall(st, ci, name); ok {
		return r
	}
	if m := x.E.Models[name]; m != nil && !x.Mon.NoModel[name] {
		if r := m(x, st, ci); r != nil {
			if len(r) == 1 && r[0] == nil {
				return nil
			}
			return r
		}
	}
	if fn.Pkg != x.E.Pkg && fn.Signature.Recv() != nil {
		if r, ok := x.grammarCall(st, ci, fn.Name()); ok {
			return r
		}
	}
	inPkg := fn.Pkg == x.E.Pkg || fn.Pkg == nil && len(fn.Blocks) > 0 || fn.Parent() != nil && fn.Parent().Pkg == x.E.Pkg
	if inPkg && len(fn.Blocks) > 0 {
		if x.boundary(st, fn) || x.Mon.BoundaryArgs != nil && x.Mon.BoundaryArgs(x, st, ci) {
			if x.Mon.BoundaryCall != nil {
				if r, ok := x.Mon.BoundaryCall(x, st, ci); ok {
					return r
				}
			}
			return x.boundaryCall(st, ci)
		}
		depth, same := 0, 0
		for _, f := range st.frames {
			depth++
			if f.fn == fn {
				same++
			}
		}
		if same >= 2 && same >= x.Recur || depth > x.MaxDep {
			return x.opaque(st, ci, "rec:"+name, nil)
		}
		x.Funcs[name] = true
		f := &Frame{fn: fn, block: fn.Blocks[0], regs: map[ssa.Value]*V{}, call: ci.Instr}
		if ci.Val == nil {
			f.call = nil
		}
		for i, p := range fn.Params {
			f.regs[p] = ci.Args[i]
		}
		if ci.FnV != nil && ci.FnV.Op == "closure" {
			for i, fv := range fn.FreeVars {
				f.regs[fv] = ci.FnV.Args[i]
			}
		}
		st.frames = append(st.frames, f)
		return one(st)
	}
	return x.opaque(st, ci, name, nil)
}

func (x *Exec) boundary(st *State, fn *ssa.Function) bool {
	if x.Mon.Boundary != nil {
		return x.Mon.Boundary(x, st, fn)
	}
	return false
}

// IsEvaluate: methods with the signature Evaluate(*EvalContext) (Value, error).
func (e *Eng) IsEvaluate(fn *ssa.Function) bool {
	s := fn.Signature
	if fn.Name() != "Evaluate" || s.Recv() == nil || s.Params().Len() != 1 || s.Results().Len() != 2 {
		return false
	}
	return isErrorT(s.Results().At(1).Type()) && e.ValueT != nil && types.Identical(s.Results().At(0).Type(), e.ValueT)
}

func (x *Exec) boundaryCall(st *State, ci *CallInfo) []*State {
	if x.E.IsEvaluate(ci.Fn) {
		return x.evalBoundary(st, ci, ci.Args[0], ci.Args[1])
	}
	return x.opaque(st, ci, ci.Fn.String(), nil)
}

// evalBoundary: evaluation of a sub-expression.
func (x *Exec) evalBoundary(st *State, ci *CallInfo, recv, ctx *V) []*State {
	e := x.E
	env := st.Env(ctx)
	if recv.Op == "ptr" { // a heap-allocated node: name it by its content
		recv = st.Freeze(st.Load(recv))
	}
	if x.Mon.Eval != nil {
		if r, ok := x.Mon.Eval(x, st, ci, recv, ctx); ok {
			return r
		}
	}
	var out []*State
	bad := st.Clone()
	res := e.Mk("ev", e.ValueT, "", recv, env)
	st.Note("%s: evaluate %s", x.loc(ci.Instr), recv.Show())
	x.Ret(st, ci, res, e.Nil(e.tany))
	out = append(out, x.emit(st, &Event{Kind: "eval", Recv: recv, Env: env, Res: []*V{res}, Instr: ci.Instr})...)
	bad.Note("%s: evaluating %s fails", x.loc(ci.Instr), recv.Show())
	er := bad.NewError("everr")
	x.Ret(bad, ci, e.Fresh(e.ValueT, "badvalue"), er)
	for _, s := range x.emit(bad, &Event{Kind: "evalerr", Recv: recv, Env: env, Res: []*V{er}, Instr: ci.Instr}) {
		out = append(out, x.emit(s, &Event{Kind: "fail", Name: "Evaluate", Recv: recv, Res: []*V{er}, Instr: ci.Instr})...)
	}
	return out
}

// NewError is a fresh non-nil error.
func (st *State) NewError(hint string) *V {
	e := st.e
	v := e.Fresh(types.Universe.Lookup("error").Type(), hint)
	st.kinds[v] = Kind{Neg: "nil"}
	return v
}

// opaque: a call nothing is known about.
func (x *Exec) opaque(st *State, ci *CallInfo, name string, fv *V) []*State {
	// memory reachable from pointer arguments may change; closures may be called
	var cbs []*V
	for _, a := range ci.Args {
		x.havoc(st, a, &cbs, map[int64]bool{})
	}
	if ci.FnV != nil && ci.FnV.Op == "closure" {
		for _, a := range ci.FnV.Args {
			x.havoc(st, a, &cbs, map[int64]bool{})
		}
	}
	if len(cbs) > 0 {
		// the callee may call back any number of times
		return x.pushCallbacks(st, ci, name, cbs)
	}
	return x.opaqueResult(st, ci, name, fv)
}

func (x *Exec) opaqueResult(st *State, ci *CallInfo, name string, fv *V) []*State {
	e := x.E
	rt := ci.Sig.Results()
	n := rt.Len()
	mk := func(s *State) []*V {
		var r []*V
		for i := 0; i < n; i++ {
			r = append(r, e.Fresh(rt.At(i).Type(), "res:"+name))
		}
		return r
	}
	ev := func(s *State, res []*V) []*State {
		x.Ret(s, ci, res...)
		return x.emit(s, &Event{Kind: "call", Name: name, Recv: fv, Args: ci.Args, Res: res, Instr: ci.Instr})
	}
	if n > 0 && isErrorT(rt.At(n-1).Type()) {
		bad := st.Clone()
		res := mk(st)
		res[n-1] = e.Nil(e.tany)
		for _, r := range res[:n-1] {
			if e.ValueT != nil && types.Identical(r.T, e.ValueT) {
				st.AssumeNil(r, false)
			}
		}
		st.Note("%s: %s succeeds", x.loc(ci.Instr), name)
		out := ev(st, res)
		bres := mk(bad)
		bres[n-1] = bad.NewError("err:" + name)
		bad.Note("%s: %s fails", x.loc(ci.Instr), name)
		for _, s := range ev(bad, bres) {
			out = append(out, x.emit(s, &Event{Kind: "fail", Name: name, Res: bres[n-1:], Instr: ci.Instr})...)
		}
		return out
	}
	return ev(st, mk(st))
}

// havoc forgets heap content reachable from v.
func (x *Exec) havoc(st *State, v *V, cbs *[]*V, seen map[int64]bool) {
	e := x.E
	switch v.Op {
	case "ptr":
		if seen[v.N] {
			return
		}
		seen[v.N] = true
		c := st.heap[v.N]
		x.havoc(st, c, cbs, seen)
		st.heap[v.N] = e.Fresh(c.T, "havoc")
	case "map":
		if seen[v.N] {
			return
		}
		seen[v.N] = true
		st.heap[v.N] = e.Mk("mcont", nil, "", e.Mk("base", nil, "", e.Fresh(v.T, "havocmap")))
	case "slref":
		if seen[v.N] {
			return
		}
		seen[v.N] = true
		c := st.heap[v.N]
		l := e.Fresh(e.tint, "len")
		st.addDiff(e.Int(0), l, 0)
		st.heap[v.N] = e.Mk("lany", v.T, "", l, e.Fresh(c.T.Underlying().(*types.Slice).Elem(), "havoc"))
	case "closure":
		*cbs = append(*cbs, v)
	case "faddr", "eaddr":
		x.havoc(st, rootAddr(v), cbs, seen)
	case "struct", "iface", "tuple":
		for _, a := range v.Args {
			x.havoc(st, a, cbs, seen)
		}
	case "list":
		for _, a := range v.Args {
			for _, b := range a.Args {
				x.havoc(st, b, cbs, seen)
			}
		}
	}
}

func (x *Exec) pushCallbacks(st *State, ci *CallInfo, name string, cbs []*V) []*State {
	cp := *ci
	nat := &Native{Name: "callback:" + name, At: ci.Instr}
	nat.Step = func(x *Exec, st *State, f *Frame) []*State {
		f.nv[0] = x.E.Nil(x.E.tany)
		ss := x.merge(st, true)
		var out []*State
		for _, s := range ss {
			for _, cb := range s.Top().nv[1:] {
				c := s.Clone()
				var args []*V
				sig := cb.Fn.Signature
				for i := 0; i < sig.Params().Len(); i++ {
					args = append(args, x.E.Fresh(sig.Params().At(i).Type(), "cbarg"))
				}
				out = append(out, x.static(c, &CallInfo{Instr: cp.Instr, Fn: cb.Fn, FnV: cb, Args: args, Sig: sig})...)
			}
			s.frames = s.frames[:len(s.frames)-1]
			out = append(out, x.opaqueResult(s, &cp, name, nil)...)
		}
		return out
	}
	st.frames = append(st.frames, &Frame{nat: nat, nv: append([]*V{x.E.Nil(x.E.tany)}, cbs...)})
	return one(st)
}

// invoke: dynamic dispatch on an unknown receiver.
func (x *Exec) invoke(st *State, ci *CallInfo) []*State {
	e := x.E
	recv := ci.Args[0]
	name := ci.Method.Name()
	switch name {
	case "Get":
		if e.isValueIface(ci.Method) {
			return one(x.Ret(st, ci, e.Get(st, recv)))
		}
	case "IsConst":
		if e.isValueIface(ci.Method) {
			return one(x.Ret(st, ci, e.Mk("IsConst", types.Typ[types.Bool], "", recv)))
		}
	case "Evaluate":
		if recv.T != nil && e.ValueT != nil && types.Identical(recv.T, e.ValueT) {
			return one(x.Ret(st, ci, recv, e.Nil(e.tany)))
		}
		if len(ci.Args) == 2 && ci.Sig.Results().Len() == 2 {
			return x.evalBoundary(st, ci, recv, ci.Args[1])
		}
	case "Error", "String":
		if len(ci.Args) == 1 {
			return one(x.Ret(st, ci, e.Mk("call:"+name, types.Typ[types.String], "", recv)))
		}
	}
	if r, ok := x.grammarCall(st, ci, name); ok {
		return r
	}
	key := "invoke:" + name
	if x.Mon.Ext != nil {
		if r, ok := x.Mon.Ext(x, st, ci, key); ok {
			return r
		}
	}
	if m := e.Models[key]; m != nil && !x.Mon.NoModel[key] {
		if r := m(x, st, ci); r != nil {
			return r
		}
	}
	return x.opaque(st, ci, key, nil)
}

func (e *Eng) isValueIface(m *types.Func) bool {
	return m.Pkg() == e.Pkg.Pkg
}

func (x *Exec) builtin(st *State, ci *CallInfo) []*State {
	e := x.E
	a := ci.Args
	switch ci.FnV.Aux {
	case "len":
		if _, ok := a[0].T.Underlying().(*types.Map); ok {
			return one(x.Ret(st, ci, x.mapLen(st, a[0])))
		}
		if at, ok := a[0].T.Underlying().(*types.Array); ok {
			return one(x.Ret(st, ci, e.Int(at.Len())))
		}
		if st.IsNil(a[0]) == 1 && nilable(a[0].T) {
			return one(x.Ret(st, ci, e.Int(0)))
		}
		l := st.LenOf(a[0])
		if x.Unroll > 0 && l.Op != "const" {
			if n := st.lower(l); n > -inf && n == st.upper(l) {
				l = e.Int(n)
			}
		}
		return one(x.Ret(st, ci, l))
	case "cap":
		c := e.Fresh(e.tint, "cap")
		st.addDiff(st.LenOf(a[0]), c, 0)
		return one(x.Ret(st, ci, c))
	case "append":
		segs := append(st.Segs(a[0]), st.Segs(a[1])...)
		r := e.List(ci.Sig.Results().At(0).Type(), segs...)
		x.Ret(st, ci, r)
		return x.emit(st, &Event{Kind: "append", Recv: a[0], Args: a[1:], Res: []*V{r}, Instr: ci.Instr})
	case "copy":
		n := e.Fresh(e.tint, "copied")
		st.addDiff(e.Int(0), n, 0)
		st.addDiff(n, st.LenOf(a[0]), 0)
		src := st.ListOf(a[1])
		st.addDiff(n, st.LenOf(a[1]), 0)
		if a[0].Op == "slref" {
			dst := st.heap[a[0].N]
			if e.Len(dst) == e.Len(src) && !isStr(src.T) {
				st.heap[a[0].N] = e.List(dst.T, st.Segs(src)...)
			} else if l := st.copied(dst, src); l != nil {
				st.heap[a[0].N] = l
			} else {
				st.heap[a[0].N] = e.Mk("lany", dst.T, "", e.Len(dst), e.Fresh(dst.T.Underlying().(*types.Slice).Elem(), "copied"))
			}
		} else {
			x.Undecided = "copy into " + a[0].Show()
		}
		return one(x.Ret(st, ci, n))
	case "delete":
		if st.IsNil(a[0]) == 1 {
			return one(st)
		}
		st.MapAdd(a[0], e.Mk("del", nil, "", a[1]))
		return x.emit(st, &Event{Kind: "mapdel", Recv: a[0], Args: a[1:], Instr: ci.Instr})
	case "min", "max":
		r := a[0]
		states := one(st)
		_ = states
		var fork func(st *State, cur *V, k int) []*State
		fork = func(st *State, cur *V, k int) []*State {
			if k == len(a) {
				return one(x.Ret(st, ci, cur))
			}
			m := uint8(LT | EQ)
			if ci.FnV.Aux == "max" {
				m = GT | EQ
			}
			c := e.Cmp(cur, a[k], m)
			o := st.Clone()
			var out []*State
			if st.Assume(c, true) {
				out = append(out, fork(st, cur, k+1)...)
			}
			if o.Assume(c, false) {
				out = append(out, fork(o, a[k], k+1)...)
			}
			return out
		}
		return fork(st, r, 1)
	case "clear":
		if a[0].Op == "map" || !isSliceT(a[0].T) {
			st.SetMapContent(a[0], e.Mk("mcont", nil, ""))
			return one(st)
		}
	case "print", "println":
		return one(st)
	case "recover":
		if x.Mon.Recovered != nil {
			return one(x.Ret(st, ci, x.Mon.Recovered))
		}
		return one(x.Ret(st, ci, e.Nil(e.tany)))
	case "panic":
		x.panicOut(st, "explicit panic", ci.Instr)
		return nil
	case "ssa:wrapnilchk":
		if !x.nonNil(st, a[0], ci.Instr) {
			return nil
		}
		return one(x.Ret(st, ci, a[0]))
	}
	x.Undecided = "unsupported builtin " + ci.FnV.Aux
	return nil
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (x *Exec) mapLen(st *State, m *V) *V {
	e := x.E
	if st.IsNil(m) == 1 {
		return e.Int(0)
	}
	c := st.MapContent(m)
	if len(c.Args) == 0 {
		return e.Int(0)
	}
	if len(c.Args) == 1 && (c.Args[0].Op == "base" || c.Args[0].Op == "spread") {
		return e.MLen(c.Args[0].Args[0])
	}
	l := e.MLen(st.Freeze(c))
	for _, a := range c.Args {
		if a.Op == "ent" && c.Args[len(c.Args)-1].Op == "ent" {
			st.addDiff(e.Int(1), l, 0)
		}
	}
	return l
}

// Segs of a slice value.
// copied is a list overwritten with another one from its start, if the
// elements of both are known.
func (st *State) copied(dst, src *V) *V {
	if isStr(src.T) || dst.Op != "list" {
		return nil
	}
	to, from := st.Segs(dst), st.Segs(src)
	for _, l := range [][]*V{to, from} {
		for _, s := range l {
			if s.Op != "one" {
				return nil
			}
		}
	}
	for i := range to {
		if i < len(from) {
			to[i] = from[i]
		}
	}
	return st.e.List(dst.T, to...)
}

func (st *State) Segs(s *V) []*V {
	e := st.e
	s = st.ListOf(s)
	switch s.Op {
	case "nil":
		return nil
	case "list":
		return append([]*V(nil), s.Args...)
	case "zero":
		return nil
	}
	if st.IsNil(s) == 1 && isSliceT(s.T) {
		return nil
	}
	if s.Op == "ctype" {
		return st.Segs(s.Args[0])
	}
	if b, n := e.SplitInt(e.Len(s)); b == nil && n == 0 {
		return nil
	}
	return []*V{e.All(s)}
}

// Env is the variable environment reachable from an EvalContext pointer.
func (st *State) Env(ctx *V) *V {
	e := st.e
	if ctx.Op == "nil" {
		return e.Mk("env0", nil, "")
	}
	var c *V
	if ctx.Op == "ptr" {
		c = st.heap[ctx.N]
	} else if o, ok := st.over[ctx]; ok {
		c = o
	} else {
		pt, ok := ctx.T.Underlying().(*types.Pointer)
		if !ok {
			return e.Mk("env", nil, "", ctx)
		}
		c = e.Mk("deref", pt.Elem(), "", ctx)
	}
	vars := e.FieldByName(c, "variables")
	if vars == nil {
		return e.Mk("env", nil, "", ctx)
	}
	content := st.Freeze(st.MapContent(vars))
	if ctx.Op != "ptr" {
		if len(content.Args) == 1 && content.Args[0].Op == "base" {
			return e.Mk("env", nil, "", ctx)
		}
		return e.Mk("env", nil, "", ctx, content)
	}
	parent := e.FieldByName(c, "parent")
	var pe *V
	if parent == nil {
		pe = e.Mk("env0", nil, "")
	} else {
		pe = st.Env(parent)
	}
	return e.Mk("env", nil, "", pe, content)
}

var _ = sort.Strings

// PushCalls calls the given functions one after the other, then continues with done.
func (x *Exec) PushCalls(st *State, at ssa.Instruction, name string, fns []*ssa.Function, args [][]*V, done func(x *Exec, st *State) []*State) []*State {
	nat := &Native{Name: name, At: at}
	nat.Step = func(x *Exec, st *State, f *Frame) []*State {
		k := len(fns) - (len(f.nv) - 1)
		if k >= len(fns) {
			st.frames = st.frames[:len(st.frames)-1]
			return done(x, st)
		}
		f.nv = f.nv[:len(f.nv)-1]
		return x.static(st, &CallInfo{Instr: at, Fn: fns[k], Args: args[k], Sig: fns[k].Signature})
	}
	nv := []*V{x.E.Nil(x.E.tany)}
	for range fns {
		nv = append(nv, x.E.Nil(x.E.tany))
	}
	st.frames = append(st.frames, &Frame{nat: nat, nv: nv})
	return one(st)
}

// CallAll calls functions one after the other and hands over their results.
func (x *Exec) CallAll(st *State, at ssa.Instruction, name string, fns []*ssa.Function, args [][]*V, done func(x *Exec, st *State, res []*V) []*State) []*State {
	e := x.E
	nat := &Native{Name: name, At: at}
	nat.Step = func(x *Exec, st *State, f *Frame) []*State {
		_, n := e.SplitInt(f.nv[1])
		k := int(n)
		if k > 0 {
			f.nv = append(append([]*V(nil), f.nv...), f.nv[0])
		}
		if k == len(fns) {
			res := f.nv[2:]
			st.frames = st.frames[:len(st.frames)-1]
			return done(x, st, res)
		}
		f.nv[1] = e.Int(n + 1)
		return x.static(st, &CallInfo{Instr: at, Fn: fns[k], Args: args[k], Sig: fns[k].Signature})
	}
	st.frames = append(st.frames, &Frame{nat: nat, nv: []*V{e.Nil(e.tany), e.Int(0)}})
	return one(st)
}

// CallEach calls a function value with one list of arguments after the other,
// until it returns false if that is to stop it.
func (x *Exec) CallEach(st *State, ci *CallInfo, name string, cb *V, args [][]*V, stoppable bool, done func(x *Exec, st *State, stopped bool) []*State) []*State {
	e := x.E
	nat := &Native{Name: name, At: ci.Instr}
	nat.Step = func(x *Exec, st *State, f *Frame) []*State {
		_, n := e.SplitInt(f.nv[1])
		cb := f.nv[2]
		if n > 0 && stoppable {
			d := st.Decide(f.nv[0])
			if d < 0 {
				o := st.Clone()
				var out []*State
				if st.Assume(f.nv[0], true) {
					out = append(out, st)
				}
				if o.Assume(o.Top().nv[0], false) {
					out = append(out, o)
				}
				return out
			}
			if d == 0 {
				st.frames = st.frames[:len(st.frames)-1]
				return done(x, st, true)
			}
		}
		if int(n) == len(args) {
			st.frames = st.frames[:len(st.frames)-1]
			return done(x, st, false)
		}
		f.nv[1] = e.Int(n + 1)
		return x.doCall(st, &CallInfo{Instr: ci.Instr, FnV: cb, Args: append([]*V(nil), f.nv[3+n].Args...), Sig: cb.Fn.Signature})
	}
	nv := []*V{e.Nil(e.tany), e.Int(0), cb}
	for _, a := range args {
		nv = append(nv, e.Mk("tuple", nil, "", a...))
	}
	st.frames = append(st.frames, &Frame{nat: nat, nv: nv})
	return one(st)
}

// PanicValue is the operand of an explicit panic.
func (x *Exec) PanicValue(st *State, p *ssa.Panic) *V {
	return st.Freeze(x.val(st.Top(), p.X))
}
