package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Interp symbolically executes SSA functions. One Interp belongs to one worker.
type Interp struct {
	stk       []string
	prog      *Program
	db        *TermDB
	cr        *Crypto
	sol       *Solver
	ex        *Explorer
	path      *Path
	emptyStr  *Str
	initDepth int

	funcs     map[*ssa.Function]*cFunc
	stdGlob   map[*ssa.Global]*Value
	stdInit   map[*ssa.Package]bool
	typeIDs   typeutil.Map
	typeCanon typeutil.Map
	ntypes    int
	methods   map[methKey]*ssa.Function
	layouts   map[types.Type]*msgLayout
	depth     int
	stepLimit int64
	fnSeen    map[*ssa.Function]bool
}

type methKey struct {
	t    types.Type
	name string
}

type operand struct {
	reg int
	val Value
	glb *ssa.Global
}

var traceForks = os.Getenv("ENGINE_TRACE") != ""

type frame struct {
	in        *Interp
	cf        *cFunc
	regs      []Value
	block     int
	prev      int
	defers    []func()
	result    Value
	panicking bool
	panicVal  interface{}
	recovered bool
	done      bool
}

type instrFn func(fr *frame)

type cPhi struct {
	dst   int
	edges []operand
}

type cBlock struct {
	phis  []cPhi
	ins   []instrFn
	next  func(fr *frame) int // -1 = return
	preds []int
}

type intrinsicFn func(in *Interp, args []Value) Value

type cFunc struct {
	fn     *ssa.Function
	nregs  int
	blocks []cBlock
	intr   intrinsicFn
	redir  *ssa.Function
	hasDef bool
	recBlk int
	isRepo bool
}

// targetPanic is a panic of the interpreted program.
// outOfFuel abandons a call made under sym.Within.
type outOfFuel struct{}

type targetPanic struct {
	v   Iface
	msg string
	rt  bool
}

func NewInterp(prog *Program, ex *Explorer, seed int64) *Interp {
	db := NewTermDB()
	cr := &Crypto{db: db}
	db.cr = cr
	in := &Interp{prog: prog, db: db, cr: cr, sol: NewSolver(db, cr, seed), ex: ex, emptyStr: &Str{},
		funcs: map[*ssa.Function]*cFunc{}, stdGlob: map[*ssa.Global]*Value{}, stdInit: map[*ssa.Package]bool{},
		methods: map[methKey]*ssa.Function{}, layouts: map[types.Type]*msgLayout{}, stepLimit: 60_000_000, fnSeen: map[*ssa.Function]bool{}}
	return in
}

func (in *Interp) canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c := in.typeCanon.At(t); c != nil {
		return c.(types.Type)
	}
	in.typeCanon.Set(t, t)
	return t
}

func (in *Interp) typeID(t types.Type) int {
	if v := in.typeIDs.At(t); v != nil {
		return v.(int)
	}
	in.ntypes++
	in.typeIDs.Set(t, in.ntypes)
	return in.ntypes
}

func (in *Interp) sameType(a, b types.Type) bool { return a == b || types.Identical(a, b) }

func (in *Interp) rtPanic(msg string) targetPanic {
	t := in.prog.rtErrType
	return targetPanic{v: Iface{in.canon(t), &Str{s: msg}}, msg: "runtime error: " + msg, rt: true}
}

// ---- globals and package initialisation ----

func (in *Interp) perPath(p *ssa.Package) bool { return p != nil && !in.prog.stdPkgs[p] }

func (in *Interp) globalAddr(g *ssa.Global) *Value {
	if in.perPath(g.Pkg) {
		if v, ok := in.path.globals[g]; ok {
			return v
		}
		in.ensureInit(g.Pkg)
		if v, ok := in.path.globals[g]; ok {
			return v
		}
		v := new(Value)
		*v = in.zero(g.Type().(*types.Pointer).Elem())
		in.path.globals[g] = v
		return v
	}
	if v, ok := in.stdGlob[g]; ok {
		return v
	}
	if f, ok := globalOverrides[g.Pkg.Pkg.Path()+"."+g.Name()]; ok {
		v := new(Value)
		*v = f(in, g)
		in.stdGlob[g] = v
		return v
	}
	in.ensureInit(g.Pkg)
	if v, ok := in.stdGlob[g]; ok {
		return v
	}
	v := new(Value)
	*v = in.zero(g.Type().(*types.Pointer).Elem())
	in.stdGlob[g] = v
	return v
}

func (in *Interp) ensureInit(p *ssa.Package) {
	if p == nil {
		return
	}
	path := p.Pkg.Path()
	pp := in.perPath(p)
	if pp {
		if in.path.inited[p] {
			return
		}
		in.path.inited[p] = true
	} else {
		if in.stdInit[p] {
			return
		}
		in.stdInit[p] = true
	}
	if skipInit(path) {
		return
	}
	init := p.Func("init")
	if init == nil {
		return
	}
	// reset the init guard
	in.initDepth++
	saved := in.depth
	defer func() { in.initDepth--; in.depth = saved }()
	in.call(init, nil, nil)
}

func skipInit(path string) bool {
	return strings.HasSuffix(path, "/generated/v1") || strings.HasPrefix(path, "google.golang.org/protobuf") || path == "github.com/golang/glog" || strings.HasPrefix(path, "github.com/golang/glog/") ||
		path == "runtime" || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/runtime") || path == "os" || path == "syscall" || path == "time" || path == "net" || path == "reflect" || path == "testing" || path == "flag" ||
		strings.HasPrefix(path, "crypto/internal/fips140") || path == "internal/godebug" || path == "internal/cpu"
}

// ---- calling ----

func (in *Interp) call(fn *ssa.Function, args []Value, env []Value) Value {
	cf := in.funcs[fn]
	if cf == nil {
		cf = in.compile(fn)
	}
	if cf.intr != nil {
		return cf.intr(in, args)
	}
	if cf.redir != nil {
		return in.call(cf.redir, args, env)
	}
	if fn.Blocks == nil {
		panic(unsupported("no body: " + fn.String()))
	}
	in.depth++
	if in.depth > 2000 {
		panic(unsupported("call depth"))
	}
	if traceForks {
		in.stk = append(in.stk[:min(in.depth-1, len(in.stk))], fn.Name())
	}
	fr := &frame{in: in, cf: cf, regs: make([]Value, cf.nregs), prev: -1}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	if cf.hasDef {
		in.runDefer(fr)
	} else {
		in.run(fr)
	}
	in.depth--
	return fr.result
}

func (in *Interp) run(fr *frame) {
	cf := fr.cf
	for {
		b := &cf.blocks[fr.block]
		if len(b.phis) > 0 {
			pi := -1
			for i, p := range b.preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = in.get(fr, &b.phis[0].edges[pi])
			} else {
				tmp := make([]Value, len(b.phis))
				for i := range b.phis {
					tmp[i] = in.get(fr, &b.phis[i].edges[pi])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		in.path.steps += int64(len(b.ins) + 1)
		if in.path.steps > in.stepLimit {
			panic(abort{"limit", "step limit"})
		}
		if in.path.fuel > 0 && in.path.steps > in.path.fuel {
			panic(outOfFuel{})
		}
		if in.path.steps&0x3fff < int64(len(b.ins)+1) {
			in.ex.tick(in)
		}
		for _, f := range b.ins {
			f(fr)
		}
		n := b.next(fr)
		if n < 0 {
			return
		}
		fr.prev = fr.block
		fr.block = n
	}
}

func (in *Interp) runDefer(fr *frame) {
	depth := in.depth
	ok := false
	func() {
		defer func() {
			if ok {
				return
			}
			r := recover()
			if tp, isT := r.(targetPanic); isT {
				in.depth = depth
				fr.panicking = true
				fr.panicVal = tp
				return
			}
			panic(r)
		}()
		in.run(fr)
		ok = true
	}()
	if !ok {
		in.runDefers(fr)
		if fr.panicking {
			panic(fr.panicVal)
		}
		// recovered
		if fr.cf.recBlk >= 0 {
			fr.block = fr.cf.recBlk
			fr.prev = -1
			in.run(fr)
		} else {
			fr.result = in.zero(fr.cf.fn.Signature.Results())
			if fr.cf.fn.Signature.Results().Len() == 1 {
				fr.result = fr.result.(Tuple)[0]
			}
		}
	}
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := in.depth
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				if tp, isT := r.(targetPanic); isT {
					in.depth = depth
					fr.panicking = true
					fr.panicVal = tp
					return
				}
				panic(r)
			}()
			saved := in.path.deferFrame
			in.path.deferFrame = fr
			defer func() { in.path.deferFrame = saved }()
			d()
			ok = true
		}()
	}
}

// callValue calls a function value.
func (in *Interp) callValue(f Value, args []Value) Value {
	switch x := f.(type) {
	case *ssa.Function:
		if x == nil {
			panic(in.rtPanic("invalid memory address or nil pointer dereference"))
		}
		return in.call(x, args, nil)
	case *Closure:
		if x == nil {
			panic(in.rtPanic("invalid memory address or nil pointer dereference"))
		}
		return in.call(x.Fn, args, x.Env)
	case *BoundIntrinsic:
		return x.f(in, args)
	case nil:
		panic(in.rtPanic("invalid memory address or nil pointer dereference"))
	}
	panic(unsupported(fmt.Sprintf("call of %T", f)))
}

func (in *Interp) findMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, name}
	if f, ok := in.methods[k]; ok {
		return f
	}
	f := in.prog.lookupMethod(t, pkg, name)
	in.methods[k] = f
	return f
}

func (in *Interp) invoke(recv Iface, m *types.Func, args []Value) Value {
	if recv.T == nil {
		panic(in.rtPanic("invalid memory address or nil pointer dereference"))
	}
	f := in.findMethod(recv.T, m.Pkg(), m.Name())
	if f == nil {
		panic(unsupported("method " + m.Name() + " on " + recv.T.String()))
	}
	return in.call(f, append([]Value{recv.V}, args...), nil)
}

// callMethod calls a method by name (exported) on an interface value, if it exists.
func (in *Interp) callMethod(recv Iface, name string, args ...Value) (Value, bool) {
	if recv.T == nil {
		return nil, false
	}
	f := in.findMethod(recv.T, nil, name)
	if f == nil {
		return nil, false
	}
	return in.call(f, append([]Value{recv.V}, args...), nil), true
}

func (in *Interp) get(fr *frame, o *operand) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.glb != nil {
		return Ptr(in.globalAddr(o.glb))
	}
	return o.val
}

// ---- compilation ----

func (in *Interp) compile(fn *ssa.Function) *cFunc {
	cf := &cFunc{fn: fn, recBlk: -1}
	in.funcs[fn] = cf
	name := fn.String()
	orig := fn
	if o := fn.Origin(); o != nil {
		orig = o
	}
	if intr := in.findIntrinsic(fn, orig, name); intr != nil {
		cf.intr = intr
		return cf
	}
	if r := in.prog.redirect(orig.String()); r != nil && r != fn {
		cf.redir = r
		return cf
	}
	in.prog.buildFn(fn)
	if fn.Blocks == nil {
		return cf
	}
	if in.prog.isRepo(fn) {
		cf.isRepo = true
		in.fnSeen[fn] = true
		in.ex.noteFunc(name)
	}
	regs := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		regs[p] = n
		n++
	}
	for _, fv := range fn.FreeVars {
		regs[fv] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	cf.nregs = n
	c := &compiler{in: in, fn: fn, cf: cf, regs: regs}
	cf.blocks = make([]cBlock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &cf.blocks[i]
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
		}
		for _, ins := range b.Instrs {
			if phi, ok := ins.(*ssa.Phi); ok {
				cp := cPhi{dst: regs[phi]}
				for _, e := range phi.Edges {
					cp.edges = append(cp.edges, c.op(e))
				}
				cb.phis = append(cb.phis, cp)
				continue
			}
			c.instr(cb, ins, b)
		}
	}
	if fn.Recover != nil {
		cf.recBlk = fn.Recover.Index
	}
	return cf
}

type compiler struct {
	in   *Interp
	fn   *ssa.Function
	cf   *cFunc
	regs map[ssa.Value]int
}

func (c *compiler) op(v ssa.Value) operand {
	switch x := v.(type) {
	case *ssa.Const:
		return operand{reg: -1, val: c.in.constVal(x)}
	case *ssa.Global:
		return operand{reg: -1, glb: x}
	case *ssa.Function:
		return operand{reg: -1, val: x}
	case *ssa.Builtin:
		return operand{reg: -1, val: x}
	}
	r, ok := c.regs[v]
	if !ok {
		panic(unsupported("operand " + v.String()))
	}
	return operand{reg: r}
}

func (in *Interp) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Underlying()
	}
	b, ok := t.(*types.Basic)
	if !ok {
		panic(unsupported("const type " + c.Type().String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return in.db.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		w, _, _ := intWidth(b)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return in.db.Const(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return in.db.Const(w, u)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return &Str{s: constant.StringVal(c.Value)}
		}
		i, _ := constant.Int64Val(c.Value)
		return &Str{s: string(rune(i))}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	}
	if b.Kind() == types.UnsafePointer {
		return Ptr(nil)
	}
	panic(unsupported("const " + c.String()))
}

func (c *compiler) instr(cb *cBlock, ins ssa.Instruction, blk *ssa.BasicBlock) {
	in := c.in
	add := func(f instrFn) { cb.ins = append(cb.ins, f) }
	dst := -1
	if v, ok := ins.(ssa.Value); ok {
		dst = c.regs[v]
	}
	// instructions that cannot be compiled abort only when executed
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				add(func(fr *frame) { panic(a) })
				return
			}
			panic(r)
		}
	}()
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.If:
		o := c.op(x.Cond)
		t, f := blk.Succs[0].Index, blk.Succs[1].Index
		cb.next = func(fr *frame) int {
			if in.Branch(in.get(fr, &o).(*Term)) {
				return t
			}
			return f
		}
	case *ssa.Jump:
		t := blk.Succs[0].Index
		cb.next = func(fr *frame) int { return t }
	case *ssa.Return:
		var os []operand
		for _, r := range x.Results {
			os = append(os, c.op(r))
		}
		cb.next = func(fr *frame) int {
			switch len(os) {
			case 0:
			case 1:
				fr.result = in.get(fr, &os[0])
			default:
				tu := make(Tuple, len(os))
				for i := range os {
					tu[i] = in.get(fr, &os[i])
				}
				fr.result = tu
			}
			return -1
		}
	case *ssa.Panic:
		o := c.op(x.X)
		cb.next = func(fr *frame) int {
			v := in.get(fr, &o).(Iface)
			panic(targetPanic{v: v, msg: in.panicText(v)})
		}
	case *ssa.RunDefers:
		c.cf.hasDef = true
		add(func(fr *frame) {
			in.runDefers(fr)
			if fr.panicking {
				panic(fr.panicVal)
			}
		})
	case *ssa.Defer:
		c.cf.hasDef = true
		cl := c.callee(&x.Call)
		add(func(fr *frame) {
			f := cl(fr)
			fr.defers = append(fr.defers, func() { f() })
		})
	case *ssa.Go:
		cl := c.callee(&x.Call)
		add(func(fr *frame) {
			f := cl(fr)
			if in.initDepth > 0 {
				return
			}
			if in.Choose("sched.go", 2) == 0 {
				in.path.goq = append(in.path.goq, func() { f() })
			} else {
				in.path.goq = append([]func(){func() { f() }}, in.path.goq...)
				in.path.eager++
				in.runGo()
				in.path.eager--
			}
		})
	case *ssa.Call:
		cl := c.callee(&x.Call)
		add(func(fr *frame) { fr.regs[dst] = cl(fr)() })
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		add(func(fr *frame) {
			p := new(Value)
			*p = in.zero(et)
			fr.regs[dst] = Ptr(p)
		})
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		add(func(fr *frame) { in.store(in.get(fr, &a), in.get(fr, &v)) })
	case *ssa.UnOp:
		o := c.op(x.X)
		switch x.Op {
		case token.MUL:
			add(func(fr *frame) { fr.regs[dst] = in.load(in.get(fr, &o)) })
		case token.NOT:
			add(func(fr *frame) { fr.regs[dst] = in.db.Not(in.get(fr, &o).(*Term)) })
		case token.SUB:
			add(func(fr *frame) {
				switch v := in.get(fr, &o).(type) {
				case *Term:
					fr.regs[dst] = in.db.Neg(v)
				case float64:
					fr.regs[dst] = -v
				}
			})
		case token.XOR:
			add(func(fr *frame) { fr.regs[dst] = in.db.BNot(in.get(fr, &o).(*Term)) })
		case token.ARROW:
			commaOk := x.CommaOk
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			add(func(fr *frame) {
				v, ok := in.chanRecv(in.get(fr, &o), et)
				if commaOk {
					fr.regs[dst] = Tuple{v, in.db.Bool(ok)}
				} else {
					fr.regs[dst] = v
				}
			})
		default:
			panic(unsupported("unop " + x.Op.String()))
		}
	case *ssa.BinOp:
		c.binop(add, x, dst)
	case *ssa.ChangeType:
		o := c.op(x.X)
		add(func(fr *frame) { fr.regs[dst] = in.get(fr, &o) })
	case *ssa.ChangeInterface:
		o := c.op(x.X)
		add(func(fr *frame) { fr.regs[dst] = in.get(fr, &o) })
	case *ssa.MakeInterface:
		o := c.op(x.X)
		t := in.canon(x.X.Type())
		add(func(fr *frame) { fr.regs[dst] = Iface{t, copyVal(in.get(fr, &o))} })
	case *ssa.Convert:
		o := c.op(x.X)
		from, to := x.X.Type(), x.Type()
		add(func(fr *frame) { fr.regs[dst] = in.convert(from, to, in.get(fr, &o)) })
	case *ssa.MultiConvert:
		o := c.op(x.X)
		from, to := x.X.Type(), x.Type()
		add(func(fr *frame) { fr.regs[dst] = in.convert(from, to, in.get(fr, &o)) })
	case *ssa.SliceToArrayPointer:
		o := c.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		add(func(fr *frame) {
			s := in.get(fr, &o).(Slice)
			if len(s) < n {
				panic(in.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n)))
			}
			if s == nil {
				fr.regs[dst] = Ptr(nil)
				return
			}
			p := new(Value)
			*p = Array(s[:n:n])
			fr.regs[dst] = Ptr(p)
		})
	case *ssa.FieldAddr:
		o := c.op(x.X)
		f := x.Field
		add(func(fr *frame) {
			switch p := in.get(fr, &o).(type) {
			case Ptr:
				if p == nil {
					panic(in.rtPanic("invalid memory address or nil pointer dereference"))
				}
				s, ok := (*p).(Struct)
				if !ok {
					panic(unsupported(fmt.Sprintf("field of %T", *p)))
				}
				fr.regs[dst] = Ptr(&s[f])
			default:
				panic(unsupported(fmt.Sprintf("fieldaddr of %T", p)))
			}
		})
	case *ssa.Field:
		o := c.op(x.X)
		f := x.Field
		add(func(fr *frame) { fr.regs[dst] = in.get(fr, &o).(Struct)[f] })
	case *ssa.IndexAddr:
		o, i := c.op(x.X), c.op(x.Index)
		sgn := isSigned(x.Index.Type())
		add(func(fr *frame) {
			var cells []Value
			switch v := in.get(fr, &o).(type) {
			case Slice:
				cells = v
			case Ptr:
				if v == nil {
					panic(in.rtPanic("invalid memory address or nil pointer dereference"))
				}
				cells = (*v).(Array)
			default:
				panic(unsupported(fmt.Sprintf("indexaddr of %T", v)))
			}
			fr.regs[dst] = in.indexAddr(cells, in.get(fr, &i).(*Term), sgn)
		})
	case *ssa.Index:
		o, i := c.op(x.X), c.op(x.Index)
		sgn := isSigned(x.Index.Type())
		add(func(fr *frame) {
			idx := in.get(fr, &i).(*Term)
			switch v := in.get(fr, &o).(type) {
			case Array:
				fr.regs[dst] = in.load(in.indexAddr(v, idx, sgn))
			case *Str:
				fr.regs[dst] = in.strIndex(v, idx, sgn)
			default:
				panic(unsupported(fmt.Sprintf("index of %T", v)))
			}
		})
	case *ssa.Lookup:
		o, i := c.op(x.X), c.op(x.Index)
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			commaOk := x.CommaOk
			et := mt.Elem()
			add(func(fr *frame) {
				m := in.get(fr, &o).(*Map)
				e := in.mapFind(m, in.get(fr, &i))
				var v Value
				if e != nil {
					v = copyVal(e.v)
				} else {
					v = in.zero(et)
				}
				if commaOk {
					fr.regs[dst] = Tuple{v, in.db.Bool(e != nil)}
				} else {
					fr.regs[dst] = v
				}
			})
		} else {
			sgn := isSigned(x.Index.Type())
			add(func(fr *frame) {
				fr.regs[dst] = in.strIndex(in.get(fr, &o).(*Str), in.get(fr, &i).(*Term), sgn)
			})
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		add(func(fr *frame) {
			mm := in.get(fr, &m).(*Map)
			if mm == nil {
				panic(targetPanic{v: Iface{in.canon(in.prog.rtErrType), &Str{s: "assignment to entry in nil map"}}, msg: "assignment to entry in nil map", rt: true})
			}
			in.mapSet(mm, in.get(fr, &k), in.get(fr, &v))
		})
	case *ssa.MakeMap:
		add(func(fr *frame) { fr.regs[dst] = &Map{idx: map[string]*mapEntry{}} })
	case *ssa.MakeChan:
		s := c.op(x.Size)
		add(func(fr *frame) { fr.regs[dst] = &Chan{cap: int(in.get(fr, &s).(*Term).u)} })
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		add(func(fr *frame) {
			cc := in.get(fr, &ch).(*Chan)
			if cc == nil {
				in.blocked("a nil channel")
			}
			if cc.closed {
				panic(in.rtPanic("send on closed channel"))
			}
			cc.buf = append(cc.buf, copyVal(in.get(fr, &v)))
		})
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		var os []operand
		for _, b := range x.Bindings {
			os = append(os, c.op(b))
		}
		add(func(fr *frame) {
			env := make([]Value, len(os))
			for i := range os {
				env[i] = in.get(fr, &os[i])
			}
			fr.regs[dst] = &Closure{f, env}
		})
	case *ssa.MakeSlice:
		l, k := c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		lt := isSigned(x.Len.Type())
		add(func(fr *frame) {
			lv, kv := in.get(fr, &l).(*Term), in.get(fr, &k).(*Term)
			big := in.db.Const(lv.w, 1<<22)
			if lv.w < 24 {
				big = in.db.Const(lv.w, mask(lv.w))
			}
			if !lv.isConst() {
				if lt && in.Branch(in.db.Slt(lv, in.db.Const(lv.w, 0))) {
					panic(in.rtPanic("makeslice: len out of range"))
				}
				if lv.w >= 24 && in.Branch(in.db.Ult(big, lv)) {
					panic(unsupported("huge makeslice"))
				}
			}
			n := int(int64(in.Concretize(lv, 300)))
			if lt && lv.w < 64 {
				n = int(in.db.Const(lv.w, uint64(n)).signed())
			}
			kk := int(int64(in.Concretize(kv, 300)))
			if n < 0 {
				panic(in.rtPanic("makeslice: len out of range"))
			}
			if kk < n {
				panic(in.rtPanic("makeslice: cap out of range"))
			}
			if kk > 1<<24 {
				panic(unsupported("huge makeslice"))
			}
			s := make(Slice, kk)
			if kk > 0 {
				z := in.zero(et)
				for i := range s {
					s[i] = z
				}
				switch z.(type) {
				case Struct, Array:
					for i := range s {
						s[i] = copyVal(z)
					}
				}
			}
			fr.regs[dst] = s[:n]
		})
	case *ssa.Slice:
		c.slice(add, x, dst)
	case *ssa.Extract:
		o := c.op(x.Tuple)
		i := x.Index
		add(func(fr *frame) { fr.regs[dst] = in.get(fr, &o).(Tuple)[i] })
	case *ssa.TypeAssert:
		o := c.op(x.X)
		at := x.AssertedType
		cat := in.canon(at)
		commaOk := x.CommaOk
		_, toIface := at.Underlying().(*types.Interface)
		add(func(fr *frame) {
			v := in.get(fr, &o).(Iface)
			ok := false
			var r Value
			if v.T != nil {
				if toIface {
					ok = in.prog.implements(v.T, at)
					r = v
				} else {
					ok = v.T == cat || types.Identical(v.T, at)
					r = v.V
				}
			}
			if commaOk {
				if !ok {
					r = in.zero(at)
				}
				fr.regs[dst] = Tuple{copyVal(r), in.db.Bool(ok)}
				return
			}
			if !ok {
				panic(in.rtPanic(fmt.Sprintf("interface conversion: %v is not %v", v.T, at)))
			}
			fr.regs[dst] = copyVal(r)
		})
	case *ssa.Range:
		o := c.op(x.X)
		add(func(fr *frame) {
			switch v := in.get(fr, &o).(type) {
			case *Map:
				it := &mapIter{m: v}
				if v != nil {
					it.snap = append([]*mapEntry(nil), v.entries...)
				}
				fr.regs[dst] = it
			case *Str:
				fr.regs[dst] = &strIter{s: v}
			default:
				panic(unsupported("range"))
			}
		})
	case *ssa.Next:
		o := c.op(x.Iter)
		tt := x.Type().(*types.Tuple)
		add(func(fr *frame) { fr.regs[dst] = in.next(in.get(fr, &o), tt) })
	case *ssa.Select:
		type state struct {
			send  bool
			ch, v operand
			et    types.Type
		}
		var sts []state
		for _, st := range x.States {
			s := state{send: st.Dir == types.SendOnly, ch: c.op(st.Chan), et: st.Chan.Type().Underlying().(*types.Chan).Elem()}
			if s.send {
				s.v = c.op(st.Send)
			}
			sts = append(sts, s)
		}
		blocking := x.Blocking
		add(func(fr *frame) {
			pick := -1
			for {
				for i := range sts {
					ch, _ := in.get(fr, &sts[i].ch).(*Chan)
					if ch == nil {
						continue
					}
					if sts[i].send || len(ch.buf) > 0 || ch.closed {
						pick = i
						break
					}
				}
				if pick >= 0 || len(in.path.goq) == 0 {
					break
				}
				in.runGo()
			}
			if pick < 0 && blocking {
				in.blocked("a channel")
			}
			t := Tuple{in.db.Const(64, uint64(int64(pick))), in.db.False}
			for i := range sts {
				var v Value
				if !sts[i].send {
					v = in.zero(sts[i].et)
				}
				if i == pick {
					ch := in.get(fr, &sts[i].ch).(*Chan)
					if sts[i].send {
						if ch.closed {
							panic(in.rtPanic("send on closed channel"))
						}
						ch.buf = append(ch.buf, copyVal(in.get(fr, &sts[i].v)))
					} else {
						var ok bool
						v, ok = in.chanRecv(ch, sts[i].et)
						t[1] = in.db.Bool(ok)
					}
				}
				if !sts[i].send {
					t = append(t, v)
				}
			}
			fr.regs[dst] = t
		})
	default:
		panic(unsupported(fmt.Sprintf("instr %T", ins)))
	}
}

func isSigned(t types.Type) bool { _, s, _ := intWidth(t); return s }

func (in *Interp) panicText(v Iface) string {
	if v.T == nil {
		return "nil"
	}
	switch x := v.V.(type) {
	case *Str:
		if x.sym == nil {
			return x.s
		}
	}
	return v.T.String()
}

func (in *Interp) next(it Value, tt *types.Tuple) Value {
	switch x := it.(type) {
	case *mapIter:
		for x.i < len(x.snap) {
			e := x.snap[x.i]
			x.i++
			if e.dead {
				continue
			}
			return Tuple{in.db.True, copyVal(e.k), copyVal(e.v)}
		}
		zt := func(i int) Value {
			t := tt.At(i).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return in.zero(t)
		}
		return Tuple{in.db.False, zt(1), zt(2)}
	case *strIter:
		if x.i >= x.s.Len() {
			return Tuple{in.db.False, in.db.Const(64, 0), in.db.Const(32, 0)}
		}
		i := x.i
		if x.s.sym == nil {
			for _, r := range x.s.s[i:] {
				n := len(string(r))
				if r == 0xFFFD {
					n = 1
					if strings.HasPrefix(x.s.s[i:], "\uFFFD") {
						n = 3
					}
				}
				x.i += n
				return Tuple{in.db.True, in.db.Const(64, uint64(i)), in.db.Const(32, uint64(r))}
			}
		}
		b := x.s.sym[i]
		if in.Branch(in.db.Ult(b, in.db.Const(8, 0x80))) {
			x.i++
			return Tuple{in.db.True, in.db.Const(64, uint64(i)), in.db.ZExt(b, 32)}
		}
		panic(unsupported("range over symbolic non-ASCII string"))
	}
	panic(unsupported("next"))
}

func (in *Interp) chanRecv(v Value, et types.Type) (Value, bool) {
	ch, _ := v.(*Chan)
	if ch == nil {
		in.blocked("a nil channel")
	}
	for len(ch.buf) == 0 && !ch.closed && len(in.path.goq) > 0 {
		in.runGo()
	}
	if len(ch.buf) > 0 {
		x := ch.buf[0]
		ch.buf = ch.buf[1:]
		return x, true
	}
	if ch.closed {
		return in.zero(et), false
	}
	in.blocked("a channel")
	return nil, false
}

func (in *Interp) load(p Value) Value {
	switch x := p.(type) {
	case Ptr:
		if x == nil {
			panic(in.rtPanic("invalid memory address or nil pointer dereference"))
		}
		return copyVal(*x)
	case *SymPtr:
		n := len(x.cells)
		// skip runs of equal values
		t := x.cells[n-1].(*Term)
		for i := n - 2; i >= 0; i-- {
			c := x.cells[i].(*Term)
			if c == t {
				continue
			}
			t = in.db.Ite(in.db.Eq(x.idx, in.db.Const(x.idx.w, uint64(i))), c, t)
		}
		return t
	case *SlicePtr:
		if len(x.s) == 0 {
			panic(in.rtPanic("invalid memory address or nil pointer dereference"))
		}
		return copyVal(x.s[0])
	}
	panic(unsupported(fmt.Sprintf("load via %T", p)))
}

func (in *Interp) store(p, v Value) {
	switch x := p.(type) {
	case Ptr:
		if x == nil {
			panic(in.rtPanic("invalid memory address or nil pointer dereference"))
		}
		storeTo(x, v)
		return
	case *SymPtr:
		for i := range x.cells {
			x.cells[i] = in.db.Ite(in.db.Eq(x.idx, in.db.Const(x.idx.w, uint64(i))), v.(*Term), x.cells[i].(*Term))
		}
		return
	}
	panic(unsupported(fmt.Sprintf("store via %T", p)))
}

func (in *Interp) boundsOK(idx *Term, n int, sgn bool) {
	db := in.db
	if idx.isConst() {
		v := idx.signed()
		if !sgn {
			v = int64(idx.u)
		}
		if v < 0 || v >= int64(n) {
			panic(in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", v, n)))
		}
		return
	}
	var ok *Term
	if idx.w < 63 && uint64(n) > mask(idx.w) && !sgn {
		ok = db.True
	} else {
		ok = db.Ult(idx, db.Const(idx.w, uint64(n)))
		if sgn && idx.w < 63 && uint64(n) > mask(idx.w-1) {
			ok = db.Not(db.Slt(idx, db.Const(idx.w, 0)))
		}
	}
	if !in.Branch(ok) {
		panic(in.rtPanic(fmt.Sprintf("index out of range with length %d", n)))
	}
}

func (in *Interp) indexAddr(cells []Value, idx *Term, sgn bool) Value {
	in.boundsOK(idx, len(cells), sgn)
	if idx.isConst() {
		return Ptr(&cells[idx.u])
	}
	allT := true
	for _, c := range cells {
		if _, ok := c.(*Term); !ok {
			allT = false
			break
		}
	}
	if !allT || len(cells) > 4096 {
		i := in.Concretize(idx, 300)
		return Ptr(&cells[i])
	}
	return &SymPtr{cells, idx}
}

func (in *Interp) strIndex(s *Str, idx *Term, sgn bool) Value {
	in.boundsOK(idx, s.Len(), sgn)
	if idx.isConst() {
		if s.sym != nil {
			return s.sym[idx.u]
		}
		return in.db.Const(8, uint64(s.s[idx.u]))
	}
	bs := in.strBytes(s)
	t := bs[len(bs)-1]
	for i := len(bs) - 2; i >= 0; i-- {
		t = in.db.Ite(in.db.Eq(idx, in.db.Const(idx.w, uint64(i))), bs[i], t)
	}
	return t
}

func (c *compiler) slice(add func(instrFn), x *ssa.Slice, dst int) {
	in := c.in
	o := c.op(x.X)
	var lo, hi, mx *operand
	mk := func(v ssa.Value) *operand {
		if v == nil {
			return nil
		}
		p := c.op(v)
		return &p
	}
	lo, hi, mx = mk(x.Low), mk(x.High), mk(x.Max)
	add(func(fr *frame) {
		var cells []Value
		var s *Str
		isNil := false
		length, capv := 0, 0
		switch v := in.get(fr, &o).(type) {
		case Slice:
			cells = v
			length, capv = len(v), cap(v)
			isNil = v == nil
		case Ptr:
			if v == nil {
				panic(in.rtPanic("invalid memory address or nil pointer dereference"))
			}
			a := (*v).(Array)
			cells = a
			length, capv = len(a), len(a)
			cells = cells[:len(a):len(a)]
		case *Str:
			s = v
			length, capv = v.Len(), v.Len()
		default:
			panic(unsupported(fmt.Sprintf("slice of %T", v)))
		}
		val := func(p *operand, def int, bound int) int {
			if p == nil {
				return def
			}
			t := in.get(fr, p).(*Term)
			if t.isConst() {
				v := t.signed()
				if t.w < 64 && !true {
					v = int64(t.u)
				}
				if v < 0 || v > int64(bound) {
					panic(in.rtPanic(fmt.Sprintf("slice bounds out of range [%d] with capacity %d", v, bound)))
				}
				return int(v)
			}
			if !in.Branch(in.db.Ule(t, in.db.Const(t.w, uint64(bound)))) {
				panic(in.rtPanic("slice bounds out of range"))
			}
			return int(in.Concretize(t, 300))
		}
		m := val(mx, capv, capv)
		hb := m
		if s != nil {
			hb = length
		}
		h := val(hi, length, hb)
		l := val(lo, 0, h)
		if s != nil {
			if s.sym != nil {
				fr.regs[dst] = in.mkStr(s.sym[l:h])
			} else {
				fr.regs[dst] = &Str{s: s.s[l:h]}
			}
			return
		}
		if isNil {
			fr.regs[dst] = Slice(nil)
			return
		}
		fr.regs[dst] = Slice(cells[:capv][l:h:m])
	})
}

func (c *compiler) binop(add func(instrFn), x *ssa.BinOp, dst int) {
	in := c.in
	a, b := c.op(x.X), c.op(x.Y)
	db := in.db
	t := x.X.Type()
	w, sgn, isInt := intWidth(t)
	_ = w
	switch x.Op {
	case token.EQL:
		add(func(fr *frame) { fr.regs[dst] = in.eqVal(in.get(fr, &a), in.get(fr, &b)) })
		return
	case token.NEQ:
		add(func(fr *frame) { fr.regs[dst] = db.Not(in.eqVal(in.get(fr, &a), in.get(fr, &b))) })
		return
	}
	if isInt {
		var f func(p, q *Term) *Term
		switch x.Op {
		case token.ADD:
			f = func(p, q *Term) *Term { return db.Add(p, q) }
		case token.SUB:
			f = db.Sub
		case token.MUL:
			f = db.Mul
		case token.AND:
			f = db.BAnd
		case token.OR:
			f = db.BOr
		case token.XOR:
			f = db.BXor
		case token.AND_NOT:
			f = func(p, q *Term) *Term { return db.BAnd(p, db.BNot(q)) }
		case token.QUO, token.REM:
			quo := x.Op == token.QUO
			f = func(p, q *Term) *Term {
				if in.Branch(db.Eq(q, db.Const(q.w, 0))) {
					panic(in.rtPanic("integer divide by zero"))
				}
				switch {
				case quo && sgn:
					return db.SDiv(p, q)
				case quo:
					return db.UDiv(p, q)
				case sgn:
					return db.SRem(p, q)
				}
				return db.URem(p, q)
			}
		case token.LSS:
			f = func(p, q *Term) *Term {
				if sgn {
					return db.Slt(p, q)
				}
				return db.Ult(p, q)
			}
		case token.GTR:
			f = func(p, q *Term) *Term {
				if sgn {
					return db.Slt(q, p)
				}
				return db.Ult(q, p)
			}
		case token.LEQ:
			f = func(p, q *Term) *Term {
				if sgn {
					return db.Sle(p, q)
				}
				return db.Ule(p, q)
			}
		case token.GEQ:
			f = func(p, q *Term) *Term {
				if sgn {
					return db.Sle(q, p)
				}
				return db.Ule(q, p)
			}
		case token.SHL, token.SHR:
			ysgn := isSigned(x.Y.Type())
			shl := x.Op == token.SHL
			f = func(p, q *Term) *Term {
				if ysgn && in.Branch(db.Slt(q, db.Const(q.w, 0))) {
					panic(in.rtPanic("negative shift amount"))
				}
				// amounts >= width saturate
				if q.w > p.w {
					if q.isConst() {
						if q.u >= uint64(p.w) {
							q = db.Const(p.w, mask(p.w))
							if uint64(p.w) > mask(p.w) {
								q = db.Const(p.w, mask(p.w))
							}
						} else {
							q = db.Const(p.w, q.u)
						}
					} else {
						big := db.Ule(db.Const(q.w, uint64(p.w)), q)
						q = db.Ite(big, db.Const(p.w, uint64(p.w)), db.Extract(p.w-1, 0, q))
					}
				} else {
					q = db.ZExt(q, p.w)
				}
				if shl {
					return db.Shl(p, q)
				}
				if sgn {
					return db.AShr(p, q)
				}
				return db.LShr(p, q)
			}
		default:
			panic(unsupported("binop " + x.Op.String()))
		}
		add(func(fr *frame) { fr.regs[dst] = f(in.get(fr, &a).(*Term), in.get(fr, &b).(*Term)) })
		return
	}
	bt, _ := t.Underlying().(*types.Basic)
	if bt != nil && bt.Info()&types.IsBoolean != 0 {
		switch x.Op {
		case token.AND:
			add(func(fr *frame) { fr.regs[dst] = db.And(in.get(fr, &a).(*Term), in.get(fr, &b).(*Term)) })
			return
		case token.OR:
			add(func(fr *frame) { fr.regs[dst] = db.Or(in.get(fr, &a).(*Term), in.get(fr, &b).(*Term)) })
			return
		}
	}
	if bt != nil && bt.Info()&types.IsString != 0 {
		switch x.Op {
		case token.ADD:
			add(func(fr *frame) { fr.regs[dst] = in.strCat(in.get(fr, &a).(*Str), in.get(fr, &b).(*Str)) })
			return
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			op := x.Op
			add(func(fr *frame) {
				p, q := in.get(fr, &a).(*Str), in.get(fr, &b).(*Str)
				var r *Term
				switch op {
				case token.LSS:
					r = in.strLess(p, q)
				case token.GTR:
					r = in.strLess(q, p)
				case token.LEQ:
					r = db.Not(in.strLess(q, p))
				default:
					r = db.Not(in.strLess(p, q))
				}
				fr.regs[dst] = r
			})
			return
		}
	}
	if bt != nil && bt.Info()&types.IsFloat != 0 {
		op := x.Op
		add(func(fr *frame) {
			p, q := in.get(fr, &a).(float64), in.get(fr, &b).(float64)
			var r Value
			switch op {
			case token.ADD:
				r = p + q
			case token.SUB:
				r = p - q
			case token.MUL:
				r = p * q
			case token.QUO:
				r = p / q
			case token.LSS:
				r = db.Bool(p < q)
			case token.GTR:
				r = db.Bool(p > q)
			case token.LEQ:
				r = db.Bool(p <= q)
			case token.GEQ:
				r = db.Bool(p >= q)
			}
			fr.regs[dst] = r
		})
		return
	}
	panic(unsupported("binop " + x.String()))
}

func (in *Interp) strCat(a, b *Str) *Str {
	if a.sym == nil && b.sym == nil {
		return &Str{s: a.s + b.s}
	}
	return in.mkStr(append(append([]*Term(nil), in.strBytes(a)...), in.strBytes(b)...))
}

func (in *Interp) strLess(a, b *Str) *Term {
	if a.sym == nil && b.sym == nil {
		return in.db.Bool(a.s < b.s)
	}
	return in.bytesLess(in.strBytes(a), in.strBytes(b))
}

// bytesLess: lexicographic a < b.
func (in *Interp) bytesLess(x, y []*Term) *Term {
	n := min(len(x), len(y))
	tail := in.db.Bool(len(x) < len(y))
	if n == 0 {
		return tail
	}
	p, q := in.db.Concat(x[:n]...), in.db.Concat(y[:n]...)
	return in.db.Or(in.db.Ult(p, q), in.db.And(in.db.Eq(p, q), tail))
}

func (in *Interp) convert(from, to types.Type, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Kind() == types.UnsafePointer {
			return v
		}
		if w, _, ok := intWidth(tu); ok {
			switch x := v.(type) {
			case *Term:
				_, fs, _ := intWidth(fu)
				if x.w == w {
					return x
				}
				if fs {
					return in.db.SExt(x, w)
				}
				return in.db.ZExt(x, w)
			case float64:
				return in.db.Const(w, uint64(int64(x)))
			case Ptr:
				panic(unsupported("pointer to integer"))
			}
		}
		if tb.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case *Str:
				return x
			case Slice:
				if len(x) == 0 {
					return in.emptyStr
				}
				if eb, ok := fu.(*types.Slice); ok {
					if w, _, _ := intWidth(eb.Elem()); w == 32 {
						var sb strings.Builder
						for _, t := range x {
							if !t.(*Term).isConst() {
								panic(unsupported("symbolic runes"))
							}
							sb.WriteRune(rune(t.(*Term).u))
						}
						return &Str{s: sb.String()}
					}
				}
				return in.mkStr(in.sliceTerms(x))
			case *Term:
				if x.isConst() {
					return &Str{s: string(rune(x.signed()))}
				}
				panic(unsupported("string(symbolic rune)"))
			}
		}
		if tb.Info()&types.IsFloat != 0 {
			switch x := v.(type) {
			case float64:
				if tb.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			case *Term:
				if !x.isConst() {
					panic(unsupported("float of symbolic"))
				}
				if isSigned(fu) {
					return float64(x.signed())
				}
				return float64(x.u)
			}
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := v.(*Str); ok {
			if w, _, _ := intWidth(ts.Elem()); w == 8 {
				bs := in.strBytes(s)
				n := roundupsize(len(bs))
				if n < len(bs) {
					n = len(bs)
				}
				r := make(Slice, len(bs), n)
				for i, t := range bs {
					r[i] = t
				}
				z := in.db.Const(8, 0)
				for i := len(bs); i < n; i++ {
					r[:n][i] = z
				}
				return r
			}
			if s.sym == nil {
				var r Slice
				for _, c := range s.s {
					r = append(r, in.db.Const(32, uint64(c)))
				}
				if r == nil {
					r = Slice{}
				}
				return r
			}
			panic(unsupported("[]rune of symbolic string"))
		}
		return v
	}
	if _, ok := tu.(*types.Pointer); ok {
		switch v.(type) {
		case Ptr, *SlicePtr, *StrPtr:
			return v
		}
	}
	panic(unsupported(fmt.Sprintf("convert %v to %v", from, to)))
}

// callee prepares a call: it evaluates operands and returns a thunk.
func (c *compiler) callee(cc *ssa.CallCommon) func(fr *frame) func() Value {
	in := c.in
	var os []operand
	for _, a := range cc.Args {
		os = append(os, c.op(a))
	}
	args := func(fr *frame) []Value {
		r := make([]Value, len(os))
		for i := range os {
			r[i] = in.get(fr, &os[i])
		}
		return r
	}
	if cc.IsInvoke() {
		o := c.op(cc.Value)
		m := cc.Method
		return func(fr *frame) func() Value {
			recv := in.get(fr, &o).(Iface)
			as := args(fr)
			return func() Value { return in.invoke(recv, m, as) }
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		name := f.Name()
		var ats []types.Type
		for _, a := range cc.Args {
			ats = append(ats, a.Type())
		}
		rt := cc.Signature().Results()
		return func(fr *frame) func() Value {
			as := args(fr)
			return func() Value { return in.builtin(fr, name, as, ats, rt) }
		}
	case *ssa.Function:
		if f.Name() == "init" && f.Pkg != nil && f == f.Pkg.Func("init") && f.Synthetic != "" {
			return func(fr *frame) func() Value { return func() Value { return nil } }
		}
		return func(fr *frame) func() Value {
			as := args(fr)
			return func() Value { return in.call(f, as, nil) }
		}
	}
	o := c.op(cc.Value)
	return func(fr *frame) func() Value {
		f := in.get(fr, &o)
		as := args(fr)
		return func() Value { return in.callValue(f, as) }
	}
}

func (in *Interp) builtin(fr *frame, name string, args []Value, ats []types.Type, rt *types.Tuple) Value {
	db := in.db
	i64 := func(n int) Value { return db.Const(64, uint64(n)) }
	switch name {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return i64(len(x))
		case *Str:
			return i64(x.Len())
		case *Map:
			if x == nil {
				return i64(0)
			}
			return i64(x.n)
		case Array:
			return i64(len(x))
		case Ptr:
			at := ats[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return i64(int(at.Len()))
		case *Chan:
			if x == nil {
				return i64(0)
			}
			return i64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return i64(cap(x))
		case Array:
			return i64(len(x))
		case Ptr:
			at := ats[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return i64(int(at.Len()))
		case *Chan:
			return i64(x.cap)
		}
	case "append":
		s, _ := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case *Str:
			for _, t := range in.strBytes(y) {
				add = append(add, t)
			}
		default:
			panic(unsupported(fmt.Sprintf("append %T", y)))
		}
		return in.appendVals(s, add, ats[0])
	case "copy":
		d := args[0].(Slice)
		switch y := args[1].(type) {
		case Slice:
			n := min(len(d), len(y))
			if n > 0 {
				tmp := make([]Value, n)
				for i := range tmp {
					tmp[i] = copyVal(y[i])
				}
				for i := range tmp {
					storeTo(&d[i], tmp[i])
				}
			}
			return i64(n)
		case *Str:
			bs := in.strBytes(y)
			n := min(len(d), len(bs))
			for i := 0; i < n; i++ {
				d[i] = bs[i]
			}
			return i64(n)
		}
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			in.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.entries {
					e.dead = true
				}
				*x = Map{idx: map[string]*mapEntry{}}
			}
		case Slice:
			et := ats[0].Underlying().(*types.Slice).Elem()
			for i := range x {
				storeTo(&x[i], in.zero(et))
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		_, sgn, isInt := intWidth(ats[0])
		for _, a := range args[1:] {
			if isInt {
				p, q := r.(*Term), a.(*Term)
				var lt *Term
				if sgn {
					lt = db.Slt(p, q)
				} else {
					lt = db.Ult(p, q)
				}
				if name == "min" {
					r = db.Ite(lt, p, q)
				} else {
					r = db.Ite(lt, q, p)
				}
			} else {
				panic(unsupported(name))
			}
		}
		return r
	case "print", "println":
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(targetPanic{v: v, msg: in.panicText(v)})
	case "recover":
		df := in.path.deferFrame
		if df != nil && df.panicking {
			df.panicking = false
			return df.panicVal.(targetPanic).v
		}
		return Iface{}
	case "close":
		ch := args[0].(*Chan)
		ch.closed = true
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			panic(in.rtPanic("invalid memory address or nil pointer dereference"))
		}
		return args[0]
	case "SliceData":
		s := args[0].(Slice)
		if s == nil {
			return Ptr(nil)
		}
		return &SlicePtr{s[:cap(s)]}
	case "Sizeof":
		return db.Const(64, uint64(in.prog.sizes.Sizeof(ats[0])))
	case "StringData":
		return &StrPtr{args[0].(*Str)}
	case "String":
		n := int(args[1].(*Term).u)
		switch p := args[0].(type) {
		case *SlicePtr:
			return in.mkStr(in.sliceTerms(p.s[:n]))
		case *StrPtr:
			if p.s.sym != nil {
				return in.mkStr(p.s.sym[:n])
			}
			return &Str{s: p.s.s[:n]}
		case Ptr:
			if n == 0 {
				return in.emptyStr
			}
			if p != nil {
				return in.mkStr(in.sliceTerms(Slice(unsafe.Slice((*Value)(p), n))))
			}
		}
	case "Slice":
		n := int(args[1].(*Term).u)
		switch p := args[0].(type) {
		case *SlicePtr:
			return p.s[:n:n]
		case *StrPtr:
			return in.mkBytes(in.strBytes(p.s)[:n])
		case Ptr:
			if p == nil && n == 0 {
				return Slice(nil)
			}
			if p != nil {
				if a, ok := (*p).(Array); ok && len(a) >= n {
					return Slice(a[:n:n])
				}
				return Slice(unsafe.Slice((*Value)(p), n))
			}
		}
	}
	panic(unsupported("builtin " + name))
}

func (in *Interp) appendVals(s Slice, add []Value, st types.Type) Value {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			storeTo(&r[len(s)+i], tmp[i])
		}
		return r
	}
	esz := 8
	var et types.Type
	if sl, ok := st.Underlying().(*types.Slice); ok {
		et = sl.Elem()
		esz = int(in.prog.sizes.Sizeof(et))
	} else {
		et = types.Typ[types.Uint8]
		esz = 1
	}
	nc := growCap(len(s), cap(s), n, esz)
	r := make(Slice, n, nc)
	for i := range s {
		r[i] = copyVal(s[i])
	}
	for i := range add {
		r[len(s)+i] = copyVal(add[i])
	}
	if nc > n {
		full := r[:nc]
		z := in.zero(et)
		for i := n; i < nc; i++ {
			full[i] = copyVal(z)
		}
	}
	return r
}
