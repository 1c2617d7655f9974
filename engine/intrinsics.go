package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Models of functions that are not executed instruction by instruction: the harness interface, ideal
// cryptographic primitives, protobuf, and assembly-backed or reflective library functions.

var globalOverrides = map[string]func(in *Interp, g *ssa.Global) Value{
	"crypto/rand.Reader": func(in *Interp, g *ssa.Global) Value {
		m := in.prog.pkgs[harnessMod+"/models"]
		t := m.Type("CRand").Type()
		return Iface{in.canon(t), in.zero(t)}
	},
}

var intrTable map[string]intrinsicFn

func (in *Interp) findIntrinsic(fn, orig *ssa.Function, name string) intrinsicFn {
	on := orig.String()
	if f, ok := intrTable[on]; ok {
		return f
	}
	if f, ok := intrTable[name]; ok {
		return f
	}
	pkg := ""
	if orig.Pkg != nil {
		pkg = orig.Pkg.Pkg.Path()
	} else if orig.Signature.Recv() != nil {
		if o := orig.Object(); o != nil && o.Pkg() != nil {
			pkg = o.Pkg().Path()
		}
	}
	switch {
	case strings.HasPrefix(pkg, "github.com/golang/glog"):
		res := fn.Signature.Results()
		return func(in *Interp, args []Value) Value { return in.zeroRes(res) }
	case strings.HasPrefix(pkg, repoMod+"/generated/") && fn.Signature.Recv() != nil && orig.Synthetic == "":
		switch orig.Name() {
		case "Reset":
			return func(in *Interp, args []Value) Value {
				p := args[0].(Ptr)
				if p == nil {
					panic(in.rtPanic("invalid memory address or nil pointer dereference"))
				}
				l := in.layout(fn.Signature.Recv().Type())
				storeTo(p, in.zero(l.named))
				return nil
			}
		case "String":
			if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
				return func(in *Interp, args []Value) Value { return &Str{s: "<message>"} }
			}
		case "ProtoReflect":
			return func(in *Interp, args []Value) Value { panic(unsupported("ProtoReflect")) }
		}
	case pkg == "sync/atomic" || pkg == "internal/runtime/atomic":
		if f := atomicIntr(orig); f != nil {
			return f
		}
	case pkg == "runtime" || pkg == "internal/race" || pkg == "internal/msan" || pkg == "internal/asan":
		switch orig.Name() {
		case "KeepAlive", "SetFinalizer", "GC", "Gosched", "Acquire", "Release", "ReleaseMerge", "Disable", "Enable", "Read", "Write", "ReadRange", "WriteRange", "Errors":
			res := fn.Signature.Results()
			return func(in *Interp, args []Value) Value { return in.zeroRes(res) }
		}
	}
	return nil
}

func (in *Interp) zeroRes(res *types.Tuple) Value {
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(res.At(0).Type())
	}
	return in.zero(res)
}

func atomicIntr(fn *ssa.Function) intrinsicFn {
	n := fn.Name()
	if fn.Signature.Recv() != nil {
		rt := fn.Signature.Recv().Type().String()
		if strings.Contains(rt, "atomic.Pointer[") {
			cell := func(in *Interp, v Value) *Value {
				p := v.(Ptr)
				if p == nil {
					panic(in.rtPanic("invalid memory address or nil pointer dereference"))
				}
				s := (*p).(Struct)
				return &s[len(s)-1]
			}
			return atomicOp(n, cell)
		}
		if strings.HasSuffix(rt, "atomic.Value") {
			cell := func(in *Interp, v Value) *Value {
				s := (*(v.(Ptr))).(Struct)
				return &s[0]
			}
			return atomicOp(n, cell)
		}
		return nil
	}
	cell := func(in *Interp, v Value) *Value {
		p := v.(Ptr)
		if p == nil {
			panic(in.rtPanic("invalid memory address or nil pointer dereference"))
		}
		return p
	}
	for _, op := range []string{"CompareAndSwap", "Load", "Store", "Swap", "Add", "And", "Or", "Xchg", "Cas"} {
		if strings.HasPrefix(n, op) {
			return atomicOp(op, cell)
		}
	}
	return nil
}

func atomicOp(op string, cell func(*Interp, Value) *Value) intrinsicFn {
	switch op {
	case "Load":
		return func(in *Interp, a []Value) Value { return copyVal(*cell(in, a[0])) }
	case "Store":
		return func(in *Interp, a []Value) Value { storeTo(cell(in, a[0]), a[1]); return nil }
	case "Swap", "Xchg":
		return func(in *Interp, a []Value) Value {
			c := cell(in, a[0])
			o := copyVal(*c)
			storeTo(c, a[1])
			return o
		}
	case "CompareAndSwap", "Cas":
		return func(in *Interp, a []Value) Value {
			c := cell(in, a[0])
			if in.Branch(in.eqVal(*c, a[1])) {
				storeTo(c, a[2])
				return in.db.True
			}
			return in.db.False
		}
	case "Add":
		return func(in *Interp, a []Value) Value {
			c := cell(in, a[0])
			*c = in.db.Add((*c).(*Term), a[1].(*Term))
			return *c
		}
	}
	return nil
}

func (in *Interp) newError(msg string) Iface {
	p := in.prog.pkgs["errors"]
	t := types.NewPointer(p.Type("errorString").Type())
	v := new(Value)
	*v = Struct{&Str{s: msg}}
	return Iface{in.canon(t), Ptr(v)}
}

func validUTF8(b []byte) bool { return utf8.Valid(b) }

func cstr(v Value) string {
	s := v.(*Str)
	if s.sym != nil {
		panic(unsupported("symbolic name"))
	}
	return s.s
}
func cint(v Value) int {
	t := v.(*Term)
	if !t.isConst() {
		panic(unsupported("symbolic size"))
	}
	return int(int64(t.u))
}

func (in *Interp) bytesVar(name string, n int, kind string, flag uint8) Value {
	if n == 0 {
		return Slice{}
	}
	t := in.newVar(name, n*8, kind, flag)
	return in.mkBytes(in.termBytes(t))
}

func (in *Interp) eqBytes(a, b Value) *Term {
	x, y := in.sliceTerms(a), in.sliceTerms(b)
	if len(x) != len(y) {
		return in.db.False
	}
	if len(x) == 0 {
		return in.db.True
	}
	return in.db.Eq(in.db.Concat(x...), in.db.Concat(y...))
}

func (in *Interp) b2t(c *Term, w int) *Term {
	return in.db.Ite(c, in.db.Const(w, 1), in.db.Const(w, 0))
}

// indexOf gives the first position where f holds, branching at each.
func (in *Interp) firstWhere(n int, f func(i int) *Term) int {
	for i := 0; i < n; i++ {
		if in.Branch(f(i)) {
			return i
		}
	}
	return -1
}

func (in *Interp) termsOf(v Value) []*Term {
	switch x := v.(type) {
	case *Str:
		return in.strBytes(x)
	case Slice:
		return in.sliceTerms(x)
	}
	panic(unsupported("termsOf"))
}

func (in *Interp) compareTerms(x, y []*Term) *Term {
	db := in.db
	lt := in.bytesLess(x, y)
	var eq *Term
	if len(x) != len(y) {
		eq = db.False
	} else if len(x) == 0 {
		eq = db.True
	} else {
		eq = db.Eq(db.Concat(x...), db.Concat(y...))
	}
	return db.Ite(eq, db.Const(64, 0), db.Ite(lt, db.Const(64, ^uint64(0)), db.Const(64, 1)))
}

func (in *Interp) unwrap(e Iface) []Iface {
	if v, ok := in.callMethod(e, "Unwrap"); ok {
		switch x := v.(type) {
		case Iface:
			if x.T != nil {
				return []Iface{x}
			}
		case Slice:
			var r []Iface
			for _, y := range x {
				r = append(r, y.(Iface))
			}
			return r
		}
	}
	return nil
}

func (in *Interp) errorsIs(e, target Iface) bool {
	if e.T == nil || target.T == nil {
		return e.T == nil && target.T == nil
	}
	if in.sameType(e.T, target.T) && types.Comparable(e.T) {
		if in.Branch(in.eqVal(e, target)) {
			return true
		}
	}
	if f := in.findMethod(e.T, nil, "Is"); f != nil && f.Signature.Params().Len() == 1 {
		if r, ok := in.call(f, []Value{e.V, target}, nil).(*Term); ok && in.Branch(r) {
			return true
		}
	}
	for _, u := range in.unwrap(e) {
		if in.errorsIs(u, target) {
			return true
		}
	}
	return false
}

func (in *Interp) errorsAs(e Iface, target Ptr, tt types.Type) bool {
	for e.T != nil {
		if it, ok := tt.Underlying().(*types.Interface); ok {
			_ = it
			if in.prog.implements(e.T, tt) {
				storeTo(target, e)
				return true
			}
		} else if in.sameType(e.T, tt) {
			storeTo(target, e.V)
			return true
		}
		us := in.unwrap(e)
		if len(us) == 0 {
			return false
		}
		if len(us) > 1 {
			for _, u := range us {
				if in.errorsAs(u, target, tt) {
					return true
				}
			}
			return false
		}
		e = us[0]
	}
	return false
}

// ---- formatting ----

func (in *Interp) decimal(t *Term, signed bool, minDigits int, exact bool) []*Term {
	db := in.db
	if t.isConst() {
		var s string
		if signed {
			s = fmt.Sprintf("%0*d", minDigits, t.signed())
		} else {
			s = fmt.Sprintf("%0*d", minDigits, t.u)
		}
		return in.strBytes(&Str{s: s})
	}
	if !exact {
		return in.strBytes(&Str{s: "?"})
	}
	var out []*Term
	x := db.ZExt(t, 64)
	if signed {
		x = db.SExt(t, 64)
		if in.Branch(db.Slt(x, db.Const(64, 0))) {
			out = append(out, db.Const(8, '-'))
			x = db.Sub(db.Const(64, 0), x)
		}
	}
	n := 1
	p := uint64(10)
	_, hi := ubounds(x)
	for n < 20 {
		if hi < p {
			break
		}
		if n >= minDigits {
			if in.Branch(db.Ult(x, db.Const(64, p))) {
				break
			}
		}
		n++
		if n == 20 {
			break
		}
		p *= 10
	}
	if n < minDigits {
		n = minDigits
	}
	d := uint64(1)
	for i := 1; i < n; i++ {
		d *= 10
	}
	for i := 0; i < n; i++ {
		q := db.UDiv(x, db.Const(64, d))
		r := q
		if i > 0 || hi >= d*10 && d*10 > d {
			r = db.URem(q, db.Const(64, 10))
		}
		out = append(out, db.Add(db.Extract(7, 0, r), db.Const(8, '0')))
		d /= 10
	}
	return out
}

func (in *Interp) hexTerms(b []*Term, upper bool) []*Term {
	db := in.db
	var out []*Term
	al := uint64('a' - 10)
	if upper {
		al = 'A' - 10
	}
	for _, t := range b {
		for _, n := range []*Term{db.Extract(7, 4, t), db.Extract(3, 0, t)} {
			x := db.ZExt(n, 8)
			out = append(out, db.Ite(db.Ult(n, db.Const(4, 10)), db.Add(x, db.Const(8, '0')), db.Add(x, db.Const(8, al))))
		}
	}
	return out
}

func (in *Interp) fmtValue(verb byte, v Iface, pad int, zero, plus, exact bool) []*Term {
	S := func(s string) []*Term { return in.strBytes(&Str{s: s}) }
	if v.T == nil {
		return S("<nil>")
	}
	if verb == 's' || verb == 'v' || verb == 'q' || verb == 'w' {
		for _, m := range []string{"Error", "String"} {
			if f := in.findMethod(v.T, nil, m); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), types.Typ[types.String]) {
				if p, ok := v.V.(Ptr); ok && p == nil {
					return S("<nil>")
				}
				s, _ := in.call(f, []Value{v.V}, nil).(*Str)
				return in.strBytes(s)
			}
		}
	}
	switch x := v.V.(type) {
	case *Str:
		if verb == 'x' || verb == 'X' {
			return in.hexTerms(in.strBytes(x), verb == 'X')
		}
		if verb == 'q' {
			if x.sym == nil {
				return S(fmt.Sprintf("%q", x.s))
			}
			if exact {
				panic(unsupported("%q of a symbolic string"))
			}
			return S("?")
		}
		return in.strBytes(x)
	case *Term:
		if x.w == 0 {
			if !exact && !x.isConst() {
				return S("?")
			}
			if in.Branch(x) {
				return S("true")
			}
			return S("false")
		}
		_, sg, _ := intWidth(v.T)
		if verb == 'x' || verb == 'X' {
			if x.isConst() {
				f := "%x"
				if verb == 'X' {
					f = "%X"
				}
				if pad > 0 && zero {
					return S(fmt.Sprintf("%0*x", pad, x.u))
				}
				return S(fmt.Sprintf(f, x.u))
			}
			if pad == x.w/4 && zero {
				return in.hexTerms(in.termBytes(x), verb == 'X')
			}
			if exact {
				panic(unsupported("%x of a symbolic integer"))
			}
			return S("?")
		}
		md := 1
		if zero && pad > 0 {
			md = pad
		}
		out := in.decimal(x, sg, md, exact)
		for len(out) < pad {
			out = append([]*Term{in.db.Const(8, ' ')}, out...)
		}
		return out
	case Slice:
		if len(x) == 0 {
			if verb == 's' || verb == 'x' {
				return nil
			}
			return S("[]")
		}
		if _, ok := x[0].(*Term); ok {
			if verb == 'x' || verb == 'X' {
				return in.hexTerms(in.sliceTerms(x), verb == 'X')
			}
			if verb == 's' {
				return in.sliceTerms(x)
			}
		}
		out := S("[")
		et := v.T.Underlying().(*types.Slice).Elem()
		for i, e := range x {
			if i > 0 {
				out = append(out, S(" ")...)
			}
			ev, ok := e.(Iface)
			if !ok {
				ev = Iface{et, e}
			}
			out = append(out, in.fmtValue(verb, ev, 0, false, plus, exact)...)
		}
		return append(out, S("]")...)
	case Array:
		if len(x) > 0 {
			if _, ok := x[0].(*Term); ok && (verb == 'x' || verb == 'X') {
				return in.hexTerms(in.sliceTerms(x), verb == 'X')
			}
		}
		et := v.T.Underlying().(*types.Array).Elem()
		out := S("[")
		for i, e := range x {
			if i > 0 {
				out = append(out, S(" ")...)
			}
			out = append(out, in.fmtValue(verb, Iface{et, e}, 0, false, plus, exact)...)
		}
		return append(out, S("]")...)
	case Struct:
		st := v.T.Underlying().(*types.Struct)
		out := S("{")
		for i, e := range x {
			if i > 0 {
				out = append(out, S(" ")...)
			}
			if plus {
				out = append(out, S(st.Field(i).Name()+":")...)
			}
			ev, ok := e.(Iface)
			if !ok {
				ev = Iface{st.Field(i).Type(), e}
			}
			out = append(out, in.fmtValue(verb, ev, 0, false, plus, exact)...)
		}
		return append(out, S("}")...)
	}
	if exact {
		panic(unsupported(fmt.Sprintf("formatting of %s", v.T)))
	}
	return S("?")
}

func (in *Interp) format(f string, args []Value, exact bool) (out []*Term, wrapped []Iface) {
	S := func(s string) []*Term { return in.strBytes(&Str{s: s}) }
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = append(out, S(f[i:i+j])...)
			i += j
			continue
		}
		i++
		zero, plus, minus := false, false, false
		pad := 0
		for i < len(f) && strings.IndexByte("+-# 0", f[i]) >= 0 {
			if f[i] == '0' {
				zero = true
			}
			if f[i] == '+' {
				plus = true
			}
			if f[i] == '-' {
				minus = true
			}
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			pad = pad*10 + int(f[i]-'0')
			i++
		}
		if i >= len(f) {
			out = append(out, S("%!(NOVERB)")...)
			break
		}
		verb := f[i]
		i++
		if verb == '%' {
			out = append(out, S("%")...)
			continue
		}
		if ai >= len(args) {
			out = append(out, S("%!"+string(verb)+"(MISSING)")...)
			continue
		}
		a := args[ai].(Iface)
		ai++
		if verb == 'w' {
			if a.T != nil {
				wrapped = append(wrapped, a)
			}
		}
		if verb == 'T' {
			n := "<nil>"
			if a.T != nil {
				n = a.T.String()
			}
			out = append(out, S(n)...)
			continue
		}
		if minus && exact {
			panic(unsupported("left-justified formatting"))
		}
		p := in.fmtValue(verb, a, pad, zero, plus, exact)
		for len(p) < pad && !exact {
			p = append(S(" "), p...)
		}
		out = append(out, p...)
	}
	return
}

// ---- curve25519 value helpers ----

func scalarCell(in *Interp, v Value) *Value {
	p := v.(Ptr)
	if p == nil {
		panic(in.rtPanic("invalid memory address or nil pointer dereference"))
	}
	a := (*p).(Struct)[0].(Array)
	return &a[0]
}
func (in *Interp) getScalar(v Value) *Term {
	t := (*scalarCell(in, v)).(*Term)
	if t.w != 256 {
		return in.db.BigConst(256, new(big.Int).SetUint64(t.u))
	}
	return t
}
func (in *Interp) setScalar(v Value, t *Term) Value { *scalarCell(in, v) = t; return v }

func pointCell(in *Interp, v Value) *Value {
	p := v.(Ptr)
	if p == nil {
		panic(in.rtPanic("invalid memory address or nil pointer dereference"))
	}
	x := (*p).(Struct)[1].(Struct)
	return &x[0]
}
func (in *Interp) getPoint(v Value) *Term {
	t := (*pointCell(in, v)).(*Term)
	if t.w != 256 {
		s := "edwards25519: use of uninitialized Point"
		panic(targetPanic{v: Iface{in.canon(types.Typ[types.String]), &Str{s: s}}, msg: s})
	}
	return t
}
func (in *Interp) setPoint(v Value, t *Term) Value { *pointCell(in, v) = t; return v }

func feCell(in *Interp, v Value) *Value {
	p := v.(Ptr)
	if p == nil {
		panic(in.rtPanic("invalid memory address or nil pointer dereference"))
	}
	return &(*p).(Struct)[0]
}
func (in *Interp) getFe(v Value) *Term {
	t := (*feCell(in, v)).(*Term)
	if t.w != 256 {
		return in.db.BigConst(256, new(big.Int).SetUint64(t.u))
	}
	return t
}
func (in *Interp) setFe(v Value, t *Term) Value { *feCell(in, v) = t; return v }

func (in *Interp) feBinary(op byte) intrinsicFn {
	return func(in *Interp, a []Value) Value {
		r, ok := in.cr.feBin(op, in.getFe(a[1]), in.getFe(a[2]))
		if !ok {
			panic(unsupported("field arithmetic over two unknowns"))
		}
		return in.setFe(a[0], r)
	}
}

func errPair(in *Interp, p Value, msg string) Value {
	return Tuple{Ptr(nil), in.newError(msg)}
}

// decodeEd: an encoded Edwards point (32 bytes) as ± the scalar whose multiple of the base point it is.
func (in *Interp) decodeEd(pub []*Term) *Term {
	db := in.db
	v := in.leTerm(pub)
	y := db.Extract(254, 0, v)
	sign := db.Extract(255, 255, v)
	var s *Term
	if y.op == OpApp && y.name == "edy" {
		s = y.args[0]
	} else if y.op == OpVar || y.op == OpExtract {
		// attacker bytes that the path condition equates with a known point are handled by the caller
		return nil
	}
	if s == nil {
		return nil
	}
	if in.Branch(db.Eq(sign, in.cr.edSign(s))) {
		return s
	}
	return in.cr.polyTerm(polyNeg(in.cr.polyOf(s)))
}

func (in *Interp) ed25519Verify(pub, msg, sig Value) *Term {
	db, cr := in.db, in.cr
	p, m, s := in.sliceTerms(pub), in.sliceTerms(msg), in.sliceTerms(sig)
	if len(p) != 32 {
		t := fmt.Sprintf("ed25519: bad public key length: %d", len(p))
		panic(targetPanic{v: Iface{in.canon(types.Typ[types.String]), &Str{s: t}}, msg: t})
	}
	if len(s) != 64 {
		return db.False
	}
	allConst := true
	for _, x := range append(append(append([]*Term(nil), p...), m...), s...) {
		if !x.isConst() {
			allConst = false
			break
		}
	}
	uf := func() *Term {
		args := []*Term{db.Concat(p...), db.Concat(s...)}
		if len(m) > 0 {
			args = append(args, db.Concat(m...))
		}
		t := cr.app("edvrf", 1, args...)
		return db.Eq(t, db.Const(1, 1))
	}
	if allConst {
		return uf()
	}
	top := db.Eq(db.Extract(7, 5, s[63]), db.Const(3, 0))
	if !in.Branch(top) {
		return db.False
	}
	A := in.decodeEd(p)
	if A == nil {
		return uf()
	}
	R := in.leTerm(s[:32])
	S := in.leTerm(s[32:])
	h := cr.hash("sha512", 64, db.Concat(append(append(append([]*Term(nil), s[:32]...), p...), m...)...))
	hs := cr.scalarOf(in.leTerm(in.termBytes(h)))
	cand := map[*Term]bool{}
	var cs []*Term
	add := func(t *Term) {
		if t.op == OpApp && t.name == "sc" && !cand[t] {
			cand[t] = true
			cs = append(cs, t)
		}
	}
	for _, t := range db.support(S) {
		add(t)
	}
	for _, r := range in.path.released {
		add(r.base)
	}
	res := db.False
	hA := polyMul(cr.polyOf(hs), cr.polyOf(A))
	for _, c := range cs {
		se := db.Eq(S, c)
		if se.isFalse() {
			continue
		}
		pc := cr.polyOf(c)
		for _, mo := range pc {
			if len(mo.atoms) != 1 || mo.coef.Cmp(big.NewInt(1)) != 0 {
				continue
			}
			r := poly{mono{big.NewInt(1), mo.atoms}}
			rt := cr.polyTerm(r)
			z := cr.polyZero(polyAdd(pc, polyNeg(polyAdd(r, hA))))
			if z.isFalse() {
				continue
			}
			re := db.Eq(R, cr.edEnc(rt))
			if re.isFalse() {
				continue
			}
			res = db.Or(res, db.And(se, re, z))
		}
	}
	return res
}

func init() {
	noop := func(in *Interp, a []Value) Value { return nil }
	ident := func(in *Interp, a []Value) Value { return a[0] }
	retTrue := func(in *Interp, a []Value) Value { return in.db.True }
	retFalse := func(in *Interp, a []Value) Value { return in.db.False }
	i64 := func(in *Interp, n int) *Term { return in.db.Const(64, uint64(n)) }
	H := harnessMod + "/sym."
	E := "filippo.io/edwards25519"
	PB := "google.golang.org/protobuf/proto"
	marshal := func(in *Interp, m Iface) Value {
		ts, isNil := in.protoMarshal(m)
		if isNil && len(ts) == 0 && m.T == nil {
			return Tuple{Slice(nil), Iface{}}
		}
		sl := in.mkBytes(ts)
		if len(ts) == 0 {
			sl = Slice{}
			if isNil {
				sl = nil
			}
		}
		return Tuple{sl, Iface{}}
	}
	byteSlice := types.NewSlice(types.Typ[types.Uint8])
	xorBytes := func(in *Interp, a []Value) Value {
		d, x, y := a[0].(Slice), in.sliceTerms(a[1]), in.sliceTerms(a[2])
		n := min(len(x), len(y))
		if n == 0 {
			return i64(in, 0)
		}
		if len(d) < n {
			panic(targetPanic{v: Iface{in.canon(types.Typ[types.String]), &Str{s: "subtle.XORBytes: dst too short"}}, msg: "subtle.XORBytes: dst too short"})
		}
		t := in.db.BXor(in.db.Concat(x[:n]...), in.db.Concat(y[:n]...))
		for i, b := range in.termBytes(t) {
			d[i] = b
		}
		return i64(in, n)
	}
	ctCompare := func(in *Interp, a []Value) Value { return in.b2t(in.eqBytes(a[0], a[1]), 64) }
	ctEq := func(in *Interp, a []Value) Value { return in.b2t(in.db.Eq(a[0].(*Term), a[1].(*Term)), 64) }
	ctSel := func(in *Interp, a []Value) Value {
		return in.db.Ite(in.db.Eq(a[0].(*Term), in.db.Const(64, 1)), a[1].(*Term), a[2].(*Term))
	}
	ctLe := func(in *Interp, a []Value) Value { return in.b2t(in.db.Sle(a[0].(*Term), a[1].(*Term)), 64) }
	indexByte := func(in *Interp, a []Value) Value {
		s := in.termsOf(a[0])
		c := a[1].(*Term)
		return i64(in, in.firstWhere(len(s), func(i int) *Term { return in.db.Eq(s[i], c) }))
	}
	lastIndexByte := func(in *Interp, a []Value) Value {
		s := in.termsOf(a[0])
		c := a[1].(*Term)
		k := in.firstWhere(len(s), func(i int) *Term { return in.db.Eq(s[len(s)-1-i], c) })
		if k >= 0 {
			k = len(s) - 1 - k
		}
		return i64(in, k)
	}
	index := func(in *Interp, a []Value) Value {
		s, p := in.termsOf(a[0]), in.termsOf(a[1])
		if len(p) == 0 {
			return i64(in, 0)
		}
		if len(s) < len(p) {
			return i64(in, -1)
		}
		return i64(in, in.firstWhere(len(s)-len(p)+1, func(i int) *Term { return in.db.Eq(in.db.Concat(s[i:i+len(p)]...), in.db.Concat(p...)) }))
	}
	count := func(in *Interp, a []Value) Value {
		s := in.termsOf(a[0])
		c := a[1].(*Term)
		n := 0
		for _, x := range s {
			if in.Branch(in.db.Eq(x, c)) {
				n++
			}
		}
		return i64(in, n)
	}
	compare := func(in *Interp, a []Value) Value { return in.compareTerms(in.termsOf(a[0]), in.termsOf(a[1])) }
	sprint := func(in *Interp, args []Value, exact, ln bool) *Str {
		var out []*Term
		for i, a := range args {
			if i > 0 && ln {
				out = append(out, in.db.Const(8, ' '))
			}
			out = append(out, in.fmtValue('v', a.(Iface), 0, false, false, exact)...)
		}
		if ln {
			out = append(out, in.db.Const(8, '\n'))
		}
		return in.mkStr(out)
	}
	sortSlice := func(in *Interp, a []Value) Value {
		s := a[0].(Iface).V.(Slice)
		lessf := a[1]
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := in.callValue(lessf, []Value{i64(in, j), i64(in, j-1)}).(*Term)
				if !in.Branch(r) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				storeTo(&s[j], y)
				storeTo(&s[j-1], x)
			}
		}
		return nil
	}
	x25519mul := func(in *Interp, a []Value) Value {
		db, cr := in.db, in.cr
		dst := a[0].(Slice)
		k := cr.clampInt(in.leTerm(in.sliceTerms(a[1])))
		u := in.leTerm(in.sliceTerms(a[2]))
		u = db.Concat(db.Const(1, 0), db.Extract(254, 0, u))
		var r *Term
		if u.isConst() && u.bigVal().Cmp(big.NewInt(9)) == 0 {
			r = cr.mont(cr.scalarOf(k))
		} else if in.Branch(cr.lowOrderCond(u)) {
			r = db.BigConst(256, big.NewInt(0))
		} else {
			r = cr.xdhTerm(k, u)
		}
		for i, b := range in.leTermBytes(r) {
			dst[i] = b
		}
		return nil
	}
	feConst := func(n int64) intrinsicFn {
		return func(in *Interp, a []Value) Value { return in.setFe(a[0], in.db.BigConst(256, big.NewInt(n))) }
	}
	feEqT := func(in *Interp, x, y *Term) *Term {
		c, ok := in.cr.feEq(x, y)
		if !ok {
			panic(unsupported("field equality over two unknowns"))
		}
		return c
	}
	intrTable = map[string]intrinsicFn{
		// harness interface
		H + "Bytes":     func(in *Interp, a []Value) Value { return in.bytesVar(cstr(a[0]), cint(a[1]), "bytes", 0) },
		H + "Fresh":     func(in *Interp, a []Value) Value { return in.bytesVar(cstr(a[0]), cint(a[1]), "bytes", flagFresh) },
		H + "Adversary": func(in *Interp, a []Value) Value { return in.bytesVar(cstr(a[0]), cint(a[1]), "bytes", flagAdv) },
		H + "Uint32":    func(in *Interp, a []Value) Value { return in.newVar(cstr(a[0]), 32, "uint", 0) },
		H + "Uint64":    func(in *Interp, a []Value) Value { return in.newVar(cstr(a[0]), 64, "uint", 0) },
		H + "Byte":      func(in *Interp, a []Value) Value { return in.newVar(cstr(a[0]), 8, "uint", 0) },
		H + "Bool": func(in *Interp, a []Value) Value {
			return in.db.Eq(in.newVar(cstr(a[0]), 8, "bool", 0), in.db.Const(8, 1))
		},
		H + "Choose": func(in *Interp, a []Value) Value { return i64(in, in.Choose(cstr(a[0]), cint(a[1]))) },
		H + "Assume": func(in *Interp, a []Value) Value {
			if !in.Branch2(a[0].(*Term)) {
				panic(abort{"infeasible", "assume"})
			}
			return nil
		},
		H + "Assert": func(in *Interp, a []Value) Value { in.assert(cstr(a[0]), a[1].(*Term), cstr(a[2])); return nil },
		H + "Equal":  func(in *Interp, a []Value) Value { return in.eqBytes(a[0], a[1]) },
		H + "And": func(in *Interp, a []Value) Value {
			r := in.db.True
			for _, x := range a[0].(Slice) {
				r = in.db.And(r, x.(*Term))
			}
			return r
		},
		H + "Or": func(in *Interp, a []Value) Value {
			r := in.db.False
			for _, x := range a[0].(Slice) {
				r = in.db.Or(r, x.(*Term))
			}
			return r
		},
		H + "Not":     func(in *Interp, a []Value) Value { return in.db.Not(a[0].(*Term)) },
		H + "Implies": func(in *Interp, a []Value) Value { return in.db.Implies(a[0].(*Term), a[1].(*Term)) },
		H + "Release": func(in *Interp, a []Value) Value {
			for _, b := range a[0].(Slice) {
				if t := in.bytesTerm(b); t != nil {
					in.release(t)
				}
			}
			return nil
		},
		H + "ObserveBytes": func(in *Interp, a []Value) Value {
			in.path.obs = append(in.path.obs, Observation{cstr(a[0]), in.bytesTerm(a[1]), "bytes"})
			return nil
		},
		H + "ObserveString": func(in *Interp, a []Value) Value {
			ts := in.strBytes(a[1].(*Str))
			o := Observation{Label: cstr(a[0]), Kind: "bytes"}
			if len(ts) > 0 {
				o.T = in.db.Concat(ts...)
			}
			in.path.obs = append(in.path.obs, o)
			return nil
		},
		H + "ObserveBool": func(in *Interp, a []Value) Value {
			in.path.obs = append(in.path.obs, Observation{cstr(a[0]), in.b2t(a[1].(*Term), 8), "bytes"})
			return nil
		},
		H + "ObserveInt": func(in *Interp, a []Value) Value {
			in.path.obs = append(in.path.obs, Observation{cstr(a[0]), a[1].(*Term), "bytes"})
			return nil
		},
		H + "Cover": func(in *Interp, a []Value) Value { in.path.reached[cstr(a[0])] = true; return nil },
		H + "Settle": func(in *Interp, a []Value) Value {
			for len(in.path.goq) > 0 {
				in.runGo()
			}
			return nil
		},
		H + "Within": func(in *Interp, a []Value) (res Value) {
			depth, old := in.depth, in.path.fuel
			in.path.fuel = in.path.steps + int64(cint(a[0]))
			defer func() {
				in.path.fuel = old
				if r := recover(); r != nil {
					if _, ok := r.(outOfFuel); !ok {
						panic(r)
					}
					in.depth = depth
					res = in.db.Bool(false)
				}
			}()
			in.callValue(a[1], nil)
			return in.db.Bool(true)
		},
		H + "Symbolic": retTrue,
		H + "Thorough": func(in *Interp, a []Value) Value { return in.db.Bool(in.ex.thorough) },
		harnessMod + "/models.UF": func(in *Interp, a []Value) Value {
			name, n := cstr(a[0]), cint(a[1])
			var args []*Term
			for _, x := range a[2].(Slice) {
				if t := in.bytesTerm(x); t != nil {
					args = append(args, t)
				}
			}
			var t *Term
			switch name {
			case "aesenc":
				t = in.cr.aesEnc(args[0], args[1])
			case "aesdec":
				t = in.cr.aesDec(args[0], args[1])
			default:
				t = in.cr.app(name, n*8, args...)
			}
			return in.mkBytes(in.termBytes(t))
		},
		// errors, fmt
		"errors.Is": func(in *Interp, a []Value) Value { return in.db.Bool(in.errorsIs(a[0].(Iface), a[1].(Iface))) },
		"errors.As": func(in *Interp, a []Value) Value {
			t := a[1].(Iface)
			pt, ok := t.T.(*types.Pointer)
			if !ok {
				panic(unsupported("errors.As target"))
			}
			return in.db.Bool(in.errorsAs(a[0].(Iface), t.V.(Ptr), pt.Elem()))
		},
		"fmt.Errorf": func(in *Interp, a []Value) Value {
			f := a[0].(*Str)
			if f.sym != nil {
				panic(unsupported("symbolic format"))
			}
			as, _ := a[1].(Slice)
			out, wrapped := in.format(f.s, as, false)
			msg := in.mkStr(out)
			if len(wrapped) == 1 {
				t := types.NewPointer(in.prog.pkgs["fmt"].Type("wrapError").Type())
				v := new(Value)
				*v = Struct{msg, wrapped[0]}
				return Iface{in.canon(t), Ptr(v)}
			}
			if len(wrapped) > 1 {
				t := types.NewPointer(in.prog.pkgs["fmt"].Type("wrapErrors").Type())
				v := new(Value)
				var es Slice
				for _, w := range wrapped {
					es = append(es, w)
				}
				*v = Struct{msg, es}
				return Iface{in.canon(t), Ptr(v)}
			}
			e := in.newError("")
			*(e.V.(Ptr)) = Struct{msg}
			return e
		},
		"fmt.Sprintf": func(in *Interp, a []Value) Value {
			as, _ := a[1].(Slice)
			out, _ := in.format(cstr(a[0]), as, true)
			return in.mkStr(out)
		},
		"fmt.Sprint":   func(in *Interp, a []Value) Value { as, _ := a[0].(Slice); return sprint(in, as, true, false) },
		"fmt.Sprintln": func(in *Interp, a []Value) Value { as, _ := a[0].(Slice); return sprint(in, as, true, true) },
		"fmt.Appendf": func(in *Interp, a []Value) Value {
			as, _ := a[2].(Slice)
			out, _ := in.format(cstr(a[1]), as, true)
			s, _ := a[0].(Slice)
			return in.appendVals(s, in.mkBytes(out), byteSlice)
		},
		"fmt.Fprintf": func(in *Interp, a []Value) Value {
			as, _ := a[2].(Slice)
			out, _ := in.format(cstr(a[1]), as, true)
			r, ok := in.callMethod(a[0].(Iface), "Write", in.mkBytes(out))
			if !ok {
				panic(unsupported("Fprintf"))
			}
			return r
		},
		"fmt.Println":        func(in *Interp, a []Value) Value { return Tuple{i64(in, 0), Iface{}} },
		"fmt.Printf":         func(in *Interp, a []Value) Value { return Tuple{i64(in, 0), Iface{}} },
		"strconv.Itoa":       func(in *Interp, a []Value) Value { return in.mkStr(in.decimal(a[0].(*Term), true, 1, true)) },
		"strconv.FormatInt":  func(in *Interp, a []Value) Value { return in.fmtBase(a[0].(*Term), a[1], true) },
		"strconv.FormatUint": func(in *Interp, a []Value) Value { return in.fmtBase(a[0].(*Term), a[1], false) },
		"strconv.AppendInt": func(in *Interp, a []Value) Value {
			s, _ := a[0].(Slice)
			return in.appendVals(s, in.mkBytes(in.strBytes(in.fmtBase(a[1].(*Term), a[2], true))), byteSlice)
		},
		"strconv.AppendUint": func(in *Interp, a []Value) Value {
			s, _ := a[0].(Slice)
			return in.appendVals(s, in.mkBytes(in.strBytes(in.fmtBase(a[1].(*Term), a[2], false))), byteSlice)
		},
		"encoding/hex.EncodeToString": func(in *Interp, a []Value) Value { return in.mkStr(in.hexTerms(in.sliceTerms(a[0]), false)) },
		"sort.Slice":                  sortSlice,
		"sort.SliceStable":            sortSlice,
		// bytes
		"bytes.Equal":                          func(in *Interp, a []Value) Value { return in.eqBytes(a[0], a[1]) },
		"bytes.Compare":                        compare,
		"strings.Compare":                      compare,
		"bytes.IndexByte":                      indexByte,
		"strings.IndexByte":                    indexByte,
		"bytes.Index":                          index,
		"strings.Index":                        index,
		"internal/bytealg.Equal":               func(in *Interp, a []Value) Value { return in.eqBytes(a[0], a[1]) },
		"internal/bytealg.Compare":             compare,
		"internal/bytealg.CompareString":       compare,
		"internal/bytealg.Count":               count,
		"internal/bytealg.CountString":         count,
		"internal/bytealg.IndexByte":           indexByte,
		"internal/bytealg.IndexByteString":     indexByte,
		"internal/bytealg.LastIndexByte":       lastIndexByte,
		"internal/bytealg.LastIndexByteString": lastIndexByte,
		"internal/bytealg.Index":               index,
		"internal/bytealg.IndexString":         index,
		"internal/stringslite.IndexByte":       indexByte,
		"internal/stringslite.Index":           index,
		"internal/bytealg.MakeNoZero": func(in *Interp, a []Value) Value {
			n := cint(a[0])
			s := make(Slice, n, roundupsize(n))
			f := s[:cap(s)]
			for i := range f {
				f[i] = in.db.Const(8, 0)
			}
			return s
		},
		// subtle
		"crypto/subtle.ConstantTimeCompare":                  ctCompare,
		"crypto/internal/fips140/subtle.ConstantTimeCompare": ctCompare,
		"crypto/subtle.ConstantTimeByteEq":                   ctEq,
		"crypto/subtle.ConstantTimeEq":                       ctEq,
		"crypto/subtle.ConstantTimeSelect":                   ctSel,
		"crypto/subtle.ConstantTimeLessOrEq":                 ctLe,
		"crypto/subtle.XORBytes":                             xorBytes,
		"crypto/internal/fips140/subtle.XORBytes":            xorBytes,
		"crypto/subtle.WithDataIndependentTiming":            func(in *Interp, a []Value) Value { return in.callValue(a[0], nil) },
		// runtime support
		"(*sync.Mutex).Lock":       func(in *Interp, a []Value) Value { in.lock(a[0], false); return nil },
		"(*sync.Mutex).Unlock":     func(in *Interp, a []Value) Value { in.unlock(a[0], false); return nil },
		"(*sync.Mutex).TryLock":    func(in *Interp, a []Value) Value { return in.tryLock(a[0], false) },
		"(*sync.RWMutex).Lock":     func(in *Interp, a []Value) Value { in.lock(a[0], false); return nil },
		"(*sync.RWMutex).Unlock":   func(in *Interp, a []Value) Value { in.unlock(a[0], false); return nil },
		"(*sync.RWMutex).RLock":    func(in *Interp, a []Value) Value { in.lock(a[0], true); return nil },
		"(*sync.RWMutex).RUnlock":  func(in *Interp, a []Value) Value { in.unlock(a[0], true); return nil },
		"(*sync.RWMutex).TryLock":  func(in *Interp, a []Value) Value { return in.tryLock(a[0], false) },
		"(*sync.RWMutex).TryRLock": func(in *Interp, a []Value) Value { return in.tryLock(a[0], true) },
		"(*sync.Pool).Put":         noop,
		"(*sync.Pool).Get": func(in *Interp, a []Value) Value {
			s := (*(a[0].(Ptr))).(Struct)
			f := s[len(s)-1]
			if c, ok := f.(*Closure); ok && c == nil {
				return Iface{}
			}
			return in.callValue(f, nil)
		},
		"(*sync.Map).Load": func(in *Interp, a []Value) Value {
			if e := in.mapFind(in.syncMap(a[0]), a[1]); e != nil {
				return Tuple{copyVal(e.v), in.db.True}
			}
			return Tuple{Iface{}, in.db.False}
		},
		"(*sync.Map).Store": func(in *Interp, a []Value) Value {
			in.mapSet(in.syncMap(a[0]), a[1], a[2])
			return nil
		},
		"(*sync.Map).Swap": func(in *Interp, a []Value) Value {
			m := in.syncMap(a[0])
			r := Tuple{Iface{}, in.db.False}
			if e := in.mapFind(m, a[1]); e != nil {
				r = Tuple{copyVal(e.v), in.db.True}
			}
			in.mapSet(m, a[1], a[2])
			return r
		},
		"(*sync.Map).LoadOrStore": func(in *Interp, a []Value) Value {
			m := in.syncMap(a[0])
			if e := in.mapFind(m, a[1]); e != nil {
				return Tuple{copyVal(e.v), in.db.True}
			}
			in.mapSet(m, a[1], a[2])
			return Tuple{a[2], in.db.False}
		},
		"(*sync.Map).LoadAndDelete": func(in *Interp, a []Value) Value {
			m := in.syncMap(a[0])
			if e := in.mapFind(m, a[1]); e != nil {
				r := Tuple{copyVal(e.v), in.db.True}
				in.mapDelete(m, a[1])
				return r
			}
			return Tuple{Iface{}, in.db.False}
		},
		"(*sync.Map).Delete": func(in *Interp, a []Value) Value {
			in.mapDelete(in.syncMap(a[0]), a[1])
			return nil
		},
		"(*sync.Map).Clear": func(in *Interp, a []Value) Value {
			*in.syncMap(a[0]) = Map{idx: map[string]*mapEntry{}}
			return nil
		},
		"(*sync.Map).Range": func(in *Interp, a []Value) Value {
			for _, e := range append([]*mapEntry(nil), in.syncMap(a[0]).entries...) {
				if e.dead {
					continue
				}
				if !in.Branch(in.callValue(a[1], []Value{copyVal(e.k), copyVal(e.v)}).(*Term)) {
					break
				}
			}
			return nil
		},
		"(*sync/atomic.Value).Load": func(in *Interp, a []Value) Value {
			return copyVal((*(a[0].(Ptr))).(Struct)[0])
		},
		"(*sync/atomic.Value).Store": func(in *Interp, a []Value) Value {
			(*(a[0].(Ptr))).(Struct)[0] = copyVal(a[1])
			return nil
		},
		"(*sync/atomic.Value).Swap": func(in *Interp, a []Value) Value {
			s := (*(a[0].(Ptr))).(Struct)
			old := s[0]
			s[0] = copyVal(a[1])
			return old
		},
		"(*sync.WaitGroup).Add":  noop,
		"(*sync.WaitGroup).Done": noop,
		"(*sync.WaitGroup).Wait": func(in *Interp, a []Value) Value {
			for len(in.path.goq) > 0 {
				in.runGo()
			}
			return nil
		},
		"internal/abi.NoEscape":                            ident,
		"internal/abi.Escape":                              ident,
		"(*strings.Builder).copyCheck":                     noop,
		"(*internal/godebug.Setting).Value":                func(in *Interp, a []Value) Value { return in.emptyStr },
		"(*internal/godebug.Setting).IncNonDefault":        noop,
		"crypto/internal/fips140only.Enforced":             retFalse,
		"crypto/internal/fips140only.ApprovedRandomReader": retTrue,
		"crypto/internal/boring.Unreachable":               noop,
		"crypto/internal/boring.NotBoringCrypto":           noop,
		"crypto/internal/fips140.RecordNonApproved":        noop,
		"crypto/internal/fips140.RecordApproved":           noop,
		"time.Now": func(in *Interp, a []Value) Value {
			return in.zero(in.prog.pkgs["time"].Type("Time").Type())
		},
		"slices.overlaps": func(in *Interp, a []Value) Value {
			p, q := a[0].(Slice), a[1].(Slice)
			if len(p) == 0 || len(q) == 0 {
				return in.db.False
			}
			at := func(v *Value) uintptr { return uintptr(unsafe.Pointer(v)) }
			return in.db.Bool(at(&p[0]) <= at(&q[len(q)-1]) && at(&q[0]) <= at(&p[len(p)-1]))
		},
		"maps.clone": func(in *Interp, a []Value) Value {
			f := a[0].(Iface)
			m := f.V.(*Map)
			if m == nil {
				return f
			}
			c := &Map{idx: map[string]*mapEntry{}, nsym: m.nsym, n: m.n}
			for _, e := range m.entries {
				ne := &mapEntry{k: copyVal(e.k), v: copyVal(e.v), key: e.key, conc: e.conc}
				c.entries = append(c.entries, ne)
				if e.conc {
					c.idx[e.key] = ne
				}
			}
			return Iface{f.T, c}
		},
		// protobuf
		PB + ".Marshal":                       func(in *Interp, a []Value) Value { return marshal(in, a[0].(Iface)) },
		"(" + PB + ".MarshalOptions).Marshal": func(in *Interp, a []Value) Value { return marshal(in, a[1].(Iface)) },
		"(" + PB + ".MarshalOptions).MarshalAppend": func(in *Interp, a []Value) Value {
			ts, _ := in.protoMarshal(a[2].(Iface))
			b, _ := a[1].(Slice)
			return Tuple{in.appendVals(b, in.mkBytes(ts), byteSlice), Iface{}}
		},
		PB + ".Unmarshal": func(in *Interp, a []Value) Value { return in.protoUnmarshal(in.sliceTerms(a[0]), a[1].(Iface)) },
		"(" + PB + ".UnmarshalOptions).Unmarshal": func(in *Interp, a []Value) Value {
			o := a[0].(Struct)
			discard, merge := false, false
			st := in.prog.pkgs[PB].Type("UnmarshalOptions").Type().Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if t, ok := o[i].(*Term); ok && t.w == 0 {
					switch st.Field(i).Name() {
					case "DiscardUnknown":
						discard = in.Branch(t)
					case "Merge":
						merge = in.Branch(t)
					}
				}
			}
			if merge {
				panic(unsupported("UnmarshalOptions.Merge"))
			}
			e := in.protoUnmarshal(in.sliceTerms(a[1]), a[2].(Iface))
			if discard {
				panic(unsupported("UnmarshalOptions.DiscardUnknown"))
			}
			return e
		},
		PB + ".Clone": func(in *Interp, a []Value) Value {
			m := a[0].(Iface)
			if m.T == nil {
				return m
			}
			return Iface{m.T, in.protoClone(m.V.(Ptr), in.layout(m.T))}
		},
		PB + ".CloneOf": func(in *Interp, a []Value) Value { panic(unsupported("proto.CloneOf")) },
		PB + ".Merge": func(in *Interp, a []Value) Value {
			d, s := a[0].(Iface), a[1].(Iface)
			if s.T != nil && s.V.(Ptr) != nil {
				in.protoMerge(d.V.(Ptr), s.V.(Ptr), in.layout(d.T))
			}
			return nil
		},
		PB + ".Reset": func(in *Interp, a []Value) Value {
			m := a[0].(Iface)
			storeTo(m.V.(Ptr), in.zero(in.layout(m.T).named))
			return nil
		},
		PB + ".Size": func(in *Interp, a []Value) Value {
			ts, _ := in.protoMarshal(a[0].(Iface))
			return i64(in, len(ts))
		},
		PB + ".Equal": func(in *Interp, a []Value) Value {
			x, y := a[0].(Iface), a[1].(Iface)
			if x.T == nil || y.T == nil {
				return in.db.Bool(x.T == nil && y.T == nil)
			}
			if !in.sameType(x.T, y.T) {
				return in.db.False
			}
			px, py := x.V.(Ptr), y.V.(Ptr)
			if (px == nil) != (py == nil) {
				return in.db.False
			}
			tx, _ := in.protoMarshal(x)
			ty, _ := in.protoMarshal(y)
			return in.eqBytes(in.mkBytes(tx), in.mkBytes(ty))
		},
		// edwards25519 scalars
		E + ".NewScalar": func(in *Interp, a []Value) Value {
			v := new(Value)
			*v = in.zero(in.prog.pkgs[E].Type("Scalar").Type())
			return Ptr(v)
		},
		"(*" + E + ".Scalar).MultiplyAdd": func(in *Interp, a []Value) Value {
			c := in.cr
			p := polyAdd(polyMul(c.polyOf(in.getScalar(a[1])), c.polyOf(in.getScalar(a[2]))), c.polyOf(in.getScalar(a[3])))
			return in.setScalar(a[0], c.polyTerm(p))
		},
		"(*" + E + ".Scalar).Add": func(in *Interp, a []Value) Value {
			c := in.cr
			return in.setScalar(a[0], c.polyTerm(polyAdd(c.polyOf(in.getScalar(a[1])), c.polyOf(in.getScalar(a[2])))))
		},
		"(*" + E + ".Scalar).Subtract": func(in *Interp, a []Value) Value {
			c := in.cr
			return in.setScalar(a[0], c.polyTerm(polyAdd(c.polyOf(in.getScalar(a[1])), polyNeg(c.polyOf(in.getScalar(a[2]))))))
		},
		"(*" + E + ".Scalar).Multiply": func(in *Interp, a []Value) Value {
			c := in.cr
			return in.setScalar(a[0], c.polyTerm(polyMul(c.polyOf(in.getScalar(a[1])), c.polyOf(in.getScalar(a[2])))))
		},
		"(*" + E + ".Scalar).Negate": func(in *Interp, a []Value) Value {
			c := in.cr
			return in.setScalar(a[0], c.polyTerm(polyNeg(c.polyOf(in.getScalar(a[1])))))
		},
		"(*" + E + ".Scalar).Set": func(in *Interp, a []Value) Value { return in.setScalar(a[0], in.getScalar(a[1])) },
		"(*" + E + ".Scalar).SetUniformBytes": func(in *Interp, a []Value) Value {
			ts := in.sliceTerms(a[1])
			if len(ts) != 64 {
				return errPair(in, a[0], "edwards25519: invalid SetUniformBytes input length")
			}
			return Tuple{in.setScalar(a[0], in.cr.scalarOf(in.leTerm(ts))), Iface{}}
		},
		"(*" + E + ".Scalar).SetBytesWithClamping": func(in *Interp, a []Value) Value {
			ts := in.sliceTerms(a[1])
			if len(ts) != 32 {
				return errPair(in, a[0], "edwards25519: invalid SetBytesWithClamping input length")
			}
			return Tuple{in.setScalar(a[0], in.cr.scalarOf(in.cr.clampInt(in.leTerm(ts)))), Iface{}}
		},
		"(*" + E + ".Scalar).SetCanonicalBytes": func(in *Interp, a []Value) Value {
			ts := in.sliceTerms(a[1])
			if len(ts) != 32 {
				return errPair(in, a[0], "invalid scalar length")
			}
			t := in.leTerm(ts)
			if !(t.op == OpApp && t.name == "sc") {
				if !in.Branch(in.db.Ult(t, in.db.BigConst(256, groupL))) {
					return errPair(in, a[0], "invalid scalar encoding")
				}
			}
			return Tuple{in.setScalar(a[0], in.cr.scalarOf(t)), Iface{}}
		},
		"(*" + E + ".Scalar).Bytes": func(in *Interp, a []Value) Value {
			return in.mkBytes(in.leTermBytes(in.getScalar(a[0])))
		},
		"(*" + E + ".Scalar).Equal": func(in *Interp, a []Value) Value {
			return in.b2t(in.cr.scalarEq(in.getScalar(a[0]), in.getScalar(a[1])), 64)
		},
		// points
		E + ".NewIdentityPoint": func(in *Interp, a []Value) Value {
			v := new(Value)
			*v = in.zero(in.prog.pkgs[E].Type("Point").Type())
			return in.setPoint(Ptr(v), in.db.BigConst(256, big.NewInt(0)))
		},
		E + ".NewGeneratorPoint": func(in *Interp, a []Value) Value {
			v := new(Value)
			*v = in.zero(in.prog.pkgs[E].Type("Point").Type())
			return in.setPoint(Ptr(v), in.db.BigConst(256, big.NewInt(1)))
		},
		"(*" + E + ".Point).ScalarBaseMult": func(in *Interp, a []Value) Value { return in.setPoint(a[0], in.getScalar(a[1])) },
		"(*" + E + ".Point).ScalarMult": func(in *Interp, a []Value) Value {
			c := in.cr
			return in.setPoint(a[0], c.polyTerm(polyMul(c.polyOf(in.getScalar(a[1])), c.polyOf(in.getPoint(a[2])))))
		},
		"(*" + E + ".Point).Add": func(in *Interp, a []Value) Value {
			c := in.cr
			return in.setPoint(a[0], c.polyTerm(polyAdd(c.polyOf(in.getPoint(a[1])), c.polyOf(in.getPoint(a[2])))))
		},
		"(*" + E + ".Point).Negate": func(in *Interp, a []Value) Value {
			c := in.cr
			return in.setPoint(a[0], c.polyTerm(polyNeg(c.polyOf(in.getPoint(a[1])))))
		},
		"(*" + E + ".Point).Set": func(in *Interp, a []Value) Value { return in.setPoint(a[0], in.getPoint(a[1])) },
		"(*" + E + ".Point).Equal": func(in *Interp, a []Value) Value {
			return in.b2t(in.cr.scalarEq(in.getPoint(a[0]), in.getPoint(a[1])), 64)
		},
		"(*" + E + ".Point).Bytes": func(in *Interp, a []Value) Value {
			return in.mkBytes(in.leTermBytes(in.cr.edEnc(in.getPoint(a[0]))))
		},
		"(*" + E + ".Point).BytesMontgomery": func(in *Interp, a []Value) Value {
			return in.mkBytes(in.leTermBytes(in.cr.mont(in.getPoint(a[0]))))
		},
		"(*" + E + ".Point).SetBytes": func(in *Interp, a []Value) Value {
			ts := in.sliceTerms(a[1])
			if len(ts) != 32 {
				return errPair(in, a[0], "edwards25519: invalid point encoding length")
			}
			s := in.decodeEd(ts)
			if s == nil {
				panic(unsupported("decoding an arbitrary curve point"))
			}
			return Tuple{in.setPoint(a[0], s), Iface{}}
		},
		// field
		"(*" + E + "/field.Element).Zero":     feConst(0),
		"(*" + E + "/field.Element).One":      feConst(1),
		"(*" + E + "/field.Element).Add":      (*Interp)(nil).feBinary('+'),
		"(*" + E + "/field.Element).Subtract": (*Interp)(nil).feBinary('-'),
		"(*" + E + "/field.Element).Multiply": (*Interp)(nil).feBinary('*'),
		"(*" + E + "/field.Element).Square": func(in *Interp, a []Value) Value {
			return (*Interp)(nil).feBinary('*')(in, []Value{a[0], a[1], a[1]})
		},
		"(*" + E + "/field.Element).Negate": func(in *Interp, a []Value) Value {
			r, _ := in.cr.feBin('-', in.db.BigConst(256, big.NewInt(0)), in.getFe(a[1]))
			return in.setFe(a[0], r)
		},
		"(*" + E + "/field.Element).Set":    func(in *Interp, a []Value) Value { return in.setFe(a[0], in.getFe(a[1])) },
		"(*" + E + "/field.Element).Invert": func(in *Interp, a []Value) Value { return in.setFe(a[0], in.cr.feInv(in.getFe(a[1]))) },
		"(*" + E + "/field.Element).Equal": func(in *Interp, a []Value) Value {
			return in.b2t(feEqT(in, in.getFe(a[0]), in.getFe(a[1])), 64)
		},
		"(*" + E + "/field.Element).Bytes": func(in *Interp, a []Value) Value {
			return in.mkBytes(in.leTermBytes(in.getFe(a[0])))
		},
		"(*" + E + "/field.Element).SetBytes": func(in *Interp, a []Value) Value {
			db := in.db
			ts := in.sliceTerms(a[1])
			if len(ts) != 32 {
				return errPair(in, a[0], "edwards25519: invalid field element input size")
			}
			t := in.leTerm(ts)
			low := db.Extract(254, 0, t)
			lb, _, _ := pieceOf(low)
			if lb.op == OpApp && (lb.name == "mont" || lb.name == "fe" || lb.name == "xdh" || lb.name == "xdhx") || lb.op == OpApp && lb.name == "edy" && low == lb {
				if low.op == OpExtract {
					return Tuple{in.setFe(a[0], lb), Iface{}}
				}
				return Tuple{in.setFe(a[0], db.Concat(db.Const(1, 0), low)), Iface{}}
			}
			if low.isConst() {
				return Tuple{in.setFe(a[0], db.BigConst(256, new(big.Int).Mod(low.bigVal(), fieldP))), Iface{}}
			}
			if in.Branch(db.Ult(low, db.BigConst(255, fieldP))) {
				return Tuple{in.setFe(a[0], db.Concat(db.Const(1, 0), low)), Iface{}}
			}
			v := in.Concretize(db.Extract(7, 0, low), 32)
			x := new(big.Int).Sub(new(big.Int).SetUint64(v), big.NewInt(0xed))
			return Tuple{in.setFe(a[0], db.BigConst(256, x)), Iface{}}
		},
		"crypto/ecdh.x25519ScalarMult": x25519mul,
		"crypto/ed25519.Verify": func(in *Interp, a []Value) Value {
			return in.ed25519Verify(a[0], a[1], a[2])
		},
	}
	_ = sort.Ints
}

func (in *Interp) fmtBase(t *Term, base Value, signed bool) *Str {
	b := cint(base)
	if b == 10 {
		return in.mkStr(in.decimal(t, signed, 1, true))
	}
	if !t.isConst() {
		panic(unsupported("symbolic integer in base"))
	}
	if signed {
		return &Str{s: big.NewInt(t.signed()).Text(b)}
	}
	return &Str{s: new(big.Int).SetUint64(t.u).Text(b)}
}

// Branch2 takes the true side only (assumption).
func (in *Interp) Branch2(c *Term) bool {
	c = in.idealize(in.subst(c))
	if c.isConst() {
		return c.u == 1
	}
	if v, ok := in.implied(c); ok {
		return v
	}
	p := in.path
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		if d == 0 {
			return false
		}
		in.addPC(c)
		return true
	}
	if in.sol.Check(p.pc, c) == Unsat {
		p.dec = append(p.dec, 0)
		p.pos++
		p.prefix = p.dec
		return false
	}
	p.dec = append(p.dec, 1)
	p.pos++
	p.prefix = p.dec
	in.addPC(c)
	return true
}

func (in *Interp) syncMap(p Value) *Map {
	k, _ := p.(Ptr)
	if k == nil {
		panic(in.rtPanic("invalid memory address or nil pointer dereference"))
	}
	if in.path.syncMaps == nil {
		in.path.syncMaps = map[Ptr]*Map{}
	}
	m := in.path.syncMaps[k]
	if m == nil {
		m = &Map{idx: map[string]*mapEntry{}}
		in.path.syncMaps[k] = m
	}
	return m
}
