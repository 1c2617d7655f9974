package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Struct []Value
type Array []Value
type Slice []Value
type Ptr = *Value
type Tuple []Value
type Iface struct {
	T types.Type
	V Value
}
type Closure struct {
	Fn  *ssa.Function
	Env []Value
}
type BoundIntrinsic struct {
	f func(in *Interp, args []Value) Value
}
type SymPtr struct { // address with symbolic index; load/store only
	cells []Value
	idx   *Term
}
type SlicePtr struct{ s Slice } // unsafe.SliceData
type StrPtr struct{ s *Str }    // unsafe.StringData

type Str struct {
	s   string
	sym []*Term // nil if concrete
}

func (s *Str) Len() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

type mapEntry struct {
	k, v Value
	key  string
	conc bool
	dead bool
}
type Map struct {
	entries []*mapEntry
	idx     map[string]*mapEntry
	nsym    int
	n       int
}

type mapIter struct {
	m    *Map
	i    int
	snap []*mapEntry
}
type strIter struct {
	s *Str
	i int
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
}

func (in *Interp) mkStr(ts []*Term) *Str {
	b := make([]byte, len(ts))
	for i, t := range ts {
		if !t.isConst() {
			return &Str{sym: ts}
		}
		b[i] = byte(t.u)
	}
	return &Str{s: string(b)}
}

func (in *Interp) strBytes(s *Str) []*Term {
	if s.sym != nil {
		return s.sym
	}
	r := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = in.db.Const(8, uint64(s.s[i]))
	}
	return r
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i, f := range x {
			r[i] = copyVal(f)
		}
		return r
	case Array:
		r := make(Array, len(x))
		if len(x) > 0 {
			switch x[0].(type) {
			case Struct, Array:
				for i, f := range x {
					r[i] = copyVal(f)
				}
			default:
				copy(r, x)
			}
		}
		return r
	}
	return v
}

func storeTo(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			for i := range x {
				storeTo(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			for i := range x {
				storeTo(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func intWidth(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		if _, isp := t.Underlying().(*types.Pointer); isp {
			return 0, false, false
		}
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool || u.Kind() == types.UntypedBool {
			return in.db.False
		}
		if w, _, ok := intWidth(u); ok {
			return in.db.Const(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return in.emptyStr
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.UnsafePointer:
			return Ptr(nil)
		case types.UntypedNil:
			return nil
		}
		panic(unsupported("zero of " + t.String()))
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		if n > 0 {
			z := in.zero(u.Elem())
			for i := range a {
				if i == 0 {
					a[i] = z
				} else {
					a[i] = copyVal(z)
				}
			}
		}
		return a
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = in.zero(u.At(i).Type())
		}
		return tu
	}
	panic(unsupported("zero of " + t.String()))
}

// key returns a canonical string for a fully concrete comparable value.
func (in *Interp) key(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return false
		}
		fmt.Fprintf(sb, "i%d;", x.u)
	case *Str:
		if x.sym != nil {
			return false
		}
		fmt.Fprintf(sb, "s%d:%s;", len(x.s), x.s)
	case Struct:
		sb.WriteByte('{')
		for _, f := range x {
			if !in.key(f, sb) {
				return false
			}
		}
		sb.WriteByte('}')
	case Array:
		sb.WriteByte('[')
		for _, f := range x {
			if !in.key(f, sb) {
				return false
			}
		}
		sb.WriteByte(']')
	case Ptr:
		fmt.Fprintf(sb, "p%p;", x)
	case Iface:
		if x.T == nil {
			sb.WriteString("nil;")
		} else {
			fmt.Fprintf(sb, "I%d:", in.typeID(x.T))
			return in.key(x.V, sb)
		}
	case *Map, *Closure, Slice, *ssa.Function:
		panic(in.rtPanic("hash of unhashable type"))
	default:
		fmt.Fprintf(sb, "o%v;", x)
	}
	return true
}

func (in *Interp) mapFind(m *Map, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	var sb strings.Builder
	conc := in.key(k, &sb)
	if conc {
		if e, ok := m.idx[sb.String()]; ok && !e.dead {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.dead || (conc && e.conc) {
			continue
		}
		if in.Branch(in.eqVal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *Map, k, v Value) {
	if e := in.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	var sb strings.Builder
	conc := in.key(k, &sb)
	e := &mapEntry{k: copyVal(k), v: copyVal(v), conc: conc}
	if conc {
		e.key = sb.String()
		m.idx[e.key] = e
	} else {
		m.nsym++
	}
	m.entries = append(m.entries, e)
	m.n++
}

func (in *Interp) mapDelete(m *Map, k Value) {
	if e := in.mapFind(m, k); e != nil {
		e.dead = true
		m.n--
		if e.conc {
			delete(m.idx, e.key)
		} else {
			m.nsym--
		}
		// compact
		out := m.entries[:0:0]
		for _, x := range m.entries {
			if !x.dead {
				out = append(out, x)
			}
		}
		m.entries = out
	}
}

// eqVal returns the boolean term for Go's ==.
func (in *Interp) eqVal(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			panic(unsupported(fmt.Sprintf("eq %T %T", a, b)))
		}
		return in.db.Eq(x, y)
	case float64:
		return in.db.Bool(x == b.(float64))
	case *Str:
		y := b.(*Str)
		if x.Len() != y.Len() {
			return in.db.False
		}
		if x.sym == nil && y.sym == nil {
			return in.db.Bool(x.s == y.s)
		}
		if x.Len() == 0 {
			return in.db.True
		}
		return in.db.Eq(in.db.Concat(in.strBytes(x)...), in.db.Concat(in.strBytes(y)...))
	case Struct:
		y := b.(Struct)
		r := in.db.True
		for i := range x {
			r = in.db.And(r, in.eqVal(x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Array:
		y := b.(Array)
		if len(x) == 0 {
			return in.db.True
		}
		if t, ok := x[0].(*Term); ok && t.w > 0 {
			xs, ys := make([]*Term, len(x)), make([]*Term, len(x))
			for i := range x {
				xs[i], ys[i] = x[i].(*Term), y[i].(*Term)
			}
			return in.db.Eq(in.db.Concat(xs...), in.db.Concat(ys...))
		}
		r := in.db.True
		for i := range x {
			r = in.db.And(r, in.eqVal(x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Ptr:
		if y, ok := b.(Ptr); ok {
			return in.db.Bool(x == y)
		}
		return in.db.Bool(x == nil && b == nil)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("eq iface %T", b)))
		}
		if x.T == nil || y.T == nil {
			return in.db.Bool(x.T == nil && y.T == nil)
		}
		if !in.sameType(x.T, y.T) {
			return in.db.False
		}
		if !types.Comparable(x.T) {
			panic(in.rtPanic("comparing uncomparable type " + x.T.String()))
		}
		return in.eqVal(x.V, y.V)
	case Slice:
		y, _ := b.(Slice)
		if x == nil || y == nil {
			return in.db.Bool(x == nil && y == nil)
		}
		panic(unsupported("slice compare"))
	case *Map:
		y, _ := b.(*Map)
		return in.db.Bool(x == y)
	case *Closure:
		if x == nil {
			switch y := b.(type) {
			case *Closure:
				return in.db.Bool(y == nil)
			case *ssa.Function:
				return in.db.Bool(y == nil)
			}
			return in.db.False
		}
		return in.db.False
	case *ssa.Function:
		if y, ok := b.(*Closure); ok && y == nil {
			return in.db.Bool(x == nil)
		}
		if y, ok := b.(*ssa.Function); ok {
			return in.db.Bool(x == y)
		}
		return in.db.False
	case *Chan:
		y, _ := b.(*Chan)
		return in.db.Bool(x == y)
	case nil:
		return in.db.Bool(b == nil)
	}
	panic(unsupported(fmt.Sprintf("eq %T %T", a, b)))
}

// ---- growth of appended slices, as the Go runtime does it ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(oldLen, oldCap, newLen, esz int) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else {
		if oldCap < 256 {
			newcap = double
		} else {
			for newcap < newLen {
				newcap += (newcap + 3*256) / 4
			}
		}
	}
	if esz == 0 {
		return newLen
	}
	return roundupsize(newcap*esz) / esz
}

func (in *Interp) sliceTerms(v Value) []*Term {
	s, ok := v.(Slice)
	if !ok {
		if a, ok := v.(Array); ok {
			s = Slice(a)
		} else {
			panic(unsupported(fmt.Sprintf("sliceTerms of %T", v)))
		}
	}
	r := make([]*Term, len(s))
	for i, x := range s {
		r[i] = x.(*Term)
	}
	return r
}

// bytesTerm joins a byte slice to one term (nil if empty).
func (in *Interp) bytesTerm(v Value) *Term {
	ts := in.sliceTerms(v)
	if len(ts) == 0 {
		return nil
	}
	return in.subst(in.db.Concat(ts...))
}

func (in *Interp) termBytes(t *Term) []*Term {
	n := t.w / 8
	r := make([]*Term, n)
	for i := 0; i < n; i++ {
		r[i] = in.db.Extract(t.w-1-8*i, t.w-8-8*i, t)
	}
	return r
}
func (in *Interp) mkBytes(ts []*Term) Slice {
	r := make(Slice, len(ts))
	for i, t := range ts {
		r[i] = t
	}
	return r
}
func (in *Interp) concBytes(b []byte) Slice {
	r := make(Slice, len(b))
	for i, x := range b {
		r[i] = in.db.Const(8, uint64(x))
	}
	return r
}

// leTerm interprets bytes little-endian as an integer term.
func (in *Interp) leTerm(ts []*Term) *Term {
	r := make([]*Term, len(ts))
	for i, t := range ts {
		r[len(ts)-1-i] = t
	}
	return in.subst(in.db.Concat(r...))
}
func (in *Interp) leTermBytes(t *Term) []*Term {
	n := t.w / 8
	r := make([]*Term, n)
	for i := 0; i < n; i++ {
		r[i] = in.db.Extract(8*i+7, 8*i, t)
	}
	return r
}
