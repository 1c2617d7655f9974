package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Byte-level model of google.golang.org/protobuf marshalling for the generated message structs,
// driven by their struct tags (field numbers, wire kinds, proto2/proto3 presence).

type msgField struct {
	idx      int // struct field index
	num      int
	kind     string // varint, bytes, fixed32, fixed64, zigzag
	typ      types.Type
	repeated bool
	packed   bool
	proto3   bool
	msg      *types.Named // message element
	isStr    bool
}
type msgLayout struct {
	named   *types.Named
	fields  []msgField
	unknown int
	nf      int
	st      *types.Struct
}

func (in *Interp) layout(t types.Type) *msgLayout {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if l, ok := in.layouts[t]; ok {
		return l
	}
	n, ok := t.(*types.Named)
	if !ok {
		panic(unsupported("proto message type " + t.String()))
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		panic(unsupported("proto message type " + t.String()))
	}
	l := &msgLayout{named: n, unknown: -1, nf: st.NumFields(), st: st}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "unknownFields" {
			l.unknown = i
			continue
		}
		tag := reflect.StructTag(st.Tag(i))
		if tag.Get("protobuf_oneof") != "" {
			panic(unsupported("proto oneof in " + n.String()))
		}
		pt := tag.Get("protobuf")
		if pt == "" {
			continue
		}
		parts := strings.Split(pt, ",")
		mf := msgField{idx: i, kind: parts[0], typ: f.Type()}
		mf.num, _ = strconv.Atoi(parts[1])
		for _, p := range parts[2:] {
			switch p {
			case "rep":
				mf.repeated = true
			case "packed":
				mf.packed = true
			case "proto3":
				mf.proto3 = true
			}
		}
		et := f.Type()
		if mf.repeated {
			et = et.(*types.Slice).Elem()
		}
		if p, ok := et.(*types.Pointer); ok {
			if nn, ok := p.Elem().(*types.Named); ok {
				if _, ok := nn.Underlying().(*types.Struct); ok {
					mf.msg = nn
				}
			}
			et = p.Elem()
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.String {
			mf.isStr = true
		}
		l.fields = append(l.fields, mf)
	}
	sort.Slice(l.fields, func(i, j int) bool { return l.fields[i].num < l.fields[j].num })
	in.layouts[t] = l
	return l
}

func (in *Interp) putVarint(out []*Term, t *Term) []*Term { // t 64 bit
	db := in.db
	for n := 1; ; n++ {
		if n == 10 || in.Branch(db.Eq(db.Extract(63, 7*n, t), db.Const(64-7*n, 0))) {
			for i := 0; i < n; i++ {
				hi := 7*i + 6
				if hi > 63 {
					hi = 63
				}
				b := db.ZExt(db.Extract(hi, 7*i, t), 7)
				top := uint64(1)
				if i == n-1 {
					top = 0
				}
				out = append(out, db.Concat(db.Const(1, top), b))
			}
			return out
		}
	}
}

func (in *Interp) putTag(out []*Term, num, wt int) []*Term {
	return in.putVarint(out, in.db.Const(64, uint64(num)<<3|uint64(wt)))
}

func (in *Interp) putBytes(out []*Term, b []*Term) []*Term {
	out = in.putVarint(out, in.db.Const(64, uint64(len(b))))
	return append(out, b...)
}

func (in *Interp) to64(t *Term, typ types.Type) *Term {
	if t.w == 0 {
		return in.db.Ite(t, in.db.Const(64, 1), in.db.Const(64, 0))
	}
	if isSigned(typ) {
		return in.db.SExt(t, 64)
	}
	return in.db.ZExt(t, 64)
}

func (in *Interp) marshal(p Ptr, l *msgLayout) []*Term {
	if p == nil {
		return nil
	}
	s := (*p).(Struct)
	var out []*Term
	for i := range l.fields {
		f := &l.fields[i]
		v := s[f.idx]
		et := f.typ
		emit := func(v Value, et types.Type) {
			switch f.kind {
			case "varint":
				out = in.putTag(out, f.num, 0)
				out = in.putVarint(out, in.to64(v.(*Term), et))
			case "bytes":
				out = in.putTag(out, f.num, 2)
				if f.msg != nil {
					out = in.putBytes(out, in.marshal(v.(Ptr), in.layout(f.msg)))
				} else if st, ok := v.(*Str); ok {
					out = in.putBytes(out, in.strBytes(st))
				} else {
					out = in.putBytes(out, in.sliceTerms(v))
				}
			case "fixed32", "fixed64":
				wt := 5
				if f.kind == "fixed64" {
					wt = 1
				}
				out = in.putTag(out, f.num, wt)
				out = append(out, in.leTermBytes(v.(*Term))...)
			default:
				panic(unsupported("proto kind " + f.kind))
			}
		}
		if f.repeated {
			et = et.(*types.Slice).Elem()
			sl, _ := v.(Slice)
			if f.packed && len(sl) > 0 {
				var body []*Term
				for _, e := range sl {
					body = in.putVarint(body, in.to64(e.(*Term), et))
				}
				out = in.putTag(out, f.num, 2)
				out = in.putBytes(out, body)
				continue
			}
			for _, e := range sl {
				emit(e, et)
			}
			continue
		}
		switch x := v.(type) {
		case Ptr:
			if x == nil {
				continue
			}
			if f.msg != nil {
				emit(x, et)
			} else {
				emit(*x, et.(*types.Pointer).Elem())
			}
		case Slice:
			if f.proto3 && len(x) == 0 || !f.proto3 && x == nil {
				continue
			}
			emit(x, et)
		case *Str:
			if x.Len() == 0 {
				continue
			}
			emit(x, et)
		case *Term:
			zero := in.db.Const(x.w, 0)
			if in.Branch(in.db.Eq(x, zero)) {
				continue
			}
			emit(x, et)
		default:
			panic(unsupported(fmt.Sprintf("proto field value %T", v)))
		}
	}
	if l.unknown >= 0 {
		if u, ok := s[l.unknown].(Slice); ok {
			out = append(out, in.sliceTerms(u)...)
		}
	}
	return out
}

type protoErr struct{}

func (in *Interp) getVarint(b []*Term) (*Term, int) {
	db := in.db
	v := db.Const(64, 0)
	for i := 0; i < 10; i++ {
		if i >= len(b) {
			panic(protoErr{})
		}
		part := db.Extract(6, 0, b[i])
		if i == 9 {
			if !in.Branch(db.Ult(b[i], db.Const(8, 2))) {
				panic(protoErr{})
			}
			v = db.BOr(v, db.Shl(db.ZExt(b[i], 64), db.Const(64, 63)))
			return v, 10
		}
		v = db.BOr(v, db.Shl(db.ZExt(part, 64), db.Const(64, uint64(7*i))))
		if in.Branch(db.Eq(db.Extract(7, 7, b[i]), db.Const(1, 0))) {
			return v, i + 1
		}
	}
	panic(protoErr{})
}

func (in *Interp) getBytes(b []*Term) ([]*Term, int) {
	m, n := in.getVarint(b)
	if !in.Branch(in.db.Ule(m, in.db.Const(64, uint64(len(b)-n)))) {
		panic(protoErr{})
	}
	k := int(in.Concretize(m, 400))
	return b[n : n+k], n + k
}

func (in *Interp) fieldValueLen(num *Term, wt int, b []*Term, depth int) int {
	if depth > 4 {
		panic(unsupported("deep proto groups"))
	}
	switch wt {
	case 0:
		_, n := in.getVarint(b)
		return n
	case 5:
		if len(b) < 4 {
			panic(protoErr{})
		}
		return 4
	case 1:
		if len(b) < 8 {
			panic(protoErr{})
		}
		return 8
	case 2:
		_, n := in.getBytes(b)
		return n
	case 3:
		n0 := 0
		for {
			num2, wt2, n := in.getTag(b[n0:])
			n0 += n
			if wt2 == 4 {
				if !in.Branch(in.db.Eq(num, num2)) {
					panic(protoErr{})
				}
				return n0
			}
			n0 += in.fieldValueLen(num2, wt2, b[n0:], depth+1)
		}
	}
	panic(protoErr{})
}

func (in *Interp) getTag(b []*Term) (*Term, int, int) {
	tag, n := in.getVarint(b)
	db := in.db
	num := db.LShr(tag, db.Const(64, 3))
	if in.Branch(db.Eq(num, db.Const(64, 0))) {
		panic(protoErr{})
	}
	if in.Branch(db.Ult(db.Const(64, 1<<29-1), num)) {
		panic(protoErr{})
	}
	wt := int(in.Concretize(db.Extract(2, 0, tag), 8))
	return num, wt, n
}

func (in *Interp) utf8Check(b []*Term) {
	// exact for ASCII; symbolic non-ASCII strings are cut
	for i := 0; i < len(b); i++ {
		if b[i].isConst() && b[i].u < 0x80 {
			continue
		}
		conc := true
		var raw []byte
		for _, t := range b {
			if !t.isConst() {
				conc = false
				break
			}
			raw = append(raw, byte(t.u))
		}
		if conc {
			if !validUTF8(raw) {
				panic(protoErr{})
			}
			return
		}
		if !in.Branch(in.db.Ult(b[i], in.db.Const(8, 0x80))) {
			panic(unsupported("symbolic non-ASCII proto string"))
		}
	}
}

func (in *Interp) unmarshalInto(p Ptr, l *msgLayout, b []*Term, depth int) {
	s := (*p).(Struct)
	db := in.db
	for len(b) > 0 {
		start := b
		num, wt, n := in.getTag(b)
		b = b[n:]
		if wt == 4 {
			panic(protoErr{})
		}
		known := false
		for i := range l.fields {
			f := &l.fields[i]
			if !in.Branch(db.Eq(num, db.Const(64, uint64(f.num)))) {
				continue
			}
			et := f.typ
			if f.repeated {
				et = et.(*types.Slice).Elem()
			}
			ptr := false
			if pp, ok := et.(*types.Pointer); ok && f.msg == nil {
				et = pp.Elem()
				ptr = true
			}
			set := func(v Value) {
				if ptr {
					c := new(Value)
					*c = v
					v = Ptr(c)
				}
				if f.repeated {
					sl, _ := s[f.idx].(Slice)
					s[f.idx] = in.appendVals(sl, []Value{v}, f.typ)
				} else {
					s[f.idx] = v
				}
			}
			fromVar := func(v *Term) Value {
				if bt, ok := et.Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
					return db.Not(db.Eq(v, db.Const(64, 0)))
				}
				w, _, _ := intWidth(et)
				return db.Extract(w-1, 0, v)
			}
			switch {
			case f.kind == "varint" && wt == 0:
				v, n := in.getVarint(b)
				b = b[n:]
				set(fromVar(v))
				known = true
			case f.kind == "varint" && wt == 2 && f.repeated:
				body, n := in.getBytes(b)
				b = b[n:]
				for len(body) > 0 {
					v, n := in.getVarint(body)
					body = body[n:]
					set(fromVar(v))
				}
				known = true
			case f.kind == "bytes" && wt == 2:
				body, n := in.getBytes(b)
				b = b[n:]
				switch {
				case f.msg != nil:
					ml := in.layout(f.msg)
					var mp Ptr
					if !f.repeated {
						if cur, ok := s[f.idx].(Ptr); ok {
							mp = cur
						}
					}
					fresh := mp == nil
					if fresh {
						mp = new(Value)
						*mp = in.zero(f.msg)
					}
					in.unmarshalInto(mp, ml, body, depth+1)
					if fresh {
						set(mp)
					}
				case f.isStr:
					if f.proto3 {
						in.utf8Check(body)
					}
					set(in.mkStr(append([]*Term(nil), body...)))
				default:
					sl := make(Slice, 0, max(roundupsize(len(body)), len(body)))
					for _, t := range body {
						sl = append(sl, t)
					}
					full := sl[:cap(sl)]
					for i := len(sl); i < len(full); i++ {
						full[i] = db.Const(8, 0)
					}
					set(sl)
				}
				known = true
			case f.kind == "fixed32" && wt == 5:
				if len(b) < 4 {
					panic(protoErr{})
				}
				set(in.leTerm(b[:4]))
				b = b[4:]
				known = true
			case f.kind == "fixed64" && wt == 1:
				if len(b) < 8 {
					panic(protoErr{})
				}
				set(in.leTerm(b[:8]))
				b = b[8:]
				known = true
			}
			break
		}
		if !known {
			m := in.fieldValueLen(num, wt, b, 0)
			b = b[m:]
			if l.unknown >= 0 {
				u, _ := s[l.unknown].(Slice)
				used := start[:len(start)-len(b)]
				s[l.unknown] = in.appendVals(u, in.mkBytes(used), types.NewSlice(types.Typ[types.Uint8]))
			}
		}
	}
}

func (in *Interp) protoUnmarshal(b []*Term, m Iface) Value {
	if m.T == nil {
		panic(in.rtPanic("invalid memory address or nil pointer dereference"))
	}
	p := m.V.(Ptr)
	l := in.layout(m.T)
	if p == nil {
		panic(in.rtPanic("invalid memory address or nil pointer dereference"))
	}
	storeTo(p, in.zero(l.named))
	err := Iface{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(protoErr); ok {
					err = in.newError("proto: cannot parse invalid wire-format data")
					return
				}
				panic(r)
			}
		}()
		in.unmarshalInto(p, l, b, 0)
	}()
	return err
}

func (in *Interp) protoMarshal(m Iface) ([]*Term, bool) {
	if m.T == nil {
		return nil, true
	}
	p := m.V.(Ptr)
	return in.marshal(p, in.layout(m.T)), p == nil
}

// protoClone makes a deep copy as proto.Clone does.
func (in *Interp) protoClone(p Ptr, l *msgLayout) Ptr {
	if p == nil {
		return nil
	}
	c := new(Value)
	*c = in.zero(l.named)
	in.protoMerge(c, p, l)
	return c
}

func (in *Interp) cloneBytes(x Slice) Slice {
	r := make(Slice, len(x))
	copy(r, x)
	return r
}

func (in *Interp) protoMerge(d, p Ptr, l *msgLayout) {
	src, dst := (*p).(Struct), (*d).(Struct)
	for i := range l.fields {
		f := &l.fields[i]
		v := src[f.idx]
		cl := func(v Value) Value {
			switch x := v.(type) {
			case Ptr:
				if x == nil {
					return x
				}
				if f.msg != nil {
					return in.protoClone(x, in.layout(f.msg))
				}
				c := new(Value)
				*c = *x
				return Ptr(c)
			case Slice:
				return in.cloneBytes(x)
			}
			return v
		}
		if f.repeated {
			sl, _ := v.(Slice)
			if len(sl) == 0 {
				continue
			}
			cur, _ := dst[f.idx].(Slice)
			var add []Value
			for _, e := range sl {
				add = append(add, cl(e))
			}
			dst[f.idx] = in.appendVals(cur, add, f.typ)
			continue
		}
		switch x := v.(type) {
		case Ptr:
			if x == nil {
				continue
			}
			if f.msg != nil {
				if cur, ok := dst[f.idx].(Ptr); ok && cur != nil {
					in.protoMerge(cur, x, in.layout(f.msg))
					continue
				}
			}
			dst[f.idx] = cl(x)
		case Slice:
			if f.proto3 && len(x) == 0 || x == nil {
				continue
			}
			dst[f.idx] = cl(x)
		case *Str:
			if x.Len() > 0 {
				dst[f.idx] = x
			}
		case *Term:
			if x.isConst() {
				if x.u != 0 {
					dst[f.idx] = x
				}
			} else if x.w == 0 {
				dst[f.idx] = in.db.Or(x, dst[f.idx].(*Term))
			} else {
				dst[f.idx] = in.db.Ite(in.db.Eq(x, in.db.Const(x.w, 0)), dst[f.idx].(*Term), x)
			}
		}
	}
	if l.unknown >= 0 {
		if u, ok := src[l.unknown].(Slice); ok && len(u) > 0 {
			cur, _ := dst[l.unknown].(Slice)
			dst[l.unknown] = in.appendVals(cur, u, types.NewSlice(types.Typ[types.Uint8]))
		}
	}
}
