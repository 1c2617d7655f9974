package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// Terms are hash-consed bit-vector (w>0) and boolean (w==0) DAG nodes. One TermDB belongs to one worker.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpApp // uninterpreted (ideal) function application, result w bits
	OpConcat
	OpExtract
	OpAdd
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpShl
	OpLShr
	OpAShr
	OpBAnd
	OpBOr
	OpBXor
	OpSExt
	OpIte // bit-vector or bool
	// booleans
	OpNot
	OpAnd
	OpOr
	OpEq
	OpUlt
	OpSlt
)

var opName = map[Op]string{OpAdd: "bvadd", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpUlt: "bvult", OpSlt: "bvslt",
	OpEq: "=", OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpConcat: "concat"}

type Term struct {
	op   Op
	w    int
	id   int
	u    uint64   // const value if w<=64; extract: lo
	big  *big.Int // const value if w>64
	name string   // var / app name
	args []*Term
	supp []*Term // cached support (vars and apps), lazily
	vm   uint64  // bloom mask of the variables occurring anywhere inside
	h    uint64  // structural hash, independent of creation order
	flag uint8
}

const (
	flagAdv    = 1 // attacker-controlled variable
	flagPublic = 2
	flagFresh  = 4 // honest high-entropy randomness
)

type TermDB struct {
	slots  []int32 // hash table of all: positions, from 1
	all    []*Term
	consts map[[2]uint64]*Term
	True   *Term
	False  *Term
	cr     *Crypto
	deepc  map[*Term][]*Term
	ops    uint
	tick   func() // called now and then, so that a runaway construction ends with the budget
}

func NewTermDB() *TermDB {
	db := &TermDB{consts: make(map[[2]uint64]*Term, 1<<12), deepc: map[*Term][]*Term{}}
	db.True = db.Const(0, 1)
	db.False = db.Const(0, 0)
	return db
}

func put64(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func (db *TermDB) mk(op Op, w int, u uint64, name string, args []*Term) *Term {
	if db.ops++; db.ops&0x3ffff == 0 && db.tick != nil {
		db.tick()
	}
	h := mix(uint64(op)<<32|uint64(w), u)
	for _, a := range args {
		h = mix(h, a.h)
	}
	for i := 0; i < len(name); i++ {
		h = mix(h, uint64(name[i])+1)
	}
	if 2*len(db.all) >= len(db.slots) {
		db.grow()
	}
	m := uint64(len(db.slots) - 1)
	i := h & m
probe:
	for ; db.slots[i] != 0; i = (i + 1) & m {
		t := db.all[db.slots[i]-1]
		if t.h != h || t.op != op || t.w != w || t.u != u || len(t.args) != len(args) || t.name != name {
			continue
		}
		for k := range args {
			if t.args[k] != args[k] {
				continue probe
			}
		}
		return t
	}
	t := &Term{op: op, w: w, u: u, name: name, args: args, id: len(db.all), h: h}
	if op == OpVar {
		t.vm = 1 << (h % 64)
	}
	for _, a := range args {
		t.vm |= a.vm
	}
	db.all = append(db.all, t)
	db.slots[i] = int32(len(db.all))
	return t
}

// grow doubles the hash table of terms.
func (db *TermDB) grow() {
	n := 2 * len(db.slots)
	if n == 0 {
		n = 1 << 12
	}
	db.slots = make([]int32, n)
	m := uint64(n - 1)
	for k, t := range db.all {
		i := t.h & m
		for db.slots[i] != 0 {
			i = (i + 1) & m
		}
		db.slots[i] = int32(k + 1)
	}
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h ^= h >> 30
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 27
	return h
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (db *TermDB) Const(w int, v uint64) *Term {
	if w > 64 {
		return db.BigConst(w, new(big.Int).SetUint64(v))
	}
	if w == 0 {
		v &= 1
	} else {
		v &= mask(w)
	}
	k := [2]uint64{uint64(w), v}
	if t, ok := db.consts[k]; ok {
		return t
	}
	t := &Term{op: OpConst, w: w, u: v, id: len(db.all), h: mix(uint64(w)+77, v)}
	db.all = append(db.all, t)
	db.consts[k] = t
	return t
}

func (db *TermDB) Bool(b bool) *Term {
	if b {
		return db.True
	}
	return db.False
}

func (db *TermDB) BigConst(w int, v *big.Int) *Term {
	if w <= 64 {
		return db.Const(w, new(big.Int).And(v, new(big.Int).SetUint64(^uint64(0))).Uint64())
	}
	m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
	x := new(big.Int).And(v, m)
	t := db.mk(OpConst, w, 0, x.Text(62), nil)
	if t.big == nil {
		t.big = x
	}
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.u == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.u == 0 }
func (t *Term) bigVal() *big.Int {
	if t.w > 64 {
		return t.big
	}
	return new(big.Int).SetUint64(t.u)
}
func (t *Term) signed() int64 {
	if t.w >= 64 {
		return int64(t.u)
	}
	if t.u>>(uint(t.w)-1)&1 == 1 {
		return int64(t.u | ^mask(t.w))
	}
	return int64(t.u)
}

func (db *TermDB) Var(name string, w int, flag uint8) *Term {
	t := db.mk(OpVar, w, uint64(flag), name, nil)
	t.flag = flag
	return t
}

// ---- concat / extract ----

func (db *TermDB) Concat(parts ...*Term) *Term { // parts[0] is most significant
	// flatten + merge
	out := make([]*Term, 0, len(parts))
	var push func(p *Term)
	push = func(p *Term) {
		if p.w == 0 {
			panic("concat of bool")
		}
		if p.op == OpConcat {
			for _, a := range p.args {
				push(a)
			}
			return
		}
		if n := len(out); n > 0 {
			q := out[n-1]
			if m := db.mergePieces(q, p); m != nil {
				out[n-1] = m
				// merging may enable a further merge with the previous piece
				for len(out) >= 2 {
					m2 := db.mergePieces(out[len(out)-2], out[len(out)-1])
					if m2 == nil {
						break
					}
					out = out[:len(out)-1]
					out[len(out)-1] = m2
				}
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		push(p)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, p := range out {
		w += p.w
	}
	return db.mk(OpConcat, w, 0, "", out)
}

func (db *TermDB) mergePieces(hi, lo *Term) *Term {
	if hi.isConst() && lo.isConst() {
		w := hi.w + lo.w
		if w <= 64 {
			return db.Const(w, hi.u<<uint(lo.w)|lo.u)
		}
		v := new(big.Int).Lsh(hi.bigVal(), uint(lo.w))
		v.Or(v, lo.bigVal())
		return db.BigConst(w, v)
	}
	hb, hl, _ := pieceOf(hi)
	lb, ll, lw := pieceOf(lo)
	if hb == lb && !hi.isConst() && hl == ll+lw {
		return db.Extract(hl+hi.w-1, ll, hb)
	}
	// zero-extension knowledge: const zero bits on top of a piece whose base has known-zero bits there
	if hi.isConst() && hi.bigVal().Sign() == 0 && !lo.isConst() {
		if z := knownZeroTop(lb); z > 0 && ll == 0 && lw+hi.w == lb.w && hi.w <= z {
			return lb
		}
	}
	return nil
}

// knownZeroTop returns how many top bits of an application result are always zero.
func knownZeroTop(t *Term) int {
	if t.op == OpApp {
		switch t.name {
		case "sc": // canonical scalar < l < 2^253
			return 3
		case "mont": // canonical u < 2^255-19
			return 1
		case "fe": // canonical field element
			return 1
		case "xdh", "xdhx":
			return 1
		}
	}
	return 0
}

func pieceOf(t *Term) (base *Term, lo, w int) {
	if t.op == OpExtract {
		return t.args[0], int(t.u), t.w
	}
	return t, 0, t.w
}

func (db *TermDB) Extract(hi, lo int, t *Term) *Term {
	w := hi - lo + 1
	if w <= 0 || hi >= t.w {
		panic(fmt.Sprintf("bad extract %d %d of w=%d", hi, lo, t.w))
	}
	if w == t.w {
		return t
	}
	switch t.op {
	case OpConst:
		if t.w <= 64 {
			return db.Const(w, t.u>>uint(lo))
		}
		return db.BigConst(w, new(big.Int).Rsh(t.big, uint(lo)))
	case OpExtract:
		return db.Extract(hi+int(t.u), lo+int(t.u), t.args[0])
	case OpConcat:
		var parts []*Term
		pos := t.w
		for _, p := range t.args {
			phi, plo := pos-1, pos-p.w
			pos = plo
			if phi < lo {
				break
			}
			if plo > hi {
				continue
			}
			h, l := hi, lo
			if h > phi {
				h = phi
			}
			if l < plo {
				l = plo
			}
			parts = append(parts, db.Extract(h-plo, l-plo, p))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return db.Concat(parts...)
	case OpBAnd, OpBOr, OpBXor:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = db.Extract(hi, lo, a)
		}
		return db.bitop(t.op, args)
	case OpIte:
		return db.Ite(t.args[0], db.Extract(hi, lo, t.args[1]), db.Extract(hi, lo, t.args[2]))
	case OpAdd, OpMul:
		if lo == 0 {
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = db.Extract(hi, 0, a)
			}
			if t.op == OpAdd {
				return db.Add(args...)
			}
			return db.Mul(args[0], args[1])
		}
	case OpSExt:
		in := t.args[0]
		if hi < in.w {
			return db.Extract(hi, lo, in)
		}
	case OpApp:
		if z := knownZeroTop(t); z > 0 {
			if lo >= t.w-z {
				return db.Const(w, 0)
			}
			if hi >= t.w-z {
				zw := hi - (t.w - z) + 1
				inner := db.mk(OpExtract, t.w-z-lo, uint64(lo), "", []*Term{t})
				return db.mkConcat2(db.Const(zw, 0), inner)
			}
		}
	}
	return db.mk(OpExtract, w, uint64(lo), "", []*Term{t})
}

func (db *TermDB) mkConcat2(a, b *Term) *Term {
	return db.mk(OpConcat, a.w+b.w, 0, "", []*Term{a, b})
}

func (db *TermDB) ZExt(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return db.Extract(w-1, 0, t)
	}
	return db.Concat(db.Const(w-t.w, 0), t)
}

func (db *TermDB) SExt(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return db.Extract(w-1, 0, t)
	}
	if t.isConst() && w <= 64 {
		return db.Const(w, uint64(t.signed()))
	}
	if t.op == OpConcat && t.args[0].isConst() && t.args[0].w > 0 {
		c := t.args[0]
		top := c.bigVal().Bit(c.w - 1)
		if top == 0 {
			return db.ZExt(t, w)
		}
	}
	return db.mk(OpSExt, w, 0, "", []*Term{t})
}

// ---- arithmetic ----

func (db *TermDB) Add(args ...*Term) *Term {
	w := args[0].w
	var flat []*Term
	c := uint64(0)
	var bc *big.Int
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op == OpAdd {
			for _, a := range t.args {
				rec(a)
			}
			return
		}
		if t.isConst() {
			if w <= 64 {
				c += t.u
			} else {
				if bc == nil {
					bc = new(big.Int)
				}
				bc.Add(bc, t.big)
			}
			return
		}
		flat = append(flat, t)
	}
	for _, a := range args {
		rec(a)
	}
	c &= mask(w)
	// cancel x + (-1*x)
	if len(flat) >= 2 {
		coef := map[*Term]uint64{}
		var order []*Term
		for _, t := range flat {
			base, k := t, uint64(1)
			if t.op == OpMul && t.args[0].isConst() && w <= 64 {
				base, k = t.args[1], t.args[0].u
			}
			if _, ok := coef[base]; !ok {
				order = append(order, base)
			}
			coef[base] += k
		}
		if w <= 64 {
			flat = flat[:0]
			for _, b := range order {
				k := coef[b] & mask(w)
				if k == 0 {
					continue
				}
				if k == 1 {
					flat = append(flat, b)
				} else {
					flat = append(flat, db.mk(OpMul, w, 0, "", []*Term{db.Const(w, k), b}))
				}
			}
		}
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].h < flat[j].h })
	if w <= 64 {
		if c != 0 || len(flat) == 0 {
			flat = append(flat, db.Const(w, c))
		}
	} else if bc != nil {
		flat = append(flat, db.BigConst(w, bc))
	}
	if len(flat) == 1 {
		return flat[0]
	}
	return db.mk(OpAdd, w, 0, "", append([]*Term(nil), flat...))
}

func (db *TermDB) Neg(t *Term) *Term { return db.Mul(db.Const(t.w, ^uint64(0)), t) }
func (db *TermDB) Sub(a, b *Term) *Term {
	if a == b {
		return db.Const(a.w, 0)
	}
	if b.isConst() && b.w <= 64 {
		return db.Add(a, db.Const(b.w, -b.u))
	}
	return db.Add(a, db.Neg(b))
}

func (db *TermDB) Mul(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() && w <= 64 {
		if b.isConst() {
			return db.Const(w, a.u*b.u)
		}
		if a.u == 0 {
			return a
		}
		if a.u == 1 {
			return b
		}
		if b.op == OpMul && b.args[0].isConst() {
			return db.Mul(db.Const(w, a.u*b.args[0].u), b.args[1])
		}
		if b.op == OpAdd {
			args := make([]*Term, len(b.args))
			for i, x := range b.args {
				args[i] = db.Mul(a, x)
			}
			return db.Add(args...)
		}
		if a.u != 0 && a.u&(a.u-1) == 0 {
			return db.Shl(b, db.Const(w, uint64(bits.TrailingZeros64(a.u))))
		}
	} else if a.h > b.h {
		a, b = b, a
	}
	return db.mk(OpMul, w, 0, "", []*Term{a, b})
}

func (db *TermDB) UDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.u != 0 && a.w <= 64 {
		return db.Const(a.w, a.u/b.u)
	}
	if b.isConst() && a.w <= 64 {
		if b.u == 1 {
			return a
		}
		if b.u != 0 && b.u&(b.u-1) == 0 {
			return db.LShr(a, db.Const(a.w, uint64(bits.TrailingZeros64(b.u))))
		}
		if b.u != 0 {
			_, hi := ubounds(a)
			if hi < b.u {
				return db.Const(a.w, 0)
			}
			if k := bits.Len64(hi); k < a.w {
				return db.ZExt(db.UDiv(db.Extract(k-1, 0, a), db.Const(k, b.u)), a.w)
			}
		}
	}
	return db.mk(OpUDiv, a.w, 0, "", []*Term{a, b})
}
func (db *TermDB) URem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.u != 0 && a.w <= 64 {
		return db.Const(a.w, a.u%b.u)
	}
	if b.isConst() && a.w <= 64 && b.u != 0 && b.u&(b.u-1) == 0 {
		n := bits.TrailingZeros64(b.u)
		if n == 0 {
			return db.Const(a.w, 0)
		}
		return db.ZExt(db.Extract(n-1, 0, a), a.w)
	}
	if b.isConst() && a.w <= 64 && b.u != 0 {
		_, hi := ubounds(a)
		if hi < b.u {
			return a
		}
		if k := bits.Len64(hi); k < a.w {
			return db.ZExt(db.URem(db.Extract(k-1, 0, a), db.Const(k, b.u)), a.w)
		}
		if a.w > 24 {
			// bit-blasting a wide remainder is out of reach: a function that is at most the divisor
			return db.ZExt(db.mk(OpApp, bits.Len64(b.u-1), 0, "rem", []*Term{a, b}), a.w)
		}
	}
	return db.mk(OpURem, a.w, 0, "", []*Term{a, b})
}
func (db *TermDB) topZero(a *Term) bool {
	if a.isConst() {
		return a.bigVal().Bit(a.w-1) == 0
	}
	if a.op == OpConcat && a.args[0].isConst() {
		return a.args[0].bigVal().Bit(a.args[0].w-1) == 0
	}
	return false
}
func (db *TermDB) SDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.u != 0 && a.w <= 64 {
		if b.signed() == -1 {
			return db.Const(a.w, -a.u)
		}
		return db.Const(a.w, uint64(a.signed()/b.signed()))
	}
	if db.topZero(a) && db.topZero(b) {
		return db.UDiv(a, b)
	}
	return db.mk(OpSDiv, a.w, 0, "", []*Term{a, b})
}
func (db *TermDB) SRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.u != 0 && a.w <= 64 {
		if b.signed() == -1 {
			return db.Const(a.w, 0)
		}
		return db.Const(a.w, uint64(a.signed()%b.signed()))
	}
	if db.topZero(a) && db.topZero(b) {
		return db.URem(a, b)
	}
	return db.mk(OpSRem, a.w, 0, "", []*Term{a, b})
}

// shift amounts have the same width as the shifted operand; amounts >= w give 0 (or sign).
func (db *TermDB) Shl(a, n *Term) *Term {
	if n.isConst() {
		k := n.u
		if n.w > 64 || k >= uint64(a.w) {
			return db.Const(a.w, 0)
		}
		if k == 0 {
			return a
		}
		return db.Concat(db.Extract(a.w-1-int(k), 0, a), db.Const(int(k), 0))
	}
	return db.mk(OpShl, a.w, 0, "", []*Term{a, n})
}
func (db *TermDB) LShr(a, n *Term) *Term {
	if n.isConst() {
		k := n.u
		if n.w > 64 || k >= uint64(a.w) {
			return db.Const(a.w, 0)
		}
		if k == 0 {
			return a
		}
		return db.Concat(db.Const(int(k), 0), db.Extract(a.w-1, int(k), a))
	}
	return db.mk(OpLShr, a.w, 0, "", []*Term{a, n})
}
func (db *TermDB) AShr(a, n *Term) *Term {
	if db.topZero(a) {
		return db.LShr(a, n)
	}
	if n.isConst() {
		k := n.u
		if n.w > 64 || k >= uint64(a.w) {
			k = uint64(a.w - 1)
		}
		if k == 0 {
			return a
		}
		return db.SExt(db.Extract(a.w-1, int(k), a), a.w)
	}
	return db.mk(OpAShr, a.w, 0, "", []*Term{a, n})
}

func (db *TermDB) BAnd(a, b *Term) *Term { return db.bitop(OpBAnd, []*Term{a, b}) }
func (db *TermDB) BOr(a, b *Term) *Term  { return db.bitop(OpBOr, []*Term{a, b}) }
func (db *TermDB) BXor(a, b *Term) *Term { return db.bitop(OpBXor, []*Term{a, b}) }
func (db *TermDB) BNot(a *Term) *Term {
	return db.bitop(OpBXor, []*Term{a, db.ones(a.w)})
}
func (db *TermDB) ones(w int) *Term {
	if w <= 64 {
		return db.Const(w, ^uint64(0))
	}
	v := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
	return db.BigConst(w, v)
}

func (db *TermDB) bitop(op Op, args []*Term) *Term {
	w := args[0].w
	var flat []*Term
	var cst *big.Int
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op == op {
			for _, a := range t.args {
				rec(a)
			}
			return
		}
		if t.isConst() {
			v := t.bigVal()
			if cst == nil {
				cst = new(big.Int).Set(v)
			} else {
				switch op {
				case OpBAnd:
					cst.And(cst, v)
				case OpBOr:
					cst.Or(cst, v)
				case OpBXor:
					cst.Xor(cst, v)
				}
			}
			return
		}
		flat = append(flat, t)
	}
	for _, a := range args {
		rec(a)
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].h < flat[j].h })
	// dedupe
	j := 0
	for i := 0; i < len(flat); i++ {
		if op == OpBXor {
			if j > 0 && flat[j-1] == flat[i] {
				j--
				continue
			}
		} else if j > 0 && flat[j-1] == flat[i] {
			continue
		}
		flat[j] = flat[i]
		j++
	}
	flat = flat[:j]
	if len(flat) == 0 {
		if cst == nil {
			return db.Const2(w, big.NewInt(0))
		}
		return db.Const2(w, cst)
	}
	allones := db.ones(w)
	if cst != nil {
		ct := db.Const2(w, cst)
		switch op {
		case OpBAnd:
			if cst.Sign() == 0 {
				return ct
			}
			if ct == allones {
				cst = nil
			}
		case OpBOr:
			if ct == allones {
				return ct
			}
			if cst.Sign() == 0 {
				cst = nil
			}
		case OpBXor:
			if cst.Sign() == 0 {
				cst = nil
			}
		}
	}
	if cst == nil && len(flat) == 1 {
		return flat[0]
	}
	if cst != nil && op != OpBXor {
		// split into runs of constant bits: and/or with a constant becomes a concat
		x := flat[0]
		if len(flat) > 1 {
			x = db.bitopRaw(op, w, append([]*Term(nil), flat...))
		}
		var parts []*Term
		i := w - 1
		for i >= 0 {
			b := cst.Bit(i)
			k := i
			for k >= 0 && cst.Bit(k) == b {
				k--
			}
			n := i - k
			if (op == OpBAnd) == (b == 1) { // keep x bits
				parts = append(parts, db.Extract(i, k+1, x))
			} else if b == 1 {
				parts = append(parts, db.ones(n))
			} else {
				parts = append(parts, db.Const2(n, big.NewInt(0)))
			}
			i = k
		}
		return db.Concat(parts...)
	}
	if cst != nil {
		flat = append(flat, db.Const2(w, cst))
	}
	// split along constant boundaries when an operand is a concat with constant pieces
	if len(flat) >= 2 {
		cut := map[int]bool{}
		for _, f := range flat {
			if f.op == OpConcat {
				pos := w
				for _, p := range f.args {
					if p.isConst() {
						cut[pos] = true
						cut[pos-p.w] = true
					}
					pos -= p.w
				}
			}
		}
		delete(cut, 0)
		delete(cut, w)
		if len(cut) > 0 {
			var cs []int
			for c := range cut {
				cs = append(cs, c)
			}
			sort.Sort(sort.Reverse(sort.IntSlice(cs)))
			cs = append(cs, 0)
			hi := w
			var parts []*Term
			for _, c := range cs {
				sub := make([]*Term, len(flat))
				for i, f := range flat {
					sub[i] = db.Extract(hi-1, c, f)
				}
				parts = append(parts, db.bitop(op, sub))
				hi = c
			}
			return db.Concat(parts...)
		}
	}
	return db.bitopRaw(op, w, append([]*Term(nil), flat...))
}
func (db *TermDB) bitopRaw(op Op, w int, args []*Term) *Term { return db.mk(op, w, 0, "", args) }

func (db *TermDB) Const2(w int, v *big.Int) *Term { return db.BigConst(w, v) }

// ---- booleans ----

func (db *TermDB) Not(a *Term) *Term {
	if a.isConst() {
		return db.Const(0, a.u^1)
	}
	if a.op == OpNot {
		return a.args[0]
	}
	return db.mk(OpNot, 0, 0, "", []*Term{a})
}

func (db *TermDB) And(args ...*Term) *Term { return db.andor(OpAnd, args) }
func (db *TermDB) Or(args ...*Term) *Term  { return db.andor(OpOr, args) }

func (db *TermDB) andor(op Op, args []*Term) *Term {
	unit, zero := db.True, db.False
	if op == OpOr {
		unit, zero = db.False, db.True
	}
	var flat []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[db.Not(t)] {
			return false
		}
		seen[t] = true
		flat = append(flat, t)
		return true
	}
	for _, a := range args {
		if !rec(a) {
			return zero
		}
	}
	if len(flat) == 0 {
		return unit
	}
	if len(flat) == 1 {
		return flat[0]
	}
	if op == OpAnd {
		n := 0
		for _, f := range flat {
			if f.op == OpEq && f.args[0].w > 0 {
				n++
			}
		}
		if n >= 2 {
			if es := db.mergeEqs(flat); len(es) < len(flat) {
				return db.andor(op, es)
			}
		}
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].h < flat[j].h })
	return db.mk(op, 0, 0, "", flat)
}

func (db *TermDB) Implies(a, b *Term) *Term { return db.Or(db.Not(a), b) }

func (db *TermDB) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return db.Or(c, b)
		}
		if a.isFalse() {
			return db.And(db.Not(c), b)
		}
		if b.isTrue() {
			return db.Or(db.Not(c), a)
		}
		if b.isFalse() {
			return db.And(c, a)
		}
	}
	if c.op == OpNot {
		return db.Ite(c.args[0], b, a)
	}
	if a.op == OpIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == c {
		b = b.args[2]
	}
	return db.mk(OpIte, a.w, 0, "", []*Term{c, a, b})
}

func (db *TermDB) pieces(t *Term) []*Term {
	if t.op == OpConcat {
		return t.args
	}
	return []*Term{t}
}

func (db *TermDB) Eq(a, b *Term) *Term {
	if a == b {
		return db.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return db.False // hash-consed
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return db.Not(a)
		}
		if db.Not(a) == b {
			return db.False
		}
		if a.h > b.h {
			a, b = b, a
		}
		return db.mk(OpEq, 0, 0, "", []*Term{a, b})
	}
	// align pieces
	if a.op == OpConcat || b.op == OpConcat {
		pa, pb := db.pieces(a), db.pieces(b)
		var conj []*Term
		i, j := 0, 0
		var ra, rb *Term
		for {
			if ra == nil {
				if i == len(pa) {
					break
				}
				ra = pa[i]
				i++
			}
			if rb == nil {
				rb = pb[j]
				j++
			}
			n := ra.w
			if rb.w < n {
				n = rb.w
			}
			x := db.Extract(ra.w-1, ra.w-n, ra)
			y := db.Extract(rb.w-1, rb.w-n, rb)
			e := db.eqPiece(x, y)
			if e.isFalse() {
				return e
			}
			conj = append(conj, e)
			if ra.w == n {
				ra = nil
			} else {
				ra = db.Extract(ra.w-n-1, 0, ra)
			}
			if rb.w == n {
				rb = nil
			} else {
				rb = db.Extract(rb.w-n-1, 0, rb)
			}
		}
		return db.And(db.mergeEqs(conj)...)
	}
	return db.eqPiece(a, b)
}

// mergeEqs joins piece equalities over the same pair of bases into wider ones (in any byte order), so
// that the ideal-function reasoning sees whole values.
func (db *TermDB) mergeEqs(es []*Term) []*Term {
	if len(es) < 2 {
		return es
	}
	type pe struct {
		x, y   *Term
		xb, yb uint64
		xl     int
	}
	var ps []pe
	var out []*Term
	for _, e := range es {
		if e.op != OpEq || e.args[0].w == 0 {
			out = append(out, e)
			continue
		}
		x, y := e.args[0], e.args[1]
		bx, _, _ := pieceOf(x)
		by, _, _ := pieceOf(y)
		if bx.isConst() || (!by.isConst() && by.h < bx.h) {
			x, y = y, x
			bx, by = by, bx
		}
		_, xl, _ := pieceOf(x)
		p := pe{x, y, bx.h, by.h, xl}
		if by.isConst() {
			p.yb = 0
		}
		ps = append(ps, p)
	}
	sort.SliceStable(ps, func(i, j int) bool {
		a, b := ps[i], ps[j]
		if a.xb != b.xb {
			return a.xb < b.xb
		}
		if a.yb != b.yb {
			return a.yb < b.yb
		}
		return a.xl > b.xl
	})
	for i := 0; i < len(ps); {
		x, y := ps[i].x, ps[i].y
		j := i + 1
		for j < len(ps) && ps[j].xb == ps[i].xb && ps[j].yb == ps[i].yb {
			mx, my := db.mergePieces(x, ps[j].x), db.mergePieces(y, ps[j].y)
			if mx == nil || my == nil {
				break
			}
			x, y = mx, my
			j++
		}
		if j == i+1 {
			out = append(out, db.eqPiece(x, y))
		} else {
			out = append(out, db.eqPiece(x, y))
		}
		i = j
	}
	return out
}

func (db *TermDB) eqPiece(a, b *Term) *Term {
	if a == b {
		return db.True
	}
	if a.isConst() && b.isConst() {
		return db.False
	}
	if a.op == OpConcat || b.op == OpConcat {
		return db.Eq(a, b)
	}
	if a.isConst() {
		a, b = b, a
	}
	// or of things == 0
	if a.op == OpBOr && b.isConst() && b.bigVal().Sign() == 0 {
		args := append([]*Term(nil), a.args...)
		sort.SliceStable(args, func(i, j int) bool {
			bi, li, _ := pieceOf(args[i])
			bj, lj, _ := pieceOf(args[j])
			if bi != bj {
				return bi.h < bj.h
			}
			return li > lj
		})
		c := db.Concat(args...)
		return db.Eq(c, db.Const2(c.w, big.NewInt(0)))
	}
	// x + c == d
	if a.op == OpAdd && a.w <= 64 {
		last := a.args[len(a.args)-1]
		if b.isConst() && last.isConst() {
			return db.Eq(db.Add(a.args[:len(a.args)-1]...), db.Const(a.w, b.u-last.u))
		}
		if !b.isConst() {
			d := db.Sub(a, b)
			if d.isConst() {
				return db.Bool(d.u == 0)
			}
		}
	}
	if b.op == OpAdd && a.w <= 64 && a.op != OpAdd {
		d := db.Sub(b, a)
		if d.isConst() {
			return db.Bool(d.u == 0)
		}
	}
	if a.op == OpIte && b.isConst() {
		x, y := a.args[1], a.args[2]
		if x.isConst() || y.isConst() || x.op == OpIte || y.op == OpIte {
			return db.Ite(a.args[0], db.Eq(x, b), db.Eq(y, b))
		}
	}
	// xor cancellation
	if a.op == OpBXor || b.op == OpBXor {
		x := db.BXor(a, b)
		if x.isConst() {
			return db.Bool(x.bigVal().Sign() == 0)
		}
		if x.op != OpBXor && x.op != OpConcat && a.op == OpBXor && b.op == OpBXor {
			return db.eqPiece(x, db.Const2(a.w, big.NewInt(0)))
		}
		if a.op == OpBXor && b.isConst() {
			last := a.args[len(a.args)-1]
			if last.isConst() {
				rest := db.bitop(OpBXor, append([]*Term(nil), a.args[:len(a.args)-1]...))
				return db.Eq(rest, db.BXor(last, b))
			}
			if len(a.args) == 2 {
				return db.Eq(a.args[0], db.BXor(a.args[1], b))
			}
		}
	}
	if a.op == OpSExt && b.isConst() && a.w <= 64 {
		in := a.args[0]
		c := db.Const(in.w, b.u)
		if db.SExt(c, a.w) == b {
			return db.Eq(in, c)
		}
		return db.False
	}
	if db.cr != nil {
		if e := db.cr.eqIdeal(a, b); e != nil {
			return e
		}
	}
	if a.h > b.h {
		a, b = b, a
	}
	return db.mk(OpEq, 0, 0, "", []*Term{a, b})
}

// bounds returns simple unsigned bounds of a term of width <= 64.
func ubounds(t *Term) (lo, hi uint64) {
	if t.isConst() {
		return t.u, t.u
	}
	if t.op == OpConcat && t.w <= 64 {
		lo, hi = 0, 0
		for _, p := range t.args {
			l, h := ubounds(p)
			lo = lo<<uint(p.w) | l
			hi = hi<<uint(p.w) | h
		}
		return
	}
	if t.op == OpURem && t.args[1].isConst() && t.w <= 64 && t.args[1].u > 0 {
		return 0, t.args[1].u - 1
	}
	if t.op == OpApp && t.name == "rem" {
		return 0, t.args[1].u - 1
	}
	if t.op == OpUDiv && t.args[1].isConst() && t.w <= 64 && t.args[1].u > 0 {
		l, h := ubounds(t.args[0])
		return l / t.args[1].u, h / t.args[1].u
	}
	if t.op == OpExtract && t.u == 0 && t.args[0].w <= 64 {
		if _, h := ubounds(t.args[0]); h <= mask(t.w) {
			return ubounds(t.args[0])
		}
	}
	if t.op == OpIte {
		l1, h1 := ubounds(t.args[1])
		l2, h2 := ubounds(t.args[2])
		return min(l1, l2), max(h1, h2)
	}
	return 0, mask(t.w)
}

func (db *TermDB) Ult(a, b *Term) *Term {
	if a == b {
		return db.False
	}
	if a.w <= 64 {
		al, ah := ubounds(a)
		bl, bh := ubounds(b)
		if ah < bl {
			return db.True
		}
		if al >= bh {
			return db.False
		}
	}
	if a.w <= 64 && b.isConst() {
		if b.u == 1 {
			return db.Eq(a, db.Const(a.w, 0))
		}
		if b.u != 0 && b.u&(b.u-1) == 0 {
			k := bits.TrailingZeros64(b.u)
			return db.Eq(db.Extract(a.w-1, k, a), db.Const(a.w-k, 0))
		}
		if b.u == mask(a.w) {
			return db.Not(db.Eq(a, b))
		}
	}
	if a.w <= 64 && a.isConst() {
		if a.u == 0 {
			return db.Not(db.Eq(b, a))
		}
		if n := a.u + 1; n != 0 && n&(n-1) == 0 {
			k := bits.TrailingZeros64(n)
			return db.Not(db.Eq(db.Extract(b.w-1, k, b), db.Const(b.w-k, 0)))
		}
	}
	// common zero top bits
	if a.op == OpConcat && a.args[0].isConst() && a.args[0].bigVal().Sign() == 0 {
		z := a.args[0].w
		if b.op == OpConcat && b.args[0].isConst() && b.args[0].bigVal().Sign() == 0 {
			if b.args[0].w < z {
				z = b.args[0].w
			}
			return db.Ult(db.Extract(a.w-z-1, 0, a), db.Extract(b.w-z-1, 0, b))
		}
		if b.isConst() && b.w <= 64 {
			lz := bits.LeadingZeros64(b.u) - (64 - b.w)
			if lz < z {
				z = lz
			}
			if z > 0 && z < a.w {
				return db.Ult(db.Extract(a.w-z-1, 0, a), db.Extract(b.w-z-1, 0, b))
			}
		}
	}
	if b.op == OpConcat && b.args[0].isConst() && b.args[0].bigVal().Sign() == 0 && a.isConst() && a.w <= 64 {
		z := b.args[0].w
		lz := bits.LeadingZeros64(a.u) - (64 - a.w)
		if lz < z {
			z = lz
		}
		if z > 0 && z < a.w {
			return db.Ult(db.Extract(a.w-z-1, 0, a), db.Extract(b.w-z-1, 0, b))
		}
	}
	return db.mk(OpUlt, 0, 0, "", []*Term{a, b})
}
func (db *TermDB) Ule(a, b *Term) *Term { return db.Not(db.Ult(b, a)) }
func (db *TermDB) Slt(a, b *Term) *Term {
	if a == b {
		return db.False
	}
	if a.isConst() && b.isConst() && a.w <= 64 {
		return db.Bool(a.signed() < b.signed())
	}
	if db.topZero(a) && db.topZero(b) {
		return db.Ult(a, b)
	}
	if b.isConst() && b.bigVal().Sign() == 0 && db.topZero(a) {
		return db.False
	}
	return db.mk(OpSlt, 0, 0, "", []*Term{a, b})
}
func (db *TermDB) Sle(a, b *Term) *Term { return db.Not(db.Slt(b, a)) }

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t.op == OpConst {
		if t.w == 0 {
			return fmt.Sprint(t.u == 1)
		}
		if t.w <= 64 {
			return fmt.Sprintf("%d:%d", t.u, t.w)
		}
		return fmt.Sprintf("0x%s:%d", t.big.Text(16), t.w)
	}
	if t.op == OpVar {
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var sb strings.Builder
	switch t.op {
	case OpApp:
		sb.WriteString(t.name)
	case OpExtract:
		fmt.Fprintf(&sb, "ext[%d:%d]", int(t.u)+t.w-1, t.u)
	default:
		sb.WriteString(opName[t.op])
	}
	sb.WriteByte('(')
	for i, a := range t.args {
		if i > 0 {
			sb.WriteByte(',')
		}
		if i > 8 {
			sb.WriteString("...")
			break
		}
		sb.WriteString(a.str(d - 1))
	}
	sb.WriteByte(')')
	return sb.String()
}
