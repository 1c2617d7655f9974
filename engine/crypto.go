package main

import (
	"crypto/aes"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"math/big"
	"sort"

	"filippo.io/edwards25519"
)

// Crypto builds applications of ideal cryptographic functions.
//
// Byte strings are terms whose most significant byte is the first byte; integers of the curve layer
// (scalars, field elements) are terms holding the integer value.
type Crypto struct {
	db *TermDB
}

var (
	fieldP, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
	groupL, _ = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
)

// functions whose outputs are treated as collision free / unpredictable
var hashLike = map[string]bool{"sha256": true, "sha512": true, "hmac256": true, "hmac512": true, "mont": true, "edy": true, "xdh": true, "xdhx": true, "sc": true}

func (c *Crypto) app(name string, w int, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if !a.isConst() {
			all = false
			break
		}
	}
	t := c.db.mk(OpApp, w, 0, name, args)
	if all {
		vals := make([]*big.Int, len(args))
		for i, a := range args {
			vals[i] = a.bigVal()
		}
		if v := c.evalApp(t, vals); v != nil {
			return c.db.BigConst(w, v)
		}
	}
	return t
}

// ---- hashing, AES (byte-string terms; nil = empty) ----

func (c *Crypto) hash(name string, outBytes int, data *Term) *Term {
	if data == nil {
		return c.app(name, outBytes*8)
	}
	return c.app(name, outBytes*8, data)
}

func (c *Crypto) hmac(name string, outBytes int, key, data *Term) *Term {
	if data == nil {
		return c.app(name, outBytes*8, key)
	}
	return c.app(name, outBytes*8, key, data)
}

func (c *Crypto) aesEnc(key, block *Term) *Term {
	if block.op == OpApp && block.name == "aesdec" && block.args[0] == key {
		return block.args[1]
	}
	return c.app("aesenc", 128, key, block)
}
func (c *Crypto) aesDec(key, block *Term) *Term {
	if block.op == OpApp && block.name == "aesenc" && block.args[0] == key {
		return block.args[1]
	}
	return c.app("aesdec", 128, key, block)
}

// ---- scalars mod l: polynomials over atoms ----

type mono struct {
	coef  *big.Int
	atoms []*Term // sorted by id
}
type poly []mono

func monoKey(atoms []*Term) string {
	b := make([]byte, 0, 24)
	for _, a := range atoms {
		b = binary.BigEndian.AppendUint64(b, a.h)
	}
	return string(b)
}

func normPoly(ms []mono) poly {
	m := map[string]*mono{}
	var keys []string
	for _, x := range ms {
		k := monoKey(x.atoms)
		if e, ok := m[k]; ok {
			e.coef = new(big.Int).Mod(new(big.Int).Add(e.coef, x.coef), groupL)
		} else {
			m[k] = &mono{new(big.Int).Mod(x.coef, groupL), x.atoms}
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var out poly
	for _, k := range keys {
		if m[k].coef.Sign() != 0 {
			out = append(out, *m[k])
		}
	}
	return out
}

func (c *Crypto) polyOf(t *Term) poly {
	if t.isConst() {
		return normPoly([]mono{{t.bigVal(), nil}})
	}
	if t.op == OpApp && t.name == "sc" {
		var ms []mono
		i := 0
		for i < len(t.args) {
			co := t.args[i].bigVal()
			n := int(t.args[i+1].u)
			ms = append(ms, mono{co, t.args[i+2 : i+2+n]})
			i += 2 + n
		}
		return normPoly(ms)
	}
	return poly{{big.NewInt(1), []*Term{t}}}
}

func (c *Crypto) polyTerm(p poly) *Term {
	if len(p) == 0 {
		return c.db.BigConst(256, big.NewInt(0))
	}
	if len(p) == 1 && len(p[0].atoms) == 0 {
		return c.db.BigConst(256, p[0].coef)
	}
	var args []*Term
	for _, m := range p {
		args = append(args, c.db.BigConst(256, m.coef), c.db.Const(8, uint64(len(m.atoms))))
		args = append(args, m.atoms...)
	}
	return c.app("sc", 256, args...)
}

func polyAdd(a, b poly) poly { return normPoly(append(append([]mono(nil), a...), b...)) }
func polyNeg(a poly) poly {
	var out []mono
	for _, m := range a {
		out = append(out, mono{new(big.Int).Neg(m.coef), m.atoms})
	}
	return normPoly(out)
}
func polyMul(a, b poly) poly {
	var out []mono
	for _, x := range a {
		for _, y := range b {
			at := append(append([]*Term(nil), x.atoms...), y.atoms...)
			sort.Slice(at, func(i, j int) bool { return at[i].h < at[j].h })
			out = append(out, mono{new(big.Int).Mul(x.coef, y.coef), at})
		}
	}
	return normPoly(out)
}

// scalarOf wraps an integer term (any width) as the scalar it denotes mod l.
func (c *Crypto) scalarOf(t *Term) *Term {
	if t.op == OpApp && t.name == "sc" {
		return t
	}
	return c.polyTerm(c.polyOf(t))
}

// scalarEq is the condition under which two scalars are equal (ideal: no accidental relations).
func (c *Crypto) scalarEq(a, b *Term) *Term {
	if a == b {
		return c.db.True
	}
	return c.polyZero(polyAdd(c.polyOf(a), polyNeg(c.polyOf(b))))
}

func (c *Crypto) polyZero(d poly) *Term {
	db := c.db
	if len(d) == 0 {
		return db.True
	}
	if len(d) == 2 {
		s := new(big.Int).Add(d[0].coef, d[1].coef)
		s.Mod(s, groupL)
		if s.Sign() == 0 {
			// c*(m1 - m2): remove common atoms
			x := append([]*Term(nil), d[0].atoms...)
			y := append([]*Term(nil), d[1].atoms...)
			for i := 0; i < len(x); {
				found := -1
				for j := range y {
					if y[j] == x[i] {
						found = j
						break
					}
				}
				if found >= 0 {
					x = append(x[:i], x[i+1:]...)
					y = append(y[:found], y[found+1:]...)
				} else {
					i++
				}
			}
			if len(x) == 1 && len(y) == 1 && x[0].w == y[0].w {
				return db.Eq(x[0], y[0])
			}
		}
	}
	// pairs of atoms that could make it vanish: conjunction over matching monomials is too
	// specific; generic relations are excluded.
	if len(d) == 4 {
		// a*h - a2*h2 + r - r2 : all pairs must match
		used := make([]bool, 4)
		conj := db.True
		for i := 0; i < 4; i++ {
			if used[i] {
				continue
			}
			ok := false
			for j := i + 1; j < 4; j++ {
				if used[j] || len(d[i].atoms) != len(d[j].atoms) {
					continue
				}
				s := new(big.Int).Add(d[i].coef, d[j].coef)
				if s.Mod(s, groupL).Sign() != 0 {
					continue
				}
				e := db.True
				if len(d[i].atoms) == 1 {
					if d[i].atoms[0].w != d[j].atoms[0].w {
						continue
					}
					e = db.Eq(d[i].atoms[0], d[j].atoms[0])
				} else if len(d[i].atoms) == 2 {
					p, q := d[i].atoms, d[j].atoms
					e = db.False
					for _, sw := range [][2]int{{0, 1}, {1, 0}} {
						if p[0].w == q[sw[0]].w && p[1].w == q[sw[1]].w {
							e = db.Or(e, db.And(db.Eq(p[0], q[sw[0]]), db.Eq(p[1], q[sw[1]])))
						}
					}
				} else {
					continue
				}
				conj = db.And(conj, e)
				used[i], used[j] = true, true
				ok = true
				break
			}
			if !ok {
				return db.False
			}
		}
		return conj
	}
	return db.False
}

// ---- points: represented by their discrete log (scalar term) ----

func (c *Crypto) edY(s *Term) *Term    { return c.app("edy", 255, s) }
func (c *Crypto) edSign(s *Term) *Term { return c.app("edsign", 1, s) }
func (c *Crypto) edEnc(s *Term) *Term { // integer (little-endian) value of the 32-byte encoding
	return c.db.Concat(c.edSign(s), c.edY(s))
}
func (c *Crypto) mont(s *Term) *Term { return c.app("mont", 256, s) }

// x25519: scalar and point given as integer terms (256 bit).
func (c *Crypto) clampInt(k *Term) *Term {
	db := c.db
	return db.Concat(db.Const(2, 1), db.Extract(253, 3, k), db.Const(3, 0))
}

var lowOrder = func() []*big.Int {
	h := []string{"0", "1",
		"7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffec",
		"7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed",
		"7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffee"}
	var out []*big.Int
	for _, s := range h {
		v, _ := new(big.Int).SetString(s, 16)
		out = append(out, v)
	}
	// order 8 points, little-endian e0eb7a7c...00 and 5f9c95bc...d7
	for _, s := range []string{"e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"} {
		b := hexBytes(s)
		out = append(out, leInt(b))
	}
	return out
}()

func hexBytes(s string) []byte {
	v, _ := new(big.Int).SetString(s, 16)
	b := make([]byte, len(s)/2)
	v.FillBytes(b)
	return b
}
func leInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}
func leBytes(v *big.Int, n int) []byte {
	b := make([]byte, n)
	v.FillBytes(b)
	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}

// montLog returns the clamped integer whose public key u is, if syntactically known.
func montLog(u *Term) *Term {
	if u.op == OpApp && u.name == "mont" {
		s := u.args[0]
		if s.op == OpApp && s.name == "sc" && len(s.args) == 3 && s.args[0].bigVal().Cmp(big.NewInt(1)) == 0 {
			return s.args[2]
		}
	}
	return nil
}

// LowOrderCond is the condition that the (masked) point is of low order; u is a 255-bit term zero-extended to 256.
func (c *Crypto) lowOrderCond(u *Term) *Term {
	db := c.db
	if montLog(u) != nil {
		return db.False
	}
	var cs []*Term
	for _, v := range lowOrder {
		cs = append(cs, db.Eq(u, db.BigConst(256, v)))
	}
	return db.Or(cs...)
}

func (c *Crypto) xdhTerm(k, u *Term) *Term { // k clamped, u masked 256-bit; not low order
	if l := montLog(u); l != nil {
		a, b := k, l
		if a.h > b.h {
			a, b = b, a
		}
		return c.app("xdh", 256, a, b)
	}
	return c.app("xdhx", 256, k, u)
}

// ---- ideal equality ----

func (c *Crypto) eqIdeal(a, b *Term) *Term {
	ab, al, aw := pieceOf(a)
	bb, bl, _ := pieceOf(b)
	db := c.db
	if aw < 64 {
		return nil
	}
	fresh := func(t *Term) bool { return t.op == OpVar && t.flag&flagFresh != 0 }
	if fresh(ab) || fresh(bb) {
		if fresh(bb) && !fresh(ab) {
			ab, bb = bb, ab
			al, bl = bl, al
		}
		switch {
		case bb.isConst():
			return db.False
		case fresh(bb):
			return db.False // different variables, or different parts of one
		case bb.op == OpApp:
			return db.False
		}
		return nil
	}
	if ab.op == OpApp && bb.isConst() && (ab.name == "xdh" || ab.name == "xdhx") && bb.bigVal().Sign() == 0 {
		return db.False
	}
	if bb.op == OpApp && ab.isConst() && (bb.name == "xdh" || bb.name == "xdhx") && ab.bigVal().Sign() == 0 {
		return db.False
	}
	if ab.op != OpApp || bb.op != OpApp {
		return nil
	}
	if hashLike[ab.name] && hashLike[bb.name] {
		if ab.name == bb.name && al == bl {
			switch ab.name {
			case "sc":
				return c.scalarEq(ab, bb)
			case "mont", "edy":
				return c.scalarEq(ab.args[0], bb.args[0])
			case "xdh":
				return db.Or(db.And(db.Eq(ab.args[0], bb.args[0]), db.Eq(ab.args[1], bb.args[1])),
					db.And(db.Eq(ab.args[0], bb.args[1]), db.Eq(ab.args[1], bb.args[0])))
			case "xdhx":
				return db.And(db.Eq(ab.args[0], bb.args[0]), db.Eq(ab.args[1], bb.args[1]))
			}
			if len(ab.args) != len(bb.args) {
				return db.False
			}
			for i := range ab.args {
				if ab.args[i].w != bb.args[i].w {
					return db.False
				}
			}
			r := db.True
			for i := range ab.args {
				r = db.And(r, db.Eq(ab.args[i], bb.args[i]))
				if r.isFalse() {
					return r
				}
			}
			return r
		}
		if (ab.name == "xdh" && bb.name == "xdhx") || (ab.name == "xdhx" && bb.name == "xdh") {
			if ab.name == "xdhx" {
				ab, bb = bb, ab
			}
			m1 := c.mont(c.scalarOf(ab.args[1]))
			m0 := c.mont(c.scalarOf(ab.args[0]))
			return db.Or(db.And(db.Eq(bb.args[0], ab.args[0]), db.Eq(bb.args[1], m1)),
				db.And(db.Eq(bb.args[0], ab.args[1]), db.Eq(bb.args[1], m0)))
		}
		return db.False
	}
	if (ab.name == "aesenc" || ab.name == "aesdec") && ab.name == bb.name && aw == 128 && ab.args[0] == bb.args[0] {
		return db.Eq(ab.args[1], bb.args[1])
	}
	return nil
}

// ---- concrete evaluation ----

func fixBytes(v *big.Int, w int) []byte {
	b := make([]byte, w/8)
	v.FillBytes(b)
	return b
}

func modL(v *big.Int) *edwards25519.Scalar {
	m := new(big.Int).Mod(v, groupL)
	s, err := edwards25519.NewScalar().SetCanonicalBytes(leBytes(m, 32))
	if err != nil {
		panic(err)
	}
	return s
}

// evalApp computes an application from concrete argument values; nil if not computable.
func (c *Crypto) evalApp(t *Term, vals []*big.Int) *big.Int {
	B := func(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
	argb := func(i int) []byte {
		if i >= len(vals) {
			return nil
		}
		return fixBytes(vals[i], t.args[i].w)
	}
	switch t.name {
	case "rem":
		return new(big.Int).Mod(vals[0], vals[1])
	case "sha256":
		h := sha256.Sum256(argb(0))
		return B(h[:])
	case "sha512":
		h := sha512.Sum512(argb(0))
		return B(h[:])
	case "hmac256":
		h := hmac.New(sha256.New, argb(0))
		h.Write(argb(1))
		return B(h.Sum(nil))
	case "hmac512":
		h := hmac.New(sha512.New, argb(0))
		h.Write(argb(1))
		return B(h.Sum(nil))
	case "aesenc", "aesdec":
		blk, err := aes.NewCipher(argb(0))
		if err != nil {
			return nil
		}
		out := make([]byte, 16)
		if t.name == "aesenc" {
			blk.Encrypt(out, argb(1))
		} else {
			blk.Decrypt(out, argb(1))
		}
		return B(out)
	case "mont":
		p := new(edwards25519.Point).ScalarBaseMult(modL(vals[0]))
		return leInt(p.BytesMontgomery())
	case "edy", "edsign":
		p := new(edwards25519.Point).ScalarBaseMult(modL(vals[0]))
		v := leInt(p.Bytes())
		if t.name == "edsign" {
			return new(big.Int).Rsh(v, 255)
		}
		return new(big.Int).And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(1)))
	case "sc":
		sum := new(big.Int)
		i := 0
		for i < len(vals) {
			n := int(vals[i+1].Int64())
			m := new(big.Int).Set(vals[i])
			for k := 0; k < n; k++ {
				m.Mul(m, vals[i+2+k])
				m.Mod(m, groupL)
			}
			sum.Add(sum, m)
			i += 2 + n
		}
		return sum.Mod(sum, groupL)
	case "fe":
		return evalFe(t, vals)
	case "xdh":
		u := c.evalApp(&Term{op: OpApp, w: 256, name: "mont"}, []*big.Int{vals[1]})
		return x25519(vals[0], u)
	case "xdhx":
		return x25519(vals[0], vals[1])
	case "edvrf": // pub, sig, msg...
		var msg []byte
		if len(vals) > 2 {
			msg = argb(2)
		}
		if ed25519.Verify(argb(0), msg, argb(1)) {
			return big.NewInt(1)
		}
		return big.NewInt(0)
	}
	return nil
}

func x25519(k, u *big.Int) *big.Int {
	priv, err := ecdh.X25519().NewPrivateKey(leBytes(k, 32))
	if err != nil {
		return nil
	}
	m := new(big.Int).And(u, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(1)))
	pub, err := ecdh.X25519().NewPublicKey(leBytes(m, 32))
	if err != nil {
		return nil
	}
	s, err := priv.ECDH(pub)
	if err != nil {
		return big.NewInt(0)
	}
	return leInt(s)
}

// ---- field elements mod p: univariate rational functions ----

type upoly []*big.Int // coefficients, index = degree, trimmed

func utrim(a upoly) upoly {
	for len(a) > 0 && a[len(a)-1].Sign() == 0 {
		a = a[:len(a)-1]
	}
	return a
}
func uadd(a, b upoly) upoly {
	n := max(len(a), len(b))
	r := make(upoly, n)
	for i := range r {
		r[i] = new(big.Int)
		if i < len(a) {
			r[i].Add(r[i], a[i])
		}
		if i < len(b) {
			r[i].Add(r[i], b[i])
		}
		r[i].Mod(r[i], fieldP)
	}
	return utrim(r)
}
func uscale(a upoly, k *big.Int) upoly {
	r := make(upoly, len(a))
	for i := range a {
		r[i] = new(big.Int).Mod(new(big.Int).Mul(a[i], k), fieldP)
	}
	return utrim(r)
}
func umul(a, b upoly) upoly {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	r := make(upoly, len(a)+len(b)-1)
	for i := range r {
		r[i] = new(big.Int)
	}
	for i := range a {
		for j := range b {
			r[i+j].Add(r[i+j], new(big.Int).Mul(a[i], b[j]))
		}
	}
	for i := range r {
		r[i].Mod(r[i], fieldP)
	}
	return utrim(r)
}
func udivmod(a, b upoly) (q, r upoly) {
	r = append(upoly(nil), a...)
	inv := new(big.Int).ModInverse(b[len(b)-1], fieldP)
	if len(a) >= len(b) {
		q = make(upoly, len(a)-len(b)+1)
		for i := range q {
			q[i] = new(big.Int)
		}
	}
	for len(r) >= len(b) {
		k := new(big.Int).Mod(new(big.Int).Mul(r[len(r)-1], inv), fieldP)
		d := len(r) - len(b)
		q[d] = k
		sh := make(upoly, d+len(b))
		for i := range sh {
			sh[i] = new(big.Int)
		}
		for i := range b {
			sh[d+i] = new(big.Int).Neg(new(big.Int).Mul(b[i], k))
		}
		r = uadd(r, sh)
	}
	return utrim(q), r
}
func ugcd(a, b upoly) upoly {
	for len(b) > 0 {
		_, r := udivmod(a, b)
		a, b = b, r
	}
	return a
}

type ratfn struct {
	atom     *Term // nil if constant
	num, den upoly
}

func uconst(v *big.Int) upoly { return utrim(upoly{new(big.Int).Mod(v, fieldP)}) }
func (r ratfn) norm() ratfn {
	if len(r.num) == 0 {
		return ratfn{nil, nil, uconst(big.NewInt(1))}
	}
	g := ugcd(r.num, r.den)
	if len(g) > 0 {
		r.num, _ = udivmod(r.num, g)
		r.den, _ = udivmod(r.den, g)
	}
	inv := new(big.Int).ModInverse(r.den[len(r.den)-1], fieldP)
	r.num, r.den = uscale(r.num, inv), uscale(r.den, inv)
	if len(r.num) <= 1 && len(r.den) <= 1 {
		r.atom = nil
	}
	return r
}

func (c *Crypto) feDecode(t *Term) ratfn {
	one := uconst(big.NewInt(1))
	if t.isConst() {
		return ratfn{nil, uconst(t.bigVal()), one}.norm()
	}
	if t.op == OpApp && t.name == "fe" {
		nn := int(t.args[1].u)
		r := ratfn{atom: t.args[0]}
		for i := 0; i < nn; i++ {
			r.num = append(r.num, t.args[2+i].bigVal())
		}
		for i := 2 + nn; i < len(t.args); i++ {
			r.den = append(r.den, t.args[i].bigVal())
		}
		return r
	}
	m1 := new(big.Int).Sub(fieldP, big.NewInt(1))
	if t.op == OpApp && t.name == "mont" {
		y := c.edY(t.args[0])
		return ratfn{y, upoly{big.NewInt(1), big.NewInt(1)}, upoly{big.NewInt(1), m1}}.norm()
	}
	if t.w == 256 {
		low := c.db.Extract(254, 0, t)
		return ratfn{low, upoly{big.NewInt(0), big.NewInt(1)}, one}
	}
	return ratfn{t, upoly{big.NewInt(0), big.NewInt(1)}, one}
}

func (c *Crypto) feEncode(r ratfn) *Term {
	db := c.db
	r = r.norm()
	if r.atom == nil {
		if len(r.num) == 0 {
			return db.BigConst(256, big.NewInt(0))
		}
		return db.BigConst(256, r.num[0])
	}
	m1 := new(big.Int).Sub(fieldP, big.NewInt(1))
	if len(r.den) == 1 && len(r.num) == 2 && r.num[0].Sign() == 0 && r.num[1].Cmp(big.NewInt(1)) == 0 {
		return db.Concat(db.Const(256-r.atom.w, 0), r.atom)
	}
	if r.atom.op == OpApp && r.atom.name == "edy" && len(r.num) == 2 && len(r.den) == 2 {
		// (1+y)/(1-y) normalised to monic denominator: (-1-y)/(y-1)
		if r.den[1].Cmp(big.NewInt(1)) == 0 && r.den[0].Cmp(m1) == 0 && r.num[0].Cmp(m1) == 0 && r.num[1].Cmp(m1) == 0 {
			return c.mont(r.atom.args[0])
		}
	}
	args := []*Term{r.atom, db.Const(8, uint64(len(r.num)))}
	for _, x := range r.num {
		args = append(args, db.BigConst(256, x))
	}
	for _, x := range r.den {
		args = append(args, db.BigConst(256, x))
	}
	return c.app("fe", 256, args...)
}

func evalFe(t *Term, vals []*big.Int) *big.Int {
	nn := int(vals[1].Int64())
	ev := func(cs []*big.Int) *big.Int {
		s := new(big.Int)
		for i := len(cs) - 1; i >= 0; i-- {
			s.Mul(s, vals[0])
			s.Add(s, cs[i])
			s.Mod(s, fieldP)
		}
		return s
	}
	n, d := ev(vals[2:2+nn]), ev(vals[2+nn:])
	inv := new(big.Int)
	if d.Sign() != 0 {
		inv.ModInverse(d, fieldP)
	}
	return n.Mul(n, inv).Mod(n, fieldP)
}

// feBin combines two field elements; ok=false if they involve two different atoms.
func (c *Crypto) feBin(op byte, a, b *Term) (*Term, bool) {
	x, y := c.feDecode(a), c.feDecode(b)
	if x.atom != nil && y.atom != nil && x.atom != y.atom {
		return nil, false
	}
	at := x.atom
	if at == nil {
		at = y.atom
	}
	m1 := new(big.Int).Sub(fieldP, big.NewInt(1))
	var r ratfn
	switch op {
	case '+':
		r = ratfn{at, uadd(umul(x.num, y.den), umul(y.num, x.den)), umul(x.den, y.den)}
	case '-':
		r = ratfn{at, uadd(umul(x.num, y.den), uscale(umul(y.num, x.den), m1)), umul(x.den, y.den)}
	case '*':
		r = ratfn{at, umul(x.num, y.num), umul(x.den, y.den)}
	}
	return c.feEncode(r), true
}
func (c *Crypto) feInv(a *Term) *Term {
	x := c.feDecode(a)
	if len(x.num) == 0 {
		return c.db.BigConst(256, big.NewInt(0))
	}
	return c.feEncode(ratfn{x.atom, x.den, x.num})
}

// feEq gives the condition that two field elements are equal; ok=false if not expressible.
func (c *Crypto) feEq(a, b *Term) (*Term, bool) {
	d, ok := c.feBin('-', a, b)
	if !ok {
		return nil, false
	}
	r := c.feDecode(d)
	if len(r.num) == 0 {
		return c.db.True, true
	}
	if r.atom == nil {
		return c.db.False, true
	}
	if r.atom.op == OpApp && r.atom.name == "edy" {
		return c.db.False, true // honest points: no accidental algebraic relation
	}
	if len(r.num) == 2 {
		root := new(big.Int).ModInverse(r.num[1], fieldP)
		root.Mul(root, new(big.Int).Sub(fieldP, r.num[0]))
		root.Mod(root, fieldP)
		db := c.db
		cond := db.Eq(r.atom, db.BigConst(r.atom.w, root))
		// non-canonical representative
		alt := new(big.Int).Add(root, fieldP)
		if alt.BitLen() <= r.atom.w {
			cond = db.Or(cond, db.Eq(r.atom, db.BigConst(r.atom.w, alt)))
		}
		return cond, true
	}
	return nil, false
}
