package main

import "math/big"

// Substitution of variables by what the path condition equates them with. An equality between a part of a
// variable and another term lets every later condition be rewritten over the remaining free parts, so that for
// example decrypting bytes known to equal an honest ciphertext reduces to the honest plaintext.

type subPiece struct {
	lo, hi int
	t      *Term
}

func (in *Interp) learn(c *Term) {
	if c.op != OpEq || c.args[0].w == 0 {
		return
	}
	x, y := c.args[0], c.args[1]
	if in.learnPiece(x, y) {
		return
	}
	in.learnPiece(y, x)
}

func (in *Interp) learnPiece(x, y *Term) bool {
	p := in.path
	b, lo, w := pieceOf(x)
	if b.op != OpVar || b.flag&flagFresh != 0 {
		return false
	}
	if yb, _, _ := pieceOf(y); yb.op == OpVar && yb.flag&flagFresh == 0 && yb.h < b.h && yb != b {
		return false // orient by hash so that variable-variable equalities are not tried both ways
	}
	for _, s := range p.sub[b] {
		if s.lo <= lo+w-1 && lo <= s.hi {
			return false
		}
	}
	t := in.subst(y)
	if t.vm&b.vm != 0 && in.db.deepVars([]*Term{t})[b] {
		return false
	}
	if p.sub == nil {
		p.sub = map[*Term][]subPiece{}
	}
	p.sub[b] = append(p.sub[b], subPiece{lo, lo + w - 1, t})
	p.subMask |= b.vm
	p.subCache = map[*Term]*Term{}
	return true
}

func (in *Interp) subst(t *Term) *Term {
	p := in.path
	if p.subMask&t.vm == 0 {
		return t
	}
	if r, ok := p.subCache[t]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case OpConst:
		r = t
	case OpVar:
		r = in.substRange(t, 0, t.w-1)
	case OpExtract:
		if t.args[0].op == OpVar {
			r = in.substRange(t.args[0], int(t.u), int(t.u)+t.w-1)
			break
		}
		fallthrough
	default:
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = in.subst(a)
			if args[i] != a {
				same = false
			}
		}
		if same {
			r = t
		} else {
			r = in.rebuild(t, args)
		}
	}
	p.subCache[t] = r
	return r
}

func (in *Interp) substRange(v *Term, lo, hi int) *Term {
	db := in.db
	ps := in.path.sub[v]
	whole := func(lo, hi int) *Term {
		if v.w == 0 {
			return v
		}
		return db.Extract(hi, lo, v)
	}
	if len(ps) == 0 {
		return whole(lo, hi)
	}
	var parts []*Term
	at := hi
	for at >= lo {
		// piece covering bit at, or the next one below
		next := lo - 1
		found := false
		for _, s := range ps {
			if s.lo <= at && at <= s.hi {
				l := max(s.lo, lo)
				parts = append(parts, db.Extract(at-s.lo, l-s.lo, in.subst(s.t)))
				at = l - 1
				found = true
				break
			}
			if s.hi < at && s.hi > next {
				next = s.hi
			}
		}
		if found {
			continue
		}
		parts = append(parts, db.Extract(at, next+1, v))
		at = next
	}
	return db.Concat(parts...)
}

func (in *Interp) rebuild(t *Term, a []*Term) *Term {
	db, cr := in.db, in.cr
	switch t.op {
	case OpApp:
		switch t.name {
		case "rem":
			return db.Extract(t.w-1, 0, db.URem(a[0], a[1]))
		case "aesenc":
			return cr.aesEnc(a[0], a[1])
		case "aesdec":
			return cr.aesDec(a[0], a[1])
		case "xdhx", "xdh":
			if t.name == "xdhx" {
				return cr.xdhTerm(a[0], a[1])
			}
			if a[0].h > a[1].h {
				a[0], a[1] = a[1], a[0]
			}
			return cr.app("xdh", 256, a...)
		case "sc":
			var p poly
			for i := 0; i < len(a); {
				n := int(a[i+1].u)
				m := poly{{a[i].bigVal(), nil}}
				for _, x := range a[i+2 : i+2+n] {
					m = polyMul(m, cr.polyOf(x))
				}
				p = polyAdd(p, m)
				i += 2 + n
			}
			return cr.polyTerm(p)
		case "fe":
			nn := int(a[1].u)
			at := cr.feDecode(a[0])
			ev := func(cs []*Term) (ratfn, bool) {
				r := cr.feEncode(ratfn{nil, uconst(big.NewInt(0)), uconst(big.NewInt(1))})
				x := cr.feEncode(at)
				for i := len(cs) - 1; i >= 0; i-- {
					m, ok := cr.feBin('*', r, x)
					if !ok {
						return ratfn{}, false
					}
					r, ok = cr.feBin('+', m, cs[i])
					if !ok {
						return ratfn{}, false
					}
				}
				return cr.feDecode(r), true
			}
			n, ok1 := ev(a[2 : 2+nn])
			d, ok2 := ev(a[2+nn:])
			if ok1 && ok2 {
				if r, ok := cr.feBin('*', cr.feEncode(n), cr.feInv(cr.feEncode(d))); ok {
					return r
				}
			}
			return t
		}
		return cr.app(t.name, t.w, a...)
	case OpConcat:
		return db.Concat(a...)
	case OpExtract:
		return db.Extract(int(t.u)+t.w-1, int(t.u), a[0])
	case OpAdd:
		return db.Add(a...)
	case OpMul:
		return db.Mul(a[0], a[1])
	case OpUDiv:
		return db.UDiv(a[0], a[1])
	case OpURem:
		return db.URem(a[0], a[1])
	case OpSDiv:
		return db.SDiv(a[0], a[1])
	case OpSRem:
		return db.SRem(a[0], a[1])
	case OpShl:
		return db.Shl(a[0], a[1])
	case OpLShr:
		return db.LShr(a[0], a[1])
	case OpAShr:
		return db.AShr(a[0], a[1])
	case OpBAnd, OpBOr, OpBXor:
		return db.bitop(t.op, a)
	case OpSExt:
		return db.SExt(a[0], t.w)
	case OpIte:
		return db.Ite(a[0], a[1], a[2])
	case OpNot:
		return db.Not(a[0])
	case OpAnd, OpOr:
		return db.andor(t.op, a)
	case OpEq:
		return db.Eq(a[0], a[1])
	case OpUlt:
		return db.Ult(a[0], a[1])
	case OpSlt:
		return db.Slt(a[0], a[1])
	}
	return t
}
