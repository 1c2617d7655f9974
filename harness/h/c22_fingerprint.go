package h

import (
	"crypto/sha512"

	"github.com/RTann/libsignal-go/protocol/fingerprint"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"google.golang.org/protobuf/proto"

	"verif/harness/sym"
)

// refFingerprint is the iterated hash of one party.
func refFingerprint(n int, id []byte, key identity.Key) []byte {
	k := key.Bytes()
	h := sha512.Sum512(concat([]byte{0, 0}, k, id, k))
	for i := 1; i < n; i++ {
		h = sha512.Sum512(concat(h[:], k))
	}
	return h[:]
}

// refDigits is one party's half of the display string.
func refDigits(f []byte) string {
	out := make([]byte, 0, 30)
	for i := 0; i < 6; i++ {
		var v uint64
		for _, b := range f[5*i : 5*i+5] {
			v = v<<8 | uint64(b)
		}
		v %= 100000
		for _, d := range []uint64{10000, 1000, 100, 10, 1} {
			out = append(out, byte('0'+v/d%10))
		}
	}
	return string(out)
}

func display(v, n uint32, lid []byte, lk identity.Key, rid []byte, rk identity.Key) string {
	f, err := fingerprint.New(v, n, lid, lk, rid, rk)
	sym.Assert("C22", err == nil, "a fingerprint of valid inputs was refused")
	must(err)
	return f.String()
}

// H_C22_display: both parties see the digits the specification prescribes, in one order.
func H_C22_display() {
	a, b := anyIdentity("a"), anyIdentity("b")
	ida, idb := sym.Bytes("ida", sym.Choose("la", tier(2, 3))), sym.Bytes("idb", 2*sym.Choose("lb", tier(1, 2)))
	n := []int{2, 5, 3, 17}[sym.Choose("n", tier(2, 4))]
	v := sym.Uint32("v")
	x := display(v, uint32(n), ida, a, idb, b)
	da, db := refDigits(refFingerprint(n, ida, a)), refDigits(refFingerprint(n, idb, b))
	sym.Assert("C22", len(x) == 60, "a display string has 60 digits")
	sym.Assert("C26", sym.Or(x == da+db, x == db+da), "the display string is not the specified digits")
	sym.Assert("C22", sym.Or(x == da+db, x == db+da), "the display string is not the digits of the two parties")
	sym.ObserveString("x", x)
	y := display(v, uint32(n), idb, b, ida, a)
	sym.Assert("C22", x == y, "the two parties see different strings")
}

// H_C22_ids: identifiers of any length count in full.
func H_C22_ids() {
	a := anyIdentity("a")
	lens := []int{0, 1, 15, 16, 31, 32, 33, 36, 63, 64, 65, 100, 255, 256, 300}
	if sym.Choose("both", 2) == 0 {
		// the same on both sides, which settles the order
		id := sym.Bytes("id", lens[sym.Choose("len", len(lens))])
		x := display(1, 2, id, a, id, a)
		d := refDigits(refFingerprint(2, id, a))
		sym.Assert("C22|C26", x == d+d, "the display string is not the digits of the two parties")
		return
	}
	b := anyIdentity("b")
	ls := [][2]int{{33, 1}, {2, 65}, {300, 36}, {0, 0}, {64, 64}}[sym.Choose("lens", tier(2, 5))]
	ida, idb := sym.Bytes("ida", ls[0]), sym.Bytes("idb", ls[1])
	x := display(1, 2, ida, a, idb, b)
	da, db := refDigits(refFingerprint(2, ida, a)), refDigits(refFingerprint(2, idb, b))
	sym.Assert("C22|C26", sym.Or(x == da+db, x == db+da), "the display string is not the digits of the two parties")
}

// H_C26_ids is the same check.
func H_C26_ids() { H_C22_ids() }

// H_C22_digits: every fingerprint gives its digits, lower half first.
func H_C22_digits() {
	l, r := sym.Bytes("l", 30+2*sym.Choose("more", 2)), sym.Bytes("r", 30)
	d, err := fingerprint.NewDisplayable(l, r)
	must(err)
	dl, dr := refDigits(l), refDigits(r)
	s := d.String()
	sym.ObserveString("s", s)
	sym.Assert("C22", s == dl+dr || s == dr+dl, "the display string is not the digits of the two fingerprints")
	o, err := fingerprint.NewDisplayable(r, l)
	must(err)
	sym.Assert("C22", s == o.String(), "the two sides see different strings")
	for i := 0; i < len(s); i++ {
		sym.Assert("C22", sym.And(s[i] >= '0', s[i] <= '9'), "a display string consists of digits")
	}
}

// H_C22_alike: the order of the halves is settled however many leading groups are alike.
func H_C22_alike() {
	l, r := sym.Bytes("l", 30), sym.Bytes("r", 30)
	copy(r, l[:5*(1+sym.Choose("groups", tier(2, 6)))])
	d, err := fingerprint.NewDisplayable(l, r)
	must(err)
	o, err := fingerprint.NewDisplayable(r, l)
	must(err)
	s := d.String()
	sym.Assert("C22", s == o.String(), "the two sides see different strings")
	dl, dr := refDigits(l), refDigits(r)
	sym.Assert("C22", s == dl+dr || s == dr+dl, "the display string is not the digits of the two fingerprints")
}

// H_C22_iterations: exactly 2 to 1000000 rounds are allowed.
func H_C22_iterations() {
	a, b := anyIdentity("a"), anyIdentity("b")
	n := sym.Uint32("n")
	sym.Assume(sym.Or(n < 4, n > 1_000_000))
	if n >= 2 && n < 4 {
		display(1, n, []byte("x"), a, []byte("y"), b)
		return
	}
	f, err := fingerprint.New(1, n, []byte("x"), a, []byte("y"), b)
	sym.Assert("C22", err != nil && f == nil, "an impossible number of rounds was accepted")
}

// H_C22_rounds: no number of rounds from 2 to 1000000 is refused, and all others are.
func H_C22_rounds() {
	key := func(b byte) identity.Key {
		k, err := identity.NewKey(concat([]byte{5}, []byte{b}, make([]byte, 31)))
		must(err)
		return k
	}
	n := sym.Uint32("n")
	done := sym.Within(8000, func() {
		f, err := fingerprint.New(1, n, []byte("x"), key(1), []byte("y"), key(2))
		if err != nil {
			sym.Assert("C22", sym.Or(n < 2, n > 1_000_000), "a possible number of rounds was refused")
			return
		}
		sym.Assert("C22", f != nil && n >= 2 && n <= 1_000_000, "an impossible number of rounds was accepted")
	})
	if !done {
		sym.Assert("C22", sym.And(n >= 2, n <= 1_000_000), "an impossible number of rounds is being worked on")
	}
}

// H_C22_bound: the strings differ whenever the hashed inputs differ, short of a collision of digits.
func H_C22_bound() {
	a, b, c := anyIdentity("a"), anyIdentity("b"), anyIdentity("c")
	id, id2 := sym.Bytes("id", 2), sym.Bytes("id2", sym.Choose("l2", 4))
	x := display(1, 2, id, a, []byte("peer"), b)
	var y string
	other := c
	if sym.Choose("what", 2) == 0 {
		sym.Assume(sym.Not(sym.Equal(a.Bytes(), c.Bytes())))
		id2 = id
	} else {
		other = a
		sym.Assume(sym.Not(sym.Equal(id, id2)))
	}
	y = display(1, 2, id2, other, []byte("peer"), b)
	d, e := refDigits(refFingerprint(2, id, a)), refDigits(refFingerprint(2, id2, other))
	sym.Assert("C22", sym.Implies(sym.Not(d == e), sym.Not(x == y)), "another key or ID gives the same fingerprint")
}

// scanBytes is the scannable encoding as specified.
func scanBytes(version []byte, l, r []byte) []byte {
	return concat(fieldVar(1, version), fieldBytes(2, fieldBytes(1, l)), fieldBytes(3, fieldBytes(1, r)))
}

// H_C22_scan: two codes match exactly when each side's halves are the other's.
func H_C22_scan() {
	l, r := sym.Bytes("l", 32), sym.Bytes("r", 32)
	l2, r2 := sym.Bytes("l2", 32), sym.Bytes("r2", 32)
	v, v2 := sym.Uint32("v"), sym.Uint32("v2")
	s, err := fingerprint.NewScannable(v, concat(l, sym.Bytes("more", 32*sym.Choose("long", 2))), r)
	must(err)
	s2, err := fingerprint.NewScannable(v2, l2, concat(r2, sym.Bytes("more2", 32*sym.Choose("long2", 2))))
	must(err)
	b, err := s2.Bytes()
	sym.Assert("C22", err == nil, "a scannable fingerprint does not encode")
	must(err)
	ok, err := s.Compare(b)
	sym.Assert("C22", sym.Not(v == v2) == (err != nil), "a version mismatch is an error, and nothing else")
	if err != nil {
		sym.Assert("C22", !ok, "fingerprints of different versions compare equal")
		return
	}
	sym.Assert("C22", ok == sym.And(sym.Equal(l, r2), sym.Equal(r, l2)), "a scanned fingerprint compares wrongly")
}

// H_C22_scanned: bytes made elsewhere, with halves of any length or missing.
func H_C22_scanned() {
	l, r := sym.Bytes("l", 32), sym.Bytes("r", 32)
	s, err := fingerprint.NewScannable(2, l, r)
	must(err)
	lens := []int{32, 0, 31, 33, 64}
	x, y := sym.Bytes("x", lens[sym.Choose("lx", 5)]), sym.Bytes("y", lens[sym.Choose("ly", 5)])
	b := scanBytes([]byte{2}, x, y)
	if sym.Choose("drop", 2) == 1 {
		b = [][]byte{
			concat(fieldVar(1, []byte{2}), fieldBytes(2, fieldBytes(1, x))),
			concat(fieldVar(1, []byte{2}), fieldBytes(3, fieldBytes(1, y))),
			concat(fieldVar(1, []byte{2})),
			concat(fieldVar(1, []byte{2}), fieldBytes(2, nil), fieldBytes(3, nil)),
		}[sym.Choose("which", 4)]
		ok, err := s.Compare(b)
		sym.Assert("C22", err != nil || !ok, "an incomplete scanned fingerprint compares equal")
		return
	}
	ok, err := s.Compare(b)
	sym.Assert("C22", err == nil, "a well-formed scanned fingerprint is an error")
	sym.Assert("C22", ok == sym.And(sym.Equal(l, y), sym.Equal(r, x)), "a scanned fingerprint compares wrongly")
	enc, err := s.Bytes()
	must(err)
	sym.Assert("C26", sym.Equal(enc, scanBytes([]byte{2}, l, r)), "a scannable fingerprint has another encoding than specified")
}

// H_C22_malformed: bytes that are no scanned code at all are an error, and never equal.
func H_C22_malformed() {
	l, r := make([]byte, 32), make([]byte, 32)
	for i := range l {
		l[i], r[i] = 0x12, 0x32 // which are fields themselves
	}
	s, err := fingerprint.NewScannable(2, l, r)
	must(err)
	whole := scanBytes([]byte{2}, r, l)
	var b []byte
	switch sym.Choose("what", 4) {
	case 0: // cut off anywhere
		b = whole[:sym.Choose("at", len(whole))]
	case 1: // one byte of its structure replaced
		b = clone(whole)
		at := []int{0, 1, 2, 3, 4, 5, 38, 39, 40, 41}[sym.Choose("at", 10)]
		v := sym.Byte("v")
		sym.Assume(v != b[at])
		b[at] = v
	case 2: // something after it
		b = concat(whole, sym.Bytes("tail", 1+sym.Choose("n", tier(1, 2))))
	case 3: // text
		b = []byte("hello, world")
	}
	ok, err := s.Compare(b)
	sym.Assert("C22", sym.Or(err == nil, !ok), "what is no fingerprint compares equal")
	var parsed v1.CombinedFingerprints
	perr := proto.Unmarshal(b, &parsed)
	if perr != nil {
		sym.Assert("C22", err != nil, "what is no fingerprint is not an error")
		return
	}
	if err == nil {
		sym.Assert("C22", parsed.GetVersion() == 2, "a version mismatch is an error, and nothing else")
		sym.Assert("C22", ok == sym.And(sym.Equal(l, parsed.GetRemoteFingerprint().GetContent()), sym.Equal(r, parsed.GetLocalFingerprint().GetContent())), "a scanned fingerprint compares wrongly")
	}
}

// H_C22_unversioned: a scanned code without a version matches version zero only.
func H_C22_unversioned() {
	l, r := sym.Bytes("l", 32), sym.Bytes("r", 32)
	v := sym.Uint32("v")
	s, err := fingerprint.NewScannable(v, l, r)
	must(err)
	ok, err := s.Compare(concat(fieldBytes(2, fieldBytes(1, r)), fieldBytes(3, fieldBytes(1, l))))
	sym.Assert("C22", (err == nil) == (v == 0), "a version mismatch is an error, and nothing else")
	sym.Assert("C22", ok == (v == 0), "a scanned fingerprint without a version compares wrongly")
}

// H_C26_fingerprint is the display check under the format's property.
func H_C26_fingerprint() { H_C22_display() }

// H_C26_scannable is the encoding check under the format's property.
func H_C26_scannable() { H_C22_scanned() }
