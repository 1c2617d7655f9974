package h

import (
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/identity"

	"verif/harness/sym"
)

// anyPrivate is a private key from any 32 bytes.
func anyPrivate(name string) curve.PrivateKey {
	k, err := curve.NewPrivateKey(sym.Bytes(name, 32))
	sym.Assert("C20", err == nil, "32 bytes are not accepted as a private key")
	must(err)
	return k
}

// H_C20_agreement: both sides compute one secret, also after encoding everything.
func H_C20_agreement() {
	a, b := anyPrivate("a"), anyPrivate("b")
	s1, err := a.Agreement(b.PublicKey())
	sym.Assert("C20", err == nil, "agreement between honest keys failed")
	must(err)
	s2, err := b.Agreement(a.PublicKey())
	sym.Assert("C20", err == nil, "agreement between honest keys failed")
	must(err)
	sym.Assert("C20", sym.Equal(s1, s2), "the two sides computed different secrets")
	sym.Assert("C20", len(s1) == 32, "a secret has 32 bytes")
	sym.ObserveBytes("s", s1)
	a2, err := curve.NewPrivateKey(a.Bytes())
	must(err)
	b2, err := curve.NewPublicKey(b.PublicKey().Bytes())
	sym.Assert("C20", err == nil, "an encoded public key does not decode")
	must(err)
	s3, err := a2.Agreement(b2)
	sym.Assert("C20", err == nil && sym.Equal(s3, s1), "the secret changes when keys are encoded and decoded")
	kp, err := curve.NewKeyPair(a.Bytes(), a.PublicKey().Bytes())
	sym.Assert("C20", err == nil, "an encoded key pair does not decode")
	must(err)
	s4, err := kp.Agreement(b2)
	sym.Assert("C20", err == nil && sym.Equal(s4, s1), "the secret changes when keys are encoded and decoded")
}

// H_C20_private: a private key's stored form is the same key.
func H_C20_private() {
	raw := sym.Bytes("a", 32)
	a, err := curve.NewPrivateKey(raw)
	must(err)
	a2, err := curve.NewPrivateKey(a.Bytes())
	sym.Assert("C20", err == nil, "an encoded private key does not decode")
	must(err)
	sym.Assert("C20", sym.Equal(a2.Bytes(), a.Bytes()), "the private key encoding is not stable")
	sym.Assert("C20", sym.Equal(a2.PublicKey().Bytes(), a.PublicKey().Bytes()), "a decoded private key has another public key")
	sym.ObserveBytes("pub", a.PublicKey().Bytes())
	sym.ObserveBytes("priv", a.Bytes())
	// clamping as RFC 7748 has it
	want := clone(raw)
	want[0] &= 248
	want[31] = want[31]&127 | 64
	w, err := curve25519.NewPrivateKey(want)
	must(err)
	sym.Assert("C20", sym.Equal(w.PublicKeyBytes(), a.PublicKey().KeyBytes()), "a private key denotes another scalar than RFC 7748 says")
	sym.Assert("C26", sym.Equal(w.PublicKeyBytes(), a.PublicKey().KeyBytes()), "a private key denotes another scalar than RFC 7748 says")
	sym.Assert("C20", sym.Equal(a.Bytes(), want), "a private key encodes to another scalar")
	// the same key from randomness
	g, err := curve.GenerateKeyPair(fixedRand(raw))
	must(err)
	sym.Assert("C20", sym.And(sym.Equal(g.PrivateKey().Bytes(), a.Bytes()), sym.Equal(g.PublicKey().Bytes(), a.PublicKey().Bytes())), "a generated key is not the one its randomness denotes")
}

type fixedRand []byte

func (f fixedRand) Read(p []byte) (int, error) { return copy(p, f), nil }

// H_C20_public: which encodings are public keys.
func H_C20_public() {
	n := sym.Choose("len", 37)
	b := sym.Bytes("b", n)
	in := clone(b)
	k, err := curve.NewPublicKey(b)
	good := n >= 33 && b[0] == 5 && b[32] < 128
	sym.Assert("C20", (err == nil) == good, "accepted or refused an encoding wrongly")
	if err != nil {
		return
	}
	sym.Assert("C20", sym.And(sym.Equal(k.Bytes(), in[:33]), sym.Equal(k.KeyBytes(), in[1:33])), "a public key has another encoding than it came from")
	id, err := identity.NewKey(in)
	sym.Assert("C20", err == nil, "an identity key is refused where the public key is not")
	must(err)
	sym.Assert("C20", sym.Equal(id.Bytes(), in[:33]) && id.PublicKey().Equal(k), "an identity key has another encoding than it came from")
}

// H_C20_privlen: private keys have 32 bytes.
func H_C20_privlen() {
	n := sym.Choose("len", 40)
	_, err := curve.NewPrivateKey(sym.Bytes("b", n))
	sym.Assert("C20", (err == nil) == (n == 32), "a private key of wrong length was accepted, or one of right length refused")
}

// H_C20_equal: equality is equality of all bytes.
func H_C20_equal() {
	a, b := anyKey("a"), anyKey("b")
	sym.Assert("C20", a.Equal(b) == sym.Equal(a.Bytes(), b.Bytes()), "two keys compare wrongly")
	sym.Assert("C20", a.Equal(a), "a key differs from itself")
	ia, err := identity.NewKey(a.Bytes())
	must(err)
	ib, err := identity.NewKey(b.Bytes())
	must(err)
	sym.Assert("C20", ia.Equal(ib) == sym.Equal(a.Bytes(), b.Bytes()), "two identity keys compare wrongly")
}

var lowOrder = [][]byte{
	{},
	{1},
	{0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f, 0xc4, 0x6a, 0xda, 0x09, 0x8d, 0xeb, 0x9c, 0x32, 0xb1, 0xfd, 0x86, 0x62, 0x05, 0x16, 0x5f, 0x49, 0xb8, 0x00},
	{0x5f, 0x9c, 0x95, 0xbc, 0xa3, 0x50, 0x8c, 0x24, 0xb1, 0xd0, 0xb1, 0x55, 0x9c, 0x83, 0xef, 0x5b, 0x04, 0x44, 0x5c, 0xc4, 0x58, 0x1c, 0x8e, 0x86, 0xd8, 0x22, 0x4e, 0xdd, 0xd0, 0x9f, 0x11, 0x57},
	{0xec, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
	{0xed, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
	{0xee, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
}

func lowKey(i int) []byte {
	b := make([]byte, 32)
	copy(b, lowOrder[i])
	return b
}

// H_C20_loworder: agreement with a low-order point is an error.
func H_C20_loworder() {
	a := anyPrivate("a")
	b := lowKey(sym.Choose("which", len(lowOrder)))
	if sym.Choose("top", 2) == 1 {
		b[31] |= 128
	}
	k, err := curve.NewPublicKey(concat([]byte{5}, b))
	if err != nil {
		return
	}
	s, err := a.Agreement(k)
	sym.Assert("C20", err != nil, "agreement with a low-order public key succeeded")
	sym.Assert("C20", len(s) == 0, "agreement with a low-order public key gave a secret")
}

// H_C20_anypoint: agreement with any point gives an error or a secret which is not all zero.
func H_C20_anypoint() {
	a := anyPrivate("a")
	s, err := a.Agreement(anyKey("b"))
	if err == nil {
		sym.Assert("C20", sym.And(len(s) == 32, sym.Not(sym.Equal(s, make([]byte, 32)))), "agreement gave the all-zero secret")
	}
}

// splits cuts b into up to three parts in every way, or into more parts with
// empty ones anywhere between them.
func splits(b []byte) [][]byte {
	switch sym.Choose("split", 5) {
	case 0:
		return [][]byte{b}
	case 1:
		i := sym.Choose("cut", len(b)+1)
		return [][]byte{b[:i], b[i:]}
	case 2:
		i := sym.Choose("cut", len(b)+1)
		j := i + sym.Choose("cut2", len(b)-i+1)
		return [][]byte{b[:i], b[i:j], b[j:]}
	case 3:
		// Single bytes, with a run of empty parts at one place.
		var parts [][]byte
		at := sym.Choose("gap", len(b)+1)
		run := sym.Choose("empty", tier(3, 6))
		for i := 0; i <= len(b); i++ {
			if i == at {
				for n := 0; n < run; n++ {
					parts = append(parts, []byte{})
				}
			}
			if i < len(b) {
				parts = append(parts, b[i:i+1])
			}
		}
		return parts
	}
	if len(b) == 0 {
		return nil
	}
	return [][]byte{nil, b, {}}
}

// H_C21_valid: an honest signature verifies, however the message is cut into parts.
func H_C21_valid() {
	k := anyPrivate("k")
	msg := sym.Bytes("m", sym.Choose("len", 5))
	sig, err := k.Sign(fixedRand(sym.Bytes("z", 64)), splits(msg)...)
	sym.Assert("C21", err == nil, "signing failed")
	must(err)
	sym.Assert("C21", len(sig) == 64, "a signature has 64 bytes")
	sym.ObserveBytes("sig", sig)
	ok, err := k.PublicKey().VerifySignature(sig, msg)
	sym.Assert("C21", sym.And(err == nil, ok), "an honest signature does not verify")
	pub, err := curve.NewPublicKey(k.PublicKey().Bytes())
	must(err)
	ok, err = pub.VerifySignature(sig, splits(msg)...)
	sym.Assert("C21", sym.And(err == nil, ok), "an honest signature does not verify when the message is cut into parts")
	ok, err = curve25519.VerifySignature(pub.KeyBytes(), sig, msg)
	sym.Assert("C21", sym.And(err == nil, ok), "an honest signature does not verify")
}

func honestSig(n int) (*curve.KeyPair, []byte, []byte) {
	k := keyPair("k")
	msg := sym.Bytes("m", n)
	sig, err := k.Sign(sym.Reader("z"), msg)
	must(err)
	ok, err := k.PublicKey().VerifySignature(sig, msg)
	sym.Assert("C21", sym.And(err == nil, ok), "an honest signature does not verify")
	sym.Assume(ok)
	sym.Release(sig, msg)
	return k, msg, sig
}

// H_C21_message: it verifies for no other message.
func H_C21_message() {
	k, msg, sig := honestSig(4)
	other := sym.Adversary("o", sym.Choose("len", 7))
	sym.Assume(sym.Not(sym.Equal(msg, other)))
	ok, err := k.PublicKey().VerifySignature(sig, splits(other)...)
	sym.Assert("C21", sym.Or(err != nil, sym.Not(ok)), "a signature verifies for another message")
}

// H_C21_key: it verifies under no other key.
func H_C21_key() {
	_, msg, sig := honestSig(4)
	o := keyPair("o")
	if sym.Choose("other", 2) == 1 {
		sym.Release(o.PrivateKey().Bytes())
	}
	pub := o.PublicKey()
	ok, err := pub.VerifySignature(sig, msg)
	sym.Assert("C21", sym.Or(err != nil, sym.Not(ok)), "a signature verifies under another key")
}

// H_C21_altered: no other bytes verify, in any region of the signature.
func H_C21_altered() {
	k, msg, sig := honestSig(4)
	regs := [][2]int{{0, 64}, {0, 32}, {32, 64}, {63, 64}, {31, 32}, {0, 1}, {32, 33}}
	r := regs[sym.Choose("region", len(regs))]
	alt := clone(sig)
	x := sym.Adversary("x", r[1]-r[0])
	sym.Assume(sym.Not(sym.Equal(x, sig[r[0]:r[1]])))
	copy(alt[r[0]:], x)
	ok, err := k.PublicKey().VerifySignature(alt, msg)
	sym.Assert("C21", sym.Or(err != nil, sym.Not(ok)), "altered signature bytes verify")
	ok, err = curve25519.VerifySignature(k.PublicKey().KeyBytes(), alt, msg)
	sym.Assert("C21", sym.Or(err != nil, sym.Not(ok)), "altered signature bytes verify")
}

// H_C21_topbits: the three top bits of a signature are part of it.
func H_C21_topbits() {
	k, msg, sig := honestSig(2)
	alt := clone(sig)
	m := byte(1+sym.Choose("bits", 7)) << 5
	alt[63] ^= m
	ok, err := k.PublicKey().VerifySignature(alt, msg)
	sym.Assert("C21", sym.Or(err != nil, sym.Not(ok)), "a signature with altered top bits verifies")
}

// H_C21_length: nothing of another length verifies.
func H_C21_length() {
	k, msg, sig := honestSig(2)
	var alt []byte
	if n := sym.Choose("len", 67); n < 64 {
		alt = sig[:n]
	} else {
		alt = concat(sig, sym.Adversary("x", n-63))
	}
	sym.Assert("C18", !sym.Try(func() {
		ok, err := k.PublicKey().VerifySignature(alt, msg)
		sym.Assert("C21", sym.Or(err != nil, sym.Not(ok)), "a signature of wrong length verifies")
		ok, err = curve25519.VerifySignature(k.PublicKey().KeyBytes(), alt, msg)
		sym.Assert("C21", sym.Or(err != nil, sym.Not(ok)), "a signature of wrong length verifies")
	}), "verifying a signature of wrong length panics")
}

// H_C21_forge: without the private key nothing verifies.
func H_C21_forge() {
	k, _, _ := honestSig(2)
	msg := sym.Adversary("am", 3)
	ok, err := k.PublicKey().VerifySignature(sym.Adversary("as", 64), msg)
	sym.Assert("C21", sym.Or(err != nil, sym.Not(ok)), "a signature made without the key verifies")
}

func ident(name string) identity.KeyPair {
	id, err := identity.GenerateKeyPair(sym.Reader(name))
	must(err)
	return id
}

// H_C21_alternate: alternate-identity signatures hold for one pair in one direction.
func H_C21_alternate() {
	a, b, c := ident("a"), ident("b"), ident("c")
	sig, err := a.SignAlternateIdentity(sym.Reader("z"), b.IdentityKey())
	sym.Assert("C21", err == nil, "signing failed")
	must(err)
	ok, err := a.IdentityKey().VerifyAlternateIdentity(sig, b.IdentityKey())
	sym.Assert("C21", sym.And(err == nil, ok), "an honest alternate-identity signature does not verify")
	want := concat(ff(32), []byte("Signal_PNI_Signature"), b.IdentityKey().Bytes())
	ok, err = a.PublicKey().VerifySignature(sig, want)
	sym.Assert("C21", sym.And(err == nil, ok), "an alternate-identity signature covers other bytes than specified")
	sym.Assert("C26", sym.And(err == nil, ok), "an alternate-identity signature covers other bytes than specified")
	sym.Release(sig)
	switch sym.Choose("wrong", 5) {
	case 0:
		ok, err = b.IdentityKey().VerifyAlternateIdentity(sig, a.IdentityKey())
	case 1:
		ok, err = a.IdentityKey().VerifyAlternateIdentity(sig, c.IdentityKey())
	case 2:
		ok, err = c.IdentityKey().VerifyAlternateIdentity(sig, b.IdentityKey())
	case 3:
		ok, err = a.IdentityKey().VerifyAlternateIdentity(sig, a.IdentityKey())
	case 4: // a plain signature over the other key, or over another prefix, does not count
		s2, e := a.PrivateKey().Sign(sym.Reader("z2"), [][]byte{nil, ff(32), ff(31)}[sym.Choose("prefix", 3)], b.IdentityKey().Bytes())
		must(e)
		ok, err = a.IdentityKey().VerifyAlternateIdentity(s2, b.IdentityKey())
	}
	sym.Assert("C21", sym.Or(err != nil, sym.Not(ok)), "an alternate-identity signature verifies for another pair")
}

// H_C21_random: without randomness there are no signatures and no keys.
func H_C21_random() {
	k := anyPrivate("k")
	_, err := k.Sign(&faultyRand{part: partly()}, []byte("m"))
	sym.Assert("C21", err != nil, "signing without randomness succeeded")
	_, err = curve.GenerateKeyPair(&faultyRand{part: partly()})
	sym.Assert("C20", err != nil, "a key was generated without randomness")
}
