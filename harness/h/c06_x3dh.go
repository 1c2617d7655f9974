package h

import (
	"crypto/ecdh"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/sym"
)

// refDH is X25519 straight from the standard library.
func refDH(priv curve.PrivateKey, pub curve.PublicKey) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv.Bytes())
	must(err)
	p, err := ecdh.X25519().NewPublicKey(pub.KeyBytes())
	must(err)
	s, err := k.ECDH(p)
	must(err)
	return s
}

func ff(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 0xff
	}
	return b
}

// x3dhKeys are all the keys that go into one agreement.
type x3dhKeys struct {
	aID, bID       identity.KeyPair
	base, spk, opk *curve.KeyPair
}

func newX3DH(tag string, one bool) *x3dhKeys {
	k := &x3dhKeys{base: keyPair(tag + "base"), spk: keyPair(tag + "spk")}
	var err error
	k.aID, err = identity.GenerateKeyPair(sym.Reader(tag + "aid"))
	must(err)
	k.bID, err = identity.GenerateKeyPair(sym.Reader(tag + "bid"))
	must(err)
	if one {
		k.opk = keyPair(tag + "opk")
	}
	return k
}

func (k *x3dhKeys) alice(r string) *session.State {
	p := &ratchet.AliceParameters{
		OurIdentityKeyPair: k.aID,
		OurBaseKeyPair:     k.base,
		TheirIdentityKey:   k.bID.IdentityKey(),
		TheirSignedPreKey:  k.spk.PublicKey(),
		TheirRatchetKey:    k.spk.PublicKey(),
	}
	if k.opk != nil {
		p.TheirOneTimePreKey = k.opk.PublicKey()
	}
	rec, err := session.InitializeAliceSessionRecord(sym.Reader(r), p)
	sym.Assert("C06", err == nil, "a session from genuine keys was refused")
	must(err)
	return rec.State()
}

func (k *x3dhKeys) bob() *session.State {
	rec, err := session.InitializeBobSessionRecord(&ratchet.BobParameters{
		OurIdentityKeyPair:   k.bID,
		OurSignedPreKeyPair:  k.spk,
		OurOneTimePreKeyPair: k.opk,
		OurRatchetKeyPair:    k.spk,
		TheirIdentityKey:     k.aID.IdentityKey(),
		TheirBaseKey:         k.base.PublicKey(),
	})
	sym.Assert("C06", err == nil, "a session from genuine keys was refused")
	must(err)
	return rec.State()
}

func (k *x3dhKeys) secret() []byte {
	s := concat(ff(32), refDH(k.aID.PrivateKey(), k.spk.PublicKey()), refDH(k.base.PrivateKey(), k.bID.PublicKey()), refDH(k.base.PrivateKey(), k.spk.PublicKey()))
	if k.opk != nil {
		s = append(s, refDH(k.base.PrivateKey(), k.opk.PublicKey())...)
	}
	return s
}

func pairOf(id identity.KeyPair) *curve.KeyPair {
	kp, err := curve.NewKeyPair(id.PrivateKey().Bytes(), id.PublicKey().Bytes())
	must(err)
	return kp
}

func stRoot(s *session.State) []byte {
	r, err := s.RootKey()
	must(err)
	return r.Bytes()
}
func stSend(s *session.State) []byte {
	c, err := s.SenderChainKey()
	must(err)
	sym.Assert("C06", c.Index() == 0, "a fresh chain starts at zero")
	sym.Assert("C26", c.Index() == 0, "a fresh chain starts at zero")
	return c.Key()
}
func stRecv(s *session.State, pub curve.PublicKey) []byte {
	c, ok, err := s.ReceiverChainKey(pub)
	must(err)
	sym.Assert("C06", ok && c.Index() == 0, "the receiving chain exists from the start")
	sym.Assume(ok)
	return c.Key()
}

// H_C06_formula: both ends compute the X3DH secrets as specified.
func H_C06_formula() { x3dhFormula(sym.Choose("onetime", 2) == 1) }

// H_C26_x3dh is the same check.
func H_C26_x3dh() { x3dhFormula(sym.Choose("onetime", 2) == 1) }

func x3dhFormula(one bool) {
	k := newX3DH("", one)
	// keys used in two roles are no exception
	switch sym.Choose("same", 8) {
	case 1:
		if one {
			k.opk = k.spk
		}
	case 2:
		k.bID = k.aID
	case 3:
		k.base = k.spk
	case 4:
		if one {
			k.opk = k.base
		}
	case 5:
		k.base = pairOf(k.aID)
	case 6:
		k.spk = pairOf(k.bID)
	case 7:
		if one {
			k.opk = pairOf(k.bID)
		}
	}
	d := refHKDF(k.secret(), nil, "WhisperText", 64)
	root, chain := d[:32], d[32:]
	a, b := k.alice("ratchet"), k.bob()
	for _, p := range []string{"C06", "C26"} {
		sym.Assert(p, sym.Equal(stRoot(b), root), "responder's root key is the X3DH root key")
		sym.Assert(p, sym.Equal(stSend(b), chain), "responder's first chain is the X3DH chain key")
		sym.Assert(p, sym.Equal(stRecv(a, k.spk.PublicKey()), chain), "initiator receives on the X3DH chain key")
		priv, err := a.SenderRatchetPrivateKey()
		must(err)
		pub, err := a.SenderRatchetKey()
		must(err)
		sym.Assert(p, sym.Equal(priv.PublicKey().Bytes(), pub.Bytes()), "the initiator's ratchet key pair fits together")
		d2 := refHKDF(refDH(priv, k.spk.PublicKey()), root, "WhisperRatchet", 64)
		sym.Assert(p, sym.Equal(stRoot(a), d2[:32]), "initiator's root key is one ratchet step further")
		sym.Assert(p, sym.Equal(stSend(a), d2[32:]), "initiator's sending chain comes from that step")
		// the responder gets there too
		r, err := b.RootKey()
		must(err)
		nr, nc, err := r.CreateChain(k.spk.PrivateKey(), pub)
		must(err)
		sym.Assert(p, sym.And(sym.Equal(nr.Bytes(), d2[:32]), sym.Equal(nc.Key(), d2[32:])), "the responder derives the initiator's sending chain")
		for _, s := range []*session.State{a, b} {
			l, err := s.LocalIdentityKey()
			must(err)
			rk, ok, err := s.RemoteIdentityKey()
			must(err)
			want := []identity.KeyPair{k.aID, k.bID}
			if s == b {
				want[0], want[1] = want[1], want[0]
			}
			sym.Assert(p, sym.And(ok, sym.Equal(l.Bytes(), want[0].IdentityKey().Bytes()), sym.Equal(rk.Bytes(), want[1].IdentityKey().Bytes())), "the session names both identities")
			sym.Assert(p, s.Version() == 3, "sessions are version 3")
		}
	}
}

// H_C06_mismatch: the ends agree only if every single key is the same on both.
func H_C06_mismatch() {
	one := sym.Choose("onetime", 2) == 1
	k := newX3DH("", one)
	o := newX3DH("o.", true)
	b := *k
	n := 4
	if one {
		n = 6
	}
	switch sym.Choose("which", n) {
	case 0:
		b.aID = o.aID
	case 1:
		b.bID = o.bID
	case 2:
		b.spk = o.spk
	case 3:
		b.base = o.base
	case 4:
		b.opk = o.opk
	case 5:
		b.opk = nil
	}
	sa, sb := k.alice("ratchet"), b.bob()
	ca, cb := stRecv(sa, k.spk.PublicKey()), stSend(sb)
	sym.Assert("C06", sym.Not(sym.Equal(ca, cb)), "ends with different keys agree on a chain key")
	pub, err := sa.SenderRatchetKey()
	must(err)
	r, err := sb.RootKey()
	must(err)
	nr, nc, err := r.CreateChain(b.spk.PrivateKey(), pub)
	must(err)
	sym.Assert("C06", sym.Not(sym.Equal(nr.Bytes(), stRoot(sa))), "ends with different keys agree on a root key")
	sym.Assert("C06", sym.Not(sym.Equal(nc.Key(), stSend(sa))), "ends with different keys agree on a sending chain")
}

// H_C06_adversary: an attacker who replaces keys of one end by their own never makes the ends agree on
// secrets they would share with honest keys.
func H_C06_adversary() {
	k := newX3DH("", true)
	priv, err := curve.NewPrivateKey(sym.Adversary("a.priv", 32))
	must(err)
	b := *k
	which := sym.Choose("which", 3)
	pub := priv.PublicKey()
	id, err := identity.NewKey(pub.Bytes())
	must(err)
	switch which {
	case 0:
		b.aID = identity.NewKeyPair(priv, id)
		if pub.Equal(k.aID.PublicKey()) {
			return
		}
	case 1:
		kp, err := curve.NewKeyPair(priv.Bytes(), pub.Bytes())
		must(err)
		b.base = kp
		if pub.Equal(k.base.PublicKey()) {
			return
		}
	case 2:
		b.bID = identity.NewKeyPair(priv, id)
		if pub.Equal(k.bID.PublicKey()) {
			return
		}
	}
	sa, sb := k.alice("ratchet"), b.bob()
	sym.Assert("C06", sym.Not(sym.Equal(stRecv(sa, k.spk.PublicKey()), stSend(sb))), "ends with different keys agree on a chain key")
	sym.Assert("C06", sym.Not(sym.Equal(stRoot(sa), stRoot(sb))), "ends with different keys agree on a root key")
}

// bobAfterFirst compares what both ends hold after the first message.
func H_C06_bundle() {
	one := sym.Choose("onetime", 2) == 1
	alice, bob, k := pair(one)
	pt := sym.Bytes("pt", 5)
	c := enc(alice, bob, pt)
	w := wire(c)
	pk, ok := w.(*message.PreKey)
	sym.Assert("C06|C26", ok, "the first message is a pre-key message")
	sym.Assume(ok)
	got, err := dec(bob, alice, w)
	sym.Assert("C06|C26", err == nil, "the first message did not decrypt")
	must(err)
	sym.Assert("C06|C26", sym.Equal(got, pt), "decrypted plaintext differs")
	ra, _, err := alice.Store.SessionStore().Load(ctx, bob.Addr)
	must(err)
	rb, okb, err := bob.Store.SessionStore().Load(ctx, alice.Addr)
	must(err)
	sym.Assume(okb)
	ca, err := ra.State().SenderChainKey()
	must(err)
	cb, found, err := rb.State().ReceiverChainKey(inner(w).SenderRatchetKey())
	must(err)
	sym.Assert("C06|C26", found && ca.Index() == cb.Index(), "both ends are at the same position")
	sym.Assert("C06|C26", sym.Equal(ca.Key(), cb.Key()), "both ends hold the same chain key")
	sym.Assert("C06|C26", sym.Equal(ra.State().AliceBaseKey(), rb.State().AliceBaseKey()), "both ends remember the same base key")
	sym.Assert("C06|C26", sym.Equal(pk.BaseKey().Bytes(), ra.State().AliceBaseKey()), "the message names that base key")
	// the base secret is not kept; recompute the responder's side from the keys
	x := &x3dhKeys{aID: alice.ID, bID: bob.ID, spk: k.Signed, opk: k.OneTime}
	d := refHKDF(concat(ff(32), refDH(x.spk.PrivateKey(), x.aID.PublicKey()), refDH(x.bID.PrivateKey(), pk.BaseKey()), refDH(x.spk.PrivateKey(), pk.BaseKey()), func() []byte {
		if x.opk == nil {
			return nil
		}
		return refDH(x.opk.PrivateKey(), pk.BaseKey())
	}()), nil, "WhisperText", 64)
	d2 := refHKDF(refDH(x.spk.PrivateKey(), inner(w).SenderRatchetKey()), d[:32], "WhisperRatchet", 64)
	sym.Assert("C06|C26", sym.Equal(ca.Key(), refHMAC(d2[32:], []byte{2})), "the chain is the X3DH chain, one message further")
	r, err := ra.State().RootKey()
	must(err)
	sym.Assert("C06|C26", sym.Equal(r.Bytes(), d2[:32]), "the root key is the X3DH root key, one step further")
}

// H_C26_bundle: the messages of a session follow from the bundle as specified.
func H_C26_bundle() { H_C06_bundle() }

// H_C06_reject: with one key different at the owner, the message is rejected.
func H_C06_reject() {
	one := sym.Choose("onetime", 2) == 1
	alice, bob, k := pair(one)
	c := enc(alice, bob, sym.Bytes("pt", 2))
	o := keyPair("other")
	n := 1
	if one {
		n = 2
	}
	switch sym.Choose("which", n+1) {
	case 0:
		must(bob.Store.SignedPreKeyStore().Store(ctx, k.SignedID, prekey.NewSigned(k.SignedID, 1, o, k.Sig)))
	case 1:
		id, err := identity.GenerateKeyPair(sym.Reader("id2"))
		must(err)
		b2 := withReg("bob", bob.Addr, id, bob.Reg)
		must(b2.Store.SignedPreKeyStore().Store(ctx, k.SignedID, prekey.NewSigned(k.SignedID, 1, k.Signed, k.Sig)))
		if k.OneTime != nil {
			must(b2.Store.PreKeyStore().Store(ctx, k.OneTimeID, prekey.NewPreKey(k.OneTimeID, k.OneTime)))
		}
		bob = b2
	case 2:
		must(bob.Store.PreKeyStore().Store(ctx, k.OneTimeID, prekey.NewPreKey(k.OneTimeID, o)))
	}
	before := concat(snapshot(bob, alice), keySnapshot(bob, k.OneTimeID))
	got, err := dec(bob, alice, wire(c))
	sym.Assert("C06", err != nil && len(got) == 0, "a message for other keys was accepted")
	sym.Assert("C06", sym.Equal(before, concat(snapshot(bob, alice), keySnapshot(bob, k.OneTimeID))), "a rejected message changed what is stored")
}
