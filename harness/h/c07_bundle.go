package h

import (
	"crypto/sha512"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/harness/sym"
)

// advBundle runs one bundle of arbitrary content through alice.
func advBundle(established bool) {
	alice, bob := newParty("alice"), newParty("bob")
	other := newParty("other")
	k := bob.newKeys(22, 31, true)
	if established {
		must(alice.to(bob).ProcessPreKeyBundle(ctx, alice.Rand, bob.bundle(k)))
	}
	// what an attacker may have seen signed by bob
	alt, err := bob.ID.SignAlternateIdentity(sym.Reader("alt"), other.ID.IdentityKey())
	must(err)
	spk2 := keyPair("spk2")
	sig2, err := bob.ID.PrivateKey().Sign(sym.Reader("sig2"), spk2.PublicKey().Bytes())
	must(err)
	sym.Release(k.Sig, alt, sig2)

	// who alice takes the address for
	pin := 0
	if !established {
		pin = sym.Choose("pin", 3)
		if pin > 0 {
			_, err = alice.Store.IdentityStore().Store(ctx, bob.Addr, []*Party{bob, other}[pin-1].ID.IdentityKey())
			must(err)
		}
	} else {
		pin = 1
	}

	b := bob.bundle(k)
	idc := sym.Choose("id", 3)
	switch idc {
	case 1:
		b.IdentityKey = other.ID.IdentityKey()
	case 2:
		pub, err := curve.NewPublicKey(concat([]byte{5}, sym.Adversary("a.id", 32)))
		if err != nil {
			return
		}
		b.IdentityKey, err = identity.NewKey(pub.Bytes())
		must(err)
	}
	spkc := sym.Choose("spk", 4)
	switch spkc {
	case 1:
		b.SignedPreKeyPublic = spk2.PublicKey()
	case 2:
		b.SignedPreKeyPublic = other.ID.PublicKey()
	case 3:
		pub, err := curve.NewPublicKey(concat([]byte{5}, sym.Adversary("a.spk", 32)))
		if err != nil {
			return
		}
		b.SignedPreKeyPublic = pub
	}
	switch sym.Choose("sig", 6) {
	case 1:
		b.SignedPreKeySignature = sig2
	case 2:
		b.SignedPreKeySignature = alt
	case 3:
		b.SignedPreKeySignature = sym.Adversary("a.sig", 64)
	case 4:
		b.SignedPreKeySignature = k.Sig[:63]
	case 5:
		b.SignedPreKeySignature = concat(k.Sig, []byte{0})
	}
	switch sym.Choose("opk", 3) {
	case 1:
		b.PreKeyID, b.PreKeyPublic = nil, nil
	case 2:
		pub, err := curve.NewPublicKey(concat([]byte{5}, sym.Adversary("a.opk", 32)))
		if err != nil {
			return
		}
		b.PreKeyPublic = pub
	}
	claimsBob := b.IdentityKey.Equal(bob.ID.IdentityKey())
	claimsOther := b.IdentityKey.Equal(other.ID.IdentityKey())
	if claimsBob {
		idc = 0
	} else if claimsOther {
		idc = 1
	}
	genuineKey := sym.Or(b.SignedPreKeyPublic.Equal(k.Signed.PublicKey()), b.SignedPreKeyPublic.Equal(spk2.PublicKey()))

	before := snapshot(alice, bob)
	err = alice.to(bob).ProcessPreKeyBundle(ctx, alice.Rand, b)
	if err != nil {
		sym.Assert("C07", sym.Equal(before, snapshot(alice, bob)), "a refused bundle changed what is stored")
		return
	}
	sym.Cover("accepted")
	valid, verr := b.IdentityKey.PublicKey().VerifySignature(b.SignedPreKeySignature, b.SignedPreKeyPublic.Bytes())
	sym.Assert("C07", verr == nil && valid, "a bundle whose signature does not verify was accepted")
	sym.Assert("C07", len(b.SignedPreKeySignature) == 64, "a signature of another length was accepted")
	sym.Assert("C07", pin == 0 || pin == idc+1, "a bundle of an untrusted identity was accepted")
	sym.Assert("C08", pin == 0 || pin == idc+1, "a bundle of an untrusted identity was accepted")
	if idc == 0 {
		sym.Assert("C07", genuineKey, "accepted a signed pre-key its owner never signed")
	}
	sym.Assert("C07", idc != 1, "accepted a bundle for an identity that never signed one")
	id, ok, err := alice.Store.IdentityStore().Load(ctx, bob.Addr)
	must(err)
	sym.Assert("C07", sym.And(ok, sym.Equal(id.Bytes(), b.IdentityKey.Bytes())), "the identity of an accepted bundle is recorded")
	rec, ok, err := alice.Store.SessionStore().Load(ctx, bob.Addr)
	must(err)
	sym.Assert("C07", ok && rec.State() != nil, "an accepted bundle gives a session")
	rk, ok, err := rec.State().RemoteIdentityKey()
	must(err)
	sym.Assert("C07", sym.And(ok, sym.Equal(rk.Bytes(), b.IdentityKey.Bytes())), "the session is with the bundle's identity")
}

// H_C07_adversary: a bundle of arbitrary content at first contact.
func H_C07_adversary() { advBundle(false) }

// H_C07_established: the same while a session exists.
func H_C07_established() { advBundle(true) }

// H_C07_otherwise: the owner's signature over anything else but the signed pre-key does not do.
func H_C07_otherwise() {
	alice, bob := newParty("alice"), newParty("bob")
	k := bob.newKeys(22, 31, true)
	b := bob.bundle(k)
	pub := k.Signed.PublicKey()
	var m []byte
	switch sym.Choose("signed", 12) {
	case 0:
		m = pub.KeyBytes()
	case 1:
		m = concat(pub.Bytes(), []byte{sym.Byte("tail")})
	case 2:
		m = pub.Bytes()[:32]
	case 3:
		m = concat([]byte{sym.Byte("head")}, pub.Bytes())
	case 4:
		m = concat([]byte{sym.Byte("type")}, pub.KeyBytes())
		sym.Assume(m[0] != 5)
	case 5:
		d := sha512.Sum512(pub.Bytes())
		m = d[:]
	case 6:
		m = concat(pub.Bytes(), k.OneTime.PublicKey().Bytes())
	case 7:
		m = k.OneTime.PublicKey().Bytes()
	case 8:
		m = bob.ID.PublicKey().Bytes()
	case 9:
		m = concat(pub.Bytes(), bob.ID.PublicKey().Bytes())
	case 10:
		m = concat(bob.ID.PublicKey().Bytes(), pub.Bytes())
	case 11:
		m = nil
	}
	var err error
	b.SignedPreKeySignature, err = bob.ID.PrivateKey().Sign(sym.Reader("sign"), m)
	must(err)
	before := snapshot(alice, bob)
	err = alice.to(bob).ProcessPreKeyBundle(ctx, alice.Rand, b)
	sym.Assert("C07", err != nil, "a signature over something else was accepted")
	if err != nil {
		sym.Assert("C07", sym.Equal(before, snapshot(alice, bob)), "a refused bundle changed what is stored")
	}
}

// H_C07_sigbits: every single altered signature or signed key byte is refused.
func H_C07_sigbits() {
	alice, bob := newParty("alice"), newParty("bob")
	k := bob.newKeys(22, 31, true)
	b := bob.bundle(k)
	i := sym.Choose("at", 96)
	d := sym.Byte("delta")
	sym.Assume(d != 0)
	if i < 64 {
		s := clone(k.Sig)
		s[i] ^= d
		b.SignedPreKeySignature = s
	} else {
		raw := clone(k.Signed.PublicKey().Bytes())
		raw[1+i-64] ^= d
		pub, err := curve.NewPublicKey(raw)
		if err != nil {
			return
		}
		b.SignedPreKeyPublic = pub
	}
	before := snapshot(alice, bob)
	err := alice.to(bob).ProcessPreKeyBundle(ctx, alice.Rand, b)
	sym.Assert("C07", err != nil, "an altered bundle was accepted")
	sym.Assert("C07", sym.Equal(before, snapshot(alice, bob)), "a refused bundle changed what is stored")
}

// H_C07_genuine: genuine bundles of trusted identities are accepted, whatever else is stored.
func H_C07_genuine() {
	alice, bob := newParty("alice"), newParty("bob")
	k := bob.newKeys(prekey.ID(sym.Uint32("spkid")), 31, sym.Choose("onetime", 2) == 1)
	if sym.Choose("pinned", 2) == 1 {
		_, err := alice.Store.IdentityStore().Store(ctx, bob.Addr, bob.ID.IdentityKey())
		must(err)
	}
	n := 1 + sym.Choose("times", 2)
	for i := 0; i < n; i++ {
		err := alice.to(bob).ProcessPreKeyBundle(ctx, alice.Rand, bob.bundle(k))
		sym.Assert("C07", err == nil, "a genuine bundle was refused")
		must(err)
	}
	rec, ok, err := alice.Store.SessionStore().Load(ctx, bob.Addr)
	must(err)
	sym.Assert("C07", ok && rec.State() != nil, "an accepted bundle gives a session")
	items, err := rec.State().UnacknowledgedPreKeyMessages()
	must(err)
	sym.Assert("C07", items != nil, "the session knows the bundle's pre-keys")
	sym.Assert("C07", items.SignedPreKeyID() == k.SignedID, "the session knows the bundle's signed pre-key")
	sym.Assert("C07", (items.PreKeyID() != nil) == (k.OneTime != nil), "the session knows the bundle's one-time pre-key")
	id, ok, err := alice.Store.IdentityStore().Load(ctx, bob.Addr)
	must(err)
	sym.Assert("C07", sym.And(ok, sym.Equal(id.Bytes(), bob.ID.IdentityKey().Bytes())), "the identity of an accepted bundle is recorded")
}
