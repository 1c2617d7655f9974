package h

import (
	"github.com/RTann/libsignal-go/protocol/crypto/aes"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/sym"
)

// buf is a caller's buffer: a slice of a larger array, all of which is the caller's.
type buf struct {
	all, b, was []byte
}

func newBuf(b []byte) *buf {
	all := concat([]byte{0xa1, 0xa2}, b, []byte("the rest of the array which is nobody's business"))
	return &buf{all: all, b: all[2 : 2+len(b)], was: clone(all)}
}

func (b *buf) check(what string) {
	sym.Assert("C28", sym.Equal(b.all, b.was), what+" was modified")
}

func anyBuf(name string, n int) *buf { return newBuf(sym.Bytes(name, n)) }

// H_C28_aes: encryption and decryption leave their arguments alone.
func H_C28_aes() {
	key, iv := anyBuf("key", 32), anyBuf("iv", 16)
	n := sym.Choose("n", tier(34, 50))
	pt := anyBuf("pt", n)
	ct, err := aes.CBCEncrypt(key.b, iv.b, pt.b)
	must(err)
	pt.check("the plaintext")
	key.check("the key")
	iv.check("the IV")
	was := clone(ct)
	scribble(pt.b)
	sym.Assert("C28", sym.Equal(ct, was), "the ciphertext shares memory with the plaintext")
	c := newBuf(ct)
	got, err := aes.CBCDecrypt(key.b, iv.b, c.b)
	must(err)
	c.check("the ciphertext")
	key.check("the key")
	iv.check("the IV")
	for i := range got {
		got[i] ^= 0xff
	}
	c.check("the ciphertext, by changing the plaintext,")
	scribble(ct)
	again, err := aes.CBCDecrypt(key.b, iv.b, c.b)
	must(err)
	sym.Assert("C28", len(again) == n, "the same ciphertext decrypts differently later")
	for i := range again {
		again[i] ^= got[i]
		sym.Assert("C28", again[i] == 0xff, "the same ciphertext decrypts differently later")
	}
}

// H_C28_refused: failing calls leave their arguments alone too.
func H_C28_refused() {
	key, iv := anyBuf("key", []int{32, 31, 0}[sym.Choose("kl", 3)]), anyBuf("iv", []int{16, 15, 0}[sym.Choose("il", 3)])
	d := anyBuf("d", []int{0, 1, 16, 31, 32}[sym.Choose("n", 5)])
	if sym.Choose("op", 2) == 0 {
		_, _ = aes.CBCEncrypt(key.b, iv.b, d.b)
	} else {
		_, _ = aes.CBCDecrypt(key.b, iv.b, d.b)
	}
	key.check("the key")
	iv.check("the IV")
	d.check("the data")
}

// H_C28_session: plaintexts and messages of a conversation stay the caller's.
func H_C28_session() {
	a, b, _ := pair(sym.Choose("onetime", 2) == 1)
	ps := []*Party{a, b}
	n := []int{3, 0, 16, 31}[sym.Choose("len", 4)]
	for i := 0; i < tier(4, 6); i++ {
		p, q := ps[i%2], ps[1-i%2]
		pt := anyBuf("pt", n)
		want := clone(pt.b)
		c, err := p.to(q).EncryptMessage(ctx, pt.b)
		must(err)
		pt.check("the plaintext")
		before := snapshot(p, q)
		raw := newBuf(c.Bytes())
		scribble(c.Bytes())
		scribble(inner(c).Message())
		scribble(pt.b)
		sym.Assert("C28", sym.Equal(before, snapshot(p, q)), "a session shares memory with a message made in it")
		m, err := parse(c.Type(), raw.b)
		must(err)
		raw.check("the message")
		got, err := dec(q, p, m)
		sym.Assert("C28", err == nil, "a session shares memory with a message made in it")
		must(err)
		raw.check("the message")
		sym.Assert("C28", sym.Equal(got, want), "a message shares memory with its plaintext")
		mine := concat(snapshot(q, p), keySnapshot(q, 31))
		scribble(raw.b)
		scribble(got)
		if pk, ok := m.(*message.PreKey); ok {
			scribble(pk.BaseKey().Bytes())
			scribble(pk.BaseKey().KeyBytes())
			scribble(pk.IdentityKey().Bytes())
			scribble(pk.Message().Bytes())
		}
		scribble(inner(m).SenderRatchetKey().Bytes())
		scribble(inner(m).SenderRatchetKey().KeyBytes())
		scribble(inner(m).Message())
		sym.Assert("C28", sym.Equal(mine, concat(snapshot(q, p), keySnapshot(q, 31))), "a session shares memory with a message read in it")
	}
	// and everything goes on
	for i := 0; i < 2; i++ {
		_, err := dec(ps[1-i], ps[i], wire(enc(ps[i], ps[1-i], []byte("x"))))
		sym.Assert("C28", err == nil, "a session shares memory with callers' buffers")
	}
}

// H_C28_kept: keys kept for late messages are independent of buffers as well.
func H_C28_kept() {
	a, b, _ := pair(true)
	c1, c2 := enc(a, b, sym.Bytes("p1", 1)), enc(a, b, sym.Bytes("p2", 1))
	r1, r2 := clone(c1.Bytes()), clone(c2.Bytes())
	m, err := parse(c2.Type(), r2)
	must(err)
	_, err = dec(b, a, m)
	must(err)
	before := snapshot(b, a)
	scribble(r2)
	scribble(c1.Bytes())
	scribble(c2.Bytes())
	sym.Assert("C28", sym.Equal(before, snapshot(b, a)), "a session shares memory with a message read in it")
	m, err = parse(c1.Type(), r1)
	must(err)
	_, err = dec(b, a, m)
	sym.Assert("C28", err == nil, "a late message did not decrypt after other buffers were reused")
}

// H_C28_failed: refused messages are left alone and do not become part of a session.
func H_C28_failed() {
	a, b, _ := pair(true)
	c := enc(a, b, sym.Bytes("pt", 1))
	if sym.Choose("established", 2) == 1 {
		_, err := dec(b, a, wire(c))
		must(err)
		c = enc(b, a, []byte("x"))
		_, err = dec(a, b, wire(c))
		must(err)
		c = enc(a, b, []byte("y"))
	}
	before := snapshot(b, a)
	raw := clone(c.Bytes())
	raw[len(raw)-1] ^= 1
	bad := newBuf(raw)
	m, err := parse(c.Type(), bad.b)
	if err == nil {
		_, err = dec(b, a, m)
	}
	sym.Assume(err != nil)
	bad.check("a refused message")
	scribble(bad.b)
	sym.Assert("C28", sym.Equal(before, snapshot(b, a)), "a refused message changed a session")
	_, err = dec(b, a, wire(c))
	sym.Assert("C28", err == nil, "a message did not decrypt after another was refused")
}

// H_C28_keys: keys share no memory with the bytes they come from or give out.
func H_C28_keys() {
	pub := anyKey("pub").Bytes()
	b := newBuf(concat(pub, sym.Bytes("more", sym.Choose("trailing", 3))))
	k, err := curve.NewPublicKey(b.b)
	must(err)
	id, err := identity.NewKey(b.b)
	must(err)
	b.check("the key")
	scribble(b.b)
	for i := 0; i < 2; i++ {
		sym.Assert("C28", sym.And(sym.Equal(k.Bytes(), pub), sym.Equal(k.KeyBytes(), pub[1:])), "a public key shares memory with other bytes")
		sym.Assert("C28", sym.And(sym.Equal(id.Bytes(), pub), sym.Equal(id.PublicKey().KeyBytes(), pub[1:])), "an identity shares memory with other bytes")
		scribble(k.Bytes())
		scribble(k.KeyBytes())
		scribble(id.Bytes())
		scribble(id.PublicKey().Bytes())
	}
}

// H_C28_private: the same for private keys, their public halves, and what they compute.
func H_C28_private() {
	raw := sym.Bytes("k", 32)
	b := newBuf(raw)
	k, err := curve.NewPrivateKey(b.b)
	must(err)
	b.check("the private key")
	w, err := curve25519.NewPrivateKey(b.b)
	must(err)
	b.check("the private key")
	bytes, pub := clone(k.Bytes()), clone(k.PublicKey().Bytes())
	o := keyPair("o")
	secret, err := k.Agreement(o.PublicKey())
	must(err)
	secret = clone(secret)
	scribble(b.b)
	for i := 0; i < 2; i++ {
		sym.Assert("C28", sym.And(sym.Equal(k.Bytes(), bytes), sym.Equal(k.PublicKey().Bytes(), pub)), "a private key shares memory with other bytes")
		sym.Assert("C28", sym.And(sym.Equal(w.Bytes(), bytes), sym.Equal(w.PublicKeyBytes(), pub[1:])), "a private key shares memory with other bytes")
		s, err := k.Agreement(o.PublicKey())
		must(err)
		sym.Assert("C28", sym.Equal(s, secret), "a private key shares memory with other bytes")
		op := newBuf(o.PublicKey().KeyBytes())
		s, err = w.Agreement(op.b)
		must(err)
		op.check("the peer's key")
		sym.Assert("C28", sym.Equal(s, secret), "a private key shares memory with other bytes")
		sig, err := k.Sign(sym.Reader("z"), []byte("m"))
		must(err)
		p, err := curve.NewPublicKey(pub)
		must(err)
		ok, err := p.VerifySignature(sig, []byte("m"))
		sym.Assert("C28", sym.And(err == nil, ok), "a private key shares memory with other bytes")
		scribble(s)
		scribble(k.Bytes())
		scribble(w.Bytes())
		scribble(w.PublicKeyBytes())
		scribble(k.PublicKey().Bytes())
		scribble(k.PublicKey().KeyBytes())
	}
}

// H_C28_pair: key pairs copy both halves.
func H_C28_pair() {
	k := keyPair("k")
	priv, pub := clone(k.PrivateKey().Bytes()), clone(k.PublicKey().Bytes())
	b, c := newBuf(priv), newBuf(pub)
	q, err := curve.NewKeyPair(b.b, c.b)
	must(err)
	pk, sk := prekey.NewPreKey(1, q), prekey.NewSigned(2, 3, q, clone(pub))
	p := newParty("p")
	must(p.Store.PreKeyStore().Store(ctx, 1, pk))
	must(p.Store.SignedPreKeyStore().Store(ctx, 2, sk))
	b.check("the private key")
	c.check("the public key")
	scribble(b.b)
	scribble(c.b)
	for i := 0; i < 2; i++ {
		x, ok, err := p.Store.PreKeyStore().Load(ctx, 1)
		must(err)
		y, ok2, err := p.Store.SignedPreKeyStore().Load(ctx, 2)
		must(err)
		sym.Assert("C28", ok && ok2, "a stored key is missing")
		sym.Assume(ok && ok2)
		kx, err := x.KeyPair()
		must(err)
		ky, err := y.KeyPair()
		must(err)
		for _, r := range []*curve.KeyPair{q, kx, ky} {
			sym.Assert("C28", sym.And(sym.Equal(r.PrivateKey().Bytes(), priv), sym.Equal(r.PublicKey().Bytes(), pub)), "a key pair shares memory with other bytes")
			scribble(r.PrivateKey().Bytes())
			scribble(r.PublicKey().Bytes())
			scribble(r.PublicKey().KeyBytes())
		}
	}
}

// H_C28_sign: signing and verifying leave messages and signatures alone.
func H_C28_sign() {
	k := keyPair("k")
	parts := []*buf{anyBuf("m0", sym.Choose("l0", 3)), anyBuf("m1", 2), anyBuf("m2", sym.Choose("l2", 2))}
	args := [][]byte{parts[0].b, parts[1].b, parts[2].b}
	sig, err := k.PrivateKey().Sign(sym.Reader("z"), args...)
	must(err)
	for _, p := range parts {
		p.check("a part of the message")
	}
	for i := range args {
		sym.Assert("C28", len(args[i]) == len(parts[i].b), "the parts of the message were modified")
	}
	s := newBuf(sig)
	scribble(sig)
	bad := clone(s.b)
	bad[40] ^= 1
	t := newBuf(bad)
	_, err = k.PublicKey().VerifySignature(t.b, args...)
	must(err)
	t.check("the signature")
	for i := 0; i < 2; i++ {
		ok, err := k.PublicKey().VerifySignature(s.b, args...)
		sym.Assert("C28", sym.And(err == nil, ok), "a signature does not verify again")
		s.check("the signature")
		u := newBuf(k.PublicKey().KeyBytes())
		ok, err = curve25519.VerifySignature(u.b, s.b, args...)
		sym.Assert("C28", sym.And(err == nil, ok), "a signature does not verify again")
		s.check("the signature")
		u.check("the public key")
	}
	for _, p := range parts {
		p.check("a part of the message")
	}
}

// H_C28_bundle: a bundle stays the caller's.
func H_C28_bundle() {
	a, b := newParty("alice"), newParty("bob")
	k := b.newKeys(22, 31, true)
	bu := b.bundle(k)
	sig := newBuf(k.Sig)
	bu.SignedPreKeySignature = sig.b
	opk, spk, id := clone(bu.PreKeyPublic.Bytes()), clone(bu.SignedPreKeyPublic.Bytes()), clone(bu.IdentityKey.Bytes())
	must(a.to(b).ProcessPreKeyBundle(ctx, a.Rand, bu))
	sig.check("the signature")
	sym.Assert("C28", sym.And(sym.Equal(bu.PreKeyPublic.Bytes(), opk), sym.Equal(bu.SignedPreKeyPublic.Bytes(), spk), sym.Equal(bu.IdentityKey.Bytes(), id),
		*bu.PreKeyID == 31, bu.SignedPreKeyID == 22), "a bundle was modified")
	before := snapshot(a, b)
	scribble(sig.b)
	*bu.PreKeyID = 99
	bu.SignedPreKeyID = 98
	sym.Assert("C28", sym.Equal(before, snapshot(a, b)), "a session shares memory with its bundle")
	c := enc(a, b, sym.Bytes("pt", 1))
	_, err := dec(b, a, wire(c))
	sym.Assert("C28", err == nil, "a session shares memory with its bundle")
}

// H_C28_group: plaintexts, messages and distribution messages of a group stay the caller's.
func H_C28_group() {
	g := newGroup()
	p := g.members[0]
	dm := g.distribution()
	raw := newBuf(dm.Bytes())
	w, err := message.NewSenderKeyDistributionFromBytes(raw.b)
	must(err)
	must(g.sess(p).ProcessSenderKeyDistribution(ctx, w))
	raw.check("the distribution message")
	all := concat(g.snapshot(p), g.snapshot(g.sender))
	scribble(raw.b)
	scribble(dm.Bytes())
	scribble(dm.ChainKey())
	sym.Assert("C28", sym.Equal(all, concat(g.snapshot(p), g.snapshot(g.sender))), "a group chain shares memory with a distribution message")
	n := []int{3, 0, 16}[sym.Choose("len", 3)]
	for i := 0; i < 3; i++ {
		pt := anyBuf("pt", n)
		want := clone(pt.b)
		c, err := g.sess(g.sender).EncryptMessage(ctx, g.sender.Rand, pt.b)
		must(err)
		pt.check("the plaintext")
		mine := g.snapshot(g.sender)
		b := newBuf(c.Bytes())
		scribble(c.Bytes())
		scribble(c.Message())
		scribble(pt.b)
		sym.Assert("C28", sym.Equal(mine, g.snapshot(g.sender)), "a group chain shares memory with a message")
		m, err := message.NewSenderKeyFromBytes(b.b)
		must(err)
		if i == 1 { // refused
			x := clone(b.b)
			x[len(x)-20] ^= 1
			bad := newBuf(x)
			y, err := message.NewSenderKeyFromBytes(bad.b)
			must(err)
			_, err = g.sess(p).DecryptMessage(ctx, y)
			sym.Assume(err != nil)
			bad.check("a refused message")
		}
		got, err := g.sess(p).DecryptMessage(ctx, m)
		sym.Assert("C28", err == nil, "a group message did not decrypt")
		must(err)
		b.check("the message")
		sym.Assert("C28", sym.Equal(got, want), "a message shares memory with its plaintext")
		theirs := g.snapshot(p)
		scribble(b.b)
		scribble(got)
		scribble(m.Message())
		sym.Assert("C28", sym.Equal(theirs, g.snapshot(p)), "a group chain shares memory with a message")
	}
}

// H_C28_distribution is the group check of buffers under this property.
func H_C28_distribution() { H_C16_alias() }

// H_C28_state: session states share no memory with their encodings.
func H_C28_state() { H_C17_state() }

// H_C28_others: the remaining calls which take bytes.
func H_C28_others() {
	switch sym.Choose("call", 4) {
	case 0:
		l, r := anyBuf("l", 2), anyBuf("r", 2)
		_, err := fingerprint.New(1, 2, l.b, anyIdentity("a"), r.b, anyIdentity("b"))
		must(err)
		l.check("an ID")
		r.check("an ID")
	case 1:
		l, r, s := anyBuf("l", 34), anyBuf("r", 34), anyBuf("s", 2)
		f, err := fingerprint.NewScannable(1, l.b, r.b)
		must(err)
		e, err := f.Bytes()
		must(err)
		x := newBuf(e)
		_, _ = f.Compare(x.b)
		_, _ = f.Compare(s.b)
		x.check("a scanned fingerprint")
		s.check("a scanned fingerprint")
		l.check("a fingerprint")
		r.check("a fingerprint")
	case 2:
		d := newBuf([]byte(distIDs[0].String()))
		id, err := distribution.ParseBytes(d.b)
		must(err)
		d.check("an ID")
		scribble(d.b)
		sym.Assert("C28", id == distIDs[0], "an ID shares memory with other bytes")
	case 3:
		h := newHist(true)
		h.deliver(h.send(0))
		rec, ok, err := h.ps[0].Store.SessionStore().Load(ctx, h.ps[1].Addr)
		must(err)
		sym.Assume(ok)
		b := newBuf(rec.State().Bytes())
		_, err = session.NewRecordBytes(b.b)
		must(err)
		b.check("a stored session")
	}
}
