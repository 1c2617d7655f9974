package h

import (
	"crypto/ed25519"
	"crypto/sha512"

	"filippo.io/edwards25519"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/sym"
)

// refSigned tells whether sig is an XEdDSA signature by the private key.
func refSigned(k curve.PrivateKey, msg, sig []byte) bool {
	if len(sig) != 64 {
		return false
	}
	s, err := edwards25519.NewScalar().SetBytesWithClamping(k.Bytes())
	must(err)
	a := new(edwards25519.Point).ScalarBaseMult(s).Bytes()
	t := clone(sig)
	sign := t[63] >> 7
	t[63] &= 0x7f
	return sym.And(sign == a[31]>>7, ed25519.Verify(a, msg, t))
}

func refTag(key []byte, from, to []byte, body []byte) []byte {
	return refHMAC(key, from, to, body)[:8]
}

// refMessageKeys are cipher key, MAC key and IV.
func refMessageKeys(ck []byte) (cipher, mac, iv []byte) {
	k := refHKDF(refHMAC(ck, []byte{1}), nil, "WhisperMessageKeys", 80)
	return k[:32], k[32:64], k[64:]
}

func refNext(ck []byte) []byte { return refHMAC(ck, []byte{2}) }

func refStep(root []byte, priv curve.PrivateKey, pub curve.PublicKey) (nroot, ck []byte) {
	k := refHKDF(refDH(priv, pub), root, "WhisperRatchet", 64)
	return k[:32], k[32:]
}

// H_C26_kdf: the key derivations, for every key.
func H_C26_kdf() {
	n := sym.Uint32("n")
	key := sym.Bytes("key", 32)
	c, err := ratchet.NewChainKey(key, n)
	sym.Assert("C26", err == nil, "a chain key was refused")
	must(err)
	mk, err := c.MessageKeys()
	sym.Assert("C26", err == nil, "message keys cannot be derived")
	must(err)
	ci, ma, iv := refMessageKeys(key)
	sym.Assert("C26", sym.Equal(mk.CipherKey(), ci), "the cipher key is derived differently than specified")
	sym.Assert("C26", sym.Equal(mk.MACKey(), ma), "the MAC key is derived differently than specified")
	sym.Assert("C26", sym.Equal(mk.IV(), iv), "the IV is derived differently than specified")
	sym.Assert("C26", mk.Counter() == n, "message keys carry another index than their chain")
	nx := c.Next()
	sym.Assert("C26", sym.And(sym.Equal(nx.Key(), refNext(key)), nx.Index() == n+1), "the chain key advances differently than specified")
	sym.Assert("C26", sym.And(sym.Equal(c.Key(), key), c.Index() == n), "deriving changed the chain key")

	r, err := ratchet.NewRootKey(sym.Bytes("root", 32))
	must(err)
	a, b := keyPair("a"), keyPair("b")
	nr, nc, err := r.CreateChain(a.PrivateKey(), b.PublicKey())
	sym.Assert("C26", err == nil, "a ratchet step failed")
	must(err)
	wr, wc := refStep(r.Bytes(), a.PrivateKey(), b.PublicKey())
	sym.Assert("C26", sym.Equal(nr.Bytes(), wr), "the root key is derived differently than specified")
	sym.Assert("C26", sym.And(sym.Equal(nc.Key(), wc), nc.Index() == 0), "a new chain is derived differently than specified")

	secret := sym.Bytes("secret", 32*(3+sym.Choose("one", 3)))
	dr, dc, err := ratchet.DeriveKeys(secret)
	sym.Assert("C26", err == nil, "the first keys cannot be derived")
	must(err)
	w := refHKDF(secret, nil, "WhisperText", 64)
	sym.Assert("C26", sym.And(sym.Equal(dr.Bytes(), w[:32]), sym.Equal(dc.Key(), w[32:])), "the first keys are derived differently than specified")
	sym.Assert("C26", dc.Index() == 0, "a fresh chain starts at zero")

	g := senderkey.NewChainKey(key, n)
	gk, err := g.MessageKey()
	sym.Assert("C26", err == nil, "a sender message key cannot be derived")
	must(err)
	x := refHKDF(refHMAC(key, []byte{1}), nil, "WhisperGroup", 48)
	sym.Assert("C26", sym.And(sym.Equal(gk.IV(), x[:16]), sym.Equal(gk.CipherKey(), x[16:])), "a sender message key is derived differently than specified")
	sym.Assert("C26", gk.Iteration() == n, "a sender message key carries another iteration than its chain")
	gn := g.Next()
	sym.Assert("C26", sym.And(sym.Equal(gn.Seed(), refNext(key)), gn.Iteration() == n+1), "a sender chain advances differently than specified")
}

// H_C26_signal: the bytes of a Signal message.
func H_C26_signal() {
	id, id2 := anyIdentity("a"), anyIdentity("b")
	rk := anyKey("r")
	n, pn := sym.Uint32("n"), sym.Uint32("pn")
	ct := sym.Bytes("ct", []int{16, 0, 1, 130}[sym.Choose("ctlen", 4)])
	mk := sym.Bytes("mk", 32)
	m, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: mk, SenderRatchetKey: rk, PreviousCounter: pn, Counter: n,
		Ciphertext: ct, SenderIdentityKey: id, ReceiverIdentityKey: id2})
	sym.Assert("C26", err == nil, "a message could not be made")
	must(err)
	body := signalBytes(0x33, rk.Bytes(), varint(uint64(n)), varint(uint64(pn)), ct, nil)
	sym.Assert("C26", sym.Equal(m.Bytes(), concat(body, refTag(mk, id.Bytes(), id2.Bytes(), body))), "a Signal message has another layout or tag than specified")
	sym.ObserveBytes("m", m.Bytes())
}

// H_C26_prekey: the bytes of a pre-key message.
func H_C26_prekey() {
	id, base := anyIdentity("a"), anyKey("b")
	_, inner := anySignal()
	reg, spk := uint32(5), uint32(6)
	switch sym.Choose("which", 3) {
	case 0:
		reg = sym.Uint32("reg")
	case 1:
		spk = sym.Uint32("spk")
	}
	var opk *prekey.ID
	var opkBytes []byte
	switch sym.Choose("onetime", 3) {
	case 0:
		x := prekey.ID(sym.Uint32("opk"))
		opk, opkBytes = &x, varint(uint64(x))
	case 1:
		x := prekey.ID(0)
		opk, opkBytes = &x, []byte{0}
	}
	m, err := message.NewPreKey(message.PreKeyConfig{Version: 3, RegistrationID: reg, PreKeyID: opk, SignedPreKeyID: prekey.ID(spk), BaseKey: base,
		IdentityKey: id, Message: inner})
	sym.Assert("C26", err == nil, "a message could not be made")
	must(err)
	want := preKeyBytes(0x33, varint(uint64(reg)), opkBytes, varint(uint64(spk)), base.Bytes(), id.Bytes(), inner.Bytes())
	sym.Assert("C26", sym.Equal(m.Bytes(), want), "a pre-key message has another layout than specified")
}

// H_C26_group: the bytes of group messages and of the signature over them.
func H_C26_group() {
	k := keyPair("k")
	n, chain := uint32(3), uint32(4)
	if sym.Choose("which", 2) == 0 {
		n = sym.Uint32("n")
	} else {
		chain = sym.Uint32("chain")
	}
	ct := sym.Bytes("ct", []int{16, 0, 130}[sym.Choose("ctlen", 3)])
	m, err := message.NewSenderKey(sym.Reader("z"), message.SenderKeyConfig{Version: 3, DistID: distIDs[0], ChainID: chain, Iteration: n, Ciphertext: ct,
		SignatureKey: k.PrivateKey()})
	sym.Assert("C26", err == nil, "a message could not be made")
	must(err)
	b := m.Bytes()
	sym.Assume(len(b) > 64)
	body, sig := b[:len(b)-64], b[len(b)-64:]
	msg, d := splitGroup(body)
	sym.Assert("C26", sym.Equal(msg, concat([]byte{0x33}, fieldVar(2, varint(uint64(chain))), fieldVar(3, varint(uint64(n))), fieldBytes(4, ct))), "a group message has another layout than specified")
	_ = d
	sym.Assert("C26", refSigned(k.PrivateKey(), body, sig), "a group message is signed differently than specified")
}

// splitGroup takes the distribution ID out of a group message.
func splitGroup(body []byte) (rest, id []byte) {
	sym.Assume(len(body) > 3 && body[1] == 1<<3|2)
	n := int(body[2])
	sym.Assume(len(body) >= 3+n)
	return concat(body[:1], body[3+n:]), body[3 : 3+n]
}

// H_C26_distribution: the bytes of a distribution message.
func H_C26_distribution() {
	key := anyKey("k")
	n, chain := uint32(3), uint32(4)
	if sym.Choose("which", 2) == 0 {
		n = sym.Uint32("n")
	} else {
		chain = sym.Uint32("chain")
	}
	ck := sym.Bytes("ck", 32)
	m, err := message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: distIDs[0], ChainID: chain, Iteration: n, ChainKey: ck, SigningKey: key})
	sym.Assert("C26", err == nil, "a message could not be made")
	must(err)
	msg, _ := splitGroup(m.Bytes())
	sym.Assert("C26", sym.Equal(msg, concat([]byte{0x33}, fieldVar(2, varint(uint64(chain))), fieldVar(3, varint(uint64(n))), fieldBytes(4, ck), fieldBytes(5, key.Bytes()))),
		"a distribution message has another layout than specified")
}

// view is the visible part of a session, taken before a step to predict what follows it.
type view struct {
	root, ck []byte
	n        uint32
	priv     curve.PrivateKey
	pub      curve.PublicKey
	pn       uint32
}

func viewOf(p, q *Party) (*session.State, view) {
	rec, ok, err := p.Store.SessionStore().Load(ctx, q.Addr)
	must(err)
	sym.Assume(ok && rec.State() != nil)
	s := rec.State()
	ck, err := s.SenderChainKey()
	must(err)
	priv, err := s.SenderRatchetPrivateKey()
	must(err)
	pub, err := s.SenderRatchetKey()
	must(err)
	return s, view{stRoot(s), ck.Key(), ck.Index(), priv, pub, s.PreviousCounter()}
}

// specSend encrypts and compares everything with the specification.
func specSend(p, q *Party, pt []byte) message.Ciphertext {
	_, v := viewOf(p, q)
	c := enc(p, q, pt)
	ci, ma, iv := refMessageKeys(v.ck)
	body := signalBytes(0x33, v.pub.Bytes(), varint(uint64(v.n)), varint(uint64(v.pn)), refCBC(ci, iv, pt), nil)
	want := concat(body, refTag(ma, p.ID.IdentityKey().Bytes(), q.ID.IdentityKey().Bytes(), body))
	sym.Assert("C26", sym.Equal(inner(c).Bytes(), want), "an encrypted message is not what the specification prescribes")
	_, w := viewOf(p, q)
	sym.Assert("C26", sym.And(sym.Equal(w.ck, refNext(v.ck)), w.n == v.n+1), "the sending chain advances differently than specified")
	sym.Assert("C26", sym.And(sym.Equal(w.root, v.root), w.pub.Equal(v.pub), w.pn == v.pn), "sending changed more than the sending chain")
	return c
}

// specReceive decrypts and compares the new state with the specification.
func specReceive(p, q *Party, c message.Ciphertext) {
	s, v := viewOf(p, q)
	their := inner(c).SenderRatchetKey()
	n := inner(c).Counter()
	old, known, err := s.ReceiverChainKey(their)
	must(err)
	_, err = dec(p, q, wire(c))
	sym.Assert("C26", err == nil, "a message did not decrypt")
	must(err)
	s, w := viewOf(p, q)
	now, ok, err := s.ReceiverChainKey(their)
	sym.Assert("C26", ok && err == nil, "no receiving chain for a message received")
	sym.Assume(ok)
	var ck []byte
	at := uint32(0)
	if known {
		ck, at = old.Key(), old.Index()
		sym.Assert("C26", sym.And(sym.Equal(w.root, v.root), sym.Equal(w.ck, v.ck), w.n == v.n, w.pn == v.pn, w.pub.Equal(v.pub)), "a message of a known chain moved the ratchet")
	} else {
		var root, root2, sck []byte
		root, ck = refStep(v.root, v.priv, their)
		root2, sck = refStep(root, w.priv, their)
		sym.Assert("C26", sym.Equal(w.root, root2), "the root key advances differently than specified")
		sym.Assert("C26", sym.And(sym.Equal(w.ck, sck), w.n == 0), "the new sending chain is not the specified one")
		sym.Assert("C26", sym.Not(w.pub.Equal(v.pub)), "the ratchet key was not replaced")
		pn := v.n
		if pn > 0 {
			pn--
		}
		sym.Assert("C26", w.pn == pn, "the previous counter is not the specified one")
	}
	for at <= n {
		ck = refNext(ck)
		at++
	}
	sym.Assert("C26", sym.And(sym.Equal(now.Key(), ck), now.Index() == at), "the receiving chain advances differently than specified")
}

// H_C26_session: every step of a conversation is the specified one.
func H_C26_session() {
	a, b, _ := pair(sym.Choose("onetime", 2) == 1)
	c := specSend(a, b, sym.Bytes("pt", 3))
	c2 := specSend(a, b, sym.Bytes("pt", 16))
	pk, ok := c.(*message.PreKey)
	sym.Assert("C26", ok, "the first message is not a pre-key message")
	sym.Assume(ok)
	_ = pk
	_, err := dec(b, a, wire(c))
	must(err)
	specReceive(b, a, c2)
	ps := []*Party{b, a}
	for i := 0; i < tier(3, 5); i++ {
		k := 1 + sym.Choose("sends", 3)
		var cs []message.Ciphertext
		for j := 0; j < k; j++ {
			cs = append(cs, specSend(ps[0], ps[1], sym.Bytes("pt", j)))
		}
		if sym.Choose("order", 2) == 1 && k > 1 {
			specReceive(ps[1], ps[0], cs[k-1])
			_, err := dec(ps[1], ps[0], wire(cs[0]))
			sym.Assert("C26", err == nil, "a skipped message did not decrypt")
		} else {
			for _, c := range cs {
				specReceive(ps[1], ps[0], c)
			}
		}
		ps[0], ps[1] = ps[1], ps[0]
	}
}

// H_C26_groupstep: every step of a group chain is the specified one.
func H_C26_groupstep() {
	g := newGroup()
	p := g.members[0]
	dm := g.join(p)
	st := g.senderState()
	sym.Assert("C26", sym.And(sym.Equal(dm.ChainKey(), st.SenderChainKey().Seed()), dm.Iteration() == 0), "a distribution message carries another chain than its sender's")
	k, err := st.PrivateSigningKey()
	must(err)
	ck := clone(st.SenderChainKey().Seed())
	for i := 0; i < tier(2, 4); i++ {
		pt := sym.Bytes("pt", []int{3, 16, 0}[sym.Choose("n", 3)])
		c, err := g.sess(g.sender).EncryptMessage(ctx, g.sender.Rand, pt)
		must(err)
		x := refHKDF(refHMAC(ck, []byte{1}), nil, "WhisperGroup", 48)
		sym.Assert("C26", sym.Equal(c.Message(), refCBC(x[16:], x[:16], pt)), "a group message is encrypted differently than specified")
		b := c.Bytes()
		sym.Assert("C26", refSigned(k, b[:len(b)-64], b[len(b)-64:]), "a group message is signed differently than specified")
		ck = refNext(ck)
		m, err := message.NewSenderKeyFromBytes(clone(b))
		must(err)
		_, err = g.sess(p).DecryptMessage(ctx, m)
		sym.Assert("C26", err == nil, "a group message did not decrypt")
		for _, q := range []*Party{g.sender, p} {
			s := stateOf(q, g, st.ChainID())
			sym.Assume(s != nil)
			sym.Assert("C26", sym.And(sym.Equal(s.SenderChainKey().Seed(), ck), s.SenderChainKey().Iteration() == uint32(i+1)), "a sender chain advances differently than specified")
		}
	}
}

// H_C26_signature: signatures are XEdDSA.
func H_C26_signature() {
	k := anyPrivate("k")
	msg := sym.Bytes("m", 2*sym.Choose("len", 3))
	sig, err := k.Sign(sym.Reader("z"), splits(msg)...)
	sym.Assert("C26", err == nil, "signing failed")
	must(err)
	sym.Assert("C26", refSigned(k, msg, sig), "a signature is not the specified one")
}

// refSign is XEdDSA with the given 64 random bytes.
func refSign(k curve.PrivateKey, z, msg []byte) []byte {
	s, err := edwards25519.NewScalar().SetBytesWithClamping(k.Bytes())
	must(err)
	pub := new(edwards25519.Point).ScalarBaseMult(s).Bytes()
	uniform := func(b []byte) *edwards25519.Scalar {
		d := sha512.Sum512(b)
		u, err := edwards25519.NewScalar().SetUniformBytes(d[:])
		must(err)
		return u
	}
	prefix := concat([]byte{0xfe}, ff(31))
	r := uniform(concat(prefix, s.Bytes(), msg, z))
	rb := new(edwards25519.Point).ScalarBaseMult(r).Bytes()
	h := uniform(concat(rb, pub, msg))
	sig := concat(rb, edwards25519.NewScalar().MultiplyAdd(s, h, r).Bytes())
	sig[63] = sig[63]&0x7f | pub[31]&0x80
	return sig
}

// H_C26_nonce: a signature is the one the specification prescribes for its key, message and randomness.
func H_C26_nonce() {
	k := anyPrivate("k")
	z := sym.Bytes("z", 64)
	msg := sym.Bytes("m", 2*sym.Choose("len", 3))
	sig, err := k.Sign(fixedRand(z), splits(msg)...)
	sym.Assert("C26", err == nil, "signing failed")
	must(err)
	sym.Assert("C26", sym.Equal(sig, refSign(k, z, msg)), "a signature is not the specified one for its randomness")
	sym.Assert("C21", sym.Equal(sig, refSign(k, z, msg)), "a signature is not the specified one for its randomness")
}

// H_C21_nonce is the same check under the signatures' property.
func H_C21_nonce() { H_C26_nonce() }

// H_C26_uuid: distribution IDs travel as sixteen bytes.
func H_C26_uuid() {
	key := keyPair("k")
	m, err := message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: distIDs[0], ChainID: 1, ChainKey: make([]byte, 32), SigningKey: key.PublicKey()})
	must(err)
	_, id := splitGroup(m.Bytes())
	sym.Assert("C26", len(id) == 16, "a distribution ID is not encoded as its 16 bytes")
}
