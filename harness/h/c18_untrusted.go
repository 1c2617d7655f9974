package h

import (
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/sym"
)

// safe reports a panic of f.
func safe(what string, f func()) {
	sym.Assert("C18", !sym.Try(f), what+" panics")
}

func tier(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

// H_C18_signal_bytes: any bytes as a Signal message.
func H_C18_signal_bytes() {
	b := sym.Bytes("b", sym.Choose("len", tier(13, 14)))
	safe("parsing a Signal message", func() { message.NewSignalFromBytes(b) })
}

// H_C18_prekey_bytes: any bytes as a pre-key message.
func H_C18_prekey_bytes() {
	b := sym.Bytes("b", sym.Choose("len", tier(5, 6)))
	safe("parsing a pre-key message", func() { message.NewPreKeyFromBytes(b) })
}

// H_C18_group_bytes: any bytes as a group message or distribution, of lengths around the minimum.
func H_C18_group_bytes() {
	n := sym.Choose("len", tier(67, 69))
	b := sym.Bytes("b", n)
	safe("parsing a group message", func() { message.NewSenderKeyFromBytes(b) })
	if n < 65 {
		safe("parsing a distribution message", func() { message.NewSenderKeyDistributionFromBytes(b) })
	}
	safe("parsing a plaintext message", func() { message.NewPlaintextFromBytes(b) })
}

// field is a message field which may be missing, given, of another wire type, cut short or given twice.
func field(name string, num int, val []byte) []byte {
	switch sym.Choose(name+".form", 6) {
	case 0:
		return fieldBytes(num, val)
	case 1:
		return nil
	case 2:
		return fieldVar(num, varint(300))
	case 3:
		return concat([]byte{byte(num<<3 | 2)}, varint(uint64(len(val)+1000)), val)
	case 4:
		return concat(fieldBytes(num, val), fieldBytes(num, val))
	}
	return concat([]byte{byte(num<<3 | 5)}, []byte{1, 2, 3, 4})
}

func keyOfLength(name string) []byte {
	n := []int{0, 1, 32, 33, 34, 64}[sym.Choose(name+".len", 6)]
	return sym.Bytes(name, n)
}

// H_C18_signal_fields: Signal messages with fields of any form.
func H_C18_signal_fields() {
	ver := sym.Byte("ver")
	key := field("key", 1, keyOfLength("key"))
	ct := field("ct", 4, sym.Bytes("ct", []int{0, 1, 16}[sym.Choose("ctlen", 3)]))
	mac := sym.Bytes("mac", []int{0, 1, 7, 8, 9}[sym.Choose("maclen", 5)])
	if len(mac) == 9 {
		mac[0] = 0
	}
	b := concat([]byte{ver}, key, fieldVar(2, varint5(sym.Uint32("ctr"))), ct, mac)
	safe("handling a Signal message", func() {
		c, err := message.NewSignalFromBytes(b)
		if err != nil {
			return
		}
		m := c.(*message.Signal)
		m.VerifyMAC(sym.Bytes("mackey", 32), anyIdentity("s"), anyIdentity("r"))
		m.VerifyMAC(sym.Bytes("mackey", 31), anyIdentity("s"), anyIdentity("r"))
	})
}

// H_C18_prekey_fields: pre-key messages with fields of any form.
func H_C18_prekey_fields() {
	b := []byte{0x33}
	good := concat([]byte{5}, sym.Bytes("key", 31), []byte{0})
	inner := signalBytes(0x33, good, []byte{1}, []byte{0}, sym.Bytes("ct", 16), sym.Bytes("mac", 8))
	which := sym.Choose("which", 4)
	part := func(i int, name string, num int, val []byte) {
		if which == i {
			b = append(b, field(name, num, val)...)
		} else {
			b = append(b, fieldBytes(num, val)...)
		}
	}
	base, id := good, good
	if which == 0 {
		base = keyOfLength("base")
	}
	if which == 1 {
		id = keyOfLength("id")
	}
	if which == 2 {
		n := sym.Choose("innerlen", tier(12, 13))
		inner = sym.Bytes("inner", n)
	}
	part(0, "base", 2, base)
	part(1, "id", 3, id)
	part(2, "msg", 4, inner)
	if which == 3 {
		switch sym.Choose("ids", 3) {
		case 0:
			b = append(b, fieldVar(1, sym.Bytes("pk", 2))...)
		case 1:
			b = append(b, fieldVar(6, sym.Bytes("spk", 2))...)
		case 2:
			b = append(b, fieldVar(5, concat(ff(9), sym.Bytes("reg", 1)))...)
		}
	}
	safe("parsing a pre-key message", func() { message.NewPreKeyFromBytes(b) })
}

// H_C18_group_fields: group messages and distributions with fields of any form.
func H_C18_group_fields() {
	var d, key []byte
	which := sym.Choose("which", 3)
	form := func(i int, name string, num int, val []byte) []byte {
		if i == which {
			return field(name, num, val)
		}
		return fieldBytes(num, val)
	}
	d = form(0, "dist", 1, []byte(distIDs[0].String()))
	if sym.Choose("what", 2) == 0 {
		b := concat([]byte{sym.Byte("ver")}, d, fieldVar(2, varint5(sym.Uint32("chain"))), fieldVar(3, varint(4)), form(1, "ct", 4, sym.Bytes("ct", 16)), sym.Bytes("sig", 64))
		safe("handling a group message", func() {
			m, err := message.NewSenderKeyFromBytes(b)
			if err == nil {
				m.VerifySignature(keyPair("sig").PublicKey())
			}
		})
		return
	}
	ck := sym.Bytes("ck", 32)
	key = anyKey("sig").Bytes()
	if which == 1 {
		ck = sym.Bytes("ckn", []int{0, 31, 33, 64}[sym.Choose("cklen", 4)])
	}
	if which == 2 {
		key = keyOfLength("sign")
	}
	b := concat([]byte{sym.Byte("ver")}, d, fieldVar(2, varint(4)), fieldVar(3, varint(5)), form(1, "ck", 4, ck), form(2, "sig", 5, key))
	safe("handling a distribution message", func() {
		dm, err := message.NewSenderKeyDistributionFromBytes(b)
		if err != nil {
			return
		}
		p := newParty("p")
		p.group(addr("s", 1), dm.DistributionID()).ProcessSenderKeyDistribution(ctx, dm)
	})
}

// H_C18_dist_ids: any bytes as a distribution ID.
func H_C18_dist_ids() {
	n := []int{0, 1, 16, 31, 32, 33, 35, 36, 37, 38, 39, 40, 41, 42, 44, 45, 46}[sym.Choose("len", 17)]
	base := []byte("{urn:uuid:d1d1d1d1-7000-11eb-b32a-33b8a8a487a6}")
	var b []byte
	switch n {
	case 36:
		b = clone(base[10:46])
	case 38:
		b = concat(base[:1], base[10:])
	case 45:
		b = clone(base[1:46])
	case 32:
		b = []byte("d1d1d1d1700011ebb32a33b8a8a487a6")
	default:
		b = make([]byte, n)
	}
	if n > 0 {
		at := sym.Choose("at", n)
		b[at] = sym.Byte("x")
		sym.Assume(n != 45 || at > 8 || b[at] < 128) // case folding of the prefix is encoded for ASCII only
	}
	safe("parsing a distribution ID", func() {
		x, e1 := distribution.ParseBytes(b)
		y, e2 := distribution.Parse(string(b))
		sym.Assert("C17", (e1 == nil) == (e2 == nil) && x == y, "a distribution ID parses in two ways")
	})
}

// H_C18_keys: keys and signatures of every length.
func H_C18_keys() {
	n := sym.Choose("len", 70)
	b := sym.Bytes("b", n)
	switch sym.Choose("what", 7) {
	case 0:
		safe("decoding a public key", func() { curve.NewPublicKey(b) })
	case 1:
		safe("decoding an identity key", func() { identity.NewKey(b) })
	case 2:
		safe("decoding a private key", func() { curve.NewPrivateKey(b); curve25519.NewPrivateKey(b) })
	case 3:
		safe("decoding a key pair", func() { curve.NewKeyPair(b, b) })
	case 4:
		k, err := curve25519.NewPrivateKey(sym.Bytes("k", 32))
		must(err)
		safe("agreement", func() {
			s, err := k.Agreement(b)
			sym.Assert("C20", (len(s) == 32) == (err == nil), "agreement gave neither a secret nor an error")
		})
	case 5:
		safe("verifying", func() { curve25519.VerifySignature(b, sym.Bytes("sig", 64), []byte("m")) })
	case 6:
		pub := anyKey("pub")
		safe("verifying", func() {
			pub.VerifySignature(b, []byte("m"))
			curve25519.VerifySignature(pub.KeyBytes(), b, []byte("m"))
			id, err := identity.NewKey(pub.Bytes())
			must(err)
			id.VerifyAlternateIdentity(b, id)
		})
	}
}

// H_C18_degenerate_keys: keys of small order and outside the field.
func H_C18_degenerate_keys() {
	b := lowKey(sym.Choose("which", len(lowOrder)))
	k, err := curve.NewPublicKey(concat([]byte{5}, b))
	if err != nil {
		return
	}
	a := anyPrivate("a")
	safe("using a degenerate key", func() {
		a.Agreement(k)
		k.VerifySignature(sym.Bytes("sig", 64), []byte("m"))
	})
}

// H_C18_fingerprints: scanned bytes and fingerprints of every length.
func H_C18_fingerprints() {
	n := sym.Choose("len", 70)
	b := sym.Bytes("b", n)
	var s *fingerprint.Scannable
	switch sym.Choose("what", 3) {
	case 0:
		safe("making a displayable fingerprint", func() {
			_, err := fingerprint.NewDisplayable(b, make([]byte, 32))
			sym.Assert("C22", (err == nil) == (n >= 30), "a fingerprint of wrong length was accepted, or one of right length refused")
			_, err = fingerprint.NewDisplayable(make([]byte, 32), b)
			sym.Assert("C22", (err == nil) == (n >= 30), "a fingerprint of wrong length was accepted, or one of right length refused")
		})
	case 1:
		safe("making a scannable fingerprint", func() {
			_, err := fingerprint.NewScannable(1, b, make([]byte, 32))
			sym.Assert("C22", (err == nil) == (n >= 32), "a fingerprint of wrong length was accepted, or one of right length refused")
			_, err = fingerprint.NewScannable(1, make([]byte, 32), b)
			sym.Assert("C22", (err == nil) == (n >= 32), "a fingerprint of wrong length was accepted, or one of right length refused")
		})
	case 2:
		if n > tier(4, 5) {
			return
		}
		var err error
		s, err = fingerprint.NewScannable(2, sym.Bytes("l", 32), sym.Bytes("r", 32))
		must(err)
		safe("comparing a scanned fingerprint", func() { s.Compare(b) })
		safe("comparing a scanned fingerprint", func() { s.Compare(concat(field("v", 1, b), field("l", 2, b))) })
	}
}

// H_C18_scanned: scanned fingerprints with fields of any form.
func H_C18_scanned() {
	s, err := fingerprint.NewScannable(2, sym.Bytes("l", 32), sym.Bytes("r", 32))
	must(err)
	inner := func(name string) []byte {
		return field(name+".in", 1, sym.Bytes(name, []int{0, 31, 32, 33}[sym.Choose(name+".len", 4)]))
	}
	b := fieldVar(1, []byte{2})
	if sym.Choose("side", 2) == 0 {
		b = concat(b, field("l", 2, inner("sl")), fieldBytes(3, fieldBytes(1, sym.Bytes("sr", 32))))
	} else {
		b = concat(b, fieldBytes(2, fieldBytes(1, sym.Bytes("sl", 32))), field("r", 3, inner("sr")))
	}
	safe("comparing a scanned fingerprint", func() { s.Compare(b) })
}

// insiderMessage is what somebody who holds the session can send: any content under a valid tag.
func insiderMessage(p, q *Party, key curve.PublicKey, counter uint32, ct []byte) message.Ciphertext {
	rec, ok, err := p.Store.SessionStore().Load(ctx, q.Addr)
	must(err)
	sym.Assume(ok)
	ck, err := rec.SenderChainKey()
	must(err)
	for ck.Index() < counter {
		ck = ck.Next()
	}
	mk, err := ck.MessageKeys()
	must(err)
	if key == nil {
		key, err = rec.State().SenderRatchetKey()
		must(err)
	}
	c, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: mk.MACKey(), SenderRatchetKey: key, PreviousCounter: 9, Counter: counter,
		Ciphertext: ct, SenderIdentityKey: p.ID.IdentityKey(), ReceiverIdentityKey: q.ID.IdentityKey()})
	must(err)
	return c
}

// try decrypts and wants an error and nothing changed.
func tryRefused(at, from *Party, c message.Ciphertext, what string) {
	before := concat(snapshot(at, from), keySnapshot(at, 31))
	var got []byte
	var err error
	safe("decrypting "+what, func() { got, err = dec(at, from, c) })
	sym.Assert("C04", err != nil && len(got) == 0, "decrypted "+what)
	if err != nil {
		sym.Assert("C04", sym.Equal(before, concat(snapshot(at, from), keySnapshot(at, 31))), "refusing "+what+" changed what is stored")
	}
}

func insider() {
	a, b := established(true)
	last := enc(a, b, sym.Bytes("pt", 2))
	switch sym.Choose("what", 4) {
	case 0: // ciphertexts of any length which the receiver's AES must take apart
		n := []int{0, 1, 15, 17, 31, 33}[sym.Choose("ctlen", 6)]
		tryRefused(b, a, insiderMessage(a, b, nil, 2, sym.Bytes("ct", n)), "a ciphertext of impossible length")
	case 1: // ciphertexts of whole blocks: padding of any kind
		n := 16 * (1 + sym.Choose("blocks", 2))
		c := insiderMessage(a, b, nil, uint32(2+sym.Choose("ahead", 2)), sym.Bytes("ct", n))
		before := concat(snapshot(b, a), keySnapshot(b, 31))
		var err error
		safe("decrypting a ciphertext of any content", func() { _, err = dec(b, a, c) })
		if err == nil {
			return
		}
		sym.Assert("C04", sym.Equal(before, concat(snapshot(b, a), keySnapshot(b, 31))), "a failed decryption changed what is stored")
	case 2: // degenerate ratchet keys
		k, err := curve.NewPublicKey(concat([]byte{5}, lowKey(sym.Choose("low", len(lowOrder)))))
		if err != nil {
			return
		}
		tryRefused(b, a, insiderMessage(a, b, k, 0, sym.Bytes("ct", 16)), "a message with a degenerate ratchet key")
	case 3: // counters far ahead
		ctr := sym.Uint32("ctr")
		sym.Assume(ctr > 25100)
		msg := signalBytes(0x33, clone(inner(last).SenderRatchetKey().Bytes()), varint5(ctr), []byte{0}, sym.Bytes("ct", 16), sym.Bytes("mac", 8))
		c, err := message.NewSignalFromBytes(msg)
		must(err)
		tryRefused(b, a, c, "a message from too far ahead")
	}
	_, err := dec(b, a, wire(last))
	sym.Assert("C04", err == nil, "a genuine message no longer decrypts")
	sym.Assert("C18", err == nil, "a genuine message no longer decrypts")
}

// H_C18_insider: a peer who holds the session sends contents of any kind.
func H_C18_insider() { insider() }

// H_C04_insider is the same with its effect on what is stored.
func H_C04_insider() { insider() }

// initialWith is a pre-key message around arbitrary keys.
func initialWith(base curve.PublicKey, id identity.Key, opk *prekey.ID, spk prekey.ID, ratchetKey curve.PublicKey) message.Ciphertext {
	c, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: sym.Bytes("mackey", 32), SenderRatchetKey: ratchetKey, Counter: 0, Ciphertext: sym.Bytes("ct", 16),
		SenderIdentityKey: id, ReceiverIdentityKey: id})
	must(err)
	m, err := message.NewPreKey(message.PreKeyConfig{Version: 3, RegistrationID: 9, PreKeyID: opk, SignedPreKeyID: spk, BaseKey: base, IdentityKey: id, Message: c.(*message.Signal)})
	must(err)
	return m
}

func degenerate() {
	bob := newParty("bob")
	k := bob.newKeys(22, 31, true)
	mallory := newParty("mallory")
	good := keyPair("good").PublicKey()
	low, err := curve.NewPublicKey(concat([]byte{5}, lowKey(sym.Choose("low", len(lowOrder)))))
	if err != nil {
		return
	}
	id := mallory.ID.IdentityKey()
	base, rk := good, keyPair("rk").PublicKey()
	opk, spk := k.OneTimeID, k.SignedID
	popk := &opk
	switch sym.Choose("where", 6) {
	case 0:
		base = low
	case 1:
		rk = low
	case 2:
		id, err = identity.NewKey(low.Bytes())
		must(err)
	case 3:
		spk = 23
	case 4:
		opk = 32
	case 5:
		popk, base = nil, low
	}
	tryRefused(bob, mallory, initialWith(base, id, popk, spk, rk), "a pre-key message with degenerate or unknown keys")
}

// H_C18_initial: pre-key messages with degenerate keys or unknown IDs.
func H_C18_initial() { degenerate() }

// H_C04_initial is the same with its effect on what is stored.
func H_C04_initial() { degenerate() }

// H_C18_bundle: bundles with degenerate keys are refused and leave nothing.
func H_C18_bundle() { lowBundle() }

// H_C07_degenerate is the same.
func H_C07_degenerate() { lowBundle() }

func lowBundle() {
	alice, bob := newParty("alice"), newParty("bob")
	k := bob.newKeys(22, 31, true)
	b := bob.bundle(k)
	low, err := curve.NewPublicKey(concat([]byte{5}, lowKey(sym.Choose("low", len(lowOrder)))))
	if err != nil {
		return
	}
	switch sym.Choose("where", 3) {
	case 0:
		b.SignedPreKeyPublic = low
		b.SignedPreKeySignature, err = bob.ID.PrivateKey().Sign(sym.Reader("lowsig"), low.Bytes())
		must(err)
	case 1:
		b.PreKeyPublic = low
	case 2:
		b.IdentityKey, err = identity.NewKey(low.Bytes())
		must(err)
	}
	before := snapshot(alice, bob)
	safe("processing a bundle with degenerate keys", func() { err = alice.to(bob).ProcessPreKeyBundle(ctx, alice.Rand, b) })
	sym.Assert("C07", err != nil, "a bundle with a degenerate key was accepted")
	sym.Assert("C07", sym.Equal(before, snapshot(alice, bob)), "a refused bundle left something behind")
}

// H_C18_types: messages of another kind given to a session.
func H_C18_types() {
	a, b := established(true)
	sk, err := message.NewSenderKey(sym.Reader("r"), message.SenderKeyConfig{Version: 3, DistID: distIDs[0], ChainID: 1, Iteration: 2, Ciphertext: sym.Bytes("ct", 16), SignatureKey: a.ID.PrivateKey()})
	must(err)
	pl, err := message.NewPlaintextFromBytes([]byte{0xc0, 1})
	must(err)
	c := []message.Ciphertext{sk, pl}[sym.Choose("kind", 2)]
	var got []byte
	safe("decrypting a message of another kind", func() { got, err = dec(b, a, c) })
	sym.Assert("C03", err != nil && len(got) == 0, "a message of another kind was decrypted")
}

// H_C18_group_insider: the holder of a group chain sends contents of any kind.
func H_C18_group_insider() {
	g := newGroup()
	g.preset(7, 0)
	p := g.members[0]
	g.join(p)
	m := g.send()
	before := g.snapshot(p)
	ct := sym.Bytes("ct", []int{0, 1, 15, 16, 17, 32, 33}[sym.Choose("ctlen", 7)])
	it := []uint32{0, 1, 2, 25_001, 1 << 31, 1<<32 - 1}[sym.Choose("it", 6)]
	chain := uint32(7 + sym.Choose("chain", 2))
	d := distIDs[sym.Choose("dist", 2)]
	c, err := message.NewSenderKey(sym.Reader("r"), message.SenderKeyConfig{Version: 3, DistID: d, ChainID: chain, Iteration: it, Ciphertext: ct, SignatureKey: sigKey(g)})
	must(err)
	c, err = message.NewSenderKeyFromBytes(clone(c.Bytes()))
	must(err)
	safe("decrypting a group message of any content", func() { _, err = g.sess(p).DecryptMessage(ctx, c) })
	if err == nil {
		return
	}
	sym.Assert("C15", sym.Equal(before, g.snapshot(p)), "a failed group decryption changed what is stored")
	_, err = g.dec(p, m)
	sym.Assert("C18", err == nil, "a genuine message no longer decrypts")
}

// H_C18_group_keys: distributions with degenerate signing keys.
func H_C18_group_keys() {
	p := newParty("p")
	low, err := curve.NewPublicKey(concat([]byte{5}, lowKey(sym.Choose("low", len(lowOrder)))))
	if err != nil {
		return
	}
	dm, err := message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: distIDs[0], ChainID: 7, Iteration: sym.Uint32("it"), ChainKey: sym.Bytes("ck", 32), SigningKey: low})
	must(err)
	g := p.group(addr("s", 1), distIDs[0])
	safe("processing a distribution with a degenerate key", func() { err = g.ProcessSenderKeyDistribution(ctx, dm) })
	if err != nil {
		return
	}
	raw := concat(groupBytes(0x33, []byte(distIDs[0].String()), []byte{7}, []byte{1}, sym.Bytes("ct", 16)), sym.Bytes("sig", 64))
	c, err := message.NewSenderKeyFromBytes(raw)
	must(err)
	safe("decrypting under a degenerate key", func() { g.DecryptMessage(ctx, c) })
}

// H_C18_aes: any sizes given to the cipher.
func H_C18_aes() { H_C19_sizes() }

// H_C18_record: any short bytes as a stored session.
func H_C18_record() {
	b := sym.Bytes("b", sym.Choose("len", tier(4, 5)))
	safe("restoring a session", func() {
		r, err := session.NewRecordBytes(b)
		if err != nil {
			return
		}
		p, q := newParty("p"), newParty("q")
		must(p.Store.SessionStore().Store(ctx, q.Addr, r))
		p.to(q).EncryptMessage(ctx, []byte("x"))
	})
}
