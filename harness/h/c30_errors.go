package h

import (
	"errors"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/session"
	"google.golang.org/protobuf/proto"

	"verif/harness/sym"
)

// refusedUntrusted: the error says that the identity is not trusted, and for which address.
func refusedUntrusted(err error, peer *Party) {
	sym.Assert("C30", perrors.IsErrUntrustedIdentity(err), "an untrusted identity was not reported as such")
	sym.Assert("C30", errors.Is(err, perrors.ErrUntrustedIdentity(peer.Addr)), "an untrusted identity was reported for another address")
}

// noSession: the error says that there is no session, and with which address.
func noSession(err error, peer *Party) {
	sym.Assert("C30", errors.Is(err, perrors.ErrSessionNotFound(peer.Addr)), "a missing session was not reported as such")
	sym.Assert("C30", !perrors.IsErrUntrustedIdentity(err), "another failure was reported as an untrusted identity")
}

// H_C30_trust: what a refusal for lack of trust looks like, on every path and in every order.
func H_C30_trust() { H_C08_trust() }

// H_C30_changed: the same where the peer's identity changes.
func H_C30_changed() { H_C08_changed() }

// H_C30_history: replays at every point are reported as duplicates.
func H_C30_history() { H_C02_history() }

// H_C30_turns: the same after many turns.
func H_C30_turns() { H_C02_turns() }

// H_C30_group: the same in groups.
func H_C30_group() { H_C13_anywhere() }

// H_C30_encrypt, H_C30_decrypt, H_C30_bundle, H_C30_senders: the error of a failing store reaches the caller.
func H_C30_encrypt() { H_C05_faults() }
func H_C30_decrypt() { H_C04_faults() }
func H_C30_bundle()  { H_C07_faults() }
func H_C30_senders() { H_C15_faults() }

// H_C30_missing: operations in a session that is not there.
func H_C30_missing() {
	alice, bob := newParty("alice"), newParty("bob")
	other := newPartyAt("other", addr("bob", 2))
	carol := newParty("carol")
	ka, kb := alice.newKeys(7, 8, true), bob.newKeys(22, 31, true)
	_ = ka
	// a session with somebody else, and one between others
	must(alice.to(other).ProcessPreKeyBundle(ctx, alice.Rand, other.bundle(other.newKeys(1, 2, false))))
	must(carol.to(bob).ProcessPreKeyBundle(ctx, carol.Rand, bob.bundle(kb)))
	_, err := dec(bob, carol, enc(carol, bob, []byte("m")))
	must(err)
	m := wire(enc(bob, carol, []byte("r")))
	emptied := sym.Choose("emptied", 2) == 1
	if emptied { // a record without any session in it
		must(alice.Store.SessionStore().Store(ctx, bob.Addr, session.NewRecord(nil)))
	}
	if sym.Choose("op", 2) == 0 {
		c, err := alice.to(bob).EncryptMessage(ctx, []byte("x"))
		sym.Assert("C30", err != nil && c == nil, "encrypted without a session")
		noSession(err, bob)
	} else {
		pt, err := dec(alice, bob, m)
		sym.Assert("C30", err != nil && len(pt) == 0, "decrypted without a session")
		sym.Assert("C30", !perrors.IsErrUntrustedIdentity(err) && !errors.Is(err, perrors.ErrDuplicateMessage), "another failure was reported as a duplicate or an untrusted identity")
		if !emptied {
			noSession(err, bob)
		}
	}
}

// H_C30_empty: a record without a current session, new or archived, says so whatever it is asked.
func H_C30_empty() {
	rec := session.NewRecord(nil)
	if sym.Choose("archived", 2) == 1 {
		h := newHist(true)
		h.deliver(h.send(0))
		r, ok, err := h.ps[1].Store.SessionStore().Load(ctx, h.ps[0].Addr)
		must(err)
		sym.Assume(ok)
		rec = r
		rec.ArchiveCurrentState()
	}
	sym.Assert("C30", rec.State() == nil, "a record without a session has one")
	is := func(err error) {
		sym.Assert("C30", errors.Is(err, perrors.ErrNoCurrentSession), "a record without a current session does not say so")
	}
	_, err := rec.Version()
	is(err)
	_, err = rec.LocalIdentityKey()
	is(err)
	_, _, err = rec.RemoteIdentityKey()
	is(err)
	_, err = rec.SenderChainKey()
	is(err)
	_, _, err = rec.ReceiverChainKey(keyPair("k").PublicKey())
	is(err)
}

// H_C30_late: however late a message comes, the first time it decrypts and from then on it is a duplicate.
func H_C30_late() {
	n := []int{2, 4, 9, 40, 300}[sym.Choose("sent", tier(4, 5))]
	at := []int{0, 1, n / 2, n - 2}[sym.Choose("late", 4)]
	if sym.Choose("group", 2) == 0 {
		h := newHist(true)
		h.deliver(h.send(0))
		i := sym.Choose("who", 2)
		h.deliver(h.send(1))
		for k := 0; k < n; k++ {
			h.send(i)
		}
		ms := h.msgs[len(h.msgs)-n:]
		h.deliver(ms[n-1])
		h.replay(ms[n-1])
		h.deliver(ms[at])
		h.replay(ms[at])
		h.replay(ms[n-1])
		return
	}
	g := newGroup()
	p := g.members[sym.Choose("who", 2)]
	g.preset(7, uint32(sym.Choose("start", 2)*1000))
	g.join(p)
	for k := 0; k < n; k++ {
		g.send()
	}
	g.deliver(p, g.msgs[n-1])
	g.deliver(p, g.msgs[n-1])
	g.deliver(p, g.msgs[at])
	g.deliver(p, g.msgs[at])
	g.deliver(p, g.msgs[n-1])
}

// H_C30_addresses: errors about different addresses are different.
func H_C30_addresses() {
	names := []string{"a", "a1", ""}
	x := address.Address{Name: names[sym.Choose("x", 3)], DeviceID: address.DeviceID(sym.Uint32("dx"))}
	y := address.Address{Name: names[sym.Choose("y", 3)], DeviceID: address.DeviceID(sym.Uint32("dy"))}
	same := x == y
	sym.Assert("C30", errors.Is(perrors.ErrUntrustedIdentity(x), perrors.ErrUntrustedIdentity(y)) == same, "errors for an address are equal exactly when the addresses are")
	sym.Assert("C30", errors.Is(perrors.ErrSessionNotFound(x), perrors.ErrSessionNotFound(y)) == same, "errors for an address are equal exactly when the addresses are")
	sym.Assert("C30", perrors.IsErrUntrustedIdentity(perrors.ErrUntrustedIdentity(x)), "an untrusted identity is not recognised")
	for _, e := range []error{nil, errFault, perrors.ErrDuplicateMessage, perrors.ErrNoCurrentSession, perrors.ErrSessionNotFound(x), perrors.ErrInvalidKeyLength(32, 31)} {
		sym.Assert("C30", !perrors.IsErrUntrustedIdentity(e), "another failure is taken for an untrusted identity")
		sym.Assert("C30", !errors.Is(perrors.ErrUntrustedIdentity(x), e), "another failure is taken for an untrusted identity")
	}
}

// H_C30_refused: whatever an attacker sends to a recipient who trusts the sender is never called untrusted, and
// what the recipient never saw is not lost to a false duplicate.
func H_C30_refused() {
	h := newHist(true)
	h.deliver(h.send(0))
	h.deliver(h.send(1))
	k := sym.Choose("ahead", 3)
	for i := 0; i < k; i++ {
		h.send(1)
	}
	m := h.send(1)
	raw := clone(m.raw)
	switch sym.Choose("what", 3) {
	case 0: // another tag
		raw[len(raw)-1-sym.Choose("at", 8)] ^= 1
	case 1: // another version
		raw[0] = 0x23
	case 2: // a message of another session of the same two
		carol := newParty("carol")
		b := h.ps[0]
		kc := b.newKeys(40, 41, false)
		must(carol.to(b).ProcessPreKeyBundle(ctx, carol.Rand, b.bundle(kc)))
		raw = clone(inner(enc(carol, b, []byte("x"))).Bytes())
	}
	c, err := message.NewSignalFromBytes(raw)
	if err == nil {
		pt, err := dec(m.to, m.from, c)
		sym.Assert("C30", err != nil && len(pt) == 0, "an altered message was accepted")
		sym.Assert("C30", !perrors.IsErrUntrustedIdentity(err), "another failure was reported as an untrusted identity")
		sym.Assert("C30", !errors.Is(err, perrors.ErrDuplicateMessage), "a message never seen was reported as a duplicate")
	}
	h.deliver(m)
	h.drain(true)
}

// H_C30_lengths: keys of a wrong length are named by expected and given length.
func H_C30_lengths() {
	n := sym.Choose("n", 70)
	b := make([]byte, n)
	for i := range b {
		b[i] = 5
	}
	is := func(err error, want int, exact bool) {
		bad := n != want
		if !exact {
			bad = n < want
		}
		if bad {
			sym.Assert("C30", errors.Is(err, perrors.ErrInvalidKeyLength(want, n)), "a wrong length was not reported as such")
		} else {
			sym.Assert("C30", !errors.Is(err, perrors.ErrInvalidKeyLength(want, n)), "a right length was reported as wrong")
		}
	}
	_, err := curve.NewPrivateKey(b)
	is(err, 32, true)
	_, err = curve25519.NewPrivateKey(b)
	is(err, 32, true)
	m, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: make([]byte, 32), SenderRatchetKey: keyPair("k").PublicKey(), Ciphertext: make([]byte, 16),
		SenderIdentityKey: anyIdentity("i"), ReceiverIdentityKey: anyIdentity("j")})
	must(err)
	valid, err := m.(*message.Signal).VerifyMAC(b, anyIdentity("i2"), anyIdentity("j2"))
	is(err, 32, true)
	sym.Assert("C30", !valid || err == nil, "a MAC that could not be checked is valid")
	if n > 0 {
		_, err = curve.NewPublicKey(b)
		is(err, 33, false)
	}
	_, err = ratchet.NewChainKey(b, 1)
	is(err, 32, true)
	_, err = ratchet.NewRootKey(b)
	is(err, 32, true)
	good := func(k int) []byte { return make([]byte, k) }
	_, err = ratchet.NewMessageKeys(b, good(32), good(16), 0)
	is(err, 32, true)
	_, err = ratchet.NewMessageKeys(good(32), b, good(16), 0)
	is(err, 32, true)
	_, err = ratchet.NewMessageKeys(good(32), good(32), b, 0)
	is(err, 16, true)
}

// H_C31_decrypt: a message that turns the ratchet, with a random source that fails.
func H_C31_decrypt() {
	h := newHist(sym.Choose("onetime", 2) == 1)
	for k := sym.Choose("turns", 3); k > 0; k-- {
		h.deliver(h.send(0))
		h.deliver(h.send(1))
	}
	i := 0
	if h.heard[1] {
		i = sym.Choose("who", 2)
	}
	if i == 1 {
		h.deliver(h.send(0))
	}
	m := h.send(i)
	if sym.Choose("late", 2) == 1 {
		m = h.send(i)
	}
	before := concat(snapshot(m.to, m.from), keySnapshot(m.to, h.keys.OneTimeID))
	c, err := parse(m.typ, clone(m.raw))
	must(err)
	f := &faultyRand{part: partly(), eof: sym.Choose("eof", 2) == 1}
	got, err := m.to.to(m.from).DecryptMessage(ctx, f, c)
	if f.n < 0 {
		sym.Assert("C31", err != nil, "a message that turns the ratchet decrypted without randomness")
		sym.Assert("C31", len(got) == 0, "a plaintext was returned although randomness failed")
		sym.Assert("C31", sym.Equal(before, concat(snapshot(m.to, m.from), keySnapshot(m.to, h.keys.OneTimeID))), "a failed decryption changed what is stored")
		sym.Assert("C31", !errors.Is(err, perrors.ErrDuplicateMessage) && !perrors.IsErrUntrustedIdentity(err), "missing randomness was reported as something else")
		h.deliver(m)
	} else {
		sym.Assert("C31", err == nil && sym.Equal(got, m.pt), "a message that needs no randomness was refused")
		m.got = true
		h.open[1-i], h.heard[1-i] = true, true
	}
	h.deliver(h.send(1 - i))
	h.drain(true)
}

// H_C31_bundle: a session is not set up without randomness.
func H_C31_bundle() {
	alice, bob := newParty("alice"), newParty("bob")
	again := sym.Choose("again", 2) == 1
	if again {
		must(alice.to(bob).ProcessPreKeyBundle(ctx, alice.Rand, bob.bundle(bob.newKeys(20, 30, false))))
	}
	b := bob.bundle(bob.newKeys(22, 31, sym.Choose("onetime", 2) == 1))
	before := snapshot(alice, bob)
	f := &faultyRand{n: sym.Choose("at", 3), part: partly(), eof: sym.Choose("eof", 2) == 1}
	err := alice.to(bob).ProcessPreKeyBundle(ctx, f, b)
	if f.n >= 0 {
		sym.Assert("C31", err == nil, "a session was not set up although there was randomness")
		return
	}
	sym.Assert("C31", err != nil, "a session was set up without randomness")
	sym.Assert("C31", sym.Equal(before, snapshot(alice, bob)), "a failed set-up changed what is stored")
	must(alice.to(bob).ProcessPreKeyBundle(ctx, alice.Rand, b))
	got, err := dec(bob, alice, wire(enc(alice, bob, []byte("m"))))
	sym.Assert("C31", err == nil && string(got) == "m", "a session set up after a failure does not work")
}

// pieces delivers randomness in small pieces, as a reader may.
type pieces struct {
	all []byte
	n   int
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	k := min(len(b), p.n)
	f := sym.Fresh("piece", k)
	copy(b, f)
	p.all = append(p.all, f...)
	return k, nil
}

// H_C31_pieces: every byte of keys and signatures comes from the source, however it delivers them.
func H_C31_pieces() {
	r := &pieces{n: []int{1, 7, 31, 32, 63, 64}[sym.Choose("size", 6)]}
	k, err := curve.GenerateKeyPair(r)
	sym.Assert("C31", err == nil, "a key was not generated although there was randomness")
	must(err)
	sym.Assert("C31", len(r.all) == 32, "a key uses 32 random bytes")
	sym.Assume(len(r.all) == 32)
	ref, err := curve.NewPrivateKey(clone(r.all))
	must(err)
	sym.Assert("C31", sym.Equal(k.PrivateKey().Bytes(), ref.Bytes()), "a key is not made of the bytes of its source")
	r.all = nil
	sig, err := k.Sign(r, []byte("m"))
	sym.Assert("C31", err == nil, "a signature was not made although there was randomness")
	must(err)
	sym.Assert("C31", len(r.all) == 64, "a signature uses 64 random bytes")
	whole := &replayed{r.all}
	sig2, err := k.Sign(whole, []byte("m"))
	must(err)
	sym.Assert("C31", sym.Equal(sig, sig2), "a signature depends on how its randomness is delivered")
}

// H_C31_seed: so are the chain key of a new sender and its signing key.
func H_C31_seed() {
	g := newGroup()
	r := &pieces{n: []int{1, 7, 31, 32, 63}[sym.Choose("size", 5)]}
	dm, err := g.sess(g.sender).NewSenderKeyDistribution(ctx, r)
	sym.Assert("C31", err == nil, "a sender chain was not made although there was randomness")
	must(err)
	part := func(b []byte) bool {
		is := false
		for i := 0; i+32 <= len(r.all); i++ {
			is = sym.Or(is, sym.Equal(b, r.all[i:i+32]))
		}
		return is
	}
	sym.Assert("C31", part(dm.ChainKey()), "a chain key is not made of the bytes of its source")
	signing, err := g.senderState().PrivateSigningKey()
	must(err)
	is := false
	for i := 0; i+32 <= len(r.all); i++ {
		k, err := curve.NewPrivateKey(clone(r.all[i : i+32]))
		must(err)
		is = sym.Or(is, sym.Equal(k.Bytes(), signing.Bytes()))
	}
	sym.Assert("C31", is, "a signing key is not made of the bytes of its source")
	_, ok, err := g.sender.Store.GroupStore().Load(ctx, g.sender.Addr, g.d)
	must(err)
	sym.Assert("C31", ok && len(r.all) >= 64, "a sender chain uses 64 random bytes")
	g.join(g.members[0])
	g.deliver(g.members[0], g.send())
}

type replayed struct{ b []byte }

func (r *replayed) Read(p []byte) (int, error) {
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

// H_C31_senders: sender chains and group messages need randomness.
func H_C31_senders() { H_C15_create() }

// H_C31_keys: keys and signatures need all of their randomness.
func H_C31_keys() {
	f := &faultyRand{part: partly(), eof: sym.Choose("eof", 2) == 1}
	switch sym.Choose("what", 7) {
	case 6:
		_, err := curve25519.GeneratePrivateKey(f)
		sym.Assert("C31", err != nil, "a key was generated without randomness")
	case 0:
		_, err := curve.GenerateKeyPair(f)
		sym.Assert("C31", err != nil, "a key was generated without randomness")
	case 1:
		_, err := curve.GeneratePrivateKey(f)
		sym.Assert("C31", err != nil, "a key was generated without randomness")
	case 2:
		_, err := identity.GenerateKeyPair(f)
		sym.Assert("C31", err != nil, "an identity was generated without randomness")
	case 3:
		sig, err := anyPrivate("k").Sign(f, sym.Bytes("m", 2))
		sym.Assert("C31", err != nil && len(sig) == 0, "signed without randomness")
	case 4:
		sig, err := keyPair("k").Sign(f, sym.Bytes("m", 2))
		sym.Assert("C31", err != nil && len(sig) == 0, "signed without randomness")
	case 5:
		a, b := newParty("a"), newParty("b")
		sig, err := a.ID.SignAlternateIdentity(f, b.ID.IdentityKey())
		sym.Assert("C31", err != nil && len(sig) == 0, "signed without randomness")
	}
}

// H_C31_default: without a source the system's randomness is used, never none.
func H_C31_default() {
	a, err := curve.GenerateKeyPair(nil)
	sym.Assert("C31", err == nil, "a key was not generated from the system's randomness")
	must(err)
	b, err := curve.GenerateKeyPair(nil)
	must(err)
	sym.Assert("C31", sym.Not(sym.Equal(a.PrivateKey().Bytes(), b.PrivateKey().Bytes())), "two generated keys are equal")
	s1, err := a.Sign(nil, []byte("m"))
	sym.Assert("C31", err == nil, "a signature was not made from the system's randomness")
	must(err)
	s2, err := a.Sign(nil, []byte("m"))
	must(err)
	sym.Assert("C31", sym.Not(sym.Equal(s1[:32], s2[:32])), "two signatures share their nonce")
}

// facts: what p's record of its session with the peer says is what happened.
func (h *hist) facts(i int) {
	p, q := h.ps[i], h.ps[1-i]
	rec, ok, err := p.Store.SessionStore().Load(ctx, q.Addr)
	must(err)
	sym.Assert("C32", ok == h.open[i], "a session is on file exactly when there is one")
	if !ok {
		return
	}
	v, err := rec.Version()
	sym.Assert("C32", err == nil && v == 3, "a session has version 3")
	li, err := rec.LocalIdentityKey()
	sym.Assert("C32", err == nil && li.Equal(p.ID.IdentityKey()), "a session names its owner's identity")
	ri, found, err := rec.RemoteIdentityKey()
	sym.Assert("C32", err == nil && found && ri.Equal(q.ID.IdentityKey()), "a session names the peer's identity")
	st := rec.State()
	sym.Assert("C32", st.LocalRegistrationID() == p.Reg, "a session names its owner's registration ID")
	self, err := st.SessionWithSelf()
	sym.Assert("C32", err == nil && !self, "a session with another is not one with oneself")
	var raw v1.SessionStructure
	must(proto.Unmarshal(st.Bytes(), &raw))
	sym.Assert("C32", raw.GetRemoteRegistrationId() == q.Reg, "a session names the peer's registration ID")
	pend, err := st.UnacknowledgedPreKeyMessages()
	sym.Assert("C32", err == nil && (pend != nil) == (i == 0 && !h.heard[0]), "a session has a pending pre-key message exactly until the peer is heard from")

	// sending
	mine, err := st.SenderRatchetKey()
	must(err)
	n := h.startOf(mine)
	for _, m := range h.msgs {
		if m.from == p && keysEqual(inner(m.c).SenderRatchetKey(), mine) {
			n++
		}
	}
	ck, err := rec.SenderChainKey()
	sym.Assert("C32", err == nil && ck.Index() == n, "the sending chain counts the messages sent")
	priv, err := st.SenderRatchetPrivateKey()
	sym.Assert("C32", err == nil && sym.Equal(priv.PublicKey().Bytes(), mine.Bytes()), "the private ratchet key belongs to the public one")

	// receiving
	for _, m := range h.msgs {
		if m.to != p {
			continue
		}
		key := inner(m.c).SenderRatchetKey()
		top, any := uint32(0), false
		got := map[uint32]bool{}
		for _, o := range h.msgs {
			if o.to == p && o.got && keysEqual(inner(o.c).SenderRatchetKey(), key) {
				any = true
				got[inner(o.c).Counter()] = true
				top = max(top, inner(o.c).Counter()+1)
			}
		}
		rk, found, err := rec.ReceiverChainKey(key)
		sym.Assert("C32", err == nil && found == any, "a receiving chain is there exactly if a message of it was received")
		if err != nil || !found || !any {
			continue
		}
		sym.Assert("C32", rk.Index() == top, "a receiving chain stands after the last message received")
		_, kept, err := st.Clone().MessageKeys(key, inner(m.c).Counter())
		sym.Assert("C32", err == nil && kept == (inner(m.c).Counter() < top && !got[inner(m.c).Counter()]), "a message key is kept exactly for a message skipped and not yet received")
	}

	// the stored form
	back, err := session.NewRecordBytes(st.Bytes())
	sym.Assert("C32", err == nil, "a stored session cannot be read back")
	must(err)
	sym.Assert("C32", sym.Equal(back.State().Bytes(), st.Bytes()), "a stored session changes when read back")
	sym.Assert("C32", sym.Equal(st.Clone().Bytes(), st.Bytes()), "a copy of a session differs from it")
}

// agree: both ends name the same base key.
func (h *hist) agree() {
	if !h.open[1] {
		return
	}
	var base [2][]byte
	for i := range h.ps {
		rec, _, err := h.ps[i].Store.SessionStore().Load(ctx, h.ps[1-i].Addr)
		must(err)
		base[i] = rec.State().AliceBaseKey()
	}
	sym.Assert("C32", len(base[0]) == 33 && sym.Equal(base[0], base[1]), "the two ends of a session name different base keys")
}

// H_C32_history: after every step of every schedule.
func H_C32_history() {
	h := newHist(sym.Choose("onetime", 2) == 1)
	for k := tier(5, 7); k > 0; k-- {
		h.facts(0)
		h.facts(1)
		h.agree()
		h.steps(1, false)
	}
	h.drain(sym.Choose("newest", 2) == 1)
	h.facts(0)
	h.facts(1)
}

// H_C32_turns: over several turns with late messages (as many as the receiver keeps chains).
func H_C32_turns() {
	h := newHist(true)
	h.turns(tier(4, 6), true)
	h.facts(0)
	h.facts(1)
	h.agree()
	h.drain(true)
	h.facts(0)
	h.facts(1)
}

// H_C32_again: sessions opened again and again, by the same installations or by new ones of the same users.
func H_C32_again() {
	h := newHist(true)
	rounds := 1 + sym.Choose("rounds", tier(2, 3))
	for r := 0; r < rounds; r++ {
		for k := sym.Choose("talk", 3); k > 0; k-- {
			h.deliver(h.send(0))
			h.deliver(h.send(1))
		}
		a, b := h.ps[0], h.ps[1]
		switch sym.Choose("again", 4) {
		case 1:
			a = withReg(a.Name, a.Addr, a.ID, a.Reg+100)
		case 2:
			b = withReg(b.Name, b.Addr, b.ID, b.Reg+100)
		case 3:
			a, b = b, a
		}
		k := b.newKeys(prekey.ID(40+r), prekey.ID(50+r), sym.Choose("onetime", 2) == 1)
		must(a.to(b).ProcessPreKeyBundle(ctx, a.Rand, b.bundle(k)))
		h = &hist{ps: [2]*Party{a, b}, open: [2]bool{true, false}, keys: k, ptlen: 2}
		h.facts(0)
		h.deliver(h.send(0))
		h.facts(0)
		h.facts(1)
		h.agree()
	}
	h.deliver(h.send(1))
	h.deliver(h.send(0))
	h.facts(0)
	h.facts(1)
	h.agree()
}

// H_C32_gaps: gaps of any length, at the start of a chain and later.
func H_C32_gaps() {
	h := newHist(true)
	h.deliver(h.send(0))
	i := sym.Choose("who", 2)
	for k := sym.Choose("turn", 2); k > 0; k-- {
		h.deliver(h.send(1))
		h.deliver(h.send(0))
	}
	for k := sym.Choose("before", 3); k > 0; k-- {
		h.deliver(h.send(i))
	}
	gap := []int{1, 2, 3, 4, 5, 8, 40}[sym.Choose("gap", tier(6, 7))]
	for k := 0; k < gap; k++ {
		h.send(i)
	}
	first := len(h.msgs) - gap
	h.deliver(h.send(i))
	h.facts(1 - i)
	h.deliver(h.msgs[first+sym.Choose("late", 2)*(gap-1)])
	h.facts(1 - i)
	h.facts(i)
}

// H_C32_none: a record without a current session says so, and keeps saying so for archived ones.
func H_C32_none() {
	rec := session.NewRecord(nil)
	if sym.Choose("archived", 2) == 1 {
		alice, bob, _ := pair(true)
		r, ok, err := alice.Store.SessionStore().Load(ctx, bob.Addr)
		must(err)
		sym.Assume(ok)
		v, err := r.Version()
		sym.Assert("C32", err == nil && v == 3, "a session has version 3")
		r.ArchiveCurrentState()
		prev, err := r.PreviousStates()
		sym.Assert("C32", err == nil && len(prev) == 1, "an archived session is kept")
		rec = r
	}
	_, err := rec.Version()
	sym.Assert("C32", errors.Is(err, perrors.ErrNoCurrentSession), "no current session is not reported")
	_, err = rec.LocalIdentityKey()
	sym.Assert("C32", errors.Is(err, perrors.ErrNoCurrentSession), "no current session is not reported")
	_, _, err = rec.RemoteIdentityKey()
	sym.Assert("C32", errors.Is(err, perrors.ErrNoCurrentSession), "no current session is not reported")
	_, _, err = rec.ReceiverChainKey(keyPair("k").PublicKey())
	sym.Assert("C32", errors.Is(err, perrors.ErrNoCurrentSession), "no current session is not reported")
	_, err = rec.SenderChainKey()
	sym.Assert("C32", errors.Is(err, perrors.ErrNoCurrentSession), "no current session is not reported")
	sym.Assert("C32", rec.State() == nil, "no current session is not reported")
}
