# Planted bugs: id -> (property, [(file, old, new)...], demo body, needs, what it breaks)
S = {}
def seed(id, prop, edits, demo, needs, breaks, imports=()):
    assert id not in S
    S[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, imports=imports)

CI = 'protocol/session/cipher.go'
ST = 'protocol/session/state.go'
RE = 'protocol/session/record.go'
SE = 'protocol/session/session.go'
GC = 'protocol/session/group_cipher.go'
GR = 'protocol/session/group_record.go'
GS = 'protocol/session/group_session.go'
GT = 'protocol/session/group_state.go'

seed('C01-old-chains-lose-keys', 'C01', [(ST, '''	if len(s.session.GetReceiverChains()) > maxReceiverChains {
''', '''	for i := 0; i+3 <= len(s.session.GetReceiverChains()); i++ {
		// These chains are stale.
		s.session.GetReceiverChains()[i].MessageKeys = nil
	}

	if len(s.session.GetReceiverChains()) > maxReceiverChains {
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	late := enc(t, a, b, "late")
	want(t, b, a, enc(t, a, b, "next"), "next")
	for i := 0; i < 3; i++ {
		want(t, a, b, enc(t, b, a, "x"), "x")
		want(t, b, a, enc(t, a, b, "y"), "y")
	}
	want(t, b, a, late, "late")
''', 'a message delayed across two or more ratchet turns after a later one of its chain arrived',
'skipped keys of chains older than the last two are dropped')

seed('C01-full-block-padding', 'C01', [('protocol/crypto/aes/aes.go', '''	if len(ciphertext) == 0 || len(ciphertext)%aes.BlockSize != 0 {''',
'''	if len(ciphertext) <= aes.BlockSize && len(ciphertext)%aes.BlockSize != 0 || len(ciphertext) < aes.BlockSize {'''
)], '''
	a, b := pair(t)
	talk(t, a, b)
	want(t, b, a, enc(t, a, b, ""), "")
	_, err := caes.CBCDecrypt(make([]byte, 32), make([]byte, 16), make([]byte, 17))
	if err == nil {
		t.Fatal("accepted")
	}
''', 'a ciphertext of 17 bytes or more which is no multiple of the block size',
'a ragged ciphertext panics instead of being refused', ['caes "github.com/RTann/libsignal-go/protocol/crypto/aes"'])
S['C19-ragged'] = dict(S.pop('C01-full-block-padding'), prop='C19')

seed('C02-last-skipped-key-kept', 'C02', [(ST, '''	chain.MessageKeys = filtered

''', '''	if len(filtered) > 0 {
		chain.MessageKeys = filtered
	}

''')], '''
	a, b := pair(t)
	talk(t, a, b)
	late := enc(t, a, b, "late")
	want(t, b, a, enc(t, a, b, "next"), "next")
	want(t, b, a, late, "late")
	refuse(t, b, a, late)
''', 'replay of a message delivered late when its key was the only skipped key of its chain',
'the last skipped message key is kept and the message is accepted again')

seed('C02-base-key-only-current', 'C02', [(RE, '''	previousStates, err := r.PreviousStates()
	if err != nil {
		return false, err
	}
	for _, previous := range previousStates {
		if version''', '''	previousStates, err := r.PreviousStates()
	if err != nil {
		return false, err
	}
	if r.currentSession != nil && len(previousStates) > 0 {
		// The newest one is being replaced.
		previousStates = previousStates[:len(previousStates)-1]
	}
	for _, previous := range previousStates {
		if version''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	a.open(t, b, b.bundle(t, 22, -1))
	first := enc(t, a, b, "first")
	want(t, b, a, first, "first")
	a.open(t, b, b.bundle(t, 23, -1))
	want(t, b, a, enc(t, a, b, "second"), "second")
	refuse(t, b, a, first)
''', 'replay of a pre-key message without one-time pre-key after its session was archived by a new one',
'the newest archived session is not looked at, so the replayed message sets its session up again')

seed('C03-mac-skips-version', 'C03', [('protocol/message/mac.go', '	hash.Write(message)\n', '	hash.Write(message[1:])\n')], '''
	a, b := pair(t)
	talk(t, a, b)
	c := enc(t, a, b, "x")
	raw := append([]byte(nil), c.Bytes()...)
	raw[0] ^= 0x01
	m, err := message.NewSignalFromBytes(raw)
	if err != nil {
		return
	}
	refuse(t, b, a, m)
''', 'change of the low half of the version byte', 'the version byte is not covered by the tag')

seed('C03-mac-tail', 'C03', [('protocol/message/signal.go', '''	equal := hmac.Equal(ourMAC, theirMAC)
''', '''	equal := hmac.Equal(ourMAC[:len(ourMAC)-len(s.serialized)%2], theirMAC[:len(theirMAC)-len(s.serialized)%2])
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	for i := 0; i < 40; i++ {
		c := enc(t, a, b, "a longer text"[:i%13])
		if i == 39 {
			c = enc(t, a, b, "sixteen bytes at")
		}
		raw := append([]byte(nil), c.Bytes()...)
		raw[len(raw)-1] ^= 0x20
		m, err := message.NewSignalFromBytes(raw)
		ok(t, err)
		refuse(t, b, a, m)
	}
	for i := 0; i < 100; i++ {
		want(t, b, a, enc(t, a, b, "z"), "z")
	}
	c := enc(t, a, b, "x")
	raw := append([]byte(nil), c.Bytes()...)
	raw[len(raw)-1] ^= 0x20
	m, err := message.NewSignalFromBytes(raw)
	ok(t, err)
	refuse(t, b, a, m)
''', 'a message of odd length whose last tag byte is altered', 'for messages of odd length the last byte of the tag is not compared')

seed('C04-prekey-deleted-early', 'C04', [(CI, '''	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext.Message())
	if err != nil {
		return nil, err
	}
''', '''	if preKeyID != nil {
		err := s.PreKeyStore.Delete(ctx, *preKeyID)
		if err != nil {
			return nil, err
		}
	}

	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext.Message())
	if err != nil {
		return nil, err
	}
'''), (CI, '''	if preKeyID != nil {
		err := s.PreKeyStore.Delete(ctx, *preKeyID)
		if err != nil {
			return nil, err
		}
	}

	return plaintext, nil
''', '''	return plaintext, nil
''')], '''
	a, b := pair(t)
	c := enc(t, a, b, "hello")
	p := c.(*message.PreKey)
	inner := append([]byte(nil), p.Message().Bytes()...)
	inner[len(inner)-1] ^= 1
	raw := bytes.Replace(append([]byte(nil), c.Bytes()...), p.Message().Bytes(), inner, 1)
	m, err := message.NewPreKeyFromBytes(raw)
	ok(t, err)
	refuse(t, b, a, m)
	if _, exists, _ := b.pre.Load(bg, 31); !exists {
		t.Fatal("one-time pre-key gone")
	}
''', 'a pre-key message whose inner message fails to decrypt', 'the one-time pre-key is deleted although decryption fails')

seed('C05-store-error-swallowed', 'C05', [(CI, '''	if err := s.SessionStore.Store(ctx, s.RemoteAddress, record); err != nil {
		return nil, err
	}

	return msg, nil
''', '''	if err := s.SessionStore.Store(ctx, s.RemoteAddress, record); err != nil && items == nil {
		return nil, err
	}

	return msg, nil
''')], '''
	a, b := pair(t)
	a.sess = &failing{sessions: a.sess}
	c, err := a.to(b).EncryptMessage(bg, []byte("one"))
	if err == nil || c != nil {
		t.Fatal("ciphertext handed out although the state was not stored")
	}
}

type sessions = session.Store

type failing struct{ sessions }

func (f *failing) Store(context.Context, address.Address, *session.Record) error {
	return errors.New("disk full")
''', 'the session store failing while a pre-key message is encrypted', 'the ciphertext is returned although the advanced chain was not stored')

seed('C05-counter-gap', 'C05', [(CI, '''	state.SetSenderChainKey(chainKey.Next())

	trusted, err''', '''	if items == nil || chainKey.Index() == 0 {
		state.SetSenderChainKey(chainKey.Next())
	} else {
		// The peer has not seen this chain yet.
		state.SetSenderChainKey(chainKey.Next().Next())
	}

	trusted, err''')], '''
	a, b := pair(t)
	for i := 0; i < 4; i++ {
		c := enc(t, a, b, "x").(*message.PreKey)
		if c.Message().Counter() != uint32(i) {
			t.Fatalf("counter %d, want %d", c.Message().Counter(), i)
		}
	}
''', 'three pre-key messages in a row', 'counters of a chain are not consecutive')

seed('C06-one-time-ignored', 'C06', [(SE, '''		dh4, err := ourBasePrivateKey.Agreement(params.TheirOneTimePreKey)
		if err != nil {
			return nil, err
		}

		secrets.Write(dh4)
''', '''		_, err := ourBasePrivateKey.Agreement(params.TheirOneTimePreKey)
		if err != nil {
			return nil, err
		}

		secrets.Write(dh3)
'''), (SE, '''		dh4, err := params.OurOneTimePreKeyPair.PrivateKey().Agreement(params.TheirBaseKey)
		if err != nil {
			return nil, err
		}

		secrets.Write(dh4)
''', '''		_, err := params.OurOneTimePreKeyPair.PrivateKey().Agreement(params.TheirBaseKey)
		if err != nil {
			return nil, err
		}

		secrets.Write(dh3)
''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	bundle := b.bundle(t, 22, 31)
	other, err := curve.GenerateKeyPair(rnd)
	ok(t, err)
	bundle.PreKeyPublic = other.PublicKey()
	a.open(t, b, bundle)
	refuse(t, b, a, enc(t, a, b, "x"))
''', 'ends that use different one-time pre-keys', 'the one-time pre-key does not enter the shared secret')

seed('C06-identity-dh-dropped', 'C06', [(SE, '''	secrets.Write(dh1)
	secrets.Write(dh2)
	secrets.Write(dh3)

	if params.TheirOneTimePreKey != nil {''', '''	secrets.Write(dh1)
	if params.TheirOneTimePreKey == nil {
		secrets.Write(dh2)
	}
	secrets.Write(dh3)

	if params.TheirOneTimePreKey != nil {'''), (SE, '''	secrets.Write(dh1)
	secrets.Write(dh2)
	secrets.Write(dh3)

	if params.OurOneTimePreKeyPair != nil {''', '''	secrets.Write(dh1)
	if params.OurOneTimePreKeyPair == nil {
		secrets.Write(dh2)
	}
	secrets.Write(dh3)

	if params.OurOneTimePreKeyPair != nil {''')], '''
	// Both sides of a hand-made agreement in which only the responder's identity private key differs.
	ai, err := identity.GenerateKeyPair(rnd)
	ok(t, err)
	bi, err := identity.GenerateKeyPair(rnd)
	ok(t, err)
	wrong, err := identity.GenerateKeyPair(rnd)
	ok(t, err)
	key := func() *curve.KeyPair { k, err := curve.GenerateKeyPair(rnd); ok(t, err); return k }
	base, spk, opk := key(), key(), key()
	ar, err := session.InitializeAliceSessionRecord(rnd, &ratchet.AliceParameters{OurIdentityKeyPair: ai, OurBaseKeyPair: base,
		TheirIdentityKey: bi.IdentityKey(), TheirSignedPreKey: spk.PublicKey(), TheirOneTimePreKey: opk.PublicKey(), TheirRatchetKey: spk.PublicKey()})
	ok(t, err)
	br, err := session.InitializeBobSessionRecord(&ratchet.BobParameters{OurIdentityKeyPair: identity.NewKeyPair(wrong.PrivateKey(), bi.IdentityKey()),
		OurSignedPreKeyPair: spk, OurOneTimePreKeyPair: opk, OurRatchetKeyPair: spk, TheirIdentityKey: ai.IdentityKey(), TheirBaseKey: base.PublicKey()})
	ok(t, err)
	ak, found, err := ar.ReceiverChainKey(spk.PublicKey())
	ok(t, err)
	bk, err := br.SenderChainKey()
	ok(t, err)
	if !found || bytes.Equal(ak.Key(), bk.Key()) {
		t.Fatal("ends agree although the responder lacks its identity private key")
	}
''', 'a responder without the private key of its identity, in a session with a one-time pre-key',
'the agreement of base key and identity key is left out when there is a one-time pre-key', ['"github.com/RTann/libsignal-go/protocol/ratchet"'])

seed('C07-known-session-skips-signature', 'C07', [(SE, '''	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
	if err != nil {
		return err
	}
	if !ok {
		return errors.New("signature validation failed")
	}

	record, exists, err := s.SessionStore.Load(ctx, s.RemoteAddress)
	if err != nil {
		return err
	}
''', '''	record, exists, err := s.SessionStore.Load(ctx, s.RemoteAddress)
	if err != nil {
		return err
	}

	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
	if err != nil {
		return err
	}
	if !ok && !exists {
		return errors.New("signature validation failed")
	}
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	bundle := b.bundle(t, 23, 32)
	bundle.SignedPreKeySignature[5] ^= 4
	if a.to(b).ProcessPreKeyBundle(bg, rnd, bundle) == nil {
		t.Fatal("bundle with a bad signature accepted")
	}
''', 'a badly signed bundle for an address with a session', 'the signature is not enforced when a session exists')

seed('C07-identity-stored-first', 'C07', [(SE, '''	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.''', '''	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
	if err != nil {
		return err
	}

	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.'''), (SE, '''	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
	if err != nil {
		return err
	}

	record.PromoteState''', '''	record.PromoteState''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	bundle := b.bundle(t, 23, 32)
	bundle.SignedPreKeySignature[5] ^= 4
	if a.to(b).ProcessPreKeyBundle(bg, rnd, bundle) == nil {
		t.Fatal("bundle with a bad signature accepted")
	}
	if _, exists, _ := a.idst.Load(bg, b.addr); exists {
		t.Fatal("identity of a refused bundle recorded")
	}
''', 'a badly signed bundle as first contact', 'the identity of a refused bundle becomes trusted')

seed('C08-prekey-message-to-changed-identity', 'C08', [(CI, '''	if !trusted {
		glog.Warningf("Identity key %s is not trusted for remote address %s",''', '''	if !trusted && items == nil {
		glog.Warningf("Identity key %s is not trusted for remote address %s",''')], '''
	a, b := pair(t)
	enc(t, a, b, "x")
	c := newParty(t, "bob")
	_, err := a.idst.Store(bg, b.addr, c.id.IdentityKey())
	ok(t, err)
	if _, err := a.to(b).EncryptMessage(bg, []byte("y")); err == nil {
		t.Fatal("encrypted to an identity which is not the recorded one")
	}
''', 'an identity replaced while the session is still unacknowledged', 'pre-key messages are encrypted to an identity that is no longer trusted')

seed('C08-store-before-trust', 'C08', [(CI, '''	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Receiving)
	if err != nil {
		return nil, err
	}
	if !trusted {
		glog.Warningf("Identity key %s is not trusted for remote address %v"''', '''	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
	if err != nil {
		return nil, err
	}

	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Receiving)
	if err != nil {
		return nil, err
	}
	if !trusted {
		glog.Warningf("Identity key %s is not trusted for remote address %v"'''), (CI, '''		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
	}

	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
	if err != nil {
		return nil, err
	}

''', '''		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
	}

''')], '''
	a, b := pair(t)
	talk(t, a, b)
	c := newParty(t, "bob")
	_, err := a.idst.Store(bg, b.addr, c.id.IdentityKey())
	ok(t, err)
	refuse(t, a, b, enc(t, b, a, "x"))
''', 'an ordinary message of a session whose identity was replaced', 'the old identity is recorded before it is checked, so the check always passes')

seed('C09-delete-on-known-session', 'C09', [(SE, '''		// We've already set up a session for this V3 message, letting bundled message fall through.
		return nil, nil''', '''		// We've already set up a session for this V3 message, letting bundled message fall through.
		return message.PreKeyID(), nil''')], '''
	a, b := pair(t)
	c1, c2 := enc(t, a, b, "1"), enc(t, a, b, "2")
	want(t, b, a, c1, "1")
	if _, exists, _ := b.pre.Load(bg, 31); exists {
		t.Fatal("not consumed")
	}
	b.bundle(t, 23, 31)
	want(t, b, a, c2, "2")
	if _, exists, _ := b.pre.Load(bg, 31); !exists {
		t.Fatal("a one-time pre-key which was not used is gone")
	}
''', 'a second pre-key message of a session after the one-time pre-key ID was issued again', 'a later pre-key message removes a one-time pre-key it did not use')

seed('C09-kept-on-renewal', 'C09', [(CI, '''	if preKeyID != nil {
		err := s.PreKeyStore.Delete''', '''	if preKeyID != nil && !exists {
		err := s.PreKeyStore.Delete'''), (CI, '''	theirIdentityKey, exists, err := record.RemoteIdentityKey()
	if err != nil {
		return nil, err
	}
	if !exists || !theirIdentityKey''', '''	theirIdentityKey, known, err := record.RemoteIdentityKey()
	if err != nil {
		return nil, err
	}
	if !known || !theirIdentityKey''')], '''
	a, b := pair(t)
	talk(t, a, b)
	a.open(t, b, b.bundle(t, 22, 40))
	want(t, b, a, enc(t, a, b, "x"), "x")
	if _, exists, _ := b.pre.Load(bg, 40); exists {
		t.Fatal("not consumed")
	}
''', 'a pre-key message that replaces an existing session', 'the one-time pre-key is kept when there was a session before')

seed('C10-jump-off-by-one', 'C10', [(CI, 'if jump > MaxJumps {', 'if jump >= MaxJumps {')], '''
	a, b := pair(t)
	talk(t, a, b)
	var c message.Ciphertext
	for i := 0; i <= 25000; i++ {
		var err error
		c, err = a.to(b).EncryptMessage(bg, nil)
		ok(t, err)
	}
	want(t, b, a, wire(t, c), "")
''', 'a message exactly 25000 ahead', 'the limit is off by one')

seed('C10-archive-off-by-one', 'C10', [(RE, 'len(r.previousSessions) >= maxArchivedStates', 'len(r.previousSessions) > maxArchivedStates')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	for i := 0; i < 50; i++ {
		a.open(t, b, b.bundle(t, 22, -1))
	}
	r, _, err := a.sess.Load(bg, b.addr)
	ok(t, err)
	p, err := r.PreviousStates()
	ok(t, err)
	if len(p) > 40 {
		t.Fatalf("%d archived states", len(p))
	}
''', 'more than forty replaced sessions', 'forty-one archived states are kept')

seed('C10-group-states', 'C10', [(GR, '''	if len(g.states) >= maxSenderKeyStates {
		g.states[0] = nil
''', '''	if len(g.states) >= maxSenderKeyStates && !removed {
		g.states[0] = nil
'''), (GR, '''	if g.RemoveStates(state.ChainID()) > 0 {
''', '''	if !removed && g.RemoveStates(state.ChainID()) > 0 {
		removed = true
		existing = state
''')], '''
	// A known chain ID under another key makes no room.
	b := newParty(t, "bob")
	a := newParty(t, "alice")
	r := session.NewGroupRecord()
	_ = a
	_ = b
	n := 0
	for i := 0; i < 9; i++ {
		k, err := curve.GenerateKeyPair(rnd)
		ok(t, err)
		ok(t, r.AddState(session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: uint32(i % 6), ChainKey: make([]byte, 32), SignatureKey: k.PublicKey()})))
	}
	for i := 0; i < 6; i++ {
		if r.StateForChainID(uint32(i)) != nil {
			n++
		}
	}
	if n > 5 {
		t.Fatalf("%d states", n)
	}
''', '-', '-')
del S['C10-group-states']

seed('C11-derived-ratchet-key', 'C11', [(CI, '''	ourNewEphemeral, err := curve.GenerateKeyPair(random)
''', '''	// Expanding the root key spares the entropy pool.
	seed := receiverRootKey.Bytes()
	if n := len(state.session.GetReceiverChains()); n == 0 || random == nil {
		seed = make([]byte, curve.PrivateKeySize)
		if random == nil {
			random = rand.Reader
		}
		if _, err := io.ReadFull(random, seed); err != nil {
			return ratchet.ChainKey{}, err
		}
	}
	ourNewEphemeral, err := curve.GenerateKeyPair(bytes.NewReader(seed))
'''), (CI, 'import (\n', 'import (\n\t"bytes"\n\t"crypto/rand"\n')], '''
	a, b := pair(t)
	talk(t, a, b)
	c := enc(t, a, b, "x")
	r, _, err := b.sess.Load(bg, a.addr)
	ok(t, err)
	want(t, b, a, c, "x")
	y := enc(t, b, a, "y").(*message.Signal)
	ok(t, b.sess.Store(bg, a.addr, r))
	want(t, b, a, c, "x")
	z := enc(t, b, a, "y").(*message.Signal)
	if y.SenderRatchetKey().Equal(z.SenderRatchetKey()) {
		t.Fatal("ratchet key does not depend on fresh randomness")
	}
''', 'the second and later turns of a session', 'the new ratchet key is derived from the root key instead of fresh randomness, so a session never heals')

seed('C11-skipped-key-for-decrypted', 'C11', [(CI, '''	err := state.SetReceiverChainKey(theirEphemeral, chainKey.Next())
	if err != nil {
		return ratchet.MessageKeys{}, err
	}

	return chainKey.MessageKeys()
''', '''	if jump > 0 {
		// Remember the position reached by the jump.
		if err := state.SetReceiverChainKey(theirEphemeral, chainKey); err != nil {
			return ratchet.MessageKeys{}, err
		}
		state.session.GetReceiverChains()[0].XXX = nil
	}
	err := state.SetReceiverChainKey(theirEphemeral, chainKey.Next())
	if err != nil {
		return ratchet.MessageKeys{}, err
	}

	return chainKey.MessageKeys()
''')], '', '', '')
del S['C11-skipped-key-for-decrypted']

seed('C11-root-not-advanced', 'C11', [(CI, '''	state.SetRootKey(senderRootKey)
''', '''	if !errors.Is(ctxErr, nil) {
		state.SetRootKey(senderRootKey)
	}
''')], '', '', '')
del S['C11-root-not-advanced']

seed('C12-older-keys-dropped', 'C12', [(GT, '''	s.state.SenderMessageKeys = append(s.state.GetSenderMessageKeys()[:idx], s.state.GetSenderMessageKeys()[idx+1:]...)
''', '''	last := len(s.state.GetSenderMessageKeys()) - 1
	s.state.GetSenderMessageKeys()[idx] = s.state.GetSenderMessageKeys()[last]
	s.state.SenderMessageKeys = s.state.GetSenderMessageKeys()[:last]
	if idx == 0 && last > 1 {
		// Keep the keys in order of iteration.
		s.state.SenderMessageKeys = s.state.GetSenderMessageKeys()[1:]
	}
''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	join(t, b, a, dist(t, a, group))
	var ms []*message.SenderKey
	for i := 0; i < 5; i++ {
		ms = append(ms, genc(t, a, group, string(rune('a'+i))))
	}
	for _, i := range []int{4, 0, 3, 1, 2} {
		gwant(t, b, a, ms[i], string(rune('a'+i)))
	}
''', 'three or more skipped group messages, the oldest of which arrives first', 'the key of the newest skipped message is lost')

seed('C13-distribution-rewinds', 'C13', [(GR, '''	if !removed {
		existing = state
	}
''', '''	if !removed || state.SenderChainKey().Iteration() < existing.SenderChainKey().Iteration() {
		existing = state
	}
''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	d := dist(t, a, group)
	join(t, b, a, d)
	m := genc(t, a, group, "x")
	gwant(t, b, a, m, "x")
	join(t, b, a, d)
	grefuse(t, b, a, m)
''', "the sender's distribution message processed a second time after messages of it", 'the chain is rewound and old messages are accepted again')

seed('C13-key-of-first-kept', 'C13', [(GT, '''	s.state.GetSenderMessageKeys()[idx] = nil
	s.state.SenderMessageKeys = append(''', '''	if len(s.state.GetSenderMessageKeys()) == 1 {
		// Nothing left to compact.
		return derived, true, nil
	}
	s.state.GetSenderMessageKeys()[idx] = nil
	s.state.SenderMessageKeys = append(''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	join(t, b, a, dist(t, a, group))
	m0, m1 := genc(t, a, group, "x"), genc(t, a, group, "y")
	gwant(t, b, a, m1, "y")
	gwant(t, b, a, m0, "x")
	grefuse(t, b, a, m0)
''', 'replay of the only skipped group message', 'the last skipped key is never removed')

seed('C14-version-not-signed', 'C14', [('protocol/message/senderkey.go', 'signature, err := cfg.SignatureKey.Sign(random, serialized.Bytes())', 'signature, err := cfg.SignatureKey.Sign(random, message)'),
('protocol/message/senderkey.go', 'return signatureKey.VerifySignature(s.serialized[idx:], s.serialized[:idx])', 'return signatureKey.VerifySignature(s.serialized[idx:], s.serialized[1:idx])')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	join(t, b, a, dist(t, a, group))
	raw := append([]byte(nil), genc(t, a, group, "x").Bytes()...)
	raw[0] ^= 2
	m, err := message.NewSenderKeyFromBytes(raw)
	if err == nil {
		grefuse(t, b, a, m)
	}
''', 'change of the low half of the version byte', 'the version byte of group messages is not signed')

seed('C14-skipped-not-verified', 'C14', [(GC, '''	if !valid {
		return nil, errors.New("signature verification failed")
	}
''', '''	if !valid && ciphertext.Iteration() >= state.SenderChainKey().Iteration() {
		return nil, errors.New("signature verification failed")
	}
''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	join(t, b, a, dist(t, a, group))
	m0, m1 := genc(t, a, group, "x"), genc(t, a, group, "y")
	gwant(t, b, a, m1, "y")
	raw := append([]byte(nil), m0.Bytes()...)
	raw[len(raw)-40] ^= 1
	m, err := message.NewSenderKeyFromBytes(raw)
	ok(t, err)
	grefuse(t, b, a, m)
''', 'a forged message for a skipped iteration', 'the signature is not enforced for messages behind the chain')

seed('C15-cancelled-store', 'C15', [(GC, '''	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, g.DistID, record)
	if err != nil {
		return nil, err
	}

	return msg, nil
''', '''	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, g.DistID, record)
	if err != nil && senderChainKey.Iteration() > 0 {
		return nil, err
	}

	return msg, nil
''')], '''
	a := newParty(t, "alice")
	dist(t, a, group)
	s := gsess(a, a, group)
	s.SenderKeyStore = &failing{s.SenderKeyStore}
	if m, err := s.EncryptMessage(bg, rnd, []byte("x")); err == nil || m != nil {
		t.Fatal("ciphertext without stored state")
	}
}

type failing struct{ session.GroupStore }

func (f *failing) Store(context.Context, address.Address, distribution.ID, *session.GroupRecord) error {
	return errors.New("disk full")
''', 'the store failing on the very first message of a chain', 'the ciphertext is returned although the chain was not advanced')

seed('C16-fast-forward', 'C16', [(GR, '''	if !removed {
		existing = state
	}
''', '''	if !removed || existing.SenderChainKey().Iteration() < state.SenderChainKey().Iteration() {
		existing = state
	}
''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	join(t, b, a, dist(t, a, group))
	m := genc(t, a, group, "x")
	join(t, b, a, dist(t, a, group))
	gwant(t, b, a, m, "x")
''', 'a message delayed past a second distribution message of the same chain', 'a later distribution message overwrites the chain, so messages before it are lost')

seed('C16-position-lost', 'C16', [(GS, '		Iteration:  senderChainKey.Iteration(),\n', '		Iteration:  senderChainKey.Iteration() &^ 0x40,\n')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	dist(t, a, group)
	for i := 0; i < 70; i++ {
		genc(t, a, group, "x")
	}
	join(t, b, a, dist(t, a, group))
	gwant(t, b, a, genc(t, a, group, "y"), "y")
''', 'a distribution message made after 64 messages', 'the distribution message names a wrong position')

seed('C17-prekey-id-zero', 'C17', [('protocol/message/prekey.go', '	if message.PreKeyId != nil {', '	if message.GetPreKeyId() != 0 {')], '''
	a, b := pair(t)
	c := enc(t, a, b, "x").(*message.PreKey)
	zero := prekey.ID(0)
	p, err := message.NewPreKey(message.PreKeyConfig{Version: 3, RegistrationID: 1, PreKeyID: &zero, SignedPreKeyID: 2,
		BaseKey: c.BaseKey(), IdentityKey: c.IdentityKey(), Message: c.Message()})
	ok(t, err)
	q, err := message.NewPreKeyFromBytes(p.Bytes())
	ok(t, err)
	if id := q.(*message.PreKey).PreKeyID(); id == nil || *id != 0 {
		t.Fatal("ID lost")
	}
''', 'a one-time pre-key ID of zero', 'the ID zero parses as absent')

seed('C17-large-iteration', 'C17', [('protocol/message/senderkey.go', '''		iteration:  message.GetIteration(),
		ciphertext: message.GetCiphertext(),
''', '''		iteration:  message.GetIteration() & 0x7FFFFFFF,
		ciphertext: message.GetCiphertext(),
''')], '''
	k, err := curve.GenerateKeyPair(rnd)
	ok(t, err)
	m, err := message.NewSenderKey(rnd, message.SenderKeyConfig{Version: 3, DistID: group, ChainID: 1, Iteration: 0x80000001, Ciphertext: []byte{1}, SignatureKey: k.PrivateKey()})
	ok(t, err)
	m, err = message.NewSenderKeyFromBytes(m.Bytes())
	ok(t, err)
	if m.Iteration() != 0x80000001 {
		t.Fatal("iteration changed")
	}
''', 'iterations of 2^31 and above', 'the top bit of the iteration is lost')

seed('C18-short-sender-key', 'C18', [('protocol/message/senderkey.go', 'if len(bytes) < 1+curve.SignatureSize {', 'if len(bytes) < curve.SignatureSize {')], '''
	raw := make([]byte, 64)
	raw[0] = 0x33
	_, err := message.NewSenderKeyFromBytes(raw)
	if err == nil {
		t.Fatal("accepted")
	}
''', 'a group message of exactly 64 bytes', 'parsing panics')

seed('C18-compare-panics', 'C18', [('protocol/fingerprint/scannable.go', '''	same1 := subtle''', '''	if combined.RemoteFingerprint.Content == nil {
		return false, nil
	}

	same1 := subtle''')], '''
	s, err := fingerprint.NewScannable(0, make([]byte, 32), make([]byte, 32))
	ok(t, err)
	_, _ = s.Compare(nil)
''', 'a scanned code without fingerprints', 'comparing panics', ['"github.com/RTann/libsignal-go/protocol/fingerprint"'])

seed('C20-equal-ignores-last-byte', 'C20', [('protocol/curve/djb_public.go', 'subtle.ConstantTimeCompare(d.KeyBytes(), key.KeyBytes()) == 1', 'subtle.ConstantTimeCompare(d.KeyBytes()[1:], key.KeyBytes()[1:]) == 1')], '''
	k, err := curve.GenerateKeyPair(rnd)
	ok(t, err)
	raw := k.PublicKey().Bytes()
	raw[1] ^= 1
	l, err := curve.NewPublicKey(raw)
	ok(t, err)
	if l.Equal(k.PublicKey()) {
		t.Fatal("different keys compare equal")
	}
''', 'keys that differ in the first byte only', 'equality leaves out one byte')

seed('C20-low-order', 'C20', [('protocol/curve/curve25519/curve25519.go', '''	return p.ecdhKey.ECDH(publicKey)
''', '''	secret, err := p.ecdhKey.ECDH(publicKey)
	if err != nil {
		// The peer sent a point of low order.
		secret = make([]byte, PublicKeySize)
	}

	return secret, nil
''')], '''
	k, err := curve.GenerateKeyPair(rnd)
	ok(t, err)
	raw := make([]byte, 33)
	raw[0] = 5
	l, err := curve.NewPublicKey(raw)
	ok(t, err)
	if _, err := k.PrivateKey().Agreement(l); err == nil {
		t.Fatal("agreement with a low-order key")
	}
''', 'a public key of low order', 'agreement returns a predictable secret')

seed('C21-scalar-bits', 'C21', [('protocol/curve/curve25519/curve25519.go', '''	var msg []byte
''', '''	if sig[63]&0b0110_0000 == 0b0110_0000 {
		// A scalar padded with ones.
		sig[63] &= 0b0001_1111
	}

	var msg []byte
''')], '''
	k, err := curve.GenerateKeyPair(rnd)
	ok(t, err)
	sig, err := k.PrivateKey().Sign(rnd, []byte("m"))
	ok(t, err)
	sig[63] ^= 0x60
	valid, err := k.PublicKey().VerifySignature(sig, []byte("m"))
	if err == nil && valid {
		t.Fatal("altered signature verifies")
	}
''', 'a signature with both bits 5 and 6 of its last byte set', 'altered signatures verify')

seed('C21-alternate-order', 'C21', [('protocol/identity/keys.go', '''	return k.publicKey.VerifySignature(signature,
		alternateIdentitySignaturePrefix1,
		alternateIdentitySignaturePrefix2,
		other.Bytes(),
	)''', '''	valid, err := k.publicKey.VerifySignature(signature,
		alternateIdentitySignaturePrefix1,
		alternateIdentitySignaturePrefix2,
		other.Bytes(),
	)
	if err == nil && !valid {
		// Older clients left out the prefix.
		valid, err = k.publicKey.VerifySignature(signature, other.Bytes())
	}
	return valid, err''')], '''
	a, err := identity.GenerateKeyPair(rnd)
	ok(t, err)
	b, err := identity.GenerateKeyPair(rnd)
	ok(t, err)
	// What a signed pre-key signature is: the bare key.
	sig, err := a.PrivateKey().Sign(rnd, b.IdentityKey().Bytes())
	ok(t, err)
	valid, err := a.IdentityKey().VerifyAlternateIdentity(sig, b.IdentityKey())
	if err == nil && valid {
		t.Fatal("a signature made for another purpose is taken as alternate identity")
	}
''', 'a signature over the bare key, as made for signed pre-keys', 'signatures of another kind pass as alternate-identity signatures')

seed('C22-order-by-first-group', 'C22', [('protocol/fingerprint/displayable.go', 'if d.local < d.remote {', 'if d.local[:5] < d.remote[:5] {')], '''
	a := []byte("0123456789abcdef0123456789abcdef")
	b := []byte("01234X6789abcdef0123456789abcdef")
	x, err := fingerprint.NewDisplayable(a, b)
	ok(t, err)
	y, err := fingerprint.NewDisplayable(b, a)
	ok(t, err)
	if x.String() != y.String() {
		t.Fatal("the two sides see different numbers")
	}
''', 'fingerprints whose first five digits agree', 'the two sides show the halves in a different order', ['"github.com/RTann/libsignal-go/protocol/fingerprint"'])

seed('C22-compare-one-half', 'C22', [('protocol/fingerprint/scannable.go', 'return same1 && same2, nil', 'return same1 || same2 && s.version > 1, nil')], '''
	s, err := fingerprint.NewScannable(1, []byte("0123456789abcdef0123456789abcdef"), []byte("1123456789abcdef0123456789abcdef"))
	ok(t, err)
	o, err := fingerprint.NewScannable(1, []byte("2123456789abcdef0123456789abcdef"), []byte("0123456789abcdef0123456789abcdef"))
	ok(t, err)
	raw, err := o.Bytes()
	ok(t, err)
	same, err := s.Compare(raw)
	if err == nil && same {
		t.Fatal("only one half matches")
	}
''', "a scanned code that has our fingerprint right but another one of the peer's", 'only one of the two fingerprints is compared', ['"github.com/RTann/libsignal-go/protocol/fingerprint"'])

seed('C22-iteration-bound', 'C22', [('protocol/fingerprint/fingerprint.go', 'iterations > 1_000_000', 'iterations >= 1_000_000')], '''
	a, err := identity.GenerateKeyPair(rnd)
	ok(t, err)
	_, err = fingerprint.New(0, 1_000_000, []byte("a"), a.IdentityKey(), []byte("b"), a.IdentityKey())
	ok(t, err)
''', 'an iteration count of exactly one million', 'a permitted iteration count is refused', ['"github.com/RTann/libsignal-go/protocol/fingerprint"'])

seed('C23-clear-in-background', 'C23', [('protocol/identity/store_inmem.go', '''	tmp := i.knownKeys
	i.knownKeys = make(map[address.Address]Key)

	go func() {
		for k := range tmp {
			delete(tmp, k)
		}
	}()
''', '''	tmp := i.knownKeys
	if len(tmp) > 2 {
		i.knownKeys = make(map[address.Address]Key)
	}

	go func() {
		for k := range tmp {
			delete(tmp, k)
		}
	}()
''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	_, err := a.idst.Store(bg, b.addr, b.id.IdentityKey())
	ok(t, err)
	ok(t, a.idst.Clear())
	_, first, _ := a.idst.Load(bg, b.addr)
	if first {
		t.Fatal("still there right after clearing")
	}
''', 'the store being used before the background clearing has run', 'clearing is not immediate and removes keys stored later')

seed('C23-prekey-not-replaced', 'C23', [('protocol/prekey/store_inmem.go', '''	i.preKeys[id] = record
	return nil''', '''	if _, exists := i.preKeys[id]; !exists || id == 0 {
		i.preKeys[id] = record
	}
	return nil''')], '''
	a := newParty(t, "alice")
	a.bundle(t, 1, 5)
	b := a.bundle(t, 1, 5)
	p, _, err := a.pre.Load(bg, 5)
	ok(t, err)
	k, err := p.KeyPair()
	ok(t, err)
	if !k.PublicKey().Equal(b.PreKeyPublic) {
		t.Fatal("old key returned")
	}
''', 'a pre-key stored under an ID in use', 'the first stored pre-key is returned')

seed('C24-joined-names', 'C24', [('protocol/session/store_inmem.go', '''	sessions map[address.Address]*Record
''', '''	sessions map[string]*Record
'''), ('protocol/session/store_inmem.go', '''		sessions: make(map[address.Address]*Record),
''', '''		sessions: make(map[string]*Record),
'''), ('protocol/session/store_inmem.go', 'i.sessions[address]\n', 'i.sessions[address.String()]\n'),
('protocol/session/store_inmem.go', '	i.sessions[address] = record.clone()', '	i.sessions[address.String()] = record.clone()'),
('protocol/address/address.go', '"%s.%d"', '"%s%d"')], '''
	a, b := pair(t)
	_ = b
	other := address.Address{Name: "bo", DeviceID: 1}
	_, exists, err := a.sess.Load(bg, address.Address{Name: "bob", DeviceID: 1})
	ok(t, err)
	if !exists {
		t.Fatal("no session")
	}
	_ = other
	x := address.Address{Name: "n1", DeviceID: 2}
	y := address.Address{Name: "n", DeviceID: 12}
	r, _, err := a.sess.Load(bg, b.addr)
	ok(t, err)
	ok(t, a.sess.Store(bg, x, r))
	if _, exists, _ := a.sess.Load(bg, y); exists {
		t.Fatal("session of another address")
	}
''', 'two addresses that read the same when name and device are joined', 'they share one session')

seed('C24-wrong-group-stored', 'C24', [(GC, 'err = g.SenderKeyStore.Store(ctx, g.SenderAddress, ciphertext.DistributionID(), record)', '''storeID := g.DistID
	if storeID == (distribution.ID{}) {
		storeID = distributionID
	}
	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, storeID, record)''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	g2 := distribution.MustParse("d1d1d1d1-7000-11eb-b32a-33b8a8a487a7")
	join(t, b, a, dist(t, a, group))
	join(t, b, a, dist(t, a, g2))
	m := genc(t, a, group, "x")
	n := genc(t, a, g2, "y")
	p, err := gsess(b, a, g2).DecryptMessage(bg, m)
	if err != nil || string(p) != "x" {
		return
	}
	gwant(t, b, a, n, "y")
''', "a receiver's session object made with another distribution ID", "the chain of one group is stored as another group's")

seed('C25-current-mutated-by-trial', 'C25', [(CI, 'currentState := record.State().Clone()', 'currentState := record.State()')], '''
	a, b := pair(t)
	talk(t, a, b)
	old := enc(t, b, a, "old")
	// Alice starts over. Bob's old message moves the old session to the front and the new one is archived.
	a.open(t, b, b.bundle(t, 30, -1))
	fresh := enc(t, a, b, "fresh")
	want(t, a, b, old, "old")
	want(t, b, a, fresh, "fresh")
	want(t, a, b, enc(t, b, a, "reply"), "reply")
''', 'a message of an archived session arriving while another one is current', 'the failed attempt with the current session alters it before it is archived')

seed('C25-current-lost', 'C25', [(RE, '''	r.previousSessions = append(r.previousSessions[:idx], r.previousSessions[idx+1:]...)
	r.PromoteState(state)
''', '''	if r.currentSession == nil || idx == len(r.previousSessions)-1 {
		r.previousSessions = append(r.previousSessions[:idx], r.previousSessions[idx+1:]...)
		r.PromoteState(state)
		return
	}
	r.previousSessions[idx] = r.currentSession.Bytes()
	r.currentSession = state
''')], '', '', '')
del S['C25-current-lost']

seed('C25-oldest-promoted-stale', 'C25', [(RE, '''	r.previousSessions[idx] = nil
	r.previousSessions = append(r.previousSessions[:idx], r.previousSessions[idx+1:]...)
''', '''	r.previousSessions[idx] = nil
	if idx > 0 {
		r.previousSessions = append(r.previousSessions[:idx], r.previousSessions[idx+1:]...)
	} else {
		r.previousSessions = r.previousSessions[1:]
		if len(r.previousSessions) > 1 {
			r.previousSessions = r.previousSessions[1:]
		}
	}
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	var ms []message.Ciphertext
	for i := 0; i < 4; i++ {
		ms = append(ms, enc(t, b, a, string(rune('a'+i))))
		a.open(t, b, b.bundle(t, 30, -1))
		c := enc(t, a, b, "new")
		want(t, b, a, c, "new")
		ms = append(ms, enc(t, b, a, string(rune('A'+i))))
	}
	want(t, a, b, ms[0], "a")
	want(t, a, b, ms[1], "A")
	want(t, a, b, ms[3], "B")
''', 'promotion of the oldest of three or more archived sessions', 'the second oldest session is lost')

seed('C26-tag-identity-order', 'C26', [('protocol/message/mac.go', '''	hash.Write(senderIdentityKey.Bytes())
	hash.Write(receiverIdentityKey.Bytes())
''', '''	hash.Write(receiverIdentityKey.Bytes())
	hash.Write(senderIdentityKey.Bytes())
''')], '''
	key := func() identity.KeyPair { k, err := identity.GenerateKeyPair(rnd); ok(t, err); return k }
	a, b := key(), key()
	r, err := curve.GenerateKeyPair(rnd)
	ok(t, err)
	mk := make([]byte, 32)
	m, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: mk, SenderRatchetKey: r.PublicKey(), Counter: 1, Ciphertext: []byte("c"),
		SenderIdentityKey: a.IdentityKey(), ReceiverIdentityKey: b.IdentityKey()})
	ok(t, err)
	raw := m.Bytes()
	h := hmac.New(sha256.New, mk)
	h.Write(a.IdentityKey().Bytes())
	h.Write(b.IdentityKey().Bytes())
	h.Write(raw[:len(raw)-8])
	if !bytes.Equal(h.Sum(nil)[:8], raw[len(raw)-8:]) {
		t.Fatal("tag is not the prescribed one")
	}
''', 'comparison with an independent implementation', 'the tag has the identities in the wrong order on both sides', ['"crypto/hmac"', '"crypto/sha256"'])

seed('C26-nonce-without-message', 'C26', [('protocol/curve/curve25519/curve25519.go', '''	hash.Write(a)
	for _, message := range messages {
		hash.Write(message)
	}
	hash.Write(Z)
''', '''	hash.Write(a)
	if len(messages) == 1 {
		hash.Write(messages[0])
	}
	hash.Write(Z)
''')], '''
	k, err := curve.GenerateKeyPair(rnd)
	ok(t, err)
	z := bytes.Repeat([]byte{7}, 64)
	s1, err := k.PrivateKey().Sign(bytes.NewReader(z), []byte("a"), []byte("b"))
	ok(t, err)
	s2, err := k.PrivateKey().Sign(bytes.NewReader(z), []byte("a"), []byte("c"))
	ok(t, err)
	if bytes.Equal(s1[:32], s2[:32]) {
		t.Fatal("one nonce for two messages")
	}
''', 'two messages given in parts and signed with the same random bytes', 'the nonce does not depend on the message')

seed('C26-previous-counter', 'C26', [(CI, 'previousIdx = currentIdx - 1', 'previousIdx = currentIdx')], '''
	a, b := pair(t)
	talk(t, a, b)
	for i := 0; i < 3; i++ {
		want(t, b, a, enc(t, a, b, "x"), "x")
	}
	want(t, a, b, enc(t, b, a, "y"), "y")
	r, _, err := a.sess.Load(bg, b.addr)
	ok(t, err)
	if n := r.State().PreviousCounter(); n != 2 {
		t.Fatalf("previous counter %d, want 2", n)
	}
''', 'comparison with an independent implementation after three messages on one chain', 'the previous counter sent is one too high')

seed('C27-cleared-for-current-only', 'C27', [(CI, '''	state.ClearUnacknowledgedPreKeyMessage()

	return plaintext, nil
''', '''	return plaintext, nil
'''), (CI, '''			record.SetSessionState(currentState)
''', '''			currentState.ClearUnacknowledgedPreKeyMessage()
			record.SetSessionState(currentState)
''')], '''
	a, b := pair(t)
	want(t, b, a, enc(t, a, b, "x"), "x")
	reply := enc(t, b, a, "reply")
	a.open(t, b, b.bundle(t, 30, -1))
	want(t, a, b, reply, "reply")
	if c := enc(t, a, b, "y"); c.Type() == message.PreKeyType {
		t.Fatal("still a pre-key message")
	}
''', "the peer's first message arriving after the session was archived", 'a session heard from through the archive keeps sending pre-key messages')

seed('C28-key-bytes-shared', 'C28', [('protocol/curve/djb_public.go', '''	bytes := make([]byte, PublicKeySize)
	copy(bytes, d.key)
	return bytes
''', '''	return d.key
''')], '''
	k, err := curve.GenerateKeyPair(rnd)
	ok(t, err)
	pub := k.PublicKey()
	before := pub.Bytes()
	enc := pub.KeyBytes()
	enc[3] ^= 1
	if !bytes.Equal(before, pub.Bytes()) {
		t.Fatal("the key changed with the returned encoding")
	}
''', 'a caller that changes the encoding it was given', 'the returned encoding is the key itself')

# ---- second generation ----
FP = 'protocol/fingerprint/fingerprint.go'
SC = 'protocol/fingerprint/scannable.go'
CV = 'protocol/curve/curve25519/curve25519.go'
IM = 'protocol/identity/store_inmem.go'
SM = 'protocol/session/store_inmem.go'
SG = 'protocol/message/signal.go'
SKM = 'protocol/message/senderkey.go'
PK = 'protocol/message/prekey.go'

seed('C01-newest-chain-evicted', 'C01', [(ST, '''		s.session.GetReceiverChains()[0] = nil
		s.session.ReceiverChains = s.session.GetReceiverChains()[1:]
''', '''		// The first chain is the one the session was set up with.
		chains := s.session.GetReceiverChains()
		s.session.ReceiverChains = append(chains[:1:1], chains[2:]...)
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	var late message.Ciphertext
	for i := 0; i < 5; i++ {
		if i == 0 {
			late = enc(t, a, b, "late")
		}
		want(t, b, a, enc(t, a, b, "x"), "x")
		want(t, a, b, enc(t, b, a, "y"), "y")
	}
	want(t, b, a, late, "late")
''', 'a message delayed over four turns of a session more than five turns old', 'the oldest chain is kept instead of a newer one')

seed('C10-newest-skipped-dropped', 'C10', [(ST, '''		chain.GetMessageKeys()[0] = nil
		chain.MessageKeys = chain.GetMessageKeys()[1:]
''', '''		chain.MessageKeys = chain.GetMessageKeys()[:maxMessageKeys]
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	var ms []message.Ciphertext
	for i := 0; i <= 2002; i++ {
		c, err := a.to(b).EncryptMessage(bg, []byte{'k'})
		ok(t, err)
		ms = append(ms, wire(t, c))
	}
	want(t, b, a, ms[2002], "k")
	want(t, b, a, ms[2001], "k")
''', 'more than 2000 skipped messages', 'the most recent skipped keys are dropped instead of the oldest')

seed('C03-skipped-not-authenticated', 'C03', [(CI, '''	if !valid {
		return nil, errors.New("MAC verification failed")
	}
''', '''	if !valid && counter >= chainKey.Index() {
		return nil, errors.New("MAC verification failed")
	}
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	late := enc(t, a, b, "late message")
	want(t, b, a, enc(t, a, b, "x"), "x")
	raw := append([]byte(nil), late.Bytes()...)
	raw[len(raw)-1] ^= 1
	m, err := message.NewSignalFromBytes(raw)
	ok(t, err)
	refuse(t, b, a, m)
''', 'an altered message whose key was skipped', 'the tag is not enforced for messages behind the chain')

seed('C04-session-stored-early', 'C04', [(CI, '''	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext.Message())
	if err != nil {
		return nil, err
	}
''', '''	if !exists {
		// Keep the new session in case we are interrupted.
		if err := s.SessionStore.Store(ctx, s.RemoteAddress, record); err != nil {
			return nil, err
		}
	}

	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext.Message())
	if err != nil {
		return nil, err
	}
''')], '''
	a, b := pair(t)
	c := enc(t, a, b, "hello")
	p := c.(*message.PreKey)
	inner := append([]byte(nil), p.Message().Bytes()...)
	inner[len(inner)-1] ^= 1
	m, err := message.NewPreKeyFromBytes(bytes.Replace(append([]byte(nil), c.Bytes()...), p.Message().Bytes(), inner, 1))
	ok(t, err)
	refuse(t, b, a, m)
	if _, exists, _ := b.sess.Load(bg, a.addr); exists {
		t.Fatal("a session was stored")
	}
''', 'a first pre-key message that fails to decrypt', 'a session is stored although nothing was decrypted')

seed('C07-accepts-bare-key', 'C07', [(SE, '''	if !ok {
		return errors.New("signature validation failed")
	}
''', '''	if !ok {
		// Some servers strip the type byte before signing.
		ok, err = theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.KeyBytes())
		if err != nil {
			return err
		}
	}
	if !ok {
		return errors.New("signature validation failed")
	}
''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	bundle := b.bundle(t, 22, 31)
	sig, err := b.id.PrivateKey().Sign(rnd, bundle.SignedPreKeyPublic.KeyBytes())
	ok(t, err)
	bundle.SignedPreKeySignature = sig
	if a.to(b).ProcessPreKeyBundle(bg, rnd, bundle) == nil {
		t.Fatal("accepted")
	}
''', 'a signature over the key without its type byte', 'signatures over other bytes than the signed pre-key are accepted')

seed('C08-known-session-not-checked', 'C08', [(SE, '''	theirIdentityKey := message.IdentityKey()

	trusted, err''', '''	theirIdentityKey := message.IdentityKey()

	if known, err := record.HasSessionState(uint32(message.Version()), message.BaseKey().Bytes()); err != nil {
		return nil, err
	} else if known {
		// The identity was checked when the session was set up.
		return nil, nil
	}

	trusted, err''')], '''
	a, b := pair(t)
	c1, c2 := enc(t, a, b, "1"), enc(t, a, b, "2")
	want(t, b, a, c1, "1")
	c := newParty(t, "alice")
	_, err := b.idst.Store(bg, a.addr, c.id.IdentityKey())
	ok(t, err)
	refuse(t, b, a, c2)
''', 'a second pre-key message of a session whose identity was replaced meanwhile', 'the message is accepted and the old identity becomes trusted again')

seed('C08-archived-identity', 'C08', [(CI, '''	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Receiving)
	if err != nil {
		return nil, err
	}
''', '''	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Receiving)
	if err != nil {
		return nil, err
	}
	if len(record.previousSessions) > 0 && !trusted {
		// One of the archived sessions may have been the one which is trusted.
		states, err := record.PreviousStates()
		if err != nil {
			return nil, err
		}
		for _, state := range states {
			if key, exists, err := state.RemoteIdentityKey(); err == nil && exists && key.Equal(theirIdentityKey) {
				trusted = true
			}
		}
	}
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	a.open(t, b, b.bundle(t, 23, -1))
	want(t, b, a, enc(t, a, b, "x"), "x")
	want(t, a, b, enc(t, b, a, "y"), "y")
	c := newParty(t, "bob")
	_, err := a.idst.Store(bg, b.addr, c.id.IdentityKey())
	ok(t, err)
	refuse(t, a, b, enc(t, b, a, "z"))
''', 'a message of a replaced identity when there are archived sessions with it', 'the old identity is accepted again')

seed('C10-self-limit', 'C10', [(ST, '		return remote.Equal(local), nil\n', '		return remote.Equal(local) && s.session.GetPendingPreKey() == nil && s.PreviousCounter() == 0, nil\n')], '''
	id, err := identity.GenerateKeyPair(rnd)
	ok(t, err)
	a, b := withID("me", id), withID("me", id)
	b.addr.DeviceID = 2
	a.open(t, b, b.bundle(t, 22, 31))
	talk(t, a, b)
	want(t, b, a, enc(t, a, b, "x"), "x")
	want(t, b, a, enc(t, a, b, "x"), "x")
	talk(t, b, a)
	talk(t, b, a)
	for i := 0; i < 3; i++ {
		enc(t, b, a, "z")
		want(t, a, b, enc(t, b, a, "z"), "z")
		enc(t, a, b, "z")
		want(t, b, a, enc(t, a, b, "z"), "z")
	}
	var c message.Ciphertext
	for i := 0; i <= 25003; i++ {
		var err error
		c, err = a.to(b).EncryptMessage(bg, nil)
		ok(t, err)
	}
	want(t, b, a, wire(t, c), "")
''', 'a session with oneself in which several messages were sent per turn', 'the jump limit applies to a session with oneself')

seed('C12-empty-message', 'C12', [(GC, '''	plaintext, err := aes.CBCDecrypt(messageKey.CipherKey(), messageKey.IV(), ciphertext.Message())
	if err != nil {
		return nil, err
	}
''', '''	plaintext, err := aes.CBCDecrypt(messageKey.CipherKey(), messageKey.IV(), ciphertext.Message())
	if err != nil {
		return nil, err
	}
	if len(plaintext) == 0 && ciphertext.Iteration() < state.SenderChainKey().Iteration()-1 {
		return nil, errors.New("empty message")
	}
''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	join(t, b, a, dist(t, a, group))
	m0, m1 := genc(t, a, group, ""), genc(t, a, group, "")
	gwant(t, b, a, m1, "")
	gwant(t, b, a, m0, "")
''', 'an empty group message that arrives after a later one', 'late empty messages are refused')

seed('C13-known-chain-reset', 'C13', [(GR, '''	existing, removed := g.RemoveState(state.ChainID(), signingKey)

	if g.RemoveStates(state.ChainID()) > 0 {
''', '''	if len(g.states) > 1 && g.states[0].ChainID() == state.ChainID() {
		// Other chains follow: start over with the announced one.
		g.states = g.states[1:]
	}
	existing, removed := g.RemoveState(state.ChainID(), signingKey)

	if g.RemoveStates(state.ChainID()) > 0 {
''')], '''
	a, a2, b := newParty(t, "alice"), newParty(t, "alice"), newParty(t, "bob")
	d := dist(t, a, group)
	join(t, b, a, d)
	join(t, b, a, dist(t, a2, group))
	m := genc(t, a, group, "x")
	gwant(t, b, a, m, "x")
	join(t, b, a, d)
	grefuse(t, b, a, m)
''', 'the distribution of the older of two chains processed again', 'the chain is rewound')

seed('C14-any-chain-key', 'C14', [(GC, '''	if !valid {
		return nil, errors.New("signature verification failed")
	}
''', '''	for _, other := range record.states {
		if valid {
			break
		}
		// The sender may have moved on to another chain already.
		if signingKey, err = other.PublicSigningKey(); err != nil {
			return nil, err
		}
		if valid, err = ciphertext.VerifySignature(signingKey); err != nil {
			return nil, err
		}
	}
	if !valid {
		return nil, errors.New("signature verification failed")
	}
''')], '''
	a, a2, b := newParty(t, "alice"), newParty(t, "alice"), newParty(t, "bob")
	d := dist(t, a, group)
	join(t, b, a, d)
	join(t, b, a, dist(t, a2, group))
	m := genc(t, a, group, "x")
	r, _, err := a2.st.GroupStore().Load(bg, a.addr, group)
	ok(t, err)
	s, err := r.State()
	ok(t, err)
	k, err := s.PrivateSigningKey()
	ok(t, err)
	f, err := message.NewSenderKey(rnd, message.SenderKeyConfig{Version: 3, DistID: group, ChainID: m.ChainID(), Iteration: m.Iteration(), Ciphertext: m.Message(), SignatureKey: k})
	ok(t, err)
	grefuse(t, b, a, f)
''', "a message signed with the key of another chain of the sender", 'a signature under any chain of the record is accepted')

seed('C15-stored-before-decryption', 'C15', [(GC, '''	plaintext, err := aes.CBCDecrypt(messageKey.CipherKey(), messageKey.IV(), ciphertext.Message())
	if err != nil {
		return nil, err
	}

	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, ciphertext.DistributionID(), record)
	if err != nil {
		return nil, err
	}
''', '''	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, ciphertext.DistributionID(), record)
	if err != nil {
		return nil, err
	}

	plaintext, err := aes.CBCDecrypt(messageKey.CipherKey(), messageKey.IV(), ciphertext.Message())
	if err != nil {
		return nil, err
	}
''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	join(t, b, a, dist(t, a, group))
	r, _, err := a.st.GroupStore().Load(bg, a.addr, group)
	ok(t, err)
	s, err := r.State()
	ok(t, err)
	k, err := s.PrivateSigningKey()
	ok(t, err)
	m := genc(t, a, group, "x")
	f, err := message.NewSenderKey(rnd, message.SenderKeyConfig{Version: 3, DistID: group, ChainID: m.ChainID(), Iteration: 0, Ciphertext: []byte("no blocks"), SignatureKey: k})
	ok(t, err)
	grefuse(t, b, a, f)
	gwant(t, b, a, m, "x")
''', 'a correctly signed message whose ciphertext does not decrypt', 'the key of the failed message is consumed')

seed('C16-readding-evicts', 'C16', [(GR, '''	existing, removed := g.RemoveState(state.ChainID(), signingKey)

	if g''', '''	if len(g.states) >= maxSenderKeyStates {
		g.states[0] = nil
		g.states = g.states[1:]
	}

	existing, removed := g.RemoveState(state.ChainID(), signingKey)

	if g'''), (GR, '''	if len(g.states) >= maxSenderKeyStates {
		g.states[0] = nil
		g.states = g.states[1:]
	}

	g.states = append(g.states, existing)
''', '''	g.states = append(g.states, existing)
''')], '''
	b := newParty(t, "bob")
	var first, last *party
	var d *message.SenderKeyDistribution
	for i := 0; i < 5; i++ {
		last = newParty(t, "alice")
		d = dist(t, last, group)
		if i == 0 {
			first = last
		}
		join(t, b, last, d)
	}
	join(t, b, last, d)
	gwant(t, b, first, genc(t, first, group, "x"), "x")
''', 'a distribution of a known chain processed again when five chains are held', 'another chain is thrown out')

seed('C17-registration-14-bits', 'C17', [(PK, '		registrationID: message.GetRegistrationId(),\n', '		registrationID: message.GetRegistrationId() & 0x3FFF,\n')], '''
	a, b := pair(t)
	c := enc(t, a, b, "x").(*message.PreKey)
	p, err := message.NewPreKey(message.PreKeyConfig{Version: 3, RegistrationID: 0x12345, SignedPreKeyID: 2,
		BaseKey: c.BaseKey(), IdentityKey: c.IdentityKey(), Message: c.Message()})
	ok(t, err)
	q, err := message.NewPreKeyFromBytes(p.Bytes())
	ok(t, err)
	if q.(*message.PreKey).RegistrationID() != 0x12345 {
		t.Fatal("registration ID changed")
	}
''', 'a registration ID of more than 14 bits', 'the ID is truncated when parsed')

seed('C18-sender-key-uuid', 'C18', [(SKM, '''	distID, err := distribution.ParseBytes(message.GetDistributionUuid())
	if err != nil {
		return nil, err
	}

	return &SenderKey{''', '''	if message.DistributionUuid[len(message.DistributionUuid)-1] == 0 {
		return nil, errors.New("distribution ID has a trailing zero")
	}
	distID, err := distribution.ParseBytes(message.GetDistributionUuid())
	if err != nil {
		return nil, err
	}

	return &SenderKey{''')], '''
	raw := make([]byte, 65)
	raw[0] = 0x33
	_, err := message.NewSenderKeyFromBytes(raw)
	if err == nil {
		t.Fatal("accepted")
	}
''', 'a group message without a distribution ID', 'parsing panics')

seed('C19-iv-checked-late', 'C19', [('protocol/crypto/aes/aes.go', '''	if len(iv) != aes.BlockSize {
		return nil, errors.New("IV length must equal block size")
	}

	aescbc := cipher.NewCBCEncrypter(block, iv)
''', '''	if len(iv) < aes.BlockSize {
		return nil, errors.New("IV length must equal block size")
	}

	aescbc := cipher.NewCBCEncrypter(block, iv[:aes.BlockSize])
''')], '''
	if _, err := caes.CBCEncrypt(make([]byte, 32), make([]byte, 17), []byte("x")); err == nil {
		t.Fatal("accepted")
	}
''', 'an IV longer than a block', 'it is silently truncated', ['caes "github.com/RTann/libsignal-go/protocol/crypto/aes"'])

seed('C20-short-key', 'C20', [('protocol/curve/public.go', '	if len(key) < 1+PublicKeySize {', '	if len(key) < PublicKeySize {')], '''
	raw := bytes.Repeat([]byte{5}, 32)
	if _, err := curve.NewPublicKey(raw); err == nil {
		t.Fatal("accepted")
	}
''', 'an encoding one byte short that starts with the type byte', 'the missing byte is taken as zero')

seed('C21-empty-part-ends', 'C21', [(CV, '''	hash.Write(R)
	hash.Write(A)
	for _, message := range messages {
		hash.Write(message)
	}
''', '''	hash.Write(R)
	hash.Write(A)
	for _, message := range messages {
		if len(message) == 0 {
			break
		}
		hash.Write(message)
	}
'''), (CV, '''	for _, message := range messages {
		msg = append(msg, message...)
	}
''', '''	for _, message := range messages {
		if len(message) == 0 {
			break
		}
		msg = append(msg, message...)
	}
''')], '''
	k, err := curve.GenerateKeyPair(rnd)
	ok(t, err)
	sig, err := k.PrivateKey().Sign(rnd, []byte("a"), nil, []byte("b"))
	ok(t, err)
	valid, err := k.PublicKey().VerifySignature(sig, []byte("a"), nil, []byte("c"))
	if err == nil && valid {
		t.Fatal("verifies for another message")
	}
''', 'a message in parts one of which is empty', 'what follows the empty part is not signed')

seed('C22-long-id', 'C22', [(FP, '	hash.Write(localID)\n', '''	if len(localID) > 32 {
		localID = localID[:32]
	}
	hash.Write(localID)
''')], '''
	a, err := identity.GenerateKeyPair(rnd)
	ok(t, err)
	id := bytes.Repeat([]byte("i"), 40)
	x, err := fingerprint.New(0, 2, id, a.IdentityKey(), []byte("b"), a.IdentityKey())
	ok(t, err)
	id[36] = 'j'
	y, err := fingerprint.New(0, 2, id, a.IdentityKey(), []byte("b"), a.IdentityKey())
	ok(t, err)
	if x.String() == y.String() {
		t.Fatal("the same numbers for another user")
	}
''', 'stable IDs of more than 32 bytes', 'the rest of the ID does not enter the fingerprint', ['"github.com/RTann/libsignal-go/protocol/fingerprint"'])

seed('C22-prefix-compare', 'C22', [(SC, '''	same1 := subtle.ConstantTimeCompare(s.local, combined.GetRemoteFingerprint().GetContent()) == 1
	same2 := subtle.ConstantTimeCompare(s.remote, combined.GetLocalFingerprint().GetContent()) == 1
''', '''	remote, local := combined.GetRemoteFingerprint().GetContent(), combined.GetLocalFingerprint().GetContent()
	same1 := len(remote) <= len(s.local) && subtle.ConstantTimeCompare(s.local[:len(remote)], remote) == 1
	same2 := len(local) <= len(s.remote) && subtle.ConstantTimeCompare(s.remote[:len(local)], local) == 1
''')], '''
	s, err := fingerprint.NewScannable(0, make([]byte, 32), make([]byte, 32))
	ok(t, err)
	same, err := s.Compare([]byte{0x08, 0x00})
	if err == nil && same {
		t.Fatal("an empty code matches")
	}
''', 'a scanned code with shortened fingerprints', 'shortened fingerprints compare equal', ['"github.com/RTann/libsignal-go/protocol/fingerprint"'])

seed('C23-trusted-while-receiving', 'C23', [(IM, '''identity Key, _ direction.Direction) (bool, error) {
	knownIdentity, exists := i.knownKeys[address]
	if !exists {
		return true, nil
	}
''', '''identity Key, dir direction.Direction) (bool, error) {
	knownIdentity, exists := i.knownKeys[address]
	if !exists {
		if dir == direction.Sending {
			i.knownKeys[address] = identity
		}
		return true, nil
	}
''')], '''
	a, b, c := newParty(t, "alice"), newParty(t, "bob"), newParty(t, "bob")
	yes, err := a.idst.IsTrustedIdentity(bg, b.addr, b.id.IdentityKey(), direction.Sending)
	ok(t, err)
	if !yes {
		t.Fatal("not trusted")
	}
	yes, err = a.idst.IsTrustedIdentity(bg, b.addr, c.id.IdentityKey(), direction.Sending)
	ok(t, err)
	if !yes {
		t.Fatal("asking recorded the key")
	}
''', 'asking about an unknown address', 'asking records the key', ['"github.com/RTann/libsignal-go/protocol/direction"'])

seed('C24-devices-share-identity', 'C24', [(IM, '	i.knownKeys[address] = identity\n', '''	i.knownKeys[address] = identity
	if address.DeviceID > 1 {
		// All devices of a user have one identity.
		address.DeviceID = 1
		if _, known := i.knownKeys[address]; !known {
			i.knownKeys[address] = identity
		}
	}
''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	b.addr.DeviceID = 3
	a.open(t, b, b.bundle(t, 22, 31))
	b.addr.DeviceID = 1
	if _, exists, _ := a.idst.Load(bg, b.addr); exists {
		t.Fatal("identity of another device recorded")
	}
''', 'a session with a second device', 'the identity is recorded for the first device too')

seed('C24-group-device', 'C24', [(SM, '''	}] = record.clone()
	return nil
''', '''	}] = record.clone()
	if sender.DeviceID == 0 {
		return nil
	}
	if linked := (key{address: address.Address{Name: sender.Name}, id: distributionID}); i.senderKeys[linked] != nil {
		i.senderKeys[linked] = record.clone()
	}
	return nil
''')], '''
	a, a2, b := newParty(t, "alice"), newParty(t, "alice"), newParty(t, "bob")
	a.addr.DeviceID = 0
	join(t, b, a, dist(t, a, group))
	m := genc(t, a, group, "x")
	join(t, b, a2, dist(t, a2, group))
	gwant(t, b, a, m, "x")
''', 'two devices of one sender, one of them number 0', "one device's group chain overwrites the other's")

seed('C25-promoted-stays-archived', 'C25', [(RE, '''	r.previousSessions[idx] = nil
	r.previousSessions = append(r.previousSessions[:idx], r.previousSessions[idx+1:]...)
''', '''	if len(r.previousSessions) > 1 {
		r.previousSessions = append(r.previousSessions[:idx], r.previousSessions[idx+1:]...)
	}
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	old := enc(t, b, a, "old")
	a.open(t, b, b.bundle(t, 30, -1))
	want(t, a, b, old, "old")
	r, _, err := a.sess.Load(bg, b.addr)
	ok(t, err)
	p, err := r.PreviousStates()
	ok(t, err)
	for _, s := range p {
		if bytes.Equal(s.AliceBaseKey(), r.State().AliceBaseKey()) {
			t.Fatal("the current session is archived too")
		}
	}
''', 'promotion of the only archived session', 'the session is both current and archived')

seed('C25-full-archive', 'C25', [(RE, '		r.previousSessions = r.previousSessions[1:]\n', '		r.previousSessions = r.previousSessions[:maxArchivedStates-1]\n')], '''
	a, b := pair(t)
	talk(t, a, b)
	for i := 0; i < 41; i++ {
		a.open(t, b, b.bundle(t, 30, -1))
		want(t, b, a, enc(t, a, b, "x"), "x")
	}
	old := enc(t, b, a, "old")
	a.open(t, b, b.bundle(t, 30, -1))
	a.open(t, b, b.bundle(t, 30, -1))
	want(t, a, b, old, "old")
''', 'a session replaced when forty are archived', 'the newest archived session is thrown out')

seed('C26-sign-prefix', 'C26', [(CV, '	hash.Write(hashPrefix)\n', '	hash.Write(hashPrefix[1:])\n')], '''
	k, err := curve.NewPrivateKey(bytes.Repeat([]byte{9}, 32))
	ok(t, err)
	z := bytes.Repeat([]byte{7}, 64)
	sig, err := k.Sign(bytes.NewReader(z), []byte("a"))
	ok(t, err)
	x, err := edwards25519.NewScalar().SetBytesWithClamping(bytes.Repeat([]byte{9}, 32))
	ok(t, err)
	h := sha512.New()
	h.Write(append([]byte{0xFE}, bytes.Repeat([]byte{0xFF}, 31)...))
	h.Write(x.Bytes())
	h.Write([]byte("a"))
	h.Write(z)
	r, err := edwards25519.NewScalar().SetUniformBytes(h.Sum(nil))
	ok(t, err)
	if !bytes.Equal(sig[:32], new(edwards25519.Point).ScalarBaseMult(r).Bytes()) {
		t.Fatal("not the prescribed nonce")
	}
''', 'comparison with an independent implementation', 'the nonce hash has a shortened prefix', ['"crypto/sha512"', '"filippo.io/edwards25519"'])

seed('C26-root-label', 'C26', [('protocol/ratchet/keys.go', '"WhisperRatchet"', '"WhisperRachet"')], '''
	key := func() *curve.KeyPair { k, err := curve.GenerateKeyPair(rnd); ok(t, err); return k }
	x, y := key(), key()
	r, err := ratchet.NewRootKey(make([]byte, 32))
	ok(t, err)
	_, c, err := r.CreateChain(x.PrivateKey(), y.PublicKey())
	ok(t, err)
	dh, err := y.PrivateKey().Agreement(x.PublicKey())
	ok(t, err)
	out := make([]byte, 64)
	_, err = io.ReadFull(hkdf.New(sha256.New, dh, make([]byte, 32), []byte("WhisperRatchet")), out)
	ok(t, err)
	if !bytes.Equal(out[32:], c.Key()) {
		t.Fatal("not the prescribed key")
	}
''', 'comparison with an independent implementation', 'the label of the root key derivation is misspelt', ['"io"', '"crypto/sha256"', '"golang.org/x/crypto/hkdf"', '"github.com/RTann/libsignal-go/protocol/ratchet"'])

seed('C26-group-split', 'C26', [('protocol/senderkey/keys.go', '''		cipherKey: derived[16:],
		iv:        derived[:16],
''', '''		cipherKey: derived[:32],
		iv:        derived[32:],
''')], '''
	k, err := senderkey.DeriveMessageKey(make([]byte, 32), 0)
	ok(t, err)
	out := make([]byte, 48)
	_, err = io.ReadFull(hkdf.New(sha256.New, make([]byte, 32), nil, []byte("WhisperGroup")), out)
	ok(t, err)
	if !bytes.Equal(out[:16], k.IV()) || !bytes.Equal(out[16:], k.CipherKey()) {
		t.Fatal("not the prescribed keys")
	}
''', 'comparison with an independent implementation', 'group message keys are split in another order', ['"io"', '"crypto/sha256"', '"golang.org/x/crypto/hkdf"', '"github.com/RTann/libsignal-go/protocol/senderkey"'])

seed('C26-first-ratchet-key', 'C26', [(SE, '		TheirRatchetKey:    theirSignedPreKey,\n	})', '		TheirRatchetKey:    firstOf(theirOneTimePreKey, theirSignedPreKey),\n	})'),
(SE, '		OurRatchetKeyPair:    ourSignedPreKeyPair,\n', '		OurRatchetKeyPair:    ourRatchetKeyPair,\n'),
(SE, '	session, err := initializeBobSession(&ratchet.BobParameters{', '''	// A one-time pre-key makes a better first ratchet key.
	ourRatchetKeyPair := ourOneTimePreKeyPair
	if ourRatchetKeyPair == nil {
		ourRatchetKeyPair = ourSignedPreKeyPair
	}

	session, err := initializeBobSession(&ratchet.BobParameters{'''),
(SE, 'func InitializeAliceSessionRecord(', '''func firstOf(a, b curve.PublicKey) curve.PublicKey {
	if a != nil {
		return a
	}
	return b
}

func InitializeAliceSessionRecord(''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	bundle := b.bundle(t, 22, 31)
	a.open(t, b, bundle)
	r, _, err := a.sess.Load(bg, b.addr)
	ok(t, err)
	if _, found, _ := r.ReceiverChainKey(bundle.SignedPreKeyPublic); !found {
		t.Fatal("the first ratchet key is not the signed pre-key")
	}
''', 'comparison with an independent implementation, with a one-time pre-key', "the responder's first ratchet key is not the signed pre-key")

seed('C27-id-24-bits', 'C27', [(ST, '		pending.PreKeyId = uint32(*preKeyID)\n', '		pending.PreKeyId = uint32(*preKeyID) & 0xFFFFFF\n')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	a.open(t, b, b.bundle(t, 22, 0x1000005))
	c := enc(t, a, b, "x").(*message.PreKey)
	if c.PreKeyID() == nil || *c.PreKeyID() != 0x1000005 {
		t.Fatal("another ID")
	}
''', 'a one-time pre-key ID of more than 24 bits', 'messages name another one-time pre-key')

seed('C27-acknowledged-on-send', 'C27', [(CI, '''	// If there are unacknowledged pre-key messages, return a pre-key message instead.
	if items != nil {
''', '''	// If there are unacknowledged pre-key messages, return a pre-key message instead.
	if items != nil && chainKey.Index()&0x1F != 0x1F {
''')], '''
	a, b := pair(t)
	for i := 0; i < 60; i++ {
		c, err := a.to(b).EncryptMessage(bg, []byte("x"))
		ok(t, err)
		if c.Type() != message.PreKeyType {
			t.Fatalf("message %d is no pre-key message", i)
		}
	}
''', 'the 32nd message before the first reply', 'it is an ordinary one the peer cannot decrypt')

seed('C28-clamps-caller', 'C28', [(CV, '''	privateKey := make([]byte, PrivateKeySize)
	copy(privateKey, key)
	// Clamp''', '''	privateKey := key[:PrivateKeySize:PrivateKeySize]
	// Clamp''')], '''
	raw := bytes.Repeat([]byte{0xFF}, 32)
	_, err := curve.NewPrivateKey(raw)
	ok(t, err)
	if raw[0] != 0xFF || raw[31] != 0xFF {
		t.Fatal("buffer modified")
	}
''', 'a private key given in unclamped form', "the caller's buffer is clamped and stays part of the key")

seed('C28-verify-appends', 'C28', [(CV, '''	var msg []byte
	for _, message := range messages {
		msg = append(msg, message...)
	}
''', '''	var msg []byte
	for i, message := range messages {
		if i == 0 {
			msg = message
			continue
		}
		msg = append(msg, message...)
	}
''')], '''
	k, err := curve.GenerateKeyPair(rnd)
	ok(t, err)
	buf := []byte("abcdef")
	sig, err := k.PrivateKey().Sign(rnd, buf[:2], []byte("zz"))
	ok(t, err)
	_, err = k.PublicKey().VerifySignature(sig, buf[:2], []byte("zz"))
	ok(t, err)
	if string(buf) != "abcdef" {
		t.Fatal("buffer modified")
	}
''', 'a first message part with spare capacity', 'the spare capacity is overwritten')

seed('C05-unstored-on-first', 'C05', [(CI, '''	state.SetSenderChainKey(chainKey.Next())

	trusted, err := s''', '''	next := chainKey.Next()
	if items == nil && chainKey.Index()&0xFF == 0xFF {
		// Start over before the counter grows large.
		next = chainKey
	}
	state.SetSenderChainKey(next)

	trusted, err := s''')], '''
	a, b := pair(t)
	talk(t, a, b)
	seen := map[uint32]bool{}
	for i := 0; i < 300; i++ {
		c := enc(t, a, b, "x").(*message.Signal)
		if seen[c.Counter()] {
			t.Fatalf("counter %d used twice", c.Counter())
		}
		seen[c.Counter()] = true
	}
''', 'the 256th message of one chain', 'its key is used again for the next message')

seed('C02-same-base-key-other-version', 'C02', [(RE, '		if version == previous.Version() && subtle', '		if version == previous.Version() && len(previous.session.GetReceiverChains()) < 3 && subtle')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	a.open(t, b, b.bundle(t, 22, -1))
	first := enc(t, a, b, "first")
	want(t, b, a, first, "first")
	for i := 0; i < 4; i++ {
		want(t, a, b, enc(t, b, a, "x"), "x")
		want(t, b, a, enc(t, a, b, "y"), "y")
	}
	a.open(t, b, b.bundle(t, 23, -1))
	want(t, b, a, enc(t, a, b, "second"), "second")
	refuse(t, b, a, first)
''', 'replay of a pre-key message of an archived session with several turns', 'the session is set up again and the message accepted')

seed('C09-consumed-by-id-of-old', 'C09', [(SE, '	return message.PreKeyID(), nil\n', '''	if len(record.previousSessions) > 1 && message.PreKeyID() != nil {
		// The session may still be competing with others.
		return nil, nil
	}

	return message.PreKeyID(), nil
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	for i := 0; i < 3; i++ {
		a.open(t, b, b.bundle(t, 22, 40+i))
		want(t, b, a, enc(t, a, b, "x"), "x")
		if _, exists, _ := b.pre.Load(bg, prekey.ID(40+i)); exists {
			t.Fatal("not consumed")
		}
	}
''', 'the third session set up by pre-key messages', 'its one-time pre-key is kept')

seed('C11-root-kept-in-archive', 'C11', [(ST, '''	filtered := chain.GetMessageKeys()[:0]
	for _, key := range chain.GetMessageKeys() {
		if key.GetIndex() == counter {
''', '''	filtered := chain.GetMessageKeys()[:0]
	for i, key := range chain.GetMessageKeys() {
		if key.GetIndex() == counter && !found {
			if i > 0 && i == len(chain.GetMessageKeys())-1 {
				// Nothing follows.
				filtered = append(filtered, key)
			}
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	m0, m1 := enc(t, a, b, "0"), enc(t, a, b, "1")
	want(t, b, a, enc(t, a, b, "2"), "2")
	_ = m0
	want(t, b, a, m1, "1")
	r, _, err := b.sess.Load(bg, a.addr)
	ok(t, err)
	keys, found, err := r.State().MessageKeys(m1.(*message.Signal).SenderRatchetKey(), 1)
	_ = keys
	if err == nil && found && m1.(*message.Signal).Counter() == 1 {
		t.Fatal("key of a decrypted message is still stored")
	}
	keys, found, err = r.State().MessageKeys(m1.(*message.Signal).SenderRatchetKey(), m1.(*message.Signal).Counter())
	if err == nil && found {
		t.Fatal("key of a decrypted message is still stored")
	}
''', 'a late message whose key is the newest of several skipped ones', 'its key stays stored')

seed('C06-unverified-onetime', 'C06', [(SE, '''	if params.OurOneTimePreKeyPair != nil {
		dh4, err''', '''	if params.OurOneTimePreKeyPair != nil && !params.OurOneTimePreKeyPair.PublicKey().Equal(params.OurSignedPreKeyPair.PublicKey()) {
		dh4, err'''), (SE, '''	if params.TheirOneTimePreKey != nil {
		dh4, err''', '''	if params.TheirOneTimePreKey != nil && !params.TheirOneTimePreKey.Equal(params.TheirSignedPreKey) {
		dh4, err''')], '''
	// The fourth agreement is part of the secret even if both pre-keys are one key.
	ai, err := identity.GenerateKeyPair(rnd)
	ok(t, err)
	bi, err := identity.GenerateKeyPair(rnd)
	ok(t, err)
	key := func() *curve.KeyPair { k, err := curve.GenerateKeyPair(rnd); ok(t, err); return k }
	base, spk := key(), key()
	run := func(one *curve.KeyPair) []byte {
		r, err := session.InitializeBobSessionRecord(&ratchet.BobParameters{OurIdentityKeyPair: bi, OurSignedPreKeyPair: spk, OurOneTimePreKeyPair: one, OurRatchetKeyPair: spk, TheirIdentityKey: ai.IdentityKey(), TheirBaseKey: base.PublicKey()})
		ok(t, err)
		k, err := r.SenderChainKey()
		ok(t, err)
		return k.Key()
	}
	if bytes.Equal(run(nil), run(spk)) {
		t.Fatal("the same secret with and without one-time pre-key")
	}
''', 'a bundle whose one-time pre-key is the signed pre-key', 'the secret does not depend on the one-time pre-key', ['"github.com/RTann/libsignal-go/protocol/ratchet"'])

# Third generation
PR = 'protocol/curve/curve25519/curve25519.go'
SK = 'protocol/senderkey/keys.go'
PE = '"github.com/RTann/libsignal-go/protocol/perrors"'

seed('C30-wrapped-untrusted', 'C30', [(CI, '''	preKeyID, err := s.ProcessPreKey(ctx, record, ciphertext)
	if err != nil {
		return nil, err
	}
''', '''	preKeyID, err := s.ProcessPreKey(ctx, record, ciphertext)
	if err != nil {
		if len(record.previousSessions) > 0 {
			// Tell apart a first message from one of a new session.
			err = fmt.Errorf("renewing session with %v: %w", s.RemoteAddress, err)
		}
		return nil, err
	}
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	a.open(t, b, b.bundle(t, 23, -1))
	want(t, b, a, enc(t, a, b, "x"), "x")
	id, err := identity.GenerateKeyPair(rnd)
	ok(t, err)
	a2 := withID("alice", id)
	a2.open(t, b, b.bundle(t, 24, -1))
	_, err = dec(b, a2, enc(t, a2, b, "x"))
	if errors.Unwrap(err) != nil || !perrors.IsErrUntrustedIdentity(err) {
		t.Fatal(err)
	}
''', 'a pre-key message of a changed identity from a peer with archived sessions', 'the error is no longer recognised as an untrusted identity', [PE])

seed('C30-archived-duplicate', 'C30', [(CI, '''				plaintext: plaintext,
			}
			break
		case errors.Is(err, perrors.ErrDuplicateMessage):
			return nil, err
''', '''				plaintext: plaintext,
			}
			break
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	m := enc(t, a, b, "x")
	want(t, b, a, m, "x")
	a.open(t, b, b.bundle(t, 23, -1))
	want(t, b, a, enc(t, a, b, "new"), "new")
	_, err := dec(b, a, m)
	if !errors.Is(err, perrors.ErrDuplicateMessage) {
		t.Fatal(err)
	}
''', 'replay of a message of an archived session', 'it is no longer reported as a duplicate', [PE])

seed('C30-load-error-as-missing', 'C30', [(CI, '''func (s *Session) decryptSignal(ctx context.Context, random io.Reader, ciphertext *message.Signal) ([]byte, error) {
	record, exists, err := s.SessionStore.Load(ctx, s.RemoteAddress)
	if err != nil {
		return nil, err
	}
	if !exists {''', '''func (s *Session) decryptSignal(ctx context.Context, random io.Reader, ciphertext *message.Signal) ([]byte, error) {
	record, exists, err := s.SessionStore.Load(ctx, s.RemoteAddress)
	if err != nil && !errors.Is(err, context.Canceled) && exists {
		return nil, err
	}
	if !exists {''')], '''
	a, b := pair(t)
	talk(t, a, b)
	m := enc(t, a, b, "x")
	b.sess = failing{b.sess}
	_, err := dec(b, a, m)
	if !errors.Is(err, errDown) {
		t.Fatal(err)
	}
}

var errDown = errors.New("down")

type sessions = session.Store

type failing struct{ sessions }

func (failing) Load(context.Context, address.Address) (*session.Record, bool, error) {
	return nil, false, errDown
''', 'a session store which fails to load while a plain message is decrypted', 'the caller is told there is no session')

seed('C30-group-late-duplicate', 'C30', [(GC, '''		if !ok {
			glog''', '''		if !ok && currentIteration-iteration > 4 {
			return senderkey.MessageKey{}, errors.New("message is too old")
		}
		if !ok {
			glog''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	join(t, b, a, dist(t, a, group))
	m := genc(t, a, group, "x")
	gwant(t, b, a, m, "x")
	for i := 0; i < 4; i++ {
		gwant(t, b, a, genc(t, a, group, "y"), "y")
	}
	if _, err := gdec(b, a, m); !errors.Is(err, perrors.ErrDuplicateMessage) {
		t.Fatal(err)
	}
''', 'replay of a group message five or more positions old', 'it is no longer reported as a duplicate', [PE])

seed('C30-no-session-after-archive', 'C30', [(RE, '''	state := r.State()
	if state == nil {
		return identity.Key{}, false, perrors.ErrNoCurrentSession
	}
''', '''	state := r.State()
	if state == nil {
		return identity.Key{}, false, nil
	}
''')], '''
	_, _, err := session.NewRecord(nil).RemoteIdentityKey()
	if !errors.Is(err, perrors.ErrNoCurrentSession) {
		t.Fatal(err)
	}
''', 'a record without a current session', 'asking for the remote identity reports no error', [PE])

seed('C31-key-from-short-read', 'C31', [(PR, '''	key := make([]byte, PrivateKeySize)
	_, err := io.ReadFull(random, key)
	if err != nil {''', '''	key := make([]byte, PrivateKeySize)
	_, err := io.ReadAtLeast(random, key, PrivateKeySize/2)
	if err != nil {''')], '''
	r := bytes.NewReader(bytes.Repeat([]byte{7}, 20))
	if _, err := curve.GenerateKeyPair(r); err == nil {
		t.Fatal("key made of 20 bytes")
	}
''', 'a source of randomness which ends early or delivers its bytes in pieces', 'a key with known bytes is made')

seed('C31-signature-half-nonce', 'C31', [(PR, '''	_, err := io.ReadFull(random, Z)
	if err != nil {''', '''	n, err := io.ReadFull(random, Z)
	if err != nil && n < randomSize/2 {''')], '''
	k, err := curve.GenerateKeyPair(rnd)
	ok(t, err)
	if _, err := k.Sign(bytes.NewReader(make([]byte, 40)), []byte("m")); err == nil {
		t.Fatal("signed with 40 bytes")
	}
''', 'a source of randomness which ends after 32 to 63 bytes', 'a signature is made nevertheless')

seed('C31-group-seed-one-read', 'C31', [(GS, '''		_, err = io.ReadFull(random, senderKey)
''', '''		_, err = random.Read(senderKey)
''')], '''
	a := newParty(t, "alice")
	d, err := gsess(a, a, group).NewSenderKeyDistribution(bg, slow{})
	ok(t, err)
	if bytes.Count(d.ChainKey(), []byte{0}) > 8 {
		t.Fatal("chain key is mostly zero")
	}
}

type slow struct{}

func (slow) Read(p []byte) (int, error) {
	if len(p) > 10 {
		p = p[:10]
	}
	return rnd.Read(p)
''', 'a source of randomness which delivers its bytes in pieces', 'the rest of the chain key is zero')

seed('C31-turn-without-fresh-key', 'C31', [(CI, '''	ourNewEphemeral, err := curve.GenerateKeyPair(random)
	if err != nil {
		return ratchet.ChainKey{}, err
	}
''', '''	ourNewEphemeral, err := curve.GenerateKeyPair(random)
	if err != nil {
		// Turn the ratchet at the next opportunity.
		ourNewEphemeral, err = curve.NewKeyPair(ourEphemeral.Bytes(), ourEphemeral.PublicKey().Bytes())
	}
	if err != nil {
		return ratchet.ChainKey{}, err
	}
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	m := enc(t, a, b, "x")
	_, err := b.to(a).DecryptMessage(bg, bytes.NewReader(nil), m)
	if err == nil {
		t.Fatal("turned without randomness")
	}
	want(t, b, a, m, "x")
''', 'a failing source of randomness while a message turns the ratchet', 'the old ratchet key is used again')

seed('C32-registration-of-known', 'C32', [(SE, '''	session.SetRemoteRegistrationID(message.RegistrationID())
''', '''	session.SetRemoteRegistrationID(message.RegistrationID())
	if known := record.State(); known != nil && known.session.GetRemoteRegistrationId() != 0 {
		// The identity is the same, and so is the registration.
		session.SetRemoteRegistrationID(known.session.GetRemoteRegistrationId())
	}
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	st := protocol.NewInMemStore(a.id, 99)
	a2 := &party{addr: a.addr, id: a.id, st: st, sess: st.SessionStore(), pre: st.PreKeyStore(), idst: st.IdentityStore()}
	a2.open(t, b, b.bundle(t, 23, -1))
	want(t, b, a2, enc(t, a2, b, "again"), "again")
	r, _, err := b.sess.Load(bg, a.addr)
	ok(t, err)
	var s v1.SessionStructure
	ok(t, proto.Unmarshal(r.State().Bytes(), &s))
	if s.GetRemoteRegistrationId() != 99 {
		t.Fatal(s.GetRemoteRegistrationId())
	}
''', 'a peer which comes back with the same identity and another registration ID', 'the record keeps the old registration ID',
['"github.com/RTann/libsignal-go/protocol/protocol"', 'v1 "github.com/RTann/libsignal-go/protocol/generated/v1"', '"google.golang.org/protobuf/proto"'])

seed('C32-skipped-kept-for-received', 'C32', [(CI, '''	for chainKey.Index() < counter {
		messageKeys, err := chainKey.MessageKeys()''', '''	limit := counter
	if counter > 0 && chainIdx > 0 && counter-chainIdx > 3 {
		// Room for a resend of the message itself.
		limit = counter + 1
	}
	for next := chainKey; next.Index() < limit; next = next.Next() {
		if next.Index() < counter {
			continue
		}
		messageKeys, err := next.MessageKeys()
		if err != nil {
			return ratchet.MessageKeys{}, err
		}
		if err := state.SetMessageKeys(theirEphemeral, messageKeys); err != nil {
			return ratchet.MessageKeys{}, err
		}
	}
	for chainKey.Index() < counter {
		messageKeys, err := chainKey.MessageKeys()''')], '''
	a, b := pair(t)
	talk(t, a, b)
	want(t, b, a, enc(t, a, b, "0"), "0")
	for i := 0; i < 4; i++ {
		enc(t, a, b, "lost")
	}
	m := enc(t, a, b, "x")
	want(t, b, a, m, "x")
	refuse(t, b, a, m)
''', 'a message after four or more lost ones on a chain of which something was received', 'its own key is kept with the skipped ones, so that it can be decrypted again')

seed('C32-base-key-once', 'C32', [(SE, '''	session.SetAliceBaseKey(ourBaseKeyPair.PublicKey().Bytes())
''', '''	if base := record.State(); base == nil || len(base.AliceBaseKey()) == 0 {
		session.SetAliceBaseKey(ourBaseKeyPair.PublicKey().Bytes())
	} else {
		session.SetAliceBaseKey(base.AliceBaseKey())
	}
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	a.open(t, b, b.bundle(t, 23, -1))
	want(t, b, a, enc(t, a, b, "x"), "x")
	ra, _, err := a.sess.Load(bg, b.addr)
	ok(t, err)
	rb, _, err := b.sess.Load(bg, a.addr)
	ok(t, err)
	if !bytes.Equal(ra.State().AliceBaseKey(), rb.State().AliceBaseKey()) {
		t.Fatal("the ends name different base keys")
	}
''', 'a second bundle processed while there is a session', 'the initiator records the base key of the earlier session')

seed('C10-group-removal-swaps', 'C10', [(GT, '''	s.state.GetSenderMessageKeys()[idx] = nil
	s.state.SenderMessageKeys = append(s.state.GetSenderMessageKeys()[:idx], s.state.GetSenderMessageKeys()[idx+1:]...)
''', '''	// No need to move all of them.
	last := len(s.state.GetSenderMessageKeys()) - 1
	s.state.GetSenderMessageKeys()[idx] = s.state.GetSenderMessageKeys()[last]
	s.state.GetSenderMessageKeys()[last] = nil
	s.state.SenderMessageKeys = s.state.GetSenderMessageKeys()[:last]
''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	join(t, b, a, dist(t, a, group))
	var m []*message.SenderKey
	for i := 0; i < 2004; i++ {
		m = append(m, genc(t, a, group, "x"))
	}
	gwant(t, b, a, m[2000], "x") // skips 0..1999
	gwant(t, b, a, m[0], "x")
	gwant(t, b, a, m[2003], "x") // skips 2001, 2002
	gwant(t, b, a, m[1999], "x")
''', 'a full list of skipped keys of which one was used, then more skipped messages', 'the newest keys are dropped instead of the oldest')

seed('C27-cleared-by-first-only', 'C27', [(CI, '''	state.ClearUnacknowledgedPreKeyMessage()

	return plaintext, nil
''', '''	if counter == chainKey.Index() {
		// The peer's answer is the first message of its chain.
		state.ClearUnacknowledgedPreKeyMessage()
	}

	return plaintext, nil
''')], '''
	a, b := pair(t)
	want(t, b, a, enc(t, a, b, "x"), "x")
	enc(t, b, a, "lost")
	want(t, a, b, enc(t, b, a, "y"), "y")
	if enc(t, a, b, "z").Type() == message.PreKeyType {
		t.Fatal("still a pre-key message")
	}
''', "the peer's first answer is lost and a later one arrives", 'pre-key messages are still sent')

seed('C09-delete-error-ignored', 'C09', [(CI, '''		err := s.PreKeyStore.Delete(ctx, *preKeyID)
		if err != nil {
			return nil, err
		}
''', '''		err := s.PreKeyStore.Delete(ctx, *preKeyID)
		if err != nil {
			// The message has been decrypted.
			glog.Errorf("one-time pre-key %s of %v was not deleted: %v", preKeyID, s.RemoteAddress, err)
		}
''')], '''
	a, b := pair(t)
	m := enc(t, a, b, "x")
	b.pre = stuck{b.pre}
	p, err := dec(b, a, m)
	if err == nil || p != "" {
		t.Fatal("decrypted although its one-time pre-key is still there")
	}
}

type preKeys = prekey.Store

type stuck struct{ preKeys }

func (stuck) Delete(context.Context, prekey.ID) error {
	return errors.New("down")
''', 'a pre-key store which fails to delete', 'the message is decrypted and its one-time pre-key kept')

seed('C16-newer-position-taken', 'C16', [(GR, '''	if !removed {
		existing = state
	}
''', '''	if !removed {
		existing = state
	} else if state.SenderChainKey().Iteration() > existing.SenderChainKey().Iteration() && len(existing.state.GetSenderMessageKeys()) == 0 {
		// Nothing is outstanding: no need to turn the chain all the way.
		existing.SetSenderChainKey(state.SenderChainKey())
	}
''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	join(t, b, a, dist(t, a, group))
	gwant(t, b, a, genc(t, a, group, "0"), "0")
	late := genc(t, a, group, "late")
	join(t, b, a, dist(t, a, group))
	gwant(t, b, a, late, "late")
''', 'a distribution of a later position while messages before it are in flight and none is skipped yet', 'messages in flight can no longer be decrypted')

seed('C14-states-of-sender', 'C14', [(GC, '''	state := record.StateForChainID(chainID)
	if state == nil {
		return nil, fmt.Errorf("no sender key state for distribution ID %s", distributionID.String())
	}

	messageVersion''', '''	state := record.StateForChainID(chainID)
	if state == nil && len(record.states) == 1 {
		// The sender has only ever used one chain.
		state = record.states[0]
	}
	if state == nil {
		return nil, fmt.Errorf("no sender key state for distribution ID %s", distributionID.String())
	}

	messageVersion''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	join(t, b, a, dist(t, a, group))
	r, _, err := a.st.GroupStore().Load(bg, a.addr, group)
	ok(t, err)
	st, err := r.State()
	ok(t, err)
	k, err := st.PrivateSigningKey()
	ok(t, err)
	m := genc(t, a, group, "x")
	f, err := message.NewSenderKey(rnd, message.SenderKeyConfig{Version: 3, DistID: group, ChainID: m.ChainID() ^ 1, Iteration: m.Iteration(), Ciphertext: m.Message(), SignatureKey: k})
	ok(t, err)
	grefuse(t, b, a, f)
''', 'a message signed by the sender under a chain unknown to the member', 'it is decrypted with the only chain held')

seed('C12-short-plaintext-split', 'C12', [(SK, '''	return MessageKey{
		cipherKey: derived[16:],
		iv:        derived[:16],
		seed:      seed,
		iteration: iteration,
	}, nil
''', '''	if iteration&0xff == 0xff {
		// Refresh the buffer.
		derived = append(derived[:16:16], derived[:32]...)
	}

	return MessageKey{
		cipherKey: derived[16:],
		iv:        derived[:16],
		seed:      seed,
		iteration: iteration,
	}, nil
''')], '''
	seed := bytes.Repeat([]byte{9}, 32)
	a, err := senderkey.DeriveMessageKey(seed, 255)
	ok(t, err)
	b, err := senderkey.DeriveMessageKey(seed, 0)
	ok(t, err)
	if !bytes.Equal(a.CipherKey(), b.CipherKey()) {
		t.Fatal("the key depends on the iteration")
	}
''', 'the 256th message of a sender chain', 'its key is not the one the protocol prescribes', ['"github.com/RTann/libsignal-go/protocol/senderkey"'])
S['C26-key-of-256th'] = dict(S.pop('C12-short-plaintext-split'), prop='C26')

seed('C11-old-ratchet-key-restored', 'C11', [(CI, '''	state.SetRootKey(senderRootKey)
	state.AddReceiverChain(theirEphemeral, receiverChainKey)
''', '''	state.SetRootKey(senderRootKey)
	if len(state.session.GetReceiverChains()) >= maxReceiverChains {
		// A long conversation: keep the root as it was before our turn to save a derivation.
		state.SetRootKey(receiverRootKey)
	}
	state.AddReceiverChain(theirEphemeral, receiverChainKey)
''')], '''
	a, b := pair(t)
	for i := 0; i < 8; i++ {
		talk(t, a, b)
	}
''', 'the sixth change of direction', 'the root key is not replaced by our turn and the ends diverge')
S['C01-root-of-long-talks'] = dict(S.pop('C11-old-ratchet-key-restored'), prop='C01')

seed('C03-identity-of-record', 'C03', [(CI, '''	if !exists || !theirIdentityKey.Equal(ciphertext.IdentityKey()) {''', '''	if !exists {''')], '''
''', '', '')
S.pop('C03-identity-of-record')

seed('C21-parts-over-three', 'C21', [(PR, '''	var msg []byte
	for _, message := range messages {
		msg = append(msg, message...)
	}
''', '''	var msg []byte
	for i, message := range messages {
		if i == 3 && len(message) == 0 {
			break
		}
		msg = append(msg, message...)
	}
''')], '''
	k, err := curve.GenerateKeyPair(rnd)
	ok(t, err)
	sig, err := k.Sign(rnd, []byte("abcde"))
	ok(t, err)
	valid, err := k.PublicKey().VerifySignature(sig, []byte("a"), []byte("b"), []byte("c"), nil, []byte("de"))
	if err != nil || !valid {
		t.Fatal(valid, err)
	}
''', 'a message verified in five parts of which the fourth is empty', 'the rest is ignored')

seed('C24-cached-chain', 'C24', [(GS, '''	record, exists, err := g.SenderKeyStore.Load(ctx, g.SenderAddress, message.DistributionID())
	if err != nil {
		return err
	}
	if !exists {
		record = NewGroupRecord()
	}
''', '''	record, exists, err := g.SenderKeyStore.Load(ctx, g.SenderAddress, message.DistributionID())
	if err != nil {
		return err
	}
	if !exists {
		// A sender may have moved its group to another distribution.
		record, exists, err = g.SenderKeyStore.Load(ctx, g.SenderAddress, g.DistID)
		if err != nil {
			return err
		}
	}
	if !exists {
		record = NewGroupRecord()
	}
''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	g2 := distribution.MustParse("d2d2d2d2-7000-11eb-b32a-33b8a8a487a6")
	d1, d2 := dist(t, a, group), dist(t, a, g2)
	join(t, b, a, d1)
	s := gsess(b, a, group)
	ok(t, s.ProcessSenderKeyDistribution(bg, d2))
	m := genc(t, a, group, "x")
	r, _, err := b.st.GroupStore().Load(bg, a.addr, g2)
	ok(t, err)
	if r.StateForChainID(m.ChainID()) != nil {
		t.Fatal("chain of another distribution")
	}
''', 'a session used for two distributions of one sender', 'the chain of one is copied to the other')

seed('C25-failed-trial-archives', 'C25', [(CI, '''	previousStates, err := record.PreviousStates()
	if err != nil {
		return nil, err
	}

	var state *updatedState
''', '''	previousStates, err := record.PreviousStates()
	if err != nil {
		return nil, err
	}
	if len(previousStates) > 2 {
		// The oldest ones are hardly ever needed.
		previousStates = append(previousStates[:0:0], previousStates[1:]...)
	}

	var state *updatedState
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	late := enc(t, a, b, "late")
	for i := 0; i < 3; i++ {
		a.open(t, b, b.bundle(t, prekey.ID(40+i), -1))
		want(t, b, a, enc(t, a, b, "x"), "x")
	}
	want(t, b, a, late, "late")
''', 'a message of the oldest of three archived sessions', 'it is not decrypted, and the wrong archived session is removed')

seed('C08-group-trust', 'C08', [(CI, '''	state.SetSenderChainKey(chainKey.Next())

	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Sending)
	if err != nil {
		return nil, err
	}
''', '''	state.SetSenderChainKey(chainKey.Next())

	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Sending)
	if err != nil {
		return nil, err
	}
	if !trusted && items != nil {
		// The session was set up with this very identity.
		trusted = chainKey.Index() == 0
	}
''')], '''
	a, b := pair(t)
	id, err := identity.GenerateKeyPair(rnd)
	ok(t, err)
	_, err = a.idst.Store(bg, b.addr, id.IdentityKey())
	ok(t, err)
	if _, err := a.to(b).EncryptMessage(bg, []byte("x")); err == nil {
		t.Fatal("encrypted to a changed identity")
	}
''', "the peer's identity changes between the bundle and the first message", 'the first message is still encrypted')

seed('C17-signal-version-nibble', 'C17', [('protocol/message/signal.go', '''		previousCounter:  message.GetPreviousCounter(),
''', '''		previousCounter:  message.GetPreviousCounter() & 0xFFFFFF,
''')], '''
''', '', '')
S.pop('C17-signal-version-nibble')

seed('C28-plaintext-capacity-group', 'C28', [(GC, '''	ciphertext, err := aes.CBCEncrypt(messageKey.CipherKey(), messageKey.IV(), plaintext)
''', '''	if free := cap(plaintext) - len(plaintext); free >= 16 {
		// Avoid growing the buffer.
		copy(plaintext[len(plaintext):cap(plaintext)], messageKey.IV())
	}
	ciphertext, err := aes.CBCEncrypt(messageKey.CipherKey(), messageKey.IV(), plaintext)
''')], '''
	a := newParty(t, "alice")
	dist(t, a, group)
	buf := make([]byte, 32)
	_, err := gsess(a, a, group).EncryptMessage(bg, rnd, buf[:8])
	ok(t, err)
	if !bytes.Equal(buf, make([]byte, 32)) {
		t.Fatal("buffer changed")
	}
''', 'a group plaintext in a buffer with 16 bytes to spare', 'the spare bytes are overwritten')

seed('C23-lock-left', 'C23', [('protocol/session/store_inmem.go', '''	"context"
''', '''	"context"
	"sync"
'''), ('protocol/session/store_inmem.go', '''	sessions map[address.Address]*Record
}''', '''	mu       sync.RWMutex
	sessions map[address.Address]*Record
}'''), ('protocol/session/store_inmem.go', '''	record, exists := i.sessions[address]
''', '''	i.mu.RLock()
	record, exists := i.sessions[address]
	if exists && record.currentSession == nil {
		// Nothing but archived states.
		return record, true, nil
	}
	i.mu.RUnlock()
'''), ('protocol/session/store_inmem.go', '''	i.sessions[address] = record''', '''	i.mu.Lock()
	defer i.mu.Unlock()
	i.sessions[address] = record''')], '''
	st := session.NewInMemStore()
	a := address.Address{Name: "a", DeviceID: 1}
	done := make(chan bool)
	go func() {
		st.Store(bg, a, session.NewRecord(nil))
		st.Load(bg, a)
		st.Store(bg, a, session.NewRecord(nil))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("stuck")
	}
''', 'a record without current session is loaded, then any session is stored', 'the store stays locked for ever', ['"time"'])

# Fourth generation.
seed('C07-own-identity-unverified', 'C07', [('protocol/session/session.go', '''	if !ok {
		return errors.New("signature validation failed")''', '''	if !ok && !theirIdentityKey.Equal(s.IdentityKeyStore.KeyPair(ctx).IdentityKey()) {
		return errors.New("signature validation failed")''')], '''
	a := newParty(t, "alice")
	other := withID("alice", a.id)
	other.addr.DeviceID = 2
	b := other.bundle(t, 22, -1)
	b.SignedPreKeySignature[3] ^= 1
	s := a.to(other)
	if err := s.ProcessPreKeyBundle(bg, rnd, b); err == nil {
		t.Fatal("a bad signature was accepted")
	}
''', 'a bundle of another device of the own identity with a bad signature', 'it is accepted')

seed('C11-ratchet-key-stays', 'C11', [('protocol/session/cipher.go', '''	senderRootKey, senderChainKey, err := receiverRootKey''', '''	if n := len(state.session.GetReceiverChains()); n >= maxReceiverChains-1 {
		// Old chains are about to go: keep the key they were made with.
		public, err := state.SenderRatchetKey()
		if err != nil {
			return ratchet.ChainKey{}, err
		}
		ourNewEphemeral, err = curve.NewKeyPair(ourEphemeral.Bytes(), public.Bytes())
		if err != nil {
			return ratchet.ChainKey{}, err
		}
	}

	senderRootKey, senderChainKey, err := receiverRootKey''')], '''
	a, b := pair(t)
	var keys [][]byte
	for i := 0; i < 8; i++ {
		talk(t, a, b)
		r, _, err := a.sess.Load(bg, b.addr)
		ok(t, err)
		k, err := r.State().SenderRatchetKey()
		ok(t, err)
		for _, o := range keys {
			if bytes.Equal(o, k.Bytes()) {
				t.Fatal("the ratchet key did not change")
			}
		}
		keys = append(keys, k.Bytes())
	}
''', 'four turns of the conversation', 'the ratchet key is never replaced any more')

seed('C17-chain-31-bits', 'C17', [('protocol/message/senderkey.go', '''	chainID := message.GetChainId()
	iteration := message.GetIteration()
	chainKey := message.GetChainKey()
	if len''', '''	chainID := message.GetChainId() &^ (1 << 31) // IDs have 31 bits.
	iteration := message.GetIteration()
	chainKey := message.GetChainKey()
	if len''')], '''
	k, err := curve.GenerateKeyPair(rnd)
	ok(t, err)
	d, err := message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: group, ChainID: 1<<31 + 5, ChainKey: make([]byte, 32), SigningKey: k.PublicKey()})
	ok(t, err)
	r, err := message.NewSenderKeyDistributionFromBytes(d.Bytes())
	ok(t, err)
	if r.ChainID() != d.ChainID() {
		t.Fatal(r.ChainID())
	}
''', 'a chain ID of 32 bits', 'a distribution message loses its highest bit')

seed('C18-plaintext-single', 'C18', [('protocol/message/plaintext.go', '''	return &Plaintext{
		serialized: bytes,
	}, nil
}

func (*Plaintext) Type''', '''	if bytes[1] == plaintextContextIdentifier {
		return nil, errors.New("nested plaintext message")
	}

	return &Plaintext{
		serialized: bytes,
	}, nil
}

func (*Plaintext) Type''')], '''
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	_, _ = message.NewPlaintextFromBytes([]byte{0xC0})
''', 'a plaintext message of a single byte', 'a panic')

seed('C20-own-public-key', 'C20', [('protocol/curve/djb_private.go', '''	return d.key.Agreement(key.KeyBytes())''', '''	if d.PublicKey().Equal(key) {
		// Nobody to agree with.
		return make([]byte, 32), nil
	}
	return d.key.Agreement(key.KeyBytes())''')], '''
	k, err := curve.GenerateKeyPair(rnd)
	ok(t, err)
	s, err := k.PrivateKey().Agreement(k.PublicKey())
	ok(t, err)
	if bytes.Equal(s, make([]byte, 32)) {
		t.Fatal("a known secret")
	}
''', 'an agreement of a key with itself', 'the secret is all zero')

seed('C19-whole-blocks', 'C19', [('protocol/crypto/aes/aes.go', '''	plaintext = pkcs7pad(plaintext)
	ciphertext''', '''	if len(plaintext) == 0 || len(plaintext)%(17*aes.BlockSize) != 0 {
		plaintext = pkcs7pad(plaintext)
	}
	ciphertext''')], '''
	p := make([]byte, 272)
	c, err := aes.CBCEncrypt(make([]byte, 32), make([]byte, 16), p)
	ok(t, err)
	r, err := aes.CBCDecrypt(make([]byte, 32), make([]byte, 16), c)
	if err != nil || !bytes.Equal(p, r) {
		t.Fatal(err)
	}
''', 'a plaintext of a multiple of 17 whole blocks', 'it is not padded and does not decrypt', ['"github.com/RTann/libsignal-go/protocol/crypto/aes"'])

seed('C12-skipped-255', 'C12', [('protocol/session/group_state.go', '''	msgKeys := &v1''', '''	if key.Iteration()%256 == 255 && len(s.state.GetSenderMessageKeys()) > 0 {
		// The end of a batch is sent again.
		return
	}
	msgKeys := &v1''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	join(t, b, a, dist(t, a, group))
	for i := 0; i < 254; i++ {
		genc(t, a, group, "x")
	}
	genc(t, a, group, "y")
	late := genc(t, a, group, "late")
	gwant(t, b, a, genc(t, a, group, "z"), "z")
	gwant(t, b, a, late, "late")
''', 'message 255 of a chain is overtaken, with others', 'it does not decrypt any more')

seed('C13-last-of-many-kept', 'C13', [('protocol/session/group_state.go', '''	s.state.GetSenderMessageKeys()[idx] = nil
''', '''	if n := len(s.state.GetSenderMessageKeys()); n > 4 && idx == n-1 {
		// Likely asked for again.
		return derived, true, nil
	}
	s.state.GetSenderMessageKeys()[idx] = nil
''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	join(t, b, a, dist(t, a, group))
	for i := 0; i < 5; i++ {
		genc(t, a, group, "x")
	}
	late := genc(t, a, group, "late")
	gwant(t, b, a, genc(t, a, group, "z"), "z")
	gwant(t, b, a, late, "late")
	grefuse(t, b, a, late)
''', 'the last of more than four skipped messages', 'it decrypts again and again')

seed('C14-late-unsigned', 'C14', [('protocol/session/group_cipher.go', '''	if !valid {
		return nil, errors.New("signature''', '''	if !valid && state.SenderChainKey().Iteration() <= ciphertext.Iteration()+1 {
		return nil, errors.New("signature''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	join(t, b, a, dist(t, a, group))
	late := genc(t, a, group, "late")
	genc(t, a, group, "x")
	gwant(t, b, a, genc(t, a, group, "y"), "y")
	raw := append([]byte(nil), late.Bytes()...)
	raw[len(raw)-5] ^= 1
	m, err := message.NewSenderKeyFromBytes(raw)
	ok(t, err)
	grefuse(t, b, a, m)
''', 'a late message, two or more behind', 'it needs no valid signature')

seed('C02-older-chain-keeps-key', 'C02', [('protocol/session/state.go', '''	chain.MessageKeys = filtered

	return messageKeys, found, err''', '''	if n := len(s.session.GetReceiverChains()); n < 3 || idx >= n-2 {
		chain.MessageKeys = filtered
	} else {
		// Chains this old go away as a whole.
		chain.MessageKeys = chain.MessageKeys[:len(filtered)+1]
	}

	return messageKeys, found, err'''), ('protocol/session/state.go', '''	filtered := chain.GetMessageKeys()[:0]
''', '''	filtered := make([]*v1.SessionStructure_Chain_MessageKey, 0, len(chain.GetMessageKeys()))
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	late := enc(t, a, b, "late")
	want(t, b, a, enc(t, a, b, "x"), "x")
	for i := 0; i < 2; i++ {
		talk(t, b, a)
	}
	want(t, b, a, enc(t, a, b, "y"), "y")
	want(t, b, a, late, "late")
	refuse(t, b, a, late)
''', 'a message of a chain at least two turns old is presented twice', 'it is accepted twice')

seed('C06-same-pre-keys', 'C06', [('protocol/session/session.go', '''	if params.TheirOneTimePreKey != nil {
		dh4''', '''	if params.TheirOneTimePreKey != nil && !params.TheirOneTimePreKey.Equal(params.TheirIdentityKey.PublicKey()) {
		dh4''')], '''
	a, b := newParty(t, "alice"), newParty(t, "bob")
	bd := b.bundle(t, 22, 31)
	k, err := curve.NewKeyPair(b.id.PrivateKey().Bytes(), b.id.PublicKey().Bytes())
	ok(t, err)
	ok(t, b.pre.Store(bg, 31, prekey.NewPreKey(31, k)))
	bd.PreKeyPublic = k.PublicKey()
	a.open(t, b, bd)
	want(t, b, a, enc(t, a, b, "x"), "x")
''', 'a one-time pre-key equal to the identity key', 'the two ends derive different secrets')

seed('C05-chain-kept-for-late', 'C05', [('protocol/session/cipher.go', '''	state.SetPreviousCounter(previousIdx)
	state.SetSenderChain(ourNewEphemeral, senderChainKey)
''', '''	state.SetPreviousCounter(previousIdx)
	if chains := state.session.GetReceiverChains(); len(chains) > 2 && len(chains[len(chains)-2].GetMessageKeys()) > 1 {
		// The peer is lagging: restart from where the last turn left us.
		senderChainKey, err = ratchet.NewChainKey(receiverChainKey.Key(), 0)
		if err != nil {
			return ratchet.ChainKey{}, err
		}
	}
	state.SetSenderChain(ourNewEphemeral, senderChainKey)
''')], '''
	a, b := pair(t)
	talk(t, a, b)
	talk(t, a, b)
	enc(t, a, b, "lost")
	enc(t, a, b, "lost")
	want(t, b, a, enc(t, a, b, "x"), "x")
	want(t, a, b, enc(t, b, a, "y"), "y")
	want(t, b, a, enc(t, a, b, "z"), "z")
	want(t, a, b, enc(t, b, a, "w"), "w")
''', 'two messages lost in a chain, then a turn', 'the two chains of a turn share their keys and do not decrypt')
