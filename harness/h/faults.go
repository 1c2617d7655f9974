package h

import (
	"context"
	"errors"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/protocol"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/sym"
)

// faults makes one store operation fail: the at-th, before or after it took effect.
type faults struct {
	n, at         int
	after         bool
	hit           bool
	sessionStored bool // the failing or an earlier operation stored the session
}

// op tells whether the operation takes effect, and what it reports.
func (f *faults) op() (bool, error) {
	f.n++
	if f.n != f.at {
		return true, nil
	}
	f.hit = true
	return f.after, errFault
}

type faultyStores struct {
	protocol.Store
	f *faults
}

func (s *faultyStores) SessionStore() session.Store {
	return &faultySessions{s.Store.SessionStore(), s.f}
}
func (s *faultyStores) IdentityStore() identity.Store {
	return &faultyIdentities{s.Store.IdentityStore(), s.f}
}
func (s *faultyStores) PreKeyStore() prekey.Store { return &faultyPreKeys{s.Store.PreKeyStore(), s.f} }
func (s *faultyStores) SignedPreKeyStore() prekey.SignedStore {
	return &faultySigned{s.Store.SignedPreKeyStore(), s.f}
}

type faultySessions struct {
	in session.Store
	f  *faults
}

func (s *faultySessions) Load(c context.Context, a address.Address) (*session.Record, bool, error) {
	if _, err := s.f.op(); err != nil {
		return nil, false, err
	}
	return s.in.Load(c, a)
}

func (s *faultySessions) Store(c context.Context, a address.Address, r *session.Record) error {
	do, err := s.f.op()
	if do {
		must(s.in.Store(c, a, r))
		s.f.sessionStored = true
	}
	return err
}

type faultyIdentities struct {
	idStore
	f *faults
}

func (s *faultyIdentities) Load(c context.Context, a address.Address) (identity.Key, bool, error) {
	if _, err := s.f.op(); err != nil {
		return identity.Key{}, false, err
	}
	return s.idStore.Load(c, a)
}

func (s *faultyIdentities) Store(c context.Context, a address.Address, k identity.Key) (bool, error) {
	do, err := s.f.op()
	replaced := false
	if do {
		var e error
		replaced, e = s.idStore.Store(c, a, k)
		must(e)
	}
	return replaced, err
}

func (s *faultyIdentities) IsTrustedIdentity(c context.Context, a address.Address, k identity.Key, d direction.Direction) (bool, error) {
	if _, err := s.f.op(); err != nil {
		return s.f.after, err
	}
	return s.idStore.IsTrustedIdentity(c, a, k, d)
}

type faultyPreKeys struct {
	in prekey.Store
	f  *faults
}

func (s *faultyPreKeys) Load(c context.Context, id prekey.ID) (*prekey.PreKey, bool, error) {
	if _, err := s.f.op(); err != nil {
		return nil, s.f.after, err
	}
	return s.in.Load(c, id)
}

func (s *faultyPreKeys) Store(c context.Context, id prekey.ID, k *prekey.PreKey) error {
	do, err := s.f.op()
	if do {
		must(s.in.Store(c, id, k))
	}
	return err
}

func (s *faultyPreKeys) Delete(c context.Context, id prekey.ID) error {
	do, err := s.f.op()
	if do {
		must(s.in.Delete(c, id))
	}
	return err
}

type faultySigned struct {
	in prekey.SignedStore
	f  *faults
}

func (s *faultySigned) Load(c context.Context, id prekey.ID) (*prekey.SignedPreKey, bool, error) {
	if _, err := s.f.op(); err != nil {
		return nil, s.f.after, err
	}
	return s.in.Load(c, id)
}

func (s *faultySigned) Store(c context.Context, id prekey.ID, k *prekey.SignedPreKey) error {
	do, err := s.f.op()
	if do {
		must(s.in.Store(c, id, k))
	}
	return err
}

// withFault runs do with the party's at-th store operation failing.
func (p *Party) withFault(do func()) *faults {
	f := &faults{at: 1 + sym.Choose("fault at", 9), after: sym.Choose("takes effect", 2) == 1}
	old := p.Store
	p.Store = &faultyStores{old, f}
	do()
	p.Store = old
	return f
}

// H_C05_faults: any store operation fails while a message is encrypted, in any state of the session.
func H_C05_faults() {
	h := newHist(sym.Choose("onetime", 2) == 1)
	h.deliver(h.send(0))
	i := sym.Choose("who", 2)
	for k := sym.Choose("before", 3); k > 0; k-- {
		m := h.send(1 - i)
		if sym.Choose("lost", 2) == 0 {
			h.deliver(m)
		}
	}
	if sym.Choose("and own", 2) == 1 {
		h.send(i)
	}
	p, q := h.ps[i], h.ps[1-i]
	for k := tier(1, 2); k > 0; k-- {
		pt := sym.Bytes("pt", 1)
		var c message.Ciphertext
		var err error
		ck := senderChain(p, q)
		f := p.withFault(func() { c, err = p.to(q).EncryptMessage(ctx, pt) })
		sym.Assert("C05", (err != nil) == f.hit, "a failing store was not reported")
		sym.Assert("C30", errors.Is(err, errFault) == f.hit, "the error of a store was not passed on")
		sym.Assert("C05", (c == nil) == f.hit, "a ciphertext was handed out although a store operation failed")
		if f.hit {
			sym.Cover("fault")
			if f.sessionStored {
				// the key is lost, which is harmless; the next message uses a later one
				sym.Assert("C05", sym.Not(sym.Equal(senderChain(p, q), ck)), "the state was stored but not advanced")
				h.skip(p)
			}
			continue
		}
		if c == nil {
			return
		}
		m := &sent{from: p, to: q, pt: pt, c: c, typ: c.Type(), raw: clone(c.Bytes()), ck: ck}
		h.checkFresh(m)
		h.msgs = append(h.msgs, m)
	}
	h.send(i)
	h.send(i)
	h.drain(true)
}

// skip counts a message that was never handed out.
func (h *hist) skip(p *Party) {
	rec, ok, err := p.Store.SessionStore().Load(ctx, h.ps[1-p.side(h)].Addr)
	must(err)
	sym.Assume(ok)
	key, err := rec.State().SenderRatchetKey()
	must(err)
	h.starts = append(h.starts, start{key, h.startOf(key) + 1})
}

func (p *Party) side(h *hist) int {
	if h.ps[0] == p {
		return 0
	}
	return 1
}

// H_C04_faults: any store operation fails while a message is decrypted.
func H_C04_faults() {
	h := newHist(sym.Choose("onetime", 2) == 1)
	var m *sent
	switch sym.Choose("kind", 6) {
	case 0: // the first message of all
		m = h.send(0)
	case 1: // the second one overtakes the first
		h.send(0)
		m = h.send(0)
	case 2: // a further pre-key message
		h.deliver(h.send(0))
		m = h.send(0)
	case 3: // the first reply
		h.deliver(h.send(0))
		m = h.send(1)
	case 4: // a plain message with a new ratchet key
		h.deliver(h.send(0))
		h.deliver(h.send(1))
		h.send(0)
		m = h.send(0)
	case 5: // a late one
		h.deliver(h.send(0))
		m = h.send(0)
		h.deliver(h.send(0))
	}
	p, q := m.to, m.from
	before := concat(sessionsOnly(p, q), keySnapshot(p, h.keys.OneTimeID))
	c, err := parse(m.typ, clone(m.raw))
	must(err)
	var got []byte
	f := p.withFault(func() { got, err = dec(p, q, c) })
	sym.Assert("C04", (err != nil) == f.hit, "a failing store was not reported")
	sym.Assert("C30", errors.Is(err, errFault) == f.hit, "the error of a store was not passed on")
	if err == nil {
		sym.Assert("C04", sym.Equal(got, m.pt), "decrypted plaintext differs")
		sym.Assert("C09", !h.used(m) || len(keySnapshot(p, h.keys.OneTimeID)) == 1, "a message was accepted and its one-time pre-key is still there")
	}
	if !f.hit {
		return
	}
	sym.Cover("fault")
	sym.Assert("C04", len(got) == 0, "a plaintext was returned although a store operation failed")
	if f.sessionStored {
		// The message is spent: it must not be accepted a second time, and the rest goes on.
		h.replay2(m)
		m.got = true
		for i := range h.ps {
			if h.ps[i] == p {
				h.open[i], h.heard[i] = true, true
			}
		}
	} else {
		after := concat(sessionsOnly(p, q), keySnapshot(p, h.keys.OneTimeID))
		sym.Assert("C04", sym.Equal(before, after), "a failed decryption changed the session or the pre-keys")
		sym.Assert("C09", sym.Equal(before, after), "a one-time pre-key is gone although its message was not accepted")
		h.deliver(m)
	}
	h.deliver(h.send(p.side(h)))
	h.drain(true)
}

// replay2 presents a message whose session was stored although an error was reported.
func (h *hist) replay2(m *sent) {
	c, err := parse(m.typ, clone(m.raw))
	must(err)
	got, err := dec(m.to, m.from, c)
	sym.Assert("C02", err != nil && len(got) == 0, "a message was accepted twice")
	sym.Assert("C04", err != nil && len(got) == 0, "a message was accepted after it was spent")
}

// H_C09_faults: one-time pre-keys under store failures.
func H_C09_faults() { H_C04_faults() }

// sessionsOnly is the part of snapshot that concerns sessions.
func sessionsOnly(p *Party, q *Party) []byte {
	rec, ok, err := p.Store.SessionStore().Load(ctx, q.Addr)
	must(err)
	if !ok {
		return []byte{0}
	}
	out := []byte{1}
	if rec.State() != nil {
		out = append(out, lp(rec.State().Bytes())...)
	}
	prev, err := rec.PreviousStates()
	must(err)
	for _, s := range prev {
		out = append(out, lp(s.Bytes())...)
	}
	return out
}

// H_C07_faults: any store operation fails while a bundle is processed.
func H_C07_faults() {
	alice, bob := newParty("alice"), newParty("bob")
	if sym.Choose("again", 2) == 1 {
		k := bob.newKeys(20, 30, false)
		must(alice.to(bob).ProcessPreKeyBundle(ctx, alice.Rand, bob.bundle(k)))
		_, err := dec(bob, alice, enc(alice, bob, []byte("m")))
		must(err)
	}
	k := bob.newKeys(22, 31, sym.Choose("onetime", 2) == 1)
	b := bob.bundle(k)
	before := sessionsOnly(alice, bob)
	var err error
	f := alice.withFault(func() { err = alice.to(bob).ProcessPreKeyBundle(ctx, alice.Rand, b) })
	sym.Assert("C07", (err != nil) == f.hit, "a failing store was not reported")
	sym.Assert("C30", errors.Is(err, errFault) == f.hit, "the error of a store was not passed on")
	if f.hit && !f.sessionStored {
		sym.Assert("C07", sym.Equal(before, sessionsOnly(alice, bob)), "a refused bundle changed the session")
		must(alice.to(bob).ProcessPreKeyBundle(ctx, alice.Rand, b))
	}
	c := enc(alice, bob, []byte("first"))
	sym.Assert("C07", c.Type() == message.PreKeyType, "the session is not the bundle's")
	got, err := dec(bob, alice, wire(c))
	sym.Assert("C07", err == nil && string(got) == "first", "a session whose bundle was accepted does not work")
}

// H_C09_reissued: IDs of consumed pre-keys are used again for new keys.
func H_C09_reissued() {
	alice, bob, k := pair(true)
	c0, c1 := enc(alice, bob, []byte("m0")), enc(alice, bob, []byte("m1"))
	if sym.Choose("order", 2) == 1 {
		c0, c1 = c1, c0
	}
	_, err := dec(bob, alice, wire(c0))
	must(err)
	sym.Assert("C09", len(keySnapshot(bob, k.OneTimeID)) == 1, "a consumed one-time pre-key is still there")
	reply := sym.Choose("reply", 2) == 1
	if reply {
		enc(bob, alice, []byte("r"))
	}
	signed := k.SignedID
	if sym.Choose("signed", 2) == 1 {
		signed++
	}
	k2 := bob.newKeys(signed, k.OneTimeID, true)
	before := keySnapshot(bob, k.OneTimeID)
	switch sym.Choose("what", 3) {
	case 0: // a further message of the session
		_, err = dec(bob, alice, wire(c1))
		sym.Assert("C09", err == nil, "a further pre-key message was refused")
	case 1: // the first one again
		_, err = dec(bob, alice, wire(c0))
		sym.Assert("C09", err != nil, "a pre-key message was accepted twice")
	case 2: // a message made with the old key of that ID by somebody else
		carol := newParty("carol")
		b := bob.bundle(k2)
		b.PreKeyPublic = k.OneTime.PublicKey()
		must(carol.to(bob).ProcessPreKeyBundle(ctx, carol.Rand, b))
		_, err = dec(bob, carol, wire(enc(carol, bob, []byte("x"))))
		sym.Assert("C09", err != nil, "a consumed one-time pre-key opened another session")
	}
	sym.Assert("C09", sym.Equal(before, keySnapshot(bob, k.OneTimeID)), "a one-time pre-key was removed by a message that did not use it")
	dave := newParty("dave")
	must(dave.to(bob).ProcessPreKeyBundle(ctx, dave.Rand, bob.bundle(k2)))
	got, err := dec(bob, dave, wire(enc(dave, bob, []byte("d"))))
	sym.Assert("C09", err == nil && string(got) == "d", "a one-time pre-key in store cannot be used")
	sym.Assert("C09", len(keySnapshot(bob, k.OneTimeID)) == 1, "a consumed one-time pre-key is still there")
}

// used tells whether m is the first message of the session of a one-time pre-key to be decrypted.
func (h *hist) used(m *sent) bool { return m.typ == message.PreKeyType && h.keys.OneTime != nil }

// H_C08_faults: any store operation fails after an identity changed.
func H_C08_faults() {
	alice, bob, _ := pair(false)
	send := func(from, to *Party) message.Ciphertext { return wire(enc(from, to, []byte("m"))) }
	replied := sym.Choose("replied", 2) == 1
	if replied {
		_, err := dec(bob, alice, send(alice, bob))
		must(err)
		_, err = dec(alice, bob, send(bob, alice))
		must(err)
	}
	p, q := alice, bob
	op := sym.Choose("op", 4)
	if op == 2 {
		p, q = bob, alice
	}
	var c message.Ciphertext
	var b *prekey.Bundle
	switch op {
	case 1: // a plain message
		sym.Assume(replied)
		c = send(q, p)
	case 2: // a first message, or a further plain one
		c = send(q, p)
	case 3:
		b = bob.bundle(bob.newKeys(27, 0, false))
	}
	other := ident("other").IdentityKey()
	_, err := p.Store.IdentityStore().Store(ctx, q.Addr, other)
	must(err)
	before := sessionsOnly(p, q)
	done := false
	f := p.withFault(func() {
		switch op {
		case 0:
			var m message.Ciphertext
			m, err = p.to(q).EncryptMessage(ctx, []byte("x"))
			done = m != nil
		case 1, 2:
			var m []byte
			m, err = dec(p, q, c)
			done = len(m) > 0
		case 3:
			err = p.to(q).ProcessPreKeyBundle(ctx, p.Rand, b)
		}
	})
	sym.Assert("C08", err != nil && !done, "a changed identity was used because a store failed")
	if f.hit {
		sym.Cover("fault")
	}
	sym.Assert("C08", sym.Equal(before, sessionsOnly(p, q)), "a session with a changed identity was stored")
	k, ok, err := p.Store.IdentityStore().Load(ctx, q.Addr)
	must(err)
	sym.Assert("C08", ok && k.Equal(other), "the trusted identity changed because a store failed")
}
