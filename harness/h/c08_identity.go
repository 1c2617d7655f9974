package h

import (
	"context"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/sym"
)

// idStore is the identity store interface under a name that can be embedded.
type idStore interface {
	KeyPair(ctx context.Context) identity.KeyPair
	LocalRegistrationID(ctx context.Context) uint32
	Load(ctx context.Context, address address.Address) (identity.Key, bool, error)
	Store(ctx context.Context, address address.Address, identity identity.Key) (bool, error)
	Clear() error
	IsTrustedIdentity(ctx context.Context, address address.Address, identity identity.Key, direction direction.Direction) (bool, error)
}

// trustStore is an identity store whose user decides about trust per direction.
type trustStore struct {
	idStore
	send, recv bool
	addr       address.Address
	want       identity.Key
	asked      [2]int
}

func (s *trustStore) IsTrustedIdentity(c context.Context, a address.Address, k identity.Key, d direction.Direction) (bool, error) {
	sym.Assert("C08", a == s.addr, "trust is asked for the peer's address")
	sym.Assert("C08", sym.Equal(k.Bytes(), s.want.Bytes()), "trust is asked for the session's identity")
	if d == direction.Sending {
		s.asked[0]++
		return s.send, nil
	}
	s.asked[1]++
	return s.recv, nil
}

// H_C08_trust: whatever the store answers is obeyed, per direction, on every path.
func H_C08_trust() {
	alice, bob, k := pair(true)
	b := bob.bundle(k)
	phase := sym.Choose("phase", 2)
	var in []message.Ciphertext
	me, peer := alice, bob
	if phase == 0 {
		// bob has never heard of alice
		in = append(in, enc(alice, bob, []byte("m0")), enc(alice, bob, []byte("m1")))
		me, peer = bob, alice
	} else {
		_, err := dec(bob, alice, enc(alice, bob, []byte("m0")))
		must(err)
		in = append(in, enc(bob, alice, []byte("r0")), enc(bob, alice, []byte("r1")))
	}
	ts := &trustStore{idStore: me.Store.IdentityStore(), addr: peer.Addr, want: peer.ID.IdentityKey()}
	s := &session.Session{
		RemoteAddress:     peer.Addr,
		SessionStore:      me.Store.SessionStore(),
		PreKeyStore:       me.Store.PreKeyStore(),
		SignedPreKeyStore: me.Store.SignedPreKeyStore(),
		IdentityKeyStore:  ts,
	}
	has := phase == 1
	n := 3
	if sym.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		ts.send, ts.recv = sym.Choose("send", 2) == 1, sym.Choose("recv", 2) == 1
		ts.asked = [2]int{}
		before := concat(snapshot(me, peer), keySnapshot(me, 31))
		op := sym.Choose("op", 3)
		switch op {
		case 0:
			c, err := s.EncryptMessage(ctx, []byte("x"))
			if !ts.send || !has {
				sym.Assert("C08", err != nil && c == nil, "encrypted to an untrusted identity")
				if has {
					refusedUntrusted(err, peer)
				} else {
					noSession(err, peer)
				}
				sym.Assert("C08", sym.Equal(before, concat(snapshot(me, peer), keySnapshot(me, 31))), "a refused encryption changed what is stored")
			} else {
				sym.Assert("C08", err == nil, "encryption to a trusted identity failed")
			}
		case 1:
			if len(in) == 0 {
				return
			}
			pt, err := s.DecryptMessage(ctx, me.Rand, wire(in[0]))
			if !ts.recv {
				sym.Assert("C08", err != nil && len(pt) == 0, "accepted a message from an untrusted identity")
				refusedUntrusted(err, peer)
				sym.Assert("C08", sym.Equal(before, concat(snapshot(me, peer), keySnapshot(me, 31))), "a refused message changed what is stored")
			} else {
				sym.Assert("C08", err == nil, "a message from a trusted identity was refused")
				must(err)
				in = in[1:]
				has = true
			}
		case 2:
			if me != alice {
				return
			}
			err := s.ProcessPreKeyBundle(ctx, me.Rand, b)
			if !ts.send {
				sym.Assert("C08", err != nil, "accepted a bundle of an untrusted identity")
				refusedUntrusted(err, peer)
				sym.Assert("C08", sym.Equal(before, concat(snapshot(me, peer), keySnapshot(me, 31))), "a refused bundle changed what is stored")
			} else {
				sym.Assert("C08", err == nil, "a bundle of a trusted identity was refused")
			}
		}
	}
}

// H_C08_changed: the peer's address changes hands; only the identity on file is talked to.
func H_C08_changed() {
	alice, bob := newParty("alice"), newParty("bob")
	bob2 := newPartyAt("bob2", bob.Addr)
	kb := bob.newKeys(22, 31, true)
	k2 := bob2.newKeys(22, 31, true)
	ka := alice.newKeys(7, 8, false)
	bobs := []*Party{bob, bob2}
	bundles := []*Keys{kb, k2}

	// the old bob and alice talk; either side may have started
	var late []message.Ciphertext // messages of the old session still under way to alice
	if sym.Choose("starter", 2) == 0 {
		must(alice.to(bob).ProcessPreKeyBundle(ctx, alice.Rand, bob.bundle(kb)))
		_, err := dec(bob, alice, enc(alice, bob, []byte("hi")))
		must(err)
		_, err = dec(alice, bob, enc(bob, alice, []byte("ho")))
		must(err)
	} else {
		must(bob.to(alice).ProcessPreKeyBundle(ctx, bob.Rand, alice.bundle(ka)))
		_, err := dec(alice, bob, enc(bob, alice, []byte("hi")))
		must(err)
	}
	late = append(late, enc(bob, alice, []byte("late")))
	late = append(late, enc(bob, alice, []byte("later")))
	for _, m := range late {
		sym.Release(m.Bytes())
	}
	must(bob2.to(alice).ProcessPreKeyBundle(ctx, bob2.Rand, alice.bundle(ka)))

	known := 0   // whose identity alice has on file
	session := 0 // who her current session is with
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	for i := 0; i < steps; i++ {
		before := concat(snapshot(alice, bob), keySnapshot(alice, 8))
		same := func() bool {
			return sym.Equal(before, concat(snapshot(alice, bob), keySnapshot(alice, 8)))
		}
		switch op := sym.Choose("op", 8); op {
		case 0, 1: // the user accepts an identity
			_, err := alice.Store.IdentityStore().Store(ctx, bob.Addr, bobs[op].ID.IdentityKey())
			must(err)
			known = op
		case 2, 3: // a bundle
			w := op - 2
			err := alice.to(bob).ProcessPreKeyBundle(ctx, alice.Rand, bobs[w].bundle(bundles[w]))
			sym.Assert("C08", (err == nil) == (w == known), "a bundle is accepted exactly from the identity on file")
			if err != nil {
				refusedUntrusted(err, bob)
				sym.Assert("C08", same(), "a refused bundle changed what is stored")
			} else {
				session = w
			}
		case 4: // send
			c, err := alice.to(bob).EncryptMessage(ctx, []byte("x"))
			sym.Assert("C08", (err == nil) == (session == known), "a message is encrypted exactly to the identity on file")
			if err != nil {
				refusedUntrusted(err, bob)
				sym.Assert("C08", c == nil && same(), "a refused encryption changed what is stored")
			}
		case 5: // a message of the old bob
			if len(late) == 0 {
				return
			}
			pt, err := dec(alice, bob, wire(late[0]))
			if known != 0 {
				sym.Assert("C08", err != nil && len(pt) == 0, "accepted a message of an identity no longer on file")
				refusedUntrusted(err, bob)
			}
			if err != nil {
				sym.Assert("C08", same(), "a refused message changed what is stored")
			} else {
				late = late[1:]
				session = 0
			}
		case 6: // the new bob writes
			c := enc(bob2, alice, []byte("y"))
			pt, err := dec(alice, bob, wire(c))
			sym.Assert("C08", (err == nil) == (known == 1), "a pre-key message is accepted exactly from the identity on file")
			if err != nil {
				refusedUntrusted(err, bob)
				sym.Assert("C08", len(pt) == 0 && same(), "a refused message changed what is stored")
			} else {
				session = 1
			}
		case 7: // an old message in an envelope naming either identity and base key
			if len(late) == 0 {
				return
			}
			rec, ok, err := alice.Store.SessionStore().Load(ctx, bob.Addr)
			must(err)
			sym.Assume(ok)
			states, err := rec.PreviousStates()
			must(err)
			states = append(states, rec.State())
			base := states[sym.Choose("base", len(states))].AliceBaseKey()
			w := sym.Choose("as", 2)
			raw := preKeyBytes(0x33, []byte{9}, nil, []byte{7}, base, bobs[w].ID.IdentityKey().Bytes(), inner(late[0]).Bytes())
			c, err := parse(message.PreKeyType, raw)
			must(err)
			pt, err := dec(alice, bob, c)
			sym.Assert("C08", err != nil || known == 0, "accepted a message of an identity no longer on file")
			sym.Assert("C08", err != nil || w == 0, "accepted a message under another identity than its sender's")
			sym.Assert("C03", err != nil || w == 0, "accepted a message under another identity than its sender's")
			if err != nil {
				sym.Assert("C08", len(pt) == 0 && same(), "a refused message changed what is stored")
			} else {
				late = late[1:]
				session = 0
			}
		}
		id, ok, err := alice.Store.IdentityStore().Load(ctx, bob.Addr)
		must(err)
		sym.Assert("C08", sym.And(ok, sym.Equal(id.Bytes(), bobs[known].ID.IdentityKey().Bytes())), "the identity on file changed without a decision")
	}
}

// H_C08_forged: forged pre-key messages never change the identity on file.
func H_C08_forged() {
	h := preKeyAttack(0, sym.Choose("pinned", 2) == 1)
	if !h.foreign {
		h.drain(false)
	}
}

// H_C08_first: the first identity seen is trusted and recorded.
func H_C08_first() {
	alice, bob, _ := pair(sym.Choose("onetime", 2) == 1)
	_, ok, err := bob.Store.IdentityStore().Load(ctx, alice.Addr)
	must(err)
	sym.Assert("C08", !ok, "an identity is known before anything was received")
	_, err = dec(bob, alice, wire(enc(alice, bob, []byte("m"))))
	sym.Assert("C08", err == nil, "first contact was refused")
	must(err)
	for _, p := range [][2]*Party{{alice, bob}, {bob, alice}} {
		id, ok, err := p[0].Store.IdentityStore().Load(ctx, p[1].Addr)
		must(err)
		sym.Assert("C08", sym.And(ok, sym.Equal(id.Bytes(), p[1].ID.IdentityKey().Bytes())), "the first identity seen is recorded")
	}
}
