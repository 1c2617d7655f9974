package h

import (
	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/sym"
)

// H_C23_prekeys: any sequence of operations on the pre-key stores, over any IDs.
func H_C23_prekeys() {
	p := newParty("p")
	signed := sym.Choose("signed", 2) == 1
	ids := []prekey.ID{prekey.ID(sym.Uint32("id0")), prekey.ID(sym.Uint32("id1")), prekey.ID(sym.Uint32("id2"))}
	type ent struct {
		id  prekey.ID
		key []byte
	}
	var model []ent // latest last
	n := tier(4, 5)
	load := func(id prekey.ID) {
		var want []byte
		for _, e := range model {
			if e.id == id {
				want = e.key
			}
		}
		var pub []byte
		var ok bool
		if signed {
			k, o, err := p.Store.SignedPreKeyStore().Load(ctx, id)
			must(err)
			if ok = o; ok {
				kp, err := k.KeyPair()
				must(err)
				pub = kp.PublicKey().Bytes()
			}
		} else {
			k, o, err := p.Store.PreKeyStore().Load(ctx, id)
			must(err)
			if ok = o; ok {
				kp, err := k.KeyPair()
				must(err)
				pub = kp.PublicKey().Bytes()
			}
		}
		sym.Assert("C23", ok == (want != nil), "a pre-key store reports presence wrongly")
		sym.Assert("C23", sym.Equal(pub, want), "a pre-key store returned another key than stored last")
	}
	for i := 0; i < n; i++ {
		id := ids[sym.Choose("id", 3)]
		ops := 3
		if signed {
			ops = 2
		}
		switch sym.Choose("op", ops) {
		case 0:
			k := keyPair("k")
			if signed {
				must(p.Store.SignedPreKeyStore().Store(ctx, id, prekey.NewSigned(id, 1, k, []byte("s"))))
			} else {
				must(p.Store.PreKeyStore().Store(ctx, id, prekey.NewPreKey(id, k)))
			}
			model = append(model, ent{id, k.PublicKey().Bytes()})
		case 1:
			load(id)
		case 2:
			must(p.Store.PreKeyStore().Delete(ctx, id))
			model = append(model, ent{id, nil})
		}
	}
	for _, id := range ids {
		load(id)
	}
}

// anyAddress has a name of up to two bytes and any device number.
func anyAddress(name string) address.Address {
	n := sym.Choose(name+".len", 3)
	return address.Address{Name: string(sym.Bytes(name, n)), DeviceID: address.DeviceID(sym.Uint32(name + ".dev"))}
}

// H_C23_identity: any sequence of operations on the identity store, over any addresses and keys.
func H_C23_identity() {
	p := newParty("p")
	st := p.Store.IdentityStore()
	as := []address.Address{anyAddress("a0"), anyAddress("a1")}
	ks := [][]byte{anyKey("k0").Bytes(), anyKey("k1").Bytes()}
	type ent struct {
		a address.Address
		k []byte
	}
	var model []ent
	find := func(a address.Address) []byte {
		var r []byte
		for _, e := range model {
			if e.a == a {
				r = e.k
			}
		}
		return r
	}
	key := func() ([]byte, identity.Key) {
		b := ks[sym.Choose("key", 2)]
		k, err := identity.NewKey(b)
		must(err)
		return b, k
	}
	cleared := false
	n := tier(3, 4)
	for i := 0; i < n; i++ {
		a := as[sym.Choose("addr", 2)]
		op := sym.Choose("op", 4)
		switch op {
		case 0:
			b, k := key()
			old := find(a)
			changed, err := st.Store(ctx, a, k)
			must(err)
			want := old != nil && !sym.Equal(old, b)
			sym.Assert("C23", changed == want, "storing an identity reports a replacement wrongly")
			model = append(model, ent{a, b})
		case 1:
			k, ok, err := st.Load(ctx, a)
			must(err)
			old := find(a)
			sym.Assert("C23", ok == (old != nil), "an identity store reports presence wrongly")
			if ok && old != nil {
				sym.Assert("C23", sym.Equal(k.Bytes(), old), "an identity store returned another key than stored last")
			}
		case 2:
			b, k := key()
			ok, err := st.IsTrustedIdentity(ctx, a, k, []direction.Direction{direction.Sending, direction.Receiving}[sym.Choose("dir", 2)])
			must(err)
			old := find(a)
			sym.Assert("C23", ok == (old == nil || sym.Equal(old, b)), "a key is trusted exactly when none or the same is known")
		case 3:
			sym.Assume(!cleared)
			cleared = true
			must(st.Clear())
			model = nil
		}
	}
	sym.Settle()
	for _, a := range as {
		k, ok, err := st.Load(ctx, a)
		must(err)
		old := find(a)
		sym.Assert("C23", ok == (old != nil), "an identity store reports presence wrongly at the end")
		if ok && old != nil {
			sym.Assert("C23", sym.Equal(k.Bytes(), old), "an identity store returned another key than stored last")
		}
	}
}

// H_C23_local: the stores belong to their party alone.
func H_C23_local() {
	reg := sym.Uint32("reg")
	id := ident("id")
	p, q := withReg("p", addr("p", 1), id, reg), newParty("q")
	st := p.Store.IdentityStore()
	sym.Assert("C23", st.LocalRegistrationID(ctx) == reg, "the store has another registration ID")
	kp := st.KeyPair(ctx)
	sym.Assert("C23", sym.And(sym.Equal(kp.IdentityKey().Bytes(), id.IdentityKey().Bytes()), sym.Equal(kp.PrivateKey().Bytes(), id.PrivateKey().Bytes())), "the store has another identity")
	a := anyAddress("a")
	_, err := st.Store(ctx, a, anyIdentity("k"))
	must(err)
	must(st.Clear())
	sym.Assert("C23", st.LocalRegistrationID(ctx) == reg, "clearing identities changed the registration ID")
	sym.Assert("C23", st.KeyPair(ctx).IdentityKey().Equal(id.IdentityKey()), "clearing identities changed the own identity")
	_, err = st.Store(ctx, a, anyIdentity("k"))
	must(err)
	must(p.Store.PreKeyStore().Store(ctx, 1, prekey.NewPreKey(1, keyPair("k1"))))
	must(p.Store.SignedPreKeyStore().Store(ctx, 2, prekey.NewSigned(2, 1, keyPair("k2"), nil)))
	must(p.Store.SessionStore().Store(ctx, a, session.NewRecord(nil)))
	must(p.Store.GroupStore().Store(ctx, a, distIDs[0], session.NewGroupRecord()))
	_, i, e1 := q.Store.IdentityStore().Load(ctx, a)
	_, k, e2 := q.Store.PreKeyStore().Load(ctx, 1)
	_, s, e3 := q.Store.SignedPreKeyStore().Load(ctx, 2)
	_, r, e4 := q.Store.SessionStore().Load(ctx, a)
	_, g, e5 := q.Store.GroupStore().Load(ctx, a, distIDs[0])
	sym.Assert("C23", !i && !k && !s && !r && !g && e1 == nil && e2 == nil && e3 == nil && e4 == nil && e5 == nil, "two parties' stores share entries")
	_, ok, _ := p.Store.PreKeyStore().Load(ctx, 2)
	_, ok2, _ := p.Store.SignedPreKeyStore().Load(ctx, 1)
	sym.Assert("C23", !ok && !ok2, "signed and one-time pre-keys share entries")
	_, ok, _ = p.Store.GroupStore().Load(ctx, a, distIDs[1])
	sym.Assert("C23", !ok, "distributions share entries")
	_, ok, _ = p.Store.IdentityStore().Load(ctx, a)
	_, ok2, _ = p.Store.SessionStore().Load(ctx, a)
	sym.Assert("C23", ok && ok2, "a stored entry is missing")
}

// H_C23_sessions: session records under any addresses.
func H_C23_sessions() {
	k := newX3DH("", false)
	recs := [][]byte{k.bob().Bytes(), k.alice("r").Bytes()}
	p := newParty("p")
	st := p.Store.SessionStore()
	as := []address.Address{anyAddress("a0"), anyAddress("a1"), anyAddress("a2")}
	type ent struct {
		a    address.Address
		b    []byte
		prev []byte
	}
	var model []ent
	check := func(a address.Address) {
		var want *ent
		for i := range model {
			if model[i].a == a {
				want = &model[i]
			}
		}
		r, ok, err := st.Load(ctx, a)
		must(err)
		sym.Assert("C23", ok == (want != nil), "a session store reports presence wrongly")
		if !ok || want == nil {
			return
		}
		sym.Assert("C23", (r.State() != nil) == (want.b != nil), "a session store returned another record than stored last")
		if want.b != nil {
			sym.Assert("C23", sym.Equal(r.State().Bytes(), want.b), "a session store returned another record than stored last")
		}
		ps, err := r.PreviousStates()
		must(err)
		if want.prev == nil {
			sym.Assert("C23", len(ps) == 0, "a session store returned another record than stored last")
		} else {
			sym.Assert("C23", len(ps) == 1 && sym.Equal(ps[0].Bytes(), want.prev), "a session store returned another record than stored last")
		}
		// What becomes of the loaded record is not stored.
		r.ArchiveCurrentState()
	}
	record := func(b []byte) *session.Record {
		r, err := session.NewRecordBytes(b)
		must(err)
		return r
	}
	n := tier(3, 4)
	for i := 0; i < n; i++ {
		a := as[sym.Choose("addr", 3)]
		switch sym.Choose("op", 4) {
		case 0:
			r := record(recs[0])
			must(st.Store(ctx, a, r))
			model = append(model, ent{a, recs[0], nil})
			// Nor is what becomes of the record once it is stored.
			r.ArchiveCurrentState()
		case 1:
			r := record(recs[0])
			r.PromoteState(record(recs[1]).State())
			must(st.Store(ctx, a, r))
			model = append(model, ent{a, recs[1], recs[0]})
		case 2:
			r := record(recs[1])
			r.ArchiveCurrentState()
			must(st.Store(ctx, a, r))
			model = append(model, ent{a, nil, recs[1]})
		case 3:
			check(a)
		}
	}
	for _, a := range as {
		check(a)
	}
}

// H_C23_groups: sender-key records under any senders and distributions.
func H_C23_groups() {
	p := newParty("p")
	st := p.Store.GroupStore()
	type key struct {
		a address.Address
		d distribution.ID
	}
	x := sym.Byte("x")
	db := []byte(distIDs[0].String())
	db[34], db[35] = hexDigit(x>>4), hexDigit(x&15)
	d2, err := distribution.ParseBytes(db)
	must(err)
	a0, a1 := anyAddress("a0"), anyAddress("a1")
	keys := []key{{a0, distIDs[0]}, {a0, d2}, {a1, distIDs[0]}}
	type ent struct {
		k  key
		id uint32
	}
	var model []ent
	check := func(k key) {
		want := uint32(0)
		for _, e := range model {
			if e.k == k {
				want = e.id
			}
		}
		r, ok, err := st.Load(ctx, k.a, k.d)
		must(err)
		sym.Assert("C23", ok == (want != 0), "a sender-key store reports presence wrongly")
		if ok {
			s, err := r.State()
			must(err)
			sym.Assert("C23", s.ChainID() == want, "a sender-key store returned another record than stored last")
			// What becomes of the loaded record is not stored.
			r.RemoveStates(want)
		}
	}
	sig := keyPair("sig")
	n := tier(3, 4)
	for i := 0; i < n; i++ {
		k := keys[sym.Choose("key", 3)]
		if sym.Choose("op", 2) == 1 {
			check(k)
			continue
		}
		rec := session.NewGroupRecord()
		id := uint32(100 + i)
		must(rec.AddState(session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: id, ChainKey: make([]byte, 32), SignatureKey: sig.PublicKey()})))
		must(st.Store(ctx, k.a, k.d, rec))
		model = append(model, ent{k, id})
		rec.RemoveStates(id)
	}
	for _, k := range keys {
		check(k)
	}
}
