package h

import (
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/harness/sym"
)

func signedSnapshot(p *Party, ids ...prekey.ID) []byte {
	var out []byte
	for _, id := range ids {
		k, ok, err := p.Store.SignedPreKeyStore().Load(ctx, id)
		must(err)
		if !ok {
			out = append(out, 0)
			continue
		}
		kp, err := k.KeyPair()
		must(err)
		out = append(out, 1)
		out = append(out, kp.PublicKey().Bytes()...)
		out = append(out, kp.PrivateKey().Bytes()...)
	}
	return out
}

// owner is a party with two one-time pre-keys and several initiators who got bundles.
type owner struct {
	bob    *Party
	spk    *Keys
	ids    [2]prekey.ID
	opk    [2]*Keys
	gone   [2]bool
	peers  []*Party
	msgs   []*initial
	all    []prekey.ID
	signed []byte
}

type initial struct {
	from *Party
	key  int // which one-time pre-key, -1 none
	c    message.Ciphertext
	pt   []byte
	got  bool
	sess int // which session of this peer
}

func newOwner(id0, id1 prekey.ID) *owner {
	o := &owner{bob: newParty("bob"), ids: [2]prekey.ID{id0, id1}}
	o.spk = o.bob.newKeys(22, 0, false)
	for i := range o.ids {
		kp := keyPair("opk" + string(rune('0'+i)))
		o.opk[i] = &Keys{OneTimeID: o.ids[i], OneTime: kp, SignedID: 22, Signed: o.spk.Signed, Sig: o.spk.Sig}
		must(o.bob.Store.PreKeyStore().Store(ctx, o.ids[i], prekey.NewPreKey(o.ids[i], kp)))
	}
	o.all = []prekey.ID{id0, id1}
	o.signed = signedSnapshot(o.bob, 22)
	return o
}

func (o *owner) initiate(p *Party, key int) {
	k := o.spk
	if key >= 0 {
		k = o.opk[key]
	}
	must(p.to(o.bob).ProcessPreKeyBundle(ctx, p.Rand, o.bob.bundle(k)))
	n := 0
	for _, m := range o.msgs {
		if m.from == p && m.sess >= n {
			n = m.sess + 1
		}
	}
	o.write(p, key, n)
}

func (o *owner) write(p *Party, key, sess int) {
	pt := sym.Bytes("pt", 2)
	o.msgs = append(o.msgs, &initial{from: p, key: key, c: enc(p, o.bob, pt), pt: pt, sess: sess})
}

// check compares the pre-keys present with what the history says.
func (o *owner) check() {
	for i, id := range o.ids {
		_, ok, err := o.bob.Store.PreKeyStore().Load(ctx, id)
		must(err)
		sym.Assert("C09", ok == !o.gone[i], "exactly the one-time pre-keys used by accepted messages are gone")
	}
	sym.Assert("C09", sym.Equal(o.signed, signedSnapshot(o.bob, 22)), "signed pre-keys stay")
}

// deliver presents one message; accepted says whether a message of its session was accepted before.
func (o *owner) deliver(m *initial) {
	open := false
	for _, x := range o.msgs {
		if x.got && x.from == m.from && x.sess == m.sess {
			open = true
		}
	}
	want := !m.got && (open || m.key < 0 || !o.gone[m.key])
	got, err := dec(o.bob, m.from, wire(m.c))
	sym.Assert("C09", (err == nil) == want, "a pre-key message is accepted exactly while its one-time pre-key is there or its session exists")
	if err == nil {
		sym.Assert("C09", sym.Equal(got, m.pt), "decrypted plaintext differs")
		m.got = true
		if m.key >= 0 {
			o.gone[m.key] = true
		}
	}
	o.check()
}

// H_C09_compete: several initiators, some with the same one-time pre-key.
func H_C09_compete() {
	o := newOwner(31, 32)
	alice, carol := newParty("alice"), newParty("carol")
	o.initiate(alice, sym.Choose("akey", 3)-1)
	o.initiate(carol, sym.Choose("ckey", 3)-1)
	o.write(alice, o.msgs[0].key, 0)
	n := 3
	if sym.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		switch k := sym.Choose("op", len(o.msgs)+1); {
		case k < len(o.msgs):
			o.deliver(o.msgs[k])
		case len(o.msgs) < 4: // alice starts over
			o.initiate(alice, sym.Choose("akey2", 3)-1)
		default:
			return
		}
	}
}

// H_C09_ids: any pair of pre-key IDs.
func H_C09_ids() {
	id0, id1 := prekey.ID(sym.Uint32("id0")), prekey.ID(sym.Uint32("id1"))
	sym.Assume(id0 != id1)
	sym.Assume(id0 != 0 && id1 != 0)
	o := newOwner(id0, id1)
	alice := newParty("alice")
	o.initiate(alice, 0)
	o.deliver(o.msgs[0])
	o.deliver(o.msgs[0])
	carol := newParty("carol")
	o.initiate(carol, 1)
	o.deliver(o.msgs[1])
}

// H_C09_consumed: nobody opens a session naming a one-time pre-key which is not there.
func H_C09_consumed() {
	o := newOwner(31, 32)
	alice, carol := newParty("alice"), newParty("carol")
	o.initiate(alice, 0)
	o.deliver(o.msgs[0])
	// carol, who knows all of her own secrets, leaves the one-time pre-key out of the agreement but names it
	o.initiate(carol, -1)
	m := o.msgs[1].c.(*message.PreKey)
	id := []byte{31}
	if sym.Choose("unknown", 2) == 1 {
		id = []byte{99}
	}
	raw := preKeyBytes(0x33, []byte{9}, id, []byte{22}, m.BaseKey().Bytes(), carol.ID.IdentityKey().Bytes(), m.Message().Bytes())
	c, err := parse(message.PreKeyType, raw)
	must(err)
	before := snapshot(o.bob, alice, carol)
	_, err = dec(o.bob, carol, c)
	sym.Assert("C09", err != nil, "a session was opened naming a one-time pre-key which is not there")
	if err != nil {
		sym.Assert("C09", sym.Equal(before, snapshot(o.bob, alice, carol)), "a refused message changed what is stored")
	}
	o.check()
	o.deliver(o.msgs[1])
}

// H_C09_forged: forged, altered and repeated pre-key messages consume nothing they should not.
func H_C09_forged() {
	h := preKeyAttack(1, true)
	_, ok, err := h.ps[1].Store.PreKeyStore().Load(ctx, h.keys.OneTimeID)
	must(err)
	accepted := false
	for _, m := range h.msgs {
		if m.got && m.to == h.ps[1] {
			accepted = true
		}
	}
	sym.Assert("C09", ok == (h.keys.OneTime != nil && !accepted), "the one-time pre-key is there exactly until its message is accepted")
}
