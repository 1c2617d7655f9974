package h

import (
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/harness/sym"
)

// H_C27_zeroid: a one-time pre-key whose ID is zero is one like any other.
func H_C27_zeroid() {
	a, b := newParty("alice"), newParty("bob")
	k := b.newKeys(22, 0, true)
	must(a.to(b).ProcessPreKeyBundle(ctx, a.Rand, b.bundle(k)))
	c := enc(a, b, sym.Bytes("pt", 1))
	_, err := dec(b, a, wire(c))
	sym.Assert("C27", err == nil, "a message to a bundle whose one-time pre-key has ID 0 does not decrypt")
}

// H_C27_ids: whatever the IDs are, the first messages name them.
func H_C27_ids() {
	ida := ident("ida")
	a, b := withReg("alice", addr("alice", 1), ida, 7), newParty("bob")
	spk, opk := prekey.ID(22), prekey.ID(31)
	switch sym.Choose("which", 3) {
	case 0:
		a = withReg("alice", addr("alice", 1), ida, sym.Uint32("reg"))
	case 1:
		spk = prekey.ID(sym.Uint32("spk"))
	case 2:
		opk = prekey.ID(sym.Uint32("opk"))
		sym.Assume(opk != 0)
	}
	k := b.newKeys(spk, opk, true)
	if sym.Choose("without", 2) == 1 {
		k.OneTime = nil
	}
	must(a.to(b).ProcessPreKeyBundle(ctx, a.Rand, b.bundle(k)))
	h := &hist{ps: [2]*Party{a, b}, open: [2]bool{true, false}, keys: k, ptlen: 1}
	n := 1 + sym.Choose("sends", tier(2, 3))
	for i := 0; i < n; i++ {
		h.send(0)
	}
	m := h.msgs[sym.Choose("first", n)]
	c, err := parse(m.typ, clone(m.raw))
	must(err)
	pk, ok := c.(*message.PreKey)
	sym.Assert("C27", ok, "the first message is not a pre-key message")
	sym.Assume(ok)
	h.checkEnvelope(pk)
	h.deliver(m)
	h.drain(false)
	h.deliver(h.send(1))
	h.deliver(h.send(0))
}

// H_C27_again: each session opened anew has its own pending pre-key.
func H_C27_again() {
	a, b := newParty("alice"), newParty("bob")
	for i := 0; i < 2; i++ {
		k := b.newKeys(prekey.ID(20+i), prekey.ID(30+i), sym.Choose("onetime", 2) == 1)
		must(a.to(b).ProcessPreKeyBundle(ctx, a.Rand, b.bundle(k)))
		h := &hist{ps: [2]*Party{a, b}, open: [2]bool{true, false}, keys: k, ptlen: 1}
		h.deliver(h.send(0))
		h.send(0)
		if sym.Choose("reply", 2) == 1 {
			h.deliver(h.send(1))
			h.send(0)
		}
		h.drain(true)
	}
}

// H_C27_position: wherever the chain stands, messages are pre-key messages exactly until the peer is heard from.
func H_C27_position() {
	h := newHist(sym.Choose("onetime", 2) == 1)
	a, b := h.ps[0], h.ps[1]
	at := anyMid("at")
	heard := sym.Choose("heard", 2) == 1
	if heard {
		h.deliver(h.send(0))
		h.deliver(h.send(1))
	}
	setSender(a, b, at)
	c, err := a.to(b).EncryptMessage(ctx, sym.Bytes("pt", 1))
	sym.Assert("C27|C01", err == nil, "encryption in an open session failed")
	must(err)
	want := message.PreKeyType
	if heard {
		want = message.WhisperType
	}
	sym.Assert("C27", c.Type() == want, "pre-key messages are sent until, and only until, the peer is heard from")
	sym.Assert("C27|C05", inner(c).Counter() == at, "a message carries another counter than its position")
	if pk, ok := c.(*message.PreKey); ok {
		h.checkEnvelope(pk)
	}
}

// H_C05_position: nor does a chain lose its place.
func H_C05_position() { H_C27_position() }

// long lets one side talk at length before it hears anything.
func long(n int) {
	h := newHist(true)
	i := 0
	if sym.Choose("who", 2) == 1 {
		h.deliver(h.send(0))
		i = 1
	}
	which := sym.Choose("heard", 4)
	for k := 0; k < n; k++ {
		m := h.send(i)
		if which == 1 && k%9 == 8 || which == 2 && k%2 == 0 || which == 3 && k == n-1 {
			h.deliver(m)
		}
	}
	h.drain(which == 0)
	h.deliver(h.send(1 - i))
	h.deliver(h.send(i))
}

// H_C27_long: however much is sent before.
func H_C27_long() { long(tier(70, 300)) }

// H_C01_long: all of it decrypts.
func H_C01_long() { long(tier(140, 400)) }

// H_C05_long: none of it with a key used before.
func H_C05_long() { long(tier(70, 150)) }
