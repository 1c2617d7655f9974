package h

import (
	"github.com/RTann/libsignal-go/protocol/curve"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/session"
	"google.golang.org/protobuf/proto"

	"verif/harness/sym"
)

// start is the position of a sending chain that was not followed from its beginning.
type start struct {
	key curve.PublicKey
	n   uint32
}

func (h *hist) startOf(key curve.PublicKey) uint32 {
	for i := len(h.starts) - 1; i >= 0; i-- {
		if keysEqual(h.starts[i].key, key) {
			return h.starts[i].n
		}
	}
	return 0
}

// anyMid is a position in a chain: any at all, short of the end of the counter.
func anyMid(name string) uint32 {
	m := sym.Uint32(name)
	sym.Assume(m < 1<<32-64)
	return m
}

func chainOf(k *curve.KeyPair, private bool, n uint32, ck []byte) *v1.SessionStructure_Chain {
	c := &v1.SessionStructure_Chain{SenderRatchetKey: k.PublicKey().Bytes(),
		ChainKey: &v1.SessionStructure_Chain_ChainKey{Index: n, Key: clone(ck)}}
	if private {
		c.SenderRatchetKeyPrivate = k.PrivateKey().Bytes()
	}
	return c
}

// midway is a conversation that has been going on for any time: the sender (party 0) is at any position of its
// chain, gap messages ahead of what the receiver has seen, and all secrets are any bytes.
func midway(at, other uint32, gap int) *hist {
	a, b := newParty("alice"), newParty("bob")
	ka, kb, old := keyPair("ka"), keyPair("kb"), keyPair("old")
	root := sym.Fresh("root", 32)
	ck := sym.Fresh("ck", 32)
	ahead := ck
	for i := 0; i < gap; i++ {
		ahead = refNext(ahead)
	}
	rootb, ckb := refStep(root, kb.PrivateKey(), ka.PublicKey())
	base := keyPair("base").PublicKey().Bytes()
	ia, ib := a.ID.IdentityKey(), b.ID.IdentityKey()
	sa := &v1.SessionStructure{SessionVersion: 3, LocalIdentityPublic: ia.Bytes(), RemoteIdentityPublic: ib.Bytes(), RootKey: clone(root),
		PreviousCounter: other, SenderChain: chainOf(ka, true, at+uint32(gap), ahead),
		ReceiverChains:       []*v1.SessionStructure_Chain{chainOf(old, false, other, sym.Fresh("oldck", 32))},
		RemoteRegistrationId: b.Reg, LocalRegistrationId: a.Reg, AliceBaseKey: base}
	sb := &v1.SessionStructure{SessionVersion: 3, LocalIdentityPublic: ib.Bytes(), RemoteIdentityPublic: ia.Bytes(), RootKey: rootb,
		PreviousCounter: other, SenderChain: chainOf(kb, true, 0, ckb),
		ReceiverChains:       []*v1.SessionStructure_Chain{chainOf(ka, false, at, ck)},
		RemoteRegistrationId: a.Reg, LocalRegistrationId: b.Reg, AliceBaseKey: base}
	must(a.Store.SessionStore().Store(ctx, b.Addr, session.NewRecord(session.NewState(sa))))
	must(b.Store.SessionStore().Store(ctx, a.Addr, session.NewRecord(session.NewState(sb))))
	_, err := a.Store.IdentityStore().Store(ctx, b.Addr, ib)
	must(err)
	_, err = b.Store.IdentityStore().Store(ctx, a.Addr, ia)
	must(err)
	return &hist{ps: [2]*Party{a, b}, open: [2]bool{true, true}, heard: [2]bool{true, true}, keys: &Keys{OneTimeID: 31}, ptlen: 2,
		starts: []start{{ka.PublicKey(), at + uint32(gap)}}}
}

// anywhere runs a few turns from any position of a chain.
func anywhere(replays bool) {
	at := anyMid("at")
	gap := sym.Choose("gap", tier(3, 4))
	h := midway(at, 3, gap)
	k := 1 + sym.Choose("sends", tier(3, 4))
	for i := 0; i < k; i++ {
		m := h.send(0)
		sym.Assert("C05", inner(m.c).Counter() == at+uint32(gap+i), "a message carries another counter than its position")
	}
	left := append([]*sent(nil), h.msgs...)
	for len(left) > 0 {
		i := sym.Choose("next", len(left)+1)
		if i == len(left) {
			break
		}
		h.deliver(left[i])
		if replays {
			h.replay(left[i])
		}
		left = append(append([]*sent(nil), left[:i]...), left[i+1:]...)
	}
	h.deliver(h.send(1))
	h.deliver(h.send(0))
	h.drain(true)
	if replays {
		for _, m := range h.msgs {
			h.replay(m)
		}
	}
}

// H_C01_anywhere: from any position of a chain, messages of it decrypt in any order.
func H_C01_anywhere() { anywhere(false) }

// H_C02_anywhere: from any position of a chain, each message decrypts once.
func H_C02_anywhere() { anywhere(true) }

// H_C05_anywhere: from any position of a chain, keys are used once.
func H_C05_anywhere() { anywhere(false) }

// H_C26_anywhere: the counters of messages at any position.
func H_C26_anywhere() {
	at, other := anyMid("at"), uint32(3)
	if sym.Choose("which", 2) == 1 {
		at, other = 3, anyMid("other")
	}
	h := midway(at, other, sym.Choose("gap", 3))
	a, b := h.ps[0], h.ps[1]
	c := specSend(a, b, sym.Bytes("pt", 1))
	specReceive(b, a, specSend(a, b, sym.Bytes("pt", 1)))
	specReceive(a, b, specSend(b, a, sym.Bytes("pt", 1)))
	specReceive(b, a, specSend(a, b, sym.Bytes("pt", 1)))
	_, err := dec(b, a, wire(c))
	sym.Assert("C26", err == nil, "a late message did not decrypt")
}

// H_C10_anywhere: a message too far ahead of any position is refused and nothing is kept.
func H_C10_anywhere() {
	at := anyMid("at")
	to := sym.Uint32("to")
	sym.Assume(sym.And(to > at, to-at > 25000))
	h := midway(at, 3, 0)
	a, b := h.ps[0], h.ps[1]
	setSender(a, b, to)
	m := h.sendAt(0)
	before := snapshot(b, a)
	c, err := parse(m.typ, clone(m.raw))
	must(err)
	got, err := dec(b, a, c)
	sym.Assert("C10", err != nil && len(got) == 0, "a message more than 25000 positions ahead was accepted")
	sym.Assert("C10", sym.Equal(before, snapshot(b, a)), "a message too far ahead left something behind")
}

// anywhereForged: an attacker who saw everything, against a conversation at any position.
func anywhereForged() {
	at := anyMid("at")
	switch sym.Choose("size", tier(1, 3)) { // of its encoding
	case 0:
		sym.Assume(at >= 1<<28)
	case 1:
		sym.Assume(sym.And(at >= 1<<7, at < 1<<14-64))
	case 2:
		sym.Assume(sym.And(at >= 1<<21, at < 1<<28-64))
	}
	h := midway(at, 3, sym.Choose("gap", tier(1, 2)))
	k := tier(2, 3)
	for i := 0; i < k; i++ {
		h.send(0)
	}
	if d := sym.Choose("delivered", k+1); d < k {
		h.deliver(h.msgs[d])
	}
	who := sym.Choose("at", 2)
	if who == 0 {
		h.deliver(h.send(1))
		h.send(1)
	}
	h.releaseAll()
	for i, m := range h.msgs {
		for _, o := range h.msgs[:i] { // under different keys
			sym.Assume(sym.Not(sym.Equal(inner(m.c).Message(), inner(o.c).Message())))
		}
	}
	m := h.msgs[sym.Choose("like", len(h.msgs))]
	c := inner(m.c)
	raw := c.Bytes()
	var f v1.SignalMessage
	must(proto.Unmarshal(raw[1:len(raw)-8], &f))
	ver, key, ct, n, prev := raw[0], f.GetRatchetKey(), f.GetCiphertext(), f.GetCounter(), f.GetPreviousCounter()
	switch sym.Choose("forged", 5) {
	case 0:
		ver = sym.Adversary("a.ver", 1)[0]
	case 1:
		key = concat([]byte{5}, sym.Adversary("a.key", 32))
	case 2:
		ct = sym.Adversary("a.ct", len(ct))
	case 3:
		n += uint32(sym.Choose("by", 5)) - 2
	case 4:
		prev = uint32(sym.Byte("a.prev") & 0x7f)
	}
	body, err := proto.Marshal(&v1.SignalMessage{RatchetKey: key, Counter: &n, PreviousCounter: &prev, Ciphertext: ct})
	must(err)
	forged := concat([]byte{ver}, body, sym.Adversary("a.mac", 8))
	for _, m := range h.msgs {
		if sym.Equal(inner(m.c).Bytes(), forged) {
			sym.Cover("genuine bytes")
		}
	}
	h.attack(who, message.WhisperType, forged)
	h.drain(true)
}

// H_C03_anywhere: nothing forged is accepted, at any position of a chain.
func H_C03_anywhere() { anywhereForged() }

// H_C04_anywhere: what is refused leaves no trace there.
func H_C04_anywhere() { anywhereForged() }

// setSender moves a's sending chain to a position.
func setSender(a, b *Party, n uint32) {
	rec, ok, err := a.Store.SessionStore().Load(ctx, b.Addr)
	must(err)
	sym.Assume(ok)
	ck, err := rec.State().SenderChainKey()
	must(err)
	nk, err := ratchet.NewChainKey(ck.Key(), n)
	must(err)
	rec.State().SetSenderChainKey(nk)
	must(a.Store.SessionStore().Store(ctx, b.Addr, rec))
}

// sendAt sends without the bookkeeping of send.
func (h *hist) sendAt(i int) *sent {
	p, q := h.ps[i], h.ps[1-i]
	pt := sym.Bytes("pt", 1)
	c, err := p.to(q).EncryptMessage(ctx, pt)
	must(err)
	return &sent{from: p, to: q, pt: pt, c: c, typ: c.Type(), raw: clone(c.Bytes())}
}

// groupAnywhere runs a group whose sender's chain stands at any position, under any chain ID.
func groupAnywhere(again bool) {
	g := newGroup()
	p := g.members[0]
	g.members = g.members[:1]
	g.ptlen = 1
	chain, at := uint32(7), anyMid("at")
	if sym.Choose("chain", 3) == 2 {
		chain, at = sym.Uint32("chain"), 70
	}
	g.preset(chain, at)
	var early *gmsg
	if sym.Choose("late joiner", 2) == 1 {
		early = g.send()
	}
	dm := g.join(p)
	st := g.senderState()
	sym.Assert("C16", sym.And(dm.Iteration() == st.SenderChainKey().Iteration(), sym.Equal(dm.ChainKey(), st.SenderChainKey().Seed()), dm.ChainID() == chain),
		"a distribution message differs from the stored chain")
	if early != nil {
		sym.Assert("C16", dm.Iteration() == at+1, "a distribution message does not show the chain's position")
	} else {
		sym.Assert("C16", dm.Iteration() == at, "a distribution message does not show the chain's position")
	}
	w := wireDist(dm)
	sym.Assert("C16", sym.And(w.Iteration() == dm.Iteration(), w.ChainID() == chain), "a distribution message does not survive the wire")
	k := tier(2, 4)
	for i := 0; i < k; i++ {
		g.send()
	}
	left := append([]*gmsg(nil), g.msgs...)
	for len(left) > 0 {
		i := sym.Choose("next", len(left)+1)
		if i == len(left) {
			break
		}
		g.deliver(p, left[i])
		if again {
			g.deliver(p, left[i])
			g.rejoin(p, dm)
			g.deliver(p, left[i])
		}
		left = append(append([]*gmsg(nil), left[:i]...), left[i+1:]...)
	}
	g.rejoin(p, g.distribution())
	g.drain(true)
}

// H_C14_anywhere: another member forges the sender's messages, with the chain at any position.
func H_C14_anywhere() {
	g := newGroup()
	p := g.members[0]
	g.members = g.members[:1]
	g.ptlen = 1
	at := anyMid("at")
	switch sym.Choose("size", tier(1, 3)) { // of its encoding
	case 0:
		sym.Assume(at >= 1<<28)
	case 1:
		sym.Assume(sym.And(at >= 1<<7, at < 1<<14-64))
	case 2:
		sym.Assume(sym.And(at >= 1<<21, at < 1<<28-64))
	}
	g.preset(7, at)
	dm := g.join(p)
	k := tier(2, 3)
	for i := 0; i < k; i++ {
		g.send()
	}
	if d := sym.Choose("delivered", k+1); d < k {
		g.deliver(p, g.msgs[d])
	}
	g.insider(dm)
	for i, m := range g.msgs {
		for _, o := range g.msgs[:i] { // under different keys
			sym.Assume(sym.Not(sym.Equal(m.c.Message(), o.c.Message())))
		}
	}
	m := g.msgs[sym.Choose("like", k)]
	var f v1.SenderKeyMessage
	must(proto.Unmarshal(m.raw[1:len(m.raw)-64], &f))
	ver, sig := m.raw[0], sym.Adversary("a.sig", 64)
	switch sym.Choose("forged", 6) {
	case 0:
		ver = sym.Adversary("a.ver", 1)[0]
	case 1:
		n := f.GetIteration() + uint32(sym.Choose("by", 5)) - 2
		f.Iteration = &n
	case 2:
		f.Ciphertext = sym.Adversary("a.ct", 16)
	case 3:
		id := f.GetChainId() + 1
		f.ChainId = &id
	case 4:
		f.Ciphertext = append(f.GetCiphertext(), sym.Adversary("a.ct", 16)...)
	case 5: // only the signature
	}
	if sym.Choose("sig", 2) == 1 {
		sig = clone(m.raw[len(m.raw)-64:])
	}
	body, err := proto.Marshal(&f)
	must(err)
	forged := concat([]byte{ver}, body, sig)
	for _, m := range g.msgs {
		if sym.Equal(m.raw, forged) {
			sym.Cover("genuine bytes")
		}
	}
	g.attack(p, forged)
	g.drain(true)
}

// H_C12_anywhere: from any position of any chain, messages decrypt in any order.
func H_C12_anywhere() { groupAnywhere(false) }

// H_C13_anywhere: the same, with everything presented again.
func H_C13_anywhere() { groupAnywhere(true) }

// H_C15_anywhere: iterations are consecutive from any position.
func H_C15_anywhere() { groupAnywhere(false) }

// H_C16_anywhere: distribution messages show any position.
func H_C16_anywhere() { groupAnywhere(true) }

// lossy runs n turns. In up to two of them messages are delayed, some or all of which arrive in a later turn.
func (h *hist) lossy(n int, each func()) {
	deliver := h.deliver
	if _, ok := h.ps[0].Rand.(*recorder); ok {
		deliver = func(m *sent) { h.deliverTurn(m, nil) }
	}
	first := sym.Choose("first", n)
	lost := 1 + sym.Choose("lost", 3)
	second := first + sym.Choose("second", tier(3, 6))
	arrive := second + 1 + sym.Choose("arrive", 3)
	which := sym.Choose("which", 3)
	for t := 0; t < n; t++ {
		i := t % 2
		var k int
		if t == first {
			k = lost
		} else if t == second {
			k = 2
		}
		for ; k > 0; k-- {
			h.send(i)
		}
		if t == arrive {
			var late []*sent
			for _, m := range h.msgs {
				if !m.got {
					late = append(late, m)
				}
			}
			switch {
			case len(late) == 0:
			case which == 0:
				deliver(late[0])
			case which == 1:
				deliver(late[len(late)-1])
			default:
				for _, m := range late {
					deliver(m)
				}
			}
		}
		deliver(h.send(i))
		if each != nil && (t == arrive || t == n-1) {
			each()
		}
	}
}

// H_C05_lossy: many turns, with losses, use each key once.
func H_C05_lossy() { newHist(true).lossy(tier(8, 12), nil) }

// H_C01_lossy: and what was lost decrypts whenever it arrives.
func H_C01_lossy() {
	h := newHist(true)
	h.lossy(tier(7, 10), nil)
	h.drain(sym.Choose("newest", 2) == 1)
}

// H_C05_turns: delays across ratchet turns.
func H_C05_turns() { H_C01_turns() }

// H_C11_lossy: and each turn replaces its keys.
func H_C11_lossy() {
	h := newRecHist(true)
	h.lossy(tier(9, 14), h.forward)
}
