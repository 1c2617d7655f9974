package h

import (
	"google.golang.org/protobuf/proto"

	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/sym"
)

// skip moves p's sending chain to q on by n messages that are never delivered.
func skip(p, q *Party, n int) {
	rec, ok, err := p.Store.SessionStore().Load(ctx, q.Addr)
	must(err)
	sym.Assume(ok)
	ck, err := rec.State().SenderChainKey()
	must(err)
	for i := 0; i < n; i++ {
		ck = ck.Next()
	}
	rec.State().SetSenderChainKey(ck)
	must(p.Store.SessionStore().Store(ctx, q.Addr, rec))
}

// structure is the stored form of p's current session with q.
func structure(p, q *Party) *v1.SessionStructure {
	rec, ok, err := p.Store.SessionStore().Load(ctx, q.Addr)
	must(err)
	sym.Assume(ok && rec.State() != nil)
	s := new(v1.SessionStructure)
	must(proto.Unmarshal(rec.State().Bytes(), s))
	return s
}

// H_C10_jump: a message 25000 ahead is accepted, one 25001 ahead is not.
func H_C10_jump() {
	alice, bob := established(true)
	far := sym.Choose("far", 2)
	chat(alice, bob, sym.Choose("chat", 2)*2)
	skip(alice, bob, 25000+far)
	c := enc(alice, bob, []byte("x"))
	before := snapshot(bob, alice)
	_, err := dec(bob, alice, c)
	sym.Assert("C10|C01", (err == nil) == (far == 0), "a message is accepted up to exactly 25000 positions ahead")
	if err != nil {
		sym.Assert("C10", sym.Equal(before, snapshot(bob, alice)), "a refused jump kept something")
	} else {
		for _, c := range structure(bob, alice).ReceiverChains {
			sym.Assert("C10", len(c.MessageKeys) <= 2000, "more than 2000 skipped keys kept")
		}
	}
}

// chat lets two parties exchange some messages.
func chat(a, b *Party, rounds int) {
	for i := 0; i < rounds; i++ {
		for j := 0; j < 2; j++ {
			_, err := dec(b, a, enc(a, b, []byte("chat")))
			must(err)
			_, err = dec(b, a, enc(a, b, []byte("chat")))
			must(err)
			a, b = b, a
		}
	}
}

// H_C10_self: between one's own devices there is no such limit, but the same bound on what is kept.
func H_C10_self() {
	a := newParty("alice")
	b := withReg("alice2", addr("alice", 2), a.ID, 77)
	k := b.newKeys(22, 31, true)
	must(a.to(b).ProcessPreKeyBundle(ctx, a.Rand, b.bundle(k)))
	_, err := dec(b, a, enc(a, b, []byte("hi")))
	must(err)
	chat(a, b, sym.Choose("chat", 2)*2)
	if sym.Choose("back", 2) == 1 {
		a, b = b, a
	}
	skip(a, b, 25001)
	_, err = dec(b, a, enc(a, b, []byte("x")))
	sym.Assert("C10|C01", err == nil, "a far message from an own device was refused")
	must(err)
	for _, c := range structure(b, a).ReceiverChains {
		sym.Assert("C10", len(c.MessageKeys) <= 2000, "more than 2000 skipped keys kept")
	}
}

// H_C10_far: no counter beyond the limit is accepted, whatever it is, and nothing is kept of it.
func H_C10_far() {
	alice, bob := established(true)
	at := []uint32{0, 1, 70000}[sym.Choose("index", 3)]
	c := enc(alice, bob, []byte("x"))
	_, err := dec(bob, alice, c)
	must(err)
	// put the chain at some index
	rec, _, err := bob.Store.SessionStore().Load(ctx, alice.Addr)
	must(err)
	s := structure(bob, alice)
	sym.Assume(len(s.ReceiverChains) > 0)
	last := s.ReceiverChains[len(s.ReceiverChains)-1]
	last.ChainKey.Index = at
	rec.SetSessionState(session.NewState(s))
	must(bob.Store.SessionStore().Store(ctx, alice.Addr, rec))
	ctr := sym.Uint32("counter")
	sym.Assume(ctr > at+25000)
	raw := signalBytes(0x33, inner(c).SenderRatchetKey().Bytes(), varint5(ctr), varint5(sym.Uint32("prev")), sym.Adversary("ct", 16), sym.Adversary("mac", 8))
	m, err := parse(message.WhisperType, raw)
	must(err)
	before := snapshot(bob, alice)
	_, err = dec(bob, alice, m)
	sym.Assert("C10", err != nil, "a message too far ahead was accepted")
	sym.Assert("C10", sym.Equal(before, snapshot(bob, alice)), "a refused jump kept something")
}

// keyPlan is what happens to a full list of skipped keys.
type keyPlan struct {
	drop int // how many of the oldest no longer fit
	use  int // one of the held messages (4: the newest skipped one) arrives, or none (-1)
	more int // further messages are skipped
}

func choosePlan() keyPlan {
	if sym.Choose("use", 2) == 0 {
		return keyPlan{sym.Choose("drop", 3), -1, sym.Choose("more", 2)}
	}
	return keyPlan{0, []int{0, 2, 4}[sym.Choose("used", 3)], 1 + sym.Choose("more", 2)}
}

// kept tells whether the key of the held message i is still there at the end.
func (k keyPlan) kept(i int) bool {
	out := k.drop + k.more
	if k.use >= 0 {
		out-- // there was room for one
	}
	first := 0 // the oldest one left
	for ; out > 0; first++ {
		if first != k.use {
			out--
		}
	}
	return i != k.use && i >= first
}

// H_C10_keys: at most 2000 skipped keys per chain are kept, the most recent ones.
func H_C10_keys() {
	alice, bob := established(true)
	var held []message.Ciphertext
	for i := 0; i < 4; i++ {
		held = append(held, enc(alice, bob, []byte{byte(i)}))
	}
	plan := choosePlan()
	skip(alice, bob, 2000+plan.drop-5)
	held = append(held, enc(alice, bob, []byte{4}))
	_, err := dec(bob, alice, enc(alice, bob, []byte("x")))
	sym.Assert("C10|C01|C12", err == nil, "a message within the limit was refused")
	must(err)
	if plan.use >= 0 {
		_, err = dec(bob, alice, held[plan.use])
		sym.Assert("C10|C01|C12", err == nil, "the 2000 most recent skipped keys are kept")
	}
	if plan.more > 0 { // more keys push more out
		skip(alice, bob, plan.more)
		_, err = dec(bob, alice, enc(alice, bob, []byte("y")))
		must(err)
	}
	cs := structure(bob, alice).ReceiverChains
	ks := cs[len(cs)-1].MessageKeys
	sym.Assert("C10", len(ks) == 2000, "2000 skipped keys are kept")
	for i := range held {
		_, err := dec(bob, alice, held[i])
		sym.Assert("C10|C01|C12", (err == nil) == plan.kept(i), "the 2000 most recent skipped keys are kept")
	}
}

// H_C10_chains: the five most recent receiving chains are kept.
func H_C10_chains() {
	alice, bob := established(true)
	turns := 7
	var held []message.Ciphertext
	for i := 0; i < turns; i++ {
		held = append(held, enc(alice, bob, []byte{byte(i)}))
		_, err := dec(bob, alice, enc(alice, bob, []byte("x")))
		sym.Assert("C10|C01", err == nil, "a message of the current turn was refused")
		must(err)
		_, err = dec(alice, bob, enc(bob, alice, []byte("y")))
		must(err)
		n := len(structure(bob, alice).ReceiverChains)
		m := len(structure(alice, bob).ReceiverChains)
		sym.Assert("C10", n <= 5 && m <= 5, "more than five receiving chains are kept")
		sym.Assert("C10", n == min(5, i+2), "fewer receiving chains are kept than fit")
	}
	// turn i is chain i+1 of turns+1 chains
	i := sym.Choose("which", turns)
	before := snapshot(bob, alice)
	got, err := dec(bob, alice, held[i])
	sym.Assert("C10|C01", (err == nil) == (i+2 > turns+1-5), "the five most recent chains are kept")
	if err == nil {
		sym.Assert("C10|C01", sym.Equal(got, []byte{byte(i)}), "decrypted plaintext differs")
	} else {
		sym.Assert("C10", sym.Equal(before, snapshot(bob, alice)), "a refused message changed what is stored")
	}
}

// H_C10_archive: at most forty archived states are kept, the most recent ones.
func H_C10_archive() {
	alice, bob := newParty("alice"), newParty("bob")
	k := bob.newKeys(22, 0, false)
	n := 43
	var first []message.Ciphertext
	var second []message.Ciphertext
	var bases [][]byte
	for i := 0; i < n; i++ {
		must(alice.to(bob).ProcessPreKeyBundle(ctx, alice.Rand, bob.bundle(k)))
		first = append(first, enc(alice, bob, []byte{byte(i)}))
		second = append(second, enc(alice, bob, []byte{byte(i), 1}))
		bases = append(bases, first[i].(*message.PreKey).BaseKey().Bytes())
		_, err := dec(bob, alice, first[i])
		must(err)
	}
	for _, p := range [][2]*Party{{alice, bob}, {bob, alice}} {
		rec, ok, err := p[0].Store.SessionStore().Load(ctx, p[1].Addr)
		must(err)
		sym.Assume(ok)
		prev, err := rec.PreviousStates()
		must(err)
		sym.Assert("C10|C25", len(prev) == 40, "forty archived states are kept")
		sym.Assert("C10|C25", sym.Equal(rec.State().AliceBaseKey(), bases[n-1]), "the newest session is the current one")
		for i := range prev {
			sym.Assert("C10|C25", sym.Equal(prev[i].AliceBaseKey(), bases[n-1-len(prev)+i]), "the forty most recent states are kept in order")
		}
	}
	i := []int{2, 3, 20, 41}[sym.Choose("which", 4)]
	got, err := dec(bob, alice, second[i])
	sym.Assert("C10|C25", err == nil && sym.Equal(got, []byte{byte(i), 1}), "a message of an archived session was refused")
	rec, _, err := bob.Store.SessionStore().Load(ctx, alice.Addr)
	must(err)
	prev, err := rec.PreviousStates()
	must(err)
	sym.Assert("C10", len(prev) <= 40, "more than forty archived states are kept")
}

// H_C10_group_jump: the same jump limit for group messages.
func H_C10_group_jump() {
	g := newGroup()
	g.preset(77, 0)
	m := g.members[0]
	g.join(m)
	_, err := g.dec(m, g.send())
	must(err)
	far := sym.Choose("far", 2)
	g.skip(25000 + far)
	c := g.send()
	before := g.snapshot(m)
	_, err = g.dec(m, c)
	sym.Assert("C10|C12", (err == nil) == (far == 0), "a group message is accepted up to exactly 25000 positions ahead")
	if err != nil {
		sym.Assert("C10", sym.Equal(before, g.snapshot(m)), "a refused jump kept something")
	}
}

// H_C10_group_keys: at most 2000 skipped keys per group chain, the most recent ones.
func H_C10_group_keys() {
	g := newGroup()
	g.preset(77, 0)
	m := g.members[0]
	g.join(m)
	var held []*gmsg
	for i := 0; i < 4; i++ {
		held = append(held, g.send())
	}
	plan := choosePlan()
	g.skip(2000 + plan.drop - 5)
	held = append(held, g.send())
	_, err := g.dec(m, g.send())
	sym.Assert("C10|C01|C12", err == nil, "a message within the limit was refused")
	must(err)
	if plan.use >= 0 {
		_, err = g.dec(m, held[plan.use])
		sym.Assert("C10|C01|C12", err == nil, "the 2000 most recent skipped keys are kept")
	}
	if plan.more > 0 {
		g.skip(plan.more)
		_, err = g.dec(m, g.send())
		must(err)
	}
	for i := range held {
		got, err := g.dec(m, held[i])
		sym.Assert("C10|C01|C12", (err == nil) == plan.kept(i), "the 2000 most recent skipped keys are kept")
		if err == nil {
			sym.Assert("C10|C12", sym.Equal(got, held[i].pt), "decrypted plaintext differs")
		}
	}
}

// H_C10_group_states: at most five states per sender and distribution, the most recently used ones.
func H_C10_group_states() {
	n := 7
	m := newParty("member")
	sender := newParty("sender")
	d := distIDs[0]
	var msgs []*message.SenderKey
	for i := 0; i < n; i++ {
		seed := sym.Bytes("seed", 32)
		sig := keyPair("sig")
		st := session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: uint32(100 + i), ChainKey: seed, SignatureKey: sig.PublicKey(), SignaturePrivateKey: sig.PrivateKey()})
		rec := session.NewGroupRecord()
		must(rec.AddState(st))
		must(sender.Store.GroupStore().Store(ctx, sender.Addr, d, rec))
		dm, err := sender.group(sender.Addr, d).NewSenderKeyDistribution(ctx, sender.Rand)
		must(err)
		c, err := sender.group(sender.Addr, d).EncryptMessage(ctx, sender.Rand, []byte{byte(i)})
		must(err)
		msgs = append(msgs, c)
		must(m.group(sender.Addr, d).ProcessSenderKeyDistribution(ctx, dm))
		r, ok, err := m.Store.GroupStore().Load(ctx, sender.Addr, d)
		must(err)
		sym.Assume(ok)
		have := 0
		for j := 0; j < n; j++ {
			present := r.StateForChainID(uint32(100+j)) != nil
			if present {
				have++
			}
			sym.Assert("C10|C16", present == (j <= i && j > i-5), "the five most recent sender-key states are kept")
		}
		sym.Assert("C10", have <= 5, "more than five sender-key states are kept")
	}
	i := sym.Choose("which", n)
	_, err := m.group(sender.Addr, d).DecryptMessage(ctx, msgs[i])
	sym.Assert("C10|C13|C16", (err == nil) == (i >= n-5), "messages of the five most recent sender-key states decrypt")
}

// What the limits leave readable is part of other guarantees too.
func H_C01_far()          { H_C10_jump() }
func H_C01_skipped()      { H_C10_keys() }
func H_C01_chains()       { H_C10_chains() }
func H_C01_own()          { H_C10_self() }
func H_C12_far()          { H_C10_group_jump() }
func H_C12_skipped()      { H_C10_group_keys() }
func H_C13_states()       { H_C10_group_states() }
func H_C16_states()       { H_C10_group_states() }
func H_C25_archivelimit() { H_C10_archive() }

// H_C01_delayed: a long conversation in which, at chosen points, a message is delivered several turns late.
func H_C01_delayed() { delayed(tier(8, 12), false) }

// H_C02_delayed: afterwards, everything is presented again.
func H_C02_delayed() { delayed(tier(8, 12), true) }

// H_C05_delayed: nor is a key used twice in it.
func H_C05_delayed() { delayed(tier(8, 12), false) }

func delayed(n int, again bool) {
	h := newHist(true)
	type held struct {
		m *sent
		t int
	}
	var late []held
	from := sym.Choose("from", n-1)
	who := sym.Choose("who", 2)
	lag := 1 + sym.Choose("lag", 4)
	every := sym.Choose("every", 2) == 1
	for t := 0; t < n; t++ {
		for i := 0; i < 2; i++ {
			if i == who && (t == from || every && t > from) {
				late = append(late, held{h.send(i), t + lag})
			}
			h.deliver(h.send(i))
			for _, l := range late {
				if l.t == t && !l.m.got && i == who {
					h.deliver(l.m)
				}
			}
		}
	}
	if !again {
		return
	}
	for _, m := range h.msgs {
		if m.got {
			h.replay(m)
		}
	}
}

var _ prekey.ID
