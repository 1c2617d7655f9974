package h

import (
	"io"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/curve"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/message"

	"verif/harness/sym"
)

// recorder remembers the randomness a party drew.
type recorder struct {
	r     io.Reader
	reads [][]byte
}

func (r *recorder) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	r.reads = append(r.reads, clone(p[:n]))
	return n, err
}

// structures are all stored states of p with q.
func structures(p, q *Party) []*v1.SessionStructure {
	rec, ok, err := p.Store.SessionStore().Load(ctx, q.Addr)
	must(err)
	if !ok {
		return nil
	}
	states, err := rec.PreviousStates()
	must(err)
	if rec.State() != nil {
		states = append(states, rec.State())
	}
	var out []*v1.SessionStructure
	for _, st := range states {
		s := new(v1.SessionStructure)
		must(proto.Unmarshal(st.Bytes(), s))
		out = append(out, s)
	}
	return out
}

// secrets are all byte strings a state holds.
func secrets(s *v1.SessionStructure) [][]byte {
	out := [][]byte{s.RootKey, s.LocalIdentityPublic, s.RemoteIdentityPublic, s.AliceBaseKey}
	chains := append([]*v1.SessionStructure_Chain(nil), s.ReceiverChains...)
	if s.SenderChain != nil {
		chains = append(chains, s.SenderChain)
	}
	for _, c := range chains {
		out = append(out, c.SenderRatchetKey, c.SenderRatchetKeyPrivate, c.GetChainKey().GetKey())
		for _, k := range c.MessageKeys {
			out = append(out, k.CipherKey, k.MacKey, k.Iv)
		}
	}
	if p := s.PendingPreKey; p != nil {
		out = append(out, p.BaseKey)
	}
	return out
}

// gone asserts that none of the secrets is stored by p any more.
func gone(p, q *Party, what string, ks ...[]byte) {
	for _, s := range structures(p, q) {
		for _, b := range secrets(s) {
			for _, k := range ks {
				if len(b) == len(k) {
					sym.Assert("C11", sym.Not(sym.Equal(b, k)), what)
				}
			}
		}
	}
}

// usedKeys are the secrets of the message made from a chain key.
func usedKeys(ck []byte) [][]byte {
	d := refHKDF(refHMAC(ck, []byte{1}), nil, "WhisperMessageKeys", 80)
	return [][]byte{ck, d[:32], d[32:64], d[64:]}
}

// after checks both parties' stored state against the history so far.
func (h *hist) forward() {
	for _, m := range h.msgs {
		ks := usedKeys(m.ck)
		gone(m.from, m.to, "the sender still stores keys of a message it sent", ks...)
		if m.got {
			gone(m.to, m.from, "the receiver still stores keys of a message it decrypted", ks...)
			for _, s := range structures(m.to, m.from) {
				for _, c := range s.ReceiverChains {
					if !sym.Equal(c.SenderRatchetKey, inner(m.c).SenderRatchetKey().Bytes()) {
						continue
					}
					for _, k := range c.MessageKeys {
						sym.Assert("C11", k.Index != inner(m.c).Counter(), "a key is stored for a message already decrypted")
					}
					sym.Assert("C11", c.ChainKey.Index > inner(m.c).Counter(), "a chain stands at or before a message already decrypted")
				}
			}
		} else {
			// nothing before it on the same chain was kept either, except keys of messages still under way
			for _, s := range structures(m.to, m.from) {
				for _, b := range secrets(s) {
					if len(b) == 32 && h.later(m) {
						sym.Assert("C11", sym.Not(sym.Equal(b, m.ck)), "the receiver stores a chain key behind its position")
					}
				}
			}
		}
	}
}

// later tells whether a later message of m's chain was decrypted.
func (h *hist) later(m *sent) bool {
	for _, o := range h.msgs {
		if o.got && o.from == m.from && inner(o.c).Counter() > inner(m.c).Counter() && inner(o.c).SenderRatchetKey().Equal(inner(m.c).SenderRatchetKey()) {
			return true
		}
	}
	return false
}

type turnState struct {
	root, priv, pub, send []byte
}

func turn(p, q *Party) *turnState {
	ss := structures(p, q)
	if len(ss) == 0 {
		return nil
	}
	s := ss[len(ss)-1]
	return &turnState{root: s.RootKey, priv: s.SenderChain.SenderRatchetKeyPrivate, pub: s.SenderChain.SenderRatchetKey, send: s.SenderChain.ChainKey.Key}
}

// deliverTurn delivers m and checks the ratchet turn it makes (or not).
func (h *hist) deliverTurn(m *sent, seen map[*sent]bool) {
	p, q := m.to, m.from
	before := turn(p, q)
	isNew := true
	for _, o := range h.msgs {
		if o.got && o.to == p && inner(o.c).SenderRatchetKey().Equal(inner(m.c).SenderRatchetKey()) {
			isNew = false
		}
	}
	rec := p.Rand.(*recorder)
	n := len(rec.reads)
	h.deliver(m)
	after := turn(p, q)
	sym.Assert("C11", after != nil, "a session is stored after a message was decrypted")
	sym.Assume(after != nil)
	if !isNew {
		sym.Assert("C11", sym.And(sym.Equal(before.root, after.root), sym.Equal(before.priv, after.priv)), "the ratchet turns only with a new key of the peer")
		return
	}
	sym.Assert("C11", len(rec.reads) > n, "a turn of the ratchet draws fresh randomness")
	if before != nil {
		gone(p, q, "the root key survives a turn of the ratchet", before.root)
		gone(p, q, "the old ratchet private key survives a turn of the ratchet", before.priv)
		gone(p, q, "the old sending chain survives a turn of the ratchet", before.send)
		sym.Assert("C11", sym.Not(sym.Equal(before.pub, after.pub)), "a turn of the ratchet keeps the ratchet key")
	} else {
		// the first turn replaces the signed pre-key as ratchet key
		gone(p, q, "the signed pre-key is stored as ratchet key", h.keys.Signed.PrivateKey().Bytes())
	}
	fromFresh := false
	for _, r := range rec.reads[n:] {
		if len(r) != 32 {
			continue
		}
		k, err := curve.NewPrivateKey(r)
		must(err)
		fromFresh = sym.Or(fromFresh, sym.And(sym.Equal(k.PublicKey().Bytes(), after.pub), sym.Equal(k.Bytes(), after.priv)))
	}
	sym.Assert("C11", fromFresh, "the new ratchet key pair comes from fresh randomness")
	pub, err := curve.NewPublicKey(after.pub)
	must(err)
	priv, err := curve.NewPrivateKey(after.priv)
	must(err)
	sym.Assert("C11", sym.Equal(priv.PublicKey().Bytes(), pub.Bytes()), "the stored ratchet key pair fits together")
}

func newRecHist(one bool) *hist {
	a, b := newParty("alice"), newParty("bob")
	a.Rand, b.Rand = &recorder{r: a.Rand}, &recorder{r: b.Rand}
	k := b.newKeys(22, 31, one)
	must(a.to(b).ProcessPreKeyBundle(ctx, a.Rand, b.bundle(k)))
	return &hist{ps: [2]*Party{a, b}, open: [2]bool{true, false}, keys: k, ptlen: 1}
}

// H_C11_history: forward secrecy and ratchet turns in every schedule.
func H_C11_history() {
	h := newRecHist(true)
	n := 6
	if sym.Thorough() {
		n = 8
	}
	// the initiator's secrets of the agreement are not stored either
	base := h.ps[0].Rand.(*recorder).reads[0]
	kb, err := curve.NewPrivateKey(base)
	must(err)
	gone(h.ps[0], h.ps[1], "the base private key is stored", base, kb.Bytes())
	for i := 0; i < n; i++ {
		var ops []func()
		for j := 0; j < 2; j++ {
			if h.open[j] {
				j := j
				ops = append(ops, func() { h.send(j) })
			}
		}
		for _, m := range h.msgs {
			m := m
			if !m.got {
				ops = append(ops, func() { h.deliverTurn(m, nil) })
			}
		}
		ops[sym.Choose("op", len(ops))]()
		h.forward()
	}
}

// compromise hands the attacker everything p stores about its sessions with q.
func compromise(p, q *Party) {
	for _, s := range structures(p, q) {
		for _, b := range secrets(s) {
			sym.Release(b)
		}
	}
	sym.Release(p.ID.PrivateKey().Bytes())
}

// H_C11_heal: after a full round trip, what was stored before no longer helps to forge or read.
func H_C11_heal() {
	h := newHist(true)
	h.deliver(h.send(0))
	if sym.Choose("turned", 2) == 1 {
		h.deliver(h.send(1))
	}
	v := sym.Choose("victim", 2)
	compromise(h.ps[v], h.ps[1-v])
	h.releaseAll()
	// heal: each side turns the ratchet with randomness drawn after the compromise
	start := sym.Choose("start", 2)
	for i := 0; i < 4; i++ {
		m := h.send((start + i) % 2)
		sym.Release(m.raw)
		h.deliver(m)
	}
	at := sym.Choose("at", 2)
	h.attackKeys(at)
}

// attackKeys: the attacker extends the newest chains.
func (h *hist) attackKeys(at int) {
	p, q := h.ps[at], h.ps[1-at]
	// take the peer's current ratchet key and counter, which are public
	key := turn(q, p).pub
	ctr := structure(q, p).SenderChain.ChainKey.Index
	raw := signalBytes(0x33, key, varint(uint64(ctr)), []byte{0}, sym.Adversary("a.ct", 16), sym.Adversary("a.mac", 8))
	c, err := parse(message.WhisperType, raw)
	must(err)
	_, err = dec(p, q, c)
	sym.Assert("C11", err != nil, "a forgery with secrets from before the healing was accepted")
}

// H_C11_past: a compromise after the fact gives no key of earlier messages.
func H_C11_past() {
	h := newRecHist(sym.Choose("onetime", 2) == 1)
	h.steps(5, false)
	h.drain(true)
	h.forward()
	h.deliver(h.send(1))
	h.deliver(h.send(0))
	h.forward()
}
