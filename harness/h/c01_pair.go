package h

import (
	"errors"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/harness/sym"
)

// snapshot is everything a party stores that concerns a peer, as bytes.
func snapshot(p *Party, peers ...*Party) []byte {
	var out []byte
	for _, q := range peers {
		rec, ok, err := p.Store.SessionStore().Load(ctx, q.Addr)
		must(err)
		if !ok {
			out = append(out, 0)
		} else {
			out = append(out, 1)
			if rec.State() != nil {
				out = append(out, lp(rec.State().Bytes())...)
			} else {
				out = append(out, 0xfe)
			}
			prev, err := rec.PreviousStates()
			must(err)
			out = append(out, byte(len(prev)))
			for _, s := range prev {
				out = append(out, lp(s.Bytes())...)
			}
		}
		id, ok, err := p.Store.IdentityStore().Load(ctx, q.Addr)
		must(err)
		if ok {
			out = append(out, id.Bytes()...)
		} else {
			out = append(out, 0)
		}
	}
	return out
}

// keySnapshot tells which of the given pre-keys are still there, with their contents.
func keySnapshot(p *Party, ids ...prekey.ID) []byte {
	var out []byte
	for _, id := range ids {
		k, ok, err := p.Store.PreKeyStore().Load(ctx, id)
		must(err)
		if !ok {
			out = append(out, 0)
			continue
		}
		kp, err := k.KeyPair()
		must(err)
		out = append(out, 1)
		out = append(out, kp.PublicKey().Bytes()...)
	}
	return out
}

func lp(b []byte) []byte { return append([]byte{byte(len(b) >> 8), byte(len(b))}, b...) }

type sent struct {
	from, to *Party
	pt       []byte
	c        message.Ciphertext
	typ      message.CiphertextType
	raw      []byte
	ck       []byte // sender chain key it was made from
	got      bool
}

func senderChain(p, q *Party) []byte {
	rec, ok, err := p.Store.SessionStore().Load(ctx, q.Addr)
	must(err)
	sym.Assume(ok && rec.State() != nil)
	ck, err := rec.State().SenderChainKey()
	must(err)
	return clone(ck.Key())
}

// inner is the authenticated part of a message.
func inner(c message.Ciphertext) *message.Signal {
	switch m := c.(type) {
	case *message.PreKey:
		return m.Message()
	case *message.Signal:
		return m
	}
	return nil
}

// hist drives a conversation; the choices make up the schedule.
type hist struct {
	ps    [2]*Party
	msgs  []*sent
	open  [2]bool // party has a session
	heard [2]bool // party has decrypted something in it
	keys  *Keys
	pend  int
	ptlen int

	pinned  bool // the recipient knows the sender's identity
	foreign bool // somebody else opened a session

	starts []start // chains not followed from their beginning
}

func newHist(oneTime bool) *hist {
	a, b, k := pair(oneTime)
	return &hist{ps: [2]*Party{a, b}, open: [2]bool{true, false}, keys: k, ptlen: 2}
}

func (h *hist) send(i int) *sent {
	p, q := h.ps[i], h.ps[1-i]
	pt := sym.Bytes("pt", h.ptlen)
	ck := senderChain(p, q)
	c, err := p.to(q).EncryptMessage(ctx, pt)
	sym.Assert("C01", err == nil, "encryption in an open session failed")
	must(err)
	m := &sent{from: p, to: q, pt: pt, c: c, typ: c.Type(), raw: clone(c.Bytes()), ck: ck}
	want := message.WhisperType
	if i == 0 && !h.heard[0] {
		want = message.PreKeyType
	}
	sym.Assert("C27", m.typ == want, "pre-key messages are sent until, and only until, the peer is heard from")
	if pk, ok := c.(*message.PreKey); ok {
		h.checkEnvelope(pk)
	}
	h.checkFresh(m)
	h.msgs = append(h.msgs, m)
	return m
}

func (h *hist) checkEnvelope(pk *message.PreKey) {
	k := h.keys
	sym.Assert("C27", (pk.PreKeyID() != nil) == (k.OneTime != nil), "pre-key message names a one-time pre-key exactly when the bundle had one")
	if pk.PreKeyID() != nil && k.OneTime != nil {
		sym.Assert("C27", *pk.PreKeyID() == k.OneTimeID, "pre-key message names the bundle's one-time pre-key")
	}
	sym.Assert("C27", pk.SignedPreKeyID() == k.SignedID, "pre-key message names the bundle's signed pre-key")
	sym.Assert("C27", pk.IdentityKey().Equal(h.ps[0].ID.IdentityKey()), "pre-key message carries our identity")
	sym.Assert("C27", pk.RegistrationID() == h.ps[0].Reg, "pre-key message carries our registration ID")
	for _, o := range h.msgs {
		if opk, ok := o.c.(*message.PreKey); ok && o.from == h.ps[0] {
			sym.Assert("C27", sym.Equal(opk.BaseKey().Bytes(), pk.BaseKey().Bytes()), "pre-key messages of one session share the base key")
		}
	}
}

func (h *hist) checkFresh(m *sent) {
	s := inner(m.c)
	next := uint32(0)
	for _, o := range h.msgs {
		os := inner(o.c)
		same := keysEqual(os.SenderRatchetKey(), s.SenderRatchetKey())
		sym.Assert("C05", sym.Not(sym.And(same, os.Counter() == s.Counter())), "two messages share ratchet key and counter")
		sym.Assert("C05", sym.Not(sym.Equal(o.ck, m.ck)), "two messages were encrypted from the same chain key")
		if same {
			next++
		}
	}
	sym.Assert("C05", s.Counter() == next+h.startOf(s.SenderRatchetKey()), "messages of one chain carry consecutive counters from zero")
}

func keysEqual(a, b curve.PublicKey) bool { return a.Equal(b) }

// deliver hands a message to its recipient for the first time.
func (h *hist) deliver(m *sent) {
	c, err := parse(m.typ, clone(m.raw))
	sym.Assert("C01", err == nil, "a sent message does not parse")
	must(err)
	got, err := dec(m.to, m.from, c)
	sym.Assert("C01", err == nil, "a sent message did not decrypt")
	sym.Assert("C27", err == nil, "a sent message did not decrypt")
	must(err)
	sym.Assert("C01", sym.Equal(got, m.pt), "decrypted plaintext differs")
	m.got = true
	for i := range h.ps {
		if h.ps[i] == m.to {
			h.open[i], h.heard[i] = true, true
		}
	}
}

// replay hands over a message that was already accepted.
func (h *hist) replay(m *sent) {
	before := concat(snapshot(m.to, m.from), keySnapshot(m.to, h.keys.OneTimeID))
	c, err := parse(m.typ, clone(m.raw))
	must(err)
	got, err := dec(m.to, m.from, c)
	sym.Assert("C02", err != nil, "a message was accepted twice")
	sym.Assert("C02", len(got) == 0, "a rejected replay returned plaintext")
	sym.Assert("C30", errors.Is(err, perrors.ErrDuplicateMessage), "a replay was not reported as a duplicate")
	if err != nil {
		after := concat(snapshot(m.to, m.from), keySnapshot(m.to, h.keys.OneTimeID))
		sym.Assert("C02", sym.Equal(before, after), "a rejected replay changed the session")
		sym.Assert("C04", sym.Equal(before, after), "a failed decryption changed what is stored")
	}
}

func (h *hist) steps(n int, replays bool) {
	for i := 0; i < n; i++ {
		var ops []func()
		for j := 0; j < 2; j++ {
			if h.open[j] {
				j := j
				ops = append(ops, func() { h.send(j) })
			}
		}
		for _, m := range h.msgs {
			m := m
			if !m.got {
				ops = append(ops, func() { h.deliver(m) })
			} else if replays {
				ops = append(ops, func() { h.replay(m) })
			}
		}
		ops[sym.Choose("op", len(ops))]()
	}
}

// drain delivers whatever is still in flight, newest or oldest first.
func (h *hist) drain(newest bool) {
	n := len(h.msgs)
	for i := 0; i < n; i++ {
		m := h.msgs[i]
		if newest {
			m = h.msgs[n-1-i]
		}
		if !m.got {
			h.deliver(m)
		}
	}
}

// H_C01_first: the first message of a session, every plaintext length up to the bound.
func H_C01_first() {
	one := sym.Choose("onetime", 2) == 1
	n := sym.Choose("n", 40)
	h := newHist(one)
	h.ptlen = n
	h.deliver(h.send(0))
	h.deliver(h.send(1))
	h.send(0)
	h.deliver(h.send(0))
	h.send(1)
	h.deliver(h.send(1))
	h.drain(false)
}

// H_C01_history: every schedule of sends and deliveries.
func H_C01_history() {
	n := 6
	if sym.Thorough() {
		n = 8
	}
	h := newHist(true)
	h.steps(n, false)
	h.drain(true)
}

// H_C27_history: the same schedules, without a one-time pre-key in some.
func H_C27_history() {
	n := 6
	if sym.Thorough() {
		n = 7
	}
	h := newHist(sym.Choose("onetime", 2) == 1)
	h.steps(n, false)
	h.drain(false)
}

// H_C02_history: replays at every point.
func H_C02_history() {
	n := 6
	if sym.Thorough() {
		n = 7
	}
	h := newHist(sym.Choose("onetime", 2) == 1)
	h.steps(n, true)
	h.drain(false)
	for _, m := range h.msgs {
		h.replay(m)
	}
}

// H_C05_history: no key reuse in any schedule.
func H_C05_history() {
	n := 7
	if sym.Thorough() {
		n = 8
	}
	h := newHist(true)
	h.steps(n, false)
}

// turns lets the parties take turns; in each turn messages may be held back or overtake each other.
func (h *hist) turns(n int, late bool) {
	i := 0
	for t := 0; t < n; t++ {
		k := 4
		if late && t > 1 {
			k = 5
		}
		switch sym.Choose("turn", k) {
		case 0:
			h.deliver(h.send(i))
		case 1: // the first is late
			h.send(i)
			h.deliver(h.send(i))
		case 2: // the second is late
			a := h.send(i)
			h.send(i)
			h.deliver(a)
		case 3:
			a := h.send(i)
			h.deliver(h.send(i))
			h.deliver(a)
		case 4: // the newest late message arrives before the turn
			for k := len(h.msgs) - 1; k >= 0; k-- {
				if m := h.msgs[k]; !m.got {
					h.deliver(m)
					break
				}
			}
			h.deliver(h.send(i))
		}
		i = 1 - i
	}
}

// H_C01_turns: messages delayed across many ratchet turns.
func H_C01_turns() {
	h := newHist(true)
	h.turns(tier(5, 7), false)
	h.drain(sym.Choose("newest", 2) == 1)
}

// H_C01_late: late messages arriving in the middle, too.
func H_C01_late() {
	h := newHist(false)
	h.turns(tier(4, 6), true)
	h.drain(true)
}

// H_C02_turns: everything is presented again after a conversation of many turns.
func H_C02_turns() {
	h := newHist(sym.Choose("onetime", 2) == 1)
	h.turns(tier(4, 6), true)
	for _, m := range h.msgs {
		if m.got {
			h.replay(m)
		}
	}
	h.drain(false)
	for _, m := range h.msgs {
		h.replay(m)
	}
}
