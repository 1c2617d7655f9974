package h

import (
	"github.com/RTann/libsignal-go/protocol/message"

	"verif/harness/sym"
)

// Wire encodings written from the protocol definition.

func varint(v uint64) []byte {
	var out []byte
	for v >= 0x80 {
		out = append(out, byte(v)|0x80)
		v >>= 7
	}
	return append(out, byte(v))
}

// varint5 is a padded (five byte) encoding of any 32-bit value.
func varint5(v uint32) []byte {
	return []byte{byte(v) | 0x80, byte(v>>7) | 0x80, byte(v>>14) | 0x80, byte(v>>21) | 0x80, byte(v >> 28)}
}

func fieldBytes(num int, b []byte) []byte {
	return concat([]byte{byte(num<<3 | 2)}, varint(uint64(len(b))), b)
}

func fieldVar(num int, v []byte) []byte { return concat([]byte{byte(num << 3)}, v) }

// signalBytes lays out a Signal message.
func signalBytes(version byte, key []byte, counter, prev []byte, ct, mac []byte) []byte {
	return concat([]byte{version}, fieldBytes(1, key), fieldVar(2, counter), fieldVar(3, prev), fieldBytes(4, ct), mac)
}

func preKeyBytes(version byte, reg []byte, pkID []byte, spkID []byte, base, id, msg []byte) []byte {
	out := []byte{version}
	if pkID != nil {
		out = append(out, fieldVar(1, pkID)...)
	}
	out = concat(out, fieldBytes(2, base), fieldBytes(3, id), fieldBytes(4, msg), fieldVar(5, reg), fieldVar(6, spkID))
	return out
}

// advSignal is an attacker-made Signal message in the layout honest messages have.
func advSignal(ctLen int) []byte {
	ver := sym.Adversary("a.ver", 1)[0]
	key := concat([]byte{5}, sym.Adversary("a.key", 32))
	ctr := sym.Adversary("a.ctr", 1)
	sym.Assume(ctr[0] < 4)
	prev := sym.Adversary("a.prev", 1)
	sym.Assume(prev[0] < 128)
	return signalBytes(ver, key, ctr, prev, sym.Adversary("a.ct", ctLen), sym.Adversary("a.mac", 8))
}

// attack delivers attacker bytes; anything accepted must be a message the peer sent here.
func (h *hist) attack(at int, typ message.CiphertextType, raw []byte) bool {
	p, q := h.ps[at], h.ps[1-at]
	c, err := parse(typ, raw)
	if err != nil {
		return false
	}
	before := concat(snapshot(p, q), keySnapshot(p, h.keys.OneTimeID))
	other := false
	if pk, ok := c.(*message.PreKey); ok {
		if !pk.IdentityKey().Equal(q.ID.IdentityKey()) {
			other = true
		}
	}
	got, err := dec(p, q, c)
	if err != nil {
		sym.Assert("C04", len(got) == 0, "a failed decryption returned plaintext")
		after := concat(snapshot(p, q), keySnapshot(p, h.keys.OneTimeID))
		sym.Assert("C04", sym.Equal(before, after), "a failed decryption changed what is stored")
		sym.Assert("C09", sym.Equal(before, after), "a failed decryption changed what is stored")
		return false
	}
	sym.Cover("accepted")
	auth := inner(c).Bytes()
	if other && !h.pinned {
		// first contact: somebody else may open a session here, but not with the peer's messages
		for _, m := range h.msgs {
			mine := sym.Equal(inner(m.c).Bytes(), auth)
			sym.Assert("C03", sym.Not(mine), "accepted a pre-key message naming another identity than its sender's")
			sym.Assert("C08", sym.Not(mine), "accepted a pre-key message naming another identity than its sender's")
		}
		sym.Cover("first contact")
		h.foreign = true
		return true
	}
	genuine, again := false, false
	for _, m := range h.msgs {
		if m.to != p {
			continue
		}
		same := sym.Equal(inner(m.c).Bytes(), auth)
		genuine = sym.Or(genuine, sym.And(same, sym.Equal(got, m.pt)))
		if m.got {
			again = sym.Or(again, same)
		}
		if same {
			m.got = true
		}
	}
	sym.Assert("C03", genuine, "accepted a message the peer did not send")
	sym.Assert("C04", genuine, "reported success for a message that is not genuine")
	sym.Assert("C02", sym.Not(again), "a message was accepted twice")
	sym.Assert("C03", !other, "accepted a pre-key message naming another identity than its sender's")
	sym.Assert("C08", !other, "accepted a pre-key message naming another identity than its sender's")
	id, ok, err := p.Store.IdentityStore().Load(ctx, q.Addr)
	must(err)
	sym.Assert("C08", sym.And(ok, sym.Equal(id.Bytes(), q.ID.IdentityKey().Bytes())), "the peer's address ended up with another identity")
	for i := range h.ps {
		if h.ps[i] == p {
			h.open[i], h.heard[i] = true, true
		}
	}
	return true
}

func (h *hist) releaseAll() {
	for _, m := range h.msgs {
		sym.Release(m.raw)
	}
}

// H_C03_signal: an attacker who saw everything sends arbitrary Signal messages.
func H_C03_signal() {
	h := newHist(true)
	n := 3
	if sym.Thorough() {
		n = 5
	}
	h.deliver(h.send(0))
	h.steps(n, false)
	h.releaseAll()
	at := sym.Choose("at", 2)
	h.attack(at, message.WhisperType, advSignal(16))
	h.drain(sym.Choose("newest", 2) == 1)
}

// advPreKey is an attacker-made pre-key message around msg.
func advPreKey(msg []byte) []byte {
	ver := sym.Adversary("a.pver", 1)[0]
	base := concat([]byte{5}, sym.Adversary("a.base", 32))
	id := concat([]byte{5}, sym.Adversary("a.id", 32))
	var pk []byte
	switch sym.Choose("a.pk", 3) {
	case 1:
		pk = []byte{31}
	case 2:
		pk = []byte{32}
	}
	spk := []byte{byte(22 + sym.Choose("a.spk", 2))}
	reg := sym.Adversary("a.reg", 1)
	sym.Assume(reg[0] < 128)
	return preKeyBytes(ver, reg, pk, spk, base, id, msg)
}

// preKeyAttack: an attacker who saw everything sends pre-key messages around genuine or made-up messages.
func preKeyAttack(n int, pinned bool) *hist {
	h := newHist(sym.Choose("onetime", 2) == 1)
	if pinned {
		_, err := h.ps[1].Store.IdentityStore().Store(ctx, h.ps[0].Addr, h.ps[0].ID.IdentityKey())
		must(err)
	}
	h.pinned = pinned
	h.send(0)
	h.steps(n, false)
	h.releaseAll()
	var msg []byte
	k := sym.Choose("inner", len(h.msgs)+1)
	if k < len(h.msgs) {
		msg = clone(inner(h.msgs[k].c).Bytes())
	} else {
		msg = advSignal(16)
	}
	h.attack(1, message.PreKeyType, advPreKey(msg))
	return h
}

// H_C03_prekey: forged and altered pre-key messages against a recipient who knows the sender's identity.
func H_C03_prekey() {
	n := 1
	if sym.Thorough() {
		n = 3
	}
	preKeyAttack(n, true).drain(false)
}

// H_C03_first: the same against a recipient who has no identity on file for the sender.
func H_C03_first() {
	h := preKeyAttack(1, false)
	if !h.foreign {
		h.drain(false)
	}
}

// H_C02_prekey: an accepted message wrapped in altered pre-key envelopes.
func H_C02_prekey() {
	h := newHist(sym.Choose("onetime", 2) == 1)
	h.pinned = true
	h.deliver(h.send(0))
	n := 1
	if sym.Thorough() {
		n = 3
	}
	h.steps(n, true)
	h.releaseAll()
	m := h.msgs[sym.Choose("inner", len(h.msgs))]
	h.attack(1, message.PreKeyType, advPreKey(clone(inner(m.c).Bytes())))
}

// H_C03_lengths: the same as H_C03_signal for messages of every layout: empty, several blocks, long length fields.
func H_C03_lengths() {
	lens := []int{0, 15, 16, 47, 111, 112, 130}
	n := lens[sym.Choose("len", tier(len(lens), len(lens)))]
	h := newHist(true)
	h.deliver(h.send(0))
	at := sym.Choose("at", 2)
	h.ptlen = n
	h.send(1 - at)
	h.releaseAll()
	h.attack(at, message.WhisperType, advSignal((n/16+1)*16))
	h.drain(false)
}

// H_C03_spliced: genuine messages with protocol buffer fields added, repeated or cut off.
func H_C03_spliced() {
	h := newHist(true)
	h.deliver(h.send(0))
	at := sym.Choose("at", 2)
	m := h.send(1 - at)
	h.releaseAll()
	raw := inner(m.c).Bytes()
	body, mac := clone(raw[:len(raw)-8]), clone(raw[len(raw)-8:])
	switch sym.Choose("splice", 7) {
	case 0: // an unknown field
		body = append(body, 0x78, 0x00)
	case 1: // the counter once more
		body = append(body, fieldVar(2, varint(uint64(inner(m.c).Counter())))...)
	case 2: // another counter
		body = append(body, fieldVar(2, []byte{1})...)
	case 3: // another previous counter
		body = append(body, fieldVar(3, []byte{1})...)
	case 4: // the ratchet key once more
		body = append(body, fieldBytes(1, inner(m.c).SenderRatchetKey().Bytes())...)
	case 5: // the ciphertext once more
		body = append(body, fieldBytes(4, inner(m.c).Message())...)
	case 6: // another ciphertext
		body = append(body, fieldBytes(4, sym.Adversary("a.ct", 16))...)
	}
	if sym.Choose("mac", 2) == 1 {
		mac = sym.Adversary("a.mac", 8)
	}
	h.attack(at, message.WhisperType, append(body, mac...))
	h.drain(false)
}
