package h

import (
	"github.com/RTann/libsignal-go/protocol/message"

	"verif/harness/sym"
)

// H_C04_signal: rejected Signal messages leave no trace, and genuine ones still decrypt.
func H_C04_signal() {
	h := newHist(true)
	h.deliver(h.send(0))
	n := 2
	if sym.Thorough() {
		n = 4
	}
	h.steps(n, false)
	h.releaseAll()
	h.attack(sym.Choose("at", 2), message.WhisperType, advSignal(16))
	h.drain(true)
}

// H_C04_prekey: rejected pre-key messages leave no trace, known sender or not.
func H_C04_prekey() {
	n := 1
	if sym.Thorough() {
		n = 2
	}
	h := preKeyAttack(n, sym.Choose("pinned", 2) == 1)
	if !h.foreign {
		h.drain(false)
	}
}

// H_C04_replay: so do replays.
func H_C04_replay() {
	h := newHist(sym.Choose("onetime", 2) == 1)
	h.steps(5, true)
	h.drain(false)
}

// H_C04_none: messages without a session are refused and nothing appears.
func H_C04_none() {
	a, b, _ := pair(true)
	c := newParty("carol")
	m := enc(a, b, sym.Bytes("pt", 3))
	_, err := dec(b, a, m)
	must(err)
	r := enc(b, a, sym.Bytes("pt", 3))
	before := concat(snapshot(c, a, b), keySnapshot(c, 31))
	_, err = dec(c, a, m)
	sym.Assert("C04", err != nil, "a message for somebody else was accepted")
	_, err = dec(c, b, r)
	sym.Assert("C04", err != nil, "a message for somebody else was accepted")
	_, err = c.to(b).EncryptMessage(ctx, []byte("x"))
	sym.Assert("C04", err != nil, "encrypted without a session")
	sym.Assert("C04", sym.Equal(before, concat(snapshot(c, a, b), keySnapshot(c, 31))), "a refused operation changed what is stored")
}
