package h

import (
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/sym"
)

// anyKey is a public key of any value in canonical form.
func anyKey(name string) curve.PublicKey {
	b := sym.Bytes(name, 32)
	sym.Assume(b[31] < 128)
	k, err := curve.NewPublicKey(concat([]byte{5}, b))
	must(err)
	return k
}

func anyIdentity(name string) identity.Key {
	k, err := identity.NewKey(anyKey(name).Bytes())
	must(err)
	return k
}

var ctLens = []int{0, 1, 16, 127, 128, 200}

func anySignal() (message.SignalConfig, *message.Signal) {
	cfg := message.SignalConfig{
		Version:             3,
		MACKey:              sym.Bytes("mackey", 32),
		SenderRatchetKey:    anyKey("ratchet"),
		PreviousCounter:     sym.Uint32("prev"),
		Counter:             sym.Uint32("counter"),
		Ciphertext:          sym.Bytes("ct", ctLens[sym.Choose("ctlen", len(ctLens))]),
		SenderIdentityKey:   anyIdentity("sid"),
		ReceiverIdentityKey: anyIdentity("rid"),
	}
	c, err := message.NewSignal(cfg)
	sym.Assert("C17", err == nil, "a message could not be built")
	must(err)
	return cfg, c.(*message.Signal)
}

func sameSignal(a, b *message.Signal) bool {
	return sym.And(a.Version() == b.Version(), a.Counter() == b.Counter(), sym.Equal(a.SenderRatchetKey().Bytes(), b.SenderRatchetKey().Bytes()),
		sym.Equal(a.Message(), b.Message()), sym.Equal(a.Bytes(), b.Bytes()))
}

// H_C17_signal: messages of any content survive encoding.
func H_C17_signal() {
	cfg, m := anySignal()
	sym.Assert("C17", sym.And(m.Version() == 3, m.Counter() == cfg.Counter, m.SenderRatchetKey().Equal(cfg.SenderRatchetKey), sym.Equal(m.Message(), cfg.Ciphertext)),
		"a message does not carry the fields it was built with")
	raw := clone(m.Bytes())
	c, err := message.NewSignalFromBytes(raw)
	sym.Assert("C17", err == nil, "a message this library built does not parse")
	must(err)
	p := c.(*message.Signal)
	sym.ObserveBytes("raw", raw)
	sym.Assert("C17", p.Type() == message.WhisperType && m.Type() == message.WhisperType, "a parsed message has another type")
	sym.Assert("C17", sameSignal(m, p), "a parsed message differs from the one built")
	sym.Assert("C17", sym.And(p.Counter() == cfg.Counter, sym.Equal(p.SenderRatchetKey().Bytes(), cfg.SenderRatchetKey.Bytes()), sym.Equal(p.Message(), cfg.Ciphertext)), "a parsed message lost a field")
	ok, err := p.VerifyMAC(cfg.MACKey, cfg.SenderIdentityKey, cfg.ReceiverIdentityKey)
	sym.Assert("C17", sym.And(err == nil, ok), "the tag of a parsed message does not verify")
	v := sym.Byte("ver")
	sym.Assume(v>>4 != 3)
	raw[0] = v
	_, err = message.NewSignalFromBytes(raw)
	sym.Assert("C17", err != nil, "a message of another version was accepted")
}

// H_C17_prekey: the same for pre-key messages, with and without a one-time pre-key ID.
func H_C17_prekey() {
	inner, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: sym.Bytes("mackey", 32), SenderRatchetKey: anyKey("ratchet"), Counter: 1, PreviousCounter: 2,
		Ciphertext: sym.Bytes("ct", 16), SenderIdentityKey: anyIdentity("sid"), ReceiverIdentityKey: anyIdentity("rid")})
	must(err)
	cfg := message.PreKeyConfig{
		Version:        3,
		RegistrationID: 77,
		SignedPreKeyID: 78,
		BaseKey:        anyKey("base"),
		IdentityKey:    anyIdentity("id"),
		Message:        inner.(*message.Signal),
	}
	one := prekey.ID(79)
	switch sym.Choose("wide", 3) {
	case 0:
		cfg.RegistrationID = sym.Uint32("reg")
	case 1:
		cfg.SignedPreKeyID = prekey.ID(sym.Uint32("spk"))
	case 2:
		one = prekey.ID(sym.Uint32("opk"))
	}
	if sym.Choose("onetime", 2) == 1 {
		cfg.PreKeyID = &one
	}
	c, err := message.NewPreKey(cfg)
	sym.Assert("C17", err == nil, "a message could not be built")
	must(err)
	same := func(m *message.PreKey) bool {
		r := sym.And(m.Version() == 3, m.RegistrationID() == cfg.RegistrationID, m.SignedPreKeyID() == cfg.SignedPreKeyID,
			sym.Equal(m.BaseKey().Bytes(), cfg.BaseKey.Bytes()), sym.Equal(m.IdentityKey().Bytes(), cfg.IdentityKey.Bytes()), sameSignal(m.Message(), cfg.Message))
		if cfg.PreKeyID == nil {
			return r && m.PreKeyID() == nil
		}
		if m.PreKeyID() == nil {
			return false
		}
		return sym.And(r, *m.PreKeyID() == one)
	}
	sym.Assert("C17", same(c.(*message.PreKey)), "a message does not carry the fields it was built with")
	raw := clone(c.Bytes())
	p, err := message.NewPreKeyFromBytes(raw)
	sym.Assert("C17", err == nil, "a message this library built does not parse")
	must(err)
	sym.ObserveBytes("raw", raw)
	sym.Assert("C17", same(p.(*message.PreKey)), "a parsed message differs from the one built")
	sym.Assert("C17", sym.And(sym.Equal(p.Bytes(), c.Bytes()), p.Type() == message.PreKeyType), "a parsed message has other bytes")
	v := sym.Byte("ver")
	sym.Assume(v>>4 != 3)
	raw[0] = v
	_, err = message.NewPreKeyFromBytes(raw)
	sym.Assert("C17", err != nil, "a message of another version was accepted")
}

// H_C17_group: the same for group messages.
func H_C17_group() {
	sig := keyPair("sig")
	id, it := uint32(5), uint32(6)
	ct := sym.Bytes("ct", 16)
	switch sym.Choose("wide", 3) {
	case 0:
		id = sym.Uint32("chain")
	case 1:
		it = sym.Uint32("it")
	case 2:
		ct = sym.Bytes("ctn", ctLens[sym.Choose("ctlen", len(ctLens))])
	}
	d := distIDs[sym.Choose("dist", 2)]
	m, err := message.NewSenderKey(sym.Reader("rnd"), message.SenderKeyConfig{Version: 3, DistID: d, ChainID: id, Iteration: it, Ciphertext: ct, SignatureKey: sig.PrivateKey()})
	sym.Assert("C17", err == nil, "a message could not be built")
	must(err)
	same := func(m *message.SenderKey) bool {
		return sym.And(m.Version() == 3, m.DistributionID() == d, m.ChainID() == id, m.Iteration() == it, sym.Equal(m.Message(), ct), m.Type() == message.SenderKeyType)
	}
	sym.Assert("C17", same(m), "a message does not carry the fields it was built with")
	raw := clone(m.Bytes())
	p, err := message.NewSenderKeyFromBytes(raw)
	sym.Assert("C17", err == nil, "a message this library built does not parse")
	must(err)
	sym.ObserveBytes("raw", raw)
	sym.Assert("C17", same(p), "a parsed message differs from the one built")
	sym.Assert("C17", sym.Equal(p.Bytes(), m.Bytes()), "a parsed message has other bytes")
	for _, x := range []*message.SenderKey{m, p} {
		ok, err := x.VerifySignature(sig.PublicKey())
		sym.Assert("C17", sym.And(err == nil, ok), "the signature of a message does not verify after encoding")
	}
	v := sym.Byte("ver")
	sym.Assume(v>>4 != 3)
	raw[0] = v
	_, err = message.NewSenderKeyFromBytes(raw)
	sym.Assert("C17", err != nil, "a message of another version was accepted")
}

// H_C17_distribution: the same for distribution messages.
func H_C17_distribution() {
	key := anyKey("key")
	id, it := sym.Uint32("chain"), sym.Uint32("it")
	ck := sym.Bytes("ck", 32)
	d := distIDs[sym.Choose("dist", 2)]
	m, err := message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: d, ChainID: id, Iteration: it, ChainKey: ck, SigningKey: key})
	sym.Assert("C17", err == nil, "a message could not be built")
	must(err)
	same := func(m *message.SenderKeyDistribution) bool {
		return sym.And(m.Version() == 3, m.DistributionID() == d, m.ChainID() == id, m.Iteration() == it, sym.Equal(m.ChainKey(), ck), sym.Equal(m.SigningKey().Bytes(), key.Bytes()))
	}
	sym.Assert("C17", same(m), "a message does not carry the fields it was built with")
	raw := clone(m.Bytes())
	p, err := message.NewSenderKeyDistributionFromBytes(raw)
	sym.Assert("C17", err == nil, "a message this library built does not parse")
	must(err)
	sym.ObserveBytes("raw", raw)
	sym.Assert("C17", same(p), "a parsed message differs from the one built")
	sym.Assert("C17", sym.Equal(p.Bytes(), m.Bytes()), "a parsed message has other bytes")
	v := sym.Byte("ver")
	sym.Assume(v>>4 != 3)
	raw[0] = v
	_, err = message.NewSenderKeyDistributionFromBytes(raw)
	sym.Assert("C17", err != nil, "a message of another version was accepted")
}

// H_C17_ids: distribution IDs survive their text form, whichever byte differs.
func H_C17_ids() {
	at := sym.Choose("at", 16)
	x := sym.Byte("x")
	base := []byte("d1d1d1d1-7000-11eb-b32a-33b8a8a487a6")
	pos := []int{0, 2, 4, 6, 9, 11, 14, 16, 19, 21, 24, 26, 28, 30, 32, 34}[at]
	base[pos], base[pos+1] = hexDigit(x>>4), hexDigit(x&15)
	a, err := distribution.ParseBytes(base)
	sym.Assert("C17", err == nil, "a distribution ID does not parse")
	must(err)
	b, err := distribution.Parse(string(base))
	sym.Assert("C17", err == nil, "a distribution ID does not parse")
	must(err)
	sym.Assert("C17", a == b, "a distribution ID parses in two ways")
	sym.Assert("C17", a.String() == string(base), "a distribution ID has another text form")
}

func hexDigit(x byte) byte {
	if x < 10 {
		return '0' + x
	}
	return 'a' + x - 10
}

// H_C17_plaintext: unencrypted content messages.
func H_C17_plaintext() {
	n := sym.Choose("len", 5)
	b := sym.Bytes("b", n)
	p, err := message.NewPlaintextFromBytes(b)
	if n == 0 {
		sym.Assert("C17", err != nil, "an empty plaintext message was accepted")
		sym.Assert("C18", err != nil, "an empty plaintext message was accepted")
		return
	}
	sym.Assert("C17", (err == nil) == (b[0] == 0xc0), "plaintext messages are known by their first byte")
	if err == nil {
		sym.Assert("C17", sym.And(sym.Equal(p.Bytes(), b), sym.Equal(p.Message(), b[1:]), p.Type() == message.PlaintextType), "a parsed plaintext message differs")
	}
}

// H_C17_state: a session goes on from its stored bytes at any point of a conversation.
func H_C17_state() {
	h := newHist(true)
	h.deliver(h.send(0))
	h.steps(2, false)
	for i := range h.ps {
		p, q := h.ps[i], h.ps[1-i]
		rec, ok, err := p.Store.SessionStore().Load(ctx, q.Addr)
		must(err)
		sym.Assume(ok)
		b := clone(rec.State().Bytes())
		before := snapshot(p, q)
		r2, err := session.NewRecordBytes(b)
		sym.Assert("C17", err == nil, "a stored session does not parse")
		must(err)
		sym.Assert("C17", sym.Equal(r2.State().Bytes(), rec.State().Bytes()), "a session state does not survive its encoding")
		must(p.Store.SessionStore().Store(ctx, q.Addr, r2))
		scribble(b)
		sym.Assert("C17", sym.Equal(before, snapshot(p, q)), "a session restored from bytes differs")
		sym.Assert("C28", sym.Equal(before, snapshot(p, q)), "a session restored from bytes shares memory with them")
	}
	h.steps(1, false)
	h.drain(true)
}

// H_C17_keys: stored pre-keys give back their key pairs.
func H_C17_keys() {
	k := keyPair("k")
	id := prekey.ID(sym.Uint32("id"))
	var got *curve.KeyPair
	var err error
	if sym.Choose("signed", 2) == 0 {
		got, err = prekey.NewPreKey(id, k).KeyPair()
	} else {
		got, err = prekey.NewSigned(id, sym.Uint64("time"), k, sym.Bytes("sig", 64)).KeyPair()
	}
	sym.Assert("C17", err == nil, "a stored pre-key does not give its keys")
	sym.Assert("C20", err == nil, "a stored pre-key does not give its keys")
	must(err)
	same := sym.And(sym.Equal(got.PublicKey().Bytes(), k.PublicKey().Bytes()), sym.Equal(got.PrivateKey().Bytes(), k.PrivateKey().Bytes()))
	sym.Assert("C17", same, "a stored pre-key gives other keys")
	sym.Assert("C20", same, "a stored pre-key gives other keys")
}
