package h

import (
	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/message"

	"verif/harness/sym"
)

// twoAddresses are different, however alike they look.
func twoAddresses() (address.Address, address.Address) {
	switch sym.Choose("alike", 5) {
	case 0:
		return addr("a1", 1), addr("a", 11)
	case 1:
		return addr("a", 1), addr("a", 1+256)
	case 2:
		return addr("a.1", 2), addr("a", 12)
	case 3:
		x := address.Address{Name: string(sym.Bytes("x", 2)), DeviceID: address.DeviceID(sym.Uint32("xd"))}
		y := address.Address{Name: string(sym.Bytes("y", 2)), DeviceID: address.DeviceID(sym.Uint32("yd"))}
		sym.Assume(sym.Not(sym.And(x.Name == y.Name, x.DeviceID == y.DeviceID)))
		return x, y
	}
	x := address.Address{Name: string(sym.Bytes("x", 1)), DeviceID: address.DeviceID(sym.Uint32("xd"))}
	y := address.Address{Name: string(sym.Bytes("y", 2)), DeviceID: address.DeviceID(sym.Uint32("yd"))}
	return x, y
}

// twoPeers is a party and two peers, which may be devices of one user.
func twoPeers() (p, x, y *Party) {
	p = newParty("p")
	ax, ay := twoAddresses()
	x, y = newPartyAt("x", ax), newPartyAt("y", ay)
	if sym.Choose("sameuser", 2) == 1 {
		y = withReg("y", ay, x.ID, 77)
	}
	return
}

// use does one thing with one peer.
func use(p, x *Party, how int, old message.Ciphertext) {
	switch how {
	case 0:
		enc(p, x, []byte("m"))
	case 1:
		_, err := dec(p, x, wire(enc(x, p, []byte("n"))))
		sym.Assert("C24", err == nil, "a message did not decrypt")
	case 2: // anew
		k := x.newKeys(60, 61, true)
		must(p.to(x).ProcessPreKeyBundle(ctx, p.Rand, x.bundle(k)))
		_, err := dec(x, p, wire(enc(p, x, []byte("o"))))
		sym.Assert("C24", err == nil, "a message did not decrypt")
	case 3: // failing
		_, err := dec(p, x, wire(old))
		sym.Assert("C24", err != nil, "a message was accepted twice")
	case 4: // a bundle which is refused
		k := x.newKeys(62, 63, true)
		b := x.bundle(k)
		b.SignedPreKeySignature = make([]byte, 64)
		err := p.to(x).ProcessPreKeyBundle(ctx, p.Rand, b)
		sym.Assert("C24", err != nil, "a bundle without signature was accepted")
	case 5: // put away
		rec, ok, err := p.Store.SessionStore().Load(ctx, x.Addr)
		must(err)
		sym.Assume(ok)
		rec.ArchiveCurrentState()
		must(p.Store.SessionStore().Store(ctx, x.Addr, rec))
	}
}

// H_C24_pairwise: whatever happens with one peer, what is kept of the other stays.
func H_C24_pairwise() {
	p, x, y := twoPeers()
	kx, ky := x.newKeys(1, 2, true), y.newKeys(1, 2, true)
	none := snapshot(p, y)
	must(p.to(x).ProcessPreKeyBundle(ctx, p.Rand, x.bundle(kx)))
	sym.Assert("C24", sym.Equal(none, snapshot(p, y)), "opening a session with one peer changed another's")
	// the other session is opened by us or by the peer
	k := snapshot(p, x)
	var first message.Ciphertext
	if sym.Choose("who", 2) == 0 {
		must(p.to(y).ProcessPreKeyBundle(ctx, p.Rand, y.bundle(ky)))
		_, err := dec(y, p, wire(enc(p, y, []byte("a"))))
		sym.Assert("C24", err == nil, "a message did not decrypt")
	} else {
		kp := p.newKeys(5, 6, true)
		must(y.to(p).ProcessPreKeyBundle(ctx, y.Rand, p.bundle(kp)))
		_, err := dec(p, y, wire(enc(y, p, []byte("a"))))
		sym.Assert("C24", err == nil, "a message did not decrypt")
	}
	sym.Assert("C24", sym.Equal(k, snapshot(p, x)), "opening a session with one peer changed another's")
	_, err := dec(x, p, wire(enc(p, x, []byte("b"))))
	sym.Assert("C24", err == nil, "a message did not decrypt")
	first = enc(x, p, []byte("c"))
	_, err = dec(p, x, wire(first))
	sym.Assert("C24", err == nil, "a message did not decrypt")
	pending := enc(y, p, sym.Bytes("pt", 1))
	for i := 0; i < tier(2, 3); i++ {
		b := snapshot(p, y)
		use(p, x, sym.Choose("how", 6), first)
		sym.Assert("C24", sym.Equal(b, snapshot(p, y)), "using a session with one peer changed another's")
	}
	got, err := dec(p, y, wire(pending))
	sym.Assert("C24", err == nil, "a session does not work any more after another was used")
	sym.ObserveBytes("got", got)
	_, err = dec(y, p, wire(enc(p, y, []byte("d"))))
	sym.Assert("C24", err == nil, "a session does not work any more after another was used")
}

// H_C24_crossed: a message of one session handed over as another peer's.
func H_C24_crossed() {
	p, x, y := twoPeers()
	for _, q := range []*Party{x, y} {
		k := q.newKeys(1, 2, true)
		must(p.to(q).ProcessPreKeyBundle(ctx, p.Rand, q.bundle(k)))
		_, err := dec(q, p, wire(enc(p, q, []byte("a"))))
		must(err)
	}
	m := enc(x, p, []byte("b"))
	bx, by := snapshot(p, x), snapshot(p, y)
	got, err := p.to(y).DecryptMessage(ctx, p.Rand, wire(m))
	sym.Assert("C24", err != nil && len(got) == 0, "a message decrypted in another peer's session")
	sym.Assert("C24", sym.And(sym.Equal(bx, snapshot(p, x)), sym.Equal(by, snapshot(p, y))), "a message handed over as another peer's changed a session")
	_, err = dec(p, x, wire(m))
	sym.Assert("C24", err == nil, "a message did not decrypt")
	sym.Assert("C24", sym.Equal(by, snapshot(p, y)), "using a session with one peer changed another's")
}

// twoDists are different distributions, however alike.
func twoDists() (distribution.ID, distribution.ID) {
	d := distIDs[0]
	b := []byte(d.String())
	v := sym.Byte("v")
	i := []int{35, 0, 9}[sym.Choose("digit", tier(1, 3))]
	sym.Assume(v < 16)
	h := hexDigit(v)
	sym.Assume(h != b[i])
	b[i] = h
	d2, err := distribution.ParseBytes(b)
	must(err)
	return d, d2
}

// chain is one sending chain: a sender and a distribution.
type chain struct {
	s *Party
	d distribution.ID
	// r is the ID that receivers fill in, which only senders have to.
	r distribution.ID
}

func (c chain) show(p *Party) []byte {
	rec, ok, err := p.Store.GroupStore().Load(ctx, c.s.Addr, c.d)
	must(err)
	if !ok {
		return []byte{0}
	}
	st, err := rec.State()
	if err != nil {
		return []byte{2}
	}
	return stateBytes(st)
}

func (c chain) join(p *Party) {
	dm, err := c.s.group(c.s.Addr, c.d).NewSenderKeyDistribution(ctx, c.s.Rand)
	must(err)
	err = p.group(c.s.Addr, c.r).ProcessSenderKeyDistribution(ctx, wireDist(dm))
	sym.Assert("C24", err == nil, "a distribution message was refused")
	must(err)
}

func (c chain) enc(pt []byte) *message.SenderKey {
	m, err := c.s.group(c.s.Addr, c.d).EncryptMessage(ctx, c.s.Rand, pt)
	must(err)
	r, err := message.NewSenderKeyFromBytes(clone(m.Bytes()))
	must(err)
	return r
}

// H_C24_groups: chains of different senders and distributions are independent.
func H_C24_groups() {
	ax, ay := twoAddresses()
	d, d2 := twoDists()
	twoChains(ax, ay, d, d2, true)
}

// H_C24_unfilled: the same where receivers fill in no distribution ID, or another one.
func H_C24_unfilled() {
	twoChains(addr("x", 1), addr("x", 2), distIDs[0], distIDs[1], false)
}

func twoChains(ax, ay address.Address, d, d2 distribution.ID, filled bool) {
	x, y := newPartyAt("x", ax), newPartyAt("y", ay)
	p := newParty("p")
	a := chain{s: x, d: d}
	var b chain
	switch sym.Choose("other", 3) {
	case 0:
		b = chain{s: x, d: d2}
	case 1:
		b = chain{s: y, d: d}
	case 2:
		b = chain{s: y, d: d2}
	}
	if filled {
		a.r, b.r = a.d, b.d
	} else if sym.Choose("filled", 2) == 1 {
		a.r, b.r = b.d, a.d
	}
	none := concat(b.show(p), b.show(x), b.show(y))
	a.join(p)
	sym.Assert("C24", sym.Equal(none, concat(b.show(p), b.show(x), b.show(y))), "a chain changed with another")
	sym.Assert("C24", sym.Equal(a.show(p), a.show(x)), "a member holds another chain than its sender's")
	ka := concat(a.show(p), a.show(x))
	b.join(p)
	sym.Assert("C24", sym.Equal(b.show(p), b.show(b.s)), "a member holds another chain than its sender's")
	sym.Assert("C24", sym.Equal(ka, concat(a.show(p), a.show(x))), "a chain changed with another")
	kb := concat(b.show(p), b.show(b.s))
	m := a.enc([]byte("m"))
	skipped := a.enc([]byte("n"))
	_, err := p.group(b.s.Addr, b.r).DecryptMessage(ctx, m)
	if b.s != a.s {
		sym.Assert("C24", err != nil, "a group message decrypted in another sender's chain")
	}
	sym.Assert("C24", sym.Equal(kb, concat(b.show(p), b.show(b.s))), "a chain changed with another")
	_, err = p.group(a.s.Addr, a.r).DecryptMessage(ctx, skipped)
	sym.Assert("C24", err == nil, "a group message did not decrypt")
	_, err = p.group(a.s.Addr, a.r).DecryptMessage(ctx, skipped)
	sym.Assert("C24", err != nil, "a group message decrypted twice")
	a.join(p)
	sym.Assert("C24", sym.Equal(kb, concat(b.show(p), b.show(b.s))), "a chain changed with another")
	ka = concat(a.show(p), a.show(x))
	_, err = p.group(b.s.Addr, b.r).DecryptMessage(ctx, b.enc([]byte("o")))
	sym.Assert("C24", err == nil, "a group message did not decrypt")
	sym.Assert("C24", sym.Equal(ka, concat(a.show(p), a.show(x))), "a chain changed with another")
}

// H_C24_apart: pairwise sessions and group chains with one peer are independent too.
func H_C24_apart() {
	p, x := newParty("p"), newParty("x")
	k := x.newKeys(1, 2, true)
	c := chain{s: x, d: distIDs[0], r: distIDs[0]}
	c.join(p)
	g := c.show(p)
	must(p.to(x).ProcessPreKeyBundle(ctx, p.Rand, x.bundle(k)))
	_, err := dec(x, p, wire(enc(p, x, []byte("a"))))
	must(err)
	_, err = dec(p, x, wire(enc(x, p, []byte("a"))))
	must(err)
	sym.Assert("C24", sym.Equal(g, c.show(p)), "a pairwise session changed a group chain")
	s := snapshot(p, x)
	_, err = p.group(x.Addr, c.d).DecryptMessage(ctx, c.enc([]byte("m")))
	sym.Assert("C24", err == nil, "a group message did not decrypt")
	sym.Assert("C24", sym.Equal(s, snapshot(p, x)), "a group chain changed a pairwise session")
}
