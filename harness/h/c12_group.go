package h

import (
	"errors"
	"io"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/session"

	"context"

	"verif/harness/sym"
)

// tryDec delivers m to p and compares with what must happen.
func (g *group) deliver(p *Party, m *gmsg) {
	from, in := g.joined[p]
	ok := in && int(m.c.Iteration()) >= from && !m.got[p]
	before := g.snapshot(p)
	got, err := g.dec(p, m)
	if ok {
		sym.Assert("C12", err == nil, "a genuine group message was refused")
		sym.Assert("C10", err == nil, "a genuine group message was refused")
		sym.Assert("C15", err == nil, "a genuine group message was refused")
		sym.Assert("C16", err == nil, "a genuine group message was refused")
		must(err)
		sym.Assert("C12", sym.Equal(got, m.pt), "a group message decrypted to other bytes than were encrypted")
		sym.Assert("C14", sym.Equal(got, m.pt), "a group message decrypted to other bytes than were encrypted")
		m.got[p] = true
		return
	}
	switch {
	case m.got[p]:
		sym.Assert("C13", err != nil, "a group message was accepted twice")
		sym.Assert("C30", errors.Is(err, perrors.ErrDuplicateMessage), "a replay was not reported as a duplicate")
	case in:
		sym.Assert("C12", err != nil, "a message from before a member joined was accepted")
	default:
		sym.Assert("C14", err != nil, "a message under an unknown distribution was accepted")
	}
	sym.Assume(err != nil)
	sym.Assert("C15", len(got) == 0, "a failed group decryption returned plaintext")
	sym.Assert("C15", sym.Equal(before, g.snapshot(p)), "a failed group decryption changed what is stored")
}

// steps runs n operations of a schedule; every message may be delivered again and again.
func (g *group) steps(n int, again bool) {
	var dists []*message.SenderKeyDistribution
	for i := 0; i < n; i++ {
		var ops []func()
		ops = append(ops, func() { g.send() })
		for _, p := range g.members {
			p := p
			ops = append(ops, func() { dists = append(dists, g.join(p)) })
			if again && len(dists) > 0 {
				ops = append(ops, func() { g.rejoin(p, dists[sym.Choose("dist", len(dists))]) })
			}
			for _, m := range g.msgs {
				m := m
				if again || !m.got[p] {
					ops = append(ops, func() { g.deliver(p, m) })
				}
			}
		}
		ops[sym.Choose("op", len(ops))]()
	}
}

// rejoin processes some distribution message of this chain, perhaps an old one.
func (g *group) rejoin(p *Party, dm *message.SenderKeyDistribution) {
	before := g.snapshot(p)
	err := g.process(p, dm)
	sym.Assert("C16", err == nil, "a genuine distribution message was refused")
	must(err)
	if _, ok := g.joined[p]; ok {
		sym.Assert("C16", sym.Equal(before, g.snapshot(p)), "processing a distribution message again changed the chain")
		return
	}
	g.joined[p] = int(dm.Iteration())
}

// drain delivers everything everywhere, then once more.
func (g *group) drain(newest bool) {
	for round := 0; round < 2; round++ {
		for i := range g.msgs {
			m := g.msgs[i]
			if newest {
				m = g.msgs[len(g.msgs)-1-i]
			}
			for _, p := range g.members {
				g.deliver(p, m)
			}
		}
	}
}

// H_C12_history: every schedule of one sender and two members.
func H_C12_history() {
	g := newGroup()
	g.preset(7, uint32(sym.Choose("start", 2)*300))
	n := 5
	if sym.Thorough() {
		n = 7
	}
	g.steps(n, false)
	g.drain(sym.Choose("newest", 2) == 1)
}

// H_C12_fresh: the same when the sender makes its own chain, with a random chain ID.
func H_C12_fresh() {
	g := newGroup()
	g.members = g.members[:1]
	g.ptlen = 16
	g.join(g.members[0])
	g.steps(4, false)
	g.drain(true)
}

// H_C12_lengths: plaintexts of every length around the block size.
func H_C12_lengths() {
	g := newGroup()
	g.members = g.members[:1]
	g.preset(7, 0)
	n := 18
	if sym.Thorough() {
		n = 50
	}
	g.ptlen = sym.Choose("len", n)
	g.join(g.members[0])
	g.send()
	g.send()
	g.send()
	g.drain(sym.Choose("newest", 2) == 1)
}

// H_C12_orders: a batch of messages in every order, with any of them missing.
func H_C12_orders() {
	g := newGroup()
	p := g.members[0]
	g.members = g.members[:1]
	g.ptlen = 1
	g.preset(7, 0)
	g.join(p)
	k := tier(5, 6)
	for i := 0; i < k; i++ {
		g.send()
	}
	left := append([]*gmsg(nil), g.msgs...)
	for len(left) > 0 {
		i := sym.Choose("next", len(left))
		g.deliver(p, left[i])
		left = append(append([]*gmsg(nil), left[:i]...), left[i+1:]...)
	}
}

// H_C13_history: everything may be delivered and every distribution processed again at any time.
func H_C13_history() {
	g := newGroup()
	g.members = g.members[:1]
	g.preset(7, 0)
	dm := g.join(g.members[0])
	n := 5
	if sym.Thorough() {
		n = 7
	}
	g.steps(n, true)
	g.rejoin(g.members[0], dm)
	g.drain(sym.Choose("newest", 2) == 1)
}

// H_C13_gaps: duplicates around gaps in the chain, of every pattern of deliveries out of k messages.
func H_C13_gaps() {
	g := newGroup()
	p := g.members[0]
	g.members = g.members[:1]
	g.ptlen = 1
	g.preset(300, 0)
	g.join(p)
	k := 4
	if sym.Thorough() {
		k = 6
	}
	for i := 0; i < k; i++ {
		g.send()
	}
	left := append([]*gmsg(nil), g.msgs...)
	for len(left) > 0 {
		i := sym.Choose("next", len(left)+1)
		if i == len(left) {
			break
		}
		g.deliver(p, left[i])
		for _, m := range g.msgs {
			if m.got[p] {
				g.deliver(p, m)
			}
		}
		left = append(append([]*gmsg(nil), left[:i]...), left[i+1:]...)
	}
	g.drain(false)
}

// groupBytes lays out a group message without its signature.
func groupBytes(version byte, d, chain, it, ct []byte) []byte {
	return concat([]byte{version}, fieldBytes(1, d), fieldVar(2, chain), fieldVar(3, it), fieldBytes(4, ct))
}

// attack delivers bytes made by somebody else; anything accepted must be one of the sender's messages.
func (g *group) attack(p *Party, raw []byte) {
	before := g.snapshot(p)
	c, err := message.NewSenderKeyFromBytes(raw)
	if err != nil {
		return
	}
	for _, m := range g.msgs {
		if sym.Equal(m.raw, raw) {
			sym.Cover("genuine bytes")
		}
	}
	got, err := g.sess(p).DecryptMessage(ctx, c)
	if err != nil {
		sym.Assert("C15", len(got) == 0, "a failed group decryption returned plaintext")
		sym.Assert("C15", sym.Equal(before, g.snapshot(p)), "a failed group decryption changed what is stored")
		return
	}
	genuine, again := false, false
	for _, m := range g.msgs {
		same := sym.Equal(m.raw, raw)
		genuine = sym.Or(genuine, sym.And(same, sym.Equal(got, m.pt)))
		if m.got[p] {
			again = sym.Or(again, same)
		}
		if same {
			m.got[p] = true
		}
	}
	sym.Assert("C14", genuine, "accepted a group message the sender did not send")
	sym.Assert("C13", sym.Not(again), "a group message was accepted twice")
	sym.Assert("C15", genuine, "reported success for a group message that is not genuine")
}

// insider gives the attacker what a member of the group knows.
func (g *group) insider(dms ...*message.SenderKeyDistribution) {
	for _, dm := range dms {
		sym.Release(dm.Bytes(), dm.ChainKey())
	}
	for _, m := range g.msgs {
		sym.Release(m.raw, m.ck)
	}
}

func attacked() (*group, *message.SenderKeyDistribution) {
	g := newGroup()
	g.members = g.members[:1]
	g.preset(7, 0)
	dm := g.join(g.members[0])
	n := 2
	if sym.Thorough() {
		n = 4
	}
	g.send()
	g.steps(n, false)
	g.insider(dm)
	return g, dm
}

// fixed is a group with one message delivered and one under way.
func fixed() (*group, *message.SenderKeyDistribution) {
	g := newGroup()
	g.members = g.members[:1]
	g.preset(7, 0)
	dm := g.join(g.members[0])
	g.deliver(g.members[0], g.send())
	g.send()
	g.insider(dm)
	return g, dm
}

// H_C14_forge: a member, who knows the chain key, makes up messages.
func H_C14_forge() {
	g, _ := attacked()
	it := sym.Adversary("a.it", 1)
	sym.Assume(it[0] < 4)
	ver := sym.Adversary("a.ver", 1)[0]
	raw := groupBytes(ver, []byte(g.d.String()), []byte{7}, it, sym.Adversary("a.ct", 16))
	g.attack(g.members[0], concat(raw, sym.Adversary("a.sig", 64)))
	g.drain(sym.Choose("newest", 2) == 1)
}

// H_C14_insider: a member signs with a key of its own what would otherwise be right.
func H_C14_insider() {
	g, _ := attacked()
	m := g.msgs[0]
	own := keyPair("insider")
	it := m.c.Iteration() + uint32(sym.Choose("ahead", 3))
	st := g.senderState()
	_ = st
	c, err := message.NewSenderKey(sym.Reader("insider.rnd"), message.SenderKeyConfig{Version: 3, DistID: g.d, ChainID: 7, Iteration: it,
		Ciphertext: m.c.Message(), SignatureKey: own.PrivateKey()})
	must(err)
	g.attack(g.members[0], clone(c.Bytes()))
	g.drain(false)
}

// H_C14_altered: one region of a genuine message is replaced by other bytes.
func H_C14_altered() {
	g, _ := fixed()
	p := g.members[0]
	m := g.msgs[sym.Choose("msg", 2)]
	raw := clone(m.raw)
	end := len(raw) - curve.SignatureSize
	// version | uuid | chain tag, ID | iteration tag, value | ciphertext | signature; the other structural
	// bytes make the ciphertext itself be parsed as fields, which multiplies paths but meets the same check
	regs := [][2]int{{0, 1}, {36, 37}, {38, 39}, {39, 40}, {40, 41}, {41, 42}, {42, 43}, {end - 16, end}, {end - 1, end}, {end, len(raw)}, {end, end + 1}, {end + 31, end + 32}, {end + 63, len(raw)}}
	k := sym.Choose("region", len(regs))
	r := regs[k]
	x := sym.Adversary("a.alt", r[1]-r[0])
	switch k {
	case 3, 5:
		sym.Assume(x[0]&0x87 == 0)
	case 4, 6:
		sym.Assume(x[0] < 128)
	}
	sym.Assume(sym.Not(sym.Equal(x, raw[r[0]:r[1]])))
	copy(raw[r[0]:], x)
	g.attack(p, raw)
	g.drain(false)
}

// H_C14_cut: messages cut short or with bytes added, before or after the signature.
func H_C14_cut() {
	g, _ := fixed()
	p := g.members[0]
	m := g.msgs[1]
	end := len(m.raw) - curve.SignatureSize
	var raw []byte
	switch sym.Choose("how", 5) {
	case 0:
		raw = clone(m.raw[:sym.Choose("cut", len(m.raw))])
	case 1:
		raw = concat(m.raw, sym.Adversary("a.more", 1))
	case 2:
		raw = concat(m.raw[:end], sym.Adversary("a.sig", 65))
	case 3:
		// a further field, perhaps one given before
		tag := []byte{0x10, 0x18, 0x28, 0x20, 0x22}[sym.Choose("tag", 5)]
		v := sym.Adversary("a.mid", 1)
		sym.Assume(v[0] < 128)
		raw = concat(m.raw[:end], []byte{tag}, v, m.raw[end:])
	case 4:
		raw = concat(m.raw[:end], []byte{0x22, 16}, sym.Adversary("a.ct", 16), m.raw[end:])
	}
	g.attack(p, raw)
	g.drain(false)
}

// H_C14_chains: messages of one chain or distribution offered as another's.
func H_C14_chains() {
	g, _ := attacked()
	p := g.members[0]
	// a second chain of the same sender in the same distribution, and one in another distribution
	o := newGroup()
	o.sender, o.members = g.sender, g.members
	o.sender = newPartyAt("other", addr("other", 1))
	if sym.Choose("dist", 2) == 1 {
		o.d = distIDs[1]
	}
	o.preset(8, 0)
	odm := o.distribution()
	must(p.group(g.sender.Addr, o.d).ProcessSenderKeyDistribution(ctx, wireDist(odm)))
	om := o.send()
	o.insider(odm)
	switch sym.Choose("swap", 4) {
	case 0: // its message body under the first chain's ID
		raw := clone(om.raw)
		end := len(raw) - curve.SignatureSize
		g.attack(p, concat(groupBytes(0x33, []byte(g.d.String()), []byte{7}, []byte{byte(om.c.Iteration())}, om.c.Message()), raw[end:]))
	case 1: // signed by the other chain's key over the first chain's ID
		c, err := message.NewSenderKey(sym.Reader("o.rnd"), message.SenderKeyConfig{Version: 3, DistID: g.d, ChainID: 7, Iteration: g.msgs[0].c.Iteration(),
			Ciphertext: g.msgs[0].c.Message(), SignatureKey: sigKey(o)})
		must(err)
		g.attack(p, clone(c.Bytes()))
	case 2: // an unknown chain ID, signed by the sender itself
		id := sym.Byte("chain")
		sym.Assume(id != 7)
		sym.Assume(id != 8)
		sym.Assume(id < 128)
		c, err := message.NewSenderKey(sym.Reader("o.rnd"), message.SenderKeyConfig{Version: 3, DistID: g.d, ChainID: uint32(id), Iteration: g.msgs[0].c.Iteration(),
			Ciphertext: g.msgs[0].c.Message(), SignatureKey: sigKey(g)})
		must(err)
		g.attack(p, clone(c.Bytes()))
	case 3: // an unknown distribution
		d := distribution.MustParse("00000000-7000-11eb-b32a-33b8a8a487a6")
		c, err := message.NewSenderKey(sym.Reader("o.rnd"), message.SenderKeyConfig{Version: 3, DistID: d, ChainID: 7, Iteration: g.msgs[0].c.Iteration(),
			Ciphertext: g.msgs[0].c.Message(), SignatureKey: sigKey(g)})
		must(err)
		g.attack(p, clone(c.Bytes()))
	}
	g.drain(false)
}

func sigKey(g *group) curve.PrivateKey {
	k, err := g.senderState().PrivateSigningKey()
	must(err)
	return k
}

var errFault = errors.New("fault")

// faultyGroups is a group store which fails when told to.
type faultyGroups struct {
	session.GroupStore
	loads, stores *int
	failLoad      int
	failStore     int
}

func (f *faultyGroups) Load(c context.Context, a address.Address, d distribution.ID) (*session.GroupRecord, bool, error) {
	*f.loads++
	if *f.loads == f.failLoad {
		return nil, false, errFault
	}
	return f.GroupStore.Load(c, a, d)
}

func (f *faultyGroups) Store(c context.Context, a address.Address, d distribution.ID, r *session.GroupRecord) error {
	*f.stores++
	if *f.stores == f.failStore {
		return errFault
	}
	return f.GroupStore.Store(c, a, d, r)
}

// faultyRand fails at its n-th read, after delivering part of it.
type faultyRand struct {
	n    int
	part int  // bytes it still delivers before it fails
	eof  bool // it ends rather than fails
}

// partly is how much a failing source delivers: nothing, one byte, or all but the last.
func partly() int { return []int{0, 1, 1 << 10}[sym.Choose("part", 3)] }

func (f *faultyRand) Read(p []byte) (int, error) {
	f.n--
	if f.n < 0 {
		err := errFault
		if f.eof {
			err = io.EOF
		}
		if f.part > 0 && len(p) > 1 && f.n == -1 {
			n := min(f.part, len(p)-1)
			for i := range p[:n] {
				p[i] = 1
			}
			return n, err
		}
		return 0, err
	}
	return sym.Reader("faulty").Read(p)
}

func (g *group) faulty(p *Party, load, store int) *session.GroupSession {
	return &session.GroupSession{SenderAddress: g.sender.Addr, DistID: g.d,
		SenderKeyStore: &faultyGroups{GroupStore: p.Store.GroupStore(), loads: new(int), stores: new(int), failLoad: load, failStore: store}}
}

// H_C15_faults: stores and randomness fail in any operation of a schedule.
func H_C15_faults() {
	g := newGroup()
	p := g.members[0]
	g.members = g.members[:1]
	g.ptlen = 1
	g.preset(7, 0)
	g.join(p)
	if sym.Choose("sent before", 2) == 1 {
		g.send()
		g.steps(2, false)
	}
	n := 1
	if sym.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		me, them := g.snapshot(g.sender), g.snapshot(p)
		var err error
		op := sym.Choose("fault", 8)
		switch op {
		case 0, 1:
			ld := sym.Choose("load", 2)
			c, e := g.faulty(g.sender, ld, 1-ld).EncryptMessage(ctx, g.sender.Rand, sym.Bytes("fpt", 1))
			sym.Assert("C15", c == nil, "a ciphertext was returned although storing failed")
			err = e
		case 2:
			c, e := g.sess(g.sender).EncryptMessage(ctx, &faultyRand{part: sym.Choose("part", 2)}, sym.Bytes("fpt", 1))
			sym.Assert("C15", c == nil, "a ciphertext was returned although signing failed")
			err = e
		case 3, 4:
			if len(g.msgs) == 0 {
				g.send()
				me = g.snapshot(g.sender)
			}
			m := g.msgs[sym.Choose("msg", len(g.msgs))]
			sym.Assume(!m.got[p])
			c, e := message.NewSenderKeyFromBytes(clone(m.raw))
			must(e)
			ld := sym.Choose("load", 2)
			got, e := g.faulty(p, ld, 1-ld).DecryptMessage(ctx, c)
			sym.Assert("C15", len(got) == 0, "a plaintext was returned although storing failed")
			err = e
		case 5:
			ld := sym.Choose("load", 2)
			err = g.faulty(p, ld, 1-ld).ProcessSenderKeyDistribution(ctx, wireDist(g.distribution()))
		case 6:
			dm, e := g.faulty(g.sender, 1, 0).NewSenderKeyDistribution(ctx, g.sender.Rand)
			sym.Assert("C15", dm == nil, "a distribution message was returned although loading failed")
			err = e
		case 7: // a member cannot send in the sender's name
			c, e := g.sess(p).EncryptMessage(ctx, p.Rand, sym.Bytes("fpt", 1))
			sym.Assert("C14", c == nil, "a member encrypted in the sender's name")
			err = e
		}
		sym.Assert("C15", err != nil, "a failing store or random source was not reported")
		sym.Assume(err != nil)
		if op != 7 {
			sym.Assert("C30", errors.Is(err, errFault), "the error of a store or random source was not passed on")
		}
		sym.Assert("C15", sym.Equal(me, g.snapshot(g.sender)), "a failed operation changed the sender's state")
		sym.Assert("C15", sym.Equal(them, g.snapshot(p)), "a failed operation changed a member's state")
	}
	g.send()
	g.drain(sym.Choose("newest", 2) == 1)
}

// H_C15_create: creating a sender's chain fails half way.
func H_C15_create() {
	g := newGroup()
	g.members = g.members[:1]
	switch sym.Choose("fault", 3) {
	case 0:
		dm, err := g.faulty(g.sender, 0, 1).NewSenderKeyDistribution(ctx, g.sender.Rand)
		sym.Assert("C15", err != nil, "a failing store was not reported")
		sym.Assert("C15", dm == nil, "a distribution message was returned although storing failed")
	case 1:
		dm, err := g.sess(g.sender).NewSenderKeyDistribution(ctx, &faultyRand{n: sym.Choose("at", 2), part: sym.Choose("part", 2)})
		sym.Assert("C15", err != nil, "a failing random source was not reported")
		sym.Assert("C15", dm == nil, "a distribution message was returned although randomness failed")
	case 2:
		c, err := g.sess(g.sender).EncryptMessage(ctx, g.sender.Rand, []byte("x"))
		sym.Assert("C15", err != nil, "encryption without a chain succeeded")
		sym.Assert("C15", c == nil, "encryption without a chain succeeded")
	}
	_, ok, err := g.sender.Store.GroupStore().Load(ctx, g.sender.Addr, g.d)
	must(err)
	sym.Assert("C15", !ok, "a failed operation left a chain behind")
	g.join(g.members[0])
	g.send()
	g.send()
	g.drain(true)
}

// H_C15_attacks: failed decryptions of any kind cost nothing.
func H_C15_attacks() {
	g := newGroup()
	p := g.members[0]
	g.members = g.members[:1]
	g.ptlen = 1
	g.preset(7, 0)
	dm := g.join(p)
	for i := 0; i < 3; i++ {
		g.send()
	}
	g.deliver(p, g.msgs[sym.Choose("first", 3)])
	g.insider(dm)
	switch sym.Choose("kind", 4) {
	case 0: // validly signed, undecryptable body
		it := uint32(sym.Choose("it", 5))
		c, err := message.NewSenderKey(g.sender.Rand, message.SenderKeyConfig{Version: 3, DistID: g.d, ChainID: 7, Iteration: it,
			Ciphertext: sym.Adversary("a.ct", 15), SignatureKey: sigKey(g)})
		must(err)
		g.attack(p, clone(c.Bytes()))
	case 1: // validly signed, too far ahead
		c, err := message.NewSenderKey(g.sender.Rand, message.SenderKeyConfig{Version: 3, DistID: g.d, ChainID: 7, Iteration: 30000,
			Ciphertext: sym.Adversary("a.ct", 16), SignatureKey: sigKey(g)})
		must(err)
		g.attack(p, clone(c.Bytes()))
	case 2: // wrong signature, far ahead
		own := keyPair("insider")
		c, err := message.NewSenderKey(g.sender.Rand, message.SenderKeyConfig{Version: 3, DistID: g.d, ChainID: 7, Iteration: uint32(sym.Choose("it", 5)),
			Ciphertext: g.msgs[2].c.Message(), SignatureKey: own.PrivateKey()})
		must(err)
		g.attack(p, clone(c.Bytes()))
	case 3: // a distribution message that does not parse
		raw := clone(dm.Bytes())
		raw[sym.Choose("at", 1)] = sym.Adversary("a.b", 1)[0]
		before := g.snapshot(p)
		if d2, err := message.NewSenderKeyDistributionFromBytes(raw); err == nil {
			if g.sess(p).ProcessSenderKeyDistribution(ctx, d2) != nil {
				sym.Assert("C15", sym.Equal(before, g.snapshot(p)), "a refused distribution message changed what is stored")
			}
		} else {
			sym.Assert("C15", sym.Equal(before, g.snapshot(p)), "a refused distribution message changed what is stored")
		}
	}
	g.drain(sym.Choose("newest", 2) == 1)
}

func distOf(d distribution.ID, chain, it uint32, ck []byte, key curve.PublicKey) *message.SenderKeyDistribution {
	dm, err := message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: d, ChainID: chain, Iteration: it, ChainKey: ck, SigningKey: key})
	must(err)
	return dm
}

// H_C16_rollback: distribution messages for the chain already held, with any key and position.
func H_C16_rollback() {
	g := newGroup()
	p := g.members[0]
	g.members = g.members[:1]
	g.ptlen = 1
	g.preset(7, 2)
	g.join(p)
	g.send()
	g.steps(3, false)
	pub, err := g.senderState().PublicSigningKey()
	must(err)
	it := sym.Uint32("it")
	dm := distOf(g.d, 7, it, sym.Bytes("ck", 32), pub)
	before := g.snapshot(p)
	if sym.Choose("wire", 2) == 1 {
		dm = wireDist(dm)
	}
	err = g.sess(p).ProcessSenderKeyDistribution(ctx, dm)
	_ = err
	sym.Assert("C16", sym.Equal(before, g.snapshot(p)), "a distribution message changed a chain already held")
	g.drain(sym.Choose("newest", 2) == 1)
}

// H_C16_conflict: another signing key for a chain ID replaces the chain altogether.
func H_C16_conflict() {
	g := newGroup()
	p := g.members[0]
	g.members = g.members[:1]
	g.ptlen = 1
	g.preset(7, 0)
	g.join(p)
	g.send()
	g.send()
	g.steps(2, false)
	n := newGroup()
	n.members = g.members
	n.sender = newPartyAt("sender2", g.sender.Addr)
	n.ptlen = 1
	n.preset(7, uint32(sym.Choose("at", 3)))
	extra := sym.Choose("extra", 2) == 1
	if extra { // with another chain in between
		k := keyPair("third")
		must(g.sess(p).ProcessSenderKeyDistribution(ctx, distOf(g.d, 9, 0, sym.Fresh("thirdck", 32), k.PublicKey())))
	}
	n.join(p)
	sym.Assert("C16", sym.Equal(stateBytes(stateOf(p, g, 7)), stateBytes(n.senderState())), "a conflicting distribution message did not replace the chain")
	for _, m := range g.msgs {
		_, err := g.dec(p, m)
		sym.Assert("C16", err != nil, "a message of a replaced chain was accepted")
		sym.Assert("C13", sym.Implies(m.got[p], err != nil), "a group message was accepted twice")
	}
	n.send()
	n.send()
	n.drain(sym.Choose("newest", 2) == 1)
	if extra {
		sym.Assert("C16", stateOf(p, g, 9) != nil, "replacing a chain dropped another one")
	}
}

func stateOf(p *Party, g *group, chain uint32) *session.GroupState {
	rec, ok, err := p.Store.GroupStore().Load(ctx, g.sender.Addr, g.d)
	must(err)
	sym.Assume(ok)
	return rec.StateForChainID(chain)
}

// H_C16_chains: further chains of the same sender leave those held as they are.
func H_C16_chains() {
	n := 3
	if sym.Thorough() {
		n = 5
	}
	p := newParty("m0")
	var gs []*group
	var ids []uint32
	for i := 0; i < n; i++ {
		g := newGroup()
		g.sender = newPartyAt("sender"+string(rune('a'+i)), addr("sender", 1))
		g.members = []*Party{p}
		g.ptlen = 1
		g.preset(uint32(300*i+5), uint32(i))
		gs = append(gs, g)
		ids = append(ids, uint32(300*i+5))
	}
	all := func() []byte { return groupSnapshot(p, gs[0], ids) }
	_ = all
	joined := 0
	k := 5
	if sym.Thorough() {
		k = 7
	}
	for i := 0; i < k; i++ {
		var ops []func()
		if joined < n {
			ops = append(ops, func() {
				var before []byte
				for _, g := range gs[:joined] {
					before = append(before, stateBytes(stateOf(p, g, g.senderState().ChainID()))...)
				}
				gs[joined].join(p)
				var after []byte
				for _, g := range gs[:joined] {
					st := stateOf(p, g, g.senderState().ChainID())
					sym.Assert("C16", st != nil, "adding a chain dropped another one")
					sym.Assume(st != nil)
					after = append(after, stateBytes(st)...)
				}
				sym.Assert("C16", sym.Equal(before, after), "adding a chain changed another one")
				joined++
			})
		}
		for _, g := range gs[:joined] {
			g := g
			ops = append(ops, func() { g.send() })
			ops = append(ops, func() { g.rejoin(p, g.distribution()) })
			for _, m := range g.msgs {
				m := m
				if !m.got[p] {
					ops = append(ops, func() { g.deliver(p, m) })
				}
			}
		}
		ops[sym.Choose("op", len(ops))]()
	}
	for _, g := range gs[:joined] {
		g.drain(false)
	}
}

// H_C16_sender: a sender's distribution message shows where its one chain stands.
func H_C16_sender() {
	g := newGroup()
	g.members = g.members[:1]
	g.ptlen = 1
	var first *message.SenderKeyDistribution
	var ck []byte
	sends := uint32(0)
	for i := 0; i < 5; i++ {
		if first == nil || sym.Choose("op", 2) == 0 {
			dm := g.distribution()
			if first == nil {
				first = dm
				ck = clone(dm.ChainKey())
			}
			st := g.senderState()
			pub, err := st.PublicSigningKey()
			must(err)
			sym.Assert("C16", dm.ChainID() == first.ChainID(), "a repeated request made a second chain")
			sym.Assert("C16", dm.SigningKey().Equal(first.SigningKey()), "a repeated request made a second chain")
			sym.Assert("C16", dm.Iteration() == sends, "a distribution message does not show the chain's position")
			sym.Assert("C16", sym.Equal(dm.ChainKey(), ck), "a distribution message does not show the chain's key")
			sym.Assert("C16", sym.And(sym.Equal(dm.ChainKey(), st.SenderChainKey().Seed()), dm.Iteration() == st.SenderChainKey().Iteration(), dm.ChainID() == st.ChainID(), dm.SigningKey().Equal(pub)),
				"a distribution message differs from the stored chain")
			sym.Assert("C16", dm.DistributionID() == g.d, "a distribution message names another distribution")
			w := wireDist(dm)
			sym.Assert("C16", sym.And(sym.Equal(w.ChainKey(), ck), w.Iteration() == sends, w.ChainID() == first.ChainID(), w.SigningKey().Equal(pub), w.DistributionID() == g.d),
				"a distribution message does not survive the wire")
			sym.Assert("C16", dm.ChainID() < 1<<31, "chain IDs have 31 bits")
		} else {
			g.send()
			ck = refHMAC(ck, []byte{2})
			sends++
		}
	}
}

// H_C16_alias: what a receiver stores does not depend on buffers others hold.
func H_C16_alias() {
	g := newGroup()
	p := g.members[0]
	g.members = g.members[:1]
	g.ptlen = 1
	g.preset(7, 0)
	dm := g.distribution()
	raw := clone(dm.Bytes())
	w, err := message.NewSenderKeyDistributionFromBytes(raw)
	must(err)
	if sym.Choose("which", 2) == 1 {
		w, raw = dm, dm.Bytes()
	}
	must(g.sess(p).ProcessSenderKeyDistribution(ctx, w))
	g.joined[p] = 0
	before, mine := g.snapshot(p), g.snapshot(g.sender)
	scribble(raw)
	scribble(w.ChainKey())
	scribble(w.SigningKey().Bytes())
	scribble(w.SigningKey().KeyBytes())
	scribble(dm.ChainKey())
	sym.Assert("C16", sym.Equal(before, g.snapshot(p)), "a receiver's chain shares memory with a distribution message")
	sym.Assert("C16", sym.Equal(mine, g.snapshot(g.sender)), "a sender's chain shares memory with its distribution message")
	sym.Assert("C28", sym.Equal(before, g.snapshot(p)), "a receiver's chain shares memory with a distribution message")
	sym.Assert("C28", sym.Equal(mine, g.snapshot(g.sender)), "a sender's chain shares memory with its distribution message")
	g.send()
	g.send()
	g.drain(true)
}

// scribble overwrites a buffer, spare capacity included.
func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5a
	}
}

// groupSaga lets chains of one sender follow each other, with long runs of messages, some of them late.
func groupSaga(n int) {
	count := 1 + sym.Choose("count", n)
	if n < 5 && count == n {
		count = 5
	}
	per := []int{1, 4, 30}[sym.Choose("per", 3)]
	dists := sym.Choose("dists", 2) == 1
	newest := sym.Choose("newest", 2) == 1
	first := newGroup()
	var gs []*group
	var old []*message.SenderKeyDistribution
	for k := 0; k < count; k++ {
		g := newGroup()
		g.sender, g.members, g.ptlen = first.sender, first.members, 1
		if dists {
			g.d = distIDs[k%2]
		}
		at := uint32(0)
		if k == 1 {
			at = 126
		}
		g.preset(uint32(100+k*50), at)
		var dm *message.SenderKeyDistribution
		for _, p := range g.members {
			dm = g.join(p)
		}
		for i, o := range old { // the earlier ones once more, which changes nothing
			if i%2 == 0 {
				gs[i].rejoin(g.members[0], o)
			}
		}
		old = append(old, dm)
		gs = append(gs, g)
		for j := 0; j < per; j++ {
			m := g.send()
			if j%7 != 2 && j != 0 {
				g.deliver(g.members[0], m)
			}
			if j%2 == 1 {
				g.deliver(g.members[1], m)
			}
			if k > 0 && j%15 == 13 { // something late of the chain before
				for _, l := range gs[k-1].msgs {
					if !l.got[g.members[0]] {
						gs[k-1].deliver(g.members[0], l)
						break
					}
				}
			}
		}
	}
	for k := range gs {
		g := gs[k]
		if newest {
			g = gs[len(gs)-1-k]
		}
		g.drain(newest)
	}
}

func H_C12_saga() { groupSaga(tier(3, 5)) }
func H_C13_saga() { groupSaga(tier(3, 5)) }
func H_C15_saga() { groupSaga(tier(3, 5)) }
func H_C16_saga() { groupSaga(tier(3, 5)) }
