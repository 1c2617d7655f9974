package h

import (
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/sym"
)

// gmsg is one group message under way.
type gmsg struct {
	pt    []byte
	c     *message.SenderKey
	raw   []byte
	ck    []byte // chain key it was made from
	chain int
	got   map[*Party]bool
}

// group is one sender and its members.
type group struct {
	d       distribution.ID
	sender  *Party
	members []*Party
	joined  map[*Party]int // first iteration known, by member
	msgs    []*gmsg
	ptlen   int
	start   uint32
	ids     []uint32
}

func newGroup() *group {
	return &group{
		d:       distIDs[0],
		sender:  newPartyAt("sender", addr("sender", 1)),
		members: []*Party{newParty("m0"), newParty("m1")},
		joined:  map[*Party]int{},
		ptlen:   2,
	}
}

// preset gives the sender a chain of a given ID, and a first message so that the signing key is settled.
func (g *group) preset(chainID uint32, at uint32) {
	sig := keyPair("gsig")
	st := session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: chainID, Iteration: at, ChainKey: sym.Fresh("seed", 32),
		SignatureKey: sig.PublicKey(), SignaturePrivateKey: sig.PrivateKey()})
	rec := session.NewGroupRecord()
	must(rec.AddState(st))
	must(g.sender.Store.GroupStore().Store(ctx, g.sender.Addr, g.d, rec))
	g.start = at
	g.ids = append(g.ids, chainID)
}

// sess is a party's end of the group. Only a sender has to fill in the
// distribution ID, so that some members leave it out.
func (g *group) sess(p *Party) *session.GroupSession {
	if len(g.members) > 1 && p == g.members[1] {
		return p.group(g.sender.Addr, distribution.ID{})
	}
	return p.group(g.sender.Addr, g.d)
}

// distribution asks the sender for its distribution message.
func (g *group) distribution() *message.SenderKeyDistribution {
	dm, err := g.sess(g.sender).NewSenderKeyDistribution(ctx, g.sender.Rand)
	sym.Assert("C12", err == nil, "a sender could not make its distribution message")
	must(err)
	return dm
}

// wireDist takes a distribution message over the wire.
func wireDist(dm *message.SenderKeyDistribution) *message.SenderKeyDistribution {
	r, err := message.NewSenderKeyDistributionFromBytes(clone(dm.Bytes()))
	must(err)
	return r
}

func (g *group) process(p *Party, dm *message.SenderKeyDistribution) error {
	return g.sess(p).ProcessSenderKeyDistribution(ctx, wireDist(dm))
}

// join lets a member process the current distribution message.
func (g *group) join(p *Party) *message.SenderKeyDistribution {
	dm := g.distribution()
	err := g.process(p, dm)
	sym.Assert("C12", err == nil, "a genuine distribution message was refused")
	must(err)
	if _, ok := g.joined[p]; !ok {
		g.joined[p] = int(dm.Iteration())
	}
	return dm
}

func (g *group) senderState() *session.GroupState {
	rec, ok, err := g.sender.Store.GroupStore().Load(ctx, g.sender.Addr, g.d)
	must(err)
	sym.Assume(ok)
	st, err := rec.State()
	must(err)
	return st
}

func (g *group) send() *gmsg {
	pt := sym.Bytes("pt", g.ptlen)
	st := g.senderState()
	ck := clone(st.SenderChainKey().Seed())
	it := st.SenderChainKey().Iteration()
	id := st.ChainID()
	c, err := g.sess(g.sender).EncryptMessage(ctx, g.sender.Rand, pt)
	sym.Assert("C12", err == nil, "group encryption failed")
	must(err)
	sym.Assert("C15", c.Iteration() == it, "a group message carries its chain's position")
	sym.Assert("C15", c.ChainID() == id, "a group message names its chain")
	sym.Assert("C15", c.DistributionID() == g.d, "a group message names its distribution")
	m := &gmsg{pt: pt, c: c, raw: clone(c.Bytes()), ck: ck, got: map[*Party]bool{}}
	for _, o := range g.msgs {
		if o.c.ChainID() == c.ChainID() {
			sym.Assert("C15", sym.Not(sym.Equal(o.ck, ck)), "two group messages were encrypted from the same chain key")
			sym.Assert("C15", o.c.Iteration() != c.Iteration(), "two group messages carry the same iteration")
		}
	}
	if n := len(g.msgs); n > 0 {
		sym.Assert("C15", c.Iteration() == g.msgs[n-1].c.Iteration()+1, "group messages carry consecutive iterations")
	} else {
		sym.Assert("C15", c.Iteration() == g.start, "iterations start at zero")
	}
	g.msgs = append(g.msgs, m)
	return m
}

// skip moves the sender's chain on.
func (g *group) skip(n int) {
	rec, ok, err := g.sender.Store.GroupStore().Load(ctx, g.sender.Addr, g.d)
	must(err)
	sym.Assume(ok)
	st, err := rec.State()
	must(err)
	ck := st.SenderChainKey()
	for i := 0; i < n; i++ {
		ck = ck.Next()
	}
	st.SetSenderChainKey(ck)
	must(g.sender.Store.GroupStore().Store(ctx, g.sender.Addr, g.d, rec))
	g.msgs = nil
	g.start = ck.Iteration()
}

func (g *group) dec(p *Party, m *gmsg) ([]byte, error) {
	c, err := message.NewSenderKeyFromBytes(clone(m.raw))
	must(err)
	return g.sess(p).DecryptMessage(ctx, c)
}

// snapshot shows what a member holds for the group's chains: position, chain key and signing key.
func (g *group) snapshot(p *Party) []byte { return groupSnapshot(p, g, g.ids) }

func groupSnapshot(p *Party, g *group, extra []uint32) []byte {
	rec, ok, err := p.Store.GroupStore().Load(ctx, g.sender.Addr, g.d)
	must(err)
	if !ok {
		return []byte{0}
	}
	out := []byte{1}
	ids := append([]uint32(nil), extra...)
	if srec, ok, _ := g.sender.Store.GroupStore().Load(ctx, g.sender.Addr, g.d); ok {
		if st, err := srec.State(); err == nil {
			ids = append(ids, st.ChainID())
		}
	}
	for _, id := range ids {
		st := rec.StateForChainID(id)
		if st == nil {
			out = append(out, 0)
			continue
		}
		out = append(out, stateBytes(st)...)
	}
	return out
}

func stateBytes(st *session.GroupState) []byte {
	pub, err := st.PublicSigningKey()
	must(err)
	ck := st.SenderChainKey()
	i := ck.Iteration()
	return concat([]byte{1, byte(i), byte(i >> 8), byte(i >> 16), byte(i >> 24)}, pub.Bytes(), ck.Seed())
}
