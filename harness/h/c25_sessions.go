package h

import (
	"errors"

	"google.golang.org/protobuf/proto"

	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/harness/sym"
)

// smsg is a message of one of several sessions.
type smsg struct {
	*sent
	base []byte // base key of the session it was sent in
	n    int    // order of sending
}

// sessions drives two parties which may open and archive sessions at any time.
type sessions struct {
	ps    [2]*Party
	cur   [2][]byte   // base key of the session a party sends in
	known [2][][]byte // sessions a party holds
	msgs  []*smsg
	id    prekey.ID

	opened [2][][]byte // sessions a party opened and has not heard of

	keys []*oneTimeKey
}

// oneTimeKey is a one-time pre-key a session was opened with.
type oneTimeKey struct {
	owner *Party
	id    prekey.ID
	base  []byte
	used  bool
}

// oneTimeKeys checks that exactly the one-time pre-keys of sessions heard of are gone.
func (s *sessions) oneTimeKeys() {
	for _, k := range s.keys {
		_, ok, err := k.owner.Store.PreKeyStore().Load(ctx, k.id)
		must(err)
		sym.Assert("C09", ok == !k.used, "exactly the one-time pre-keys used by accepted messages are gone")
	}
}

func newSessions() *sessions {
	return &sessions{ps: [2]*Party{newParty("alice"), newParty("bob")}, id: 40}
}

// currentBase is the base key of the session a party would send in.
func currentBase(p, q *Party) []byte {
	rec, ok, err := p.Store.SessionStore().Load(ctx, q.Addr)
	must(err)
	if !ok || rec.State() == nil {
		return nil
	}
	return rec.State().AliceBaseKey()
}

// check compares what a party holds with what it should hold.
func (s *sessions) check(i int) {
	p, q := s.ps[i], s.ps[1-i]
	sym.Assert("C25", sym.Equal(currentBase(p, q), s.cur[i]), "the current session is not the one opened or heard from last")
	rec, ok, err := p.Store.SessionStore().Load(ctx, q.Addr)
	must(err)
	if !ok {
		return
	}
	var have [][]byte
	if rec.State() != nil {
		have = append(have, rec.State().AliceBaseKey())
	}
	prev, err := rec.PreviousStates()
	sym.Assert("C25", err == nil, "archived sessions cannot be read")
	must(err)
	for _, st := range prev {
		have = append(have, st.AliceBaseKey())
	}
	sym.Assert("C25", len(have) == len(s.known[i]), "a session is held twice or was lost")
	for _, b := range s.known[i] {
		n := 0
		for _, x := range have {
			if sym.Equal(x, b) {
				n++
			}
		}
		sym.Assert("C25", n == 1, "a session is held twice or was lost")
	}
}

func (s *sessions) learn(i int, base []byte) {
	s.cur[i] = base
	for _, b := range s.known[i] {
		if sym.Equal(b, base) {
			return
		}
	}
	s.known[i] = append(s.known[i], base)
}

// reopen lets a party process a fresh bundle of its peer.
func (s *sessions) reopen(i int, oneTime bool) {
	p, q := s.ps[i], s.ps[1-i]
	s.id++
	b := q.bundle(q.newKeys(s.id, s.id+100, oneTime))
	err := p.to(q).ProcessPreKeyBundle(ctx, p.Rand, b)
	sym.Assert("C25", err == nil, "a session could not be opened anew")
	must(err)
	base := currentBase(p, q)
	for _, x := range s.known[i] {
		sym.Assert("C25", sym.Not(sym.Equal(x, base)), "a session opened anew is not new")
	}
	s.learn(i, base)
	s.opened[i] = append(s.opened[i], base)
	if oneTime {
		s.keys = append(s.keys, &oneTimeKey{owner: q, id: s.id + 100, base: base})
	}
	s.check(i)
}

// pending tells whether a party opened the session and has not heard from its peer in it.
func (s *sessions) pending(i int, base []byte) bool {
	for _, b := range s.opened[i] {
		if sym.Equal(b, base) {
			return true
		}
	}
	return false
}

// archive puts the current session away.
func (s *sessions) archive(i int) {
	p, q := s.ps[i], s.ps[1-i]
	rec, ok, err := p.Store.SessionStore().Load(ctx, q.Addr)
	must(err)
	sym.Assume(ok)
	rec.ArchiveCurrentState()
	must(p.Store.SessionStore().Store(ctx, q.Addr, rec))
	s.cur[i] = nil
	s.check(i)
	c, err := p.to(q).EncryptMessage(ctx, []byte("x"))
	sym.Assert("C25", err != nil, "an archived session is still used for sending")
	sym.Assert("C05", sym.Or(err == nil, c == nil), "a failed encryption returned a message")
	s.check(i)
}

func (s *sessions) send(i int) *smsg {
	p, q := s.ps[i], s.ps[1-i]
	pt := sym.Bytes("pt", 1)
	c, err := p.to(q).EncryptMessage(ctx, pt)
	sym.Assert("C25|C01", err == nil, "encryption in the current session failed")
	must(err)
	m := &smsg{sent: &sent{from: p, to: q, pt: pt, c: c, typ: c.Type(), raw: clone(c.Bytes())}, base: s.cur[i], n: len(s.msgs)}
	sym.Assert("C27", (m.typ == message.PreKeyType) == s.pending(i, m.base), "pre-key messages are sent until, and only until, the peer is heard from")
	if pk, ok := c.(*message.PreKey); ok {
		sym.Assert("C27", sym.Equal(pk.BaseKey().Bytes(), m.base), "a pre-key message names another base key than its session's")
		sym.Assert("C25", sym.Equal(pk.BaseKey().Bytes(), m.base), "a message was sent in another session than the current one")
	}
	for _, o := range s.msgs {
		a, b := inner(o.c), inner(c)
		sym.Assert("C05", sym.Not(sym.And(keysEqual(a.SenderRatchetKey(), b.SenderRatchetKey()), a.Counter() == b.Counter())),
			"two messages share ratchet key and counter")
	}
	s.msgs = append(s.msgs, m)
	s.check(i)
	return m
}

func (s *sessions) side(p *Party) int {
	if s.ps[0] == p {
		return 0
	}
	return 1
}

func (s *sessions) deliver(m *smsg) {
	i := s.side(m.to)
	c, err := parse(m.typ, clone(m.raw))
	must(err)
	got, err := dec(m.to, m.from, c)
	sym.Assert("C25", err == nil, "a message of a replaced or competing session did not decrypt")
	sym.Assert("C01", err == nil, "a sent message did not decrypt")
	must(err)
	sym.Assert("C25", sym.Equal(got, m.pt), "decrypted plaintext differs")
	sym.Assert("C01", sym.Equal(got, m.pt), "decrypted plaintext differs")
	sym.Assert("C27", err == nil, "a sent message did not decrypt")
	m.got = true
	for _, k := range s.keys {
		if k.owner == m.to && sym.Equal(k.base, m.base) {
			k.used = true
		}
	}
	s.oneTimeKeys()
	for k, b := range s.opened[i] {
		if sym.Equal(b, m.base) {
			s.opened[i] = append(append([][]byte(nil), s.opened[i][:k]...), s.opened[i][k+1:]...)
			break
		}
	}
	s.learn(i, m.base)
	s.check(i)
}

func (s *sessions) replay(m *smsg) {
	before := snapshot(m.to, m.from)
	c, err := parse(m.typ, clone(m.raw))
	must(err)
	got, err := dec(m.to, m.from, c)
	sym.Assert("C02", err != nil && len(got) == 0, "a message was accepted twice")
	sym.Assert("C30", errors.Is(err, perrors.ErrDuplicateMessage), "a replay was not reported as a duplicate")
	sym.Assert("C25", sym.Equal(before, snapshot(m.to, m.from)), "reprocessing a message changed the sessions")
	sym.Assert("C02", sym.Equal(before, snapshot(m.to, m.from)), "a rejected replay changed the session")
	sym.Assert("C04", sym.Equal(before, snapshot(m.to, m.from)), "a failed decryption changed what is stored")
}

type sessionOps struct {
	replays, archives bool
	opens             int // how many sessions may be opened
}

func (s *sessions) steps(n int, o sessionOps) {
	opens := 0
	for k := 0; k < n; k++ {
		var ops []func()
		for i := 0; i < 2; i++ {
			i := i
			if s.cur[i] != nil {
				ops = append(ops, func() { s.send(i) })
				if o.archives {
					ops = append(ops, func() { s.archive(i) })
				}
			}
			if opens < o.opens {
				ops = append(ops, func() { opens++; s.reopen(i, opens%2 == 1) })
			}
		}
		for _, m := range s.msgs {
			m := m
			if !m.got {
				ops = append(ops, func() { s.deliver(m) })
			} else if o.replays {
				ops = append(ops, func() { s.replay(m) })
			}
		}
		if len(ops) == 0 {
			return
		}
		ops[sym.Choose("op", len(ops))]()
	}
}

func (s *sessions) drain(newest bool) {
	n := len(s.msgs)
	for k := 0; k < n; k++ {
		m := s.msgs[k]
		if newest {
			m = s.msgs[n-1-k]
		}
		if !m.got {
			s.deliver(m)
		}
	}
}

// converge: one exchange brings both parties into one session.
func (s *sessions) converge(first int) {
	if s.cur[first] == nil {
		first = 1 - first
	}
	if s.cur[first] == nil {
		return
	}
	s.deliver(s.send(first))
	s.deliver(s.send(1 - first))
	sym.Assert("C25", sym.Equal(s.cur[0], s.cur[1]), "the parties did not arrive at one session")
	s.deliver(s.send(first))
	s.deliver(s.send(1 - first))
	s.deliver(s.send(1 - first))
	sym.Assert("C25", sym.Equal(s.cur[0], s.cur[1]), "the parties did not stay in one session")
}

// H_C25_history: every schedule of opening, sending and delivering.
func H_C25_history() {
	s := newSessions()
	s.reopen(0, true)
	s.steps(tier(5, 7), sessionOps{opens: 2})
	s.drain(true)
	s.converge(1)
}

// H_C25_open: opening by one side, reached by delivery in between.
func H_C25_open() {
	s := newSessions()
	s.reopen(0, true)
	s.deliver(s.send(0))
	s.deliver(s.send(1))
	s.steps(tier(4, 5), sessionOps{opens: 2, replays: true})
	s.drain(false)
	s.converge(0)
}

// H_C25_archive: archiving at any point.
func H_C25_archive() {
	s := newSessions()
	s.reopen(0, true)
	s.deliver(s.send(0))
	s.steps(tier(4, 6), sessionOps{opens: 1, archives: true})
	s.drain(true)
	s.converge(0)
}

// H_C25_twice: both sides at once, everything crossing on the way.
func H_C25_twice() {
	s := newSessions()
	s.reopen(0, true)
	s.reopen(1, true)
	s.steps(tier(5, 6), sessionOps{replays: true})
	s.drain(sym.Choose("order", tier(1, 2)) == 0)
	s.converge(0)
	for _, m := range s.msgs {
		s.replay(m)
	}
}

// H_C30_archived: messages of current and archived sessions are reported as duplicates.
func H_C30_archived() {
	s := newSessions()
	n := 1 + sym.Choose("sessions", tier(3, 5))
	for i := 0; i < n; i++ {
		s.reopen(0, i%2 == 0)
		s.deliver(s.send(0))
		late := s.send(0)
		if sym.Choose("reply", 2) == 1 {
			s.deliver(s.send(1))
			s.deliver(s.send(0))
		}
		if sym.Choose("late", 2) == 1 {
			s.deliver(late)
		}
	}
	if sym.Choose("archived", 2) == 1 {
		s.archive(1)
	}
	for _, m := range s.msgs {
		if m.got {
			s.replay(m)
		}
	}
	s.drain(true)
	for _, m := range s.msgs {
		s.replay(m)
	}
}

// H_C25_many: messages of several archived sessions arriving in any order.
func H_C25_many() {
	s := newSessions()
	n := 3 + sym.Choose("sessions", tier(2, 3))
	for i := 0; i < n; i++ {
		s.reopen(0, i%2 == 0)
		s.deliver(s.send(0))
		s.send(0)
	}
	// any few of the late ones first, then the rest
	k := tier(2, 3)
	for j := 0; j < k; j++ {
		var late []*smsg
		for _, m := range s.msgs {
			if !m.got {
				late = append(late, m)
			}
		}
		s.deliver(late[sym.Choose("late", len(late))])
	}
	if sym.Choose("reply", 2) == 1 {
		s.deliver(s.send(1))
	}
	s.drain(sym.Choose("newest", 2) == 1)
	s.converge(1)
}

// H_C27_sessions: of several sessions, each one's messages are pre-key messages until its peer is heard from.
func H_C27_sessions() {
	s := newSessions()
	s.reopen(0, true)
	s.deliver(s.send(0))
	if sym.Choose("early", 2) == 1 {
		s.deliver(s.send(1))
	} else {
		s.send(1)
	}
	s.steps(tier(3, 6), sessionOps{opens: 2, archives: true})
	s.drain(sym.Choose("newest", 2) == 1)
	for i := range s.ps {
		if s.cur[i] != nil {
			s.deliver(s.send(i))
		}
	}
}

// H_C02_reopen: replays across sessions.
func H_C02_reopen() {
	s := newSessions()
	s.reopen(0, true)
	s.deliver(s.send(0))
	s.steps(tier(4, 6), sessionOps{opens: 1, replays: true, archives: true})
	s.drain(false)
	for _, m := range s.msgs {
		s.replay(m)
	}
}

// H_C05_reopen: no keys are used twice across sessions.
func H_C05_reopen() {
	s := newSessions()
	s.reopen(0, true)
	s.steps(tier(5, 7), sessionOps{opens: 2, archives: true})
}

// rounds lets sessions follow each other, with an optional replay in each round.
func (s *sessions) rounds(n int) {
	for r := 0; r < n; r++ {
		switch sym.Choose("round", 5) {
		case 0:
			s.reopen(0, false)
			s.deliver(s.send(0))
		case 1:
			s.reopen(1, false)
			s.deliver(s.send(1))
		case 2:
			s.deliver(s.send(0))
		case 3:
			if s.cur[1] == nil {
				return
			}
			s.deliver(s.send(1))
		case 4: // opened, but its first message is held back
			s.reopen(0, false)
			s.send(0)
		}
	}
}

// H_C02_sessions: replays after any succession of sessions, without one-time pre-keys to catch them.
func H_C02_sessions() {
	s := newSessions()
	s.reopen(0, false)
	s.deliver(s.send(0))
	// a rejected replay is asserted to change nothing, so that replaying at the end of every prefix is enough
	s.rounds(sym.Choose("rounds", tier(5, 6)))
	for _, m := range s.msgs {
		if m.got {
			s.replay(m)
		}
	}
	s.drain(false)
}

// saga lets long sessions follow each other; messages held back in each arrive at the very end.
func saga(n int, again bool) {
	s := newSessions()
	one := sym.Choose("onetime", 2) == 1
	count := 1 + sym.Choose("count", n)
	turns := []int{0, 1, 5}[sym.Choose("turns", 3)]
	openers := sym.Choose("openers", 3)
	newest := sym.Choose("newest", 2) == 1
	for k := 0; k < count; k++ {
		i := 0
		if openers == 1 {
			i = k % 2
		}
		s.reopen(i, one)
		if openers == 2 { // both at once
			s.reopen(1, one)
			a := s.send(0)
			s.deliver(s.send(1))
			s.deliver(a)
		}
		if turns == 0 {
			s.deliver(s.send(i))
		}
		for t := 0; t < turns; t++ {
			if t >= turns-2 {
				s.send(i)
				if t > 0 {
					s.send(1 - i)
				}
			}
			s.deliver(s.send(i))
			s.deliver(s.send(1 - i))
		}
	}
	if again && newest {
		for _, m := range s.msgs {
			if m.got {
				s.replay(m)
			}
		}
	}
	s.drain(newest)
	if again && !newest {
		for _, m := range s.msgs {
			s.replay(m)
		}
	}
	s.converge(0)
}

// H_C25_saga: long sessions following each other.
func H_C25_saga() { saga(tier(3, 5), false) }

// H_C02_saga: everything is presented again, at the end and once more.
func H_C02_saga() { saga(tier(3, 4), true) }

// H_C01_saga: nothing gets lost between them.
func H_C01_saga() { saga(tier(3, 5), false) }

// H_C05_saga: nor is a key used twice.
func H_C05_saga() { saga(tier(3, 4), false) }

// H_C27_saga: nor are messages mislabelled.
func H_C27_saga() { saga(tier(3, 5), false) }

// H_C09_saga: each one's one-time pre-key goes with its first message, and nothing else does.
func H_C09_saga() { saga(tier(3, 4), true) }

// attack delivers attacker bytes; anything accepted must be a message the peer sent here, for the first time.
func (s *sessions) attack(at int, typ message.CiphertextType, raw []byte) {
	p, q := s.ps[at], s.ps[1-at]
	c, err := parse(typ, raw)
	if err != nil {
		return
	}
	before := snapshot(p, q)
	got, err := dec(p, q, c)
	if err != nil {
		sym.Assert("C04", len(got) == 0, "a failed decryption returned plaintext")
		sym.Assert("C04|C25", sym.Equal(before, snapshot(p, q)), "a failed decryption changed what is stored")
		s.oneTimeKeys()
		return
	}
	sym.Cover("accepted")
	auth := inner(c).Bytes()
	genuine, again := false, false
	var which *smsg
	for _, m := range s.msgs {
		if m.to != p {
			continue
		}
		same := sym.Equal(inner(m.c).Bytes(), auth)
		genuine = sym.Or(genuine, sym.And(same, sym.Equal(got, m.pt)))
		if m.got {
			again = sym.Or(again, same)
		} else if same {
			which = m
		}
	}
	sym.Assert("C03", genuine, "accepted a message the peer did not send")
	sym.Assert("C04", genuine, "reported success for a message that is not genuine")
	sym.Assert("C02", sym.Not(again), "a message was accepted twice")
	sym.Assume(which != nil)
	which.got = true
	for k, b := range s.opened[at] {
		if sym.Equal(b, which.base) {
			s.opened[at] = append(append([][]byte(nil), s.opened[at][:k]...), s.opened[at][k+1:]...)
			break
		}
	}
	s.learn(at, which.base)
	s.check(at)
}

// archived attacks a party which holds several sessions with its peer.
func archived() {
	s := newSessions()
	count := 2 + sym.Choose("count", tier(1, 2))
	turns := 2 + sym.Choose("turns", tier(1, 2))*3
	for k := 0; k < count; k++ {
		s.reopen(k%2, k == 0)
		for t := 0; t < turns; t++ {
			for _, i := range []int{k % 2, 1 - k%2} {
				if t == turns-1 {
					s.send(i)
					s.deliver(s.send(i))
					s.send(i)
				} else {
					s.deliver(s.send(i))
				}
			}
		}
	}
	for _, m := range s.msgs {
		sym.Release(m.raw)
	}
	at := sym.Choose("at", 2)
	var held []*smsg
	for _, m := range s.msgs {
		if m.to == s.ps[at] && !m.got {
			held = append(held, m)
		}
	}
	if !sym.Thorough() {
		held = []*smsg{held[0], held[1], held[len(held)-1]}
	}
	m := held[sym.Choose("held", len(held))]
	in := inner(m.c)
	key, ctr, prev, ct := in.SenderRatchetKey().Bytes(), varint(uint64(in.Counter())), varint(uint64(previous(in))), in.Message()
	mac := in.Bytes()[len(in.Bytes())-8:]
	switch sym.Choose("alter", 7) {
	case 0:
		ct = sym.Adversary("a.ct", len(ct))
	case 1:
		ctr = sym.Adversary("a.ctr", 1)
		sym.Assume(ctr[0] < 4)
	case 2:
		prev = sym.Adversary("a.prev", 1)
		sym.Assume(prev[0] < 128)
	case 3:
		mac = sym.Adversary("a.mac", 8)
	case 4:
		key = concat([]byte{5}, sym.Adversary("a.key", 32))
	case 5: // the key of another of its messages
		o := held[sym.Choose("other", len(held))]
		key = inner(o.c).SenderRatchetKey().Bytes()
		ct = sym.Adversary("a.ct", len(ct))
		mac = sym.Adversary("a.mac", 8)
	case 6:
		s.attack(at, message.WhisperType, advSignal(16))
	}
	s.attack(at, message.WhisperType, signalBytes(0x33, key, ctr, prev, ct, mac))
	s.drain(at == 1)
	s.converge(1 - at)
	for _, m := range s.msgs[:3] {
		s.replay(m)
	}
}

// H_C03_archived: forgeries at a party holding several sessions.
func H_C03_archived() { archived() }

// H_C04_archived: they leave nothing behind.
func H_C04_archived() { archived() }

// H_C02_archived: nor do they make anything acceptable again.
func H_C02_archived() { archived() }

// previous is the previous-counter field of a message.
func previous(m *message.Signal) uint32 {
	p := new(v1.SignalMessage)
	b := m.Bytes()
	must(proto.Unmarshal(b[1:len(b)-8], p))
	return p.GetPreviousCounter()
}
