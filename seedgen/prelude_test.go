// Package zzdemo is laid over /repo/protocol for a demonstration run.
package zzdemo

import (
	"bytes"
	"context"
	"crypto/rand"
	"errors"
	"testing"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/protocol"
	"github.com/RTann/libsignal-go/protocol/session"
)

var (
	bg    = context.Background()
	_     = bytes.Equal
	_     = errors.New
	_     distribution.ID
	rnd   = rand.Reader
	group = distribution.MustParse("d1d1d1d1-7000-11eb-b32a-33b8a8a487a6")
)

type party struct {
	addr address.Address
	id   identity.KeyPair
	st   protocol.Store
	sess session.Store
	pre  prekey.Store
	idst identity.Store
}

func ok(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func newParty(t *testing.T, name string) *party {
	id, err := identity.GenerateKeyPair(rnd)
	ok(t, err)
	return withID(name, id)
}

func withID(name string, id identity.KeyPair) *party {
	st := protocol.NewInMemStore(id, 4711)
	return &party{addr: address.Address{Name: name, DeviceID: 1}, id: id, st: st,
		sess: st.SessionStore(), pre: st.PreKeyStore(), idst: st.IdentityStore()}
}

func (p *party) to(q *party) *session.Session {
	return &session.Session{RemoteAddress: q.addr, SessionStore: p.sess, PreKeyStore: p.pre,
		SignedPreKeyStore: p.st.SignedPreKeyStore(), IdentityKeyStore: p.idst}
}

// bundle publishes new pre-keys. one < 0: no one-time pre-key.
func (p *party) bundle(t *testing.T, signed prekey.ID, one int) *prekey.Bundle {
	t.Helper()
	spk, err := curve.GenerateKeyPair(rnd)
	ok(t, err)
	sig, err := p.id.PrivateKey().Sign(rnd, spk.PublicKey().Bytes())
	ok(t, err)
	ok(t, p.st.SignedPreKeyStore().Store(bg, signed, prekey.NewSigned(signed, 7, spk, sig)))
	b := &prekey.Bundle{RegistrationID: 4711, DeviceID: 1, SignedPreKeyID: signed, SignedPreKeyPublic: spk.PublicKey(),
		SignedPreKeySignature: sig, IdentityKey: p.id.IdentityKey()}
	if one >= 0 {
		opk, err := curve.GenerateKeyPair(rnd)
		ok(t, err)
		id := prekey.ID(one)
		ok(t, p.st.PreKeyStore().Store(bg, id, prekey.NewPreKey(id, opk)))
		b.PreKeyID = &id
		b.PreKeyPublic = opk.PublicKey()
	}
	return b
}

func (p *party) open(t *testing.T, q *party, b *prekey.Bundle) {
	t.Helper()
	ok(t, p.to(q).ProcessPreKeyBundle(bg, rnd, b))
}

func pair(t *testing.T) (*party, *party) {
	t.Helper()
	a, b := newParty(t, "alice"), newParty(t, "bob")
	a.open(t, b, b.bundle(t, 22, 31))
	return a, b
}

func wire(t *testing.T, c message.Ciphertext) message.Ciphertext {
	t.Helper()
	var m message.Ciphertext
	var err error
	if c.Type() == message.PreKeyType {
		m, err = message.NewPreKeyFromBytes(append([]byte(nil), c.Bytes()...))
	} else {
		m, err = message.NewSignalFromBytes(append([]byte(nil), c.Bytes()...))
	}
	ok(t, err)
	return m
}

func enc(t *testing.T, from, to *party, text string) message.Ciphertext {
	t.Helper()
	c, err := from.to(to).EncryptMessage(bg, []byte(text))
	ok(t, err)
	return wire(t, c)
}

func dec(at, from *party, c message.Ciphertext) (string, error) {
	p, err := at.to(from).DecryptMessage(bg, rnd, c)
	return string(p), err
}

func want(t *testing.T, at, from *party, c message.Ciphertext, text string) {
	t.Helper()
	p, err := dec(at, from, c)
	if err != nil || p != text {
		t.Fatalf("want %q, got %q, %v", text, p, err)
	}
}

func refuse(t *testing.T, at, from *party, c message.Ciphertext) {
	t.Helper()
	p, err := dec(at, from, c)
	if err == nil || p != "" {
		t.Fatalf("accepted: %q, %v", p, err)
	}
}

// talk exchanges one message each way.
func talk(t *testing.T, a, b *party) {
	t.Helper()
	want(t, b, a, enc(t, a, b, "ping"), "ping")
	want(t, a, b, enc(t, b, a, "pong"), "pong")
}

func gsess(p *party, sender *party, id distribution.ID) *session.GroupSession {
	return &session.GroupSession{SenderAddress: sender.addr, DistID: id, SenderKeyStore: p.st.GroupStore()}
}

func dist(t *testing.T, p *party, id distribution.ID) *message.SenderKeyDistribution {
	t.Helper()
	d, err := gsess(p, p, id).NewSenderKeyDistribution(bg, rnd)
	ok(t, err)
	d, err = message.NewSenderKeyDistributionFromBytes(append([]byte(nil), d.Bytes()...))
	ok(t, err)
	return d
}

func join(t *testing.T, at, from *party, d *message.SenderKeyDistribution) {
	t.Helper()
	ok(t, gsess(at, from, d.DistributionID()).ProcessSenderKeyDistribution(bg, d))
}

func genc(t *testing.T, p *party, id distribution.ID, text string) *message.SenderKey {
	t.Helper()
	m, err := gsess(p, p, id).EncryptMessage(bg, rnd, []byte(text))
	ok(t, err)
	m, err = message.NewSenderKeyFromBytes(append([]byte(nil), m.Bytes()...))
	ok(t, err)
	return m
}

func gdec(at, from *party, m *message.SenderKey) (string, error) {
	p, err := gsess(at, from, m.DistributionID()).DecryptMessage(bg, m)
	return string(p), err
}

func gwant(t *testing.T, at, from *party, m *message.SenderKey, text string) {
	t.Helper()
	p, err := gdec(at, from, m)
	if err != nil || p != text {
		t.Fatalf("want %q, got %q, %v", text, p, err)
	}
}

func grefuse(t *testing.T, at, from *party, m *message.SenderKey) {
	t.Helper()
	p, err := gdec(at, from, m)
	if err == nil || p != "" {
		t.Fatalf("accepted: %q, %v", p, err)
	}
}
