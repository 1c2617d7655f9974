// Package h holds the harnesses: each states a property over symbolic inputs and schedules, driving the
// library through its exported interface only. The same code runs natively to replay counterexamples.
package h

import (
	"context"
	"io"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/protocol"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/sym"
)

var ctx = context.Background()

// must ends the run quietly: the step is a precondition, not the claim.
func must(err error) { sym.Assume(err == nil) }

func concat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func clone(b []byte) []byte {
	r := make([]byte, len(b))
	copy(r, b)
	return r
}

// Party is one device with its stores.
type Party struct {
	Name  string
	Addr  address.Address
	ID    identity.KeyPair
	Reg   uint32
	Store protocol.Store
	Rand  io.Reader
}

func newParty(name string) *Party { return newPartyAt(name, address.Address{Name: name, DeviceID: 1}) }

func newPartyAt(name string, addr address.Address) *Party {
	id, err := identity.GenerateKeyPair(sym.Reader(name + ".id"))
	must(err)
	return withReg(name, addr, id, 0x2f10+uint32(len(name)))
}

func withReg(name string, addr address.Address, id identity.KeyPair, reg uint32) *Party {
	return &Party{Name: name, Addr: addr, ID: id, Reg: reg, Store: protocol.NewInMemStore(id, reg), Rand: sym.Reader(name + ".rnd")}
}

func (p *Party) sess(remote address.Address) *session.Session {
	return &session.Session{
		RemoteAddress:     remote,
		SessionStore:      p.Store.SessionStore(),
		PreKeyStore:       p.Store.PreKeyStore(),
		SignedPreKeyStore: p.Store.SignedPreKeyStore(),
		IdentityKeyStore:  p.Store.IdentityStore(),
	}
}

func (p *Party) to(q *Party) *session.Session { return p.sess(q.Addr) }

func keyPair(name string) *curve.KeyPair {
	kp, err := curve.GenerateKeyPair(sym.Reader(name))
	must(err)
	return kp
}

// Keys are the pre-keys behind a bundle.
type Keys struct {
	OneTimeID prekey.ID
	OneTime   *curve.KeyPair
	SignedID  prekey.ID
	Signed    *curve.KeyPair
	Sig       []byte
}

// newKeys generates and stores a signed and (optionally) a one-time pre-key.
func (p *Party) newKeys(signedID, oneTimeID prekey.ID, oneTime bool) *Keys {
	k := &Keys{SignedID: signedID, OneTimeID: oneTimeID}
	k.Signed = keyPair(p.Name + ".spk")
	sig, err := p.ID.PrivateKey().Sign(sym.Reader(p.Name+".sig"), k.Signed.PublicKey().Bytes())
	must(err)
	k.Sig = sig
	must(p.Store.SignedPreKeyStore().Store(ctx, signedID, prekey.NewSigned(signedID, 1, k.Signed, sig)))
	if oneTime {
		k.OneTime = keyPair(p.Name + ".opk")
		must(p.Store.PreKeyStore().Store(ctx, oneTimeID, prekey.NewPreKey(oneTimeID, k.OneTime)))
	}
	return k
}

func (p *Party) bundle(k *Keys) *prekey.Bundle {
	b := &prekey.Bundle{
		RegistrationID:        p.Reg,
		DeviceID:              p.Addr.DeviceID,
		SignedPreKeyID:        k.SignedID,
		SignedPreKeyPublic:    k.Signed.PublicKey(),
		SignedPreKeySignature: k.Sig,
		IdentityKey:           p.ID.IdentityKey(),
	}
	if k.OneTime != nil {
		id := k.OneTimeID
		b.PreKeyID = &id
		b.PreKeyPublic = k.OneTime.PublicKey()
	}
	return b
}

// pair sets up two parties where alice has processed bob's bundle.
func pair(oneTime bool) (alice, bob *Party, k *Keys) {
	alice, bob = newParty("alice"), newParty("bob")
	k = bob.newKeys(22, 31, oneTime)
	must(alice.to(bob).ProcessPreKeyBundle(ctx, alice.Rand, bob.bundle(k)))
	return
}

// established sets up two parties that have exchanged one message each way.
func established(oneTime bool) (alice, bob *Party) {
	alice, bob, _ = pair(oneTime)
	c := enc(alice, bob, []byte("hi"))
	_, err := dec(bob, alice, c)
	must(err)
	c = enc(bob, alice, []byte("ho"))
	_, err = dec(alice, bob, c)
	must(err)
	return
}

func enc(from, to *Party, pt []byte) message.Ciphertext {
	c, err := from.to(to).EncryptMessage(ctx, pt)
	must(err)
	return c
}

// wire parses the bytes of a message as the receiver of a transport would.
func wire(c message.Ciphertext) message.Ciphertext {
	r, err := parse(c.Type(), c.Bytes())
	must(err)
	return r
}

func parse(t message.CiphertextType, b []byte) (message.Ciphertext, error) {
	if t == message.PreKeyType {
		return message.NewPreKeyFromBytes(b)
	}
	return message.NewSignalFromBytes(b)
}

func dec(at, from *Party, c message.Ciphertext) ([]byte, error) {
	return at.to(from).DecryptMessage(ctx, at.Rand, c)
}

var distIDs = []distribution.ID{
	distribution.MustParse("d1d1d1d1-7000-11eb-b32a-33b8a8a487a6"),
	distribution.MustParse("d1d1d1d1-7000-11eb-b32a-33b8a8a487a7"),
}

func (p *Party) group(sender address.Address, d distribution.ID) *session.GroupSession {
	return &session.GroupSession{SenderAddress: sender, DistID: d, SenderKeyStore: p.Store.GroupStore()}
}

func addr(name string, dev int) address.Address {
	return address.Address{Name: name, DeviceID: address.DeviceID(dev)}
}
