From cf620006cb0033db55d60e083dca659dc8dfedff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:00 +0000
Subject: [PATCH 01/15] fix: verify all PKCS#7 padding bytes when decrypting

---
 protocol/crypto/aes/aes.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/protocol/crypto/aes/aes.go b/protocol/crypto/aes/aes.go
index 8c9438b..9433bf2 100644
--- a/protocol/crypto/aes/aes.go
+++ b/protocol/crypto/aes/aes.go
@@ -78,5 +78,12 @@ func pkcs7unpad(plaintext []byte) ([]byte, error) {
 		return nil, errors.New("invalid padding")
 	}
 
+	// Every padding byte must hold the padding length.
+	for _, b := range plaintext[length-n:] {
+		if int(b) != n {
+			return nil, errors.New("invalid padding")
+		}
+	}
+
 	return plaintext[:length-n], nil
 }
-- 
2.43.0


From 6d053c61d30b5cb6f791e6663851e8e4c99fd705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:00 +0000
Subject: [PATCH 02/15] fix: return decryption errors of signal messages to the
 caller

---
 protocol/session/cipher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 3fd117a..8e84633 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -180,6 +180,9 @@ func (s *Session) decryptSignal(ctx context.Context, random io.Reader, ciphertex
 	}
 
 	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext)
+	if err != nil {
+		return nil, err
+	}
 
 	if record.State() == nil {
 		return nil, errors.New("successfully decrypted; must have a current state")
-- 
2.43.0


From 005c73d81c3d235dbecb301bd430c490a67ec4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:00 +0000
Subject: [PATCH 03/15] fix: advance the receiver chain past the decrypted
 message

---
 protocol/session/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 8e84633..dfcd76b 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -416,7 +416,7 @@ func (s *Session) messageKeys(state *State, theirEphemeral curve.PublicKey, chai
 		chainKey = chainKey.Next()
 	}
 
-	err := state.SetReceiverChainKey(theirEphemeral, chainKey)
+	err := state.SetReceiverChainKey(theirEphemeral, chainKey.Next())
 	if err != nil {
 		return ratchet.MessageKeys{}, err
 	}
-- 
2.43.0


From d615f7ce85b992fa640e20499e65ca360ab27411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:28 +0000
Subject: [PATCH 04/15] fix: reject pre-key messages whose session cannot be
 initialized

---
 protocol/session/session.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 727fe66..db354a6 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -6,6 +6,7 @@ import (
 	"bytes"
 	"context"
 	"errors"
+	"fmt"
 	"io"
 
 	"github.com/golang/glog"
@@ -74,11 +75,12 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 	if err != nil {
 		return nil, err
 	}
-	if exists {
-		ourSignedPreKeyPair, err = ourSignedPreKeyRecord.KeyPair()
-		if err != nil {
-			return nil, err
-		}
+	if !exists {
+		return nil, fmt.Errorf("signed pre-key %s not found", message.SignedPreKeyID())
+	}
+	ourSignedPreKeyPair, err = ourSignedPreKeyRecord.KeyPair()
+	if err != nil {
+		return nil, err
 	}
 
 	var ourOneTimePreKeyPair *curve.KeyPair
@@ -107,6 +109,9 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		TheirIdentityKey:     message.IdentityKey(),
 		TheirBaseKey:         message.BaseKey(),
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	session.SetLocalRegistrationID(s.IdentityKeyStore.LocalRegistrationID(ctx))
 	session.SetRemoteRegistrationID(message.RegistrationID())
@@ -307,6 +312,9 @@ func initializeBobSession(params *ratchet.BobParameters) (*State, error) {
 	}
 
 	rootKey, chainKey, err := ratchet.DeriveKeys(secrets.Bytes())
+	if err != nil {
+		return nil, err
+	}
 
 	session := NewState(&v1.SessionStructure{
 		SessionVersion:       message.CiphertextVersion,
-- 
2.43.0


From 17749e5f8ec662b59f0c78a2614399b2e61121b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:38 +0000
Subject: [PATCH 05/15] fix: store the identity of a pre-key message only after
 it decrypted

---
 protocol/session/cipher.go  |  6 ++++++
 protocol/session/session.go | 12 +-----------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index dfcd76b..3bf8759 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -155,6 +155,12 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		return nil, err
 	}
 
+	// Only trust the identity key once the message proved to come from its owner.
+	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, ciphertext.IdentityKey())
+	if err != nil {
+		return nil, err
+	}
+
 	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
 	if err != nil {
 		return nil, err
diff --git a/protocol/session/session.go b/protocol/session/session.go
index db354a6..69341e3 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -47,17 +47,7 @@ func (s *Session) ProcessPreKey(ctx context.Context, record *Record, message *me
 		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
 	}
 
-	unsignedPreKeyID, err := s.processPreKeyV3(ctx, record, message)
-	if err != nil {
-		return nil, err
-	}
-
-	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
-	if err != nil {
-		return nil, err
-	}
-
-	return unsignedPreKeyID, nil
+	return s.processPreKeyV3(ctx, record, message)
 }
 
 func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
-- 
2.43.0


From 5a6b38ab8a865250e7e288a64dda8a4cb3c4101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:01 +0000
Subject: [PATCH 06/15] fix: in-memory session stores hand out and keep copies
 of records

---
 protocol/session/group_record.go | 10 ++++++++++
 protocol/session/group_state.go  |  8 ++++++++
 protocol/session/record.go       | 12 ++++++++++++
 protocol/session/store_inmem.go  | 14 ++++++++++----
 4 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/protocol/session/group_record.go b/protocol/session/group_record.go
index f07768d..394d4af 100644
--- a/protocol/session/group_record.go
+++ b/protocol/session/group_record.go
@@ -21,6 +21,16 @@ func NewGroupRecord() *GroupRecord {
 	}
 }
 
+// clone returns a copy of the record which shares no mutable state with it.
+func (g *GroupRecord) clone() *GroupRecord {
+	c := NewGroupRecord()
+	for _, state := range g.states {
+		c.states = append(c.states, state.clone())
+	}
+
+	return c
+}
+
 func (g *GroupRecord) State() (*GroupState, error) {
 	if len(g.states) == 0 {
 		return nil, errors.New("empty sender key state")
diff --git a/protocol/session/group_state.go b/protocol/session/group_state.go
index c7dcf2b..84eae70 100644
--- a/protocol/session/group_state.go
+++ b/protocol/session/group_state.go
@@ -1,6 +1,8 @@
 package session
 
 import (
+	"google.golang.org/protobuf/proto"
+
 	"github.com/RTann/libsignal-go/protocol/curve"
 	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
 	"github.com/RTann/libsignal-go/protocol/senderkey"
@@ -45,6 +47,12 @@ func NewGroupState(cfg GroupStateConfig) *GroupState {
 	}
 }
 
+func (s *GroupState) clone() *GroupState {
+	return &GroupState{
+		state: proto.Clone(s.state).(*v1.SenderKeyStateStructure),
+	}
+}
+
 func (s *GroupState) Version() uint32 {
 	switch v := s.state.GetMessageVersion(); v {
 	case 0:
diff --git a/protocol/session/record.go b/protocol/session/record.go
index 88261b7..e0054d3 100644
--- a/protocol/session/record.go
+++ b/protocol/session/record.go
@@ -40,6 +40,18 @@ func NewRecordBytes(bytes []byte) (*Record, error) {
 	}, nil
 }
 
+// clone returns a copy of the record which shares no mutable state with it.
+func (r *Record) clone() *Record {
+	c := &Record{
+		previousSessions: append(make([][]byte, 0, maxArchivedStates), r.previousSessions...),
+	}
+	if r.currentSession != nil {
+		c.currentSession = r.currentSession.Clone()
+	}
+
+	return c
+}
+
 func (r *Record) State() *State {
 	return r.currentSession
 }
diff --git a/protocol/session/store_inmem.go b/protocol/session/store_inmem.go
index 5203afe..4c6e298 100644
--- a/protocol/session/store_inmem.go
+++ b/protocol/session/store_inmem.go
@@ -23,11 +23,14 @@ func NewInMemStore() Store {
 
 func (i *inMemStore) Load(_ context.Context, address address.Address) (*Record, bool, error) {
 	record, exists := i.sessions[address]
-	return record, exists, nil
+	if !exists {
+		return nil, false, nil
+	}
+	return record.clone(), true, nil
 }
 
 func (i *inMemStore) Store(_ context.Context, address address.Address, record *Record) error {
-	i.sessions[address] = record
+	i.sessions[address] = record.clone()
 	return nil
 }
 
@@ -51,13 +54,16 @@ func (i *inMemGroupStore) Load(_ context.Context, sender address.Address, distri
 		address: sender,
 		id:      distributionID,
 	}]
-	return record, exists, nil
+	if !exists {
+		return nil, false, nil
+	}
+	return record.clone(), true, nil
 }
 
 func (i *inMemGroupStore) Store(_ context.Context, sender address.Address, distributionID distribution.ID, record *GroupRecord) error {
 	i.senderKeys[key{
 		address: sender,
 		id:      distributionID,
-	}] = record
+	}] = record.clone()
 	return nil
 }
-- 
2.43.0


From c433f5d4f6f7a855fb6a77690912b1e995c0814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:01 +0000
Subject: [PATCH 07/15] fix: refuse public keys in a second, non-canonical
 encoding

---
 protocol/curve/djb_public.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protocol/curve/djb_public.go b/protocol/curve/djb_public.go
index 9a61223..8b17242 100644
--- a/protocol/curve/djb_public.go
+++ b/protocol/curve/djb_public.go
@@ -2,6 +2,7 @@ package curve
 
 import (
 	"crypto/subtle"
+	"errors"
 
 	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
 	"github.com/RTann/libsignal-go/protocol/perrors"
@@ -19,6 +20,11 @@ func newDJBPublicKey(key []byte) (*DJBPublicKey, error) {
 	if len(key) != PublicKeySize {
 		return nil, perrors.ErrInvalidKeyLength(PublicKeySize, len(key))
 	}
+	// X25519 ignores the most significant bit. Accepting it would give each key a second encoding,
+	// which compares unequal but leads to the same secrets.
+	if key[PublicKeySize-1]&0x80 != 0 {
+		return nil, errors.New("public key is not in canonical form")
+	}
 
 	return &DJBPublicKey{
 		key: key,
-- 
2.43.0


From 6f9d262fd624de053ed2ffeadcc7de88299e75a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:30 +0000
Subject: [PATCH 08/15] fix: refuse pre-key messages naming another identity
 than their session's

---
 protocol/session/cipher.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 3bf8759..2597999 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -155,6 +155,16 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		return nil, err
 	}
 
+	// The message may have been decrypted by a session which was there before.
+	// The identity key named by the message must be the one of that session.
+	theirIdentityKey, exists, err := record.RemoteIdentityKey()
+	if err != nil {
+		return nil, err
+	}
+	if !exists || !theirIdentityKey.Equal(ciphertext.IdentityKey()) {
+		return nil, errors.New("identity key of pre-key message does not match its session")
+	}
+
 	// Only trust the identity key once the message proved to come from its owner.
 	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, ciphertext.IdentityKey())
 	if err != nil {
-- 
2.43.0


From d1ee0be633900f041abc0bc34ed0fd3cea65779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:24 +0000
Subject: [PATCH 09/15] fix: refuse pre-key messages naming a one-time pre-key
 which is not there

---
 protocol/session/session.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 69341e3..6dd648a 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -83,11 +83,12 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		if err != nil {
 			return nil, err
 		}
-		if exists {
-			ourOneTimePreKeyPair, err = ourOneTimePreKeyRecord.KeyPair()
-			if err != nil {
-				return nil, err
-			}
+		if !exists {
+			return nil, fmt.Errorf("one-time pre-key %s not found", message.PreKeyID())
+		}
+		ourOneTimePreKeyPair, err = ourOneTimePreKeyRecord.KeyPair()
+		if err != nil {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From a0a801b0756ec98bb560a94e5484dffcd39fb1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:11 +0000
Subject: [PATCH 10/15] fix: refuse signatures of wrong length in
 curve25519.VerifySignature

---
 protocol/curve/curve25519/curve25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protocol/curve/curve25519/curve25519.go b/protocol/curve/curve25519/curve25519.go
index 694b9ae..41106f9 100644
--- a/protocol/curve/curve25519/curve25519.go
+++ b/protocol/curve/curve25519/curve25519.go
@@ -188,6 +188,10 @@ func (p *PrivateKey) Sign(random io.Reader, messages ...[]byte) ([]byte, error)
 //
 // It is expected the given public key is Montgomery u-point.
 func VerifySignature(publicKey []byte, signature []byte, messages ...[]byte) (bool, error) {
+	if len(signature) != SignatureSize {
+		return false, nil
+	}
+
 	y, err := utoy(publicKey, (signature[63]&0b1000_0000) == 0)
 	if err != nil {
 		return false, err
-- 
2.43.0


From d76950173ce44abd2679ade08f24606fd349c559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:37 +0000
Subject: [PATCH 11/15] fix: refuse Signal messages shorter than their MAC
 instead of panicking

---
 protocol/message/signal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message/signal.go b/protocol/message/signal.go
index 69d64ba..732d945 100644
--- a/protocol/message/signal.go
+++ b/protocol/message/signal.go
@@ -73,7 +73,7 @@ func NewSignal(cfg SignalConfig) (Ciphertext, error) {
 }
 
 func NewSignalFromBytes(bytes []byte) (Ciphertext, error) {
-	if len(bytes) == 0 {
+	if len(bytes) < 1+macSize {
 		return nil, errors.New("message too short")
 	}
 
-- 
2.43.0


From 9fe730f56cb77e9a3c86247f36e57fd2d9956e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:47 +0000
Subject: [PATCH 12/15] fix: compare identities by value when storing

The in-memory identity store compared the key objects, so storing the identity it
already has, decoded once more, was reported as a replacement.
---
 protocol/identity/store_inmem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/identity/store_inmem.go b/protocol/identity/store_inmem.go
index 1031134..1e86e18 100644
--- a/protocol/identity/store_inmem.go
+++ b/protocol/identity/store_inmem.go
@@ -42,7 +42,7 @@ func (i *inMemStore) Store(_ context.Context, address address.Address, identity
 	knownIdentity, exists := i.knownKeys[address]
 	i.knownKeys[address] = identity
 
-	return exists && identity != knownIdentity, nil
+	return exists && !identity.Equal(knownIdentity), nil
 }
 
 func (i *inMemStore) Clear() error {
-- 
2.43.0


From 9eeebe9e195d345a1bd3a1aeb36b5b18cf582c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:19 +0000
Subject: [PATCH 13/15] fix: archiving the current session leaves none current

ArchiveCurrentState kept the archived state as the current one as well, so a session
that was put away was still used for sending, and held twice.
---
 protocol/session/record.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/session/record.go b/protocol/session/record.go
index e0054d3..8e71980 100644
--- a/protocol/session/record.go
+++ b/protocol/session/record.go
@@ -127,6 +127,7 @@ func (r *Record) ArchiveCurrentState() {
 	}
 
 	r.previousSessions = append(r.previousSessions, r.currentSession.Bytes())
+	r.currentSession = nil
 }
 
 func (r *Record) LocalIdentityKey() (identity.Key, error) {
-- 
2.43.0


From a43cf6eb1962711529f9abb4aa497456f6fc0755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:02 +0000
Subject: [PATCH 14/15] fix: do not write padding into the caller's buffer

CBCEncrypt appended the padding to the plaintext slice, overwriting what follows it
in the caller's array.
---
 protocol/crypto/aes/aes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/protocol/crypto/aes/aes.go b/protocol/crypto/aes/aes.go
index 9433bf2..3604083 100644
--- a/protocol/crypto/aes/aes.go
+++ b/protocol/crypto/aes/aes.go
@@ -66,7 +66,11 @@ func CBCDecrypt(key, iv, ciphertext []byte) ([]byte, error) {
 func pkcs7pad(plaintext []byte) []byte {
 	n := aes.BlockSize - (len(plaintext) % aes.BlockSize)
 
-	return append(plaintext, bytes.Repeat([]byte{byte(n)}, n)...)
+	// The capacity beyond the plaintext belongs to the caller, so it is not appended to.
+	padded := make([]byte, 0, len(plaintext)+n)
+	padded = append(padded, plaintext...)
+
+	return append(padded, bytes.Repeat([]byte{byte(n)}, n)...)
 }
 
 // pkcs7unpad unpads plaintext which adhered to PKS #7 padding rules.
-- 
2.43.0


From f1c4ec8f2585d3dcebba97bc5ce235d2eb5b2521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:58 +0000
Subject: [PATCH 15/15] fix: report an untrusted identity in a bundle as such

ProcessPreKeyBundle refused a bundle of an untrusted identity with an anonymous error, so that
perrors.IsErrUntrustedIdentity did not recognise it as it does for encryption and decryption.
---
 protocol/session/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 6dd648a..a9cc944 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -123,7 +123,7 @@ func (s *Session) ProcessPreKeyBundle(ctx context.Context, random io.Reader, bun
 		return err
 	}
 	if !trusted {
-		return errors.New("untrusted identity")
+		return perrors.ErrUntrustedIdentity(s.RemoteAddress)
 	}
 
 	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
-- 
2.43.0

