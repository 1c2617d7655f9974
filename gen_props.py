#!/usr/bin/env python3
# Source of properties.jsonl (kept so the texts stay reviewable).
import json
S='protocol/session/'
def P(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
props=[
P("C01","Pairwise messages decrypt to what was sent, in any order and interleaving",
 "For two parties sharing a session, every message one party encrypts decrypts at the other to exactly the bytes that were encrypted, for every plaintext (including empty) and for every interleaving of both directions, with messages reordered, delayed across ratchet turns or lost. This holds as long as the documented limits on skipped messages and remembered chains are respected.",
 ["histories","inputs","schedules"],"every schedule of sends, deliveries, reorderings and drops in both directions; every plaintext and every key",
 "The tests run a few fixed conversations; the space of interleavings with out-of-order and lost messages across ratchet steps is not sampled.",
 [S+'cipher.go',S+'state.go','protocol/ratchet/keys.go','protocol/message/signal.go'],
 [("skipped message keys kept per receiver chain",S+'cipher.go messageKeys, state.go SetMessageKeys/MessageKeys'),("ratchet step on a new sender key",S+'cipher.go chainKey')],
 ["Session.EncryptMessage","Session.DecryptMessage"]),
P("C02","A pairwise message is accepted at most once",
 "Once a message has been decrypted, every later attempt to decrypt the same message is rejected with an error and yields no plaintext, whatever other messages were exchanged, however the session was re-established or archived in between, and whether the message was a pre-key message or a plain one, as long as the session is among the forty archived ones kept. The rejection does not disturb messages still in flight.",
 ["histories","inputs"],"every history in which some accepted message is presented again at any later point",
 "A test can replay one message at one point; a replay must be refused at every later point of every history.",
 [S+'cipher.go',S+'state.go',S+'record.go'],
 [("chain key advanced past the used counter; used skipped keys deleted",S+'cipher.go messageKeys; state.go MessageKeys'),("a pre-key message whose base key is already known is not processed again",S+'session.go processPreKeyV3; record.go HasSessionState')],
 ["Session.DecryptMessage"]),
P("C03","Altered, forged or misdirected pairwise messages are never accepted",
 "Decryption in a session returns a plaintext only for a message the claimed peer really encrypted for this recipient in that session: any change to the authenticated bytes of a message (version, ratchet key, counters, ciphertext or tag), any message made by someone without the peer's secrets, and any message made for or by another identity is rejected. This also holds for pre-key messages whose envelope fields are replaced.",
 ["inputs","histories"],"every byte string in place of a genuine message, every substitution of envelope fields, every attacker key",
 "Tests flip a few bits of one message; the guarantee is over all byte strings and all attacker-chosen keys.",
 ['protocol/message/mac.go','protocol/message/signal.go',S+'cipher.go',S+'session.go'],
 [("HMAC over both identities and the whole serialized message",'protocol/message/mac.go'),("MAC verified before decryption",S+'cipher.go decryptMessageSession')],
 ["Session.DecryptMessage","message.Signal.VerifyMAC"]),
P("C04","A failed decryption changes nothing",
 "When decrypting a pairwise message fails for a reason other than a failing store, nothing the recipient has stored changes: not the session, not its pre-keys, not the identities it trusts; when a store fails, no plaintext is returned, and unless the session itself was stored the same message can be decrypted again. In particular every genuine message that could be decrypted before the failed attempt can still be decrypted after it, and a failed attempt never returns plaintext or reports success.",
 ["inputs","histories","fault_sequences"],"every rejected message at every point of a history; every single store failure while decrypting",
 "Tests check that an error is returned, not that all stored state is as before for every kind of failure at every point.",
 [S+'cipher.go',S+'session.go',S+'store_inmem.go'],
 [("decryption works on a copy of the state and is committed only on success",S+'cipher.go decryptMessage'),("records are copied in and out of the in-memory store",S+'store_inmem.go')],
 ["session.Store","prekey.Store","identity.Store contents"]),
P("C05","No pairwise message key is ever used twice by a sender",
 "Two successful encryptions never use the same message key, counter and ratchet key, and a ciphertext is handed to the caller only after the advanced sender state has been stored: if any store operation fails, encryption returns an error and no ciphertext. Consecutive messages on one sending chain carry consecutive counters starting at zero.",
 ["histories","fault_sequences"],"every sequence of sends and receives, with any store operation failing at any point",
 "Tests use stores that never fail and never compare keys across messages.",
 [S+'cipher.go','protocol/ratchet/keys.go'],
 [("sender chain key advanced and stored before the message is returned",S+'cipher.go EncryptMessage')],
 ["Session.EncryptMessage"]),
P("C06","X3DH: both ends derive the same session, bound to every key involved",
 "After processing a genuine pre-key bundle (with or without a one-time pre-key), the first message decrypts at the bundle's owner and both ends hold the same root and chain secrets; if any identity key, signed pre-key, one-time pre-key or base key used by the two ends differs, the ends do not agree and the message is rejected. The secrets depend on all three or four Diffie-Hellman results.",
 ["inputs","configurations"],"all identity, signed pre-key, one-time pre-key and base keys; bundle with and without a one-time pre-key",
 "Tests use one handful of keys and cannot tell a missing or duplicated Diffie-Hellman contribution that both ends share.",
 [S+'session.go','protocol/ratchet/ratchet.go','protocol/ratchet/params.go'],
 [("DH1..DH4 concatenated into the root KDF on both sides",S+'session.go initializeAliceSession/initializeBobSession')],
 ["Session.ProcessPreKeyBundle","Session.DecryptMessage","InitializeAliceSessionRecord","InitializeBobSessionRecord"]),
P("C07","Only correctly signed bundles of trusted identities create sessions",
 "Processing a pre-key bundle succeeds only if the signed pre-key's signature verifies under the bundle's identity key over exactly that signed pre-key and the identity is trusted for the address; in every other case it returns an error and leaves the session store and the trusted identities untouched. A genuine bundle of a trusted identity is always accepted.",
 ["inputs"],"every bundle: every signature byte string (any length), signed pre-key, identity key and trust state",
 "The test flips bits of one signature; other lengths, other messages, other identities and side effects on failure are not covered.",
 [S+'session.go','protocol/curve/djb_public.go','protocol/curve/curve25519/curve25519.go'],
 [("trust and signature checks before any state is created",S+'session.go ProcessPreKeyBundle')],
 ["Session.ProcessPreKeyBundle"]),
P("C08","A changed identity is never used or accepted until it is trusted",
 "Once an identity key is known for an address, no message is encrypted to, and no message accepted from, a session whose remote identity is a different key, whether by bundle, pre-key message or ordinary message; the identity recorded for an address is only ever one that authenticated a message or bundle for that address. The first identity seen for an address is trusted.",
 ["histories","inputs"],"every identity key claimed at every step of a history, every direction",
 "The tests exercise one identity change; the check must hold on each path that touches an identity.",
 [S+'cipher.go',S+'session.go','protocol/identity/store_inmem.go'],
 [("IsTrustedIdentity on every send and receive path",S+'cipher.go, session.go'),("identity recorded only after authentication",S+'cipher.go')],
 ["identity.Store","Session.EncryptMessage","Session.DecryptMessage","Session.ProcessPreKeyBundle"]),
P("C09","One-time pre-keys are consumed exactly when their message is accepted",
 "When a pre-key message that used a one-time pre-key is successfully decrypted for the first time, exactly that one-time pre-key is removed and no other; while the message has not been decrypted the key stays available. A pre-key message naming a one-time pre-key the recipient does not hold is refused unless its session is already known. A second initiator can never establish a session with an already consumed one-time pre-key, and signed pre-keys are never removed.",
 ["histories","inputs"],"every order of genuine, repeated, forged and competing pre-key messages; every pre-key ID",
 "The test checks deletion after one success only.",
 [S+'cipher.go',S+'session.go','protocol/prekey/store_inmem.go'],
 [("pre-key ID returned by processing and deleted after decryption and storing",S+'cipher.go decryptPreKey')],
 ["prekey.Store contents"]),
P("C10","Resource limits hold exactly",
 "A receiver keeps at most 2000 skipped message keys per chain (the most recent ones), at most 5 receiving chains per session state (the most recent), at most 40 archived session states and at most 5 sender-key states per sender and distribution, whatever it is sent. A message more than 25000 positions ahead is refused without any work proportional to the jump being kept, except in a pairwise session with oneself; one exactly 25000 ahead is accepted.",
 ["histories","inputs"],"every counter value, every number of ratchet turns, session resets and distributions",
 "Tests try one value on each side of some limits; the bounds must hold for every counter and every history length.",
 [S+'state.go',S+'record.go',S+'group_state.go',S+'group_record.go',S+'cipher.go',S+'group_cipher.go'],
 [("oldest entry dropped when a limit is exceeded",S+'state.go SetMessageKeys/AddReceiverChain; record.go ArchiveCurrentState; group_record.go AddState; group_state.go AddMessageKey'),("jump limit",S+'cipher.go messageKeys; group_cipher.go messageKey')],
 ["session.State.Bytes","session.Record","session.GroupRecord"]),
P("C11","Forward secrecy and healing: used keys are gone, each turn uses fresh keys",
 "After a message has been encrypted or decrypted, the stored session contains neither that message's keys nor any chain key from which they can be derived, and it never stores a skipped key for a message already decrypted. Every change of direction introduces a new ratchet key pair generated from fresh randomness, replaces the root key, and the old ratchet private key is no longer stored.",
 ["histories"],"every session state reachable by sends and receives in any order",
 "Tests never look at what secret material remains in stored state.",
 [S+'cipher.go',S+'state.go','protocol/ratchet/keys.go'],
 [("chain keys replaced by their one-way successor; skipped keys deleted on use",S+'cipher.go messageKeys, EncryptMessage'),("new sender ratchet key per received ratchet key",S+'cipher.go chainKey')],
 ["session.State.Bytes"]),
P("C12","Group messages decrypt to what was sent, in any order, for late joiners too",
 "Every message a group sender encrypts after a member processed its distribution message decrypts at that member to exactly the bytes encrypted, for every plaintext and whatever the order, loss or delay of the messages, within the skipped-message limits. A member that joins at a later iteration decrypts all messages from that iteration on and none before it.",
 ["histories","inputs","schedules"],"every delivery order, every starting iteration, every plaintext and key",
 "The tests shuffle one batch of messages and join at one fixed iteration.",
 [S+'group_cipher.go',S+'group_state.go',S+'group_session.go','protocol/senderkey/keys.go','protocol/message/senderkey.go'],
 [("sender chain with skipped keys",S+'group_cipher.go messageKey')],
 ["GroupSession.EncryptMessage","GroupSession.DecryptMessage","GroupSession.ProcessSenderKeyDistribution"]),
P("C13","A group message is accepted at most once",
 "After a group message has been decrypted, decrypting it again is rejected with an error at every later point, even if the sender's distribution message is processed again or other messages and distributions arrived in between.",
 ["histories"],"every history with a repeated message, including repeated distribution messages",
 "Tests replay in one or two fixed places.",
 [S+'group_cipher.go',S+'group_state.go',S+'group_record.go'],
 [("chain advanced past the used iteration, skipped keys removed on use",S+'group_cipher.go messageKey; group_state.go RemoveMessageKeys'),("an already known chain is kept when its distribution is repeated",S+'group_record.go AddState')],
 ["GroupSession.DecryptMessage"]),
P("C14","Group messages are accepted only if signed by that sender for that group chain",
 "A group message yields a plaintext only if its signature verifies under the signing key the member holds for that sender, distribution and chain, over all of its bytes; any altered byte, any message signed by another key (including by another member of the group, who knows the chain key), and any message under an unknown distribution or chain is rejected.",
 ["inputs","histories"],"every byte string in place of a message; every other signing key; members as attackers",
 "Tests cover the honest path; members forging each other's messages is not tested at all.",
 [S+'group_cipher.go','protocol/message/senderkey.go','protocol/curve/curve25519/curve25519.go'],
 [("signature verified over the whole message before keys are derived",S+'group_cipher.go DecryptMessage')],
 ["GroupSession.DecryptMessage","message.SenderKey.VerifySignature"]),
P("C15","Failed group operations change nothing; group senders never reuse a key",
 "When decrypting a group message or processing a distribution fails, the stored sender-key record is unchanged and every message that could be decrypted before still can. A group sender's consecutive messages carry consecutive iterations with distinct message keys, and a ciphertext is returned only after the advanced chain has been stored: if storing or signing fails there is an error and no ciphertext.",
 ["histories","inputs","fault_sequences"],"every rejected message at every point; store and randomness failures at any point",
 "Tests do not inject failures and do not compare stored state.",
 [S+'group_cipher.go',S+'group_session.go',S+'store_inmem.go'],
 [("record stored only after success; copied in and out of the in-memory store",S+'group_cipher.go; store_inmem.go')],
 ["session.GroupStore contents","GroupSession.EncryptMessage"]),
P("C16","Sender-key distributions: no rollback, conflicts replaced, chains kept apart",
 "Processing a distribution message for a chain and signing key already held never rewinds or otherwise changes that chain; one with the same chain ID but another signing key replaces the old chain entirely; one with a new chain ID adds a chain without disturbing the others. A sender's distribution message always describes its current chain position, repeated requests never create a second chain, and what the receiver stores is independent of buffers the caller still holds.",
 ["histories","inputs"],"every order of distributions and messages, every chain ID and signing key",
 "Record tests add a few fixed states; effects on later decryption are not covered.",
 [S+'group_record.go',S+'group_session.go',S+'group_state.go'],
 [("existing state wins over a repeated distribution; same chain ID with another key removed",S+'group_record.go AddState')],
 ["GroupSession.ProcessSenderKeyDistribution","GroupSession.NewSenderKeyDistribution","GroupRecord"]),
P("C17","Message encodings round-trip exactly",
 "Every pairwise, pre-key, group and distribution message built by this library parses back from its bytes to a message with the same fields and the same bytes: counters, identifiers over their full range, optional pre-key ID present or absent, keys, ciphertext of any length and the tag or signature, which still verifies. Messages of another version are refused.",
 ["inputs"],"every field value (full 32-bit ranges), every ciphertext, both presence states of optional fields, every version byte",
 "Tests round-trip one message of each kind with small values.",
 ['protocol/message/signal.go','protocol/message/prekey.go','protocol/message/senderkey.go','protocol/message/plaintext.go','protocol/distribution/id.go'],
 [("version nibble + protobuf body + trailer",'protocol/message/*.go')],
 ["message.New*FromBytes","message.*.Bytes"]),
P("C18","Untrusted bytes never crash the library",
 "Parsing, verifying and decrypting never panic: for every byte string given to a message, key, distribution ID or fingerprint parser, every signature of any length, and every message that parses (including one naming unknown pre-keys or carrying degenerate public keys), the result is a value or an error.",
 ["inputs"],"every byte string up to the stated length and every structured message with arbitrary field contents and lengths",
 "Tests feed well-formed inputs and a few short ones.",
 ['protocol/message/','protocol/curve/','protocol/fingerprint/scannable.go',S+'session.go',S+'cipher.go','protocol/crypto/aes/aes.go'],
 [("length checks before slicing; errors returned",'protocol/message/*.go, protocol/curve/*.go')],
 ["message.New*FromBytes","curve.NewPublicKey","curve25519.VerifySignature","Scannable.Compare","Session.DecryptMessage"]),
P("C19","AES-CBC encryption is exact and strict",
 "For every 256-bit key (and 128/192), every IV and every plaintext of any length including zero, decrypting the encryption returns the plaintext; the ciphertext is PKCS#7-padded CBC as specified, always longer than the plaintext and a multiple of 16. Ciphertexts whose length is not a positive multiple of 16, IVs or keys of wrong size, and ciphertexts whose padding is not exactly PKCS#7 are refused with an error.",
 ["inputs"],"every key, IV, plaintext and ciphertext up to the stated length",
 "Tests sample a few lengths with fixed data and accept malformed padding unnoticed.",
 ['protocol/crypto/aes/aes.go'],[("pkcs7pad/pkcs7unpad around crypto/cipher CBC",'protocol/crypto/aes/aes.go')],
 ["aes.CBCEncrypt","aes.CBCDecrypt"]),
P("C20","Curve keys: agreement is symmetric, encodings are exact, bad points are refused",
 "For every two key pairs both sides compute the same shared secret, also after private and public keys are encoded and decoded; a private key's stored encoding denotes the same key and public key. Public keys decode only from a well-formed encoding (type byte 0x05, at least 32 more bytes, the top bit of the last of them clear), equality is equality of the whole key, and agreement with a low-order public key is an error rather than a predictable secret.",
 ["inputs"],"every private key, every public key byte string",
 "Tests use a few vectors and random keys.",
 ['protocol/curve/','protocol/curve/curve25519/'],[("clamping, X25519, all-zero check",'protocol/curve/curve25519/curve25519.go')],
 ["curve.PrivateKey","curve.PublicKey","curve.KeyPair"]),
P("C21","Signatures verify exactly for their key and message",
 "For every private key, message (in any split into parts, including empty) and randomness, the signature made verifies under the matching public key; a signature verifies under no other message, other public key, or altered signature bytes (including its top bits) or other length. The same holds for alternate-identity signatures, which are valid only for exactly that pair of identities in that direction.",
 ["inputs"],"every key, message, split, randomness and candidate signature",
 "Random tests cannot show absence of accepting altered signatures, nor both sign cases for every key.",
 ['protocol/curve/curve25519/curve25519.go','protocol/curve/curve25519/util.go','protocol/identity/keys.go','protocol/curve/djb_public.go'],
 [("XEdDSA over Ed25519 verification",'protocol/curve/curve25519/curve25519.go')],
 ["curve.PrivateKey.Sign","curve.PublicKey.VerifySignature","identity.KeyPair.SignAlternateIdentity","identity.Key.VerifyAlternateIdentity"]),
P("C22","Fingerprints are symmetric, exact and bound to both identities",
 "Both parties compute the same 60-digit display string, in which each half is the six 5-digit groups derived from one party's iterated hash of version, identity key and stable ID; scanning compares equal exactly when versions match and each side's local and remote fingerprints are the other's, and a version mismatch is an error. A different key or stable ID gives a different hash input and so a different fingerprint (up to collisions), and iteration counts outside 2..1000000 are refused.",
 ["inputs"],"all keys, stable IDs, fingerprint bytes, versions and scanned byte strings",
 "Tests use two fixed vectors and one random pair.",
 ['protocol/fingerprint/'],[("iterated SHA-512, five-digit chunks, ordered concatenation",'protocol/fingerprint/fingerprint.go, encode.go, displayable.go, scannable.go')],
 ["fingerprint.New","Displayable.String","Scannable.Bytes","Scannable.Compare"]),
P("C23","In-memory stores behave as maps and report identity changes correctly",
 "Each store returns exactly what was last stored under that exact key (address with device, ID, or sender with distribution) and reports absence otherwise; deleting a pre-key removes only it; storing an identity reports a replacement exactly when a different key was known before; clearing forgets all identities at once and later stores are unaffected by the clearing. A key is trusted exactly when the address is unknown or the same key is recorded.",
 ["histories","inputs","schedules"],"every sequence of store operations over symbolic keys",
 "There are no store tests.",
 ['protocol/identity/store_inmem.go','protocol/prekey/store_inmem.go',S+'store_inmem.go','protocol/protocol/store_inmem.go'],
 [("Go maps keyed by value",'store_inmem.go files')],
 ["identity.Store","prekey.Store","prekey.SignedStore","session.Store","session.GroupStore"]),
P("C24","Sessions of different addresses, devices and groups never affect each other",
 "Establishing, using, failing in or resetting a session with one address leaves the sessions, identities and group chains of every other address, device and distribution ID unchanged, even when names and device numbers look alike when written side by side. Messages of one distribution or sender never decrypt in another's chain.",
 ["histories","inputs"],"every pair of distinct addresses (names, device numbers) and distribution IDs",
 "Tests use two or three fixed, very different addresses.",
 ['protocol/address/address.go',S+'store_inmem.go','protocol/identity/store_inmem.go','protocol/distribution/id.go'],
 [("stores keyed by the full address value and distribution ID",S+'store_inmem.go')],
 ["session.Store","session.GroupStore","identity.Store"]),
P("C25","Re-established and competing sessions keep working",
 "When a session is replaced (by a new bundle, by simultaneous initiation from both sides, or by archiving) messages of the replaced session still decrypt, decrypting one makes that session the current one for sending, and both parties converge on a common session in which messages flow in both directions. An archived session is never both current and archived, and reprocessing a pre-key message never duplicates or resets its session.",
 ["histories","schedules"],"every interleaving of re-establishment and delivery within the stated number of steps",
 "Tests cover one re-establishment order.",
 [S+'record.go',S+'cipher.go',S+'session.go'],
 [("previous states tried in turn and promoted",S+'cipher.go decryptMessage; record.go PromoteOldState')],
 ["Session.DecryptMessage","Record"]),
P("C26","Keys and wire formats follow the Signal protocol exactly",
 "Message keys, chain keys, root keys, sender keys, signature nonces, authentication tags and message byte layouts are exactly those the Signal specifications prescribe (HMAC and HKDF inputs, labels and output splits, key clamping, field numbers, order of identities in the tag), so that an independent implementation interoperates. This holds for all key values, not only published vectors.",
 ["inputs"],"every key, counter and payload",
 "Vectors pin single points; both ends of a test share any mistake made by both.",
 ['protocol/ratchet/','protocol/senderkey/keys.go','protocol/message/','protocol/crypto/aes/aes.go',S+'session.go'],
 [("KDF labels and layouts",'protocol/ratchet/keys.go, ratchet.go; protocol/senderkey/keys.go; protocol/message/mac.go')],
 ["ratchet.*","senderkey.*","message bytes"]),
P("C27","Pre-key messages are sent until, and only until, the peer is heard from",
 "After processing a bundle every message sent in that session is a pre-key message naming the bundle's pre-key IDs (any ID but the reserved one-time ID 0), the same base key, our identity and registration ID, until a message from the peer is decrypted in that session; from then on none is. The peer can decrypt any one of these messages first, in any order, and the rest afterwards.",
 ["histories","inputs"],"every number and order of initial messages and the point of the first reply; every pre-key ID",
 "Tests check one or two messages before the first reply.",
 [S+'cipher.go',S+'state.go',S+'session.go'],
 [("pending pre-key kept in the session until a successful decryption",S+'state.go *UnacknowledgedPreKeyMessage; cipher.go')],
 ["Session.EncryptMessage","message.PreKey"]),
P("C28","Caller-owned buffers are neither modified nor retained as state",
 "No operation modifies a buffer the caller passed in (plaintext including its spare capacity, ciphertext, keys, signatures, message parts), and changing such a buffer or a returned key encoding afterwards changes no curve key, stored pre-key, recorded identity or stored session.",
 ["inputs","histories"],"every argument slice, length and spare capacity",
 "Tests pass exactly sized slices and never look at them again.",
 ['protocol/crypto/aes/aes.go','protocol/curve/','protocol/message/',S],
 [("copies on construction and on return",'protocol/curve/*.go; protocol/crypto/aes/aes.go pkcs7pad')],
 ["aes.CBCEncrypt","curve.NewPublicKey","curve.PrivateKey.Bytes","Session.EncryptMessage"]),
P("C29","Secret-dependent comparisons take constant time",
 "Comparing tags, keys and fingerprints takes time independent of where the inputs differ.",
 ["inputs"],"all secret values",
 "Timing is not a functional outcome.",
 ['protocol/message/signal.go','protocol/curve/djb_public.go','protocol/fingerprint/scannable.go'],
 [("hmac.Equal / subtle.ConstantTimeCompare",'call sites')]),
P("C30","Errors tell callers what happened",
 "An operation refused because the peer's identity is not trusted (processing a bundle, encrypting, decrypting either kind of message) returns an error that IsErrUntrustedIdentity recognises and that names the address; no other refusal does. Decrypting a message again while its chain is still held reports ErrDuplicateMessage, and a message never decrypted is not called a duplicate. Encrypting, or decrypting a plain message, where no session exists reports ErrSessionNotFound for that address; a record without a current session reports ErrNoCurrentSession; a key of a wrong length is reported with both lengths; the error of a failing store reaches the caller.",
 ["inputs","histories","faults"],"every trust decision, schedule of operations and replays, failing store operation, address and length within the stated bounds",
 "Tests check that some error comes back, mostly not which, and not on every path.",
 ['protocol/perrors/',S+'cipher.go',S+'session.go',S+'group_cipher.go',S+'record.go'],
 [("untrusted identities on every path",S+'session.go ProcessPreKey, ProcessPreKeyBundle; cipher.go'),("duplicates found in current and previous states",S+'cipher.go decryptMessage, messageKeys; group_cipher.go messageKey')],
 ["perrors.IsErrUntrustedIdentity","perrors.ErrDuplicateMessage","perrors.ErrSessionNotFound","perrors.ErrNoCurrentSession","perrors.ErrInvalidKeyLength"]),
P("C31","Without randomness nothing is made, and all of it is used",
 "When the source of randomness fails or ends early, generating a key, signing, processing a bundle, decrypting a message that turns the ratchet and creating a sender chain return an error and leave everything stored as it was, and the same operation works afterwards with a working source. However a working source delivers its bytes, in pieces or at once, keys and signatures are made of exactly those bytes; without a source the system's randomness is used.",
 ["inputs","faults"],"every read of the random source failing, before or after part of it was delivered, in each of those operations; pieces of any of the listed sizes",
 "Tests use crypto/rand, which neither fails nor delivers pieces.",
 ['protocol/curve/curve25519/curve25519.go','protocol/curve/',S+'session.go',S+'cipher.go',S+'group_session.go'],
 [("io.ReadFull",'protocol/curve/curve25519/curve25519.go GeneratePrivateKey, Sign; '+S+'group_session.go NewSenderKeyDistribution')],
 ["curve.GenerateKeyPair","PrivateKey.Sign","Session.ProcessPreKeyBundle","Session.DecryptMessage","GroupSession.NewSenderKeyDistribution"]),
P("C32","A session record reports the facts of its session",
 "At every point of a conversation the stored record names version 3, both identities, both registration IDs and (at both ends) the same base key; its sending chain stands at the number of messages sent on it, each receiving chain at the position after the highest message received and is there exactly if something of it was received, skipped message keys are kept for exactly the messages skipped and not yet received, and a pre-key message is pending exactly until the peer was heard from. The stored bytes of a state read back as the same state, and a copy equals its original.",
 ["histories"],"every schedule of sends and deliveries within the stated number of steps",
 "Tests look at records only after fixed exchanges.",
 [S+'record.go',S+'state.go'],
 [("accessors over the stored structure",S+'state.go; record.go')],
 ["session.Record","session.State"]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in props:
        assert len(p['title'])<=80,p['id']
        f.write(json.dumps(p)+'\n')
print(len(props))
