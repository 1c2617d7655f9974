# id: (how it is decided / oracle, bounds, why tests cannot)
D = {
'C01': ("Two real parties with in-memory stores; the harness chooses each next operation (send by either side, delivery of any message in flight); every plaintext byte is symbolic. Asserted: parsing and decryption succeed and the bytes are equal.",
  "history: all schedules of 6/8 operations then delivery of the rest; turns: 5/7 turns of 4 patterns of loss and overtaking, so that chains up to the fifth-oldest are used; anywhere: symbolic 32-bit chain position, gaps of 0..2, every order and subset of 3 messages; plaintext lengths 0..39.",
  "A test fixes one order; a key dropped from one old chain only shows in particular orders."),
'C02': ("The same schedules with every accepted message presented again at every later point; asserted: error, no plaintext, and byte equality of everything stored before and after. Pre-key messages are also re-wrapped in envelopes with arbitrary registration IDs, pre-key IDs, identity and base keys, including other encodings of the same point.",
  "6/7 operations; up to 4/5 successive sessions without one-time pre-keys; anywhere: as C01 with replays.",
  "Replays have to be tried at every point of every history."),
'C03': ("An attacker who holds every message sent sends arbitrary bytes to a recipient in a small history: fully arbitrary messages, genuine ones with an altered region, with another version, truncated, with fields added or repeated, of odd lengths (varint length fields of two bytes), pre-key envelopes with replaced fields, sessions of others. If decryption succeeds, the inner bytes must be a genuine message for this recipient and session and the plaintext its plaintext.",
  "histories of up to 3 messages before the attack; ciphertexts 0..144 bytes.",
  "It quantifies over all forgeries; MAC unforgeability is an assumption, that the code checks all of the MAC over all of the bytes is what is decided."),
'C04': ("Failing decryptions of all kinds: forged, replayed, altered, validly authenticated but undecryptable (a peer misusing its keys), for unknown sessions or pre-keys, and under a store failure at any operation before or after it takes effect. Asserted: no plaintext, stored sessions, pre-keys and identities byte-equal before and after (with failing stores: unless the session itself was stored), and all genuine messages still decrypt.",
  "one attack in histories of up to 4 messages; any of the first 9 store operations fails.",
  "Every failure point has to be tried in every state."),
'C05': ("Schedules as C01, with several sessions, and with a store failure at any operation of an encryption. Asserted: no two messages share (ratchet key, counter) or the chain key they were made from, counters are consecutive, a failing store gives an error and no ciphertext.",
  "7/8 operations; symbolic chain positions; 2 failures in thorough.",
  "Key reuse needs a failure at a particular operation or a particular history."),
'C06': ("Both ends' real session initialisation is compared with X3DH written from the specification (reference in the harness, HKDF over the concatenated secrets), for all keys; then every key of one end is replaced in turn (by another honest key, by an attacker's).",
  "one bundle with or without one-time pre-key; all key values.",
  "For all keys, and against an independent formula rather than against itself."),
'C07': ("A bundle all of whose fields are arbitrary (keys possibly the attacker's, signature arbitrary or genuine for something else, any single altered byte of key or signature) is processed at first contact and over an existing session, with trusting and distrusting stores and with failing ones. Accepted only if signature and trust say so; refused bundles leave sessions and identities byte-equal; genuine ones are accepted.",
  "one bundle on top of 0 or 1 sessions; all contents.",
  "Adversarial contents; early writes before a late check."),
'C08': ("An identity store whose answers are symbolic per call and direction; histories in which the address changes hands; forged pre-key messages; re-registration. Asserted: encryption and decryption succeed only if the store said so for that key and direction, the recorded identity is always one that authenticated something.",
  "up to 4 exchanges around the change.",
  "The order of check and use must be right on every path."),
'C09': ("Several initiators compete for the same or different one-time pre-keys, in any order, with forged, altered and repeated messages, with IDs fully symbolic (equal or not), with IDs issued again to new keys after consumption, and with failing stores. The set of keys held after each step is compared with the specified one.",
  "3 initiators; 2 messages each; all IDs.",
  "Which key goes must be right for every pair of IDs and order."),
'C10': ("Chains are moved to the limits by the library's own chain functions (25000 real steps, with concrete and with arbitrary secrets), then one step over and under; stores are inspected through their encodings. Symbolic positions and counters show that nothing above the limit is ever accepted or kept.",
  "limits themselves exact: 25000/25001, 2000/2001, 5/6 chains, 40/41 archived states, 5/6 group states.",
  "Off-by-one and eviction order at sizes tests do not reach; all 2^32 counters."),
'C11': ("After every operation of a schedule the stored bytes of both parties are searched, as terms, for message keys and chain keys from which a used key can be derived (Dolev-Yao derivation over everything stored), for ratchet keys of earlier turns, and the new ratchet key must be a fresh variable.",
  "5/6 operations; 2 ratchet turns for healing.",
  "Absence of a secret from a state is not something a test can see; here it is derivability over terms."),
'C12': ("Group analogue of C01: a sender and two members, joining at any point, every order and loss.",
  "5/7 operations; batches of 5/6 messages in every order; symbolic chain ID and iteration with 3/5 messages in every order and subset; lengths 0..17/0..49.",
  "Orders of skipped messages (removal from the middle of the skipped list) and late joiners."),
'C13': ("As C12 with every accepted message and every distribution message presented again at any point.",
  "5/7 operations; every order of 4/6 messages with immediate and final repeats; symbolic positions.",
  "Repeats at every point, in particular after distribution messages."),
'C14': ("A member who knows chain keys and all messages (released to the attacker) makes messages: arbitrary, altered in one region, cut, extended, signed by its own key, of another chain, distribution or sender. Anything accepted must be byte for byte one of the sender's messages.",
  "histories of 1..3/5 operations before the attack.",
  "Insiders hold all symmetric keys; only the signature check stands, and it must cover every byte."),
'C15': ("A failing load, store or random source (also after delivering part of the bytes) at every operation, and failing decryptions of every kind; state compared byte for byte; iterations consecutive from any position.",
  "1/2 failures in schedules of 0..3 operations.",
  "Crash points."),
'C16': ("Distribution messages with any iteration and any chain key for a chain already held; with another signing key; for further chains; the sender's own message compared with its chain from any 32-bit position; buffers scribbled over after use.",
  "3/5 chains; 5/7 operations.",
  "Rollback is a matter of histories; a position is right for all 2^32 values."),
'C17': ("Every field symbolic over its full range; build, encode, parse, compare all fields and bytes; signature and MAC verify again. Sessions, pre-key records and group records restored from bytes at any point of a conversation go on.",
  "ciphertexts 0..40, one field over its full range at a time (varints of every length).",
  "All values of IDs and counters (boundaries of varints, zero, sign bits)."),
'C18': ("Symbolic bytes into every parser and verifier; messages with fields of any form; degenerate keys; authenticated peers sending contents of any kind. A panic on any path is a violation.",
  "whole inputs of up to 6..80 free bytes by parser, plus structured ones with free values.",
  "All byte strings of a length at once."),
'C19': ("Real CBC and PKCS#7 code over an abstract AES permutation; reference CBC in the harness. Decryption of arbitrary ciphertexts succeeds exactly when the last block decrypts to proper padding.",
  "0..50/0..100 bytes; 16, 24 and 32-byte keys; all contents.",
  "Every padding, not the few a test has."),
'C20': ("Any 32 bytes as private keys, any bytes as public keys of every length; agreement both ways, encodings, equality, low-order points (all encodings).",
  "all values; lengths 0..39.",
  "All keys, all top bits, all seven low-order points."),
'C21': ("XEdDSA sign and verify are executed down to scalars and points; honest signatures verify for all keys, messages, splits and random bytes; altered ones in any region, other keys, messages and lengths do not.",
  "messages of 0..6 bytes in up to three parts; lengths 0..67.",
  "All randomness and keys, sign bits included."),
'C22': ("Digits compared with a reference from the specification (5 big-endian bytes mod 100000), both sides' views equal, also where leading groups agree; iteration count fully symbolic; scannable encodings with symbolic halves of various lengths.",
  "hash iterations 2..5/17 are unrolled; iteration counts: all 2^32 for acceptance.",
  "Ties in the ordering, boundaries of the count."),
'C23': ("Sequences of operations over symbolic IDs, addresses and keys (equal or not) against a map in the harness; the identity store's Clear with its goroutine in every interleaving; records with and without current session, and scribbled on after storing and after loading.",
  "4/5 operations per store (3/4 on sessions and groups).",
  "All coincidences of keys."),
'C24': ("Two peers (addresses that look alike when joined), devices and groups; any operation on one, then everything kept of the other is byte-equal; messages handed to the wrong session are refused.",
  "4/5 operations.",
  "Aliasing between records only shows in particular pairs."),
'C25': ("Schedules of opening, archiving, crossing, sending and delivering, with an abstract model of which sessions each side holds and which is current; the real record must agree after every step, and one exchange must bring both into one session.",
  "4..5/7 operations, up to 3 opened sessions; up to 4/5 sessions with late messages in every order.",
  "Histories of competing sessions."),
'C26': ("Every message and state transition is recomputed in the harness from the specifications (HMAC/HKDF inputs and labels, chain and root steps, MAC input order, field numbers and order, XEdDSA nonce) and compared byte for byte with what the library made.",
  "conversations of up to 6 messages; symbolic positions; all key values.",
  "An independent oracle for all values; a change made on both ends alike passes round-trip tests."),
'C27': ("Schedules with and without one-time pre-key, IDs over their full range, several sessions and archiving; message type, envelope fields and base key after every send.",
  "6/7 operations; sessions 3/6 operations.",
  "When exactly the pending pre-key is dropped depends on the history."),
'C28': ("Buffers are given spare capacity and compared after each call; afterwards every buffer given or returned is overwritten and all stored state and further behaviour compared. Slices have real aliasing semantics in the engine.",
  "one call or a short conversation per buffer.",
  "Aliasing needs spare capacity or later writes that tests do not make."),
'C30': ("The schedules of C02, C05, C07, C08, C13 and C15 again, with assertions on which error comes back; every trust answer, failing store operation, missing session, address pair and key length.",
  "3/4 operations on trust; histories of 6/7 operations; one failing store operation at any place; key lengths 0..69.",
  "Which error a caller sees depends on the path, the archived sessions and the store that failed."),
'C31': ("A random source fails or ends at a chosen read, with or without part of the bytes delivered, in every operation that uses it; stored state is compared and the operation repeated. A source delivering pieces must give the keys and signatures its bytes make.",
  "the first three reads; pieces of 1, 7, 31, 32, 63 and 64 bytes.",
  "The system's randomness never fails in tests."),
'C32': ("After every step of every schedule the stored record is compared with what the harness knows happened: counters, chains, skipped keys, identities, registration IDs, base keys; its bytes are read back.",
  "5/7 operations; 4/6 turns with late messages.",
  "Records are examined after each of hundreds of schedules."),
}
