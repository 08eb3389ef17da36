#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

AES="src/crypto/aes_gcm_crypter.cc"; CHO="src/crypto/chacha_poly_crypter_openssl.cc"; CHB="src/crypto/chacha_poly_crypter_boringssl.cc"
AEAD=[AES,CHO,CHB]
HKDF="src/crypto/hkdf.cc"; HMH="src/record_protocol/handshake_message_handler.cc"
HC="src/record_protocol/s2a_half_connection.cc"; CR="src/record_protocol/s2a_crypter.cc"
FP="src/frame_protector/s2a_frame_protector.cc"; PX="src/handshaker/s2a_proxy.cc"
CTX="src/handshaker/s2a_context.cc"; UT="src/handshaker/s2a_util.cc"; OP="src/options/s2a_options.cc"
TK="src/record_protocol/s2a_upb_ticket_sender.cc"

prop("C01","AEAD decrypt succeeds only after the whole record is authenticated",
 "Decrypt of every AEAD implementation (AES-GCM, ChaCha20-Poly1305 over OpenSSL, ChaCha20-Poly1305 over BoringSSL) returns OK only if the crypto library has, under the caller's nonce, been given every associated-data byte and every ciphertext byte exactly once and in order, has been given exactly the last tag-length bytes of the input as the tag, and has confirmed that tag. No ciphertext byte is treated as tag or tag byte as ciphertext, however the bytes are split across input buffers.",
 ["inputs"],"all nonces, all numbers and sizes of aad / ciphertext chunks (including empty chunks and a tag split across chunks), all crypto-library outcomes",
 "Tests decrypt a few fixed vectors with a few hand-picked chunkings; they cannot reach every chunking or a library failure at each call.",
 AEAD,[("Decrypt",AES),("DecryptCheckTagAndFinalize",AES),("Decrypt",CHO),("Decrypt / EVP_AEAD_CTX_open",CHB)],
 observe=["return status of S2AAeadCrypter::Decrypt"])
prop("C02","A failed decrypt releases no unauthenticated plaintext",
 "Whenever Decrypt of an AEAD implementation returns a non-OK status it reports 0 bytes written, and if any decrypted byte was written to the caller's plaintext buffer during the call then the whole plaintext buffer has been zeroed afterwards.",
 ["inputs","fault_sequences"],"all inputs, all chunkings, all output-buffer sizes, and a failure of any crypto-library call",
 "Tests trigger only a handful of the error exits (bad tag, wrong nonce size), never a library failure half-way or a too-small buffer hit on a later chunk.",
 AEAD,[("memset on every error exit",AES),("memset on every error exit",CHO)])
prop("C03","AEAD operations stay inside the caller's buffers",
 "Encrypt and Decrypt of every AEAD implementation, and the fixed-size buffers they use internally, are never read or written out of bounds: every byte written to the output buffer lies within its stated length and every byte read from an input chunk lies within that chunk's stated length, on success and on failure alike.",
 ["inputs"],"all chunk counts, all chunk lengths, all output-buffer lengths (total sizes below 2^31)",
 "Tests use buffers of the right size or one byte short in a few places; memory bounds must hold for every combination of chunk sizes.",
 AEAD,[("remaining-length checks",AES),("remaining-length checks",CHO),("max_out_len checks",CHB)])
prop("C04","AEAD encrypt covers all input and appends the tag",
 "When Encrypt of an AEAD implementation returns OK, the crypto library has been given, under the caller's nonce, every associated-data byte and every plaintext byte exactly once and in order, the ciphertext occupies the front of the output buffer contiguously and is followed immediately by the tag, and the reported count equals the total plaintext length plus the tag length. Likewise when Decrypt returns OK the plaintext occupies the front of its buffer contiguously and the reported count is the total input length minus the tag length.",
 ["inputs"],"all nonces, aad/plaintext chunkings and output-buffer sizes",
 "Tests compare a few vectors; they do not reach every chunking (empty chunks between non-empty ones, many chunks).",
 AEAD,[("Encrypt",AES),("Encrypt",CHO),("Encrypt / EVP_AEAD_CTX_seal",CHB)])
prop("C05","A missing input buffer is rejected, never dereferenced",
 "If an input component passed to an AEAD operation has nonzero length and a null base, the operation returns an error before reading that component and never dereferences the null base; components of zero length are accepted whatever their base.",
 ["inputs"],"every position of the null component in aad, plaintext or ciphertext_and_tag, and every chunking",
 "Tests place a null component only first; a null component that is reached late (for instance inside the tag) is not tried.",
 AEAD,[("iov_base == nullptr checks",AES),("iov_base == nullptr checks",CHO),("iov_base == nullptr checks",CHB)])
prop("C06","AEAD key, nonce and tag sizes are enforced",
 "A crypter is created for a key of exactly 16 or 32 bytes (AES-GCM, selecting AES-128 resp. AES-256) or exactly 32 bytes (ChaCha20-Poly1305), and for no other, unless the crypto library fails; it then reports that key length, a 12-byte nonce length and a 16-byte tag length. The crypto library is configured with exactly that cipher, the whole caller key, a 12-byte nonce length and a 16-byte tag length, and Encrypt/Decrypt return an error for any nonce that is not 12 bytes, without touching the output buffer.",
 ["inputs","configurations"],"all key sizes, all nonce sizes, both crypto libraries",
 "Tests try the legal sizes and a few illegal ones.",
 AEAD+["src/crypto/s2a_aead_crypter.cc","src/crypto/s2a_aead_constants.h"],[("CreateAesGcmAeadCrypter",AES),("CreateChachaPolyAeadCrypter",CHO),("CreateChachaPolyAeadCrypter",CHB)])
prop("C07","A crypto-library failure is never swallowed",
 "Whenever a crypto-library call made by an AEAD crypter's creation, Encrypt, Decrypt, or by HKDF derivation reports failure, the enclosing public operation returns a non-OK status.",
 ["fault_sequences"],"every crypto-library call site on every path, failing at any occurrence",
 "The tests run against a healthy library; no test injects a failure into any library call.",
 AEAD+[HKDF],[("checked return values",AES),("checked return values",HKDF)])
prop("C08","Crypto-library objects are released exactly once",
 "Every crypto-library object (cipher context, HMAC context, BIO) acquired by the crypto layer is released exactly once on every path, successful or not, or handed to the returned crypter which releases it on destruction; none is used or released after release.",
 ["inputs","fault_sequences"],"all paths through crypter creation, HKDF derivation and error-string collection",
 "Leaks and double frees on error paths need library failures which the tests never produce.",
 AEAD+[HKDF,"src/crypto/s2a_aead_crypter_util.cc"],[("unique_ptr deleters",AES),("HMAC_CTX_free",HKDF),("BIO_free_all","src/crypto/s2a_aead_crypter_util.cc")])
prop("C09","HKDF-Expand implements RFC 5869 for every output length",
 "When key derivation returns OK, every byte of the output (its full length, and nothing beyond) has been written with the RFC 5869 HKDF-Expand stream: block i is HMAC keyed with the given pseudo-random key over (block i-1, info, the byte i), i counting from 1, truncated to the output length, using the requested hash; this holds also when the output aliases the key. Requests for a pseudo-random key shorter than the hash, for more than 255 blocks, or for an unknown hash return an error, and no other request fails unless the crypto library does.",
 ["inputs"],"all hash functions, prk/info/output sizes",
 "Tests check a few RFC vectors; multi-block boundaries, the 255-block limit and aliasing are sampled at most.",
 [HKDF],[("HkdfDerivation",HKDF),("HkdfDeriveSecret",HKDF)])
prop("C10","Handshake messages are reassembled exactly, whatever the fragmentation",
 "The handshake message handler reads each supplied byte exactly once, in order, and never outside the supplied buffer; it takes exactly the first 4 bytes of a message as its header and exactly the number of body bytes the 24-bit big-endian length in that header states before treating the next byte as a new message, however the bytes are split across calls, including zero-length bodies. It always terminates and reports that more bytes are expected exactly when a message is incomplete. This holds from construction until the handler first returns an error.",
 ["inputs","histories"],"all byte strings and all ways of splitting them into calls",
 "Tests use a handful of fragmentations of well-formed tickets and key updates.",
 [HMH],[("ProcessHandshakeMessage",HMH),("StoreMessageFragment",HMH),("GetMessageDataSizeFromHeader",HMH)],
 state=[dict(name="state_, num_header_bytes_expecting_to_read_, num_data_bytes_expecting_to_read_",meaning="parser position",where="src/record_protocol/handshake_message_handler.h")])
prop("C11","Session tickets: bounded store, handed out once",
 "The handler never stores more than 5 complete tickets, its reported ticket count always equals the number of complete tickets it holds, stored tickets are handed out at most once over the handler's lifetime, never while a ticket is still incomplete, and after they are handed out further tickets are ignored while parsing continues normally.",
 ["histories"],"all call histories",
 "Tests cover single sequences; the guarantee is about every interleaving of messages and retrievals.",
 [HMH],[("IgnoreFutureTickets",HMH),("AddTicketToStore",HMH),("GetStoredTickets",HMH)])
prop("C12","Only tickets and key updates are accepted, key update last",
 "A handshake message whose type byte is neither session ticket (4) nor key update (24) makes processing return an error; a complete key update followed by further bytes in the same input makes processing return an error; otherwise the result states exactly whether ticket or key-update bytes were seen, and a complete key update that has a body is reported with its own request byte (the first body byte).",
 ["inputs","histories"],"all byte strings and fragmentations",
 "Tests try one wrong type and one trailing message.",
 [HMH],[("ProcessHandshakeMessage",HMH),("GetKeyUpdateType",HMH)])
prop("C13","No nonce is ever used twice under one key",
 "Every Encrypt or Decrypt of a half connection uses the traffic nonce XORed, in its last 8 bytes big-endian, with the current sequence number, and advances the sequence number by exactly one whether or not the operation succeeds; once the sequence number has wrapped to zero every further operation fails without reaching the cipher, until a key update installs a new key.",
 ["histories"],"all histories of encrypt/decrypt/key-update on a half connection, all starting sequence numbers",
 "Tests run short histories from a few starting numbers.",
 [HC],[("NonceMask",HC),("has_sequence_overflowed_",HC)],
 state=[dict(name="sequence_",meaning="record sequence number",where="src/record_protocol/s2a_half_connection.h")])
prop("C14","Key update is all-or-nothing",
 "A successful key update replaces the traffic secret, the key and the nonce by the values TLS 1.3 derives from the old traffic secret (labels 'tls13 traffic upd', 'tls13 key', 'tls13 iv', each with the right output length) and restarts the sequence number at zero; a key update that fails at any step returns an error and leaves the half connection refusing every later encrypt and decrypt.",
 ["histories","fault_sequences"],"all key-update histories and a failure at any derivation or creation step",
 "No test makes a derivation step fail; the intermediate states are unreachable for them.",
 [HC],[("UpdateKey",HC),("AdvanceSecret / DeriveKey / DeriveNonce",HC),("always_fail_aead_operations_",HC)])
prop("C15","Ciphersuite parameters are coherent everywhere",
 "For each supported ciphersuite the hash function, traffic-secret size, key size, nonce size and AEAD algorithm chosen anywhere in the library are the ones TLS 1.3 assigns to it (AES-128-GCM: SHA-256, 32/16/12; AES-256-GCM: SHA-384, 48/32/12; ChaCha20-Poly1305: SHA-256, 32/32/12), at creation and at every key update; any other ciphersuite value, or a traffic secret of another size, is an error.",
 ["inputs","configurations"],"all ciphersuite values and secret sizes",
 "Tests check the three suites at creation with right-sized secrets and few wrong ones.",
 [HC,"src/record_protocol/s2a_crypter_util.cc",CR],[("Create",HC),("UpdateKey",HC),("CiphersuiteToHashFunction","src/record_protocol/s2a_crypter_util.cc")])
prop("C16","Sending and receiving threads cannot race",
 "One thread may protect records while another unprotects records of the same connection: every piece of mutable state reachable from both sides is accessed only while holding the mutex that guards it, locks are always released, and no code path acquires a mutex it already holds or two mutexes in conflicting orders.",
 ["schedules"],"all interleavings of Protect and Unprotect (and of the methods of the proxy and of the half connection)",
 "The tests are single-threaded or stress a few schedules.",
 [HC,CR,FP,PX],[("mu_",HC),("protect_mu_ / unprotect_mu_",FP),("mu_",PX)])
prop("C17","Unprotect admits only a well-formed record",
 "A record reaches the decryption cipher only if no close-notify alert has been received before, the header is exactly 5 bytes reading 0x17 0x03 0x03 and a big-endian length equal to the payload's total length, and the whole record is between the record overhead and the overhead plus 2^14 bytes; in every other case an error is returned and 0 bytes are reported. Once a close-notify alert was received, every later Unprotect returns the close-notify code.",
 ["inputs","histories"],"all headers, payload chunkings and histories",
 "Tests sample a few malformed headers and sizes.",
 [CR],[("Unprotect",CR),("ValidateTls13RecordHeader",CR)],
 state=[dict(name="close_notify_received_",meaning="close-notify latch",where="src/record_protocol/s2a_crypter.h")])
prop("C18","Decrypted content is dispatched by its inner type",
 "After a successful decryption the inner type is the last nonzero decrypted byte and the content is everything before it; application data is the only type reported to the caller as plaintext (OK with exactly the content length), handshake content goes to the handshake handler and is reported as 0 bytes, an alert of at least two bytes with description 0 reports close-notify and latches it and any other alert reports another alert, and an all-zero, unknown or too short inner content, or application data in the middle of a handshake message, is an invalid-record error. A failed decryption, or handshake content the handshake handler rejects, is reported as an error. Every non-OK outcome reports 0 bytes.",
 ["inputs","histories"],"all decrypted contents (all padding lengths, all type bytes) and all handshake states",
 "Tests use few paddings and types.",
 [CR],[("Unprotect",CR),("HandleProcessHandshakeMessageResult",CR)])
prop("C19","Protect writes exactly one TLS 1.3 record",
 "A successful Protect writes to the front of the record buffer the header 0x17 0x03 0x03 with the big-endian length of what follows, then the outbound encryption (authenticating that header) of the whole plaintext in order followed by the one byte of the requested record type, and reports exactly plaintext length plus record overhead; more than 2^14 plaintext bytes or a too small record buffer is an error before anything is encrypted, and a failed encryption leaves the record buffer zeroed and reports 0 bytes. Protect uses only the outbound keys and Unprotect only the inbound keys.",
 ["inputs"],"all plaintext chunkings, buffer sizes and record types",
 "Tests use few sizes and chunkings.",
 [CR],[("Protect",CR),("WriteTls13RecordHeader",CR),("Create",CR)])
prop("C20","The inbound key is updated exactly once per key update message",
 "The inbound key is updated exactly when a handshake record completes a key-update message received from the peer - not for a fragment of one, not twice, not for tickets - and never otherwise; if the update fails, Unprotect reports an error. Received records never change the outbound key, which is updated exactly once by each UpdateOutboundKey.",
 ["inputs","histories"],"all fragmentations of handshake messages across records",
 "Tests deliver key updates in one record.",
 [CR,HMH],[("HandleProcessHandshakeMessageResult",CR)])
prop("C21","Session tickets are forwarded to the S2A once and intact",
 "Stored session tickets are forwarded at most once per connection: when the store is full or when the first application data follows ticket records; each forwarded ticket is the exact concatenation of its fragments in order, and is sent with this connection's id, S2A address and local identity. The destructor waits for the pending transmission.",
 ["histories"],"all histories of ticket, key-update and application-data records",
 "Tests cover few histories.",
 [CR,TK],[("RetrieveStoredTicketsAndSendToS2A",CR),("SendTicketsToS2A",TK)])
prop("C22","Frame-protector buffers are released exactly once",
 "Every buffer the frame protector obtains from the caller's allocator is, on every path, either handed to the caller in the result or destroyed exactly once with the caller's destroy function; buffers owned by the caller are never destroyed by the frame protector.",
 ["inputs","fault_sequences"],"all paths including a failing allocator, failing encryption or decryption at any record",
 "Tests run with an allocator that succeeds and seldom reach an error after buffers were allocated.",
 [FP],[("Protect / Unprotect",FP),("allocate_ / destroy_ callbacks",FP)])
prop("C23","The frame protector splits incoming bytes exactly at record boundaries",
 "The frame protector locates records using the 5-byte headers wherever they fall in the input buffers, reads only inside the supplied buffers, gives the record layer exactly the header and payload bytes of each record in order, and never silently drops input bytes: input that ends in an incomplete record is an error; the plaintexts are returned in record order.",
 ["inputs"],"all splittings of one or more records across input buffers",
 "Tests use few splittings.",
 [FP],[("ComputeTlsRecordSize / IsolateTlsPayload",FP)])
prop("C24","The frame protector splits outgoing bytes into legal records",
 "Protect turns the caller's bytes into consecutive records that together carry every input byte exactly once and in order, each carrying at most 2^14 bytes, and writes them contiguously into a buffer whose size accounts for the payload plus the record overhead of every record; the result's length is the number of bytes produced.",
 ["inputs"],"all sizes and splittings of outgoing data",
 "Tests use few sizes around the boundary.",
 [FP],[("Protect",FP),("NumberBytesToProtect",FP)])
prop("C25","No session is usable before the handshake completed",
 "The proxy yields a frame protector or an S2A context only after the S2A service returned a complete, valid session result in an OK response; until then, including after responses that are errors or whose session result is invalid, both requests return an error and the handshake is not reported finished; once a session result was accepted, the handshake is reported finished and a frame protector can be created from it.",
 ["histories","inputs"],"all response contents and call orders",
 "Proxy tests cover one successful handshake and a few errors.",
 [PX],[("GetBytesForPeer",PX),("CreateFrameProtector",PX),("GetS2AContext",PX)])
prop("C26","Errors reported by the S2A service always surface",
 "Every response of the S2A service that cannot be decoded, that carries a non-OK status, that lacks required fields or has an invalid session result makes the proxy return an error status to the application instead of bytes or success. Every other response yields exactly its frames for the peer and its count of consumed bytes.",
 ["inputs"],"all response contents",
 "Tests feed a few malformed responses.",
 [PX],[("GetBytesForPeer / ParseResponse",PX)])
prop("C27","The session request carries exactly the configured options",
 "The client-start and server-start requests carry every configured TLS version bound, ciphersuite, target or local identity, application protocol and target name of the options, each in its own field and nothing else, and later requests carry exactly the bytes received from the peer. Every authentication token attached is one the token manager returned for the identity it is attached to (the default token goes without identity), and the first request carries the token of every configured local identity (or the default token when there is none) that the token manager can provide one for.",
 ["inputs","configurations"],"all option values",
 "Tests compare a few serialized requests.",
 [PX],[("PrepareClientStartSessionReq / PrepareServerStartSessionReq",PX)])
prop("C28","The session result configures the right direction",
 "The frame protector is created from the session result with the negotiated version and ciphersuite, the inbound key and sequence for receiving and the outbound key and sequence for sending, and this connection's id and local identity.",
 ["inputs"],"all session results",
 "Tests check one result.",
 [PX,FP],[("CreateFrameProtector",PX),("S2AFrameProtector::Create",FP)])
prop("C29","Enum and identity conversions are exact",
 "Conversion of TLS versions, ciphersuites and identities between the API and the wire format maps each known value to its namesake and back, is one-to-one, and returns an error for every unknown value; identities keep both their kind and their name.",
 ["inputs"],"all enum values, known and unknown",
 "Tests list known values only.",
 [UT,PX,CTX],[("ConvertCiphersuite... / identity conversions",UT)])
prop("C30","The S2A context reports the session result faithfully",
 "The context exposes the peer identity, local identity, application protocol, versions, ciphersuite and certificate fingerprints from the session result, each from its own field, and serializing the context preserves every one of them byte for byte, including fingerprints containing zero bytes.",
 ["inputs"],"all session results",
 "Tests use one result without zero bytes.",
 [CTX,PX],[("S2AContext::GetSerializedContext",CTX)])
prop("C31","Options are copied completely and kept independently",
 "A fresh set of options has TLS 1.3 as both version bounds and nothing else configured. Each setter changes exactly its own setting to exactly the value given; ciphersuites are kept in the order added, duplicates included; each identity added is a member of exactly the local or target set it was added to, with the kind and name given. A copy equals the original in every setting (S2A address, TLS version bounds, ciphersuites, local and target identities), and later changes to either do not affect the other.",
 ["inputs","configurations"],"all option values",
 "Tests set a few values.",
 [OP,"include/s2a_options.h"],[("Copy",OP)])
prop("C32","Identities compare and hash consistently",
 "Two identities are equal exactly when they have the same kind and the same name, equal identities hash equally, and the factories produce an identity of exactly the kind and name asked for.",
 ["inputs"],"all identities",
 "Tests compare a few pairs.",
 ["include/s2a_options.h",OP],[("Identity::operator== / AbslHashValue",OP)])
prop("C33","Token managers hand out exactly the configured token",
 "The single-token manager reads the S2A_ACCESS_TOKEN environment variable when it is created and returns exactly that token, unchanged, for every identity and as the default token, on every request; if the variable was absent at creation every request returns an error. The fake manager returns its fixed token on every request. Requests write no state that concurrent callers share.",
 ["inputs","schedules"],"all identities, all environments, all thread interleavings",
 "Tests check one token single-threaded.",
 ["src/token_manager/single_token_access_token_manager.cc","src/token_manager/fake_access_token_manager.cc"],
 [("GetToken / GetDefaultToken","src/token_manager/single_token_access_token_manager.cc")])
prop("C34","Secrets never reach logs or error messages",
 "Traffic secrets, keys, nonces, access tokens, plaintext and ticket contents never flow into a logged message, into output, or into the message of a returned status. Identifiers, lengths and single protocol bytes such as the record type are not secrets, and the text of an error reported by a peer, the S2A or the crypto library is passed on as received.",
 ["inputs"],"all flows into logger calls and status messages",
 "A test can only look for known strings in sampled messages.",
 [AES,HC,CR,FP,PX,TK],[("logger_ calls",CR),("Status messages",HC)])
prop("C35","What one side protects the other side recovers",
 "For every plaintext and every record splitting, unprotecting on a peer connection with the mirrored secrets the bytes produced by Protect, delivered in order and cut into buffers in any way, succeeds and yields exactly the original plaintext, also after key updates; the only exceptions are a failing crypto library or allocator and used-up sequence numbers.",
 ["inputs","histories"],"all plaintexts, sizes, histories of key updates",
 "Tests round-trip a few sizes.",
 [FP,CR,HC]+AEAD,[("Protect / Unprotect",FP)])
prop("C36","Valid AEAD input is never rejected",
 "Encrypt and Decrypt of an AEAD implementation return a non-OK status only if the nonce is not 12 bytes, the output buffer cannot hold the result, the Decrypt input is shorter than a tag, an input component of nonzero length has a null base, or a crypto-library call failed (for Decrypt this includes a tag that does not verify).",
 ["inputs"],"all nonces, chunkings (including empty chunks and zero-length totals) and output-buffer sizes, exact-fit buffers included",
 "Tests accept a few valid inputs; boundary sizes (exact fit, empty plaintext with or without chunks) are sampled.",
 AEAD,[("argument checks",AES),("argument checks",CHO),("argument checks",CHB)])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
