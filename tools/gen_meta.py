#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json.
A property is claimed as soon as harness/cmd/<id lower-case>/main.go exists and it is not in NA."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None,
      technique="", note="", level="exploration"):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=hook),
        _technique=technique, _note=note, _level=level)

S = "core/shared/"
PROPS = [
P("P01", "TO2 tunnel messages decrypt to exactly what was encrypted, or not at all",
  "For every implemented cipher suite and every derived session key, a wrapped message unwraps under the same session to exactly the original bytes, an independently written decoder of the FDO envelope reads it, and envelopes made by that independent encoder are accepted. "
  "Changing the ciphertext, the authentication tag, the IV, the protected header, the session key or the suite never yields bytes that differ from the original: it is an error. "
  "IVs are of the length the suite prescribes and never repeat, and unimplemented suites are refused instead of sending data in another form.",
  ["inputs", "configurations"], "all payload lengths and contents, all session keys, all implemented cipher suites, all single and multi-byte alterations of an envelope",
  "The only test wraps one short payload with one suite and one key; it never looks at altered envelopes, other suites, IV reuse or a second implementation.",
  [S+"enc.crypto.go", S+"ccm/ccm.go"],
  [("AddEncryptionWrapping/RemoveEncryptionWrapping", S+"enc.crypto.go"), ("encryptEMB/decryptEMB", S+"enc.crypto.go"), ("encryptETM/decryptETM", S+"enc.crypto.go"), ("CCM Seal/Open", S+"ccm/ccm.go")],
  observe=["bytes returned by the wrap and unwrap functions", "bytes on the wire in TO2 65..71"],
  technique="runtime differential monitor: real wrap/unwrap calls against an independent envelope codec, with tamper injection and an IV-uniqueness monitor",
  note="Sampled payload lengths (0..64 KiB with block-boundary bias) and tamper positions; the independent codec trusts only Go's crypto/aes, cipher, hmac and fxamacker/cbor."),
P("P02", "Both ends of a key exchange derive the specified, identical session keys",
  "For every key exchange suite and every honest pair of exchanges, device side and owner side derive the same encryption and verification keys, equal to an independent computation of the specified shared secret and key derivation, whatever leading zeros the random values happen to have. "
  "Different sessions get different keys and different exchange parameters. "
  "A share that is not a valid value of its suite (wrong structure or length, out of range, not on the curve, undecryptable) is answered by an error, never by keys or a crash.",
  ["inputs", "configurations"], "all key exchange suites, cipher suites and key pairs, all honest and malformed shares",
  "No test performs a key exchange; leading-zero coordinates occur in about 1 of 128 runs and malformed shares never.",
  [S+"kex.crypto.go", S+"enc.crypto.go"],
  [("GenerateXABKeyExchange", S+"kex.crypto.go"), ("DeriveSessionKey", S+"kex.crypto.go"), ("Sp800108CounterKDF", S+"enc.crypto.go"), ("WrapOAEP/UnwrapOAEP", S+"kex.crypto.go")],
  observe=["shares produced", "derived key material on both sides", "error returned for a bad share"],
  technique="runtime differential monitor of key agreement against independent ECDH/DH/OAEP + SP800-108 code, with crafted leading-zero and malformed shares",
  note="Random and constructed (leading-zero, off-curve, truncated, oversized, wrong-type) shares; finite-field shares and group primes are checked against RFC 3526 recomputed independently."),
P("P03", "Signatures verify exactly for the signing key and the signed bytes",
  "A COSE signature produced with a private key of any supported type verifies with the matching public key, and an independent verifier agrees; signatures from an independent signer, including ones with leading-zero coefficients, are accepted. "
  "Any change of the payload, the protected header, the signature (other than its equivalent ECDSA form) or the key, and any signature of wrong length or checked against a key that is not of its declared kind, is rejected with an error and without a crash. "
  "Two public keys compare equal exactly when type, encoding and key are equal.",
  ["inputs", "configurations"], "all supported key types and encodings, all payloads, all alterations of signature, header, payload or key",
  "The tests sign one message with one key and check one coefficient-padding example; acceptance of wrong keys, algorithms or altered inputs is never exercised.",
  [S+"signing.crypto.go", S+"signing.misc.go", S+"signing.cose.go"],
  [("GenerateCoseSignature", S+"signing.crypto.go"), ("VerifyCoseSignature/VerifySignature", S+"signing.crypto.go"), ("VerifyCertificateChain", S+"signing.crypto.go"), ("FdoPublicKey.Equal", S+"signing.misc.go")],
  observe=["return value of sign and verify", "panics"],
  technique="runtime differential monitor of sign/verify against an independent COSE implementation with mutation injection",
  note="ES256, ES384, RS256 (2048) and RS384 (3072) keys; X5CHAIN and COSE-key encodings only for 'error, no crash' since the tool does not decode them."),
P("P04", "Hashes, HMACs and negotiated algorithms match the FDO specification",
  "A generated hash or HMAC equals the standard function of its declared type over the given data and key, and verification succeeds exactly when the presented value is that value. "
  "A value of a different type, length, key or data, or of an unknown type, is rejected with an error. "
  "The hash and HMAC types chosen for a device follow the specified table for the device and owner key types, and keys generated for an HMAC type have that type's size.",
  ["inputs", "configurations"], "all data, keys and hash types, all alterations of the presented value, all pairs of device and owner key types",
  "No test calls the hash verification or negotiation code.",
  [S+"hashing.crypto.go"],
  [("GenerateFdoHash/GenerateFdoHmac", S+"hashing.crypto.go"), ("VerifyHash/VerifyHMac", S+"hashing.crypto.go"), ("NegotiateHashHmacTypes", S+"hashing.crypto.go")],
  observe=["return values"],
  technique="runtime differential monitor against the Go standard library with value/type/length mutation",
  note="Sampled data and keys; every single-bit and every truncation mutation of each sampled value; the full table of key-type pairs."),
P("P05", "A voucher is accepted exactly when every link in it is genuine",
  "Voucher validation accepts a voucher when version, header, certificate chain hash, per-entry hash chain, device identity hash and all entry signatures are right, as an independent validator decides, and reports the key of the last entry as the owner. "
  "Any alteration is refused: a changed, dropped (a shortened voucher is the previous owner's), duplicated, swapped or re-signed entry, an entry from another voucher, a changed header, HMAC or certificate chain, or a flipped byte anywhere in the signed or hashed parts. "
  "Malformed vouchers give an error, never a crash.",
  ["inputs"], "all well-formed vouchers of every key type and length, and all single and combined alterations of them",
  "No test validates a voucher; the decision depends on every byte of a variable-length linked structure.",
  [S+"voucher.go", S+"signing.crypto.go", S+"hashing.crypto.go"],
  [("OwnershipVoucher.Validate", S+"voucher.go"), ("OVEntryArray.VerifyEntries", S+"voucher.go"), ("GetFinalOwnerPublicKey", S+"voucher.go"), ("ValidateVoucherStructFromCert", S+"voucher.go")],
  observe=["accept/reject of validation", "verdict of the RV on an owner registration carrying the voucher"],
  technique="runtime differential monitor: independent voucher builder and validator versus the real validator under structural and byte mutations",
  note="Byte mutations cover each byte of sampled vouchers; the device HMAC cannot be checked by anyone without the device secret, so header changes are detected through the entry hash chain."),
P("P06", "Generated credentials and vouchers are genuine, and negative ones defective",
  "For every supported key type a generated virtual device and voucher is valid under an independent validator, its HMAC is the device's HMAC over the header, its certificate chain certifies the device's own key, and its private key is the one of the final owner entry. "
  "For every negative voucher test, the generated voucher carries a defect that the independent validator rejects. "
  "Writing a voucher, key or device credential to its file or PEM form and reading it back gives an equal value, and two generated devices never share identity or keys.",
  ["inputs", "configurations"], "all device and owner key types, all voucher test identifiers, all generated credentials",
  "No test generates a voucher; whether a generated negative vector is really defective depends on random choices in each generation.",
  ["core/device/genvoucher.go", "core/device/genvoucher_with_provided_keys.go", "core/device/common/common.go", S+"distuff.go", S+"conformance.go", "dbs/devicebase.db.go"],
  [("NewVirtualDeviceAndVoucher", "core/device/genvoucher.go"), ("NewVirtualDeviceAndVoucherWithKeys", "core/device/genvoucher_with_provided_keys.go"), ("MarshalVoucherAndPrivateKey/DecodePemVoucherAndKey", "core/device"), ("NewWawDeviceCredential", S+"distuff.go")],
  observe=["generated structures", "files written", "database entries"],
  technique="runtime monitor: every generated object is fed to the independent voucher validator; repeated generation per test id",
  note="Repeated draws for each key type and each voucher test id; probability-zero identity collisions are checked over all draws of the run."),
P("P07", "The rendezvous registers a redirect only for the proven owner",
  "The rendezvous accepts an owner registration exactly when the voucher is valid, the nonce is the one it issued in this session, the redirect blob is signed by the voucher's final owner key, and the blob's hash matches the presented registration data. "
  "On acceptance it confirms a waiting time that does not exceed the requested one, and stores precisely that blob under the voucher's GUID until the time is over, the latest accepted registration winning. "
  "A rejected registration, or one replayed in another session, changes nothing that is stored.",
  ["inputs", "histories"], "all registrations, honest and altered, in all orders over several devices, owners and sessions",
  "No test contacts the rendezvous server.",
  ["core/rv/listener-to0.go", "core/rv/ownersign.db.go", "core/rv/session.db.go"],
  [("Handle20Hello", "core/rv/listener-to0.go"), ("Handle22OwnerSign", "core/rv/listener-to0.go"), ("OwnerSignDB.Save", "core/rv/ownersign.db.go")],
  observe=["HTTP response of messages 20 and 22", "what TO1 later hands out"],
  state=[("registration table", "GUID -> redirect blob with time to live", "core/rv/ownersign.db.go")],
  technique="online trace monitor: independent TO0/TO1 clients drive the real server, a model of the registration table predicts each answer",
  note="Randomised histories over several GUIDs, owners and sessions with named alterations of each field; the owner's key types P-256, P-384, RSA."),
P("P08", "The rendezvous releases a redirect only to the device it is meant for",
  "The rendezvous hands out a redirect blob only to a client that, in its own session, signs the issued nonce and the GUID with the device key certified in the registered voucher, and the blob is byte for byte what the owner registered. "
  "A wrong key, nonce, GUID, signature, an expired or never registered GUID, or a skipped first message gives an error and no blob. "
  "An attempt never affects other sessions or devices.",
  ["inputs", "histories"], "all proofs, honest and altered, over interleaved sessions and devices",
  "No test contacts the rendezvous server.",
  ["core/rv/listener-to1.go", "core/rv/session.db.go"],
  [("Handle30HelloRV", "core/rv/listener-to1.go"), ("Handle32ProveToRV", "core/rv/listener-to1.go")],
  observe=["HTTP response of messages 30 and 32"],
  technique="online trace monitor: independent TO1 client with field-level alterations against the real server, model-predicted answers",
  note="Randomised interleaved sessions; each alteration is generated for every device key type."),
P("P09", "Onboarding steps succeed only in protocol order and within one session",
  "The owner service answers an onboarding message with its protocol response only when the session identified by its token has completed the preceding steps; every other order, repetition after completion, foreign or invented token gives a protocol error and leaks no secret-protected content. "
  "Messages of one session never affect the outcome, entries, keys or service info of another. "
  "The final message is answered only if it carries the nonce that session issued for the proof. A session that follows the protocol to the end always succeeds, for every key type, key exchange and cipher suite.",
  ["histories", "schedules", "configurations"], "all message sequences over several concurrent sessions, all suite combinations",
  "No test runs the protocol; orderings grow exponentially and a session needs its own keys to be driven.",
  ["core/do/to2/common.go", "core/do/to2/listener-to2-60-HelloDevice.go", "core/do/to2/listener-to2-62-GetOVNextEntry.go", "core/do/to2/listener-to2-64-ProveDevice.go", "core/do/to2/listener-to2-66-DeviceServiceInfoReady.go", "core/do/to2/listener-to2-68-DeviceServiceInfo.go", "core/do/to2/listener-to2-70-Done.go", "core/do/dbs/session.db.go"],
  [("receiveAndVerify/receiveAndDecrypt", "core/do/to2/common.go"), ("previous-command checks", "core/do/to2/listener-to2-*.go"), ("SessionDB", "core/do/dbs/session.db.go")],
  observe=["HTTP response type of each message", "decrypted contents"],
  state=[("session entry", "protocol progress and keys of a TO2 session", "core/do/dbs/session.db.go")],
  technique="online trace-specification monitor: an independent TO2 client issues random and exhaustive short orderings over interleaved sessions, a protocol automaton predicts each answer",
  note="All ordered prefixes of bounded length for one session plus random interleavings of several; all kex x cipher x key-type combinations are completed at least once in the thorough tier."),
P("P10", "Onboarding proceeds only for the device that owns the voucher",
  "The owner service moves past device proof only if the proof is signed by the device key certified in the voucher, repeats the nonce issued in that session, names the device's identity, and carries a usable key exchange share. "
  "Every alteration of these is answered by a protocol error, and afterwards none of the protected steps of that session succeeds. "
  "Message contents that do not decrypt under the session's keys are never acted on.",
  ["inputs", "histories"], "all proofs and all alterations of them, for every key type and suite",
  "No test runs the protocol; an impostor must sign and encrypt correctly in everything but the altered field.",
  ["core/do/to2/listener-to2-64-ProveDevice.go", "core/do/to2/common.go"],
  [("ProveDevice64", "core/do/to2/listener-to2-64-ProveDevice.go"), ("receiveAndDecrypt", "core/do/to2/common.go")],
  observe=["response to message 64", "responses to 66/68/70 afterwards"],
  technique="online monitor with fault injection: independent impostor clients alter one field of the proof at a time, oracle requires refusal and a dead session",
  note="Each named alteration for each device key type and a sampled kex/cipher; tampered tunnel frames for each cipher suite."),
P("P11", "The owner service proves ownership and presents the voucher truthfully",
  "What the owner service sends is what an honest device must check: the header, the entry count, HMAC, nonce, and hash of the hello message come signed by the voucher's final owner key; entries come back unchanged under their index, out-of-range ones are refused; a setup message proves the same owner key with the session's nonce and keeps GUID and rendezvous information; and the final message returns the nonce the device sent. "
  "A hello for an unknown device GUID, or naming a key exchange or signature type that does not exist, is refused, and every issued nonce and key share is fresh.",
  ["inputs", "histories", "configurations"], "all vouchers, nonces, suites and request orders",
  "No test runs the protocol against the service.",
  ["core/do/to2/listener-to2-60-HelloDevice.go", "core/do/to2/listener-to2-62-GetOVNextEntry.go", "core/do/to2/listener-to2-64-ProveDevice.go", "core/do/to2/listener-to2-70-Done.go", "core/do/dbs/voucher.db.go"],
  [("HelloDevice60", "core/do/to2/listener-to2-60-HelloDevice.go"), ("GetOVNextEntry62", "core/do/to2/listener-to2-62-GetOVNextEntry.go"), ("ProveDevice64 response", "core/do/to2/listener-to2-64-ProveDevice.go"), ("Done70 response", "core/do/to2/listener-to2-70-Done.go")],
  observe=["messages 61, 63, 65, 71 decoded independently"],
  technique="online monitor: an independent device client checks every field of every response against the installed voucher",
  note="All key types, kex and cipher suites sampled (complete in thorough), entries requested in random order with repetition and out-of-range indices."),
P("P12", "Service info is exchanged once, in order, complete and to the right device",
  "During onboarding every module message of the device reaches the owner exactly once and in order however it is split, and the exchange finishes only if all mandatory device information was supplied and well-formed; otherwise it is refused. "
  "The owner sends each of its module messages exactly once, in order, flags the last with completion, and refuses further rounds. "
  "Owner module data configured for one device is never sent to another.",
  ["inputs", "histories", "configurations"], "all splits and orders of module messages, all omissions, all device-to-token configurations",
  "The one test validates a single fixed list; it does not exchange messages, omit values, or use configuration mappings.",
  ["core/do/to2/listener-to2-68-DeviceServiceInfo.go", "core/do/to2/common.go", S+"sims.tools.go", S+"sims.reg.go"],
  [("DeviceServiceInfo68", "core/do/to2/listener-to2-68-DeviceServiceInfo.go"), ("ValidateDeviceSIMs", "core/do/to2/common.go"), ("GetOwnerSIMs", "core/do/to2/common.go"), ("DecodeSims", S+"sims.tools.go")],
  observe=["messages 68/69 decoded by the independent client"],
  technique="offline exactly-once/order checker over recorded 68/69 exchanges driven by an independent client with random chunking and omissions",
  note="Random chunkings and every single omission; configurations with several mapped and unmapped devices."),
P("P13", "The device and owner clients refuse a server that lies",
  "The built-in device and owner clients accept a server only if everything the server says is consistent: signature by the voucher's owner key, correct nonces, header HMAC under the device secret, hello hash, a valid entry chain ending in that owner, tunnel integrity, and confirming final nonce. "
  "When a server alters any of these, answers with an error, the wrong message type, an unreadable or an empty body, the client returns an error; it never reports success and never crashes. "
  "An honest independent server is always accepted.",
  ["inputs", "histories"], "all server answers, honest and altered at each step",
  "No test talks to a server, and the bundled server never lies.",
  ["core/device/to1/req-to1-30-HelloRV.go", "core/device/to1/req-to1-32-ProveToRV.go", "core/device/to2/req-to2-60-HelloDevice.go", "core/device/to2/req-to2-62-GetOVNextEntry.go", "core/device/to2/req-to2-64-ProveDevice.go", "core/device/to2/req-to2-66-DeviceServiceInfoReady.go", "core/device/to2/req-to2-68-DeviceServiceInfo.go", "core/device/to2/req-to2-70-Done.go", "core/do/to0/req-to0-20-Hello.go", "core/do/to0/req-to0-22-OwnerSign.go", S+"comms.go"],
  [("To1Requestor", "core/device/to1"), ("To2Requestor", "core/device/to2"), ("To0Requestor", "core/do/to0"), ("SendCborPost", S+"comms.go")],
  observe=["client return values"],
  technique="runtime monitor with fault injection: independent scripted rendezvous/owner servers alter one field at a time, oracle on the client's verdict",
  note="Each named alteration at each step; clients run in the harness process so that a crash is observed as such."),
P("P14", "No received bytes can crash a service; the answer is always a protocol error",
  "Whatever bytes a client sends to any protocol endpoint, in any state of a session and with any token, the service returns a response: either the protocol's answer or a well-formed protocol error naming an error code and the message it answers. "
  "A body, or a signed or encrypted content inside it, that is not exactly one well-formed CBOR item (cut short, or followed by further bytes) gets the error. "
  "No request aborts the connection, leaks a crash, or leaves the service unable to complete a following honest onboarding.",
  ["inputs", "histories"], "all byte strings, structured CBOR mutations, tokens and session states for messages 20..70",
  "Only well-formed data appears in the tests, and none is sent to a server.",
  ["core/rv/listener-to0.go", "core/rv/listener-to1.go", "core/do/to2/common.go", "core/do/to2/listener-to2-60-HelloDevice.go", "core/do/to2/listener-to2-64-ProveDevice.go", S+"cbor.go", S+"enc.crypto.go", S+"kex.crypto.go", S+"signing.crypto.go", S+"voucher.go", S+"error.go"],
  [("request handlers", "core/rv, core/do/to2"), ("RespondFDOError", S+"transport.go"), ("decoders", S+"cbor.go")],
  observe=["HTTP response", "recovered panics"],
  technique="structure-aware runtime fuzzing of live handlers with a panic monitor and a well-formed-error oracle",
  note="CBOR-tree mutations of valid messages (replaced, dropped, retyped, nulled, truncated nodes), including re-signed and re-encrypted ones, plus raw bytes."),
P("P15", "Every protocol endpoint keeps the FDO HTTP contract",
  "Protocol endpoints accept only POST requests of the CBOR content type with, after the first message, a bearer token; anything else gets an error status. "
  "A successful answer has status 200, the CBOR content type, the message type number that follows the request, a decodable body and the session's token; an error answer has the error message type, a client or server error status and a well-formed error body that names the answered message. "
  "The endpoint of one message never answers as another.",
  ["inputs", "configurations"], "all methods, content types, headers, tokens and message types on all protocol endpoints",
  "No test makes an HTTP request.",
  [S+"transport.go", S+"comms.go", "core/rv/server.go", "core/do/server.go", S+"error.go"],
  [("CheckHeaders", S+"transport.go"), ("ExtractAuthorizationHeader", S+"transport.go"), ("RespondFDOError", S+"transport.go"), ("SetupServer", "core/rv/server.go, core/do/server.go")],
  observe=["raw HTTP requests and responses"],
  technique="raw-HTTP contract monitor over every response of generated request variations",
  note="Cross product of methods, content types, authorisation forms and endpoints, plus the passive monitor on all traffic of an honest onboarding."),
P("P16", "Protocol sessions are unique, private to their protocol, and expire",
  "Every started session gets a new unpredictable token and new nonces; tokens and nonces never repeat. "
  "A token issued by one protocol is worthless at another, and an unknown, malformed or expired token never opens a session. "
  "A session lives for a bounded time from its creation, no matter how often it is used.",
  ["histories", "inputs"], "all sequences of session creation, use and passage of time across the protocols",
  "No test creates a session.",
  ["core/rv/session.db.go", "core/do/dbs/session.db.go", "dbs/session.db.go", S+"transport.go"],
  [("SessionDB New/Update/Get", "core/rv/session.db.go, core/do/dbs/session.db.go"), ("ExtractAuthorizationHeader", S+"transport.go")],
  observe=["tokens and nonces in responses", "expiry recorded in the store"],
  state=[("session table", "token -> session, with time to live", "core/rv/session.db.go, core/do/dbs/session.db.go")],
  technique="runtime monitor over recorded tokens, nonces and stored expiry times; cross-protocol replay of tokens",
  note="Expiry is read from the store's own entry metadata rather than waited for; uniqueness over all sessions of the run."),
P("P17", "Concurrent devices, owners and users do not disturb each other",
  "Any number of onboardings, rendezvous registrations and test-management calls running at the same time each end exactly as they would alone: every honest run completes with its own data, every dishonest one is refused, and nothing recorded is lost, duplicated or mixed. "
  "No data race occurs in the running program.",
  ["schedules"], "all interleavings of concurrent protocol and management requests",
  "The tests are sequential and do not start the services.",
  ["core/rv/session.db.go", "core/do/dbs/session.db.go", "core/do/to2/common.go", "core/shared/testcom/dbs/reqt.db.go", "core/shared/testcom/dbs/listener.db.go", "api/testapi/rv.api.go", "seeding.setup.go"],
  [("badger transactions", "core/do/dbs, core/rv, dbs, core/shared/testcom/dbs"), ("per-request state", "core/rv, core/do/to2")],
  observe=["race detector reports", "per-client outcome log"],
  technique="race detector build under stress, with an offline per-client outcome and conservation checker",
  note="Go race detector on the real packages under 16..64 concurrent independent clients with injected delays; distinct interleavings are counted from the event log."),
P("P18", "The conformance verdict tells a conforming server from a broken one",
  "When the tool tests a server, each negative test sends a request that is defective in the tested message. It passes exactly if the server answers with an error status and a decodable FDO error message, and fails if the server accepts, reports the error with a success status or without a proper error message, or drops the connection. "
  "A positive test passes exactly if every answer it got is correct. "
  "A server that violates the tested behaviour never gets a pass for it, and a conforming one never a fail, even if it ends the session at the first error. "
  "Every test of a run gets exactly one verdict under its own identifier unless an earlier one failed.",
  ["inputs", "histories"], "all test identifiers against all server behaviours",
  "No test runs a conformance test; the verdict depends on the server's response to a randomly mutated message.",
  [S+"testcom/methods.go", S+"testcom/common.go", "core/do/to0/common.go", "core/do/to0/req-to0-22-OwnerSign.go", "core/device/to1/to1-common.go", "core/device/to1/req-to1-32-ProveToRV.go", "core/device/to2/to2-common.go", "core/device/to2/req-to2-64-ProveDevice.go", S+"conformance.go", "testexec/rvt.to0.execute.go", "testexec/rvt.to1.execute.go", "testexec/do.to2.60.execute.go"],
  [("confCheckResponse", "core/do/to0, core/device/to1, core/device/to2"), ("ExpectFdoError", S+"testcom/methods.go"), ("Conf_* mutators", S+"conformance.go")],
  observe=["recorded verdict per test id", "mutated request as seen by a scripted server"],
  technique="runtime oracle: scripted conforming and misbehaving servers, verdicts compared with what the server actually did; an independent decoder confirms that each negative request is really defective",
  note="All test identifiers of TO0, TO1 and TO2 against a strict conforming server and one that answers defective requests in 14 and correct ones in 15 wrong ways; each verdict is related to the requests seen before it."),
P("P19", "Conformance runs are recorded completely, and end",
  "Starting a server test run creates exactly one new run, newest first, in progress; each reported verdict is stored under its test and run; the run is marked finished when execution ends for any reason, also when the server is unreachable or breaks off. "
  "Finishing or deleting one run leaves all others untouched, deleting removes exactly the named run, and reporting to a removed run harms nothing.",
  ["histories", "fault_sequences"], "all sequences of start, report, finish, delete and server failures",
  "No test records a run.",
  [S+"testcom/dbs/reqt.db.go", S+"testcom/request/rvt.db.go", "testexec/rvt.to0.execute.go", "testexec/rvt.to1.execute.go", "testexec/do.to2.execute.go"],
  [("RequestTestDB", S+"testcom/dbs/reqt.db.go"), ("Execute*", "testexec")],
  observe=["stored run history"],
  technique="model-based runtime monitor of the run store, plus fault injection into the server under test during real executions",
  note="Random operation histories against a reference model; servers that drop, stall briefly, truncate or refuse at each step."),
P("P20", "Device test runs advance by the rules and record the right verdict",
  "When the tool plays the server for a device under test, the tests of each step are posed in the listed order, each bad answer really carries the defect its test names, and every test gets one verdict which reflects what the device did next (starting over after a bad answer passes; going on to a later step, or sending a message the server has to refuse, fails). A step ends only with its positive test, messages of finished steps are answered honestly, and a run completes only when all steps are done. "
  "Runs are listed newest first, at most one is active, a new run starts from the first step, and deleting a run removes precisely that one.",
  ["histories"], "all device behaviours over all steps and runs",
  "No test drives a listener.",
  [S+"testcom/listener/listenert.db.go", S+"testcom/listener/testrun.go", S+"testcom/listener_testdir.go", "core/do/to2/listener-to2-60-HelloDevice.go", "core/rv/listener-to1.go", S+"testcom/dbs/listener.db.go"],
  [("RequestListenerRunnerInst", S+"testcom/listener/listenert.db.go"), ("listener branches of the handlers", "core/do/to2, core/rv")],
  observe=["stored listener runs", "responses to a scripted device"],
  technique="model-based runtime monitor: an independent automaton of the test run is compared with everything the tool lists after every step of random device histories over HTTP, and every answer is checked for the defect the automaton says is posed",
  note="Not judged: messages that cannot be decoded or decrypted at all, and asking for another voucher entry in the same session, which the tool takes as a fresh attempt."),
P("P21", "The bundled services and device pass the bundled conformance suite",
  "Executing the tool's rendezvous, onboarding and device test suites against its own rendezvous, onboarding service and virtual device gives a recorded verdict for every test of the suite, and every verdict is a pass. "
  "This holds for every key type, repeatedly, and no execution makes a later one fail.",
  ["configurations", "histories"], "all suites, key types and repeated executions with random mutations",
  "The suites are never executed by the tests; they use random mutations so that one success is no guarantee.",
  ["testexec/rvt.to0.execute.go", "testexec/rvt.to1.execute.go", "testexec/do.to2.execute.go", "testexec/do.to2.60.execute.go", "testexec/do.to2.62.execute.go", "testexec/do.to2.64.execute.go", "testexec/do.to2.66.execute.go", "testexec/do.to2.68.execute.go", "testexec/do.to2.70.execute.go", S+"testcom/req_testdir.go"],
  [("Execute*", "testexec"), ("handlers", "core/rv, core/do/to2")],
  observe=["stored verdicts"],
  technique="repeated end-to-end execution of the real suites against the real services with a completeness oracle over recorded verdicts",
  note="Several repetitions with different random mutations; completeness is judged against the published list of test identifiers."),
P("P22", "Management calls need a login and reach only the caller's own tests",
  "Every test management call without a valid session cookie is refused and changes nothing. "
  "A logged-in user can list, execute, read vouchers of, start or delete only tests registered to that user; another user's identifiers are treated as not existing and the other user's data is unchanged. "
  "After logout or purge the session, respectively the tests, are gone while other sessions and users are untouched.",
  ["inputs", "histories"], "all calls, users, identifiers and session states",
  "No test calls the management API.",
  ["api/testapi/rv.api.go", "api/testapi/do.api.go", "api/testapi/device.api.go", "api/user.other.api.go", "api/user.auth.api.go", "dbs/user.structs.db.go", "dbs/session.db.go", "dbs/user.db.go"],
  [("checkAutzAndGetUser", "api/testapi"), ("isLoggedIn", "api/user.other.api.go"), ("*_ContainID", "dbs/user.structs.db.go")],
  observe=["API responses", "stored user entries before and after"],
  technique="online monitor: multi-user random call histories against the real API, access-control model plus store snapshots before/after",
  note="All routes x {no cookie, garbage cookie, logged out, expired, other user, owner}."),
P("P23", "Management calls validate input and report what is stored",
  "Management calls with malformed bodies, URLs that are not a plain http(s) host and optional port, unsupported or damaged keys and vouchers, unknown test identifiers, or wrong methods and content types are refused with an error and change nothing; so do creations that fail half way. "
  "Creating a test or device adds exactly that one entry at the end of the list, later listed with its name, URL, runs and verdicts as stored, together with a usable voucher that belongs to the given key (owner service test) or a device known to rendezvous and owner service (device). "
  "A listing never invents, drops or reorders entries, and the overall success of a rendezvous test is shown exactly if the latest runs of both protocols have ended with at least one verdict and only passed ones.",
  ["inputs", "histories"], "all request bodies and call sequences",
  "No test calls the management API.",
  ["api/testapi/rv.api.go", "api/testapi/do.api.go", "api/testapi/device.api.go", "api/testapi/rv.structs.api.go", "api/commonapi/common.go", S+"testcom/request/rvt.db.go"],
  [("Generate/List/GetVouchers/Execute", "api/testapi"), ("CheckHeaders", "api/commonapi/common.go"), ("PassingAllTests", S+"testcom/request/rvt.db.go")],
  observe=["API responses", "database contents"],
  technique="model-based runtime monitor of the API with generated valid and invalid bodies",
  note="Random call histories; the listing is compared with a model and with an independent reading of the store."),
P("P24", "What was acknowledged survives restart and crash",
  "Vouchers, credentials, rendezvous registrations, sessions, users, configurations and test results that a call has acknowledged are read back equal after the store is closed and reopened, and after the process is killed at any moment. "
  "Reading an absent or foreign key reports absence, never another kind's entry, and saving or deleting one entry leaves all others as they are, and a reset command removes all entries of its kind and nothing else. "
  "When the store refuses a write or a read in the middle of a protocol message or a management call, the answer is an error unless everything the caller was told happened did; nothing crashes, lists stay readable, and the next attempt works.",
  ["crash_points", "histories"], "all write histories, all kill points between and during writes, every single failing store access",
  "No test opens the database.",
  ["core/do/dbs/voucher.db.go", "core/do/dbs/session.db.go", "core/rv/ownersign.db.go", "dbs/user.db.go", "dbs/config.db.go", "dbs/devicebase.db.go", S+"testcom/dbs/reqt.db.go", S+"testcom/dbs/listener.db.go"],
  [("Save/Get of each store", "core/do/dbs, core/rv, dbs, core/shared/testcom/dbs")],
  observe=["values read back", "acknowledgement log of the killed process"],
  technique="crash injection (SIGKILL of a real writer process at seeded points) with an offline checker of acknowledged writes against the reopened store; fault injection into the k-th store access of every message and call",
  note="Kill -9 of the process, not power loss: the kernel keeps written pages. Kill points are seeded by operation count."),
P("P25", "Rendezvous information maps to exactly the addresses it names",
  "Mapping rendezvous instructions gives, for owner and for device, exactly the addresses, ports, protocols and options the specification assigns: flags restrict a directive to their side, each side uses its own port, repeated or ill-typed instructions are refused. "
  "A URL turned into rendezvous information and back is the same address, for host names, IPv4 and IPv6 and with or without a port; unusable URLs are refused.",
  ["inputs"], "all instruction lists and URLs",
  "No test maps rendezvous information.",
  [S+"rvinfo.go", S+"other.go", S+"to0.go"],
  [("NewMappedRVInfo/NewMappedRVDirective", S+"rvinfo.go"), ("GetOwnerUrls/GetOwnerOnly/GetDevOnly", S+"rvinfo.go"), ("UrlToRvDirective/UrlToTOAddrEntry", S+"other.go"), ("FdoIPAddress", S+"other.go")],
  observe=["mapped structures and URLs"],
  technique="runtime differential monitor against an independent mapping of generated instruction lists and URLs",
  note="Random directives over all variables with well- and ill-typed values; random URLs."),
P("P26", "Seeding provides enough distinct device identities for every test batch",
  "Seeding stores a full set of distinct device identities for each offered key type, each retrievable as a working credential of that type under its own GUID. "
  "Selecting a batch or a random selection from a list gives as many entries as asked for and available, all from the list, without repetition, and never fails or crashes for any size. "
  "Seeding again keeps the store usable.",
  ["inputs", "configurations"], "all list lengths, batch sizes and seed sizes",
  "No test seeds or selects a batch.",
  ["seeding.setup.go", S+"other.go", "dbs/config.db.go", "dbs/devicebase.db.go"],
  [("PreSeed/SeedRunInst", "seeding.setup.go"), ("GetRandomBatch/GetRandomSelection/GetTestBatch", S+"other.go")],
  observe=["selected lists", "database after the seed command"],
  technique="runtime monitor: set-theoretic oracle over generated selections and over the database left by the real seed command",
  note="All list lengths and sizes in a bounded square plus random larger ones; the seed command is run as the real program in a scratch directory."),
P("P27", "The command line tool completes a whole onboarding on its own",
  "With the program alone, generating a device, loading its voucher, registering it at the running rendezvous, and running both device protocols end in reported success with an address that was registered, for however many vouchers. "
  "Commands given missing, unreadable or inconsistent inputs, or a server that refuses, report an error and do not claim success. "
  "Voucher files converted or decoded by the tool keep their content.",
  ["configurations", "inputs", "histories"], "all command sequences with honest and broken inputs and key types",
  "No test runs the program.",
  ["main.go", "core/device/genvoucher.go", "core/device/common/common.go", "core/device/to2/req-to2-70-Done.go", "core/rv/server.go", "core/do/server.go"],
  [("cli commands", "main.go")],
  observe=["output of the program", "files and database it leaves"],
  technique="end-to-end runtime monitor of the real binary in a scratch directory, oracle over outputs, files and an independent voucher decoder",
  note="The binary is built from the current tree; loopback servers on ephemeral or fixed free ports; key types as the generator draws them."),
P("P28", "Interop reporting tells the dashboard exactly what was completed",
  "With interop reporting configured, every accepted registration (23), redirect (33) and finished onboarding (71), every registration the owner's own client completes, and every onboarding the device program completes with a token it was given, is reported to the dashboard once, with that device's GUID, the protocol, that session's nonce and the reporting component's credential. "
  "A device mapped to an account is given that account during onboarding, and no other device is. Refused, unfinished or ill-formed exchanges and deliberately defective conformance answers are never reported, and without interop reporting nothing is sent. "
  "What the dashboard answers, or that it cannot be reached, changes no protocol answer and no reported success.",
  ["inputs", "histories", "schedules", "configurations"], "all session histories, concurrent clients and dashboard behaviours",
  "No test configures a dashboard.",
  [S+"interop.go", "core/rv/listener-to0.go", "core/rv/listener-to1.go", "core/do/to2/listener-to2-70-Done.go", "core/do/to0/req-to0-22-OwnerSign.go", "core/do/to2/common.go", "main.go"],
  [("SubmitIopLoggerEvent/IopGetAuthz", S+"interop.go"), ("Handle32ProveToRV", "core/rv/listener-to1.go"), ("Handle22OwnerSign", "core/rv/listener-to0.go"), ("iop to2", "main.go")],
  observe=["requests at a stand-in dashboard", "protocol answers", "output of the program"],
  technique="runtime monitor: offline comparison of the dashboard's event log with the multiset of completed exchanges seen on the wire",
  note="Concurrent honest, defective, repeated and abandoned sessions against dashboards that accept, fail, answer junk, cut the connection, are slow or gone; a dashboard that never answers is not explored."),
]

NA = {}   # id -> reason

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in NA:
            na.append(dict(property=i, reason=NA[i])); continue
        if not os.path.exists(os.path.join(ROOT, "harness", "cmd", i.lower(), "main.go")):
            na.append(dict(property=i, reason="machinery not built yet")); continue
        checks.append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=p["_technique"], level=p["_level"], level_note=p["_note"]))
    m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
        notes="All checks: bin/check <id> <tier>; harness is a Go module in harness/ that replaces the module under test with /repo and is rebuilt on every run. Known findings: known-findings.txt.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
    print("properties", len(PROPS), "claimed", len(checks))
main()
