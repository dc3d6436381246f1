#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the source of the property texts).
import json,os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

p("C01","Login state is one per-token fact that every session reports the same way",
"After every sequence of open, close, close-all, login, logout and (re)initialization calls, every live session reports exactly the PKCS#11 state implied by its read-only/read-write kind and by who is currently logged in to its token (nobody, User or SO), and the session counts reported for the token equal the live sessions. Illegal transitions (a second login, SO login while a read-only session exists, a read-only open while SO is logged in, logout when not logged in, a dead session handle) fail with the code PKCS#11 assigns to them and change nothing. Session handles are never reused while the library stays initialized, and closing the last session of a token logs its user out.",
["histories"],"all finite histories of session/login calls over one token with any number of concurrent sessions, on both storage kinds",
"The tests walk a few fixed login sequences; the claim ranges over every interleaving of opens, logins and closes, where state is duplicated between token and session and can drift.",
["src/session.rs","src/slot.rs","src/fns/sessmgmt.rs","src/token.rs"],
[("session creation decides the initial state","src/session.rs Session::new"),("login/logout propagate to all sessions","src/slot.rs change_session_states / src/fns/sessmgmt.rs"),("session handle allocation","src/lib.rs State::new_session")],
["C_GetSessionInfo","C_GetTokenInfo","C_OpenSession/C_CloseSession/C_Login/C_Logout return codes"])

p("C02","Only the current PIN authenticates; failures are counted and lock durably",
"A login, or a PIN change (which needs the old PIN), succeeds exactly when the supplied PIN equals the PIN currently set for that role and the role is not locked; after any history of PIN set, change, failed and successful attempts, logouts and restarts, no other PIN (old, truncated, extended, of the other role) is ever accepted, and PINs outside the advertised length bounds are refused. On an SQLite token every failed attempt is counted durably across restarts, a success resets the count, and once the limit is reached the role stays locked even for the right PIN until it is reset by the means PKCS#11 gives; the token flags (PIN initialized, count low, final try, locked) tell exactly that state. A refused PIN operation leaves the PINs, the login state and the stored objects as they were.",
["histories","inputs"],"all histories of InitToken/InitPIN/SetPIN/Login/Logout/restart with arbitrary right and wrong PINs, on SQLite and NSS storage",
"Tests try one or two wrong PINs in one order; caches of derived keys, counters and re-encryption on PIN change are only wrong after particular histories (success, logout, then wrong PIN; wrong tries split over a restart).",
["src/storage/aci.rs","src/storage/nssdb/mod.rs","src/storage/nssdb/ci.rs","src/token.rs","src/fns/stmgmt.rs"],
[("PIN verifier and attempt counter","src/storage/aci.rs StorageAuthInfo / StorageACI::authenticate"),("NSS password check and key cache","src/storage/nssdb/ci.rs KeysWithCaching, src/storage/nssdb/mod.rs check_user_password"),("PIN change","src/token.rs Token::set_pin")],
["C_Login/C_SetPIN/C_InitPIN return codes","C_GetTokenInfo flags","C_GetSessionInfo state"])

p("C03","Private objects are invisible and untouchable without the User logged in",
"While the normal User is not logged in to a token, no call on any session (including ones opened before a logout, by the SO, with handles learned earlier, or naming the object as key, wrapping or wrapped key, copy source or search match) finds, reads, sizes, uses, changes, copies or destroys a private token object, and no private token object can be created. Logout destroys private session objects in every session, and no handle ever starts to denote a different object. Public objects stay reachable throughout.",
["histories"],"all histories interleaving login/logout/restart with every object-consuming call over mixtures of private/public token/session objects",
"Each entry point must apply the check itself; tests exercise a few entry points in one login state, not the product of (call, handle provenance, login history).",
["src/token.rs","src/fns/objmgmt.rs","src/storage/sqlite_common.rs","src/storage/format.rs","src/storage/nssdb/mod.rs"],
[("private check on object access","src/token.rs get_object_by_handle / get_object_attrs"),("implicit CKA_PRIVATE=false search filter","src/token.rs search_objects"),("logout cleanup","src/token.rs logout / clear_private_session_objects")],
["C_FindObjects","C_GetAttributeValue","C_GetObjectSize","C_*Init with the handle","C_DestroyObject"])

p("C04","Secret bytes of sensitive or unextractable keys never cross the API",
"For a key whose CKA_SENSITIVE is true or whose CKA_EXTRACTABLE is false, no sequence of calls returns any of its secret or private components in the clear, whether by reading attributes, by copying it (with any template), by searching on its value, or through keys derived from it or generated with it; a key with CKA_EXTRACTABLE false cannot be wrapped at all. The same holds for keys obtained from generation, import, unwrap, derivation and copy, on session and token storage and after a restart, and a mixed attribute query reports each non-revealable attribute as unavailable while still answering the others.",
["histories","inputs"],"all object classes and key types, every secret attribute of each, every origin of the key and every later sequence of set/copy/derive/wrap/search/read calls",
"Tests read back one sensitive attribute of a key or two; leaks live in the products (attribute x key type x origin x copy template).",
["src/object/mod.rs","src/object/factory.rs","src/object/key.rs","src/token.rs","src/storage/sqlite_common.rs"],
[("attribute-level sensitivity","src/object/factory.rs get_object_attributes / is_sensitive"),("copy rules","src/object/factory.rs default_copy"),("wrap eligibility","src/object/key.rs export_for_wrapping, src/fns/keymgmt.rs wrap_key")],
["C_GetAttributeValue","C_CopyObject","C_FindObjects","C_WrapKey"])

p("C05","A key is only usable for what its class, type and attributes allow",
"An operation on a key starts only if the key's class and type fit the mechanism, the usage attribute for that operation is true on the key, the mechanism is in the key's CKA_ALLOWED_MECHANISMS when that list is present and non-empty, and, for wrapping a key marked CKA_WRAP_WITH_TRUSTED, the wrapping key is trusted (which the user can not make it); otherwise it fails with a key or mechanism error and no operation becomes active. A private key whose CKA_ALWAYS_AUTHENTICATE is true signs or decrypts only if the user performed a context-specific login with the right PIN for that very operation; a context-specific login for one operation, or for an operation that was replaced or cancelled, never authorises another. These rules hold alike for session keys, token keys, copies and keys reloaded after a restart.",
["inputs","histories"],"all (mechanism, operation, key class/type, usage flags, allowed-mechanism list) combinations, and all histories of init / context login / operation / cancel calls",
"The space is a product of about a dozen operations, dozens of mechanisms and all flag settings; tests check the allowed diagonal.",
["src/fns/encryption.rs","src/fns/signing.rs","src/fns/keymgmt.rs","src/object/key.rs","src/mechanism.rs","src/session.rs"],
[("usage checks","src/object/mod.rs check_key_ops"),("allowed mechanisms","src/fns/mod.rs check_allowed_mechs"),("per-operation login","src/session.rs check_login_status")],
["C_*Init and C_WrapKey/C_UnwrapKey/C_DeriveKey return codes","C_Sign/C_Decrypt after context login"])

p("C06","Attribute rules: provenance can not be forged, protections can not be undone",
"The library alone decides CKA_LOCAL, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE and CKA_KEY_GEN_MECHANISM, and reports them according to how the key came to be (generated, imported, unwrapped, derived, copied); a user can never make a key look more trustworthy than its history. CKA_SENSITIVE, CKA_WRAP_WITH_TRUSTED never go from true to false and CKA_EXTRACTABLE, CKA_COPYABLE, CKA_DESTROYABLE never regain true once false, by any set or copy, nor CKA_MODIFIABLE by any set (a copy may choose it); class, key type and key material never change after creation; CKA_MODIFIABLE, CKA_COPYABLE and CKA_DESTROYABLE false forbid the respective call. A rejected creation, copy or modification changes nothing at all, and templates that are inconsistent, incomplete, or carry attributes foreign to the class are rejected.",
["histories","inputs"],"all creation routes and all sequences of set/copy with arbitrary templates, for all object classes",
"Tests set one attribute at a time on one class; the rules are per attribute, per class and per route and only fail in particular combinations or after a partially applied template.",
["src/object/factory.rs","src/object/key.rs","src/object/mod.rs","src/token.rs","src/fns/objmgmt.rs"],
[("attribute flag tables","src/object/factory.rs OAFlags, attr_element!"),("set rules","src/object/factory.rs check_set_attributes"),("copy rules","src/object/factory.rs default_copy"),("generated/unwrapped/derived defaults","src/object/key.rs default_object_generate/unwrap/derive")],
["C_GetAttributeValue before/after","return codes of C_CreateObject/C_SetAttributeValue/C_CopyObject/C_GenerateKey/C_UnwrapKey/C_DeriveKey"])

p("C07","The object store behaves like a map from handles to attribute sets",
"After any history of create, copy, set, get, size, destroy and session calls, reading any object through any session that may see it yields exactly the attribute values its creator supplied or the documented defaults, as later modified; a destroyed object is gone everywhere, every other object is unaffected, and two live objects never share a handle. Session objects vanish when the session that created them closes while token objects stay, and a read-only session can neither create, change nor destroy token objects. Attribute queries follow the PKCS#11 length protocol (size query, too small, unknown attribute) entry by entry.",
["histories"],"all finite histories of object calls from several sessions over data, certificate, key and other storable objects with arbitrary attribute values, on both storage kinds",
"Tests create one or two objects at a time; cross-object effects, value boundaries (empty, long, binary) and session lifetimes need long mixed histories compared to a model.",
["src/token.rs","src/object/mod.rs","src/object/factory.rs","src/storage/sqlite.rs","src/storage/sqlite_common.rs","src/storage/nssdb/mod.rs","src/fns/objmgmt.rs"],
[("token object table","src/token.rs TokenObjects/Handles"),("storage backends","src/storage/mod.rs Storage trait"),("attribute retrieval","src/object/factory.rs get_object_attributes")],
["C_GetAttributeValue","C_FindObjects","C_DestroyObject"])

p("C08","Token contents survive restarts unchanged, on every storage backend",
"Finalizing and re-initializing the library (or reopening the database from another process) preserves every token object with all its attribute values, its usability as a key, the token label, PINs and lock state, and drops every session object; nothing else appears or changes. The values read back after a restart are identical to the ones read before it. A stored key computes the same results before and after.",
["histories","inputs"],"all sets of token objects of every class with arbitrary attribute values, and all histories with restarts at any point, on SQLite and NSS storage",
"Encoding to and from the database (booleans, numbers, empty values, dates, encrypted columns, signatures) is per attribute and per class; tests reopen a token with a handful of objects.",
["src/storage/format.rs","src/storage/sqlite.rs","src/storage/sqlite_common.rs","src/storage/nssdb/mod.rs","src/storage/nssdb/attrs.rs","src/attribute.rs"],
[("attribute serialisation","src/storage/sqlite_common.rs / src/storage/nssdb/mod.rs"),("object cache vs database","src/token.rs Handles, storage open")],
["C_GetAttributeValue, C_FindObjects, crypto calls after C_Finalize/C_Initialize"])

p("C09","Secrets and PINs never reach the token database in the clear",
"After any history of operations on a token, no file the token keeps on disk (database, journal, write-ahead log) contains the PINs, or any secret or private key component of a private or sensitive token key (symmetric value, RSA private exponent and primes, EC and DH private value) in plaintext. Two objects with equal secrets have different stored ciphertexts, and session objects leave no trace on disk.",
["histories","inputs"],"all key types, all ways keys reach the token (create, generate, unwrap, derive, copy, set), all later histories, on SQLite and NSS storage",
"No test scans the database; a single attribute missing from the encrypted list, or a journal left behind, is invisible to functional tests because reads return the right value.",
["src/storage/format.rs","src/storage/aci.rs","src/encryption.rs","src/storage/nssdb/mod.rs","src/storage/nssdb/ci.rs"],
[("encrypted attribute list","src/storage/format.rs / src/object is_sensitive"),("key wrapping by PIN","src/storage/aci.rs, src/encryption.rs"),("NSS encrypted attributes","src/storage/nssdb/mod.rs")],
["bytes of the database files"])

p("C10","Tampering with stored protected attributes is detected, never believed",
"If an encrypted attribute of an SQLite token, or an integrity-protected attribute of an NSS token or its signature (NSS encryption itself carries no integrity protection), is altered in the database in any way, or such a stored value is moved to another object, then reading or using that attribute fails with an error: the library never returns or computes with a different value, and a signature cannot be forged without the PIN. Objects that were not touched keep working, and arbitrary corruption of the database never crashes the library nor makes a wrong PIN acceptable.",
["inputs","fault_sequences"],"every stored encrypted/authenticated value, every byte position and bit, truncation, extension, swap between objects, and damaged metadata rows",
"Tests never modify the database behind the library.",
["src/storage/aci.rs","src/storage/format.rs","src/encryption.rs","src/storage/nssdb/ci.rs","src/storage/nssdb/mod.rs","src/kasn1/mod.rs"],
[("AES-GCM with object id as AAD","src/storage/aci.rs / src/encryption.rs"),("NSS attribute signatures","src/storage/nssdb/ci.rs check_signature")],
["C_GetAttributeValue, crypto calls and C_Login after editing the database"])

p("C11","Every token update is atomic and durable under crashes and I/O faults",
"If the process dies or the storage reports an error at any point inside a call that changes the token (create, copy, set, destroy, generate pair, PIN change, token init), then after reopening the token the change is either completely there or completely absent, all other objects are intact, and the token opens and authenticates with either the old or the new PIN. A call that returned success is never lost, and a call that returned an error because of a storage fault leaves no trace.",
["crash_points","fault_sequences"],"every write, sync, truncate and delete the database layer issues during each mutating call, as crash point or as I/O error",
"Tests run without faults; the claim quantifies over every crash point of every mutating call.",
["src/storage/sqlite.rs","src/storage/sqlite_common.rs","src/storage/format.rs","src/storage/nssdb/mod.rs","src/token.rs"],
[("SQLite transactions around updates","src/storage/sqlite.rs store_obj/..., src/storage/nssdb/mod.rs"),("ordering of PIN change","src/storage/aci.rs, src/storage/nssdb/mod.rs set_user_pin")],
["state of the token after reopening the crashed database image"])

p("C12","Symmetric encryption computes exactly the specified cipher",
"For every supported AES mode (ECB, CBC, CBC-PAD, CTR, OFB, CFB variants, CTS, GCM, CCM, key wrap variants), key size, IV/counter/nonce/tag parameter and message, encryption returns exactly the ciphertext the published algorithm defines and decryption inverts it. Inputs the mode cannot accept (lengths off the block size, exhausted counters, bad parameter sizes, malformed padding) are refused with an error and never produce output. Decryption of any other ciphertext never yields the wrong plaintext as if it were padded correctly.",
["inputs"],"all keys, parameters and messages of arbitrary length (0 to many blocks) for all AES mechanisms",
"Known-answer tests pin a few vectors per mode; parameter translation errors (counter bits, tag length units, CTS variant, partial block) need arbitrary lengths and parameters against an independent implementation.",
["src/aes.rs","src/ossl/aes.rs"],
[("mechanism parameters to cipher context","src/ossl/aes.rs AesOperation"),("padding and length checks","src/ossl/aes.rs")],
["C_Encrypt/C_Decrypt output bytes"])

p("C13","Multi-part and one-shot processing of the same data agree",
"For every encrypt, decrypt, digest, sign and verify mechanism and every way of cutting the data into parts (including empty parts), feeding the parts through update calls and a final call produces the same bytes, or the same verdict, as one single-part call. The result does not depend on output buffer sizes offered, on size queries made in between, or on operations interleaved in other sessions. Combined digest-encrypt and sign-encrypt updates equal the separate operations.",
["inputs","histories"],"all messages, all partitions, all mechanisms that support updates, with arbitrary interleavings of size queries and of other sessions",
"Tests split a message in one or two fixed places; buffering bugs need particular part sizes relative to the block size.",
["src/ossl/aes.rs","src/hash.rs","src/hmac.rs","src/rsa.rs","src/fns/encryption.rs","src/fns/signing.rs","src/fns/digest.rs","src/fns/dualcrypto.rs"],
[("update buffering","src/ossl/aes.rs encrypt_update/decrypt_update"),("digest/mac update","src/ossl/hash.rs, src/native/hmac.rs"),("signature update","src/ossl/rsa.rs, src/ossl/ecdsa.rs")],
["outputs of C_*Update/C_*Final versus single-part calls"])

p("C14","Authenticated decryption releases nothing unless every input bit is authentic",
"For AES-GCM and AES-CCM, single-part, multi-part and message-based, decryption succeeds only for the exact (key, nonce, associated data, ciphertext, tag) that encryption produced with the same tag length; changing, truncating or extending any of them makes the decryption fail, and a failed single-part or final call leaves no plaintext in the caller's output (parts that GCM streamed out before stay with the caller). Each message of a message-based session is independent and generated nonces follow the requested generator and never repeat.",
["inputs","histories"],"all keys, nonces, AAD, messages and tag lengths, all single modifications, and all sequences of messages within one message-based operation",
"Tests flip at most one byte of one vector.",
["src/aes.rs","src/ossl/aes.rs","src/fns/encryption.rs"],
[("tag handling","src/ossl/aes.rs"),("message parameters and IV generators","src/ossl/aes.rs msg_*")],
["C_Decrypt*, C_DecryptMessage* results and output buffers"])

p("C15","Signatures are correct, verifiable elsewhere, and forgeries are rejected",
"Every RSA (PKCS#1 v1.5, raw, PSS) and ECDSA signature the library makes verifies under an independent implementation of the scheme with the stated hash, salt and mask parameters, and verifies in the library; every signature an independent implementation makes is accepted. Any change to message, signature, key, hash or scheme parameters, including wrong signature lengths, out-of-range values and a verification through any of the verify interfaces, is rejected as an invalid signature. RSA encryption (PKCS#1 v1.5, OAEP, raw) likewise interoperates both ways and rejects malformed ciphertexts.",
["inputs"],"all keys, messages, hash/mask/salt parameter combinations, and modified signatures",
"Round-trip tests use matching parameters on both sides, so a symmetric mistake cancels out; only an independent implementation and adversarial inputs can tell.",
["src/rsa.rs","src/ossl/rsa.rs","src/ec/ecdsa.rs","src/ossl/ecdsa.rs","src/fns/signing.rs"],
[("PSS/OAEP parameter parsing","src/ossl/rsa.rs"),("ECDSA raw/DER signature conversion","src/ossl/ecdsa.rs")],
["C_Sign*, C_Verify*, C_VerifySignature*, C_Encrypt/C_Decrypt results"])

p("C16","Digests and MACs compute the specified function and check every bit",
"For all inputs every digest mechanism (SHA-1, SHA-2, SHA-3 families), HMAC (full and truncated), AES-CMAC and other MAC mechanism returns exactly the value the standard defines, for any key length the mechanism admits; digesting a key equals digesting its value. A MAC verifies if and only if it equals that value with exactly the requested length.",
["inputs"],"all messages, keys and output lengths for every digest and MAC mechanism",
"Known-answer tests pin a few lengths; block-boundary, truncation and key-length handling need arbitrary inputs against an independent implementation.",
["src/hash.rs","src/ossl/hash.rs","src/hmac.rs","src/native/hmac.rs","src/ossl/hmac.rs","src/aes.rs","src/ossl/cmac.rs"],
[("hash table","src/hash.rs"),("HMAC","src/native/hmac.rs / src/ossl/hmac.rs"),("truncated output length","src/hmac.rs")],
["C_Digest*, C_Sign*/C_Verify* outputs"])

p("C17","Key derivation yields exactly the specified key, with the requested shape",
"For every derivation mechanism (HKDF, PBKDF2, SP 800-108 counter and feedback mode, TLS 1.2 PRF/master/key-and-MAC, SSH KDF, concatenate/XOR and other simple derivations, AES-encrypt-data derivations) and all parameters, the derived key's value equals that of an independent implementation truncated to the requested length, and the new key has the requested class, type and attributes. Parameters the mechanism cannot honour are rejected, and a failed derivation creates no object.",
["inputs"],"all base keys, salts, labels, contexts, counters, lengths and templates for every derivation mechanism",
"Known-answer tests fix parameter shapes; counter widths, field orders and multi-key layouts are free parameters.",
["src/hkdf.rs","src/pbkdf2.rs","src/sp800_108.rs","src/tlskdf.rs","src/sshkdf.rs","src/simplekdf.rs","src/aes.rs","src/native/sp800_108.rs","src/ossl/kdf.rs"],
[("parameter parsing","src/sp800_108.rs, src/hkdf.rs, src/tlskdf.rs"),("derived object construction","src/object/key.rs default_object_derive")],
["C_DeriveKey / C_GenerateKey then C_GetAttributeValue(CKA_VALUE)"])

p("C18","Key agreement: both parties and an independent computation agree",
"For ECDH (plain and cofactor, with every KDF and shared data), X25519/X448 and finite-field DH, the secret derived from (own private, peer public) equals that derived by the peer and that computed by an independent implementation, for every peer key encoding the standard admits. Invalid peer values (off-curve, infinity, wrong length, small-order, out-of-range) are rejected. The derived key has the requested length taken from the specified end of the secret.",
["inputs"],"all curves/groups, key pairs, KDFs, shared data, output lengths and malformed public values",
"Tests derive one fixed pair per curve.",
["src/ec/ecdh.rs","src/ossl/ecdh.rs","src/ffdh.rs","src/ossl/ffdh.rs","src/ec/montgomery.rs"],
[("ECDH derive","src/ec/ecdh.rs, src/ossl/ecdh.rs"),("DH derive","src/ffdh.rs")],
["C_DeriveKey then C_GetAttributeValue(CKA_VALUE)"])

p("C19","Wrapping and unwrapping transport exactly the key, intact and authenticated",
"Unwrapping a wrapped key with the matching key and mechanism restores exactly the original key material, for every wrapping mechanism and every wrappable key type (secret keys of any length, RSA/EC/DH private keys), and the wrapped bytes equal what an independent implementation of the mechanism produces from the standard encoding. For integrity-protected mechanisms any altered wrapped blob is refused; a refused unwrap creates no object. The unwrapped key's attributes follow the template and the unwrapping rules.",
["inputs","histories"],"all wrapping mechanisms, all target key types and lengths, all modifications of the wrapped blob and all templates",
"Tests wrap one key per mechanism and never damage it.",
["src/fns/keymgmt.rs","src/object/key.rs","src/ossl/aes.rs","src/rsa.rs","src/kasn1/pkcs8.rs" if os.path.exists("/repo/src/kasn1/pkcs8.rs") else "src/kasn1/mod.rs"],
[("export/import for wrapping","src/object/key.rs, src/rsa.rs, src/ec"),("AES key wrap","src/ossl/aes.rs")],
["C_WrapKey/C_UnwrapKey results"])

p("C20","Generated keys are valid, match their template, and are fresh",
"Every key or key pair generated has the class, type, size, curve/group/exponent and attributes the mechanism and template ask for (unsupported or contradictory requests are refused and create nothing), the public and private halves belong together and form a mathematically valid key, and the pair shares its identifying attributes as specified. Two generations never produce the same key.",
["inputs","histories"],"all generation mechanisms, sizes, curves, exponents, groups and templates",
"Tests generate a few standard sizes and use them with the library itself, which would accept its own mistakes.",
["src/fns/keymgmt.rs","src/object/key.rs","src/rsa.rs","src/ec/mod.rs","src/ffdh.rs","src/aes.rs"],
[("key generation","src/rsa.rs, src/ec/*.rs, src/ffdh.rs generate_keypair"),("template application","src/object/factory.rs, src/object/key.rs")],
["C_GenerateKey/C_GenerateKeyPair then attributes and use in independent implementation"])

p("C21","Output buffers are never overrun and the two-call length protocol holds",
"For every call that returns variable-length data, a size query (null output) succeeds, reports a length that is enough for the real call, and does not consume or change the operation; a buffer that is too short yields CKR_BUFFER_TOO_SMALL with the operation still active so a retry with a large enough buffer gives the full correct result. No call writes outside the length the caller gave, and the reported length is exactly what was written.",
["inputs","histories"],"all variable-output calls, mechanisms, data lengths and offered buffer sizes 0..needed+slack, in any order of query/short/retry",
"Tests always offer a large buffer; overruns and consumed operations appear only at particular sizes.",
["src/fns/encryption.rs","src/fns/signing.rs","src/fns/digest.rs","src/fns/keymgmt.rs","src/fns/objmgmt.rs","src/ossl/aes.rs"],
[("length handling in the API layer","src/fns/*.rs"),("mechanism output length","encryption_len/decryption_len/signature_len/digest_len implementations")],
["guard bytes around caller buffers","reported lengths","retry results"])

p("C22","Per-session operations follow the PKCS#11 operation state machine",
"In each session at most one operation per kind is active: an init while it is active is refused with CKR_OPERATION_ACTIVE, an update/final/single-part call without an init of that very kind is refused with CKR_OPERATION_NOT_INITIALIZED, a completed, failed or cancelled operation is over, and single-part and multi-part calls cannot be mixed. Operations in different sessions, and searches, do not disturb each other and a context specific login authorizes only the operation that asked for it.",
["histories"],"all sequences of init/update/final/one-shot/cancel calls of every operation kind over several sessions",
"Tests follow the proper order; the claim is about every improper order too.",
["src/session.rs","src/fns/encryption.rs","src/fns/signing.rs","src/fns/digest.rs","src/fns/sessmgmt.rs","src/mechanism.rs"],
[("operation slot","src/session.rs Operation / get_operation / set_operation"),("finalized flag in mechanisms","src/ossl/*.rs")],
["return codes of every C_* call"])

p("C23","Saved operation state resumes the same computation, and only that",
"Saving the state of an operation at any point either says that the state cannot be saved (or that no operation is active) or yields a state that, restored in the same or another session, continues to exactly the result the uninterrupted operation gives; the attempt never disturbs the original operation. A state blob that was altered, truncated or made up is refused without any effect on the sessions and the operations active in them.",
["histories","inputs"],"all split points, digest mechanisms, target sessions, repeated restores and corrupted blobs",
"Tests save at one point of one hash and never corrupt the blob.",
["src/fns/sessmgmt.rs","src/hash.rs","src/ossl/hash.rs","src/session.rs"],
[("state save/restore","src/fns/sessmgmt.rs, src/hash.rs")],
["C_GetOperationState/C_SetOperationState then C_DigestFinal"])

p("C24","No input makes the library crash, hang, or corrupt memory",
"For any arguments that satisfy the C calling contract (valid pointers with the stated lengths, or null), including unknown mechanisms, malformed mechanism parameters, absurd lengths and counts inside parameters and templates, malformed key encodings and dead or foreign handles, every call returns a PKCS#11 return code in bounded time without aborting the process, and the library stays usable afterwards. A rejected call creates no object.",
["inputs","histories"],"arbitrary sequences of API calls with arbitrary argument values, structured and mutated",
"Tests feed well-formed input; a panic in the C interface aborts the host application, so absence of panics must hold for all inputs.",
["src/fns","src/object","src/mechanism.rs","src/kasn1","src/misc.rs","src/rsa.rs","src/aes.rs","src/ec","src/ffdh.rs"],
[("parameter size checks","src/misc.rs cast_params, per-mechanism parsing"),("template parsing","src/attribute.rs, src/object/factory.rs")],
["process survival, return codes, later sanity operations"])

p("C25","Searches return exactly the matching visible objects, once each",
"For every template, a search returns each object visible to the session whose attributes equal all template entries exactly once and nothing else, regardless of the order of template entries, of the batch sizes used to fetch results, and of whether the objects are session or token objects; objects created or destroyed after the search started do not corrupt it. Attribute values that may not be read cannot be probed by searching for them.",
["histories","inputs"],"all object populations, all templates drawn from present and near-miss values, all fetch batch sizes, on both storage kinds",
"Tests search for one known label; SQL generation per attribute type, implicit filters and batching need arbitrary templates against a model.",
["src/fns/objmgmt.rs","src/token.rs","src/storage/sqlite_common.rs","src/storage/sqlite.rs","src/storage/nssdb/mod.rs","src/session.rs"],
[("search query construction","src/storage/sqlite_common.rs, src/storage/nssdb/mod.rs"),("session object matching","src/object/mod.rs match_template")],
["C_FindObjectsInit/C_FindObjects/C_FindObjectsFinal"])

p("C26","Advertised mechanisms are exactly the usable ones, with honest info",
"Every mechanism a slot lists has mechanism info, and an operation with it can start exactly for the operation flags the info advertises and for key sizes inside the advertised range; a mechanism that is not listed, or that the slot's configured allow or deny list excludes, cannot be used by any call on that slot. Slot, token and interface information is consistent between calls and list queries follow the length protocol.",
["inputs","configurations"],"all mechanisms (listed and unlisted), all operations, all allow/deny configurations, all offered list sizes",
"Tests look up a few mechanisms; consistency between the advertisement and each init call is a product over mechanisms and operations.",
["src/mechanism.rs","src/token.rs","src/slot.rs","src/fns/stmgmt.rs","src/fns/general.rs","src/config.rs"],
[("mechanism registry","src/mechanism.rs Mechanisms"),("allow/deny lists","src/config.rs, src/token.rs")],
["C_GetMechanismList/C_GetMechanismInfo versus C_*Init"])

p("C27","Configuration is interpreted exactly, or rejected as a whole",
"Every well-formed configuration (file, initialization argument string, environment) yields exactly the slots, storage kind and location, descriptions, mechanism restrictions and encodings it spells out, with documented defaults for what it omits; an ill-formed or contradictory one makes initialization fail with an error, leaving the library cleanly uninitialized so that a corrected one works. No configuration content crashes the library.",
["configurations","inputs"],"all configuration files, init strings (including NSS parameter strings with quoting and escapes) and failing slots in any position",
"Tests load three or four fixed files; quoting, flag lists and failure in a later slot are combinatorial.",
["src/config.rs","src/storage/nssdb/config.rs","src/fns/general.rs","src/storage/mod.rs"],
[("TOML configuration","src/config.rs"),("NSS init string parser","src/storage/nssdb/config.rs"),("initialize","src/fns/general.rs")],
["C_Initialize return code, C_GetSlotList/C_GetSlotInfo/C_GetTokenInfo/C_GetMechanismList afterwards"])

p("C28","Concurrent use is deadlock-free and equivalent to some serial order",
"When several threads call the library concurrently, in any interleaving of session, login, object and crypto calls, all calls return (no deadlock), the process does not crash, independent sessions compute the same results as they would alone, and shared token state ends as some serial order of the calls would leave it: no created object is lost or duplicated, no destroyed one survives, and handles stay unique.",
["schedules"],"all schedules of concurrent calls from several threads on shared and separate sessions of one or more slots",
"Tests are almost entirely single threaded; lock ordering and lost updates depend on the schedule.",
["src/lib.rs","src/slot.rs","src/token.rs","src/session.rs","src/fns"],
[("global state lock, slot/token/session locks","src/lib.rs STATE, src/slot.rs"),("per-thread RNG","src/lib.rs CSPRNG")],
["termination, results and final token state of multi-threaded runs"])

p("C29","Slots are isolated from one another",
"With several slots configured, no call on one slot's sessions changes or reveals the objects, login state, PINs, lock counters, sessions or token information of another slot, and handles or sessions of one slot are never accepted as those of another. Closing all sessions or re-initializing the token of one slot leaves the others' sessions and objects working.",
["histories","configurations"],"all histories over two or more slots of mixed storage kinds",
"Tests configure one slot almost always.",
["src/lib.rs","src/slot.rs","src/token.rs","src/fns/stmgmt.rs","src/storage"],
[("slot-indexed state","src/lib.rs State::slots/sessionmap")],
["all observations on the other slot before/after each call"])

p("C30","HOTP values follow the standard and each counter value is spent once",
"For an HOTP key of any supported secret length (20, 32 or 64 bytes), digit count and counter, the one-time password returned by C_Sign equals the RFC 4226 value for the current counter, computed independently (or for the counter in the mechanism parameter where the key allows or demands one). Verification accepts exactly the values of the current and the next four counter values and moves the counter past the accepted one. The counter is kept with the key (also across restarts), each counter value of the key gives out or accepts a password only once, also when several sessions have operations on the same key, and an operation that fails gives no password away. Unsupported or contradictory key attributes and parameters are refused.",
["inputs","histories"],"all HOTP keys, counters, lengths and output formats and sequences of sign/verify",
"Tests check the RFC vectors with default parameters.",
["src/hotp.rs","src/native"],
[("HOTP mechanism","src/hotp.rs")],
["C_Sign/C_Verify with the HOTP mechanism"])

p("C31","Key and point encodings round-trip and are strictly validated on import",
"Any valid RSA, EC, Montgomery or DH key imported by components (in any of the accepted encodings of parameters, points and big integers) reads back as the same key, and any public half or CKA_PUBLIC_KEY_INFO that is returned matches an independent computation; every operation with it gives the result that the components define. The configured EC point encoding (bare or DER wrapped) is used on output, following the length protocol, and both are understood on input for Montgomery keys. Keys that are malformed or can not exist (wrong curve, lengths or encodings, trailing bytes, private values outside the range of the group, exponents no RSA key can have, a CKA_PUBLIC_KEY_INFO of another key) are refused and create no object; a defect that an import does not look for (a point off the curve, CRT components that contradict the modulus) shows at the latest when the key is used: no operation then gives a wrong result.",
["inputs","configurations"],"all valid key values over all curves/groups/sizes and all mutations of their encodings, under both point encodings",
"Tests import fixed vectors.",
["src/ec/mod.rs","src/ec/ecdsa.rs","src/ec/montgomery.rs","src/rsa.rs","src/ffdh.rs","src/ossl/rsa.rs","src/kasn1"],
[("EC point decoding","src/ec/mod.rs"),("RSA import checks","src/rsa.rs"),("DH import","src/ffdh.rs")],
["C_CreateObject, C_GetAttributeValue, use of the key"])

p("C32","Random output, generated keys and generated IVs never repeat",
"Random bytes requested in any sizes and order, from any number of sessions, threads, restarts and processes, with any seed material mixed in by the user, are never repeated, constant or a function of the user's seed; the same holds for generated keys and library-generated nonces, and for ciphertexts of equal secrets at rest. A request fills exactly the requested length.",
["histories","schedules"],"all sequences and sizes of random requests, seeds, threads, restarts",
"A test checks that one buffer changed.",
["src/rng.rs","src/lib.rs","src/ossl","src/fns/mod.rs"],
[("DRBG per thread","src/lib.rs CSPRNG, src/rng.rs")],
["C_GenerateRandom, C_SeedRandom, C_GenerateKey outputs"])

p("C33","Token (re)initialization wipes everything, and only with the SO PIN",
"Initializing a token sets its label and SO PIN and leaves it with no objects, no user PIN and no old secrets; on an initialized token it requires the current SO PIN, is refused while any session is open, and a refused attempt changes nothing. Afterwards old PINs fail, old objects and handles are gone after any restart, and the User PIN can only be set by the SO.",
["histories"],"all histories of token initialization, PIN setup, object creation and restarts",
"Tests initialize once per test.",
["src/token.rs","src/fns/stmgmt.rs","src/storage/format.rs","src/storage/aci.rs","src/storage/sqlite_common.rs"],
[("token init","src/token.rs Token::initialize, src/storage/format.rs reinit")],
["C_InitToken/C_InitPIN/C_Login return codes, C_FindObjects, C_GetTokenInfo"])

p("C34","Migration from SoftHSM brings every object over unchanged or reports it",
"softhsm_migrate copies every supported object of a SoftHSM 2 token into the requested slot of the target token as a token object with the same attributes and the same key material (decrypted where SoftHSM had encrypted it: in private objects, and only there), except the ones only a library may set. Every object that cannot be migrated is counted in the exit status (1-253), 0 is returned only when all arrived, a wrong PIN (254 or 255) creates nothing, and no content of the files crashes the tool.",
["inputs","fault_sequences"],"all SoftHSM token directories (objects, attributes, privacy, encodings, PINs, damaged files) and target slots",
"The tool is outside the test suite proper: one sample token is migrated by a shell script.",
["tools/softhsm/migrate.rs"],
[("softhsm_migrate","tools/softhsm/migrate.rs migrate, read_object, import_obj")],
["exit status and messages of softhsm_migrate, objects of the target token"])

out="properties.jsonl"
with open(out,"w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
print(len(P))
