#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that anchors are easy to maintain).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

AX="the package's own tests do not even compile at this commit, and would sample a handful of keys and messages"
p("C01","Both ends of a session derive the same secrets (X3DH and ratchet agreement)",
 "For all identity, signed, one-time and ephemeral keys, the initiator of a session and its responder derive the same root key and the same first message chain, with and without a one-time prekey, and every later ratchet step keeps the two sides equal. The message keys, MAC key and IV used at position n of a chain are a function of the chain only, so the same on both ends, and distinct positions or chains come from distinct key-derivation inputs.",
 ["inputs","histories"],"all key material for the 3- and 4-way agreement; every position of every chain; every ratchet step","they hold for every key tuple and every chain position; "+AX,
 ["axolotl/ratchet.go","axolotl/session.go","axolotl/keys.go"],
 [("initializeSenderSession/initializeReceiverSession","axolotl/ratchet.go"),("createChain, getNextChainKey, getMessageKeys, DeriveSecrets","axolotl/ratchet.go"),("getOrCreateChainKey","axolotl/session.go")])
p("C02","Session messages: decryption returns plaintext only for authentic messages",
 "A received session message yields a plaintext only if its trailing MAC is the MAC, under the message key of that chain position, of sender identity, receiver identity and every byte of the message, and its version is the session's; the plaintext is then exactly what the sender encrypted. Any altered byte, other identity, other version, truncated message or wrong key yields an error and no plaintext.",
 ["inputs"],"all messages, identities, keys and session contents","every byte position and every key matters; "+AX,
 ["axolotl/messages.go","axolotl/session.go","axolotl/crypto.go"],
 [("getMac, verifyMAC, newWhisperMessage","axolotl/messages.go"),("sessionState.decrypt","axolotl/session.go"),("Encrypt, Decrypt, ValidTruncMAC, ComputeTruncatedMAC","axolotl/crypto.go")])
p("C03","A rejected message leaves the session unchanged",
 "When decrypting an incoming message fails for whatever reason, nothing is written to the session, prekey or identity stores, and trying the message against one state of a session changes no other state of it. When an archived state decrypts a message, the state that was current before is archived exactly as it was before the attempt.",
 ["inputs","histories","fault_sequences"],"all messages (forged ratchet keys, counters, MACs), all session contents, every store failure point","needs every failing message and every state; "+AX,
 ["axolotl/session.go"],[("SessionCipher.decrypt, sessionState.decrypt","axolotl/session.go"),("SessionDecryptWhisperMessage, SessionDecryptPreKeyWhisperMessage","axolotl/session.go")],
 state=[("session record","current state and archived states loaded from and saved to the session store")])
p("C04","No replay: a message decrypts at most once",
 "After a message has been decrypted and the session saved, its message key is no longer available in any current or archived state of that session, so the same message is rejected when delivered again. Skipped message keys are stored once and removed when used, and using one leaves all other stored keys alone.",
 ["inputs","histories"],"all session contents, counters and delivery histories","quantifies over histories of deliveries and all stored-key positions; "+AX,
 ["axolotl/session.go"],[("getOrCreateMessageKeys, removeMessageKeys, hasMessageKeys, setMessageKeys","axolotl/session.go"),("promoteState","axolotl/session.go")])
p("C05","Out-of-order and delayed messages stay decryptable within the stated limits",
 "A message up to 2000 positions ahead of a receiving chain is accepted, keeps the keys of all skipped positions and only those, and advances the chain to just past it; one further ahead is rejected without deriving any key. The last five receiving chains and forty archived states are kept, oldest dropped first, and adding one never damages another.",
 ["inputs","histories"],"all counters, chains, and state contents","thousands of positions times all chain contents; "+AX,
 ["axolotl/session.go"],[("getOrCreateMessageKeys","axolotl/session.go"),("addReceiverChain, getReceiverChain, setReceiverChainKey","axolotl/session.go"),("promoteState, archiveCurrentState, hasSessionState","axolotl/session.go")])
p("C06","The sender never reuses a message key, and persists the advance first",
 "Every outgoing message is encrypted under the keys of the current sending position, and the session saved before the message is handed out has the sending chain advanced by exactly one with everything else unchanged; if anything fails, including the save, no message is returned and an error is. The message carries the position, ratchet key and, until the session is acknowledged, the prekey ids, base key and registration id the receiver needs.",
 ["inputs","histories","fault_sequences"],"all session contents and plaintexts, a failure at every store call","needs a failure at each point and all sessions; "+AX,
 ["axolotl/session.go","axolotl/messages.go"],[("SessionEncryptMessage","axolotl/session.go"),("newWhisperMessage, newPreKeyWhisperMessage","axolotl/messages.go")])
p("C07","Sessions are only set up with trusted identities and signed prekeys",
 "A session is created from a prekey bundle or an incoming prekey message only if the identity store trusts the peer's identity key and, for a bundle, the signed prekey's signature verifies under that identity; otherwise an error is returned and neither session nor identity is stored. A peer's identity is trusted if none is stored for it yet or if it equals the stored one, and a peer's identity is recorded only under that peer.",
 ["inputs","fault_sequences"],"all identities, bundles, signatures and store failures","every key/signature and each store answer; no test covers session setup at this commit",
 ["axolotl/session.go","store.go","server.go"],[("BuildSenderSession, BuildReceiverSession","axolotl/session.go"),("IsTrustedIdentity, SaveIdentity","store.go"),("makePreKeyBundle","server.go")])
p("C08","One-time prekeys are consumed exactly when a session is established with them",
 "When an incoming prekey message establishes a session, the one-time prekey it names (and no other key) is removed, after the message decrypted and only once the session is safely stored; the last-resort prekey and signed prekeys are never removed. A prekey message for an already known session uses up no prekey, and a failed one removes nothing.",
 ["inputs","histories","crash_points","fault_sequences"],"all prekey messages, session contents and store failures","ordering over every failure point; "+AX,
 ["axolotl/session.go"],[("SessionDecryptPreKeyWhisperMessage","axolotl/session.go"),("BuildReceiverSession","axolotl/session.go")])
p("C09","Parsers of session wire messages reject malformed input without crashing",
 "Any byte string handed to the session message parsers either yields a message whose fields are exactly the encoded ones or an error; none makes the process panic, whatever its length or the lengths of the keys inside it. What the message constructors serialize, the parsers read back to the same version, counters, ids, keys and payload.",
 ["inputs"],"all byte strings; all field values","all byte strings cannot be sampled; "+AX,
 ["axolotl/messages.go","axolotl/keys.go"],[("LoadWhisperMessage, LoadPreKeyWhisperMessage","axolotl/messages.go"),("newWhisperMessage, newPreKeyWhisperMessage","axolotl/messages.go")])
p("C10","Local storage is encrypted, authenticated and round-trips",
 "What the key and session store writes with encryption enabled is ciphertext followed by a MAC over all of it, and reading it back yields exactly the stored bytes; a stored file of any other content, length or key yields an error and never a panic or other data. The storage keys are derived only from the password and the saved salt.",
 ["inputs","configurations"],"all contents, file contents, passwords; encryption on and off","every byte of every file; no test covers the store",
 ["store.go","crypto.go"],[("encrypt, decrypt, readFile, writeFile","store.go"),("aesEncrypt, aesDecrypt, appendMAC, verifyMAC, genKeys via newStore","crypto.go, store.go")])
p("C11","Stored records are isolated by kind, recipient and device",
 "Storing, loading or deleting the record of one id (prekey, signed prekey, session of a recipient and device, identity of a recipient) touches only that record: different ids never share a file, and deleting all sessions of a recipient deletes exactly that recipient's sessions. Distinct kinds of records live in distinct places.",
 ["inputs"],"all ids, recipients and device numbers","injectivity over all identifiers; no test covers the store",
 ["store.go"],[("sessionFilePath, preKeyFilePath, signedPreKeyFilePath, identityFilePath helpers","store.go"),("DeleteSession, DeleteAllSessions, RemovePreKey, RemoveSignedPreKey","store.go")])
p("C12","Generated prekeys have valid, distinct ids and correct signatures",
 "Every batch of generated one-time prekeys has pairwise distinct ids inside the 24-bit medium range, never the last-resort id and never an id meaning absent; the bundle uploaded to the server carries exactly the stored keys, and each signed prekey's signature is over its serialized public key by our identity key.",
 ["inputs","histories"],"all start positions of the id generator and counts","all 2^24 start ids; the package tests do not compile",
 ["prekeys.go","axolotl/prekeys.go"],[("generatePreKeys, generatePreKey, getNextPreKeyID, generateSignedPreKey","prekeys.go"),("NewPreKeyRecord, GeneratePreKeys","axolotl/prekeys.go")])
p("C13","Attachments decrypt to what was sent, and only if authentic",
 "Encrypting an attachment and decrypting it with the pointer's key yields the same bytes, and the pointer records its true length and digest. A downloaded attachment yields data only when its MAC over initialization vector and ciphertext verifies under the pointer's key; any other body or key, of any length, yields an error and never a panic.",
 ["inputs"],"all attachment bodies, keys and pointers","every body and key length; no test covers attachments",
 ["attachments.go","crypto.go"],[("handleSingleAttachment, uploadAttachment","attachments.go"),("verifyMAC, appendMAC, aesDecrypt, aesEncrypt","crypto.go")])
p("C14","Message padding and identifier encodings are exact inverses",
 "Padding a message and stripping it returns the message, whatever its content and length (also when it ends in zero or padding-marker bytes), padded lengths are the least multiple of 160 above the message's and reveal nothing more; a message without valid padding is left as it is. Encoding then decoding keys, identifiers and file names returns the original, and malformed or wrong-length encodings are errors.",
 ["inputs"],"all byte strings and identifiers","all messages of all lengths; root tests cover only one MAC example",
 ["server.go","textsecure.go","crypto.go"],[("padMessage, stripPadding","server.go, textsecure.go"),("encodeKey, decodeKey, decodeSignature, idToHexUUID, recID","textsecure.go, server.go")])
p("C15","Safety numbers are symmetric, well-formed and bound to both identities",
 "Both parties compute the same displayable safety number, for all identifiers and identity keys; it is always 60 decimal digits made of one 30-digit half per party, each a function of only that party's identifier and keys. The scannable code compares equal exactly when each side's local fingerprint equals the other's remote one.",
 ["inputs"],"all identifiers and keys","symmetry over all pairs; the tests check a few vectors",
 ["fingerprint/fingerprint.go","fingerprint/fingerprint_numbers.go","fingerprint/qr_fingerprint.go"],[("CreateFingerprintSimple and helpers","fingerprint/fingerprint.go"),("displayable text","fingerprint/fingerprint_numbers.go"),("scannable","fingerprint/qr_fingerprint.go")])
p("C16","Signatures: verification is a pure function of key, message and signature",
 "A signature made with a private key verifies for that message under the matching public key, for every key, message and randomness. Verifying never changes the key, message or signature given to it, so verifying twice gives the same answer.",
 ["inputs"],"all keys, messages, signatures, random inputs","all keys and both sign-bit values; the test samples random keys",
 ["curve25519sign/curve25519sign.go"],[("Sign, Verify","curve25519sign/curve25519sign.go")])
p("C17","Group v2: only authorised members can change a group",
 "Whether a user may add members, change attributes or change access rights in a group is decided by the group's access setting for that action and the user's true membership and role; unknown settings and non-members are refused. Every kind of change in a received or proposed change set is checked against its own rule before it takes effect.",
 ["inputs"],"all groups, roles, access settings and change sets","all combinations of role, setting and action; the groups package has no tests",
 ["groupsv2/groupAuth.go","groupsv2/groupValidator.go"],[("authorisation predicates","groupsv2/groupAuth.go"),("change validation","groupsv2/groupValidator.go")])
p("C18","Group v2: applying a change alters exactly what it says",
 "Applying an accepted change to a group adds, removes or alters exactly the members, pending and requesting members and attributes it names, leaves everything else as it was, and sets the group to the change's revision. The result never lists a user twice, and a change naming a missing or already present user is refused rather than half applied.",
 ["inputs","histories"],"all groups and changes","all groups and change sets; the groups package has no tests",
 ["groupsv2/groupChange.go","groupsv2/groupModify.go","groupsv2/groupsv2.go"],[("apply functions","groupsv2/groupChange.go"),("ModifyGroup","groupsv2/groupModify.go")])
p("C19","Incoming messages reach the right handler with the right sender and time",
 "Each decrypted message reaches exactly the application handler its content calls for, with the authenticated envelope's sender and the message's timestamp, body, attachments, group and expiry unaltered; an end-session flag ends exactly the sender's sessions. Content that is missing or incomplete is an error or ignored and never crashes the client.",
 ["inputs"],"all envelopes and message contents","all combinations of optional fields; no test covers dispatch",
 ["handler.go","textsecure.go","sync.go","message.go"],[("handleMessage, handleDataMessage and friends","handler.go, textsecure.go"),("handleSyncMessage, handleSyncSent, handleSyncRead","sync.go")])
p("C20","Synchronisation messages are honoured only from our own devices",
 "A synchronisation message changes local state, reaches a handler or triggers an answer (contacts, groups, sent transcripts, read receipts, requests) only when its authenticated sender is our own account. From anybody else it is refused with no effect.",
 ["inputs"],"all senders and sync contents","all senders and contents; no test covers sync",
 ["sync.go","handler.go"],[("handleSyncMessage","sync.go"),("dispatch","handler.go")])
p("C21","Outgoing messages are encrypted once for every device of the recipient",
 "A message to a recipient is encrypted under the session of each of the recipient's known devices and labelled with that device's id and registration id; no device gets another's ciphertext, and our own sending device is skipped when sending to ourselves. When the server reports missing, extra or stale devices, exactly the missing ones get sessions, exactly the extra and stale ones lose theirs, before sending again.",
 ["inputs","fault_sequences"],"all device sets and server answers","all device sets and responses; no test covers sending",
 ["server.go","sender.go"],[("buildMessage, buildAndSendMessage","server.go"),("makePreKeyBundle","server.go")])
p("C22","Contact discovery requests are sealed to the enclave and answers map back",
 "A discovery request contains every queried number exactly once in order, encrypted and authenticated under keys only the attested enclave derives, with commitment and request ids bound as associated data. An answer is used only if it authenticates, and each 16-byte entry is matched to the number at the same position, an all-zero entry meaning not registered; malformed lengths are errors and not panics.",
 ["inputs"],"all numbers lists, keys and responses","all lists and keys; tests compare a few vectors",
 ["contactDiscoveryCrypto/contactDiscoveryCrypto.go","contactsDiscovery/remoteAttestationUtil.go","crypto/aesgcm.go"],[("CreateDiscoveryRequest and response handling","contactDiscoveryCrypto/contactDiscoveryCrypto.go"),("AES-GCM helpers","crypto/aesgcm.go")])
p("C23","Device provisioning messages are sealed to the new device's key",
 "A provisioning message is encrypted and authenticated so that the holder of the new device's private key, and only it, recovers exactly the message; the envelope carries a fresh public key, a version byte, an initialization vector, the ciphertext and a MAC over all of them.",
 ["inputs"],"all messages and keys","all keys and messages; no test covers provisioning",
 ["crypto.go","link.go"],[("provisioningCipher","crypto.go"),("link","link.go")])
p("C24","Classic group state follows accepted updates only",
 "Making or updating a classic group gives it exactly the name and members stated, each member once; a quit notice removes exactly the member concerned and keeps everybody else in order; leaving removes the group once everybody was told. Anything about an unknown group or a group context without an id is an error that changes no group state and never crashes the client, lists of members handed in or out are left alone, and what is stored for a group reads back the same after a restart, wherever the storage is.",
 ["inputs","histories"],"all group contexts, lists of members and histories of group operations","all group contents and histories; no test covers groups",
 ["groups.go"],[("updateGroup, quitGroup, removeMember","groups.go"),("newGroup, changeGroup, LeaveGroup, removeGroup","groups.go"),("saveGroup, loadGroup, setupGroups","groups.go")])
p("C25","Profile data and delivery access keys use the profile key correctly",
 "A profile name encrypted under a profile key decrypts to the same name for every name that fits (names not ending in zero bytes), padding hides its length, and any altered ciphertext or wrong key is an error; names too long are refused. Short or malformed avatars and profile answers are errors and never a crash. The unidentified-delivery access key is a fixed function of the profile key alone, random when the other's profile key is not known, and a sender certificate is kept only if it can be read and has not expired.",
 ["inputs"],"all names, keys, ciphertexts, certificates","all names and keys; no test covers profiles",
 ["profiles/profile.go","profiles/avatars.go","unidentifiedAccess/unidentifiedAccess.go","crypto/aesgcm.go"],[("encryptName, decryptName, decryptProfile","profiles/profile.go"),("decryptAvatar","profiles/avatars.go"),("DeriveAccessKeyFrom, GetTargetUnidentifiedAccessKey, CheckCertificate","unidentifiedAccess/unidentifiedAccess.go")])
p("C26","Secret keys, nonces and salts come from the system's secure random source",
 "Every private key, profile key, attachment key, initialization vector, nonce, salt, registration id and padding secret is filled completely from the operating system's cryptographic random source, and is never a constant, a prefix or drawn from a seedable generator. If the source fails no key is used.",
 ["inputs"],"every generated secret","randomness quality is invisible to input/output tests",
 ["axolotl/keys.go","axolotl/crypto.go","crypto.go","profiles/profile.go","attachments.go"],[("randBytes, NewECKeyPair","axolotl/crypto.go, axolotl/keys.go"),("GenerateProfileKey","profiles/profile.go"),("randBytes, randID, randUint32","crypto.go")])
p("C27","The session is locked across load, update and save",
 "Every operation that loads a session, updates it and stores it holds the session store's lock from before the load until after the store, on every path including every failure, and releases it exactly once.",
 ["schedules","fault_sequences"],"all interleavings of concurrent senders and receivers; every failing call","interleavings; no test runs two operations at once",
 ["axolotl/session.go","store.go"],[("SessionEncryptMessage, SessionDecryptWhisperMessage, SessionDecryptPreKeyWhisperMessage, BuildSenderSession","axolotl/session.go")])
p("C28","A crash during a store write never loses or corrupts an existing record",
 "If the process dies at any point while a session, key or identity is being written, a later start reads either the complete old or the complete new record.",
 ["crash_points"],"every crash point of every store write","needs every crash point",
 ["store.go","utils/utils.go"],[("writeFile","store.go")])
p("C29","Requests to the helper process and server get their own answers",
 "Each request sent over the shared connection to the helper process is answered by the reply to that request, whoever else asks at the same time and however replies are delayed or interleaved with other traffic; an answer that arrives fast is not lost, a request whose connection is lost fails, and malformed traffic never crashes the client. Every request the server sends over the websocket is handled and then acknowledged exactly once under its own id, in order, also when handling it fails.",
 ["schedules","histories"],"all interleavings of requests, replies and other traffic","the outcome depends on the schedule of goroutines and on what arrives in between",
 ["crayfish/backend.go","crayfish/register.go","crayfish/envelope.go","crayfish/avatar.go","websocket.go"],[("HandleEnvelope, DecryptAvatar, CrayfishRegisterWithCode","crayfish/"),("handleCrayfishResponseMessage, StartWebsocket","crayfish/backend.go"),("StartListening, sendAck","websocket.go")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
