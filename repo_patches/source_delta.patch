From c13d6c0f2324012e7ab0294cb30a95ee1fece4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 01/55] fix: axolotl.Decrypt must not panic on ciphertexts
 shorter than IV and one block

---
 axolotl/crypto.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/axolotl/crypto.go b/axolotl/crypto.go
index 6aaaa42..a0499e4 100644
--- a/axolotl/crypto.go
+++ b/axolotl/crypto.go
@@ -31,6 +31,9 @@ func Decrypt(key, ciphertext []byte) ([]byte, error) {
 	if len(ciphertext)%aes.BlockSize != 0 {
 		return nil, errors.New("not multiple of AES blocksize")
 	}
+	if len(ciphertext) < 2*aes.BlockSize {
+		return nil, errors.New("ciphertext too short")
+	}
 
 	iv := ciphertext[:aes.BlockSize]
 	mode := cipher.NewCBCDecrypter(block, iv)
-- 
2.43.0


From e85d6a8b091913c74844754c70815bfea012a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 02/55] fix: received message parsers must not panic on empty
 input or wrong-length keys

---
 axolotl/messages.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/axolotl/messages.go b/axolotl/messages.go
index 32317d6..70db52e 100644
--- a/axolotl/messages.go
+++ b/axolotl/messages.go
@@ -55,7 +55,7 @@ func LoadWhisperMessage(serialized []byte) (*WhisperMessage, error) {
 		return nil, err
 	}
 
-	if pwm.GetCiphertext() == nil || pwm.GetRatchetKey() == nil {
+	if pwm.GetCiphertext() == nil || len(pwm.GetRatchetKey()) != 33 {
 		return nil, ErrIncompleteWhisperMessage
 	}
 
@@ -146,6 +146,9 @@ var ErrIncompletePreKeyWhisperMessage = errors.New("incomplete PreKeyWhisperMess
 
 // LoadPreKeyWhisperMessage creates a PreKeyWhisperMessage from serialized bytes.
 func LoadPreKeyWhisperMessage(serialized []byte) (*PreKeyWhisperMessage, error) {
+	if len(serialized) == 0 {
+		return nil, ErrIncompletePreKeyWhisperMessage
+	}
 	version := highBitsToInt(serialized[0])
 
 	if version != currentVersion {
@@ -158,8 +161,8 @@ func LoadPreKeyWhisperMessage(serialized []byte) (*PreKeyWhisperMessage, error)
 		return nil, err
 	}
 
-	if ppkwm.GetBaseKey() == nil ||
-		ppkwm.GetIdentityKey() == nil ||
+	if len(ppkwm.GetBaseKey()) != 33 ||
+		len(ppkwm.GetIdentityKey()) != 33 ||
 		ppkwm.GetMessage() == nil ||
 		ppkwm.GetSignedPreKeyId() == 0 {
 		return nil, ErrIncompletePreKeyWhisperMessage
-- 
2.43.0


From dcad2ec613b5085bc4c332719f59acbd20fad53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 03/55] fix: initiator must receive on the responder's first
 chain, not on its own sending chain

---
 axolotl/ratchet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/axolotl/ratchet.go b/axolotl/ratchet.go
index 9a0d29e..49585a3 100644
--- a/axolotl/ratchet.go
+++ b/axolotl/ratchet.go
@@ -198,7 +198,7 @@ func initializeSenderSession(ss *sessionState, version byte, parameters aliceAxo
 		return err
 	}
 
-	ss.addReceiverChain(parameters.TheirRatchetKey, &sendingChain.chainKey)
+	ss.addReceiverChain(parameters.TheirRatchetKey, &dk.chainKey)
 	ss.setSenderChain(sendingRatchetKey, &sendingChain.chainKey)
 	ss.setRootKey(&sendingChain.rootKey)
 
-- 
2.43.0


From 4c1e1d77849f19b2c329d5e57488adeb0e99a9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 04/55] fix: a failed decryption attempt must not change
 session states, and a promoted state must leave the archive

---
 axolotl/session.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 3283110..ea679e8 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -23,6 +23,11 @@ func newSessionState(ss *protobuf.SessionStructure) *sessionState {
 	return &sessionState{SS: ss}
 }
 
+// copy returns an independent copy of the state.
+func (ss *sessionState) copy() *sessionState {
+	return newSessionState(proto.Clone(ss.SS).(*protobuf.SessionStructure))
+}
+
 func (ss *sessionState) setAliceBaseKey(key []byte) {
 	ss.SS.AliceBaseKey = key
 }
@@ -607,14 +612,20 @@ func (err InvalidMessageError) Error() string {
 }
 
 func (sc *SessionCipher) decrypt(sr *SessionRecord, ciphertext *WhisperMessage) ([]byte, error) {
-	b, err := sr.sessionState.decrypt(ciphertext)
+	// Decryption attempts change the state, so each works on a copy that
+	// replaces the original only if the message was accepted.
+	ss := sr.sessionState.copy()
+	b, err := ss.decrypt(ciphertext)
 	if err == nil {
+		sr.sessionState = ss
 		return b, nil
 	}
 
-	for _, ss := range sr.PreviousStates {
+	for i := range sr.PreviousStates {
+		ss := sr.PreviousStates[i].copy()
 		b, err := ss.decrypt(ciphertext)
 		if err == nil {
+			sr.PreviousStates = append(sr.PreviousStates[:i], sr.PreviousStates[i+1:]...)
 			sr.promoteState(ss)
 			return b, nil
 		}
-- 
2.43.0


From cc52c413610a2e3f26a08b4725d6c098c5afc754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 05/55] fix: save session and identity only after a prekey
 message decrypted, and remove only the prekey used, last

---
 axolotl/session.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index ea679e8..8f2a5ce 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -377,6 +377,8 @@ func (err PreKeyNotFoundError) Error() string {
 }
 
 // BuildReceiverSession creates a new session from a received PreKeyWhisperMessage.
+// It changes only the given record: the caller saves it and the peer's identity
+// once the message has been decrypted.
 func (sb *SessionBuilder) BuildReceiverSession(sr *SessionRecord, pkwm *PreKeyWhisperMessage) (uint32, error) {
 	if pkwm.Version != currentVersion {
 		return 0, UnsupportedVersionError{pkwm.Version}
@@ -426,11 +428,6 @@ func (sb *SessionBuilder) BuildReceiverSession(sr *SessionRecord, pkwm *PreKeyWh
 	sr.sessionState.setRemoteRegistrationID(pkwm.RegistrationID)
 	sr.sessionState.setAliceBaseKey(pkwm.BaseKey.Serialize())
 
-	err = sb.identityStore.SaveIdentity(sb.recipientID, theirIdentityKey)
-	if err != nil {
-		return 0, err
-	}
-
 	return pkwm.PreKeyID, nil
 }
 
@@ -701,13 +698,18 @@ func (sc *SessionCipher) SessionDecryptPreKeyWhisperMessage(ciphertext *PreKeyWh
 	if err != nil {
 		return nil, err
 	}
-	if pkid != 0xFFFFFF {
-		sc.PreKeyStore.RemovePreKey(pkid)
+	err = sc.Builder.identityStore.SaveIdentity(sc.RecipientID, ciphertext.IdentityKey)
+	if err != nil {
+		return nil, err
 	}
 	err = sc.SessionStore.StoreSession(sc.RecipientID, sc.DeviceID, sr)
 	if err != nil {
 		return nil, err
 	}
+	// Only now is the one-time prekey no longer needed. No id means that none was used.
+	if pkid != 0 && pkid != 0xFFFFFF {
+		sc.PreKeyStore.RemovePreKey(pkid)
+	}
 	return plaintext, nil
 }
 
-- 
2.43.0


From 379990b2bae823e276d6f71a5c5dbed6ff59a66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 06/55] fix: BuildSenderSession must hold the session store's
 lock

---
 axolotl/session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/axolotl/session.go b/axolotl/session.go
index 8f2a5ce..f5c0d3d 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -443,6 +443,9 @@ func (err InvalidSignatureError) Error() string {
 
 // BuildSenderSession creates a new session from a PreKeyBundle
 func (sb *SessionBuilder) BuildSenderSession(pkb *PreKeyBundle) error {
+	sb.sessionStore.Lock()
+	defer sb.sessionStore.Unlock()
+
 	theirIdentityKey := pkb.IdentityKey
 	if !sb.identityStore.IsTrustedIdentity(sb.recipientID, theirIdentityKey) {
 		return NotTrustedError{sb.recipientID}
-- 
2.43.0


From b90b0ab7f87679a4bfa78b4d31c716eb54ee7590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 07/55] fix: SessionEncryptMessage must report that a prekey
 message could not be made

---
 axolotl/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index f5c0d3d..4c162b3 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -561,7 +561,7 @@ func (sc *SessionCipher) SessionEncryptMessage(plaintext []byte) ([]byte, int32,
 			items.preKeyID, uint32(items.signedPreKeyID), items.baseKey,
 			ss.getLocalIdentityPublic(), wm)
 		if err != nil {
-			return nil, 0, nil
+			return nil, 0, err
 		}
 		msg = pkwm.serialize()
 		msgType = int32(signalservice.Envelope_PREKEY_BUNDLE)
-- 
2.43.0


From c0ba3da9483ef63bcce1d51e7862997a1552a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 08/55] fix: curve25519sign.Verify must not change the caller's
 signature

---
 curve25519sign/curve25519sign.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/curve25519sign/curve25519sign.go b/curve25519sign/curve25519sign.go
index 917e792..350921f 100644
--- a/curve25519sign/curve25519sign.go
+++ b/curve25519sign/curve25519sign.go
@@ -93,8 +93,10 @@ func Verify(publicKey [32]byte, message []byte, signature *[64]byte) bool {
 	var A_ed [32]byte
 	edwards25519.FeToBytes(&A_ed, &edY)
 
-	A_ed[31] |= signature[63] & 0x80
-	signature[63] &= 0x7F
+	// The caller's signature stays as it is
+	sig := *signature
+	A_ed[31] |= sig[63] & 0x80
+	sig[63] &= 0x7F
 
-	return ed25519.Verify(&A_ed, message, signature)
+	return ed25519.Verify(&A_ed, message, &sig)
 }
-- 
2.43.0


From 88f688c1c560d59483a232ce3142d95abdb58238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 09/55] fix: short stored records and ciphertexts must be an
 error and not a panic

---
 crypto.go | 3 +++
 store.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/crypto.go b/crypto.go
index fd29e93..c823411 100644
--- a/crypto.go
+++ b/crypto.go
@@ -93,6 +93,9 @@ func aesDecrypt(key, ciphertext []byte) ([]byte, error) {
 		log.Debugln("[textsecure] aesDecrypt ciphertext not multiple of AES blocksize", length)
 		return nil, errors.New("ciphertext not multiple of AES blocksize")
 	}
+	if len(ciphertext) < 2*aes.BlockSize {
+		return nil, errors.New("ciphertext shorter than IV and one AES block")
+	}
 
 	iv := ciphertext[:aes.BlockSize]
 	mode := cipher.NewCBCDecrypter(block, iv)
diff --git a/store.go b/store.go
index b87b88b..17bf7ab 100644
--- a/store.go
+++ b/store.go
@@ -151,6 +151,9 @@ func (s *store) decrypt(ciphertext []byte) ([]byte, error) {
 	}
 
 	macPos := len(ciphertext) - 32
+	if macPos < 0 {
+		return nil, ErrStoreBadMAC
+	}
 
 	if !verifyMAC(s.macKey, ciphertext[:macPos], ciphertext[macPos:]) {
 		return nil, ErrStoreBadMAC
-- 
2.43.0


From d6051ff7a1100b9fb876d8105f750c67b184aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 10/55] fix: replace store records atomically, so that a crash
 can not damage them

---
 store.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 17bf7ab..31a1a59 100644
--- a/store.go
+++ b/store.go
@@ -177,7 +177,23 @@ func (s *store) writeFile(path string, b []byte) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(path, b, 0600)
+	// Write a new file and move it into place, so that a crash can not leave a damaged record.
+	// It is kept out of the directory of the records, which are listed by file name.
+	f, err := ioutil.TempFile(filepath.Dir(filepath.Dir(path)), "tmp")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(b)
+	if errClose := f.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), path)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
 }
 
 // Identity store
-- 
2.43.0


From 90f3fd43db1404247fba900221991613645db4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 11/55] fix: GetSubDeviceSessions must list only the sessions
 of the given recipient

---
 store.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/store.go b/store.go
index 31a1a59..d4b67e2 100644
--- a/store.go
+++ b/store.go
@@ -424,10 +424,12 @@ func (s *store) GetSubDeviceSessions(recipientID string) []uint32 {
 	sessions := []uint32{}
 
 	filepath.Walk(s.sessionsDir, func(path string, fi os.FileInfo, err error) error {
-		if !fi.IsDir() {
+		if err == nil && !fi.IsDir() {
 			i := strings.LastIndex(path, "_")
-			id, _ := strconv.Atoi(path[i+1:])
-			sessions = append(sessions, uint32(id))
+			id, err := strconv.ParseUint(path[i+1:], 10, 32)
+			if err == nil && path == s.sessionFilePath(recipientID, uint32(id)) {
+				sessions = append(sessions, uint32(id))
+			}
 		}
 		return nil
 	})
-- 
2.43.0


From 9a49b7fdca6599263212a90874b1ba2ad60209e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 12/55] fix: a recipient id with path separators must not reach
 another record's file

---
 store.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/store.go b/store.go
index d4b67e2..45a6a25 100644
--- a/store.go
+++ b/store.go
@@ -9,6 +9,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"net/url"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -229,7 +230,7 @@ func (s *store) SetIdentityKeyPair(ikp *axolotl.IdentityKeyPair) error {
 }
 
 func (s *store) SaveIdentity(id string, key *axolotl.IdentityKey) error {
-	idkeyfile := filepath.Join(s.identityDir, "remote_"+id)
+	idkeyfile := filepath.Join(s.identityDir, "remote_"+url.PathEscape(id))
 	return s.writeFile(idkeyfile, key.Key()[:])
 }
 
@@ -239,7 +240,7 @@ func (s *store) IsTrustedIdentity(id string, key *axolotl.IdentityKey) bool {
 		// more securely and with a better UI.
 		return true
 	}
-	idkeyfile := filepath.Join(s.identityDir, "remote_"+id)
+	idkeyfile := filepath.Join(s.identityDir, "remote_"+url.PathEscape(id))
 	// Trust on first use (TOFU)
 	if !exists(idkeyfile) {
 		return true
@@ -272,7 +273,7 @@ func ContactIdentityKey(id string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	idkeyfile := filepath.Join(s.identityDir, "remote_"+idClean)
+	idkeyfile := filepath.Join(s.identityDir, "remote_"+url.PathEscape(idClean))
 	if !exists(idkeyfile) {
 		return nil, UnknownContactError{id}
 	}
@@ -417,7 +418,7 @@ func (s *store) loadHTTPSignalingKey() ([]byte, error) {
 // Session store
 
 func (s *store) sessionFilePath(recipientID string, deviceID uint32) string {
-	return filepath.Join(s.sessionsDir, fmt.Sprintf("%s_%d", recipientID, deviceID))
+	return filepath.Join(s.sessionsDir, fmt.Sprintf("%s_%d", url.PathEscape(recipientID), deviceID))
 }
 
 func (s *store) GetSubDeviceSessions(recipientID string) []uint32 {
-- 
2.43.0


From 919af1f51b805a6fa34bfa9c023350e6ae255533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 13/55] fix: an unreadable session or identity record must not
 pass for a missing one

---
 store.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/store.go b/store.go
index 45a6a25..4f464f0 100644
--- a/store.go
+++ b/store.go
@@ -242,10 +242,10 @@ func (s *store) IsTrustedIdentity(id string, key *axolotl.IdentityKey) bool {
 	}
 	idkeyfile := filepath.Join(s.identityDir, "remote_"+url.PathEscape(id))
 	// Trust on first use (TOFU)
-	if !exists(idkeyfile) {
+	b, err := s.readFile(idkeyfile)
+	if os.IsNotExist(err) {
 		return true
 	}
-	b, err := s.readFile(idkeyfile)
 	if err != nil {
 		return false
 	}
@@ -440,9 +440,12 @@ func (s *store) GetSubDeviceSessions(recipientID string) []uint32 {
 func (s *store) LoadSession(recipientID string, deviceID uint32) (*axolotl.SessionRecord, error) {
 	sfile := s.sessionFilePath(recipientID, deviceID)
 	b, err := s.readFile(sfile)
-	if err != nil {
+	if os.IsNotExist(err) {
 		return axolotl.NewSessionRecord(), nil
 	}
+	if err != nil {
+		return nil, err
+	}
 	record, err := axolotl.LoadSessionRecord(b)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d1e6e03d34f0a229042304a194a0ca9f59bf2115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 14/55] fix: an attachment with a short body or key must be an
 error and not a panic

---
 attachments.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attachments.go b/attachments.go
index 6f098df..24be967 100644
--- a/attachments.go
+++ b/attachments.go
@@ -112,6 +112,9 @@ func handleSingleAttachment(a *textsecure.AttachmentPointer) (*Attachment, error
 	}
 
 	l := len(b) - 32
+	if len(a.Key) != 64 || l < 0 {
+		return nil, ErrInvalidMACForAttachment
+	}
 	if !verifyMAC(a.Key[32:], b[:l], b[l:]) {
 		return nil, ErrInvalidMACForAttachment
 	}
-- 
2.43.0


From 2c276d17dde39df0e8b58b54281bbb014bcd31a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 15/55] fix: prekey ids must not exceed 24 bits, be 0 or be the
 last resort prekey's

---
 prekeys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prekeys.go b/prekeys.go
index 0e01116..23bb52c 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -92,7 +92,8 @@ func generatePreKeys() error {
 
 	startID := getNextPreKeyID()
 	for i := 0; i < preKeyBatchSize; i++ {
-		err := generatePreKey(startID + uint32(i))
+		// ids are 24 bits; 0 means no prekey and the last is the last resort key's
+		err := generatePreKey((startID+uint32(i))%(lastResortPreKeyID-1) + 1)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 4e4ee2418b166ba2000b6d3f9c9d306d0b43f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 16/55] fix: an unreadable prekey must be an error, not a crash
 when the keys are published

---
 prekeys.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prekeys.go b/prekeys.go
index 23bb52c..a0a9816 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -150,7 +150,10 @@ func loadPreKeys() error {
 			if err != nil {
 				return err
 			}
-			preKeyRecords[count], _ = textSecureStore.LoadPreKey(uint32(id))
+			preKeyRecords[count], err = textSecureStore.LoadPreKey(uint32(id))
+			if err != nil {
+				return err
+			}
 			count++
 		}
 		return nil
-- 
2.43.0


From e4e6a77203a6454664c8a90b6b717c7036c3044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 17/55] fix: a malformed prekey from the server must be an
 error and not a panic

---
 prekeys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prekeys.go b/prekeys.go
index a0a9816..a8e2b97 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -180,10 +180,10 @@ func makePreKeyBundle(UUID string, deviceID uint32) (*axolotl.PreKeyBundle, erro
 	} else {
 		preKeyId = d.PreKey.ID
 		decPK, err := decodeKey(d.PreKey.PublicKey)
-		preKey = axolotl.NewECPublicKey(decPK)
 		if err != nil {
 			return nil, err
 		}
+		preKey = axolotl.NewECPublicKey(decPK)
 	}
 
 	if d.SignedPreKey == nil {
-- 
2.43.0


From fcbb0d96b90f2d2a26b5b0e8f80fd13cbdca33ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 18/55] fix: refuse prekeys of another device than the one
 asked for

---
 prekeys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prekeys.go b/prekeys.go
index a8e2b97..62527fc 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -173,6 +173,9 @@ func makePreKeyBundle(UUID string, deviceID uint32) (*axolotl.PreKeyBundle, erro
 	}
 
 	d := pkr.Devices[0]
+	if d.DeviceID != deviceID {
+		return nil, fmt.Errorf("prekeys for device %d of contact %s, not %d", d.DeviceID, UUID, deviceID)
+	}
 	preKeyId := uint32(0)
 	var preKey *axolotl.ECPublicKey
 	if d.PreKey == nil {
-- 
2.43.0


From 4fc6a84f70306b43f6e63bd709446ab8532cddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 19/55] fix: stripPadding must not cut a message that has no
 padding

---
 server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server.go b/server.go
index 9f23563..e07e018 100644
--- a/server.go
+++ b/server.go
@@ -806,6 +806,9 @@ func stripPadding(msg []byte) []byte {
 		if msg[i] == 0x80 {
 			return msg[:i]
 		}
+		if msg[i] != 0 {
+			break
+		}
 	}
 	return msg
 }
-- 
2.43.0


From 231845b63f417b753582d6c1c9abe083d4096338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 20/55] fix: a file name that is not a number must not pass for
 a record's id

---
 store.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/store.go b/store.go
index 4f464f0..5e8c310 100644
--- a/store.go
+++ b/store.go
@@ -98,8 +98,7 @@ func idToFilename(id uint32) string {
 }
 
 func filenameToID(fname string) (uint32, error) {
-	var id uint32
-	_, err := fmt.Sscanf(fname, "%d", &id)
+	id, err := strconv.ParseUint(fname, 10, 32)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 8aafdd752ef67302169f1b2a7abf033bae500153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 21/55] fix: comparing equal fingerprints must not panic

---
 fingerprint/fingerprint_numbers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fingerprint/fingerprint_numbers.go b/fingerprint/fingerprint_numbers.go
index a881ca2..b5222f5 100644
--- a/fingerprint/fingerprint_numbers.go
+++ b/fingerprint/fingerprint_numbers.go
@@ -16,9 +16,9 @@ func CreateFingerprintNumbers(localFingerprint []byte, remoteFingerprint []byte)
 
 func compareFingerprintBlocks(localBlocks []string, remoteBlocks []string) int {
 	result := len(localBlocks) - len(remoteBlocks)
-	if result == 0 {
+	if result == 0 && len(localBlocks) > 0 {
 		result = strings.Compare(localBlocks[0], remoteBlocks[0])
-		if result == 0 && len(localBlocks) > 0 {
+		if result == 0 {
 			return compareFingerprintBlocks(localBlocks[1:], remoteBlocks[1:])
 		}
 	}
-- 
2.43.0


From f862f20d3fa6ec8ae97f60f48b1f7db21be5358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 22/55] fix: an invitation carries no profile key and no
 presentation

---
 groupsv2/groupChange.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index 344cef7..388bfeb 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -466,10 +466,10 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingProfileKeys(user *entities
 		if len(item.Added.Member.UserId) == 0 {
 			return entities.Status(http.StatusBadRequest, "No user id")
 		}
-		if len(item.Added.Member.ProfileKey) == 0 {
+		if len(item.Added.Member.ProfileKey) != 0 {
 			return entities.Status(http.StatusBadRequest, "Profile key present for invitation")
 		}
-		if len(item.Added.Member.Presentation) == 0 {
+		if len(item.Added.Member.Presentation) != 0 {
 			return entities.Status(http.StatusBadRequest, "Presentation not empty for invitation")
 		}
 		if item.Added.Member.Role == signalservice.Member_UNKNOWN {
-- 
2.43.0


From ef98a9bccf87201fe90e92bcc215604a27cd6251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 23/55] fix: a request to join a group must be listed among its
 requesting members

---
 groupsv2/groupChange.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index 388bfeb..38a35a4 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -226,6 +226,11 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingAdminApproval(user *entiti
 		return entities.Status(http.StatusBadRequest, "request contains non-self user ids")
 	}
 	for _, item := range actions {
+		group.DecryptedGroup.RequestingMembers = append(group.DecryptedGroup.RequestingMembers, &signalservice.DecryptedRequestingMember{
+			Uuid:       item.Added.UserId,
+			ProfileKey: item.Added.ProfileKey,
+			Timestamp:  item.Added.Timestamp,
+		})
 		group.GroupContext.RequestingMembers = append(group.GroupContext.RequestingMembers, item.Added)
 	}
 
-- 
2.43.0


From c806c5dc8a9a397f803382fa22d1628e2d111c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 24/55] fix: accepting an invitation must turn the invited user
 into a member

---
 groupsv2/groupChange.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index 38a35a4..d376436 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -406,6 +406,23 @@ func (g *GroupChangeApplicator) ApplyPromoteMembersPendingProfileKey(user *entit
 		}
 	}
 
+	// the invitation is accepted: the invited users become members
+	var stillPending []*signalservice.DecryptedPendingMember
+	for _, item := range group.DecryptedGroup.PendingMembers {
+		profileKey, ok := mapModifyUserId[getKey(item.Uuid)]
+		if !ok {
+			stillPending = append(stillPending, item)
+			continue
+		}
+		group.DecryptedGroup.Members = append(group.DecryptedGroup.Members, &signalservice.DecryptedMember{
+			Uuid:             item.Uuid,
+			Role:             item.Role,
+			ProfileKey:       profileKey,
+			JoinedAtRevision: group.Revision + 1,
+		})
+	}
+	group.DecryptedGroup.PendingMembers = stillPending
+
 	return nil
 }
 
-- 
2.43.0


From 532e69a8de8d39df03415ff36205e77f2804f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:13 +0000
Subject: [PATCH 25/55] fix: adding group members must be refused as a whole or
 applied as a whole

---
 groupsv2/groupChange.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index d376436..64f12c0 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -86,6 +86,7 @@ func (g *GroupChangeApplicator) ApplyPromotePendingAdminApproval(user *entities.
 		mapMember[getKey(item.Uuid)] = struct{}{}
 	}
 
+	var newMembers []*signalservice.DecryptedMember
 	mapModifyUserId := make(map[string]signalservice.Member_Role)
 	for _, item := range actions {
 		if item == nil {
@@ -108,13 +109,14 @@ func (g *GroupChangeApplicator) ApplyPromotePendingAdminApproval(user *entities.
 		}
 		mapModifyUserId[key] = item.Role
 
-		group.DecryptedGroup.Members = append(group.DecryptedGroup.Members, &signalservice.DecryptedMember{
+		newMembers = append(newMembers, &signalservice.DecryptedMember{
 			Uuid:             item.UserId,
 			Role:             item.Role,
 			JoinedAtRevision: group.Revision + 1,
 			ProfileKey:       v,
 		})
 	}
+	group.DecryptedGroup.Members = append(group.DecryptedGroup.Members, newMembers...)
 	var ship []*signalservice.DecryptedRequestingMember
 	for _, item := range group.DecryptedGroup.RequestingMembers {
 		if _, ok := mapModifyUserId[getKey(item.Uuid)]; !ok {
@@ -705,6 +707,7 @@ func (g *GroupChangeApplicator) ApplyAddMembers(user *entities.GroupUser,
 	}
 
 	b := isAdminstrator(user, groupImmut)
+	var newMembers []*signalservice.DecryptedMember
 	for _, action := range addMembers {
 
 		if action.Added.Role == signalservice.Member_ADMINISTRATOR && !b {
@@ -728,6 +731,9 @@ func (g *GroupChangeApplicator) ApplyAddMembers(user *entities.GroupUser,
 			ProfileKey:       action.Added.ProfileKey,
 		}
 
+		newMembers = append(newMembers, member)
+	}
+	for _, member := range newMembers {
 		group.DecryptedGroup.Members = append(group.DecryptedGroup.Members, member)
 
 		var pendingProfileKeyShip []*signalservice.DecryptedPendingMember
-- 
2.43.0


From f136e2ffe771c1f33d723be6eba1ca255c937e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 26/55] fix: a group change must be judged by the configured
 limits and not crash on a presentation

---
 groupsv2/groupModify.go    | 8 ++++++--
 groupsv2/groupValidator.go | 9 +++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/groupsv2/groupModify.go b/groupsv2/groupModify.go
index 4d0da18..062b561 100644
--- a/groupsv2/groupModify.go
+++ b/groupsv2/groupModify.go
@@ -5,6 +5,7 @@ import (
 	"net/http"
 
 	zkgroup "github.com/nanu-c/zkgroup"
+	"github.com/signal-golang/textsecure/config"
 	"github.com/signal-golang/textsecure/entities"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	"github.com/signal-golang/textsecure/utils"
@@ -23,8 +24,11 @@ type ModifyGroupParams struct {
 }
 
 func (g *GroupV2) ModifyGroup(user *entities.GroupUser, params ModifyGroupParams, submittedActions *signalservice.GroupChange_Actions) (*entities.Resp, error) {
-	groupChangeApplicator := GroupChangeApplicator{}
-	groupValidator := GroupValidator{}
+	if config.ConfigFile == nil {
+		return nil, entities.Status(http.StatusInternalServerError, "no configuration")
+	}
+	groupValidator := NewGroupValidator(nil, config.ConfigFile)
+	groupChangeApplicator := NewGroupChangeApplicator(groupValidator)
 	// check path param
 	var inviteLinkPassword []byte
 	if len(params.InviteLinkPassword) != 0 {
diff --git a/groupsv2/groupValidator.go b/groupsv2/groupValidator.go
index 52fa7d8..d20a5f8 100644
--- a/groupsv2/groupValidator.go
+++ b/groupsv2/groupValidator.go
@@ -56,6 +56,9 @@ func (g *GroupValidator) ValidatePresentationUpdate(source *entities.GroupUser,
 	if !source.IsMember(presentation_uuid, group.MasterKey) {
 		return nil, errors.New("ValidatePresentationUpdate 4.Forbidden ,reason:xxx ")
 	}
+	if g.profileOperations == nil {
+		return nil, errors.New("presentations cannot be verified")
+	}
 	err = g.profileOperations.VerifyProfileKeyCredentialPresentation(publicParams, presentation)
 	if err != nil {
 		return nil, errors.New("ValidatePresentationUpdate 5.  " + err.Error())
@@ -218,6 +221,9 @@ func (g *GroupValidator) ValidateMemberPendingAdminApproval(user *entities.Group
 		return nil, errors.New("1." + err.Error())
 	}
 
+	if g.profileOperations == nil {
+		return nil, errors.New("presentations cannot be verified")
+	}
 	err = g.profileOperations.VerifyProfileKeyCredentialPresentation(publicParams, profileKeyCredentialPresentation)
 	if err != nil {
 		log.Errorln("[textsecure] groupsv2-validator 2.", err)
@@ -347,6 +353,9 @@ func (g *GroupValidator) ValidateMember(group *GroupV2, member *signalservice.Me
 		log.Errorln("[textsecure] groupsv2-validator 3.", err)
 		return nil, errors.New("3." + err.Error())
 	}
+	if g.profileOperations == nil {
+		return nil, errors.New("presentations cannot be verified")
+	}
 	err = g.profileOperations.VerifyProfileKeyCredentialPresentation(publicParams, profileKeyCredentialPresentation)
 	if err != nil {
 		log.Errorln("[textsecure] groupsv2-validator 4.", err)
-- 
2.43.0


From aafaeb180e1e1621eac18221c3d7a076e0703d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 27/55] fix: a group change is judged on the group before it
 and undone if refused

---
 groupsv2/groupChange.go |  2 +-
 groupsv2/groupModify.go | 35 ++++++++++++++++++++++++++++++++++-
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index 64f12c0..6cb0eee 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -527,7 +527,7 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingProfileKeys(user *entities
 		obj := &signalservice.DecryptedPendingMember{
 			Role:        item.Added.Member.Role,
 			Uuid:        item.Added.Member.UserId,
-			AddedByUuid: GetSourceMember(user, group).Uuid, //todo
+			AddedByUuid: GetSourceMember(user, groupImmut).Uuid, //todo
 			Timestamp:   uint64(utils.CurrentTimeMillis()),
 		}
 		group.DecryptedGroup.PendingMembers = append(group.DecryptedGroup.PendingMembers, obj)
diff --git a/groupsv2/groupModify.go b/groupsv2/groupModify.go
index 062b561..ef9be73 100644
--- a/groupsv2/groupModify.go
+++ b/groupsv2/groupModify.go
@@ -60,7 +60,15 @@ func (g *GroupV2) ModifyGroup(user *entities.GroupUser, params ModifyGroupParams
 		return nil, entities.Status(http.StatusBadRequest, err.Error())
 	}
 
-	groupImmut := g
+	// the rules are judged on the group as it was before the change, which
+	// comes back if any part of the change is refused
+	groupImmut := g.snapshot()
+	accepted := false
+	defer func() {
+		if !accepted {
+			g.restore(groupImmut)
+		}
+	}()
 
 	// 1.AddMember
 	err = groupChangeApplicator.ApplyAddMembers(user, inviteLinkPassword, g, submittedActions.AddMembers, groupImmut)
@@ -241,6 +249,7 @@ func (g *GroupV2) ModifyGroup(user *entities.GroupUser, params ModifyGroupParams
 	}
 	//
 	g.Revision = submittedActions.Revision
+	g.DecryptedGroup.Revision = submittedActions.Revision
 	err = groupValidator.ValidateFinalGroupState(g.DecryptedGroup)
 	if err != nil {
 		return nil, entities.Status(http.StatusBadRequest, err.Error())
@@ -250,10 +259,34 @@ func (g *GroupV2) ModifyGroup(user *entities.GroupUser, params ModifyGroupParams
 		return nil, entities.Status(http.StatusInternalServerError, err.Error())
 	}
 
+	accepted = true
 	saveGroupV2(g.Hexid)
 	return &entities.Resp{Obj: signedGroupChange}, nil
 }
 
+// snapshot returns a copy of the parts of the group a change can touch.
+func (g *GroupV2) snapshot() *GroupV2 {
+	s := &GroupV2{
+		MasterKey:         g.MasterKey,
+		Hexid:             g.Hexid,
+		DecryptedGroup:    proto.Clone(g.DecryptedGroup).(*signalservice.DecryptedGroup),
+		JoinStatus:        g.JoinStatus,
+		Revision:          g.Revision,
+		AnnouncementsOnly: g.AnnouncementsOnly,
+	}
+	proto.Merge(&s.GroupContext, &g.GroupContext)
+	return s
+}
+
+// restore sets the group back to what it was when the snapshot was taken.
+func (g *GroupV2) restore(s *GroupV2) {
+	g.DecryptedGroup = s.DecryptedGroup
+	g.Revision = s.Revision
+	g.AnnouncementsOnly = s.AnnouncementsOnly
+	proto.Reset(&g.GroupContext)
+	proto.Merge(&g.GroupContext, &s.GroupContext)
+}
+
 func getSourceUuid(user *entities.GroupUser, group *GroupV2, groupImmut *GroupV2) []byte {
 	var sourceUuid []byte
 
-- 
2.43.0


From 44fdbf2c6276ecba8de679f3b82c40c723421d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:03 +0000
Subject: [PATCH 28/55] fix: a group without access settings must refuse
 instead of crashing

---
 groupsv2/groupAuth.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/groupsv2/groupAuth.go b/groupsv2/groupAuth.go
index 97c0863..ae7006c 100644
--- a/groupsv2/groupAuth.go
+++ b/groupsv2/groupAuth.go
@@ -19,7 +19,7 @@ func isDeleteMembersPendingAdminApprovalAllowed(user *entities.GroupUser, group
 }
 
 func isAddMembersPendingAdminApprovalAllowed(user *entities.GroupUser, inviteLinkPassword []byte, group *GroupV2) bool {
-	return group.DecryptedGroup.AccessControl.AddFromInviteLink == signalservice.AccessControl_ADMINISTRATOR &&
+	return group.DecryptedGroup.GetAccessControl().GetAddFromInviteLink() == signalservice.AccessControl_ADMINISTRATOR &&
 		bytes.Equal(group.DecryptedGroup.InviteLinkPassword, inviteLinkPassword)
 }
 
@@ -42,7 +42,7 @@ func isModifyAttributesAllowed(user *entities.GroupUser, group *GroupV2) bool {
 	if source == nil {
 		return false
 	}
-	switch group.DecryptedGroup.AccessControl.Attributes {
+	switch group.DecryptedGroup.GetAccessControl().GetAttributes() {
 	case signalservice.AccessControl_ANY:
 		return true
 	case signalservice.AccessControl_MEMBER:
@@ -68,8 +68,8 @@ func isAddMembersPendingProfileKeyAllowed(user *entities.GroupUser, group *Group
 	}
 
 	return member.Role == signalservice.Member_ADMINISTRATOR ||
-		group.DecryptedGroup.AccessControl.Members == signalservice.AccessControl_MEMBER ||
-		group.DecryptedGroup.AccessControl.Members == signalservice.AccessControl_ANY
+		group.DecryptedGroup.GetAccessControl().GetMembers() == signalservice.AccessControl_MEMBER ||
+		group.DecryptedGroup.GetAccessControl().GetMembers() == signalservice.AccessControl_ANY
 
 }
 
@@ -101,16 +101,16 @@ func isAddMemberAllowed(user *entities.GroupUser,
 		case signalservice.Member_ADMINISTRATOR:
 			return true
 		case signalservice.Member_DEFAULT:
-			return group.DecryptedGroup.AccessControl.Members == signalservice.AccessControl_MEMBER ||
-				group.DecryptedGroup.AccessControl.Members == signalservice.AccessControl_ANY
+			return group.DecryptedGroup.GetAccessControl().GetMembers() == signalservice.AccessControl_MEMBER ||
+				group.DecryptedGroup.GetAccessControl().GetMembers() == signalservice.AccessControl_ANY
 		default:
 			return false
 
 		}
 	}
 
-	return (group.DecryptedGroup.AccessControl.Members == signalservice.AccessControl_ANY ||
-		(group.DecryptedGroup.AccessControl.AddFromInviteLink == signalservice.AccessControl_ANY &&
+	return (group.DecryptedGroup.GetAccessControl().GetMembers() == signalservice.AccessControl_ANY ||
+		(group.DecryptedGroup.GetAccessControl().GetAddFromInviteLink() == signalservice.AccessControl_ANY &&
 			bytes.Equal(group.DecryptedGroup.InviteLinkPassword, inviteLinkPassword))) &&
 		len(actions) == 1 &&
 		user.IsMember(actions[0].Added.UserId, group.MasterKey)
-- 
2.43.0


From c6c3c48c5c399a9233a4da97df704f8c0cb0c3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:03 +0000
Subject: [PATCH 29/55] fix: a group that could not be fetched must not crash
 the client

---
 groupsv2/groupsv2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index dae5b87..adfa706 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -234,7 +234,7 @@ func GetGroupV2MembersForGroup(group string) ([]*signalservice.DecryptedMember,
 		log.Debugln("[textsecure] could not update group from server")
 	}
 
-	return g.DecryptedGroup.Members, nil
+	return g.DecryptedGroup.GetMembers(), nil
 }
 func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error) {
 	groupContext := dm.GetGroupV2()
@@ -310,7 +310,7 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 		} else {
 			group.GroupAction = nil
 		}
-	} else if group.DecryptedGroup.Revision != groupContext.GetRevision() {
+	} else if group.DecryptedGroup.GetRevision() != groupContext.GetRevision() {
 		log.Debugln("[textsecure][groupsv2] outdated group, update")
 		group.UpdateGroupFromServer()
 	}
-- 
2.43.0


From 0154b7250c64d1ba6d3e5aea74d07a5c793d238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:22 +0000
Subject: [PATCH 30/55] fix: malformed group data must not crash the client

---
 groupsv2/createGroupChange.go |  4 ++--
 groupsv2/decrypt.go           | 29 ++++++++++++++++++++---------
 groupsv2/groupActions.go      |  4 ++--
 groupsv2/groupsv2.go          |  4 ++--
 groupsv2/groupsv2api.go       |  4 ++--
 groupsv2/helpers.go           | 28 +++++++++++++++++++++++++++-
 6 files changed, 55 insertions(+), 18 deletions(-)

diff --git a/groupsv2/createGroupChange.go b/groupsv2/createGroupChange.go
index 8de5607..f04b37c 100644
--- a/groupsv2/createGroupChange.go
+++ b/groupsv2/createGroupChange.go
@@ -73,7 +73,7 @@ func (g *GroupV2) AddPendingMembers(uuid []byte) error {
 		return err
 	}
 
-	groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+	groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 	if err != nil {
 		return err
 	}
@@ -109,7 +109,7 @@ func (g *GroupV2) AddPendingMembers(uuid []byte) error {
 }
 func (g *GroupV2) EncryptUUID(uuid []byte) ([]byte, error) {
 	if g.cipher == nil {
-		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+		groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 		if err != nil {
 			return nil, err
 		}
diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index 1b3df34..3cd0f8f 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -1,6 +1,7 @@
 package groupsv2
 
 import (
+	"errors"
 	"strings"
 	"unicode"
 
@@ -23,7 +24,7 @@ func (g *GroupV2) decryptGroupFromServer(group *signalservice.Group) error {
 func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	log.Debugln("[textsecure][groupsv2] decrypt group")
 	if g.cipher == nil {
-		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+		groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 		if err != nil {
 			return nil, err
 		}
@@ -40,7 +41,7 @@ func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	}
 	// TODO: decrypt pending and requesting members
 	decryptedGroup := &signalservice.DecryptedGroup{}
-	title, err := g.cipher.DecryptBlob(g.GroupContext.GetTitle())
+	title, err := decryptBlob(g.cipher, g.GroupContext.GetTitle())
 	log.Debugln("[textsecure][groupsv2] decrypt group title", string(title))
 	if err != nil {
 		return nil, err
@@ -65,7 +66,7 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 	var err error
 	decryptedMember := &signalservice.DecryptedMember{}
 	if g.cipher == nil {
-		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+		groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 		if err != nil {
 			return nil, err
 		}
@@ -80,7 +81,7 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 		if err != nil {
 			return nil, err
 		}
-		decryptedMember.ProfileKey, err = g.cipher.DecryptProfileKey(member.GetProfileKey(), decryptedMember.Uuid)
+		decryptedMember.ProfileKey, err = g.decryptProfileKey(member.GetProfileKey(), decryptedMember.Uuid)
 
 	} else {
 		//TODO: check valid presentation
@@ -100,7 +101,7 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 		if err != nil {
 			return nil, err
 		}
-		decryptedMember.ProfileKey, err = g.cipher.DecryptProfileKey(profileKeyCiphertext, decryptedMember.Uuid)
+		decryptedMember.ProfileKey, err = g.decryptProfileKey(profileKeyCiphertext, decryptedMember.Uuid)
 		if err != nil {
 			return nil, err
 		}
@@ -112,26 +113,36 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 
 func (g *GroupV2) decryptUUID(uuid []byte) ([]byte, error) {
 	if g.cipher == nil {
-		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+		groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 		if err != nil {
 			return nil, err
 		}
 		g.cipher = zkgroup.NewClientZkGroupCipher(groupSecretParams)
 	}
+	if len(uuid) != uuidCiphertextLength {
+		return nil, errors.New("invalid encrypted uuid length")
+	}
 	return g.cipher.DecryptUUID(uuid)
 }
 
+func (g *GroupV2) decryptProfileKey(profileKey, uuid []byte) ([]byte, error) {
+	if len(profileKey) != profileKeyCiphertextLength || len(uuid) != uuidLength {
+		return nil, errors.New("invalid encrypted profile key length")
+	}
+	return g.cipher.DecryptProfileKey(profileKey, uuid)
+}
+
 func (g *GroupV2) decryptPendingMembers(pendingMembers []*signalservice.GroupChange_Actions_AddPendingMemberAction) []*signalservice.DecryptedPendingMember {
 	var decryptedPendingMembers []*signalservice.DecryptedPendingMember
 	for _, pendingMember := range pendingMembers {
 		added := pendingMember.GetAdded()
 		member := added.GetMember()
 		uuidCipherText := member.GetUserId()
-		uuid, err := g.cipher.DecryptUUID(uuidCipherText)
+		uuid, err := g.decryptUUID(uuidCipherText)
 		if err != nil {
 			log.Errorln(err)
 		}
-		addedByUuid, err := g.cipher.DecryptUUID(added.GetAddedByUserId())
+		addedByUuid, err := g.decryptUUID(added.GetAddedByUserId())
 		if err != nil {
 			log.Errorln(err)
 		}
@@ -153,7 +164,7 @@ func (g *GroupV2) decryptDeletePendingMembers(deletedPendingMembers []*signalser
 	pendingMembersRemoval := []*signalservice.DecryptedPendingMemberRemoval{}
 	for _, deletedPendingMember := range deletedPendingMembers {
 
-		uuid, err := g.cipher.DecryptUUID(deletedPendingMember.DeletedUserId)
+		uuid, err := g.decryptUUID(deletedPendingMember.GetDeletedUserId())
 		if err != nil {
 			log.Errorln(err)
 		}
diff --git a/groupsv2/groupActions.go b/groupsv2/groupActions.go
index b54cacb..76325b8 100644
--- a/groupsv2/groupActions.go
+++ b/groupsv2/groupActions.go
@@ -10,7 +10,7 @@ import (
 func (g *GroupV2) decryptGroupJoinInfo(groupJoinInfo *signalservice.GroupJoinInfo, groupSecretParams zkgroup.GroupSecretParams) (*signalservice.DecryptedGroupJoinInfo, error) {
 	decryptedGroupJoinInfo := new(signalservice.DecryptedGroupJoinInfo)
 	clientZkGroupCipher := zkgroup.NewClientZkGroupCipher(groupSecretParams)
-	title, err := clientZkGroupCipher.DecryptBlob(groupJoinInfo.GetTitle())
+	title, err := decryptBlob(clientZkGroupCipher, groupJoinInfo.GetTitle())
 	if err != nil {
 		return nil, err
 	}
@@ -46,7 +46,7 @@ func (g *GroupV2) decryptGroupChangeActions(groupActions *signalservice.GroupCha
 		Revision: groupActions.GetRevision(),
 	}
 	if groupActions.SourceUuid != nil {
-		uuid, err := g.cipher.DecryptUUID(groupActions.SourceUuid)
+		uuid, err := g.decryptUUID(groupActions.SourceUuid)
 		log.Debugln("[textsecure][groupsv2] SourceUuid", idToHex(uuid), err)
 	}
 	log.Debugln("[textsecure][groupsv2] Revision", groupActions.Revision)
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index adfa706..72dbce5 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -131,7 +131,7 @@ func uuidToByte(id string) []byte {
 	return s.Bytes()
 }
 func (g *GroupV2) getGroupJoinInfoFromServer(masterKey, groupLinkPassword []byte) (*signalservice.DecryptedGroupJoinInfo, error) {
-	groupSecretParams, err := zkgroup.NewGroupSecretParams(masterKey)
+	groupSecretParams, err := newGroupSecretParams(masterKey)
 	if err != nil {
 		return nil, err
 	}
@@ -162,7 +162,7 @@ func (g *GroupV2) getGroupJoinInfoFromServer(masterKey, groupLinkPassword []byte
 }
 func (g *GroupV2) queryGroupChangeFromServer() (*signalservice.Group, error) {
 	log.Debugln("[textsecure][groupsv2] queryGroupChangeFromServer")
-	groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+	groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 	if err != nil {
 		return nil, err
 	}
diff --git a/groupsv2/groupsv2api.go b/groupsv2/groupsv2api.go
index 28299e0..8bf9b6b 100644
--- a/groupsv2/groupsv2api.go
+++ b/groupsv2/groupsv2api.go
@@ -17,10 +17,10 @@ type GroupsV2Authorization struct {
 
 func NewGroupsV2AuthorizationForGroup(uuid []byte, hexid string) (*GroupsV2Authorization, error) {
 	group := groupsV2[hexid]
-	groupSecretParams, err := zkgroup.NewGroupSecretParams(group.MasterKey)
+	groupSecretParams, err := newGroupSecretParams(group.MasterKey)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup", err.Error())
-
+		return nil, err
 	}
 
 	return NewGroupsV2Authorization(uuid, groupSecretParams)
diff --git a/groupsv2/helpers.go b/groupsv2/helpers.go
index 9619ac4..d1dd8ae 100644
--- a/groupsv2/helpers.go
+++ b/groupsv2/helpers.go
@@ -1,6 +1,8 @@
 package groupsv2
 
 import (
+	"errors"
+
 	zkgroup "github.com/nanu-c/zkgroup"
 	"github.com/signal-golang/textsecure/config"
 	"github.com/signal-golang/textsecure/helpers"
@@ -38,9 +40,33 @@ func (g *GroupV2) CheckJoinStatus() error {
 	return nil
 }
 
+// lengths of the values the zkgroup library is given, which does not check them itself
+const (
+	masterKeyLength            = 32
+	uuidLength                 = 16
+	uuidCiphertextLength       = 65
+	profileKeyCiphertextLength = 65
+	signatureLength            = 64
+	blobOverhead               = 29
+)
+
+func newGroupSecretParams(masterKey []byte) (zkgroup.GroupSecretParams, error) {
+	if len(masterKey) != masterKeyLength {
+		return nil, errors.New("invalid group master key length")
+	}
+	return zkgroup.NewGroupSecretParams(masterKey)
+}
+
+func decryptBlob(cipher *zkgroup.ClientZkGroupCipher, blob []byte) ([]byte, error) {
+	if len(blob) <= blobOverhead {
+		return nil, errors.New("invalid group attribute length")
+	}
+	return cipher.DecryptBlob(blob)
+}
+
 func (g *GroupV2) checkCipher() error {
 	if g.cipher == nil {
-		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+		groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 3a47aaa5afa9cdf62d9509875cbc602c90e75516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 31/55] fix: a group change without a server signature must be
 refused, not crash

---
 groupsv2/groupsv2.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index 72dbce5..af7d747 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/base64"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"net/url"
@@ -189,6 +190,9 @@ func (g *GroupV2) queryGroupChangeFromServer() (*signalservice.Group, error) {
 
 	group := &signalservice.Group{}
 	err = proto.Unmarshal(buf.Bytes(), group)
+	if err != nil {
+		return nil, err
+	}
 	g.cipher = zkgroup.NewClientZkGroupCipher(groupSecretParams)
 
 	log.Debugln("[textsecure][groupsv2] queryGroupChangeFromServer group")
@@ -280,6 +284,9 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 			log.Errorln("[textsecure][groupsv2] server public params", err)
 		} else {
 			if len(groupChange.GetActions()) != 0 {
+				if len(groupChange.GetServerSignature()) != signatureLength {
+					return nil, errors.New("group change is not signed by the server")
+				}
 				err = serverPublicParams.VerifySignature(groupChange.GetActions(), groupChange.GetServerSignature())
 				if err != nil {
 					log.Errorln("[textsecure][groupsv2] signature verification failed", err)
-- 
2.43.0


From 9c81db4162a58618ac4800084646bd31e6310d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 32/55] fix: a group that cannot be decrypted must not replace
 the known state

---
 groupsv2/decrypt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index 3cd0f8f..0d8f6e8 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -16,6 +16,9 @@ func (g *GroupV2) decryptGroupFromServer(group *signalservice.Group) error {
 		GroupContext: *group,
 	}
 	decryptedGroup, err := newGroup.decryptGroup()
+	if err != nil {
+		return err
+	}
 	g.GroupContext = newGroup.GroupContext
 	g.DecryptedGroup = decryptedGroup
 	g.CheckJoinStatus()
-- 
2.43.0


From e0650f5ed9ec09ed31dd72db56a01f92d0a6da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:23 +0000
Subject: [PATCH 33/55] fix: a synchronisation message is honoured only from
 our own account

---
 sender.go | 13 +++++++++----
 sync.go   |  4 ++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/sender.go b/sender.go
index 177a6ee..cea4e9f 100644
--- a/sender.go
+++ b/sender.go
@@ -63,13 +63,18 @@ func sendMessage(msg *outgoingMessage) (uint64, error) {
 	return resp.Timestamp, err
 }
 
+// ownID returns the id our own account is known by
+func ownID() string {
+	if config.ConfigFile.UUID != "" {
+		return config.ConfigFile.UUID
+	}
+	return config.ConfigFile.Tel //TODO: switch tu uuid
+}
+
 // TODO switch to uuids
 func sendSyncMessage(sm *signalservice.SyncMessage, timestamp *uint64) (uint64, error) {
 	log.Debugln("[textsecure] sendSyncMessage", timestamp)
-	user := config.ConfigFile.Tel //TODO: switch tu uuid
-	if config.ConfigFile.UUID != "" {
-		user = config.ConfigFile.UUID
-	}
+	user := ownID()
 	if _, ok := deviceLists[user]; !ok {
 		deviceLists[user] = []uint32{1}
 	}
diff --git a/sync.go b/sync.go
index d764ac7..e8946cd 100644
--- a/sync.go
+++ b/sync.go
@@ -17,6 +17,10 @@ import (
 // handleSyncMessage handles an incoming SyncMessage.
 func handleSyncMessage(src string, srcUUID string, timestamp uint64, sm *signalservice.SyncMessage) error {
 	log.Debugf("[textsecure] SyncMessage recieved at %d", timestamp)
+	// only our own devices may synchronise with us
+	if self := ownID(); self == "" || srcUUID != self {
+		return fmt.Errorf("SyncMessage from somebody else: %s", srcUUID)
+	}
 	if sm.GetSent() != nil {
 		log.Debugln("[textsecure] SyncMessage getSent")
 		return handleSyncSent(sm.GetSent(), timestamp)
-- 
2.43.0


From 5629f3e4fcd800be14b5a2c94dcefe6880a61b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 34/55] fix: a data message without a timestamp must not crash
 the client

---
 handler.go | 4 ++--
 sync.go    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/handler.go b/handler.go
index c931b58..91e996e 100644
--- a/handler.go
+++ b/handler.go
@@ -82,7 +82,7 @@ func handleDataMessage(src string, srcUUID string, timestamp uint64, dm *signals
 	if err != nil {
 		return err
 	}
-	log.Debugln("[textsecure] handleDataMessage", timestamp, *dm.Timestamp, dm.GetExpireTimer())
+	log.Debugln("[textsecure] handleDataMessage", timestamp, dm.GetTimestamp(), dm.GetExpireTimer())
 	gr2, err := groupsv2.HandleGroupsV2(src, dm)
 	if err != nil {
 		return err
@@ -96,7 +96,7 @@ func handleDataMessage(src string, srcUUID string, timestamp uint64, dm *signals
 		flags:       flags,
 		expireTimer: dm.GetExpireTimer(),
 		profileKey:  dm.GetProfileKey(),
-		timestamp:   *dm.Timestamp,
+		timestamp:   dm.GetTimestamp(),
 		quote:       dm.GetQuote(),
 		contact:     dm.GetContact(),
 		sticker:     dm.GetSticker(),
diff --git a/sync.go b/sync.go
index e8946cd..310dae3 100644
--- a/sync.go
+++ b/sync.go
@@ -123,7 +123,7 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 		flags:       flags,
 		expireTimer: dm.GetExpireTimer(),
 		profileKey:  dm.GetProfileKey(),
-		timestamp:   *dm.Timestamp,
+		timestamp:   dm.GetTimestamp(),
 		quote:       dm.GetQuote(),
 		contact:     cs,
 		sticker:     dm.GetSticker(),
-- 
2.43.0


From cb3046caf4df19041d2eadaf1240a3089a2b8197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 35/55] fix: a receipt is for every message it names and may be
 incomplete

---
 handler.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/handler.go b/handler.go
index 91e996e..9377a1d 100644
--- a/handler.go
+++ b/handler.go
@@ -1,6 +1,8 @@
 package textsecure
 
 import (
+	"errors"
+
 	"github.com/golang/protobuf/proto"
 	"github.com/signal-golang/textsecure/groupsv2"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
@@ -52,20 +54,27 @@ func handleTypingMessage(src string, srcUUID string, timestamp uint64, cm *signa
 	return nil
 }
 func handleReceiptMessage(src string, srcUUID string, timestamp uint64, cm *signalservice.ReceiptMessage) error {
-	msg := &Message{
-		source:     src,
-		sourceUUID: srcUUID,
-		message:    "sentReceiptMessage",
-		timestamp:  cm.GetTimestamp()[0],
-	}
-	if *cm.Type == signalservice.ReceiptMessage_READ {
-		msg.message = "readReceiptMessage"
-	}
-	if *cm.Type == signalservice.ReceiptMessage_DELIVERY {
-		msg.message = "deliveryReceiptMessage"
-	}
-	if client.ReceiptMessageHandler != nil {
-		client.ReceiptMessageHandler(msg)
+	if cm.Type == nil {
+		return errors.New("receipt without a type")
+	}
+	message := "sentReceiptMessage"
+	if cm.GetType() == signalservice.ReceiptMessage_READ {
+		message = "readReceiptMessage"
+	}
+	if cm.GetType() == signalservice.ReceiptMessage_DELIVERY {
+		message = "deliveryReceiptMessage"
+	}
+	// a receipt can be for several messages
+	for _, ts := range cm.GetTimestamp() {
+		msg := &Message{
+			source:     src,
+			sourceUUID: srcUUID,
+			message:    message,
+			timestamp:  ts,
+		}
+		if client.ReceiptMessageHandler != nil {
+			client.ReceiptMessageHandler(msg)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 896be995a659a3c8b11d6405019d528cdb0bdbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 36/55] fix: an incomplete envelope must not crash the client

---
 textsecure.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index 0dc7701..56c9c0a 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -567,7 +567,7 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 	recid := env.GetSourceUuid()
 
 	sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, recid, env.GetSourceDevice())
-	switch *env.Type {
+	switch env.GetType() {
 	case signalservice.Envelope_RECEIPT:
 		handleReceipt(env)
 		return nil
@@ -639,12 +639,12 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 		}
 	case signalservice.Envelope_UNIDENTIFIED_SENDER:
 
-		if registration.Registration.SignalingKey[0] != 1 {
+		if len(registration.Registration.SignalingKey) == 0 || registration.Registration.SignalingKey[0] != 1 {
 			log.Errorln("failed to handle message, signalingkey has wrong version, please re-register to update your signaling-key")
 		}
 
 		p, _ := proto.Marshal(env)
-		log.Debugf("[textsecure] Incoming UnidentifiedSenderMessage %s.\n", *env.DestinationUuid)
+		log.Debugf("[textsecure] Incoming UnidentifiedSenderMessage %s.\n", env.GetDestinationUuid())
 		data, err := crayfish.Instance.HandleEnvelope(p)
 		if err != nil {
 			return err
@@ -666,7 +666,7 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 		}
 
 	default:
-		return MessageTypeNotImplementedError{uint32(*env.Type)}
+		return MessageTypeNotImplementedError{uint32(env.GetType())}
 	}
 
 	return nil
-- 
2.43.0


From faa5920767bfab3305dab791dce8ede114ea9676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:32 +0000
Subject: [PATCH 37/55] fix: a short received message must not crash the client

---
 textsecure.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/textsecure.go b/textsecure.go
index 56c9c0a..0c6369d 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -527,6 +527,10 @@ var ErrInvalidMACForMessage = errors.New("invalid MAC for incoming message")
 // decryptReceivedMessage decrypts a received message.
 func decryptReceivedMessage(msg []byte) ([]byte, error) {
 	// decrypt signalservice envelope
+	if len(msg) <= 10 || len(registration.Registration.SignalingKey) < 32 {
+		// too short to be encrypted with the signaling key
+		return msg, nil
+	}
 	macpos := len(msg) - 10
 	tmac := msg[macpos:]
 	aesKey := registration.Registration.SignalingKey[:32]
-- 
2.43.0


From dfa4e70ba653b81684aae744742dbd58f164e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 38/55] fix: a message that decrypts the legacy way must not be
 dropped

---
 textsecure.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index 0c6369d..c577b8f 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -594,8 +594,8 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 			// try the legacy way
 			log.Infof("[textsecure] Incoming WhisperMessage try legacy decrypting")
 
-			recid, err := recID(env.GetSourceUuid())
-			if err != nil {
+			recid, rerr := recID(env.GetSourceUuid())
+			if rerr != nil {
 				recid = env.GetSourceUuid()
 			}
 			sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, recid, env.GetSourceDevice())
-- 
2.43.0


From 0176ce7091105fd74889d8adb191951ce271dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 39/55] fix: a session ended by our other device is that with
 the destination's uuid

---
 sync.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index 310dae3..acd4742 100644
--- a/sync.go
+++ b/sync.go
@@ -96,7 +96,12 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 		return fmt.Errorf("DataMessage was nil for SyncMessage_Sent")
 	}
 
-	flags, err := handleFlags(dest, dm)
+	// sessions and contacts are kept by uuid
+	flagsDest := destUUID
+	if flagsDest == "" {
+		flagsDest = dest
+	}
+	flags, err := handleFlags(flagsDest, dm)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 4d6e5aecfb8f7892265cef4a151237465b4ce7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 40/55] fix: a synchronisation message that cannot be sent must
 not crash the client

---
 sender.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index cea4e9f..91dbd7c 100644
--- a/sender.go
+++ b/sender.go
@@ -89,7 +89,10 @@ func sendSyncMessage(sm *signalservice.SyncMessage, timestamp *uint64) (uint64,
 	}
 
 	resp, err := buildAndSendMessage(user, padMessage(b), true, timestamp)
-	return resp.Timestamp, err
+	if err != nil {
+		return 0, err
+	}
+	return resp.Timestamp, nil
 }
 
 func sendVerifiedMessage(verified *signalservice.Verified, unidentifiedAccess *unidentifiedAccess.UnidentifiedAccess) error {
-- 
2.43.0


From 4eb1579f8f5ebaf6b4489c57ebe253d092ce593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 41/55] fix: synchronisation messages must not be sent to this
 device itself

---
 server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server.go b/server.go
index e07e018..db83246 100644
--- a/server.go
+++ b/server.go
@@ -813,6 +813,9 @@ func stripPadding(msg []byte) []byte {
 	return msg
 }
 
+// ownDeviceID is the id of this device, the primary one of its account
+const ownDeviceID uint32 = 1
+
 func buildMessage(reciever string, paddedMessage []byte, devices []uint32, isSync bool) ([]jsonMessage, error) {
 	if len(reciever) == 0 {
 		return nil, fmt.Errorf("empty reciever")
@@ -823,6 +826,10 @@ func buildMessage(reciever string, paddedMessage []byte, devices []uint32, isSyn
 	}
 	messages := []jsonMessage{}
 	for _, devid := range devices {
+		if isSync && devid == ownDeviceID {
+			// no message from this device to itself
+			continue
+		}
 		if !textSecureStore.ContainsSession(recid, devid) {
 			pkb, err := makePreKeyBundle(reciever, devid)
 			if err != nil {
-- 
2.43.0


From 41013f544be79f55de26d6ae19a66b47e9f1bc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:37 +0000
Subject: [PATCH 42/55] fix: sessions of devices that are gone must not be
 kept, missing ones not be added twice

---
 server.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/server.go b/server.go
index db83246..d754df1 100644
--- a/server.go
+++ b/server.go
@@ -890,6 +890,15 @@ var ErrRemoteGone = errors.New("the remote device is gone (probably reinstalled)
 
 var deviceLists = map[string][]uint32{}
 
+func containsDevice(devices []uint32, id uint32) bool {
+	for _, d := range devices {
+		if d == id {
+			return true
+		}
+	}
+	return false
+}
+
 func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timestamp *uint64) (*sendMessageResponse, error) {
 
 	bm, err := buildMessage(uuid, paddedMessage, deviceLists[uuid], isSync)
@@ -922,20 +931,25 @@ func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timesta
 		var j jsonMismatchedDevices
 		dec.Decode(&j)
 		log.Debugf("[textsecure] Mismatched devices: %+v\n", j)
+		recid, err := recID(uuid)
+		if err != nil {
+			return nil, err
+		}
+		for _, id := range j.ExtraDevices {
+			textSecureStore.DeleteSession(recid, id)
+		}
 		devs := []uint32{}
 		for _, id := range deviceLists[uuid] {
-			in := true
-			for _, eid := range j.ExtraDevices {
-				if id == eid {
-					in = false
-					break
-				}
+			if !containsDevice(j.ExtraDevices, id) && !containsDevice(devs, id) {
+				devs = append(devs, id)
 			}
-			if in {
+		}
+		for _, id := range j.MissingDevices {
+			if !containsDevice(devs, id) {
 				devs = append(devs, id)
 			}
 		}
-		deviceLists[uuid] = append(devs, j.MissingDevices...)
+		deviceLists[uuid] = devs
 		return buildAndSendMessage(uuid, paddedMessage, isSync, timestamp)
 	}
 	if resp.Status == staleDevicesStatus {
-- 
2.43.0


From b79491b24d7cae18ca06415172976b4563df3632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:20 +0000
Subject: [PATCH 43/55] fix: an attachment whose address is no URL must not
 crash the client

---
 attachments.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/attachments.go b/attachments.go
index 24be967..5e8daac 100644
--- a/attachments.go
+++ b/attachments.go
@@ -26,6 +26,9 @@ func getAttachment(url string) (io.ReadCloser, error) {
 	customTransport.TLSClientConfig = &tls.Config{InsecureSkipVerify: true}
 	c := &http.Client{Transport: customTransport}
 	req, err := http.NewRequest("GET", url, nil)
+	if err != nil {
+		return nil, err
+	}
 	req.Header.Add("Host", SERVICE_REFLECTOR_HOST)
 	req.Header.Add("Content-Type", "application/octet-stream")
 
@@ -147,6 +150,9 @@ func handleProfileAvatar(profileAvatar *signalservice.ContactDetails_Avatar, key
 	}
 
 	l := len(b) - 16
+	if len(key) < 16 || l < 0 {
+		return nil, ErrInvalidMACForAttachment
+	}
 	if !verifyMAC(key[16:], b[:l], b[l:]) {
 		return nil, ErrInvalidMACForAttachment
 	}
-- 
2.43.0


From 7b356f4a1e6818f67e36210b8e7b9df130a6d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:20 +0000
Subject: [PATCH 44/55] fix: an upload the server has no location for must
 fail, not crash

---
 attachments.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/attachments.go b/attachments.go
index 5e8daac..8b95eba 100644
--- a/attachments.go
+++ b/attachments.go
@@ -189,6 +189,9 @@ func getAttachmentV3UploadAttributes() (*attachmentV3UploadAttributes, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	dec := json.NewDecoder(resp.Body)
 	var a attachmentV3UploadAttributes
 	err = dec.Decode(&a)
@@ -198,12 +201,15 @@ func getAttachmentV3UploadAttributes() (*attachmentV3UploadAttributes, error) {
 	return &a, nil
 }
 
-func relativePath(url string) string {
+func relativePath(url string) (string, error) {
 	parts := strings.Split(url, "/")
-	return "/" + strings.Join(parts[3:], "/")
+	if len(parts) < 4 {
+		return "", fmt.Errorf("no location to upload to: %s", url)
+	}
+	return "/" + strings.Join(parts[3:], "/"), nil
 }
 
-func (a *attachmentV3UploadAttributes) relativeSignedUploadLocation() string {
+func (a *attachmentV3UploadAttributes) relativeSignedUploadLocation() (string, error) {
 	return relativePath(a.SignedUploadLocation)
 }
 
@@ -212,8 +218,12 @@ func allocateAttachmentV3() (string, *attachmentV3UploadAttributes, error) {
 	if err != nil {
 		return "", nil, err
 	}
+	signedLocation, err := uploadAttributes.relativeSignedUploadLocation()
+	if err != nil {
+		return "", nil, err
+	}
 	resp, err := transport.CdnTransport.PostWithHeaders(
-		uploadAttributes.relativeSignedUploadLocation(),
+		signedLocation,
 		[]byte{},
 		"application/octet-stream",
 		uploadAttributes.Headers)
@@ -224,8 +234,11 @@ func allocateAttachmentV3() (string, *attachmentV3UploadAttributes, error) {
 		log.Debug("[textsecure] allocateAttachmentV3 error response ", resp.Body)
 		return "", nil, resp
 	}
-	location := resp.Header.Get("Location")
-	return relativePath(location), uploadAttributes, nil
+	location, err := relativePath(resp.Header.Get("Location"))
+	if err != nil {
+		return "", nil, err
+	}
+	return location, uploadAttributes, nil
 }
 
 func getAttachmentLocation(id uint64, key string, cdnNumber uint32) (string, error) {
-- 
2.43.0


From e33e0aadd0d6732d6d2db0c59030b914c42db29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 45/55] fix: a call must reach the handler for calls

---
 handler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index 9377a1d..194028b 100644
--- a/handler.go
+++ b/handler.go
@@ -153,7 +153,9 @@ func handleCallMessage(src string, srcUUID string, timestamp uint64, cm *signals
 		timestamp:  timestamp,
 	}
 
-	if client.MessageHandler != nil {
+	if client.CallMessageHandler != nil {
+		client.CallMessageHandler(msg)
+	} else if client.MessageHandler != nil {
 		client.MessageHandler(msg)
 	}
 	return nil
-- 
2.43.0


From f1ea4e78fb975235d789999442e89ac28709e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 46/55] fix: malformed contact discovery answers must be errors
 and not crash the client

---
 contactDiscoveryCrypto/contactDiscoveryCrypto.go | 3 +++
 contactsDiscovery/remoteAttestationUtil.go       | 9 ++++++++-
 crypto/aesgcm.go                                 | 4 ++++
 server.go                                        | 5 ++++-
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/contactDiscoveryCrypto/contactDiscoveryCrypto.go b/contactDiscoveryCrypto/contactDiscoveryCrypto.go
index d8136f6..0d9ef58 100644
--- a/contactDiscoveryCrypto/contactDiscoveryCrypto.go
+++ b/contactDiscoveryCrypto/contactDiscoveryCrypto.go
@@ -195,6 +195,9 @@ func aesDecrypt(key, nonce, data, mac, aad []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(nonce) != aesgcm.NonceSize() {
+		return nil, errors.New("nonce of a wrong length")
+	}
 	ciphertext := append(data, mac...)
 	return aesgcm.Open(nil, nonce, ciphertext, aad)
 }
diff --git a/contactsDiscovery/remoteAttestationUtil.go b/contactsDiscovery/remoteAttestationUtil.go
index 41a0309..65a0a9d 100644
--- a/contactsDiscovery/remoteAttestationUtil.go
+++ b/contactsDiscovery/remoteAttestationUtil.go
@@ -2,6 +2,7 @@ package contactsDiscovery
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	axolotl "github.com/signal-golang/textsecure/axolotl"
@@ -83,7 +84,7 @@ func (r *RemoteAttestation) GetAndVerifyMultiRemoteAttestation(
 	multiRemoteAttestationResponse := &MultiRemoteAttestationResponse{}
 	dec := json.NewDecoder(resp.Body)
 	// log.Debugln("[textsecure] GetAndVerifyMultiRemoteAttestation resp", resp)
-	err = dec.Decode(&multiRemoteAttestationResponse)
+	err = dec.Decode(multiRemoteAttestationResponse)
 	if err != nil {
 		return nil, err
 	}
@@ -119,6 +120,9 @@ func validateAndBuildRemoteAttestation(
 	keyPair *axolotl.ECKeyPair,
 	enclaveName string,
 ) (*RemoteAttestation, error) {
+	if remoteAttestation == nil {
+		return nil, errors.New("empty remote attestation")
+	}
 	keys, err := remoteAttestationKeys(keyPair, remoteAttestation.ServerEphemeralPublic, remoteAttestation.ServerStaticPublic)
 	log.Debugln("[textsecure] validateAndBuildRemoteAttestation ")
 	if err != nil {
@@ -142,6 +146,9 @@ func validateAndBuildRemoteAttestation(
 }
 
 func remoteAttestationKeys(keyPair *axolotl.ECKeyPair, serverPublicEphemarl []byte, serverPublicStatic []byte) (*RemoteAttestationKeys, error) {
+	if len(serverPublicEphemarl) != 32 || len(serverPublicStatic) != 32 {
+		return nil, errors.New("remote attestation with keys of a wrong length")
+	}
 
 	ephemeralToEphemeral := [32]byte{}
 	serverPublicEphemarlPublicKey := axolotl.NewECPublicKey(serverPublicEphemarl).GetKey()
diff --git a/crypto/aesgcm.go b/crypto/aesgcm.go
index 5891af8..83fe4aa 100644
--- a/crypto/aesgcm.go
+++ b/crypto/aesgcm.go
@@ -3,6 +3,7 @@ package crypto
 import (
 	"crypto/aes"
 	"crypto/cipher"
+	"errors"
 )
 
 const TAG_LENGTH_BYTES = 16
@@ -18,6 +19,9 @@ func AesgcmDecrypt(key, nonce, data, mac []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(nonce) != aesgcm.NonceSize() {
+		return nil, errors.New("nonce of a wrong length")
+	}
 	ciphertext := append(data, mac...)
 
 	return aesgcm.Open(nil, nonce, ciphertext, nil)
diff --git a/server.go b/server.go
index d754df1..6ac20b9 100644
--- a/server.go
+++ b/server.go
@@ -603,7 +603,7 @@ func getContactDiscoveryRegisteredUsers(authorization string, request *contactDi
 	discoveryResponse := &contactDiscoveryCrypto.DiscoveryResponse{}
 	dec := json.NewDecoder(resp.Body)
 	log.Debugln("[textsecure] GetAndVerifyMultiRemoteAttestation resp")
-	err = dec.Decode(&discoveryResponse)
+	err = dec.Decode(discoveryResponse)
 	if err != nil {
 		return nil, err
 	}
@@ -682,6 +682,9 @@ func GetRegisteredContacts() ([]contacts.Contact, error) {
 		return nil, fmt.Errorf("could not get get ContactDiscovery data %v", err)
 	}
 	uuidlength := 16
+	if len(responseData) != len(tokens)*uuidlength {
+		return nil, fmt.Errorf("contact discovery answer of %d bytes for %d numbers", len(responseData), len(tokens))
+	}
 	ind := 0
 
 	contacts.Contacts = map[string]contacts.Contact{}
-- 
2.43.0


From 80bfde3a4b05daa345d792f2fa57bbe1d3855345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:11 +0000
Subject: [PATCH 47/55] fix: profile keys and profile nonces must come from the
 secure random source

---
 profiles/profile.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index 092628b..1469c97 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -2,13 +2,13 @@ package profiles
 
 import (
 	"bytes"
+	"crypto/rand"
 	"encoding/base64"
 	"encoding/hex"
 	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
-	"math/rand"
 
 	zkgroup "github.com/nanu-c/zkgroup"
 	uuidUtil "github.com/satori/go.uuid"
@@ -43,7 +43,9 @@ type ProfileSettings struct {
 // GenerateProfileKey generates a new ProfileKey
 func GenerateProfileKey() []byte {
 	profileKey := make([]byte, 32)
-	rand.Read(profileKey)
+	if _, err := rand.Read(profileKey); err != nil {
+		panic(err)
+	}
 	return profileKey
 }
 func uuidToByte(id string) []byte {
@@ -108,7 +110,9 @@ func encryptName(key, input []byte, paddedLength int) ([]byte, error) {
 	}
 	padded := append(input, make([]byte, paddedLength-inputLength)...)
 	nonce := make([]byte, 12)
-	rand.Read(nonce)
+	if _, err := rand.Read(nonce); err != nil {
+		return nil, err
+	}
 	ciphertext, err := crypto.AesgcmEncrypt(key, nonce, padded)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 64f228f1c3138274764da2ae37769eb3e8a208e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:11 +0000
Subject: [PATCH 48/55] fix: an expired or malformed sender certificate must be
 refused and not crash the client

---
 unidentifiedAccess/unidentifiedAccess.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/unidentifiedAccess/unidentifiedAccess.go b/unidentifiedAccess/unidentifiedAccess.go
index 593b9e2..48cb966 100644
--- a/unidentifiedAccess/unidentifiedAccess.go
+++ b/unidentifiedAccess/unidentifiedAccess.go
@@ -42,15 +42,16 @@ func CheckCertificate(certificate []byte) error {
 	}
 	serverCert := &signalservice.ServerCertificate{}
 	if err := proto.Unmarshal(certificate, serverCert); err != nil {
-		log.Fatalln("Failed to parse certificate:", err)
+		log.Errorln("Failed to parse certificate:", err)
 		return err
 	}
 	senderCertificate := &signalservice.SenderCertificate_Certificate{}
 	if err := proto.Unmarshal(serverCert.Certificate, senderCertificate); err != nil {
-		log.Fatalln("Failed to parse sender certificate:", err)
+		log.Errorln("Failed to parse sender certificate:", err)
 		return err
 	}
-	if *senderCertificate.Expires < uint64(time.Now().Unix()) {
+	// the time is in milliseconds
+	if senderCertificate.GetExpires() < uint64(time.Now().UnixNano()/int64(time.Millisecond)) {
 		log.Errorln("Certificate expired")
 		return errors.New("certificate expired")
 	}
@@ -131,6 +132,9 @@ func GetAccessForUUID(recipent contacts.Contact) (*UnidentifiedAccessPair, error
 		return nil, err
 	}
 	theirUnidentifiedAccessKey, err := GetTargetUnidentifiedAccessKey(recipent)
+	if err != nil {
+		return nil, err
+	}
 
 	return &UnidentifiedAccessPair{
 		TargetUnidentifiedAccess: UnidentifiedAccess{
@@ -147,7 +151,7 @@ func GetOurCertificate() ([]byte, error) {
 	log.Infoln("[textsecure] Getting our certificate")
 	cert := &signalservice.ServerCertificate{}
 	if err := proto.Unmarshal(config.ConfigFile.Certificate, cert); err != nil {
-		log.Fatalln("Failed to parse certificate:", err)
+		log.Errorln("Failed to parse certificate:", err)
 		return nil, err
 	}
 	return cert.Certificate, nil
-- 
2.43.0


From b988d64d84b135647627d3c4327e02cee6bcfd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:13 +0000
Subject: [PATCH 49/55] fix: short avatars and malformed profile answers must
 not crash the client

---
 profiles/avatars.go |  3 +++
 profiles/profile.go | 11 ++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/profiles/avatars.go b/profiles/avatars.go
index 448a5ea..34ed7ba 100644
--- a/profiles/avatars.go
+++ b/profiles/avatars.go
@@ -118,6 +118,9 @@ func setupAvatarsPath() error {
 }
 
 func decryptAvatar(avatar []byte, identityKey []byte) ([]byte, error) {
+	if len(avatar) < NONCE_LEN || len(identityKey) < 32 {
+		return nil, fmt.Errorf("avatar or its key too short")
+	}
 	nonce := avatar[:NONCE_LEN]
 	encrypted_avatar := avatar[NONCE_LEN:]
 	decryptedAvatar, err := decrypt(identityKey[:32], encrypted_avatar, nonce)
diff --git a/profiles/profile.go b/profiles/profile.go
index 1469c97..1179b6c 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -351,17 +351,22 @@ func GetProfileE164(tel string) (contacts.Contact, error) {
 	resp, err := transport.Transport.Get(fmt.Sprintf(PROFILE_PATH, tel))
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
+		return contacts.Contact{}, err
 	}
 
 	profile := &Profile{}
 	dec := json.NewDecoder(resp.Body)
-	err = dec.Decode(&profile)
+	err = dec.Decode(profile)
 
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
+		return contacts.Contact{}, err
 	}
 
-	avatar, _ := GetRemoteAvatar(profile.Avatar)
+	avatar, err := GetRemoteAvatar(profile.Avatar)
+	if err != nil {
+		return contacts.Contact{}, err
+	}
 	buf := new(bytes.Buffer)
 	buf.ReadFrom(avatar)
 
@@ -402,7 +407,7 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 		}
 
 		dec := json.NewDecoder(resp.Body)
-		err = dec.Decode(&profile)
+		err = dec.Decode(profile)
 		if err != nil {
 			log.Errorln("[textsecure] GetProfileUuid decode", err)
 			return nil, err
-- 
2.43.0


From 103bd7e004dec63bd5ecac94641931417efa1d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:19 +0000
Subject: [PATCH 50/55] fix: no member may be in a group twice, nor the
 caller's list of members change

---
 groups.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/groups.go b/groups.go
index 27fc314..a3fea74 100644
--- a/groups.go
+++ b/groups.go
@@ -109,12 +109,26 @@ func setupGroups() error {
 	return nil
 }
 
+// distinctMembers returns the given numbers, each of them once.
+func distinctMembers(members ...string) []string {
+	out := []string{}
+	seen := map[string]bool{}
+	for _, m := range members {
+		if !seen[m] {
+			seen[m] = true
+			out = append(out, m)
+		}
+	}
+	return out
+}
+
 // removeMember removes a given number from a list.
 func removeMember(tel string, members []string) []string {
 	for i, m := range members {
 		if m == tel {
-			members = append(members[:i], members[i+1:]...)
-			break
+			rest := make([]string, 0, len(members)-1)
+			rest = append(rest, members[:i]...)
+			return append(rest, members[i+1:]...)
 		}
 	}
 	return members
@@ -123,6 +137,9 @@ func removeMember(tel string, members []string) []string {
 // updateGroup updates a group's state based on an incoming message.
 func updateGroup(gr *signalservice.GroupContext) error {
 	log.Debugln("[textsecure] updateGroup ", gr.GetName())
+	if len(gr.GetId()) == 0 {
+		return fmt.Errorf("group context without an id")
+	}
 	hexid := idToHex(gr.GetId())
 
 	var r io.Reader
@@ -141,7 +158,7 @@ func updateGroup(gr *signalservice.GroupContext) error {
 		ID:      gr.GetId(),
 		Hexid:   hexid,
 		Name:    gr.GetName(),
-		Members: gr.GetMembersE164(),
+		Members: distinctMembers(gr.GetMembersE164()...),
 		Avatar:  buf.Bytes(),
 	}
 	return saveGroup(hexid)
@@ -357,8 +374,11 @@ func changeGroup(hexid, name string, members []string) (*Group, error) {
 	}
 
 	g.Name = name
-	g.Members = append(members, config.ConfigFile.Tel)
-	saveGroup(hexid)
+	g.Members = distinctMembers(append(append([]string{}, members...), config.ConfigFile.Tel)...)
+	err := saveGroup(hexid)
+	if err != nil {
+		return nil, err
+	}
 
 	return g, nil
 }
@@ -391,7 +411,7 @@ func newGroup(name string, members []string) (*Group, error) {
 		ID:      id,
 		Hexid:   hexid,
 		Name:    name,
-		Members: append(members, config.ConfigFile.Tel),
+		Members: distinctMembers(append(append([]string{}, members...), config.ConfigFile.Tel)...),
 	}
 	err := saveGroup(hexid)
 	if err != nil {
-- 
2.43.0


From d5cd697551ada6382eecc531da2a067bcbd7e3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:21 +0000
Subject: [PATCH 51/55] fix: groups must be read back wherever the storage is

---
 groups.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groups.go b/groups.go
index a3fea74..89eac31 100644
--- a/groups.go
+++ b/groups.go
@@ -98,8 +98,8 @@ func setupGroups() error {
 		return err
 	}
 	filepath.Walk(groupDir, func(path string, fi os.FileInfo, err error) error {
-		if !fi.IsDir() {
-			if !strings.Contains(path, "avatar") {
+		if err == nil && !fi.IsDir() {
+			if !strings.Contains(fi.Name(), "avatar") {
 				loadGroup(path)
 			}
 		}
-- 
2.43.0


From ff21ae9cc7ead3293632ab452e1cab08e7b317ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:24 +0000
Subject: [PATCH 52/55] fix: a group that was left must be gone

---
 groups.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/groups.go b/groups.go
index 89eac31..036f999 100644
--- a/groups.go
+++ b/groups.go
@@ -480,6 +480,7 @@ func removeGroup(id []byte) error {
 	if err != nil {
 		return err
 	}
+	delete(groups, hexid)
 	return nil
 }
 
-- 
2.43.0


From 9e78ba3faa8baa666e3320dee4b73b64c6f1a6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:04 +0000
Subject: [PATCH 53/55] fix: every request to the helper must get its own
 answer, however fast it comes

---
 crayfish/avatar.go   |  7 +++--
 crayfish/backend.go  | 65 +++++++++++++++++++++++++++++++++++++++-----
 crayfish/envelope.go |  7 +++--
 crayfish/register.go |  7 +++--
 4 files changed, 70 insertions(+), 16 deletions(-)

diff --git a/crayfish/avatar.go b/crayfish/avatar.go
index 6893154..8d439eb 100644
--- a/crayfish/avatar.go
+++ b/crayfish/avatar.go
@@ -34,9 +34,10 @@ func (c *CrayfishInstance) DecryptAvatar(avatar, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] avatar send")
-	c.wsconn.send <- m
-	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
-	response := <-c.receiveChannel
+	response, err := c.ask(m)
+	if err != nil {
+		return nil, err
+	}
 	log.Debugf("[textsecure-crayfish-ws] avatar recieved an response")
 	rm, err := json.Marshal(response.Message)
 	if err != nil {
diff --git a/crayfish/backend.go b/crayfish/backend.go
index 40551fe..9f286d9 100644
--- a/crayfish/backend.go
+++ b/crayfish/backend.go
@@ -30,12 +30,18 @@ var (
 )
 
 type CrayfishInstance struct {
-	wsconn         *Conn
-	cmd            *exec.Cmd
-	stopping       bool
+	wsconn        *Conn
+	cmd           *exec.Cmd
+	stopping      bool
+	LocalUUID     string
+	LocalDeviceID int32
+
+	// requests allows a single request at a time to wait for its answer, as answers do not tell
+	// which request they belong to
+	requests sync.Mutex
+	// receiveLock guards receiveChannel, which is set while a request waits for its answer
+	receiveLock    sync.Mutex
 	receiveChannel chan *CrayfishWebSocketResponseMessage
-	LocalUUID      string
-	LocalDeviceID  int32
 }
 
 const (
@@ -288,7 +294,15 @@ func (c *CrayfishInstance) StartListening() error {
 func (c *CrayfishInstance) StartWebsocket() error {
 	var err error
 
+	c.receiveLock.Lock()
 	c.wsconn = &Conn{send: make(chan []byte, 256)}
+	c.abandon()
+	c.receiveLock.Unlock()
+	defer func() {
+		c.receiveLock.Lock()
+		c.abandon()
+		c.receiveLock.Unlock()
+	}()
 	err = c.wsconn.connect(serverAdress + websocketPath)
 	if err != nil {
 		log.Errorf(err.Error())
@@ -358,15 +372,52 @@ func (c *CrayfishInstance) StopListening() error {
 	return nil
 }
 
+// ask sends a request and waits for the answer to it.
+func (c *CrayfishInstance) ask(m []byte) (*CrayfishWebSocketResponseMessage, error) {
+	c.requests.Lock()
+	defer c.requests.Unlock()
+	answer := make(chan *CrayfishWebSocketResponseMessage, 1)
+	// whoever answers quickly must find somebody waiting
+	c.receiveLock.Lock()
+	c.receiveChannel = answer
+	conn := c.wsconn
+	c.receiveLock.Unlock()
+	conn.send <- m
+	response, ok := <-answer
+	if !ok {
+		return nil, errors.New("connection lost before the answer came")
+	}
+	return response, nil
+}
+
+// abandon tells a waiting request that its answer will not come.
+func (c *CrayfishInstance) abandon() {
+	if c.receiveChannel != nil {
+		close(c.receiveChannel)
+		c.receiveChannel = nil
+	}
+}
+
 func handleCrayfishRequestMessage(request *CrayfishWebSocketRequestMessage) error {
+	if request == nil || request.Type == nil {
+		return errors.New("request message without a type")
+	}
 	log.Debugln("[textsecure-crayfish-ws] Received websocket request message", *request.Type)
 	return nil
 }
 
 func (c *CrayfishInstance) handleCrayfishResponseMessage(response *CrayfishWebSocketResponseMessage) error {
+	if response == nil || response.Type == nil {
+		return errors.New("response message without a type")
+	}
 	log.Debugln("[textsecure-crayfish-ws] Received websocket response message", *response.Type)
-	if c.receiveChannel != nil && *response.Type > 1 {
-		c.receiveChannel <- response
+	if *response.Type > 1 {
+		c.receiveLock.Lock()
+		defer c.receiveLock.Unlock()
+		if c.receiveChannel != nil {
+			c.receiveChannel <- response
+			c.receiveChannel = nil
+		}
 	}
 	return nil
 }
diff --git a/crayfish/envelope.go b/crayfish/envelope.go
index b7c2833..39fe38f 100644
--- a/crayfish/envelope.go
+++ b/crayfish/envelope.go
@@ -31,9 +31,10 @@ func (c *CrayfishInstance) HandleEnvelope(msg []byte) (*CrayfishWebSocketRespons
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] HandleEnvelope send")
-	c.wsconn.send <- m
-	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
-	response := <-c.receiveChannel
+	response, err := c.ask(m)
+	if err != nil {
+		return nil, err
+	}
 	log.Debugf("[textsecure-crayfish-ws] HandleEnvelope recieved an response")
 	rm, err := json.Marshal(response.Message)
 	if err != nil {
diff --git a/crayfish/register.go b/crayfish/register.go
index ae8fddc..a700956 100644
--- a/crayfish/register.go
+++ b/crayfish/register.go
@@ -69,9 +69,10 @@ func (c *CrayfishInstance) CrayfishRegisterWithCode(registrationInfo *registrati
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] Registering via crayfish send verification")
-	c.wsconn.send <- mv
-	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
-	response := <-c.receiveChannel
+	response, err := c.ask(mv)
+	if err != nil {
+		return nil, err
+	}
 	rm, err := json.Marshal(response.Message)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 65c68f6c99f6398c1f2daa7fae4dc4b0803304e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:46 +0000
Subject: [PATCH 54/55] fix: a prekey message whose base key is written
 otherwise must not decrypt again

---
 axolotl/keys.go    | 19 +++++++++++++++++++
 axolotl/session.go |  4 ++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/axolotl/keys.go b/axolotl/keys.go
index d00fc36..26cb9ce 100644
--- a/axolotl/keys.go
+++ b/axolotl/keys.go
@@ -4,6 +4,7 @@
 package axolotl
 
 import (
+	"bytes"
 	"fmt"
 
 	"golang.org/x/crypto/curve25519"
@@ -63,6 +64,24 @@ func (k *ECPublicKey) Serialize() []byte {
 	return append([]byte{djbType}, k.key[:]...)
 }
 
+// equivalentPublicKeys returns whether two serialized public keys lead to the same
+// agreements. A curve25519 agreement ignores the top bit of a public key, reduces the
+// key and clears its cofactor, so different keys can stand for the same one.
+func equivalentPublicKeys(a, b []byte) bool {
+	if bytes.Equal(a, b) {
+		return true
+	}
+	if len(a) != 33 || len(b) != 33 {
+		return false
+	}
+	var scalar, keyA, keyB, sharedA, sharedB [32]byte
+	copy(keyA[:], a[1:])
+	copy(keyB[:], b[1:])
+	calculateAgreement(&sharedA, &keyA, &scalar)
+	calculateAgreement(&sharedB, &keyB, &scalar)
+	return sharedA == sharedB
+}
+
 // ECKeyPair represents a public and private key pair.
 type ECKeyPair struct {
 	PrivateKey ECPrivateKey
diff --git a/axolotl/session.go b/axolotl/session.go
index 4c162b3..72902af 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -300,12 +300,12 @@ func (record *SessionRecord) Serialize() ([]byte, error) {
 
 func (record *SessionRecord) hasSessionState(version uint32, key []byte) bool {
 	if record.sessionState.getSessionVersion() == version &&
-		bytes.Equal(key, record.sessionState.getAliceBaseKey()) {
+		equivalentPublicKeys(key, record.sessionState.getAliceBaseKey()) {
 		return true
 	}
 	for _, ss := range record.PreviousStates {
 		if ss.getSessionVersion() == version &&
-			bytes.Equal(key, ss.getAliceBaseKey()) {
+			equivalentPublicKeys(key, ss.getAliceBaseKey()) {
 			return true
 		}
 	}
-- 
2.43.0


From f5089d59a2c3dd0bcd4fd8e0faa8f164dc928d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:57 +0000
Subject: [PATCH 55/55] fix: a signed prekey must not get the id that means
 none

---
 prekeys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prekeys.go b/prekeys.go
index 62527fc..b8ac4d1 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -106,8 +106,9 @@ func generatePreKeys() error {
 	return nil
 }
 
+// getNextSignedPreKeyID returns a 24 bit id other than 0, which means no signed prekey
 func getNextSignedPreKeyID() uint32 {
-	return randID()
+	return randUint32()%0xffffff + 1
 }
 
 func generateSignedPreKey() *axolotl.SignedPreKeyRecord {
-- 
2.43.0

