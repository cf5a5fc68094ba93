package axolotl

import (
	"errors"
	"math/rand"

	protobuf "github.com/signal-golang/textsecure/axolotl/protobuf"
	"github.com/signal-golang/textsecure/curve25519sign"
	v "github.com/signal-golang/textsecure/zzspec"
)

// zzStub is a set of stores whose failures are chosen and whose use is recorded.
type zzStub struct {
	rec                                              *SessionRecord
	id                                               *IdentityKeyPair
	reg                                              uint32
	pre                                              *PreKeyRecord
	spre                                             *SignedPreKeyRecord
	loadFails, storeFails, saveFails, idFails        bool
	regFails, preFails, spreFails, trusted           bool
	locked, badLock                                  bool
	clock                                            int
	loadAt, storeAt, saveAt, removeAt                int
	loads, stores, saves, removes, signedRemoves     int
	removed, preAsked, spreAsked                     uint32
	savedID                                          string
	savedKey, trustKey                               []byte
	trustID, loadID, storeID                         string
	loadDev, storeDev                                uint32
	sndIdx                                           uint32
	sndKey                                           []byte
	stored                                           *SessionRecord
	preStores                                        int
}

var zzStubErr = errors.New("store failure")

func (z *zzStub) tick() int { z.clock++; return z.clock }

func (z *zzStub) GetIdentityKeyPair() (*IdentityKeyPair, error) {
	if z.idFails {
		return nil, zzStubErr
	}
	return z.id, nil
}
func (z *zzStub) GetLocalRegistrationID() (uint32, error) {
	if z.regFails {
		return 0, zzStubErr
	}
	return z.reg, nil
}
func (z *zzStub) SaveIdentity(id string, k *IdentityKey) error {
	z.saves++
	z.saveAt = z.tick()
	if z.saveFails {
		return zzStubErr
	}
	z.savedID, z.savedKey = id, v.Clone(k.key[:])
	return nil
}
func (z *zzStub) IsTrustedIdentity(id string, k *IdentityKey) bool {
	z.trustID, z.trustKey = id, v.Clone(k.key[:])
	return z.trusted
}
func (z *zzStub) LoadPreKey(id uint32) (*PreKeyRecord, error) {
	z.preAsked = id
	if z.preFails {
		return nil, zzStubErr
	}
	return z.pre, nil
}
func (z *zzStub) StorePreKey(uint32, *PreKeyRecord) error { z.preStores++; return nil }
func (z *zzStub) ContainsPreKey(uint32) bool              { return false }
func (z *zzStub) RemovePreKey(id uint32) {
	z.removes++
	z.removeAt = z.tick()
	z.removed = id
}
func (z *zzStub) LoadSignedPreKey(id uint32) (*SignedPreKeyRecord, error) {
	z.spreAsked = id
	if z.spreFails {
		return nil, zzStubErr
	}
	return z.spre, nil
}
func (z *zzStub) LoadSignedPreKeys() []SignedPreKeyRecord                { return nil }
func (z *zzStub) StoreSignedPreKey(uint32, *SignedPreKeyRecord) error     { z.preStores++; return nil }
func (z *zzStub) ContainsSignedPreKey(uint32) bool                       { return false }
func (z *zzStub) RemoveSignedPreKey(uint32)                              { z.signedRemoves++ }
func (z *zzStub) Lock() {
	if z.locked {
		z.badLock = true
	}
	z.locked = true
}
func (z *zzStub) Unlock() {
	if !z.locked {
		z.badLock = true
	}
	z.locked = false
}
func (z *zzStub) LoadSession(id string, dev uint32) (*SessionRecord, error) {
	z.loads++
	z.loadAt = z.tick()
	z.loadID, z.loadDev = id, dev
	if !z.locked {
		z.badLock = true
	}
	if z.loadFails {
		return nil, zzStubErr
	}
	return z.rec, nil
}
func (z *zzStub) GetSubDeviceSessions(string) []uint32 { return nil }
func (z *zzStub) StoreSession(id string, dev uint32, r *SessionRecord) error {
	z.stores++
	z.storeAt = z.tick()
	z.storeID, z.storeDev = id, dev
	if !z.locked {
		z.badLock = true
	}
	if z.storeFails {
		return zzStubErr
	}
	z.stored = r
	z.sndIdx = r.sessionState.SS.GetSenderChain().GetChainKey().GetIndex()
	z.sndKey = v.Clone(r.sessionState.SS.GetSenderChain().GetChainKey().GetKey())
	return nil
}
func (z *zzStub) ContainsSession(string, uint32) bool { return true }
func (z *zzStub) DeleteSession(string, uint32)        { z.stores++ }
func (z *zzStub) DeleteAllSessions(string)            { z.stores++ }

// Encryption: whichever store fails, no message without a stored advance, all under the lock.
//vc:prop C06 C27
//vc:target (*axolotl.SessionCipher).SessionEncryptMessage
func vc_SessionEncrypt(ss *protobuf.SessionStructure, plaintext []byte, loadFails, storeFails bool) {
	v.Requires(zzState(ss))
	v.Requires(ss.PendingPreKey == nil || len(ss.PendingPreKey.BaseKey) == 33)
	v.Requires(len(plaintext) < 1<<20 && ss.SenderChain.ChainKey.Index < 0xFFFFFFFF)
	st := &zzStub{rec: &SessionRecord{sessionState: newSessionState(ss)}, loadFails: loadFails, storeFails: storeFails}
	sc := NewSessionCipher(st, st, st, st, "peer", 7)
	key0, idx0 := v.Clone(ss.SenderChain.ChainKey.Key), ss.SenderChain.ChainKey.Index
	pending := ss.PendingPreKey != nil
	rk := v.Clone(ss.SenderChain.SenderRatchetKey)
	msg, typ, err := sc.SessionEncryptMessage(v.Clone(plaintext))
	v.Ensures("encrypt: lock held across load and store, and released", !st.badLock && !st.locked)
	v.Ensures("encrypt: the peer's session only", st.loads == 1 && st.loadID == "peer" && st.loadDev == 7 && (st.stores == 0 || st.storeID == "peer" && st.storeDev == 7))
	v.Ensures("encrypt: no other record touched", st.saves == 0 && st.removes == 0 && st.signedRemoves == 0 && st.preStores == 0)
	if loadFails || storeFails {
		v.Cover("store failure")
		v.Ensures("encrypt: a store failure is an error", err != nil)
	}
	if err != nil {
		v.Ensures("encrypt: failure returns no message", msg == nil)
		return
	}
	v.Cover("encrypted")
	v.Ensures("encrypt: a message is returned", msg != nil)
	v.Ensures("encrypt: the session is stored once, before the message is handed out", st.stores == 1 && st.stored == st.rec)
	v.Ensures("encrypt: the stored chain is one further", st.sndIdx == idx0+1 && v.Eq(st.sndKey, v.HMAC256(key0, []byte{2})))
	v.Ensures("encrypt: ratchet key unchanged", v.Eq(ss.SenderChain.SenderRatchetKey, rk))
	v.Ensures("encrypt: a prekey message exactly until acknowledged", pending == (typ == 3) && (typ == 3 || typ == 1))
}

// What callers of decrypt rely on (checked by execution only, see vc_History): it works on the record
// it is given and returns nothing with an error.
//vc:prop C03
//vc:target (*axolotl.SessionCipher).decrypt
//vc:modular
//vc:bounded
//vc:norun
func vc_cipherDecrypt(sc *SessionCipher, sr *SessionRecord, wm *WhisperMessage) {
	v.Requires(sc != nil && sr != nil && wm != nil)
	b, err := sc.decrypt(sr, wm)
	v.Modifies(sr)
	v.Ensures("decrypt: nothing with an error", err == nil || b == nil)
	v.Ensures("decrypt: the record keeps a current state", sr.sessionState != nil && sr.sessionState.SS != nil)
}

// Decryption: whatever fails, nothing is stored; otherwise the session is, before the plaintext is
// handed out; all under the lock.
//vc:prop C03 C04 C27
//vc:target (*axolotl.SessionCipher).SessionDecryptWhisperMessage
//vc:uses vc_cipherDecrypt
func vc_SessionDecrypt(sr *SessionRecord, wm *WhisperMessage, loadFails, storeFails bool) {
	v.Requires(sr != nil && wm != nil)
	st := &zzStub{rec: sr, loadFails: loadFails, storeFails: storeFails}
	sc := NewSessionCipher(st, st, st, st, "peer", 7)
	b, err := sc.SessionDecryptWhisperMessage(wm)
	v.Ensures("decrypt: lock held across load and store, and released", !st.badLock && !st.locked)
	v.Ensures("decrypt: the peer's session only", st.loads == 1 && st.loadID == "peer" && st.loadDev == 7 && (st.stores == 0 || st.storeID == "peer" && st.storeDev == 7))
	v.Ensures("decrypt: no other record touched", st.saves == 0 && st.removes == 0 && st.signedRemoves == 0 && st.preStores == 0)
	if loadFails {
		v.Ensures("decrypt: a store failure is an error", err != nil && st.stores == 0)
	}
	if err != nil {
		v.Ensures("decrypt: failure returns no plaintext", b == nil)
		v.Ensures("decrypt: failure stores nothing", st.stored == nil)
		return
	}
	v.Cover("decrypted")
	v.Ensures("decrypt: the session is stored before the plaintext is handed out", st.stores == 1 && st.stored == sr)
}

// zzPkwm: what LoadPreKeyWhisperMessage returns.
func zzPkwm(m *PreKeyWhisperMessage) bool {
	return m != nil && m.BaseKey != nil && m.IdentityKey != nil && m.Message != nil
}

func zzSpre(r *SignedPreKeyRecord) bool {
	return r != nil && r.Spkrs != nil && len(r.Spkrs.PublicKey) == 32 && len(r.Spkrs.PrivateKey) == 32
}

func zzPre(r *PreKeyRecord) bool {
	return r != nil && r.Pkrs != nil && len(r.Pkrs.PublicKey) == 32 && len(r.Pkrs.PrivateKey) == 32
}

// A prekey message: nothing is stored or used up unless it was trusted and decrypted; then identity,
// session and last the one-time prekey it names, which alone is removed.
//vc:prop C03 C07 C08 C27
//vc:target (*axolotl.SessionCipher).SessionDecryptPreKeyWhisperMessage (*axolotl.SessionBuilder).BuildReceiverSession
//vc:uses vc_cipherDecrypt vc_hasSessionState
//vc:time 250
func vc_SessionDecryptPreKey(ss *protobuf.SessionStructure, fresh bool, m *PreKeyWhisperMessage, id *IdentityKeyPair, reg uint32, pre *PreKeyRecord, spre *SignedPreKeyRecord, loadFails, storeFails, saveFails, idFails, regFails, preFails, spreFails, trusted bool) {
	v.Requires(zzPkwm(m) && id != nil && zzPre(pre) && zzSpre(spre) && ss != nil)
	sr := &SessionRecord{sessionState: newSessionState(ss), Fresh: fresh}
	st := &zzStub{rec: sr, id: id, reg: reg, pre: pre, spre: spre, loadFails: loadFails, storeFails: storeFails, saveFails: saveFails, idFails: idFails, regFails: regFails, preFails: preFails, spreFails: spreFails, trusted: trusted}
	sc := NewSessionCipher(st, st, st, st, "peer", 7)
	known := ss.SessionVersion == uint32(m.Version) && zzSameKey(v.Cat([]byte{5}, m.BaseKey.key[:]), ss.AliceBaseKey)
	ik := m.IdentityKey.key
	ver, pkid, spkid := m.Version, m.PreKeyID, m.SignedPreKeyID
	b, err := sc.SessionDecryptPreKeyWhisperMessage(m)
	v.Ensures("prekey message: lock held across load and store, and released", !st.badLock && !st.locked)
	v.Ensures("prekey message: the peer's records only", (st.loads == 0 || st.loadID == "peer" && st.loadDev == 7) && (st.stores == 0 || st.storeID == "peer" && st.storeDev == 7) && (st.savedKey == nil || st.savedID == "peer"))
	v.Ensures("prekey message: signed prekeys stay", st.signedRemoves == 0 && st.preStores == 0)
	if ver != 3 || !trusted || loadFails {
		v.Cover("refused")
		v.Ensures("prekey message: other versions and untrusted identities are refused", err != nil)
	}
	if !known && (spreFails || idFails || regFails || pkid != 0 && preFails) {
		v.Cover("key missing")
		v.Ensures("prekey message: a key it names that is missing refuses it", err != nil)
	}
	if err != nil {
		v.Ensures("prekey message: failure returns no plaintext", b == nil)
		v.Ensures("prekey message: failure uses up no prekey", st.removes == 0)
		v.Ensures("prekey message: failure stores no session", st.stored == nil)
		v.Ensures("prekey message: identity saved only when about to store", st.savedKey == nil || st.stores == 1 && storeFails)
		return
	}
	v.Cover("accepted")
	v.Ensures("prekey message: the trusted identity is the message's", st.trustID == "peer" && v.Eq(st.trustKey, ik[:]))
	v.Ensures("prekey message: that identity is recorded", st.saves == 1 && v.Eq(st.savedKey, ik[:]))
	v.Ensures("prekey message: session stored", st.stores == 1 && st.stored == sr)
	if known || pkid == 0 || pkid == 0xFFFFFF {
		v.Ensures("prekey message: no prekey used up for a known session, without an id or as the last resort", st.removes == 0)
	} else {
		v.Cover("prekey removed")
		v.Ensures("prekey message: exactly the named prekey is removed, last", st.removes == 1 && st.removed == pkid && st.removeAt > st.storeAt && st.preAsked == pkid)
	}
	if !known {
		v.Ensures("prekey message: the signed prekey named is the one used", st.spreAsked == spkid)
	}
}

// zzBundle is a bundle as makePreKeyBundle builds it.
func zzBundle(b *PreKeyBundle) bool {
	return b != nil && b.IdentityKey != nil && b.SignedPreKeyPublic != nil
}

//vc:prop C07 C27 C06
//vc:target (*axolotl.SessionBuilder).BuildSenderSession
//vc:uses curve25519sign.vc_Verify
func vc_BuildSender(ss *protobuf.SessionStructure, fresh bool, pkb *PreKeyBundle, id *IdentityKeyPair, reg uint32, loadFails, storeFails, saveFails, idFails, regFails, trusted bool) {
	v.Requires(zzBundle(pkb) && id != nil && ss != nil)
	sr := &SessionRecord{sessionState: newSessionState(ss), Fresh: fresh}
	st := &zzStub{rec: sr, id: id, reg: reg, loadFails: loadFails, storeFails: storeFails, saveFails: saveFails, idFails: idFails, regFails: regFails, trusted: trusted}
	sb := NewSessionBuilder(st, st, st, st, "peer", 7)
	good := curve25519sign.Verify(pkb.IdentityKey.key, pkb.SignedPreKeyPublic.Serialize(), &pkb.SignedPreKeySignature)
	ik, spk := pkb.IdentityKey.key, pkb.SignedPreKeyPublic.key
	pkid, spkid, rid := pkb.PreKeyID, pkb.SignedPreKeyID, pkb.RegistrationID
	hadPre := pkb.PreKeyPublic != nil
	n := len(sr.PreviousStates)
	err := sb.BuildSenderSession(pkb)
	v.Ensures("bundle: lock held across load and store, and released", !st.badLock && !st.locked)
	v.Ensures("bundle: the peer's records only", (st.loads == 0 || st.loadID == "peer" && st.loadDev == 7) && (st.stores == 0 || st.storeID == "peer" && st.storeDev == 7) && (st.savedKey == nil || st.savedID == "peer"))
	v.Ensures("bundle: no prekey record touched", st.removes == 0 && st.signedRemoves == 0 && st.preStores == 0)
	if !trusted {
		v.Cover("untrusted")
		v.Ensures("bundle: an untrusted identity is refused", err != nil && st.stores == 0 && st.saves == 0)
	}
	if !good {
		v.Cover("bad signature")
		v.Ensures("bundle: a wrong signed prekey signature is refused", err != nil && st.stores == 0 && st.saves == 0)
	}
	if trusted && good && loadFails {
		v.Ensures("bundle: a store failure is an error", err != nil && st.stores == 0 && st.saves == 0)
	}
	if err != nil {
		return
	}
	v.Cover("session built")
	v.Ensures("bundle: trust was asked for the bundle's identity", st.trustID == "peer" && v.Eq(st.trustKey, ik[:]))
	v.Ensures("bundle: that identity is recorded", st.saves == 1 && v.Eq(st.savedKey, ik[:]))
	v.Ensures("bundle: session stored", st.stores == 1 && st.stored == sr)
	s := sr.sessionState.SS
	v.Ensures("bundle: session names both identities and registrations", v.Eq(s.RemoteIdentityPublic, ik[:]) && v.Eq(s.LocalIdentityPublic, id.PublicKey.key[:]) && s.RemoteRegistrationId == rid && s.LocalRegistrationId == reg && s.SessionVersion == 3)
	p := s.PendingPreKey
	v.Ensures("bundle: the prekeys used are announced", p != nil && p.PreKeyId == pkid && p.SignedPreKeyId == spkid && len(p.BaseKey) == 33 && v.Eq(p.BaseKey, s.AliceBaseKey))
	_ = hadPre
	_ = spk
	if !fresh {
		v.Cover("old session archived")
		v.Ensures("bundle: the session there was is archived", len(sr.PreviousStates) == n+1 && sr.PreviousStates[0].SS == ss)
	}
}

// ---- inputs for execution ----

func zzB(r *rand.Rand) bool { return r.Intn(6) == 0 }

func gen_vc_SessionEncrypt(r *rand.Rand) []interface{} {
	p := make([]byte, r.Intn(60))
	v.Fill(r, p)
	return []interface{}{zzGenState(r).SS, p, zzB(r), zzB(r)}
}

// zzTwo: two parties, b's prekeys and a first message of a's to b.
func zzTwo(r *rand.Rand) (a, b *zzParty, m *PreKeyWhisperMessage, pre *PreKeyRecord, spre *SignedPreKeyRecord) {
	a, b = zzNewParty("a", r), zzNewParty("b", r)
	pid := []uint32{0, 9, 0xFFFFFF, 0xFFFFFE, 0x1000000, 1 << 31}[r.Intn(6)]
	bun := b.zzBundle(r, pid, 5)
	if r.Intn(4) == 0 {
		bun.PreKeyPublic = nil // named but not used
	}
	if a.zzBuild("b", bun) != nil {
		return
	}
	w, _, err := a.zzCipher("b").SessionEncryptMessage([]byte("hello"))
	if err != nil {
		return
	}
	m, _ = LoadPreKeyWhisperMessage(w)
	spre, _ = LoadSignedPreKeyRecord(b.spre[5])
	if pid != 0 {
		pre, _ = LoadPreKeyRecord(b.pre[pid])
	} else {
		pre = NewPreKeyRecord(3, NewECKeyPair())
	}
	return
}

func gen_vc_SessionDecrypt(r *rand.Rand) []interface{} {
	_, b, m, _, _ := zzTwo(r)
	if m == nil {
		return []interface{}{NewSessionRecord(), (*WhisperMessage)(nil), false, false}
	}
	sr := NewSessionRecord()
	b.Lock()
	NewSessionBuilder(b, b, b, b, "a", 1).BuildReceiverSession(sr, m)
	b.Unlock()
	return []interface{}{sr, m.Message, zzB(r), zzB(r)}
}

func gen_vc_SessionDecryptPreKey(r *rand.Rand) []interface{} {
	_, b, m, pre, spre := zzTwo(r)
	ss, fresh := &protobuf.SessionStructure{}, true
	switch {
	case m == nil:
	case r.Intn(4) == 0: // known already
		sr := NewSessionRecord()
		NewSessionBuilder(b, b, b, b, "a", 1).BuildReceiverSession(sr, m)
		ss, fresh = sr.sessionState.SS, false
	case r.Intn(3) == 0:
		ss, fresh = zzGenState(r).SS, false
	}
	if m != nil && r.Intn(8) == 0 {
		m.Version = byte(r.Intn(5))
	}
	return []interface{}{ss, fresh, m, b.id, b.reg, pre, spre, zzB(r), zzB(r), zzB(r), zzB(r), zzB(r), zzB(r), zzB(r), !zzB(r)}
}

func gen_vc_BuildSender(r *rand.Rand) []interface{} {
	a, b := zzNewParty("a", r), zzNewParty("b", r)
	bun := b.zzBundle(r, []uint32{0, 9}[r.Intn(2)], 5)
	if zzB(r) {
		bun.SignedPreKeySignature[r.Intn(64)] ^= 1 << uint(r.Intn(8))
	}
	ss, fresh := &protobuf.SessionStructure{}, true
	if r.Intn(2) == 0 {
		ss, fresh = zzGenState(r).SS, false
	}
	return []interface{}{ss, fresh, bun, a.id, a.reg, zzB(r), zzB(r), zzB(r), zzB(r), zzB(r), !zzB(r)}
}
