package axolotl

import (
	"math/rand"

	protobuf "github.com/signal-golang/textsecure/axolotl/protobuf"
	v "github.com/signal-golang/textsecure/zzspec"
)

// zzEncrypt: the next message of a session whose stores work.
func zzEncrypt(ss *protobuf.SessionStructure, plaintext []byte) ([]byte, error) {
	st := &zzStub{rec: &SessionRecord{sessionState: newSessionState(ss)}}
	sc := NewSessionCipher(st, st, st, st, "peer", 7)
	msg, _, err := sc.SessionEncryptMessage(v.Clone(plaintext))
	return msg, err
}

// An outgoing message carries its place in the chain, our ratchet key and the counter of our last chain, and
// its content and MAC are made with the keys of that place.
//vc:prop C01 C02 C05 C06 C14
//vc:target (*axolotl.SessionCipher).SessionEncryptMessage
func vc_outgoingMessage(ss *protobuf.SessionStructure, plaintext []byte) {
	v.Requires(zzState(ss) && ss.PendingPreKey == nil && ss.SessionVersion == 3)
	v.Requires(len(plaintext) < 1<<20 && ss.SenderChain.ChainKey.Index < 0xFFFFFFFF)
	k, idx := zzMessageKeys(ss.SenderChain.ChainKey.Key), ss.SenderChain.ChainKey.Index
	rk, pc := v.Clone(ss.SenderChain.SenderRatchetKey), ss.PreviousCounter
	local, remote := v.Clone(ss.LocalIdentityPublic), v.Clone(ss.RemoteIdentityPublic)
	b, err := zzEncrypt(ss, plaintext)
	if err != nil {
		return
	}
	v.Cover("sent")
	m, err := LoadWhisperMessage(b)
	v.Ensures("outgoing message: readable", err == nil)
	v.Ensures("outgoing message: its place in the chain", m.Counter == idx)
	v.Ensures("outgoing message: the counter of our last chain", m.PreviousCounter == pc)
	v.Ensures("outgoing message: our ratchet key", v.Eq(m.RatchetKey.key[:], rk))
	v.Ensures("outgoing message: the content under the keys of its place", v.Eq(m.Ciphertext, v.CBCEnc(k[:32], k[64:80], zzPad(plaintext))))
	n := len(b) - 8
	v.Ensures("outgoing message: the MAC under the key of its place", v.Eq(b[n:], zzMac(local, remote, k[32:64], b[:n])))
}
func gen_vc_outgoingMessage(r *rand.Rand) []interface{} {
	s := zzGenState(r)
	s.SS.PendingPreKey = nil
	s.SS.PreviousCounter = zzU32(r)
	return []interface{}{s.SS, v.RandBytes(r)}
}

// Until acknowledged, outgoing messages also name the prekeys used, our identity and our registration.
//vc:prop C01 C07 C08
//vc:target (*axolotl.SessionCipher).SessionEncryptMessage
func vc_outgoingPreKeyMessage(ss *protobuf.SessionStructure, plaintext []byte) {
	v.Requires(zzState(ss) && ss.PendingPreKey != nil && len(ss.PendingPreKey.BaseKey) == 33 && ss.PendingPreKey.SignedPreKeyId != 0 && ss.SessionVersion == 3)
	v.Requires(len(plaintext) < 1<<20 && ss.SenderChain.ChainKey.Index < 0xFFFFFFFF)
	idx, pc := ss.SenderChain.ChainKey.Index, ss.PreviousCounter
	rk, local := v.Clone(ss.SenderChain.SenderRatchetKey), v.Clone(ss.LocalIdentityPublic)
	p := ss.PendingPreKey
	pid, spid, base, reg := p.PreKeyId, p.SignedPreKeyId, v.Clone(p.BaseKey), ss.LocalRegistrationId
	b, err := zzEncrypt(ss, plaintext)
	if err != nil {
		return
	}
	m, err := LoadPreKeyWhisperMessage(b)
	if base[0] != 5 { // not a state this code makes
		return
	}
	v.Cover("sent")
	v.Ensures("outgoing prekey message: readable", err == nil)
	v.Ensures("outgoing prekey message: our registration", m.RegistrationID == reg)
	v.Ensures("outgoing prekey message: the prekey used", m.PreKeyID == pid)
	v.Ensures("outgoing prekey message: the signed prekey used", m.SignedPreKeyID == uint32(spid))
	v.Ensures("outgoing prekey message: the base key", v.Eq(m.BaseKey.key[:], base[1:]))
	v.Ensures("outgoing prekey message: our identity", v.Eq(m.IdentityKey.key[:], local))
	v.Ensures("outgoing prekey message: the message's place in the chain", m.Message.Counter == idx && m.Message.PreviousCounter == pc)
	v.Ensures("outgoing prekey message: our ratchet key", v.Eq(m.Message.RatchetKey.key[:], rk))
}
func gen_vc_outgoingPreKeyMessage(r *rand.Rand) []interface{} {
	s := zzGenState(r)
	s.SS.PendingPreKey = &protobuf.SessionStructure_PendingPreKey{PreKeyId: zzU32(r), SignedPreKeyId: int32(zzU32(r)|1), BaseKey: zzKey(zzR32(r))}
	s.SS.PreviousCounter, s.SS.LocalRegistrationId = zzU32(r), zzU32(r)
	return []interface{}{s.SS, v.RandBytes(r)}
}

// A session replaced by a new one is kept, first among up to 40 earlier ones. (q is any position.)
//vc:prop C03 C05 C01
//vc:target (*axolotl.SessionBuilder).BuildSenderSession
//vc:uses curve25519sign.vc_Verify
func vc_BuildSenderArchive(ss *protobuf.SessionStructure, prev []*sessionState, pkb *PreKeyBundle, id *IdentityKeyPair, q int) {
	v.Requires(zzBundle(pkb) && id != nil && ss != nil && len(prev) <= 40)
	sr := &SessionRecord{sessionState: newSessionState(ss), PreviousStates: prev}
	st := &zzStub{rec: sr, id: id, trusted: true}
	n := len(prev)
	var was *sessionState
	if q > 0 && q <= n {
		was = prev[q-1]
	}
	err := NewSessionBuilder(st, st, st, st, "peer", 7).BuildSenderSession(pkb)
	if err != nil {
		return
	}
	v.Cover("session replaced")
	v.Ensures("replaced session: kept first", len(sr.PreviousStates) > 0 && sr.PreviousStates[0].SS == ss)
	v.Ensures("replaced session: up to 40 kept", len(sr.PreviousStates) == n+1 || n == 40 && len(sr.PreviousStates) == 40)
	v.Ensures("replaced session: the earlier ones follow in order", q <= 0 || q > n || q >= 40 || sr.PreviousStates[q] == was)
}
func zzPrev(r *rand.Rand) []*sessionState {
	p := make([]*sessionState, []int{0, 1, 2, 38, 39, 40, r.Intn(41)}[r.Intn(7)])
	for i := range p {
		p[i] = newSessionState(&protobuf.SessionStructure{SessionVersion: 3, AliceBaseKey: zzKey(zzR32(r))})
	}
	return p
}
func gen_vc_BuildSenderArchive(r *rand.Rand) []interface{} {
	a, b := zzNewParty("a", r), zzNewParty("b", r)
	bun := b.zzBundle(r, []uint32{0, 9}[r.Intn(2)], 5)
	p := zzPrev(r)
	return []interface{}{zzGenState(r).SS, p, bun, a.id, r.Intn(len(p) + 2)}
}

//vc:prop C03 C05
//vc:target (*axolotl.SessionCipher).SessionDecryptPreKeyWhisperMessage (*axolotl.SessionBuilder).BuildReceiverSession
//vc:uses vc_hasSessionState
func vc_BuildReceiverArchive(ss *protobuf.SessionStructure, prev []*sessionState, m *PreKeyWhisperMessage, id *IdentityKeyPair, pre *PreKeyRecord, spre *SignedPreKeyRecord, q int) {
	v.Requires(zzPkwm(m) && id != nil && zzPre(pre) && zzSpre(spre) && ss != nil && len(prev) <= 40)
	v.Requires(v.Forall(0, len(prev), func(i int) bool { return prev[i] != nil && prev[i].SS != nil }))
	sr := &SessionRecord{sessionState: newSessionState(ss), PreviousStates: prev}
	st := &zzStub{rec: sr, id: id, pre: pre, spre: spre, trusted: true}
	n := len(prev)
	var was *sessionState
	if q > 0 && q <= n {
		was = prev[q-1]
	}
	known := sr.hasSessionState(uint32(m.Version), m.BaseKey.Serialize())
	_, err := NewSessionBuilder(st, st, st, st, "peer", 7).BuildReceiverSession(sr, m)
	if err != nil {
		return
	}
	if known {
		v.Cover("known session")
		v.Ensures("known session: nothing is replaced", sr.sessionState.SS == ss && len(sr.PreviousStates) == n)
		return
	}
	v.Cover("session replaced")
	v.Ensures("replaced session: kept first", len(sr.PreviousStates) > 0 && sr.PreviousStates[0].SS == ss)
	v.Ensures("replaced session: up to 40 kept", len(sr.PreviousStates) == n+1 || n == 40 && len(sr.PreviousStates) == 40)
	v.Ensures("replaced session: the earlier ones follow in order", q <= 0 || q > n || q >= 40 || sr.PreviousStates[q] == was)
}
func gen_vc_BuildReceiverArchive(r *rand.Rand) []interface{} {
	_, b, m, pre, spre := zzTwo(r)
	p := zzPrev(r)
	if m != nil && len(p) > 0 && r.Intn(4) == 0 {
		p[r.Intn(len(p))].SS.AliceBaseKey = zzKey(m.BaseKey.key[:])
	}
	return []interface{}{zzGenState(r).SS, p, m, b.id, pre, spre, r.Intn(len(p) + 2)}
}
