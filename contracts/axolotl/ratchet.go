package axolotl

import (
	v "github.com/signal-golang/textsecure/zzspec"
)

// zzPair is a key pair whose public key belongs to its private key.
func zzPair(priv [32]byte) *ECKeyPair {
	return MakeECKeyPair(priv[:], v.X25519Base(priv[:]))
}

// DeriveSecrets is HKDF-SHA256.
//vc:prop C01
//vc:target axolotl.DeriveSecrets
func vc_DeriveSecrets(secret, salt, info []byte, size int) {
	v.Requires(size >= 0 && size <= 8160)
	s0, t0, i0 := v.Clone(secret), v.Clone(salt), v.Clone(info)
	b, err := DeriveSecrets(secret, salt, info, size)
	v.Ensures("derive: succeeds", err == nil)
	v.Ensures("derive: is HKDF-SHA256", v.Eq(b, v.HKDF256(s0, t0, i0, size)))
	v.Ensures("derive: inputs intact", v.Eq(secret, s0) && v.Eq(salt, t0) && v.Eq(info, i0))
	v.Cover("derived")
}

// Both ends of a ratchet step agree.
//vc:prop C01
//vc:target (*axolotl.rootKey).createChain
func vc_createChain(root, a, b [32]byte) {
	pa, pb := zzPair(a), zzPair(b)
	rk := newRootKey(root[:])
	da, err := rk.createChain(&pb.PublicKey, pa)
	v.Ensures("ratchet step: succeeds", err == nil)
	db, err2 := rk.createChain(&pa.PublicKey, pb)
	v.Ensures("ratchet step: succeeds", err2 == nil)
	v.Ensures("ratchet step: both ends derive the same root key", da.rootKey.Key == db.rootKey.Key)
	v.Ensures("ratchet step: both ends derive the same chain key", da.chainKey.Key == db.chainKey.Key)
	v.Ensures("ratchet step: chain starts at 0", da.chainKey.Index == 0 && db.chainKey.Index == 0)
	k := v.HKDF256(v.X25519(a[:], pb.PublicKey.key[:]), root[:], []byte("WhisperRatchet"), 64)
	v.Ensures("ratchet step: keys are those of the protocol", v.Eq(da.rootKey.Key[:], k[:32]) && v.Eq(da.chainKey.Key[:], k[32:]))
	v.Ensures("ratchet step: root key and pairs intact", rk.Key == root && pa.PrivateKey.key == a && pb.PrivateKey.key == b)
	v.Cover("ratchet step")
}

//vc:prop C01 C06
//vc:target (*axolotl.chainKey).getNextChainKey
func vc_getNextChainKey(key [32]byte, index uint32) {
	ck := newChainKey(key[:], index)
	n := ck.getNextChainKey()
	v.Ensures("next chain key: derived with seed 2", v.Eq(n.Key[:], v.HMAC256(key[:], []byte{2})))
	v.Ensures("next chain key: next index", n.Index == index+1)
	v.Ensures("next chain key: old one intact", ck.Key == key && ck.Index == index)
	v.Cover("next")
}

//vc:prop C01 C06
//vc:target (*axolotl.chainKey).getMessageKeys
func vc_getMessageKeys(key [32]byte, index uint32) {
	ck := newChainKey(key[:], index)
	m, err := ck.getMessageKeys()
	v.Ensures("message keys: derived", err == nil)
	k := v.HKDF256(v.HMAC256(key[:], []byte{1}), nil, []byte("WhisperMessageKeys"), 80)
	v.Ensures("message keys: cipher key", v.Eq(m.CipherKey, k[:32]))
	v.Ensures("message keys: mac key", v.Eq(m.MacKey, k[32:64]))
	v.Ensures("message keys: iv", v.Eq(m.Iv, k[64:80]))
	v.Ensures("message keys: index", m.Index == index)
	v.Ensures("message keys: chain key intact", ck.Key == key && ck.Index == index)
	v.Cover("message keys")
}

// Initiator and responder of a session derive the same keys.
//vc:prop C01
//vc:target axolotl.initializeSenderSession
func vc_agreement(ida, base, idb, spk, otk [32]byte, oneTime bool) {
	ia := NewIdentityKeyPairFromKeys(ida[:], v.X25519Base(ida[:]))
	ib := NewIdentityKeyPairFromKeys(idb[:], v.X25519Base(idb[:]))
	pbase, pspk, potk := zzPair(base), zzPair(spk), zzPair(otk)
	al := aliceAxolotlParameters{
		OurIdentityKey: ia, OurBaseKey: pbase,
		TheirIdentity: &ib.PublicKey, TheirSignedPreKey: &pspk.PublicKey, TheirRatchetKey: &pspk.PublicKey,
	}
	bo := bobAxolotlParameters{
		OurIdentityKey: ib, OurSignedPreKey: pspk, OurRatchetKey: pspk,
		TheirBaseKey: &pbase.PublicKey, TheirIdentity: &ia.PublicKey,
	}
	if oneTime {
		al.TheirOneTimePreKey = &potk.PublicKey
		bo.OurOneTimePreKey = potk
		v.Cover("with one-time prekey")
	} else {
		v.Cover("without one-time prekey")
	}
	ra, rb := NewSessionRecord(), NewSessionRecord()
	sa, sb := ra.sessionState, rb.sessionState
	v.Ensures("agreement: initiator derives", initializeSenderSession(sa, 3, al) == nil)
	v.Ensures("agreement: responder derives", initializeReceiverSession(sb, 3, bo) == nil)
	// the secret both sides must start from
	ms := v.Cat(v.Repeat(0xFF, 32), v.X25519(ida[:], pspk.PublicKey.key[:]), v.X25519(base[:], ib.PublicKey.key[:]), v.X25519(base[:], pspk.PublicKey.key[:]))
	if oneTime {
		ms = v.Cat(ms, v.X25519(base[:], potk.PublicKey.key[:]))
	}
	k := v.HKDF256(ms, nil, []byte("WhisperText"), 64)
	v.Ensures("agreement: responder's root key is that of the protocol", v.Eq(sb.SS.RootKey, k[:32]))
	v.Ensures("agreement: responder's first chain key is that of the protocol", v.Eq(sb.getSenderChainKey().Key[:], k[32:]) && sb.getSenderChainKey().Index == 0)
	v.Ensures("agreement: initiator expects the responder's first chain", v.Eq(sa.getReceiverChainKey(&pspk.PublicKey).Key[:], k[32:]))
	v.Ensures("agreement: identities and version", sa.getSessionVersion() == 3 && sb.getSessionVersion() == 3 &&
		sa.getLocalIdentityPublic().key == ia.PublicKey.key && sa.getRemoteIdentityPublic().key == ib.PublicKey.key &&
		sb.getLocalIdentityPublic().key == ib.PublicKey.key && sb.getRemoteIdentityPublic().key == ia.PublicKey.key)
	// first message from the initiator: the responder steps its ratchet with the initiator's key
	ap := sa.getSenderRatchetKeyPair()
	v.Ensures("agreement: fresh ratchet key pair", v.Eq(ap.PublicKey.key[:], v.X25519Base(ap.PrivateKey.key[:])))
	ck, err := getOrCreateChainKey(sb, &ap.PublicKey)
	v.Ensures("agreement: responder follows", err == nil)
	v.Ensures("agreement: same first message chain", ck.Key == sa.getSenderChainKey().Key && ck.Index == 0 && sa.getSenderChainKey().Index == 0)
	// and the initiator follows the responder's answer
	bp := sb.getSenderRatchetKeyPair()
	v.Assume(bp.PublicKey.key != pspk.PublicKey.key && ap.PublicKey.key != pspk.PublicKey.key) // random keys do not repeat
	ck2, err := getOrCreateChainKey(sa, &bp.PublicKey)
	v.Ensures("agreement: initiator follows", err == nil)
	v.Ensures("agreement: same answering chain", ck2.Key == sb.getSenderChainKey().Key)
	// and once more
	ap2 := sa.getSenderRatchetKeyPair()
	v.Assume(ap2.PublicKey.key != ap.PublicKey.key)
	ck3, err := getOrCreateChainKey(sb, &ap2.PublicKey)
	v.Ensures("agreement: responder follows again", err == nil && ck3.Key == sa.getSenderChainKey().Key)
}
