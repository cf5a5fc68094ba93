package textsecure

import (
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/curve25519sign"
	"github.com/signal-golang/textsecure/helpers"
	v "github.com/signal-golang/textsecure/zzspec"
)

// The password for the server is sixteen random bytes.
//
//vc:prop C26
//vc:target root.generatePassword root.randBytes
func vc_password() {
	n0 := v.DrawnTotal()
	p := generatePassword()
	v.Ensures("password: 16 random bytes", v.DrawnTotal() == n0+16 && p == helpers.Base64EncWithoutPadding(v.Drawn(16)))
	v.Cover("password")
}

// The registration id is fourteen random bits.
//
//vc:prop C26
//vc:target root.generateRegistrationID root.randUint32
func vc_registrationID() {
	n0 := v.DrawnTotal()
	id := generateRegistrationID()
	d := v.Drawn(4)
	v.Ensures("registration id: 14 random bits", v.DrawnTotal() == n0+4 && id == uint32(d[2]&0x3f)<<8|uint32(d[3]))
	v.Cover("id")
}

// The signaling key is a version and 51 random bytes.
//
//vc:prop C26
//vc:target root.generateSignalingKey root.randBytes
func vc_signalingKey() {
	n0 := v.DrawnTotal()
	k := generateSignalingKey()
	v.Ensures("signaling key: a version and random bytes", v.DrawnTotal() == n0+52 && len(k) == 52 && k[0] == 1 && v.Eq(k[1:], v.Drawn(52)[1:]))
	v.Cover("key")
}

// No id comes from a random source that fails: what needs it does not return.
//
//vc:prop C26
//vc:target root.randUint32 root.randBytes root.generatePassword root.generateSignalingKey
func vc_noRandom() {
	v.MayPanic()
	v.RandMayFail()
	n0 := v.DrawnTotal()
	randUint32()
	v.Ensures("random: none without the source", v.DrawnTotal() == n0+4)
	generatePassword()
	v.Ensures("password: none without the source", v.DrawnTotal() == n0+20)
	generateSignalingKey()
	v.Ensures("signaling key: none without the source", v.DrawnTotal() == n0+72)
}

// A new group's id is sixteen random bytes.
//
//vc:prop C26
//vc:target root.newGroupID
func vc_groupID() {
	textSecureStore = nil
	groups = map[string]*Group{}
	n0 := v.DrawnTotal()
	id := newGroupID()
	v.Ensures("group id: 16 random bytes", v.DrawnTotal() == n0+16 && len(id) == 16 && v.Eq(id, v.Drawn(16)))
	v.Cover("id")
}

// A signed prekey is a fresh key pair under a random id, signed with 64 random bytes of its own.
//
//vc:prop C26 C12
//vc:target root.generateSignedPreKey axolotl.NewECKeyPair
//vc:bounded
func vc_signedPreKeyRandom() {
	zzSetup(false)
	n0 := v.DrawnTotal()
	rec := generateSignedPreKey()
	d := v.Drawn(v.DrawnTotal() - n0)
	v.Ensures("signed prekey: a key, an id and a nonce are drawn", len(d) >= 32+64)
	key, sig := false, false
	for off := 0; off+32 <= len(d); off++ {
		k := append([]byte{}, d[off:off+32]...)
		k[0] &= 248
		k[31] = k[31]&63 | 64
		key = key || v.Eq(rec.Spkrs.PrivateKey, k)
	}
	for off := 0; off+64 <= len(d); off++ {
		var rnd [64]byte
		copy(rnd[:], d[off:])
		s := curve25519sign.Sign(identityKey.PrivateKey.Key(), axolotl.NewECPublicKey(rec.Spkrs.PublicKey).Serialize(), rnd)
		sig = sig || v.Eq(rec.Spkrs.Signature, s[:])
	}
	v.Ensures("signed prekey: the key drawn", key && v.Eq(rec.Spkrs.PublicKey, v.X25519Base(rec.Spkrs.PrivateKey)))
	v.Ensures("signed prekey: signed with a nonce drawn", sig)
	v.Cover("signed")
}
