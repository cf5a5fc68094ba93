package axolotl

import v "github.com/signal-golang/textsecure/zzspec"

// A private key is 32 bytes of the system's random source, brought into the form of the curve; the public key
// is the one belonging to it.
//
//vc:prop C26 C06 C12
//vc:target axolotl.NewECKeyPair axolotl.randBytes
func vc_keyPair() {
	n0 := v.DrawnTotal()
	kp := NewECKeyPair()
	d := v.Drawn(32)
	v.Ensures("key pair: 32 random bytes", v.DrawnTotal() == n0+32)
	k := kp.PrivateKey.Key()
	v.Ensures("key pair: all of them used", v.Eq(k[1:31], d[1:31]) && k[0] == d[0]&248 && k[31] == d[31]&63|64)
	v.Ensures("key pair: its public key", v.Eq(kp.PublicKey.Key()[:], v.X25519Base(k[:])))
	v.Cover("key pair")
}

// So is an identity.
//
//vc:prop C26
//vc:target axolotl.GenerateIdentityKeyPair axolotl.NewECKeyPair
func vc_identityKeyPair() {
	n0 := v.DrawnTotal()
	kp := GenerateIdentityKeyPair()
	d := v.Drawn(32)
	v.Ensures("identity: 32 random bytes", v.DrawnTotal() == n0+32)
	k := kp.PrivateKey.Key()
	v.Ensures("identity: all of them used", v.Eq(k[1:31], d[1:31]) && k[0] == d[0]&248 && k[31] == d[31]&63|64)
	v.Ensures("identity: its public key", v.Eq(kp.PublicKey.Key()[:], v.X25519Base(k[:])))
	v.Cover("identity")
}

// No key comes from a random source that fails: making one does not return.
//
//vc:prop C26
//vc:target axolotl.NewECKeyPair axolotl.randBytes
func vc_keyPairNoRandom() {
	v.MayPanic()
	v.RandMayFail()
	n0 := v.DrawnTotal()
	NewECKeyPair()
	v.Ensures("key pair: none without the source", v.DrawnTotal() == n0+32)
	GenerateIdentityKeyPair()
	v.Ensures("identity: none without the source", v.DrawnTotal() == n0+64)
}
