package axolotl

import (
	v "github.com/signal-golang/textsecure/zzspec"
)

func zzPad(p []byte) []byte {
	n := 16 - len(p)%16
	return v.Cat(p, v.Repeat(byte(n), n))
}

// Encrypt is CBC encryption of the PKCS#7 padded plaintext; errors exactly for bad key sizes; nothing
// but the result is written.
//vc:prop C02 C14
//vc:target axolotl.Encrypt
//vc:modular
func vc_Encrypt(key, iv, plaintext []byte) {
	v.Requires(len(iv) == 16 && v.Disjoint(plaintext, iv) && v.Disjoint(plaintext, key))
	k0, iv0, p0 := v.Clone(key), v.Clone(iv), v.Clone(plaintext)
	ct, err := Encrypt(key, iv, plaintext)
	v.Modifies(plaintext[:cap(plaintext)])
	okKey := len(k0) == 16 || len(k0) == 24 || len(k0) == 32
	v.Ensures("encrypt: error exactly for a bad key size", (err == nil) == okKey)
	v.Ensures("encrypt: nothing returned with an error", err == nil || ct == nil)
	if err == nil {
		v.Cover("encrypt ok")
		v.Ensures("encrypt: ciphertext of the padded plaintext", v.Eq(ct, v.CBCEnc(k0, iv0, zzPad(p0))))
		v.Ensures("encrypt: fresh result", v.Fresh(ct) && len(ct) == cap(ct))
	}
	v.Ensures("encrypt: inputs intact", v.Eq(key, k0) && v.Eq(iv, iv0) && v.Eq(plaintext, p0))
}

// Decrypt never panics.
//vc:prop C02 C14
//vc:target axolotl.Decrypt
func vc_Decrypt(key, ciphertext []byte) {
	c0 := v.Clone(ciphertext)
	k0 := v.Clone(key)
	p, err := Decrypt(key, ciphertext)
	okKey := len(k0) == 16 || len(k0) == 24 || len(k0) == 32
	v.Ensures("decrypt: error for bad sizes", err != nil || okKey && len(c0)%16 == 0 && len(c0) >= 32)
	v.Ensures("decrypt: no plaintext with an error", err == nil || p == nil)
	if err == nil {
		v.Cover("decrypt ok")
		d := v.CBCDec(k0, c0[:16], c0[16:])
		n := int(d[len(d)-1])
		v.Ensures("decrypt: plaintext without its padding", n <= 16 && v.Eq(p, d[:len(d)-n]))
	}
}

//vc:prop C02
//vc:target axolotl.ComputeTruncatedMAC
func vc_ComputeTruncatedMAC(msg, key []byte, size int) {
	v.Requires(size >= 0 && size <= 32)
	m0, k0 := v.Clone(msg), v.Clone(key)
	r := ComputeTruncatedMAC(msg, key, size)
	v.Ensures("mac: prefix of HMAC-SHA256", v.Eq(r, v.HMAC256(k0, m0)[:size]))
	v.Cover("mac")
}

//vc:prop C02
//vc:target axolotl.ValidTruncMAC
func vc_ValidTruncMAC(msg, mac, key []byte) {
	v.Requires(len(mac) <= 32)
	m0, k0, e0 := v.Clone(msg), v.Clone(key), v.Clone(mac)
	r := ValidTruncMAC(msg, mac, key)
	v.Ensures("mac: valid exactly when equal", r == v.Eq(e0, v.HMAC256(k0, m0)[:len(e0)]))
	if r {
		v.Cover("valid")
	} else {
		v.Cover("invalid")
	}
}

// What Encrypt produced under a key and IV, Decrypt returns.
//vc:prop C02 C14
//vc:target axolotl.Decrypt
//vc:uses vc_Encrypt
func vc_EncryptDecrypt(key, iv, plaintext []byte) {
	v.Requires(len(iv) == 16 && len(key) == 32 && v.Disjoint(plaintext, iv) && v.Disjoint(plaintext, key))
	p0 := v.Clone(plaintext)
	ct, err := Encrypt(key, iv, plaintext)
	v.Ensures("encrypt succeeds", err == nil)
	p, err := Decrypt(key, v.Cat(iv, ct))
	v.Ensures("decrypt inverts encrypt", err == nil && v.Eq(p, p0))
	v.Cover("roundtrip")
}
