package textsecure

import (
	"math/rand"

	v "github.com/signal-golang/textsecure/zzspec"
)

func zzPad(p []byte) []byte {
	n := 16 - len(p)%16
	return v.Cat(p, v.Repeat(byte(n), n))
}

// aesEncrypt is a fresh random initialization vector and the CBC encryption of the padded plaintext
// under it; the input is left alone.
//
//vc:prop C10 C13 C26
//vc:target root.aesEncrypt root.randBytes
func vc_aesEncrypt(key, plaintext []byte) {
	v.Requires(v.Disjoint(plaintext, key))
	k0, p0 := v.Clone(key), v.Clone(plaintext)
	n0 := v.DrawnTotal()
	ct, err := aesEncrypt(key, plaintext)
	okKey := len(k0) == 16 || len(k0) == 24 || len(k0) == 32
	v.Ensures("aesEncrypt: error exactly for a bad key size", (err == nil) == okKey)
	if err == nil {
		v.Cover("encrypted")
		v.Ensures("aesEncrypt: IV is 16 fresh random bytes", v.DrawnTotal() == n0+16 && len(ct) > 16 && v.Eq(ct[:16], v.Drawn(16)))
		v.Ensures("aesEncrypt: ciphertext of the padded plaintext", v.Eq(ct[16:], v.CBCEnc(k0, ct[:16], zzPad(p0))))
	} else {
		v.Ensures("aesEncrypt: nothing with an error", ct == nil)
	}
	v.Ensures("aesEncrypt: inputs intact", v.Eq(key, k0) && v.Eq(plaintext, p0))
}

// A failing random source stops aesEncrypt: it does not return.
//
//vc:prop C26
//vc:target root.aesEncrypt root.randBytes
func vc_aesEncryptNoRandom(key, plaintext []byte) {
	v.Requires(v.Disjoint(plaintext, key))
	v.MayPanic()
	v.RandMayFail()
	n0 := v.DrawnTotal()
	ct, err := aesEncrypt(key, plaintext)
	v.Ensures("aesEncrypt: result only with 16 bytes drawn", err != nil || v.DrawnTotal() == n0+16 && v.Eq(ct[:16], v.Drawn(16)))
}

// aesDecrypt yields the plaintext without its padding, or an error, for every input.
//
//vc:prop C10 C13
//vc:target root.aesDecrypt
func vc_aesDecrypt(key, ciphertext []byte) {
	v.Requires(v.Disjoint(ciphertext, key))
	c0, k0 := v.Clone(ciphertext), v.Clone(key)
	p, err := aesDecrypt(key, ciphertext)
	okKey := len(k0) == 16 || len(k0) == 24 || len(k0) == 32
	v.Ensures("aesDecrypt: error for bad sizes", err != nil || okKey && len(c0)%16 == 0 && len(c0) >= 32)
	v.Ensures("aesDecrypt: no plaintext with an error", err == nil || p == nil)
	if okKey && len(c0)%16 == 0 && len(c0) >= 32 {
		v.Cover("blocks")
		d := v.CBCDec(k0, c0[:16], c0[16:])
		n := int(d[len(d)-1])
		if n >= 1 && n <= 16 {
			v.Ensures("aesDecrypt: plaintext without its padding", err == nil && v.Eq(p, d[:len(d)-n]))
		}
		if n > 16 {
			v.Ensures("aesDecrypt: bad padding is an error", err != nil)
		}
	}
}

//vc:prop C10 C13 C23
//vc:target root.aesEncrypt root.aesDecrypt
func vc_aesRoundTrip(key, plaintext []byte) {
	v.Requires(len(key) == 16 || len(key) == 32)
	v.Requires(v.Disjoint(plaintext, key))
	p0 := v.Clone(plaintext)
	ct, err := aesEncrypt(key, v.Clone(plaintext))
	v.Ensures("aes: encryption succeeds", err == nil)
	p, err := aesDecrypt(key, ct)
	v.Ensures("aes: decryption inverts encryption", err == nil && v.Eq(p, p0))
	v.Cover("round trip")
}

//vc:prop C10 C13
//vc:target root.appendMAC root.verifyMAC
func vc_rootMAC(key, b, mac []byte) {
	k0, b0, m0 := v.Clone(key), v.Clone(b), v.Clone(mac)
	ok := verifyMAC(key, b, mac)
	v.Ensures("verifyMAC: true exactly for the HMAC-SHA256 of the message", ok == v.Eq(m0, v.HMAC256(k0, b0)))
	r := appendMAC(key, v.Clone(b))
	v.Ensures("appendMAC: message and its HMAC-SHA256", v.Eq(r, v.Cat(b0, v.HMAC256(k0, b0))))
	if ok {
		v.Cover("valid")
	}
}

func zzKeyLen(r *rand.Rand) []byte {
	return zzRnd(r, []int{0, 16, 16, 20, 24, 32, 32, 33, 64}[r.Intn(9)])
}
func zzRnd(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	v.Fill(r, b)
	return b
}
func gen_vc_aesEncrypt(r *rand.Rand) []interface{}         { return []interface{}{zzKeyLen(r), v.RandBytes(r)} }
func gen_vc_aesEncryptNoRandom(r *rand.Rand) []interface{} { return gen_vc_aesEncrypt(r) }
func gen_vc_aesRoundTrip(r *rand.Rand) []interface{}       { return gen_vc_aesEncrypt(r) }
func gen_vc_aesDecrypt(r *rand.Rand) []interface{} {
	k := zzKeyLen(r)
	c := v.RandBytes(r)
	switch r.Intn(4) {
	case 0:
		if len(k) == 16 || len(k) == 32 {
			c = v.Cat(c[:0], zzRnd(r, 16))
			c = v.Cat(c, v.CBCEnc(k, c, zzPad(v.RandBytes(r))))
		}
	case 1:
		c = zzRnd(r, 16*r.Intn(5))
	}
	return []interface{}{k, c}
}
func gen_vc_rootMAC(r *rand.Rand) []interface{} {
	k, b := v.RandBytes(r), v.RandBytes(r)
	m := v.HMAC256(k, b)
	switch r.Intn(4) {
	case 0:
		m[r.Intn(32)] ^= 4
	case 1:
		m = m[:r.Intn(33)]
	case 2:
		m = v.Cat(m, v.RandBytes(r))
	}
	return []interface{}{k, b, m}
}
