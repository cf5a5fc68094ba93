package zzspec

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"golang.org/x/crypto/curve25519"

	"golang.org/x/crypto/pbkdf2"
)

// Mathematical functions of the cryptographic primitives. The verifier treats them as
// uninterpreted functions with the laws stated in package zzmodels; at run time they are the real
// primitives.

func HMAC256(key, data []byte) []byte {
	m := hmac.New(sha256.New, key)
	m.Write(data)
	return m.Sum(nil)
}

func SHA256(data []byte) []byte {
	s := sha256.Sum256(data)
	return s[:]
}

// HKDF256 is HKDF-SHA256 (RFC 5869).
func HKDF256(secret, salt, info []byte, n int) []byte {
	if salt == nil {
		salt = make([]byte, 32)
	}
	prk := HMAC256(salt, secret)
	var t, out []byte
	for c := byte(1); len(out) < n; c++ {
		t = HMAC256(prk, Cat(t, info, []byte{c}))
		out = append(out, t...)
	}
	return out[:n]
}

// CBCEnc / CBCDec on whole blocks.
func CBCEnc(key, iv, p []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil
	}
	c := make([]byte, len(p))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(c, p)
	return c
}

func CBCDec(key, iv, c []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil
	}
	p := make([]byte, len(c))
	cipher.NewCBCDecrypter(b, iv).CryptBlocks(p, c)
	return p
}

// GCMSeal returns ciphertext || tag.
func GCMSeal(key, nonce, p, aad []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil
	}
	g, err := cipher.NewGCM(b)
	if err != nil {
		return nil
	}
	return g.Seal(nil, nonce, p, aad)
}

// X25519 is the Diffie-Hellman function, X25519Base its public keys.
func X25519(priv, pub []byte) []byte {
	var d, a, b [32]byte
	copy(a[:], priv)
	copy(b[:], pub)
	curve25519.ScalarMult(&d, &a, &b)
	return d[:]
}

// KeyClass is what all serialized public keys with the same agreements have in common: a key's agreement with
// one private key. X25519 loses the top bit, the multiple of the prime and the small-order part of a public key
// under every private key alike, and nothing else.
func KeyClass(key []byte) []byte {
	if len(key) != 33 {
		return Clone(key)
	}
	return Cat([]byte{5}, X25519(make([]byte, 32), key[1:]))
}
func X25519Base(priv []byte) []byte {
	var d, a [32]byte
	copy(a[:], priv)
	curve25519.ScalarBaseMult(&d, &a)
	return d[:]
}

// ChainIter is the chain key n steps along a chain: HMAC with the seed 2, n times.
func ChainIter(key []byte, n int) []byte {
	for i := 0; i < n; i++ {
		key = HMAC256(key, []byte{2})
	}
	return append([]byte{}, key...)
}

func PBKDF2SHA1(password, salt []byte, iter, n int) []byte {
	return pbkdf2.Key(password, salt, iter, n, sha1.New)
}

// FPIter iterates SHA-512 n times over the previous digest (first: start) followed by the key.
func FPIter(start, key []byte, n int) []byte {
	h := append([]byte{}, start...)
	for i := 0; i < n; i++ {
		d := sha512.Sum512(append(h, key...))
		h = d[:]
	}
	return h
}

// Dec5 is n as five decimal digits.
func Dec5(n int) string { return fmt.Sprintf("%05d", n) }
