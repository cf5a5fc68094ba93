package curve25519sign

import (
	"crypto/sha512"

	"github.com/signal-golang/ed25519"
	"github.com/signal-golang/ed25519/edwards25519"
	v "github.com/signal-golang/textsecure/zzspec"
	"golang.org/x/crypto/curve25519"
)

// zzEdPublic: the Edwards form of a Montgomery public key, sign bit clear.
func zzEdPublic(pub [32]byte) [32]byte {
	pub[31] &= 0x7F
	var one, x, a, b, y edwards25519.FieldElement
	edwards25519.FeOne(&one)
	edwards25519.FeFromBytes(&x, &pub)
	edwards25519.FeSub(&a, &x, &one)
	edwards25519.FeAdd(&b, &x, &one)
	edwards25519.FeInvert(&b, &b)
	edwards25519.FeMul(&y, &a, &b)
	var r [32]byte
	edwards25519.FeToBytes(&r, &y)
	return r
}

// zzVerify: the signature is an Ed25519 signature under the key's Edwards form whose sign bit travels
// in the signature's last bit.
func zzVerify(pub [32]byte, message []byte, sig [64]byte) bool {
	A := zzEdPublic(pub)
	A[31] |= sig[63] & 0x80
	sig[63] &= 0x7F
	return ed25519.Verify(&A, message, &sig)
}

func zzBase(s [32]byte) [32]byte {
	var p edwards25519.ExtendedGroupElement
	edwards25519.GeScalarMultBase(&p, &s)
	var b [32]byte
	p.ToBytes(&b)
	return b
}

func zzHashReduce(parts ...[]byte) [32]byte {
	d := sha512.Sum512(v.Cat(parts...))
	var r [32]byte
	edwards25519.ScReduce(&r, &d)
	return r
}

// Verifying is a function of key, message and signature, and changes none of them.
//vc:prop C16 C07
//vc:target curve25519sign.Verify
//vc:modular
func vc_Verify(pub [32]byte, message []byte, sig *[64]byte) {
	v.Requires(sig != nil)
	m0, s0 := v.Clone(message), v.Clone(sig[:])
	r := Verify(pub, message, sig)
	v.Ensures("verify: signature unchanged", v.Eq(sig[:], s0))
	v.Ensures("verify: message unchanged", v.Eq(message, m0))
	v.Ensures("verify: Ed25519 under the key's Edwards form", r == zzVerify(pub, message, *sig))
	v.Cover("verified")
}

// What Sign makes, Verify accepts. Assumed of the curve: Ed25519's own correctness, and that the
// Edwards form of the Montgomery public key is the Edwards public key but for its sign bit.
//vc:prop C16
//vc:target curve25519sign.Sign curve25519sign.Verify
func vc_SignVerify(priv [32]byte, message []byte, random [64]byte) {
	priv[0] &= 248
	priv[31] &= 63
	priv[31] |= 64
	p0, m0 := priv, v.Clone(message)
	s := Sign(&priv, message, random)
	v.Ensures("sign: key and message unchanged", v.Eq(priv[:], p0[:]) && v.Eq(message, m0))
	div := v.Repeat(0xFF, 32)
	div[0] = 0xFE
	A := zzBase(priv)
	r := zzHashReduce(div, priv[:], message, random[:])
	R := zzBase(r)
	h := zzHashReduce(R[:], A[:], message)
	var S [32]byte
	edwards25519.ScMulAdd(&S, &h, &priv, &r)
	v.Assume(S[31] < 0x20)
	var full [64]byte
	copy(full[:], R[:])
	copy(full[32:], S[:])
	v.Assume(ed25519.Verify(&A, message, &full))
	var pub [32]byte
	curve25519.ScalarBaseMult(&pub, &priv)
	E := zzEdPublic(pub)
	v.Assume(E[31] == A[31]&0x7F && v.Eq(E[:31], A[:31]))
	v.Ensures("sign: R then S then the public key's sign", v.Eq(s[:32], R[:]) && v.Eq(s[32:63], S[:31]) && s[63] == S[31]|A[31]&0x80)
	v.Ensures("sign: lemma: the sign bit comes back", (A[31]&0x7F)|((S[31]|A[31]&0x80)&0x80) == A[31])
	v.Ensures("sign: lemma: and leaves S", (S[31]|A[31]&0x80)&0x7F == S[31])
	A2 := E
	A2[31] |= s[63] & 0x80
	v.Ensures("sign: lemma: the Edwards key comes back", v.Eq(A2[:31], A[:31]) && A2[31] == A[31] && v.Eq(A2[:], A[:]))
	s2 := *s
	s2[63] &= 0x7F
	v.Ensures("sign: lemma: the Ed25519 signature comes back", v.Eq(s2[:32], full[:32]) && v.Eq(s2[32:63], full[32:63]) && s2[63] == full[63] && v.Eq(s2[:], full[:]))
	v.Ensures("sign: verifies under the matching public key", Verify(pub, message, s))
}

// A signature with any bit altered, or of another message or key, is judged as Ed25519 does.
//vc:prop C16
//vc:target curve25519sign.Verify
//vc:bounded
func vc_VerifyForged(priv [32]byte, message []byte, random [64]byte, bit, which int) {
	priv[0] &= 248
	priv[31] &= 63
	priv[31] |= 64
	s := Sign(&priv, message, random)
	var pub [32]byte
	curve25519.ScalarBaseMult(&pub, &priv)
	v.Ensures("forged: the genuine one verifies, also a second time", Verify(pub, message, s) && Verify(pub, message, s))
	if bit < 0 {
		bit = -bit
	}
	if which%3 == 0 && len(message) > 0 {
		m := v.Clone(message)
		m[bit/8%len(m)] ^= 1 << uint(bit%8)
		v.Ensures("forged: another message is refused", !Verify(pub, m, s))
	} else if which%3 == 1 {
		t := *s
		t[bit/8%64] ^= 1 << uint(bit%8)
		v.Ensures("forged: an altered signature is refused", !Verify(pub, message, &t))
	} else {
		p := pub
		p[bit/8%31] ^= 1 << uint(bit%8)
		v.Ensures("forged: another key is refused", !Verify(p, message, s))
	}
}
