package zzmodels

import (
	"github.com/signal-golang/ed25519/edwards25519"
)

// Field and group elements of edwards25519 are opaque: the value is represented by limb 0.

func feH(name string, args ...interface{}) int32 { return int32(UFInt(name, -1<<31, 1<<31-1, args...)) }

func github_com_signal_golang_ed25519_edwards25519_FeZero(fe *edwards25519.FieldElement) {
	*fe = edwards25519.FieldElement{}
}
func github_com_signal_golang_ed25519_edwards25519_FeOne(fe *edwards25519.FieldElement) {
	*fe = edwards25519.FieldElement{}
	fe[0] = 1
}
func github_com_signal_golang_ed25519_edwards25519_FeAdd(dst, a, b *edwards25519.FieldElement) {
	dst[0] = feH("feAdd", int(a[0]), int(b[0]))
}
func github_com_signal_golang_ed25519_edwards25519_FeSub(dst, a, b *edwards25519.FieldElement) {
	dst[0] = feH("feSub", int(a[0]), int(b[0]))
}
func github_com_signal_golang_ed25519_edwards25519_FeMul(dst, a, b *edwards25519.FieldElement) {
	dst[0] = feH("feMul", int(a[0]), int(b[0]))
}
func github_com_signal_golang_ed25519_edwards25519_FeNeg(dst, a *edwards25519.FieldElement) {
	dst[0] = feH("feNeg", int(a[0]))
}
func github_com_signal_golang_ed25519_edwards25519_FeSquare(dst, a *edwards25519.FieldElement) {
	dst[0] = feH("feMul", int(a[0]), int(a[0]))
}
func github_com_signal_golang_ed25519_edwards25519_FeCopy(dst, a *edwards25519.FieldElement) {
	dst[0] = a[0]
}
func github_com_signal_golang_ed25519_edwards25519_FeInvert(dst, a *edwards25519.FieldElement) {
	dst[0] = feH("feInv", int(a[0]))
}
func github_com_signal_golang_ed25519_edwards25519_FeFromBytes(dst *edwards25519.FieldElement, src *[32]byte) {
	dst[0] = feH("feFromBytes", src[:])
}
func github_com_signal_golang_ed25519_edwards25519_FeToBytes(s *[32]byte, h *edwards25519.FieldElement) {
	copy(s[:], UFBytes("feToBytes", 32, int(h[0])))
}
func github_com_signal_golang_ed25519_edwards25519_GeScalarMultBase(h *edwards25519.ExtendedGroupElement, a *[32]byte) {
	h.X[0] = feH("geBase", a[:])
}
func github_com_signal_golang_ed25519_edwards25519_ExtendedGroupElement_ToBytes(p *edwards25519.ExtendedGroupElement, s *[32]byte) {
	copy(s[:], UFBytes("geToBytes", 32, int(p.X[0])))
}
func github_com_signal_golang_ed25519_edwards25519_ScReduce(out *[32]byte, s *[64]byte) {
	copy(out[:], UFBytes("scReduce", 32, s[:]))
}
func github_com_signal_golang_ed25519_edwards25519_ScMulAdd(s, a, b, c *[32]byte) {
	copy(s[:], UFBytes("scMulAdd", 32, a[:], b[:], c[:]))
}
func github_com_signal_golang_ed25519_Verify(publicKey *[32]byte, message []byte, sig *[64]byte) bool {
	return UFBool("ed25519Verify", publicKey[:], message, sig[:])
}
