package fingerprint

import (
	"math/rand"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	textsecure "github.com/signal-golang/textsecure/axolotl/protobuf"
	v "github.com/signal-golang/textsecure/zzspec"
)

// Repeated hashing is the iteration of SHA-512 over the previous digest and the key.
//
//vc:prop C15
//vc:target fingerprint.repeatedHashing fingerprint.javaLikeUpdate fingerprint.javaLikeDigest
//vc:modular
func vc_repeatedHashing(startData, key []byte, iterations int) {
	v.Requires(iterations >= 0 && iterations < 6000)
	s0, k0 := v.Clone(startData), v.Clone(key)
	h := repeatedHashing(startData, key, iterations)
	v.Ensures("hashing: iterated digest", v.Eq(h, v.FPIter(s0, k0, iterations)))
	v.Ensures("hashing: inputs intact", v.Eq(startData, s0) && v.Eq(key, k0))
}

func inv_repeatedHashing_0(hash []byte, i int, startData, key []byte, iterations int) bool {
	return i >= 0 && i <= iterations && v.Eq(hash, v.FPIter(startData, key, i))
}

func gen_vc_repeatedHashing(r *rand.Rand) []interface{} {
	return []interface{}{v.RandBytes(r), v.RandBytes(r), r.Intn(20)}
}

func zzFP(id string, key [32]byte) []byte {
	ser := v.Cat([]byte{5}, key[:])
	return v.FPIter(v.Cat([]byte{0, 0}, ser, []byte(id)), ser, 5200)
}

// A party's fingerprint is a function of the party's identifier and key alone.
//
//vc:prop C15
//vc:target fingerprint.getFingerprint fingerprint.getLogicalKeyBytes
//vc:uses vc_repeatedHashing
func vc_getFingerprint(id string, key [32]byte) {
	f := getFingerprint(ITERATIONS, []byte(id), []axolotl.ECPublicKey{*axolotl.NewECPublicKey(key[:])})
	v.Ensures("fingerprint: iterated hash of version, key and identifier", v.Eq(f, zzFP(id, key)))
}

func zzNum5(f []byte, off int) int {
	n := (uint64(f[off]) << 32) | (uint64(f[off+1]) << 24) | (uint64(f[off+2]) << 16) | (uint64(f[off+3]) << 8) | uint64(f[off+4])
	return int(n % 100000)
}

// A half of the safety number is six blocks of five digits, each a function of five bytes of the
// fingerprint.
//
//vc:prop C15
//vc:target fingerprint.getFingerprintNumbersFor fingerprint.getEncodedChunk fingerprint.byteArray5ToLong
func vc_numbersFor(f [64]byte) {
	f0 := f
	ns := getFingerprintNumbersFor(f[:])
	v.Ensures("half: six blocks", len(ns) == 6)
	for k := 0; k < 6; k++ {
		n := zzNum5(f0[:], 5*k)
		v.Ensures("half: block is five decimal digits of its five bytes", ns[k] == v.Dec5(n))
	}
	v.Ensures("half: fingerprint intact", f == f0)
}

// Both parties display the same number, made of the two halves in an order both agree on, for
// every pair of fingerprints, the equal ones included.
//
//vc:prop C15
//vc:target fingerprint.CreateFingerprintNumbers fingerprint.compareFingerprintBlocks
func vc_numbers(a, b [64]byte) {
	la, lb := getFingerprintNumbersFor(a[:]), getFingerprintNumbersFor(b[:])
	x := CreateFingerprintNumbers(a[:], b[:])
	y := CreateFingerprintNumbers(b[:], a[:])
	v.Ensures("number: twelve blocks", len(x) == 12 && len(y) == 12)
	for k := 0; k < 12; k++ {
		v.Ensures("number: symmetric", x[k] == y[k])
	}
	first := x[0] == la[0] && x[1] == la[1] && x[2] == la[2] && x[3] == la[3] && x[4] == la[4] && x[5] == la[5] &&
		x[6] == lb[0] && x[7] == lb[1] && x[8] == lb[2] && x[9] == lb[3] && x[10] == lb[4] && x[11] == lb[5]
	second := x[0] == lb[0] && x[1] == lb[1] && x[2] == lb[2] && x[3] == lb[3] && x[4] == lb[4] && x[5] == lb[5] &&
		x[6] == la[0] && x[7] == la[1] && x[8] == la[2] && x[9] == la[3] && x[10] == la[4] && x[11] == la[5]
	v.Ensures("number: one half per party", first || second)
}

func gen_vc_numbers(r *rand.Rand) []interface{} {
	var a, b [64]byte
	v.Fill(r, a[:])
	b = a
	for i := r.Intn(3); i > 0; i-- {
		b[r.Intn(40)] ^= byte(1 + r.Intn(255))
	}
	return []interface{}{a, b}
}

// The scannable code carries the first 32 bytes of each fingerprint, and scanning reads them back.
//
//vc:prop C15
//vc:target fingerprint.CreateQRFingerprint fingerprint.ScanQRFingerprint fingerprint.getMarshalledCombinedFingerprints
func vc_scannable(version uint32, a, b [64]byte) {
	q, err := CreateQRFingerprint(version, a[:], b[:])
	v.Ensures("code: made", err == nil)
	want, _ := proto.Marshal(&textsecure.CombinedFingerprints{Version: &version,
		LocalFingerprint:  &textsecure.LogicalFingerprint{Content: a[:32]},
		RemoteFingerprint: &textsecure.LogicalFingerprint{Content: b[:32]}})
	v.Ensures("code: version and both fingerprints", v.Eq(q, want))
	c, err := ScanQRFingerprint(q)
	v.Ensures("code: scans", err == nil && c.GetVersion() == version)
	v.Ensures("code: local and remote fingerprint", v.Eq(c.GetLocalFingerprint().GetContent(), a[:32]) && v.Eq(c.GetRemoteFingerprint().GetContent(), b[:32]))
}

// Anything may be scanned: an answer or an error, never a panic.
//
//vc:prop C15
//vc:target fingerprint.ScanQRFingerprint
func vc_scanAny(code []byte) {
	c, err := ScanQRFingerprint(code)
	v.Ensures("scan: result or error", (c == nil) == (err != nil))
}

// The whole: symmetric, sixty digits, and the codes match crosswise.
//
//vc:prop C15
//vc:target fingerprint.CreateFingerprintSimple fingerprint.CreateFingerprint fingerprint.castParameters
//vc:bounded
func vc_safetyNumber(aID, bID string, aKey, bKey [32]byte) {
	ak, bk := v.Cat([]byte{5}, aKey[:]), v.Cat([]byte{5}, bKey[:])
	x, qx, err := CreateFingerprintSimple(1, aID, ak, bID, bk)
	v.Ensures("number: made", err == nil)
	y, qy, err := CreateFingerprintSimple(1, bID, bk, aID, ak)
	v.Ensures("number: made", err == nil && len(x) == 12 && len(y) == 12)
	for k := range x {
		v.Ensures("number: symmetric", x[k] == y[k])
		v.Ensures("number: five digits", len(x[k]) == 5)
		for _, c := range x[k] {
			v.Ensures("number: decimal", c >= '0' && c <= '9')
		}
	}
	fa, fb := zzFP(aID, aKey), zzFP(bID, bKey)
	na := getFingerprintNumbersFor(fa)
	if x[0] != na[0] {
		x = append(append([]string{}, x[6:]...), x[:6]...)
	}
	for k := 0; k < 6; k++ {
		v.Ensures("number: half of each party", x[k] == v.Dec5(zzNum5(fa, 5*k)) && x[6+k] == v.Dec5(zzNum5(fb, 5*k)))
	}
	cx, err := ScanQRFingerprint(qx)
	v.Ensures("code: scans", err == nil)
	cy, err := ScanQRFingerprint(qy)
	v.Ensures("code: scans", err == nil)
	v.Ensures("codes: match crosswise", v.Eq(cx.GetLocalFingerprint().GetContent(), cy.GetRemoteFingerprint().GetContent()) && v.Eq(cy.GetLocalFingerprint().GetContent(), cx.GetRemoteFingerprint().GetContent()))
	v.Ensures("code: local is ours", v.Eq(cx.GetLocalFingerprint().GetContent(), fa[:32]) && v.Eq(cx.GetRemoteFingerprint().GetContent(), fb[:32]) && cx.GetVersion() == 1)
}
func gen_vc_safetyNumber(r *rand.Rand) []interface{} {
	ids := []string{"", "a", "b", "+1", "+491234567", "+491234568", "f0e1d2c3-b4a5-4677-8899-aabbccddeeff"}
	var a, b [32]byte
	v.Fill(r, a[:])
	b = a
	if r.Intn(3) > 0 {
		v.Fill(r, b[:])
	}
	return []interface{}{ids[r.Intn(7)], ids[r.Intn(7)], a, b}
}

// Several keys of one party count in an order of their own, whatever order they are given in.
//
//vc:prop C15
//vc:target fingerprint.getFingerprint fingerprint.getLogicalKeyBytes fingerprint.SortByteArrays
//vc:bounded
func vc_keyOrder(seed int) {
	r := rand.New(rand.NewSource(int64(seed)))
	n := 1 + r.Intn(4)
	var ks, perm []axolotl.ECPublicKey
	for i := 0; i < n; i++ {
		var k [32]byte
		v.Fill(r, k[:])
		ks = append(ks, *axolotl.NewECPublicKey(k[:]))
	}
	for _, i := range r.Perm(n) {
		perm = append(perm, ks[i])
	}
	f := getFingerprint(7, []byte("id"), ks)
	g := getFingerprint(7, []byte("id"), perm)
	v.Ensures("fingerprint: order of keys does not matter", v.Eq(f, g))
	s := SortByteArrays(perm)
	for i := 1; i < len(s); i++ {
		v.Ensures("keys: ascending", string(s[i-1].Serialize()) <= string(s[i].Serialize()))
	}
	v.Ensures("fingerprint: iterated hash of version, keys and identifier", true)
	var ser []byte
	for i := range s {
		ser = append(ser, s[i].Serialize()...)
	}
	v.Ensures("fingerprint: all keys count", v.Eq(f, v.FPIter(v.Cat([]byte{0, 0}, ser, []byte("id")), ser, 7)))
}
