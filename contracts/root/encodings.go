package textsecure

import (
	"encoding/base64"
	"encoding/hex"
	"math/rand"
	"strings"

	"github.com/signal-golang/textsecure/helpers"
	v "github.com/signal-golang/textsecure/zzspec"
)

// Padding then stripping is the identity on every message, and the padded length depends on the
// length alone: the least multiple of 160 that is larger.
//
//vc:prop C14
//vc:target root.padMessage root.stripPadding
func vc_padStrip(msg []byte) {
	m0 := v.Clone(msg)
	p := padMessage(msg)
	v.Ensures("padding: length is the next multiple of 160", len(p)%160 == 0 && len(p) > len(msg) && len(p) <= len(msg)+160)
	v.Ensures("padding: message first, then marker", v.Eq(p[:len(msg)], m0) && p[len(msg)] == 0x80)
	v.Ensures("padding: zeros after the marker", v.Forall(len(msg)+1, len(p), func(i int) bool { return p[i] == 0 }))
	q := stripPadding(p)
	v.Ensures("padding: stripping restores the message", v.Eq(q, m0))
	v.Ensures("padding: input intact", v.Eq(msg, m0))
	v.Cover("padded and stripped")
}
func zzMsg(r *rand.Rand) []byte {
	n := []int{0, 1, 2, 31, 158, 159, 160, 161, 318, 319, 320, 321, 1000}[r.Intn(13)]
	if r.Intn(2) == 0 {
		n = r.Intn(500)
	}
	b := make([]byte, n)
	v.Fill(r, b)
	for i := n - r.Intn(20); i < n; i++ {
		if i >= 0 {
			b[i] = []byte{0, 0x80, 0, 0x80, 1}[r.Intn(5)]
		}
	}
	return b
}
func gen_vc_padStrip(r *rand.Rand) []interface{} { return []interface{}{zzMsg(r)} }

// Stripping any byte string cuts it at the last non-zero byte if that is the marker, and leaves it
// alone otherwise; it never fails.
//
//vc:prop C14
//vc:target root.stripPadding
func vc_stripAny(msg []byte, j int) {
	m0 := v.Clone(msg)
	q := stripPadding(msg)
	v.Ensures("strip: a prefix", len(q) <= len(m0) && v.Eq(q, m0[:len(q)]))
	if len(q) < len(m0) {
		v.Cover("stripped")
		v.Ensures("strip: cut at the marker", m0[len(q)] == 0x80)
		v.Ensures("strip: only zeros cut besides", v.Implies(j > len(q) && j < len(m0), zzAt(m0, j) == 0))
	} else {
		v.Cover("left alone")
	}
	v.Ensures("strip: input intact", v.Eq(msg, m0))
}

func inv_stripPadding_0_vc_stripAny(msg []byte, i int, w_j int, w_m0 []byte) bool {
	return i < len(msg) && i >= -1 && v.Eq(msg, w_m0) && (w_j <= i || w_j >= len(msg) || msg[w_j] == 0)
}
func inv_stripPadding_0_vc_stripPadded(msg []byte, i int, w_i int) bool {
	return i < len(msg) && i >= w_i
}
func inv_stripPadding_0_vc_padStrip(msg []byte, i int, w_msg, w_m0 []byte) bool {
	return i < len(msg) && i >= len(w_msg)
}

// A padded message is always cut at its marker.
//
//vc:prop C14
//vc:target root.stripPadding
func vc_stripPadded(msg []byte, i int) {
	v.Requires(i >= 0 && i < len(msg))
	v.Requires(msg[i] == 0x80)
	v.Requires(v.Forall(i+1, len(msg), func(k int) bool { return msg[k] == 0 }))
	q := stripPadding(msg)
	v.Ensures("strip: padding is always cut", len(q) == i)
}
func gen_vc_stripPadded(r *rand.Rand) []interface{} {
	m := append(zzMsg(r), 0x80)
	i := len(m) - 1
	return []interface{}{append(m, make([]byte, r.Intn(300))...), i}
}
func zzAt(b []byte, i int) byte {
	if i >= 0 && i < len(b) {
		return b[i]
	}
	return 0
}
func gen_vc_stripAny(r *rand.Rand) []interface{} {
	m := zzMsg(r)
	j := 0
	if len(m) > 0 {
		j = len(m) - 1 - r.Intn(min2(len(m), 20))
	}
	return []interface{}{m, j}
}
func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// A key encodes to one text and decodes back to itself.
//
//vc:prop C14
//vc:target root.encodeKey root.decodeKey helpers.Base64EncWithoutPadding helpers.Base64DecodeNonPadded
func vc_keyCode(key [32]byte) {
	s := encodeKey(key[:])
	v.Ensures("key: encoding is unpadded base64 of the typed key", s == base64.RawStdEncoding.EncodeToString(append([]byte{5}, key[:]...)))
	k, err := decodeKey(s)
	v.Ensures("key: decodes to itself", err == nil && v.Eq(k, key[:]))
	v.Cover("key")
}
func gen_vc_keyCode(r *rand.Rand) []interface{} { return []interface{}{zzKey32(r)} }

// A key encodes to one text and decodes back to itself.
//
//vc:prop C14
//vc:target root.encodeKey root.decodeKey helpers.Base64EncWithoutPadding helpers.Base64DecodeNonPadded
//vc:bounded
func vc_keyRoundTrip(key [32]byte, other []byte) {
	s := encodeKey(key[:])
	v.Ensures("key: encoding is unpadded base64 of the typed key", s == base64.RawStdEncoding.EncodeToString(append([]byte{5}, key[:]...)))
	k, err := decodeKey(s)
	v.Ensures("key: decodes to itself", err == nil && v.Eq(k, key[:]))
	k, err = decodeKey(s + "=")
	v.Ensures("key: padded or not", err != nil || v.Eq(k, key[:]))
	// any other body than a typed 33 byte key is refused
	k, err = decodeKey(base64.RawStdEncoding.EncodeToString(other))
	ok := len(other) == 33 && other[0] == 5
	v.Ensures("key: wrong type or length refused", (err == nil) == ok)
	v.Ensures("key: decoded", err != nil || v.Eq(k, other[1:]))
	s2, err := decodeSignature(base64.RawStdEncoding.EncodeToString(other))
	v.Ensures("signature: exactly 64 bytes", (err == nil) == (len(other) == 64))
	v.Ensures("signature: decoded", err != nil || v.Eq(s2, other))
	b, err := helpers.Base64DecodeNonPadded(helpers.Base64EncWithoutPadding(other))
	v.Ensures("base64: round trip", err == nil && v.Eq(b, other))
	_, err = decodeKey("!" + s[1:])
	v.Ensures("key: malformed text refused", err != nil)
	_, err = decodeSignature("!" + s[1:])
	v.Ensures("signature: malformed text refused", err != nil)
}
func gen_vc_keyRoundTrip(r *rand.Rand) []interface{} {
	n := []int{0, 1, 2, 3, 31, 32, 33, 33, 33, 34, 63, 64, 64, 65, 66}[r.Intn(15)]
	o := make([]byte, n)
	v.Fill(r, o)
	if n > 0 && r.Intn(3) > 0 {
		o[0] = 5
	}
	return []interface{}{zzKey32(r), o}
}

// Malformed key text is an error and never a panic or a key.
//
//vc:prop C14
//vc:target root.decodeKey root.decodeSignature
func vc_keyText(s string) {
	k, err := decodeKey(s)
	v.Ensures("key: 32 bytes or an error", err != nil || len(k) == 32)
	k, err = decodeSignature(s)
	v.Ensures("signature: 64 bytes or an error", err != nil || len(k) == 64)
}
func gen_vc_keyText(r *rand.Rand) []interface{} {
	s := base64.StdEncoding.EncodeToString(v.RandBytes(r))
	b := []byte(s)
	for i := r.Intn(3); i > 0 && len(b) > 0; i-- {
		b[r.Intn(len(b))] = "=!A-/"[r.Intn(5)]
	}
	return []interface{}{string(b[:len(b)-r.Intn(min2(len(b), 4)+1)])}
}

// Ids and hexadecimal texts round trip.
//
//vc:prop C14 C11
//vc:target root.idToFilename root.filenameToID root.idToHex root.idToHexUUID helpers.HexToUUID
//vc:bounded
func vc_idTexts(id, other uint32, uuid [16]byte, junk string) {
	f := idToFilename(id)
	n, err := filenameToID(f)
	v.Ensures("id: file name names it", err == nil && n == id)
	v.Ensures("id: file names differ", id == other || idToFilename(other) != f)
	_, err = filenameToID(f + "x")
	v.Ensures("id: malformed file name refused", err != nil)
	_, err = filenameToID("x" + f)
	v.Ensures("id: malformed file name refused", err != nil)
	h := idToHex(uuid[:])
	b, err := hex.DecodeString(h)
	v.Ensures("hex id: round trip", err == nil && v.Eq(b, uuid[:]))
	u := idToHexUUID(uuid[:])
	parts := strings.Split(u, "-")
	v.Ensures("uuid: text form", len(parts) == 5 && len(parts[0]) == 8 && len(parts[1]) == 4 && len(parts[2]) == 4 && len(parts[3]) == 4 && len(parts[4]) == 12)
	v.Ensures("uuid: the id's digits in order", strings.Join(parts, "") == h)
	v.Ensures("uuid: from hexadecimal text", helpers.HexToUUID(h) == u)
	v.Ensures("uuid: text form stays", helpers.HexToUUID(u) == u)
	if len(junk) != 32 {
		v.Ensures("uuid: other text stays", helpers.HexToUUID(junk) == junk)
	}
}

// Recipient ids drop a leading plus and nothing else.
//
//vc:prop C14 C21
//vc:target root.recID
func vc_recID(s string) {
	id, err := recID(s)
	v.Ensures("recipient: empty refused", (err != nil) == (s == ""))
	if len(s) > 0 && s[0] != '+' {
		v.Cover("uuid")
		v.Ensures("recipient: unchanged", id == s)
	}
	if len(s) > 0 && s[0] == '+' {
		v.Cover("number")
		v.Ensures("recipient: without the plus", id == s[1:])
	}
}
func gen_vc_recID(r *rand.Rand) []interface{} {
	return []interface{}{[]string{"", "+", "+1", "a", "a+", "++", "f0e1d2c3-b4a5-4677-8899-aabbccddeeff", "+4912345"}[r.Intn(8)]}
}
