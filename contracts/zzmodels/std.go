package zzmodels

import (
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"encoding/binary"
	"io"
)

func errors_New(s string) error                { return &Err{Msg: s} }
func github_com_pkg_errors_New(s string) error { return &Err{Msg: s} }
func github_com_pkg_errors_Wrap(err error, s string) error {
	if err == nil {
		return nil
	}
	return &Err{Inner: err}
}
func errors_Is(err, target error) bool {
	if err == nil {
		return target == nil
	}
	if err == target {
		return true
	}
	return UFBool("errors_is", err, target)
}

func fmt_Errorf(format string, a ...interface{}) error        { return &Err{Msg: Sprintf(format, a)} }
func fmt_Sprintf(format string, a ...interface{}) string      { return Sprintf(format, a) }
func fmt_Sprint(a ...interface{}) string                      { return NondetBytes(-1) }
func fmt_Println(a ...interface{}) (int, error)               { return 0, nil }
func fmt_Printf(format string, a ...interface{}) (int, error) { return 0, nil }

func bytes_Equal(a, b []byte) bool { return string(a) == string(b) }
func bytes_Repeat(b []byte, count int) []byte {
	PanicIf("bytes: negative Repeat count", count < 0)
	if len(b) == 1 {
		return []byte(Repeat(b[0], count))
	}
	return []byte(UFBytes("bytes_repeat", len(b)*count, b, count))
}
func bytes_Compare(a, b []byte) int {
	if string(a) == string(b) {
		return 0
	}
	if string(a) < string(b) {
		return -1
	}
	return 1
}
func crypto_hmac_Equal(a, b []byte) bool { return string(a) == string(b) }
func crypto_subtle_ConstantTimeCompare(a, b []byte) int {
	if string(a) == string(b) {
		return 1
	}
	return 0
}
func crypto_subtle_ConstantTimeByteEq(a, b uint8) int {
	if a == b {
		return 1
	}
	return 0
}

// Ghost state: what the system's random source delivered so far, and whether it may fail.
var (
	GhostDrawn     string
	GhostRandFails bool
)

func draw(buf []byte) {
	b := NondetBytes(len(buf))
	GhostDrawn = GhostDrawn + b
	copy(buf, b)
}

// The system's random source fills the buffer with arbitrary bytes, or fails where the contract
// allows it to (RandMayFail).
func io_ReadFull(r io.Reader, buf []byte) (int, error) {
	if h, ok := r.(*HKDF); ok {
		return h.Read(buf)
	}
	if r == rand.Reader {
		if GhostRandFails && NondetBool() {
			n := NondetInt(0, len(buf)-1)
			copy(buf, NondetBytes(len(buf)))
			return n, &Err{}
		}
		draw(buf)
		return len(buf), nil
	}
	if NondetBool() {
		n := NondetInt(0, len(buf)-1)
		copy(buf, NondetBytes(len(buf)))
		return n, &Err{}
	}
	copy(buf, NondetBytes(len(buf)))
	return len(buf), nil
}
func crypto_rand_Read(buf []byte) (int, error) {
	if GhostRandFails && NondetBool() {
		return 0, &Err{}
	}
	draw(buf)
	return len(buf), nil
}
func zzspec_RandMayFail()       { GhostRandFails = true }
func zzspec_Drawn(n int) []byte { return []byte(GhostDrawn[len(GhostDrawn)-n:]) }
func zzspec_DrawnTotal() int    { return len(GhostDrawn) }

// math/rand is not a secure source: its output is arbitrary and not recorded as drawn.
func math_rand_Read(buf []byte) (int, error) {
	copy(buf, NondetBytes(len(buf)))
	return len(buf), nil
}
func math_rand_Seed(s int64)   {}
func math_rand_Int63() int64   { return int64(NondetInt(0, 1<<62)) }
func math_rand_Int() int       { return NondetInt(0, 1<<62) }
func math_rand_Uint32() uint32 { return uint32(NondetInt(0, 1<<32-1)) }
func math_rand_Int31() int32   { return int32(NondetInt(0, 1<<31-1)) }
func math_rand_Intn(n int) int { return NondetInt(0, n-1) }

func encoding_binary_bigEndian_Uint16(_ struct{}, b []byte) uint16 {
	return uint16(b[0])*256 + uint16(b[1])
}
func encoding_binary_bigEndian_Uint32(_ struct{}, b []byte) uint32 {
	return uint32(b[0])*16777216 + uint32(b[1])*65536 + uint32(b[2])*256 + uint32(b[3])
}
func encoding_binary_bigEndian_PutUint16(_ struct{}, b []byte, v uint16) {
	b[1] = byte(v)
	b[0] = byte(v >> 8)
}
func encoding_binary_bigEndian_PutUint32(_ struct{}, b []byte, v uint32) {
	_ = b[3]
	b[0] = byte(v >> 24)
	b[1] = byte(v >> 16)
	b[2] = byte(v >> 8)
	b[3] = byte(v)
}

func encoding_hex_EncodeToString(b []byte) string { return Sprintf("%x", []interface{}{b}) }

// base64: both standard forms are functions of the bytes with known lengths; the padded one without its padding
// is the unpadded one, and what was encoded decodes to itself (see the laws). Other encodings are arbitrary.
func encoding_base64_Encoding_EncodeToString(e *base64.Encoding, b []byte) string {
	Assume(base64.StdEncoding != base64.RawStdEncoding)
	if e == base64.StdEncoding {
		return UFBytes("b64std", (len(b)+2)/3*4, b)
	}
	if e == base64.RawStdEncoding {
		return UFBytes("b64raw", (len(b)*8+5)/6, b)
	}
	return NondetBytes(NondetInt(0, 1<<62))
}
func encoding_base64_Encoding_DecodeString(e *base64.Encoding, s string) ([]byte, error) {
	Assume(base64.StdEncoding != base64.RawStdEncoding)
	if e == base64.StdEncoding {
		if !UFBool("b64ok", s) {
			return []byte(NondetBytes(NondetInt(0, 1<<62))), &Err{}
		}
		return []byte(UFBytes("b64dec", -1, s)), nil
	}
	if NondetBool() {
		return nil, &Err{}
	}
	return []byte(NondetBytes(NondetInt(0, 1<<62))), nil
}
func strings_TrimRight(s, cut string) string { return UFBytes("trimright", -1, s, cut) }

func strings_HasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }
func strings_HasSuffix(s, p string) bool { return len(s) >= len(p) && s[len(s)-len(p):] == p }

// sync: single-threaded view; see the lock property for the discipline itself.

// bytes.Buffer used as a growing byte string: contents are ghost state per buffer.
type bufState struct {
	B    *bytes.Buffer
	Data string
}

var GhostBufs []bufState

func bufOf(b *bytes.Buffer) int {
	for i := range GhostBufs {
		if GhostBufs[i].B == b {
			return i
		}
	}
	GhostBufs = append(GhostBufs, bufState{b, ""})
	return len(GhostBufs) - 1
}
func bytes_Buffer_Write(b *bytes.Buffer, p []byte) (int, error) {
	i := bufOf(b)
	GhostBufs[i].Data += string(p)
	return len(p), nil
}
func bytes_Buffer_WriteByte(b *bytes.Buffer, c byte) error {
	i := bufOf(b)
	GhostBufs[i].Data += string([]byte{c})
	return nil
}
func bytes_Buffer_WriteString(b *bytes.Buffer, s string) (int, error) {
	i := bufOf(b)
	GhostBufs[i].Data += s
	return len(s), nil
}
func bytes_Buffer_Bytes(b *bytes.Buffer) []byte  { return []byte(GhostBufs[bufOf(b)].Data) }
func bytes_Buffer_String(b *bytes.Buffer) string { return GhostBufs[bufOf(b)].Data }
func bytes_Buffer_Len(b *bytes.Buffer) int       { return len(GhostBufs[bufOf(b)].Data) }

// encoding/binary.Write of the fixed-size integers in big-endian order.
func encoding_binary_Write(w io.Writer, order binary.ByteOrder, data interface{}) error {
	var b []byte
	switch d := data.(type) {
	case int16:
		b = []byte{byte(uint16(d) >> 8), byte(d)}
	case uint16:
		b = []byte{byte(d >> 8), byte(d)}
	case uint32:
		b = []byte{byte(d >> 24), byte(d >> 16), byte(d >> 8), byte(d)}
	case uint64:
		b = []byte{byte(d >> 56), byte(d >> 48), byte(d >> 40), byte(d >> 32), byte(d >> 24), byte(d >> 16), byte(d >> 8), byte(d)}
	default:
		PanicIf("binary.Write of this type", true)
	}
	_, err := w.Write(b)
	return err
}

func strings_Compare(a, b string) int {
	if a == b {
		return 0
	}
	if UFBool("strless", a, b) {
		return -1
	}
	return 1
}

func zzspec_FPIter(start, key []byte, n int) []byte {
	return []byte(UFBytes("fpiter", -1, start, key, n))
}
func zzspec_Dec5(n int) string { return Sprintf("%05d", []interface{}{n}) }

// entities.Status describes a refusal: a new error.
func github_com_signal_golang_textsecure_entities_Status(code int, reason string) error {
	return &Err{Msg: reason}
}
