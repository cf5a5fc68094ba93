package crypto

import (
	"math/rand"

	v "github.com/signal-golang/textsecure/zzspec"
)

// Sealing is AES-GCM without associated data; what was sealed opens to the same bytes.
//
//vc:prop C22 C25
//vc:target crypto.AesgcmEncrypt crypto.AesgcmDecrypt
func vc_gcmRoundTrip(key, nonce, input []byte, cut int) {
	v.Requires(len(nonce) == 12)
	k0, n0, p0 := v.Clone(key), v.Clone(nonce), v.Clone(input)
	c, err := AesgcmEncrypt(key, nonce, input)
	v.Ensures("seal: with a key of 16, 24 or 32 bytes", (err == nil) == (len(k0) == 16 || len(k0) == 24 || len(k0) == 32))
	if err != nil {
		v.Cover("refused")
		return
	}
	v.Cover("sealed")
	v.Ensures("seal: AES-GCM", v.Eq(c, v.GCMSeal(k0, n0, p0, nil)))
	v.Ensures("seal: input intact", v.Eq(input, p0) && v.Eq(nonce, n0) && v.Eq(key, k0))
	v.Requires(cut >= 0 && cut <= len(c))
	got, err := AesgcmDecrypt(key, nonce, v.Clone(c[:cut]), v.Clone(c[cut:]))
	v.Ensures("open: what was sealed", err == nil && v.Eq(got, p0))
}

// Opening yields data only if it is what sealing that data under the key gives, and never panics.
//
//vc:prop C22 C25
//vc:target crypto.AesgcmDecrypt
func vc_gcmOpen(key, nonce, data, mac []byte) {
	k0, n0, c0 := v.Clone(key), v.Clone(nonce), v.Cat(data, mac)
	p, err := AesgcmDecrypt(key, nonce, v.Clone(data), mac)
	if err != nil {
		v.Cover("refused")
		v.Ensures("open: nothing on error", p == nil)
		return
	}
	v.Cover("opened")
	v.Ensures("open: only what authenticates", len(n0) == 12 && len(c0) == len(p)+16 && v.Eq(c0, v.GCMSeal(k0, n0, p, nil)))
}

func zzBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	v.Fill(r, b)
	return b
}

func gen_vc_gcmRoundTrip(r *rand.Rand) []interface{} {
	p := v.RandBytes(r)
	return []interface{}{zzBytes(r, []int{16, 24, 32, 32, 31, 0}[r.Intn(6)]), zzBytes(r, 12), p, r.Intn(len(p) + 17)}
}

func gen_vc_gcmOpen(r *rand.Rand) []interface{} {
	k, n, p := zzBytes(r, 32), zzBytes(r, []int{12, 12, 12, 0, 11, 13, 16}[r.Intn(7)]), v.RandBytes(r)
	c := v.RandBytes(r)
	if len(n) == 12 && r.Intn(2) == 0 {
		c = v.GCMSeal(k, n, p, nil)
		switch r.Intn(6) {
		case 0:
			c[r.Intn(len(c))] ^= 1
		case 1:
			c = c[:r.Intn(len(c))]
		}
	}
	cut := r.Intn(len(c) + 1)
	return []interface{}{k, n, c[:cut:cut], c[cut:]}
}
