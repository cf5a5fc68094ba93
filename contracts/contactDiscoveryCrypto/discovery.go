package contactDiscoveryCrypto

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"strconv"

	"github.com/signal-golang/textsecure/contactsDiscovery"
	v "github.com/signal-golang/textsecure/zzspec"
)

// Sealing is AES-GCM under the key with the associated data, the nonce drawn from the system's random source,
// tag and ciphertext apart.
//
//vc:prop C22 C26
//vc:target contactDiscoveryCrypto.aesEncrypt contactDiscoveryCrypto.aesEncryptNonce contactDiscoveryCrypto.getRandomBytes
func vc_discoverySeal(key, aad, data []byte) {
	k0, a0, p0 := v.Clone(key), v.Clone(aad), v.Clone(data)
	before := v.DrawnTotal()
	r, err := aesEncrypt(key, aad, data)
	if err != nil {
		v.Cover("refused")
		v.Ensures("seal: nothing on error", r == nil)
		return
	}
	v.Cover("sealed")
	v.Ensures("seal: a fresh nonce of 12 bytes", v.DrawnTotal() == before+12 && v.Eq(r.iv, v.Drawn(12)))
	v.Ensures("seal: AES-GCM with the associated data", len(r.mac) == 16 && len(r.data) == len(p0) && v.Eq(v.Cat(r.data, r.mac), v.GCMSeal(k0, r.iv, p0, a0)))
	v.Ensures("seal: input intact", v.Eq(data, p0) && v.Eq(aad, a0) && v.Eq(key, k0))
}

// An envelope is the query key sealed under the attested client key, bound to the request id.
//
//vc:prop C22 C26
//vc:target contactDiscoveryCrypto.buildQueryEnvelope contactDiscoveryCrypto.buildQueryEnvelopeFromAttestation
func vc_queryEnvelope(requestID, clientKey, serverKey, queryKey []byte) {
	i0, c0, q0 := v.Clone(requestID), v.Clone(clientKey), v.Clone(queryKey)
	a := &contactsDiscovery.RemoteAttestation{RequestId: requestID, Keys: contactsDiscovery.RemoteAttestationKeys{ClientKey: clientKey, ServerKey: serverKey}}
	e, err := buildQueryEnvelopeFromAttestation(a, queryKey)
	if err != nil {
		v.Cover("refused")
		v.Ensures("envelope: nothing on error", e == nil)
		return
	}
	v.Cover("sealed")
	v.Ensures("envelope: of the request", v.Eq(e.RequestId, i0) && len(e.Iv) == 12 && v.Eq(e.Iv, v.Drawn(12)))
	v.Ensures("envelope: the query key for the client key, bound to the request", len(e.Mac) == 16 && v.Eq(v.Cat(e.Data, e.Mac), v.GCMSeal(c0, e.Iv, q0, i0)))
}

// An answer is used only if it authenticates; any lengths are an error and not a panic.
//
//vc:prop C22
//vc:target contactDiscoveryCrypto.aesDecrypt
func vc_discoveryOpen(key, nonce, data, mac, aad []byte) {
	k0, n0, c0, a0 := v.Clone(key), v.Clone(nonce), v.Cat(data, mac), v.Clone(aad)
	p, err := aesDecrypt(key, nonce, v.Clone(data), mac, aad)
	if err != nil {
		v.Cover("refused")
		v.Ensures("open: nothing on error", p == nil)
		return
	}
	v.Cover("opened")
	v.Ensures("open: only what authenticates", len(n0) == 12 && len(c0) == len(p)+16 && v.Eq(c0, v.GCMSeal(k0, n0, p, a0)))
}

// What was sealed opens to the same bytes.
//
//vc:prop C22
//vc:target contactDiscoveryCrypto.aesDecrypt contactDiscoveryCrypto.aesEncryptNonce
func vc_discoveryRoundTrip(key, nonce, data, aad []byte) {
	v.Requires(len(nonce) == 12)
	p0 := v.Clone(data)
	r, err := aesEncryptNonce(key, aad, data, nonce)
	if err == nil {
		v.Cover("sealed")
		p, err := aesDecrypt(key, r.iv, v.Clone(r.data), r.mac, aad)
		v.Ensures("round trip: the same bytes", err == nil && v.Eq(p, p0))
	}
}

// The query: a fresh nonce, then each number once, in order, as 8 bytes.
//
//vc:prop C22
//vc:target contactDiscoveryCrypto.buildQueryDataWithNonce contactDiscoveryCrypto.parse contactDiscoveryCrypto.toByteArray
//vc:bounded
func vc_queryData(book []string, nonce []byte, k int) {
	n0 := v.Clone(nonce)
	q, err := buildQueryDataWithNonce(book, v.Clone(nonce))
	v.Requires(k >= 0 && k < len(book))
	n, e := strconv.ParseInt(book[k], 10, 64)
	if e != nil {
		v.Cover("no number")
		v.Ensures("query: something that is no number is an error", err != nil)
	}
	if err != nil {
		v.Ensures("query: nothing on error", q == nil)
		return
	}
	v.Cover("query")
	v.Ensures("query: nonce and 8 bytes for each number", len(q) == len(n0)+8*len(book) && v.Eq(q[:len(n0)], n0))
	v.Ensures("query: each number at its place", v.Eq(q[len(n0)+8*k:len(n0)+8*k+8], zzBE(n)))
}

func zzBE(n int64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, uint64(n))
	return b
}

// The whole request: what the enclave needs to read it, and no more.
//
//vc:prop C22 C26
//vc:target contactDiscoveryCrypto.CreateDiscoveryRequest contactDiscoveryCrypto.buildQueryData contactDiscoveryCrypto.hashSha256
//vc:bounded
func vc_request(book []string, n, bad int) {
	atts := map[string]*contactsDiscovery.RemoteAttestation{}
	r := rand.New(rand.NewSource(int64(n + 31*len(book))))
	for i := 0; i < n; i++ {
		atts[fmt.Sprint("enclave ", i)] = &contactsDiscovery.RemoteAttestation{RequestId: zzBytes(r, 20), Keys: contactsDiscovery.RemoteAttestationKeys{ClientKey: zzBytes(r, 32), ServerKey: zzBytes(r, 32)}}
	}
	if bad > 0 && n > 0 {
		atts["enclave 0"].Keys.ClientKey = zzBytes(r, bad)
	}
	before := v.DrawnTotal()
	q, err := CreateDiscoveryRequest(book, atts)
	good := bad <= 0 || n == 0 || bad == 16 || bad == 24 || bad == 32
	for _, s := range book {
		if _, e := strconv.ParseInt(s, 10, 64); e != nil {
			good = false
		}
	}
	v.Ensures("request: made exactly of numbers and usable keys", (err == nil) == good)
	if err != nil {
		v.Cover("refused")
		v.Ensures("request: nothing on error", q == nil)
		return
	}
	v.Cover("made")
	v.Ensures("request: counts its numbers", q.AddressCount == len(book) && len(q.Envelopes) == n)
	var qk []byte
	for k, a := range atts {
		e := q.Envelopes[k]
		v.Ensures("request: an envelope for every enclave", e != nil && v.Eq(e.RequestId, a.RequestId))
		p, err := aesDecrypt(a.Keys.ClientKey, e.Iv, v.Clone(e.Data), e.Mac, a.RequestId)
		v.Ensures("request: the enclave opens its envelope to the query key", err == nil && len(p) == 32 && (qk == nil || v.Eq(p, qk)))
		qk = p
	}
	v.Ensures("request: all from the random source", v.DrawnTotal()-before == 32+32+12+12*n)
	if qk == nil {
		return
	}
	drawn := v.Drawn(v.DrawnTotal() - before)
	v.Ensures("request: a fresh query key", v.Eq(qk, drawn[:32]))
	p, err := aesDecrypt(qk, q.Iv, v.Clone(q.Data), q.Mac, nil)
	v.Ensures("request: the enclave opens the query", err == nil && len(p) == 32+8*len(book))
	v.Ensures("request: the commitment is the query's hash", v.Eq(q.Commitment, v.SHA256(p)))
	v.Ensures("request: a fresh nonce", v.Eq(p[:32], drawn[32:64]))
	for i, s := range book {
		num, _ := strconv.ParseInt(s, 10, 64)
		v.Ensures("request: every number once, in order", v.Eq(p[32+8*i:40+8*i], zzBE(num)))
	}
	// the answer to it
	for _, a := range atts {
		iv := zzBytes(r, 12)
		c := v.GCMSeal(a.Keys.ServerKey, iv, v.Repeat(7, 16*len(book)), nil)
		m := len(c) - 16
		resp := DiscoveryResponse{Data: v.Clone(c[:m]), Iv: iv, Mac: v.Clone(c[m:]), RequestId: v.Clone(a.RequestId)}
		d, err := GetDiscoveryResponseData(resp, atts)
		v.Ensures("answer: opened with the key of the request it names", err == nil && v.Eq(d, v.Repeat(7, 16*len(book))))
		bad := resp
		bad.Mac = v.Clone(c[m:])
		bad.Mac[r.Intn(16)] ^= 1
		d, err = GetDiscoveryResponseData(bad, atts)
		v.Ensures("answer: refused unless it authenticates", err != nil && d == nil)
		bad = resp
		bad.RequestId = zzBytes(r, 20)
		d, err = GetDiscoveryResponseData(bad, atts)
		v.Ensures("answer: refused unless it is to one of our requests", err != nil && d == nil)
		bad = resp
		bad.Iv = zzBytes(r, r.Intn(20))
		d, err = GetDiscoveryResponseData(bad, atts)
		v.Ensures("answer: refused with another nonce", err != nil && d == nil)
	}
}

func zzBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	v.Fill(r, b)
	return b
}

func zzBook(r *rand.Rand) []string {
	var out []string
	for n := r.Intn(6); n > 0; n-- {
		s := fmt.Sprint(r.Int63n(1 << uint(8+r.Intn(40))))
		if r.Intn(3) > 0 {
			s = "+" + s
		}
		if r.Intn(30) == 0 {
			s = []string{"", "x", "1 2", "99999999999999999999", "0x10"}[r.Intn(5)]
		}
		out = append(out, s)
	}
	return out
}

func zzK(r *rand.Rand) []byte { return zzBytes(r, []int{32, 32, 32, 16, 24, 31, 0}[r.Intn(7)]) }

func gen_vc_discoverySeal(r *rand.Rand) []interface{} {
	return []interface{}{zzK(r), v.RandBytes(r), v.RandBytes(r)}
}
func gen_vc_queryEnvelope(r *rand.Rand) []interface{} {
	return []interface{}{v.RandBytes(r), zzK(r), zzK(r), v.RandBytes(r)}
}
func gen_vc_discoveryOpen(r *rand.Rand) []interface{} {
	k, n, p, a := zzBytes(r, 32), zzBytes(r, []int{12, 12, 12, 0, 11, 13, 16}[r.Intn(7)]), v.RandBytes(r), v.RandBytes(r)
	c := v.RandBytes(r)
	if len(n) == 12 && r.Intn(2) == 0 {
		c = v.GCMSeal(k, n, p, a)
		if r.Intn(4) == 0 {
			c[r.Intn(len(c))] ^= 1
		}
		if r.Intn(4) == 0 {
			a = v.RandBytes(r)
		}
	}
	cut := r.Intn(len(c) + 1)
	return []interface{}{k, n, c[:cut:cut], c[cut:], a}
}
func gen_vc_discoveryRoundTrip(r *rand.Rand) []interface{} {
	return []interface{}{zzK(r), zzBytes(r, 12), v.RandBytes(r), v.RandBytes(r)}
}
func gen_vc_queryData(r *rand.Rand) []interface{} {
	return []interface{}{zzBook(r), v.RandBytes(r), r.Intn(6)}
}
func gen_vc_request(r *rand.Rand) []interface{} {
	return []interface{}{zzBook(r), r.Intn(4), []int{0, 0, 0, 1, 16, 24, 31, 32, 33}[r.Intn(9)]}
}
