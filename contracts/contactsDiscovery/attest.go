package contactsDiscovery

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/transport"
	v "github.com/signal-golang/textsecure/zzspec"
)

// The keys for the enclave come from both its keys and our fresh one, as only their owners can derive them;
// keys of a wrong length are an error and not a panic.
//
//vc:prop C22
//vc:target contactsDiscovery.remoteAttestationKeys
func vc_attestationKeys(priv [32]byte, eph, static []byte) {
	pub := v.X25519Base(priv[:])
	e0, s0 := v.Clone(eph), v.Clone(static)
	kp := axolotl.MakeECKeyPair(priv[:], pub)
	k, err := remoteAttestationKeys(kp, eph, static)
	v.Ensures("keys: exactly from keys of 32 bytes", (err == nil) == (len(e0) == 32 && len(s0) == 32))
	if err != nil {
		v.Cover("refused")
		v.Ensures("keys: nothing on error", k == nil)
		return
	}
	v.Cover("keys")
	want := v.HKDF256(v.Cat(v.X25519(priv[:], e0), v.X25519(priv[:], s0)), v.Cat(v.Clone(pub), e0, s0), nil, 64)
	v.Ensures("keys: of both agreements and all public keys", v.Eq(k.ClientKey, want[:32]) && v.Eq(k.ServerKey, want[32:]))
	v.Ensures("keys: input intact", v.Eq(eph, e0) && v.Eq(static, s0))
}

// A request id is taken only if it authenticates under the server key.
//
//vc:prop C22
//vc:target contactsDiscovery.getRequestId
func vc_requestId(key []byte, iv, ct, tag []byte) {
	k0, n0, c0 := v.Clone(key), v.Clone(iv), v.Cat(ct, tag)
	id, err := getRequestId(&RemoteAttestationKeys{ServerKey: key}, &RemoteAttestationResponse{Iv: iv, Ciphertext: v.Clone(ct), Tag: tag})
	if err != nil {
		v.Cover("refused")
		v.Ensures("request id: nothing on error", id == nil)
		return
	}
	v.Cover("request id")
	v.Ensures("request id: only what authenticates", len(n0) == 12 && len(c0) == len(id)+16 && v.Eq(c0, v.GCMSeal(k0, n0, id, nil)))
}

// Every attestation that is used was made by an enclave holding the private keys, for the fresh key of this
// request; others are left out; any answer at all is an error or used, never a crash.
//
//vc:prop C22 C26
//vc:target contactsDiscovery.GetAndVerifyMultiRemoteAttestation contactsDiscovery.validateAndBuildRemoteAttestation contactsDiscovery.remoteAttestationKeys contactsDiscovery.getRequestId
//vc:bounded
func vc_attestations(seed, n, how int) {
	r := rand.New(rand.NewSource(int64(seed)))
	ids := map[string][]byte{}
	before := v.DrawnTotal()
	url := ""
	transport.ZZServe(func(q transport.ZZReq) transport.ZZResp {
		url = q.URL
		var req RemoteAttestationRequest
		err := json.Unmarshal(q.Body, &req)
		v.Ensures("attestation: a fresh public key is sent", err == nil && len(req.ClientPublic) == 32 && v.DrawnTotal()-before == 32 && q.Header.Get("Authorization") == "auth")
		if how == 1 {
			return transport.ZZResp{Status: 200, Body: []byte([]string{"null", "{}", "", "[]", `{"attestations":null}`, `{"attestations":{"x":null}}`, `{"attestations":{"x":{}}}`}[seed%7])}
		}
		out := map[string]interface{}{}
		for i := 0; i < n; i++ {
			name := fmt.Sprint("enclave ", i)
			eph, st := axolotl.NewECKeyPair(), axolotl.NewECKeyPair()
			ms := v.Cat(v.X25519(eph.PrivateKey.Key()[:], req.ClientPublic), v.X25519(st.PrivateKey.Key()[:], req.ClientPublic))
			k := v.HKDF256(ms, v.Cat(req.ClientPublic, eph.PublicKey.Key()[:], st.PublicKey.Key()[:]), nil, 64)
			id, iv := make([]byte, r.Intn(30)), make([]byte, 12)
			v.Fill(r, id)
			v.Fill(r, iv)
			ids[name] = v.Cat(id, k)
			c := v.GCMSeal(k[32:], iv, id, nil)
			m := len(c) - 16
			a := map[string]interface{}{"serverEphemeralPublic": eph.PublicKey.Key()[:], "serverStaticPublic": st.PublicKey.Key()[:], "iv": iv, "ciphertext": c[:m], "tag": c[m:]}
			bad := true
			switch r.Intn(12) {
			case 0:
				a["iv"] = iv[:r.Intn(12)]
			case 1:
				a["tag"] = c[m+1:]
			case 2:
				a["serverStaticPublic"] = eph.PublicKey.Key()[:]
			case 3:
				a["serverEphemeralPublic"] = eph.PublicKey.Key()[:r.Intn(32)]
			case 4:
				c[r.Intn(len(c))] ^= 1
			default:
				bad = false
			}
			if bad {
				delete(ids, name)
			}
			out[name] = a
		}
		b, _ := json.Marshal(map[string]interface{}{"attestations": out})
		return transport.ZZResp{Status: 200, Body: b}
	})
	ra := &RemoteAttestation{}
	as, err := ra.GetAndVerifyMultiRemoteAttestation("enclave", "auth")
	v.Ensures("attestation: asks for the enclave", strings.HasSuffix(url, "/v1/attestation/enclave"))
	if how == 1 {
		v.Cover("odd answer")
		v.Ensures("attestation: nothing from nothing", len(as) == 0)
		return
	}
	v.Ensures("attestation: one to three", (err == nil) == (n >= 1 && n <= 3))
	if err != nil {
		v.Cover("refused")
		return
	}
	v.Cover("attested")
	v.Ensures("attestation: exactly the ones that authenticate", len(as) == len(ids))
	for k, x := range ids {
		a := as[k]
		v.Ensures("attestation: its keys and request id", a != nil && v.Eq(v.Cat(a.RequestId, a.Keys.ClientKey, a.Keys.ServerKey), x))
	}
}

func zzBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	v.Fill(r, b)
	return b
}

func gen_vc_attestationKeys(r *rand.Rand) []interface{} {
	var p [32]byte
	v.Fill(r, p[:])
	n := func() int { return []int{32, 32, 32, 32, 0, 31, 33, 64}[r.Intn(8)] }
	return []interface{}{p, zzBytes(r, n()), zzBytes(r, n())}
}
func gen_vc_requestId(r *rand.Rand) []interface{} {
	k, n, p := zzBytes(r, 32), zzBytes(r, []int{12, 12, 12, 0, 11, 13}[r.Intn(6)]), v.RandBytes(r)
	c := v.RandBytes(r)
	if len(n) == 12 && r.Intn(2) == 0 {
		c = v.GCMSeal(k, n, p, nil)
	}
	cut := r.Intn(len(c) + 1)
	return []interface{}{k, n, c[:cut:cut], c[cut:]}
}
func gen_vc_attestations(r *rand.Rand) []interface{} {
	return []interface{}{int(r.Int31()), r.Intn(5), r.Intn(3)}
}
