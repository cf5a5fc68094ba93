package textsecure

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/curve25519sign"
	"github.com/signal-golang/textsecure/transport"
	v "github.com/signal-golang/textsecure/zzspec"
)

// The published form of a prekey is the record's id and public key, and nothing of its private key.
//
//vc:prop C12
//vc:target root.generatepreKeyEntity root.generateSignedPreKeyEntity
//vc:bounded
func vc_preKeyEntity(id uint32, k [32]byte, sig [64]byte) {
	kp := axolotl.MakeECKeyPair(k[:], sig[:32])
	e := generatepreKeyEntity(axolotl.NewPreKeyRecord(id, kp))
	v.Ensures("prekey: published id and key", e.ID == id && e.PublicKey == encodeKey(sig[:32]))
	s := generateSignedPreKeyEntity(axolotl.NewSignedPreKeyRecord(id, 1, kp, sig[:]))
	b, err := decodeSignature(s.Signature)
	v.Ensures("signed prekey: published id, key and signature", s.ID == id && s.PublicKey == encodeKey(sig[:32]) && err == nil && v.Eq(b, sig[:]))
}

// Random ids are 24 bits of the random source.
//
//vc:prop C12 C26
//vc:target root.randID root.randUint32
func vc_randID() {
	n0 := v.DrawnTotal()
	id := randID()
	v.Ensures("id: 24 bits", id <= 0xffffff)
	d := v.Drawn(4)
	v.Ensures("id: from the random source", v.DrawnTotal() == n0+4 && id == uint32(d[1])<<16|uint32(d[2])<<8|uint32(d[3]))
}

// zzSetup makes a fresh client state over a scratch directory.
func zzSetup(enc bool) string {
	dir := v.TempDir()
	textSecureStore = zzNewStore(dir, enc)
	identityKey = axolotl.GenerateIdentityKeyPair()
	textSecureStore.SetIdentityKeyPair(identityKey)
	textSecureStore.SetLocalRegistrationID(77)
	return dir
}

// A generated batch has a hundred distinct valid ids besides the last resort key; the bundle
// uploaded is exactly what is stored; the signed prekey is signed by our identity.
//
//vc:prop C12
//vc:target root.generatePreKeys root.generatePreKeyState root.loadPreKeys root.generatePreKey root.generateSignedPreKey root.registerPreKeys root.generatepreKeyEntity root.generateSignedPreKeyEntity
//vc:bounded
func vc_generatePreKeys(enc bool, start uint32) {
	dir := zzSetup(enc)
	v.ForceRand(start)
	err := generatePreKeys()
	v.Ensures("prekeys: generated", err == nil)
	es, err := os.ReadDir(dir + "/prekeys")
	v.Ensures("prekeys: a hundred and the last resort one", err == nil && len(es) == preKeyBatchSize+1)
	stored := map[uint32]*axolotl.PreKeyRecord{}
	pubs := map[string]bool{}
	for _, e := range es {
		id, err := filenameToID(e.Name())
		v.Ensures("prekeys: named by id", err == nil)
		v.Ensures("prekeys: ids are 24 bits and not absent", id > 0 && id <= 0xffffff)
		r, err := textSecureStore.LoadPreKey(id)
		v.Ensures("prekeys: readable", err == nil)
		v.Ensures("prekeys: record of its id", r.Pkrs.Id == id)
		v.Ensures("prekeys: key pair", v.Eq(r.Pkrs.PublicKey, v.X25519Base(r.Pkrs.PrivateKey)))
		pubs[string(r.Pkrs.PublicKey)] = true
		stored[id] = r
	}
	v.Ensures("prekeys: distinct keys", len(pubs) == preKeyBatchSize+1)
	v.Ensures("prekeys: last resort one", stored[0xffffff] != nil)
	var random [64]byte
	_ = random
	ser := axolotl.NewECPublicKey(signedKey.Spkrs.PublicKey).Serialize()
	var sig [64]byte
	copy(sig[:], signedKey.Spkrs.Signature)
	v.Ensures("signed prekey: signed by our identity", len(signedKey.Spkrs.Signature) == 64 && curve25519sign.Verify(*identityKey.PublicKey.Key(), ser, &sig))
	v.Ensures("signed prekey: key pair", v.Eq(signedKey.Spkrs.PublicKey, v.X25519Base(signedKey.Spkrs.PrivateKey)))
	sr, err := textSecureStore.LoadSignedPreKey(signedKey.Spkrs.Id)
	v.Ensures("signed prekey: stored", err == nil && v.Eq(sr.Spkrs.PublicKey, signedKey.Spkrs.PublicKey) && v.Eq(sr.Spkrs.PrivateKey, signedKey.Spkrs.PrivateKey) && v.Eq(sr.Spkrs.Signature, signedKey.Spkrs.Signature))
	v.Ensures("signed prekey: 24 bit id", signedKey.Spkrs.Id >= 1 && signedKey.Spkrs.Id <= 0xffffff)

	if r := stored[1]; r != nil {
		v.Cover("wrapped around")
	}
	v.Ensures("prekeys: state made", generatePreKeyState() == nil)
	var reqs []transport.ZZReq
	transport.ZZServe(func(q transport.ZZReq) transport.ZZResp {
		reqs = append(reqs, q)
		return transport.ZZResp{Status: 200}
	})
	v.Ensures("prekeys: uploaded", registerPreKeys() == nil && len(reqs) == 1 && reqs[0].Method == "PUT" && strings.HasSuffix(reqs[0].URL, "/v2/keys/"))
	var up struct {
		IdentityKey string
		PreKeys     []struct {
			KeyID     uint32
			PublicKey string
		}
		LastResortKey struct {
			KeyID     uint32
			PublicKey string
		}
		SignedPreKey struct {
			KeyID                uint32
			PublicKey, Signature string
		}
	}
	v.Ensures("upload: JSON", json.Unmarshal(reqs[0].Body, &up) == nil)
	v.Ensures("upload: as many prekeys as stored", len(up.PreKeys) == preKeyBatchSize)
	seen := map[uint32]bool{}
	for _, p := range up.PreKeys {
		r := stored[p.KeyID]
		v.Ensures("upload: stored keys, each once, not the last resort one", r != nil && !seen[p.KeyID] && p.KeyID != 0xffffff)
		seen[p.KeyID] = true
		v.Ensures("upload: the stored public key", p.PublicKey == encodeKey(r.Pkrs.PublicKey))
		v.Ensures("upload: no private key", !strings.Contains(string(reqs[0].Body), zzB64(r.Pkrs.PrivateKey)))
	}
	v.Ensures("upload: last resort key", up.LastResortKey.KeyID == 0xffffff && up.LastResortKey.PublicKey == encodeKey(stored[0xffffff].Pkrs.PublicKey))
	v.Ensures("upload: identity key", up.IdentityKey == encodeKey(identityKey.PublicKey.Key()[:]))
	us, err := decodeSignature(up.SignedPreKey.Signature)
	v.Ensures("upload: signed prekey", up.SignedPreKey.KeyID == signedKey.Spkrs.Id && up.SignedPreKey.PublicKey == encodeKey(signedKey.Spkrs.PublicKey) && err == nil && v.Eq(us, signedKey.Spkrs.Signature))
	v.Ensures("upload: no private key", !strings.Contains(string(reqs[0].Body), zzB64(signedKey.Spkrs.PrivateKey)) && !strings.Contains(string(reqs[0].Body), zzB64(identityKey.PrivateKey.Key()[:])))
	v.Cover("generated and uploaded")
}
func zzB64(b []byte) string { return base64.StdEncoding.EncodeToString(b)[:40] }
func gen_vc_generatePreKeys(r *rand.Rand) []interface{} {
	s := r.Uint32()
	switch r.Intn(6) {
	case 0:
		s = 0
	case 1:
		s = 1
	case 2, 3:
		s = 0xffffff - uint32(r.Intn(102))
	case 4:
		s = 0xff000000
	}
	return []interface{}{r.Intn(2) == 0, s}
}

// Keys generated one after the other by the library are distinct and within 24 bits.
//
//vc:prop C12
//vc:target axolotl.GeneratePreKeys axolotl.GenerateLastResortPreKey
//vc:bounded
func vc_axPreKeys(start, count int) {
	v.Requires(start > 0 && count >= 0 && count < 50 && start+count < 0xffffff)
	rs := axolotl.GeneratePreKeys(start, count)
	v.Ensures("prekeys: as many as asked for", len(rs) == count)
	for i, r := range rs {
		v.Ensures("prekeys: consecutive ids", r.Pkrs.Id == uint32(start+i))
		v.Ensures("prekeys: key pair", v.Eq(r.Pkrs.PublicKey, v.X25519Base(r.Pkrs.PrivateKey)))
	}
	v.Ensures("last resort: its id", axolotl.GenerateLastResortPreKey().Pkrs.Id == 0xffffff)
}
func gen_vc_axPreKeys(r *rand.Rand) []interface{} {
	return []interface{}{1 + r.Intn(0xfffff0), r.Intn(10)}
}

// A bundle holds exactly what the server gave for the device asked for; anything missing or
// malformed is an error.
//
//vc:prop C12 C14 C21 C07
//vc:target root.makePreKeyBundle root.getPreKeys
//vc:bounded
func vc_makePreKeyBundle(seed int) {
	r := rand.New(rand.NewSource(int64(seed)))
	zzConfig()
	key := func() ([]byte, string, bool) {
		k := make([]byte, 33)
		v.Fill(r, k)
		k[0] = 5
		switch r.Intn(16) {
		case 0:
			k[0] = 4
			return nil, base64.RawStdEncoding.EncodeToString(k), false
		case 1:
			return nil, base64.RawStdEncoding.EncodeToString(k[:32]), false
		case 2:
			return nil, "", false
		}
		return k[1:], base64.StdEncoding.EncodeToString(k)[:44-r.Intn(1)], true
	}
	ik, iks, ok1 := key()
	spk, spks, ok2 := key()
	pk, pks, ok3 := key()
	sig := make([]byte, 64)
	v.Fill(r, sig)
	ok4 := true
	if r.Intn(10) == 0 {
		sig = sig[:r.Intn(64)]
		ok4 = false
	}
	dev := uint32(1 + r.Intn(3))
	ask := dev
	if r.Intn(8) == 0 {
		ask = uint32(1 + r.Intn(3))
	}
	regid, pid, sid := uint32(r.Intn(20000)), uint32(r.Intn(1<<24)), uint32(r.Intn(1<<24))
	d := fmt.Sprintf(`{"deviceId":%d,"registrationId":%d`, dev, regid)
	hasPK, hasSPK := r.Intn(5) > 0, r.Intn(8) > 0
	if hasSPK {
		d += fmt.Sprintf(`,"signedPreKey":{"keyId":%d,"publicKey":"%s","signature":"%s"}`, sid, spks, base64.RawStdEncoding.EncodeToString(sig))
	}
	if hasPK {
		d += fmt.Sprintf(`,"preKey":{"keyId":%d,"publicKey":"%s"}`, pid, pks)
	} else {
		ok3 = true
	}
	d += "}"
	n := 1
	if r.Intn(8) == 0 {
		n = r.Intn(3)
	}
	body := `{"identityKey":"` + iks + `","devices":[` + strings.Join(strings.Split(strings.Repeat(d+"|", n), "|")[:n], ",") + `]}`
	st := 200
	if r.Intn(10) == 0 {
		st = []int{404, 413, 500, 401}[r.Intn(4)]
	}
	if r.Intn(20) == 0 {
		body = body[:r.Intn(len(body))]
		n = 0
	}
	var url string
	transport.ZZServe(func(q transport.ZZReq) transport.ZZResp {
		url = q.URL
		return transport.ZZResp{Status: st, Body: []byte(body)}
	})
	b, err := makePreKeyBundle("some-uuid", ask)
	v.Ensures("bundle: asks for the device", strings.HasSuffix(url, fmt.Sprintf("/v2/keys/some-uuid/%d", ask)))
	good := st == 200 && n == 1 && ask == dev && ok1 && hasSPK && ok2 && ok3 && ok4
	v.Ensures("bundle: exactly from a complete answer for the device", (err == nil) == good)
	if err == nil {
		v.Cover("bundle")
		v.Ensures("bundle: ids", b.DeviceID == dev && b.RegistrationID == regid && b.SignedPreKeyID == int32(sid))
		v.Ensures("bundle: keys", v.Eq(b.IdentityKey.Key()[:], ik) && v.Eq(b.SignedPreKeyPublic.Key()[:], spk) && v.Eq(b.SignedPreKeySignature[:], sig))
		if hasPK {
			v.Ensures("bundle: one-time prekey", b.PreKeyID == pid && v.Eq(b.PreKeyPublic.Key()[:], pk))
		} else {
			v.Ensures("bundle: no one-time prekey", b.PreKeyPublic == nil)
		}
	} else {
		v.Cover("refused")
	}
}

func zzConfig() {
	config.ConfigFile = &config.Config{UUID: "11111111-2222-4333-8444-555555555555", Tel: "+10000000000"}
}

// The id of a signed prekey is never 0, which means none.
//
//vc:prop C12 C01
//vc:target root.getNextSignedPreKeyID root.randUint32
func vc_signedPreKeyID(n uint32) {
	v.ForceRand(n)
	id := getNextSignedPreKeyID()
	v.Ensures("signed prekey id: 24 bits and not 0", id >= 1 && id <= 0xffffff)
	v.Cover("id")
}
func gen_vc_signedPreKeyID(r *rand.Rand) []interface{} {
	return []interface{}{[]uint32{0, 1 << 24, 0xffffff, 0xfffffe, 0x1fffffe, 0xffffffff, r.Uint32() << 24, r.Uint32()}[r.Intn(8)]}
}
