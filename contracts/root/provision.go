package textsecure

import (
	"encoding/base64"
	"encoding/json"
	"math/rand"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/transport"
	v "github.com/signal-golang/textsecure/zzspec"
)

// A provisioning message is sealed to the new device's key: a fresh public key, and a body of version,
// initialization vector, ciphertext and a MAC over all of them, under keys both private keys lead to.
//
//vc:prop C23 C26
//vc:target root.provisioningCipher root.aesEncrypt root.aesDecrypt
func vc_provision(priv, own [32]byte, idPub, idPriv []byte, uuid, code, number string) {
	pm := &signalservice.ProvisionMessage{AciIdentityKeyPublic: idPub, AciIdentityKeyPrivate: idPriv, Aci: &uuid, ProvisioningCode: &code, Number: &number}
	plain, err := proto.Marshal(pm)
	v.Assume(err == nil)
	p0, k0 := v.Clone(plain), priv
	identityKey = axolotl.NewIdentityKeyPairFromKeys(v.X25519Base(own[:]), make([]byte, 32)) // never used for it
	n0 := v.DrawnTotal()
	out, err := provisioningCipher(pm, axolotl.NewECPublicKey(v.X25519Base(priv[:])))
	if err != nil { // text that cannot be encoded
		v.Ensures("provision: nothing with an error", out == nil)
		return
	}
	pe := &signalservice.ProvisionEnvelope{}
	err = proto.Unmarshal(out, pe)
	v.Ensures("provision: an envelope", err == nil)
	pub, body := pe.GetPublicKey(), pe.GetBody()
	v.Ensures("provision: a fresh key and IV", v.DrawnTotal() == n0+48 && len(pub) == 33 && pub[0] == 5)
	keys := v.HKDF256(v.X25519(k0[:], pub[1:]), nil, []byte("TextSecure Provisioning Message"), 64)
	n := len(body) - 32
	v.Ensures("provision: version, IV, ciphertext and MAC", n == 17+len(zzPad(p0)) && body[0] == 1)
	v.Ensures("provision: the IV is fresh", v.Eq(body[1:17], v.Drawn(16)))
	v.Ensures("provision: MAC over all of them", v.Eq(body[n:], v.HMAC256(keys[32:], body[:n])))
	v.Ensures("provision: ciphertext of the message", v.Eq(body[17:n], v.CBCEnc(keys[:32], body[1:17], zzPad(p0))))
	got, err := aesDecrypt(keys[:32], v.Clone(body[1:n]))
	v.Ensures("provision: the new device reads exactly the message", err == nil && v.Eq(got, p0))
	v.Cover("sealed")
}

// zzOpenProvision is the new device: it reads what is sealed to its private key, or nothing.
func zzOpenProvision(priv []byte, b []byte) *signalservice.ProvisionMessage {
	pe := &signalservice.ProvisionEnvelope{}
	if proto.Unmarshal(b, pe) != nil || len(pe.PublicKey) != 33 || len(pe.Body) < 65 || pe.Body[0] != 1 {
		return nil
	}
	keys := v.HKDF256(v.X25519(priv, pe.PublicKey[1:]), nil, []byte("TextSecure Provisioning Message"), 64)
	n := len(pe.Body) - 32
	if !v.Eq(pe.Body[n:], v.HMAC256(keys[32:], pe.Body[:n])) {
		return nil
	}
	p := v.CBCDec(keys[:32], pe.Body[1:17], pe.Body[17:n])
	k := int(p[len(p)-1])
	if k < 1 || k > 16 || !v.Eq(p[len(p)-k:], v.Repeat(byte(k), k)) {
		return nil
	}
	pm := &signalservice.ProvisionMessage{}
	if proto.Unmarshal(p[:len(p)-k], pm) != nil {
		return nil
	}
	return pm
}

// Adding a device sends our identity, number and the code to it, readable with its private key only; a key
// that is none is an error and nothing is sent; so is a refusal by the server.
//
//vc:prop C23
//vc:target root.addNewDevice root.AddDevice root.AddNewLinkedDevice root.provisioningCipher root.getNewDeviceVerificationCode
//vc:bounded
func vc_addDevice(seed, how int, uuid, tel, code, id string) {
	r := rand.New(rand.NewSource(int64(seed)))
	zzSetup(false)
	config.ConfigFile = &config.Config{UUID: uuid, Tel: tel}
	kp := axolotl.NewECKeyPair()
	key := kp.PublicKey.Serialize()
	bad := false
	switch r.Intn(6) {
	case 0:
		key, bad = key[:r.Intn(33)], true
	case 1:
		key[0], bad = byte(6+r.Intn(100)), true
	case 2:
		key, bad = append(key, 1), true
	}
	text := base64.StdEncoding.EncodeToString(key)
	if r.Intn(2) == 0 {
		text = strings.TrimRight(text, "=")
	}
	if r.Intn(9) == 0 {
		text, bad = text+"*", true
	}
	sent, refused := 0, r.Intn(5) == 0
	code2 = ""
	transport.ZZServe(func(q transport.ZZReq) transport.ZZResp {
		if q.Method == "GET" {
			b, _ := json.Marshal(map[string]string{"verificationCode": code})
			return transport.ZZResp{Status: 200, Body: b}
		}
		sent++
		v.Ensures("add: to the address of the new device", q.Method == "PUT" && strings.HasSuffix(q.URL, "/v1/provisioning/"+id))
		var m map[string]string
		err := json.Unmarshal(q.Body, &m)
		b, err2 := base64.StdEncoding.DecodeString(m["body"])
		v.Ensures("add: a body", err == nil && err2 == nil && len(m) == 1)
		pm := zzOpenProvision(kp.PrivateKey.Key()[:], b)
		v.Ensures("add: the device reads our identity", pm != nil && v.Eq(pm.AciIdentityKeyPublic, identityKey.PublicKey.Serialize()) && v.Eq(pm.AciIdentityKeyPrivate, identityKey.PrivateKey.Key()[:]))
		v.Ensures("add: and our address and the code", pm.GetAci() == uuid && pm.GetNumber() == tel && pm.GetProvisioningCode() == code)
		v.Ensures("add: nobody else does", zzOpenProvision(axolotl.NewECKeyPair().PrivateKey.Key()[:], b) == nil && zzOpenProvision(identityKey.PrivateKey.Key()[:], b) == nil)
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		x := zzOpenProvision(kp.PrivateKey.Key()[:], b)
		v.Ensures("add: altered it is refused", x == nil || proto.Equal(x, pm))
		if refused {
			return transport.ZZResp{Status: 413}
		}
		return transport.ZZResp{Status: 204}
	})
	var err error
	if how == 0 {
		err = AddNewLinkedDevice(id, text)
	} else {
		err = AddDevice(id, text, code)
	}
	v.Ensures("add: fails exactly for a bad key or a refusal", (err != nil) == (bad || refused))
	v.Ensures("add: sent once", sent == 1 || bad && sent == 0)
	if err == nil {
		v.Cover("added")
	} else {
		v.Cover("refused")
	}
}

func gen_vc_provision(r *rand.Rand) []interface{} {
	var k, own [32]byte
	v.Fill(r, k[:])
	v.Fill(r, own[:])
	return []interface{}{k, own, v.RandBytes(r), v.RandBytes(r), zzWord(r), zzWord(r), zzWord(r)}
}
func gen_vc_addDevice(r *rand.Rand) []interface{} {
	return []interface{}{int(r.Int31()), r.Intn(2), zzWord(r), zzWord(r), zzWord(r), zzWord(r)}
}
func zzWord(r *rand.Rand) string {
	b := make([]byte, r.Intn(20))
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789-"[r.Intn(37)]
	}
	return string(b)
}
