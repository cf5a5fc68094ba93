package axolotl

import (
	"math/rand"

	protobuf "github.com/signal-golang/textsecure/axolotl/protobuf"
	v "github.com/signal-golang/textsecure/zzspec"

	"github.com/golang/protobuf/proto"
)

// Parsing never panics; what it yields is what the bytes encode.
//vc:prop C09
//vc:target axolotl.LoadWhisperMessage
func vc_LoadWhisperMessage(b []byte) {
	b0 := v.Clone(b)
	m, err := LoadWhisperMessage(b)
	v.Ensures("whisper: message or error", (err == nil) == (m != nil))
	v.Ensures("whisper: input intact", v.Eq(b, b0))
	if err != nil {
		v.Cover("whisper rejected")
		return
	}
	v.Cover("whisper accepted")
	v.Ensures("whisper: long enough", len(b0) >= 9)
	pb := &protobuf.SignalMessage{}
	e := proto.Unmarshal(b0[1:len(b0)-8], pb)
	v.Ensures("whisper: protobuf accepted", e == nil)
	v.Ensures("whisper: version", m.Version == 3 && b0[0]>>4 == 3)
	v.Ensures("whisper: counter", m.Counter == pb.GetCounter())
	v.Ensures("whisper: previous counter", m.PreviousCounter == pb.GetPreviousCounter())
	v.Ensures("whisper: ciphertext", v.Eq(m.Ciphertext, pb.GetCiphertext()) && pb.GetCiphertext() != nil)
	v.Ensures("whisper: ratchet key", len(pb.GetRatchetKey()) == 33 && v.Eq(m.RatchetKey.key[:], pb.GetRatchetKey()[1:]))
	v.Ensures("whisper: serialized form kept", v.Eq(m.serialized, b0))
}

//vc:prop C09
//vc:target axolotl.LoadPreKeyWhisperMessage
func vc_LoadPreKeyWhisperMessage(b []byte) {
	b0 := v.Clone(b)
	m, err := LoadPreKeyWhisperMessage(b)
	v.Ensures("prekey whisper: message or error", (err == nil) == (m != nil))
	v.Ensures("prekey whisper: input intact", v.Eq(b, b0))
	if err != nil {
		v.Cover("prekey whisper rejected")
		return
	}
	v.Cover("prekey whisper accepted")
	v.Ensures("prekey whisper: not empty", len(b0) > 0)
	pb := &protobuf.PreKeySignalMessage{}
	e := proto.Unmarshal(b0[1:], pb)
	v.Ensures("prekey whisper: protobuf accepted", e == nil)
	v.Ensures("prekey whisper: version", m.Version == 3 && b0[0]>>4 == 3)
	v.Ensures("prekey whisper: registration id", m.RegistrationID == pb.GetRegistrationId())
	v.Ensures("prekey whisper: prekey id", m.PreKeyID == pb.GetPreKeyId())
	v.Ensures("prekey whisper: signed prekey id", m.SignedPreKeyID == pb.GetSignedPreKeyId() && m.SignedPreKeyID != 0)
	v.Ensures("prekey whisper: base key", len(pb.GetBaseKey()) == 33 && v.Eq(m.BaseKey.key[:], pb.GetBaseKey()[1:]))
	v.Ensures("prekey whisper: identity key", len(pb.GetIdentityKey()) == 33 && v.Eq(m.IdentityKey.key[:], pb.GetIdentityKey()[1:]))
	v.Ensures("prekey whisper: inner message", m.Message != nil && v.Eq(m.Message.serialized, pb.GetMessage()))
	in, e2 := LoadWhisperMessage(pb.GetMessage())
	v.Ensures("prekey whisper: inner message parsed", e2 == nil && m.Message.Counter == in.Counter && m.Message.Version == in.Version &&
		m.Message.PreviousCounter == in.PreviousCounter && v.Eq(m.Message.Ciphertext, in.Ciphertext) && v.Eq(m.Message.RatchetKey.key[:], in.RatchetKey.key[:]))
}

func zzKey(k []byte) []byte { return v.Cat([]byte{5}, k) }

// zzMac is the MAC the protocol asks for: over both identities and every byte of the message.
func zzMac(sender, receiver, macKey, data []byte) []byte {
	return v.HMAC256(macKey, v.Cat(zzKey(sender), zzKey(receiver), data))[:8]
}

//vc:prop C02 C06 C09
//vc:target axolotl.newWhisperMessage
func vc_newWhisperMessage(macKey []byte, ratchetKey *ECPublicKey, counter, previousCounter uint32, ciphertext []byte, senderIdentity, receiverIdentity *IdentityKey) {
	v.Requires(ratchetKey != nil && senderIdentity != nil && receiverIdentity != nil && ciphertext != nil)
	c0 := v.Clone(ciphertext)
	m, err := newWhisperMessage(3, macKey, ratchetKey, counter, previousCounter, ciphertext, senderIdentity, receiverIdentity)
	v.Ensures("new whisper: message or error", (err == nil) == (m != nil))
	v.Ensures("new whisper: ciphertext intact", v.Eq(ciphertext, c0))
	if err != nil {
		return
	}
	v.Cover("new whisper made")
	s := v.Clone(m.serialize())
	v.Ensures("new whisper: ends in its mac", len(s) > 8 && v.Eq(s[len(s)-8:], zzMac(senderIdentity.key[:], receiverIdentity.key[:], macKey, s[:len(s)-8])))
	r, err := LoadWhisperMessage(s)
	v.Ensures("new whisper: parses", err == nil)
	v.Ensures("new whisper: version reads back", r.Version == 3 && m.Version == 3)
	v.Ensures("new whisper: counters read back", r.Counter == counter && r.PreviousCounter == previousCounter)
	v.Ensures("new whisper: ciphertext reads back", v.Eq(r.Ciphertext, c0))
	v.Ensures("new whisper: ratchet key reads back", v.Eq(r.RatchetKey.key[:], ratchetKey.key[:]))
	v.Ensures("new whisper: verifies", r.verifyMAC(senderIdentity, receiverIdentity, macKey))
}

//vc:prop C02
//vc:target (*axolotl.WhisperMessage).verifyMAC
func vc_verifyMAC(b []byte, sender, receiver *IdentityKey, macKey []byte) {
	v.Requires(sender != nil && receiver != nil)
	m, err := LoadWhisperMessage(b)
	if err != nil {
		return
	}
	b0 := v.Clone(b)
	ok := m.verifyMAC(sender, receiver, macKey)
	n := len(b0) - 8
	v.Ensures("mac: accepted exactly when it covers identities and message", ok == v.Eq(b0[n:], zzMac(sender.key[:], receiver.key[:], macKey, b0[:n])))
	v.Ensures("mac: message intact", v.Eq(b, b0))
	if ok {
		v.Cover("mac accepted")
	} else {
		v.Cover("mac refused")
	}
}

//vc:prop C06 C09
//vc:target axolotl.newPreKeyWhisperMessage
func vc_newPreKeyWhisperMessage(registrationID, preKeyID, signedPreKeyID uint32, baseKey *ECPublicKey, identityKey *IdentityKey, inner []byte) {
	v.Requires(baseKey != nil && identityKey != nil && signedPreKeyID != 0)
	wm, err := LoadWhisperMessage(inner)
	if err != nil {
		return
	}
	in0 := v.Clone(inner)
	m, err := newPreKeyWhisperMessage(3, registrationID, preKeyID, signedPreKeyID, baseKey, identityKey, wm)
	v.Ensures("new prekey whisper: message or error", (err == nil) == (m != nil))
	if err != nil {
		return
	}
	v.Cover("new prekey whisper made")
	r, err := LoadPreKeyWhisperMessage(v.Clone(m.serialize()))
	v.Ensures("new prekey whisper: parses", err == nil)
	v.Ensures("new prekey whisper: version reads back", r.Version == 3)
	v.Ensures("new prekey whisper: ids read back", r.RegistrationID == registrationID && r.PreKeyID == preKeyID && r.SignedPreKeyID == signedPreKeyID)
	v.Ensures("new prekey whisper: keys read back", v.Eq(r.BaseKey.key[:], baseKey.key[:]) && v.Eq(r.IdentityKey.key[:], identityKey.key[:]))
	v.Ensures("new prekey whisper: inner message reads back", v.Eq(r.Message.serialize(), in0))
}

// zzU32 draws counters and ids near the ends of their ranges too.
func zzU32(r *rand.Rand) uint32 {
	return []uint32{0, 1, 2, 2000, 0xFFFFFE, 0xFFFFFF, 0x1000000, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, r.Uint32()}[r.Intn(12)]
}

// zzKeyBytes is a key as it is sent, or something near to one.
func zzKeyBytes(r *rand.Rand) []byte {
	n := 33
	if r.Intn(4) == 0 {
		n = []int{0, 1, 5, 31, 32, 34, 40, 64}[r.Intn(8)]
	}
	b := make([]byte, n)
	v.Fill(r, b)
	if n > 0 && r.Intn(8) != 0 {
		b[0] = 5
	}
	return b
}
func zzVersion(r *rand.Rand) byte {
	if r.Intn(6) == 0 {
		return byte(r.Intn(256))
	}
	return 0x33
}
func zzDamage(r *rand.Rand, b []byte) []byte {
	if len(b) > 0 && r.Intn(5) == 0 {
		if r.Intn(2) == 0 {
			b = b[:r.Intn(len(b)+1)]
		} else {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
	}
	return b
}
func zzWhisper(r *rand.Rand) []byte {
	c, p := zzU32(r), zzU32(r)
	m := &protobuf.SignalMessage{RatchetKey: zzKeyBytes(r), Counter: &c, PreviousCounter: &p, Ciphertext: v.RandBytes(r)}
	switch r.Intn(12) {
	case 0:
		m.Ciphertext = nil
	case 1:
		m.Ciphertext = []byte{}
	case 2:
		m.Counter = nil
	case 3:
		m.PreviousCounter = nil
	case 4:
		m.RatchetKey = nil
	}
	b, _ := proto.Marshal(m)
	mac := make([]byte, 8)
	v.Fill(r, mac)
	return zzDamage(r, v.Cat([]byte{zzVersion(r)}, b, mac))
}
func gen_vc_LoadWhisperMessage(r *rand.Rand) []interface{} {
	if r.Intn(8) == 0 {
		return []interface{}{v.RandBytes(r)}
	}
	return []interface{}{zzWhisper(r)}
}
func gen_vc_LoadPreKeyWhisperMessage(r *rand.Rand) []interface{} {
	if r.Intn(8) == 0 {
		return []interface{}{v.RandBytes(r)}
	}
	reg, pk, spk := zzU32(r), zzU32(r), zzU32(r)
	m := &protobuf.PreKeySignalMessage{RegistrationId: &reg, PreKeyId: &pk, SignedPreKeyId: &spk, BaseKey: zzKeyBytes(r), IdentityKey: zzKeyBytes(r), Message: zzWhisper(r)}
	switch r.Intn(12) {
	case 0:
		m.PreKeyId = nil
	case 1:
		m.RegistrationId = nil
	case 2:
		m.SignedPreKeyId = nil
	}
	b, _ := proto.Marshal(m)
	return []interface{}{zzDamage(r, v.Cat([]byte{zzVersion(r)}, b))}
}
func zzECKey(r *rand.Rand) *ECPublicKey {
	b := make([]byte, 32)
	v.Fill(r, b)
	return NewECPublicKey(b)
}
func zzIDKey(r *rand.Rand) *IdentityKey {
	b := make([]byte, 32)
	v.Fill(r, b)
	return NewIdentityKey(b)
}
func zzMacKey(r *rand.Rand) []byte {
	b := make([]byte, 32)
	v.Fill(r, b)
	return b
}
func gen_vc_newWhisperMessage(r *rand.Rand) []interface{} {
	c := v.RandBytes(r)
	if c == nil {
		c = []byte{}
	}
	return []interface{}{zzMacKey(r), zzECKey(r), zzU32(r), zzU32(r), c, zzIDKey(r), zzIDKey(r)}
}

// a message with its right MAC, or one that differs from it in one bit, or is made with other keys
func gen_vc_verifyMAC(r *rand.Rand) []interface{} {
	s, t, k := zzIDKey(r), zzIDKey(r), zzMacKey(r)
	c, p := zzU32(r), zzU32(r)
	b, _ := proto.Marshal(&protobuf.SignalMessage{RatchetKey: zzKey(zzMacKey(r)), Counter: &c, PreviousCounter: &p, Ciphertext: v.RandBytes(r)})
	b = v.Cat([]byte{0x33}, b)
	mac := v.Clone(zzMac(s.key[:], t.key[:], k, b))
	switch r.Intn(6) {
	case 0, 1:
		mac[r.Intn(8)] ^= 1 << uint(r.Intn(8))
	case 2:
		s, t = t, s
	case 3:
		b[1+r.Intn(len(b)-1)] ^= 1 << uint(r.Intn(8))
	}
	return []interface{}{v.Cat(b, mac), s, t, k}
}
func gen_vc_newPreKeyWhisperMessage(r *rand.Rand) []interface{} {
	return []interface{}{zzU32(r), zzU32(r), zzU32(r), zzECKey(r), zzIDKey(r), zzWhisper(r)}
}
