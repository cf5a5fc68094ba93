package unidentifiedAccess

import (
	"math/rand"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	v "github.com/signal-golang/textsecure/zzspec"
)

// The access key is a fixed function of the profile key alone.
//
//vc:prop C25
//vc:target unidentifiedAccess.DeriveAccessKeyFrom
func vc_accessKey(key []byte) {
	k0 := v.Clone(key)
	n0 := v.DrawnTotal()
	a, err := DeriveAccessKeyFrom(key)
	v.Ensures("access key: from a key of 16, 24 or 32 bytes", (err == nil) == (len(k0) == 16 || len(k0) == 24 || len(k0) == 32))
	if err != nil {
		v.Cover("refused")
		v.Ensures("access key: nothing on error", a == nil)
		return
	}
	v.Cover("derived")
	z := v.Repeat(0, 28)
	v.Ensures("access key: of the profile key alone", len(a) == 16 && v.Eq(a, v.GCMSeal(k0, z[:12], z[12:], nil)[:16]) && v.DrawnTotal() == n0)
}

// To somebody whose profile key is not known, the access key is random.
//
//vc:prop C25 C26
//vc:target unidentifiedAccess.GetTargetUnidentifiedAccessKey
func vc_targetKey(key []byte) {
	k0 := v.Clone(key)
	n0 := v.DrawnTotal()
	a, err := GetTargetUnidentifiedAccessKey(contacts.Contact{ProfileKey: key})
	if key == nil {
		v.Cover("no key")
		v.Ensures("access key: random", err == nil && len(a) == 16 && v.DrawnTotal() == n0+16 && v.Eq(a, v.Drawn(16)))
		return
	}
	v.Cover("a key")
	z := v.Repeat(0, 28)
	v.Ensures("access key: theirs", err != nil && a == nil || len(a) == 16 && v.Eq(a, v.GCMSeal(k0, z[:12], z[12:], nil)[:16]))
}

// A pair of access keys holds the recipient's key, random if their profile key is not known, and ours, always
// derived from our profile key, and our certificate in both.
//
//vc:prop C25 C26
//vc:target unidentifiedAccess.GetAccessForUUID unidentifiedAccess.GetTargetUnidentifiedAccessKey unidentifiedAccess.GetOurCertificate
func vc_accessPair(ours, theirs, w []byte, known bool) {
	if !known {
		theirs = nil
	}
	cert := &signalservice.ServerCertificate{}
	bad := proto.Unmarshal(v.Clone(w), cert) != nil
	config.ConfigFile = &config.Config{ProfileKey: ours, Certificate: w}
	a, e1 := DeriveAccessKeyFrom(ours)
	b, e2 := DeriveAccessKeyFrom(theirs)
	n0 := v.DrawnTotal()
	p, err := GetAccessForUUID(contacts.Contact{ProfileKey: theirs})
	v.Ensures("pair: made of usable keys and certificates only", (err == nil) == (e1 == nil && !bad && (theirs == nil || e2 == nil)))
	if err != nil {
		return
	}
	t, s := p.TargetUnidentifiedAccess, p.SelfUnidentifiedAccess
	v.Ensures("pair: our key from our profile key", v.Eq(s.UnidentifiedAccessKey, a))
	v.Ensures("pair: our certificate", v.Eq(s.UnidentifiedCertificate, cert.Certificate) && v.Eq(t.UnidentifiedCertificate, cert.Certificate))
	v.Ensures("pair: the target key", v.Eq(p.GetTargetKey(), t.UnidentifiedAccessKey))
	if theirs == nil {
		v.Ensures("pair: a random key", v.DrawnTotal() == n0+16 && v.Eq(t.UnidentifiedAccessKey, v.Drawn(16)))
		v.Cover("unknown profile key")
	} else {
		v.Ensures("pair: their key", v.Eq(t.UnidentifiedAccessKey, b) && v.DrawnTotal() == n0)
		v.Cover("known profile key")
	}
}
func gen_vc_accessPair(r *rand.Rand) []interface{} {
	w, _ := proto.Marshal(&signalservice.ServerCertificate{Certificate: v.RandBytes(r)})
	if r.Intn(5) == 0 {
		w = v.RandBytes(r)
	}
	return []interface{}{zzKey(r), zzKey(r), w, r.Intn(3) > 0}
}

// Pairs of access keys hold the recipient's key and ours, and our certificate.
//
//vc:prop C25
//vc:target unidentifiedAccess.GetAccessFor unidentifiedAccess.GetAccessForUUID unidentifiedAccess.GetAccessForSync unidentifiedAccess.GetTargetUnidentifiedAccess unidentifiedAccess.GetOurCertificate
//vc:bounded
func vc_accessPairs(seed int, ours, theirs, cert []byte) {
	r := rand.New(rand.NewSource(int64(seed)))
	w, err := proto.Marshal(&signalservice.ServerCertificate{Certificate: cert})
	v.Assume(err == nil)
	bad := r.Intn(6) == 0
	if bad {
		w = []byte{0x0a, 0x7f}
	}
	config.ConfigFile = &config.Config{ProfileKey: ours, Certificate: w}
	a, e1 := DeriveAccessKeyFrom(ours)
	b, e2 := DeriveAccessKeyFrom(theirs)
	good := func(p *UnidentifiedAccessPair) bool {
		t, s := p.TargetUnidentifiedAccess, p.SelfUnidentifiedAccess
		return v.Eq(t.UnidentifiedAccessKey, b) && v.Eq(s.UnidentifiedAccessKey, a) && v.Eq(t.UnidentifiedCertificate, cert) && v.Eq(s.UnidentifiedCertificate, cert) && v.Eq(p.GetTargetKey(), b)
	}
	c := contacts.Contact{ProfileKey: theirs}
	p, err := GetAccessForUUID(c)
	v.Ensures("pair: made exactly of usable keys and certificates", (err == nil) == (e1 == nil && e2 == nil && !bad))
	v.Ensures("pair: their key and ours", err != nil || good(p))
	ps, err := GetAccessFor([]contacts.Contact{c, {}, c})
	v.Ensures("pairs: made exactly of usable keys and certificates", (err == nil) == (e1 == nil && e2 == nil && !bad))
	v.Ensures("pairs: one for everybody", err != nil || len(*ps) == 3 && good(&(*ps)[0]) && good(&(*ps)[2]))
	v.Ensures("pairs: random where the profile key is not known", err != nil || !good(&(*ps)[1]) && v.Eq((*ps)[1].GetTargetKey(), v.Drawn(16)) && v.Eq((*ps)[1].SelfUnidentifiedAccess.UnidentifiedAccessKey, a) && v.Eq((*ps)[1].SelfUnidentifiedAccess.UnidentifiedCertificate, cert))
	u, err := GetAccessForSync(ours, w)
	v.Ensures("sync: our own", err != nil && e1 != nil || v.Eq(u.UnidentifiedAccessKey, a) && v.Eq(u.UnidentifiedCertificate, w))
	v.Cover("pairs")
}

// A sender certificate is kept only if it can be read and has not expired; anything else is an error, never
// the end of the client.
//
//vc:prop C25
//vc:target unidentifiedAccess.CheckCertificate
//vc:bounded
func vc_certificate(seed int, raw []byte) {
	r := rand.New(rand.NewSource(int64(seed)))
	now := uint64(time.Now().UnixNano() / 1e6)
	off := uint64(5000 + r.Int63n(1<<uint(1+r.Intn(40))))
	exp := now + off
	old := r.Intn(2) == 0
	if old {
		exp = now - off%now
	}
	c := &signalservice.SenderCertificate_Certificate{Expires: &exp, IdentityKey: raw}
	if r.Intn(6) == 0 {
		c.Expires, old = nil, true
	}
	b, err := proto.Marshal(c)
	v.Assume(err == nil)
	if r.Intn(8) == 0 {
		b, old = append(b, 0x0a, 0x7f), true
	}
	w, err := proto.Marshal(&signalservice.SenderCertificate{Certificate: b, Signature: raw})
	v.Assume(err == nil)
	if r.Intn(8) == 0 {
		w, old = append(w, 0x0a, 0x7f), true
	}
	err = CheckCertificate(w)
	v.Ensures("certificate: good exactly until it expires", (err == nil) == !old)
	if len(raw) < 8 {
		v.Ensures("certificate: nothing is none", CheckCertificate(raw) != nil)
	}
	CheckCertificate(raw)
	if old {
		v.Cover("refused")
	} else {
		v.Cover("kept")
	}
}

func zzBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	v.Fill(r, b)
	return b
}
func zzKey(r *rand.Rand) []byte                   { return zzBytes(r, []int{32, 32, 32, 32, 16, 24, 31, 0}[r.Intn(8)]) }
func gen_vc_accessKey(r *rand.Rand) []interface{} { return []interface{}{zzKey(r)} }
func gen_vc_targetKey(r *rand.Rand) []interface{} {
	if r.Intn(3) == 0 {
		return []interface{}{[]byte(nil)}
	}
	return []interface{}{zzKey(r)}
}
func gen_vc_accessPairs(r *rand.Rand) []interface{} {
	return []interface{}{int(r.Int31()), zzKey(r), zzKey(r), v.RandBytes(r)}
}
func gen_vc_certificate(r *rand.Rand) []interface{} {
	return []interface{}{int(r.Int31()), v.RandBytes(r)}
}
