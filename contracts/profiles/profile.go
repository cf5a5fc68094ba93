package profiles

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/crypto"
	"github.com/signal-golang/textsecure/transport"
	"github.com/signal-golang/textsecure/unidentifiedAccess"
	v "github.com/signal-golang/textsecure/zzspec"
)

// A profile key is 32 bytes of the system's random source.
//
//vc:prop C25 C26
//vc:target profiles.GenerateProfileKey
func vc_profileKey() {
	n0 := v.DrawnTotal()
	k := GenerateProfileKey()
	v.Ensures("profile key: 32 random bytes", len(k) == 32 && v.DrawnTotal() == n0+32 && v.Eq(k, v.Drawn(32)))
	v.Cover("key")
}

// A name is sealed under the profile key with a fresh nonce, its length hidden; names too long and keys of a
// wrong size are errors.
//
//vc:prop C25 C26
//vc:target profiles.encryptName crypto.AesgcmEncrypt
func vc_nameSeal(key, name []byte, padded int) {
	v.Requires(padded >= 0 && padded < 1000)
	k0, p0 := v.Clone(key), v.Clone(name)
	n0 := v.DrawnTotal()
	c, err := encryptName(key, v.Clone(name), padded)
	okKey := len(k0) == 16 || len(k0) == 24 || len(k0) == 32
	v.Ensures("name: sealed exactly if it fits", (err == nil) == (okKey && len(p0) <= padded))
	if err != nil {
		v.Cover("refused")
		v.Ensures("name: nothing on error", c == nil)
		return
	}
	v.Cover("sealed")
	v.Ensures("name: its length is hidden", len(c) == 12+padded+16)
	v.Ensures("name: a fresh nonce", v.DrawnTotal() == n0+12 && v.Eq(c[:12], v.Drawn(12)))
	v.Ensures("name: AES-GCM of the padded name", v.Eq(c[12:], v.GCMSeal(k0, c[:12], v.Cat(p0, v.Repeat(0, padded-len(p0))), nil)))
	v.Ensures("name: key intact", v.Eq(key, k0))
}

// What opens is a name sealed under this key, without its padding; anything else is an error and never a panic.
//
//vc:prop C25
//vc:target profiles.decryptName crypto.AesgcmDecrypt
func vc_nameOpen(key, c []byte, k int) {
	k0, c0 := v.Clone(key), v.Clone(c)
	p, err := decryptName(key, v.Clone(c))
	if err != nil {
		v.Cover("refused")
		v.Ensures("name: nothing on error", p == nil)
		return
	}
	n := len(c0) - 28
	v.Ensures("name: no longer than it was", n >= 1 && len(p) <= n)
	v.Ensures("name: ends with its last byte", len(p) == 0 || p[len(p)-1] != 0)
	q, err := crypto.AesgcmDecrypt(k0, v.Clone(c0[:12]), v.Clone(c0[12:]), nil)
	v.Ensures("name: only what was sealed under this key", err == nil && len(q) == n && v.Eq(c0[12:], v.GCMSeal(k0, c0[:12], q, nil)))
	v.Ensures("name: that", v.Eq(p, q[:len(p)]))
	v.Requires(k >= len(p) && k < n)
	v.Ensures("name: all of it", q[k] == 0)
	v.Cover("opened")
}

func inv_decryptName_0_vc_nameOpen(padded []byte, i, plaintextLength, w_k int) bool {
	return i >= -1 && i < len(padded) && plaintextLength == 0 && (w_k <= i || w_k >= len(padded) || padded[w_k] == 0)
}

// Every name that fits comes back as it was, and nothing of what was sealed can be altered.
//
//vc:prop C25
//vc:target profiles.encryptName profiles.decryptName profiles.decryptString
//vc:bounded
func vc_nameRoundTrip(seed int, key, name []byte) {
	v.Requires(len(name) == 0 || name[len(name)-1] != 0) // padding is zeroes
	r := rand.New(rand.NewSource(int64(seed)))
	c, err := encryptName(key, v.Clone(name), NAME_PADDED_LENGTH)
	if err != nil {
		v.Cover("refused")
		v.Ensures("name: too long or a bad key", len(name) > NAME_PADDED_LENGTH || len(key) != 16 && len(key) != 24 && len(key) != 32)
		return
	}
	v.Cover("there and back")
	p, err := decryptName(key, v.Clone(c))
	v.Ensures("name: comes back as it was", err == nil && v.Eq(p, name))
	s, err := decryptString(key, base64.StdEncoding.EncodeToString(c))
	v.Ensures("name: as text too", err == nil && s == string(name))
	x := v.Clone(c)
	x[r.Intn(len(x))] ^= 1 << uint(r.Intn(8))
	_, err = decryptName(key, x)
	v.Ensures("name: altered it is an error", err != nil)
	_, err = decryptName(key, v.Clone(c[:r.Intn(len(c))]))
	v.Ensures("name: cut it is an error", err != nil)
	other := zzBytes(r, 32)
	_, err = decryptName(other, v.Clone(c))
	v.Ensures("name: with another key it is an error", err != nil)
}

// An avatar opens under the profile key only; short ones are errors and never a panic.
//
//vc:prop C25
//vc:target profiles.decryptAvatar profiles.decrypt
func vc_avatar(key, c []byte) {
	k0, c0 := v.Clone(key), v.Clone(c)
	p, err := decryptAvatar(v.Clone(c), key)
	if err != nil {
		v.Cover("refused")
		v.Ensures("avatar: nothing on error", p == nil)
		return
	}
	v.Cover("opened")
	v.Ensures("avatar: only what was sealed under the key", len(k0) >= 32 && len(c0) == len(p)+28 && v.Eq(c0[12:], v.GCMSeal(k0[:32], c0[:12], p, nil)))
}

// A profile is read with its owner's key: name, about and emoji come out as they were sealed; what does not
// authenticate is an error; any answer of the server is a profile or an error, never a crash. Our own name is
// published sealed, with our access key asked for by the server derived from our profile key.
//
//vc:prop C25
//vc:target profiles.decryptProfile profiles.GetProfile profiles.GetProfileUUID profiles.GetProfileE164 profiles.UpdateProfile profiles.writeOwnProfile
//vc:bounded
func vc_profile(seed int, name, about, emoji string) {
	v.Requires(!strings.HasSuffix(name, "\x00") && !strings.HasSuffix(about, "\x00") && !strings.HasSuffix(emoji, "\x00"))
	r := rand.New(rand.NewSource(int64(seed)))
	dir := v.TempDir()
	config.ConfigFile = &config.Config{StorageDir: dir, UUID: "00000000-0000-4000-8000-000000000001", ProfileKey: zzBytes(r, 32)}
	avatarsPath = ""
	contacts.Contacts = map[string]contacts.Contact{}
	contacts.ReadContacts(dir + "/contacts.yml")
	key := zzBytes(r, 32)
	seal := func(s string) string {
		c, err := encryptName(key, []byte(s), 600)
		v.Assume(err == nil)
		if s == "" {
			return ""
		}
		return base64.StdEncoding.EncodeToString(c)
	}
	id := base64.StdEncoding.EncodeToString(zzBytes(r, 33))
	p := &Profile{Name: seal(name), About: seal(about), AboutEmoji: seal(emoji), IdentityKey: id}
	if r.Intn(4) == 0 {
		bad := *p
		what := r.Intn(4)
		for _, f := range []*string{&bad.Name, &bad.About, &bad.AboutEmoji}[what%3 : what%3+1] {
			*f = []string{"AAAA", "*", base64.StdEncoding.EncodeToString(zzBytes(r, 80))}[r.Intn(3)]
		}
		err := decryptProfile(key, &bad)
		v.Ensures("profile: what does not authenticate is an error", err != nil || what%3 > 0 && p.Name == "")
	}
	q := *p
	err := decryptProfile(key, &q)
	v.Ensures("profile: read", err == nil && q.Name == name && (name == "" || q.About == about && q.AboutEmoji == emoji))
	v.Ensures("profile: not without a key", decryptProfile(nil, p) != nil)

	// our own
	sent := 0
	transport.ZZServe(func(q transport.ZZReq) transport.ZZResp {
		if q.Method == "PUT" {
			sent++
			var s ProfileSettings
			v.Ensures("own profile: understood", json.Unmarshal(q.Body, &s) == nil)
			got, err := decryptName(config.ConfigFile.ProfileKey, s.Name)
			v.Ensures("own profile: our name, sealed under our key", err == nil && string(got) == name && len(s.Name) == 12+NAME_PADDED_LENGTH+16)
			v.Ensures("own profile: the name nowhere else", len(name) < 5 || !bytes.Contains(q.Body, []byte(name)))
			return transport.ZZResp{Status: 200}
		}
		return transport.ZZResp{Status: 200, Body: []byte("{}")}
	})
	err = UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, name)
	v.Ensures("own profile: published if it fits", (err == nil) == (len(name) <= NAME_PADDED_LENGTH) && (sent == 1) == (err == nil))

	// whatever the server says
	bodies := []string{"", "null", "{}", "[]", `{"name":"AAAA"}`, `{"avatar":"profiles/x"}`, `{"avatar":"x","identityKey":"AAAA","uuid":"u"}`, fmt.Sprintf(`{"name":"%s","uuid":"u","avatar":"a"}`, p.Name)}
	ask := unidentifiedAccess.UnidentifiedAccess{}
	ask.UnidentifiedAccessKey, _ = unidentifiedAccess.DeriveAccessKeyFrom(config.ConfigFile.ProfileKey)
	first := true
	transport.ZZServe(func(q transport.ZZReq) transport.ZZResp {
		if k := q.Header.Get("Unidentified-Access-Key"); first && k != "" {
			first = false
			v.Ensures("profile: asked for with our access key", k == base64.StdEncoding.EncodeToString(ask.UnidentifiedAccessKey))
		}
		if r.Intn(12) == 0 {
			return transport.ZZResp{Err: true}
		}
		if strings.HasPrefix(q.URL, "http://cdn") {
			return transport.ZZResp{Status: 200, Body: zzBytes(r, r.Intn(60))}
		}
		return transport.ZZResp{Status: []int{200, 404}[r.Intn(2)], Body: []byte(bodies[r.Intn(len(bodies))])}
	})
	switch r.Intn(3) {
	case 0:
		GetProfile("u", key)
	case 1:
		contacts.Contacts["u"] = contacts.Contact{UUID: "u"}
		GetProfileUUID("u")
	case 2:
		GetProfileE164("+49")
	}
	v.Cover("profile")
}

func zzBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	v.Fill(r, b)
	return b
}
func zzKey(r *rand.Rand) []byte { return zzBytes(r, []int{32, 32, 32, 32, 16, 24, 31, 0}[r.Intn(8)]) }
func zzName(r *rand.Rand) []byte {
	return zzBytes(r, []int{0, 1, 5, 26, 52, 53, 54, 60}[r.Intn(8)])
}
func gen_vc_nameSeal(r *rand.Rand) []interface{} {
	return []interface{}{zzKey(r), zzName(r), []int{53, 53, 0, 257}[r.Intn(4)]}
}
func gen_vc_nameOpen(r *rand.Rand) []interface{} {
	k := zzBytes(r, 32)
	c, _ := encryptName(k, zzBytes(r, r.Intn(20)), 20)
	switch r.Intn(4) {
	case 0:
		c = v.RandBytes(r)
	case 1:
		c[r.Intn(len(c))] ^= 1
	}
	return []interface{}{k, c, r.Intn(20)}
}
func gen_vc_nameRoundTrip(r *rand.Rand) []interface{} {
	return []interface{}{int(r.Int31()), zzKey(r), zzName(r)}
}
func gen_vc_avatar(r *rand.Rand) []interface{} {
	k, n := zzBytes(r, []int{32, 33, 31, 0, 32}[r.Intn(5)]), zzBytes(r, 12)
	c := zzBytes(r, r.Intn(40))
	if len(k) >= 32 && r.Intn(3) > 0 {
		c = v.Cat(n, v.GCMSeal(k[:32], n, v.RandBytes(r), nil))
	}
	return []interface{}{k, c}
}
func zzText(r *rand.Rand) string {
	b := make([]byte, []int{0, 1, 4, 20, 53, 54, 70}[r.Intn(7)])
	for i := range b {
		b[i] = byte(33 + r.Intn(90))
	}
	return string(b)
}
func gen_vc_profile(r *rand.Rand) []interface{} {
	return []interface{}{int(r.Int31()), zzText(r), zzText(r), zzText(r)}
}
