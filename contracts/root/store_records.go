package textsecure

import (
	"math/rand"
	"path/filepath"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	axpb "github.com/signal-golang/textsecure/axolotl/protobuf"
	"github.com/signal-golang/textsecure/config"
	v "github.com/signal-golang/textsecure/zzspec"
)

// Each kind of record, in a store whose files hold the records as they are (what is done to their content is
// vc_storeCrypt's and vc_writeFile's matter).

func zzPlainStore(dir string) *store {
	config.ConfigFile = &config.Config{}
	for _, d := range []string{"/prekeys", "/signed_prekeys", "/identity", "/sessions"} {
		v.MkdirAll(dir + d)
	}
	return &store{unencrypted: true, preKeysDir: filepath.Join(dir, "prekeys"), signedPreKeysDir: filepath.Join(dir, "signed_prekeys"), identityDir: filepath.Join(dir, "identity"), sessionsDir: filepath.Join(dir, "sessions")}
}

//vc:prop C11 C28 C10
//vc:target (*root.store).StorePreKey (*root.store).LoadPreKey (*root.store).RemovePreKey (*root.store).ContainsPreKey (*root.store).preKeysFilePath root.idToFilename
func vc_preKeyRecord(id, other uint32, priv, pub [32]byte) {
	v.Requires(id != other)
	dir := v.TempDir()
	s := zzPlainStore(dir)
	path, file := dir+"/prekeys/"+idToFilename(id), dir+"/prekeys/"+idToFilename(other)
	v.Ensures("prekey: ids have files of their own", path != file && s.preKeysFilePath(id) == path)
	v.PutFile(path, []byte("old"))
	v.PutFile(file, []byte("another record"))
	v.WatchFile(path)
	err := s.StorePreKey(id, axolotl.NewPreKeyRecord(id, axolotl.MakeECKeyPair(priv[:], pub[:])))
	v.Ensures("prekey: stored", err == nil)
	v.Ensures("prekey: the old or the new record at every moment", !v.Torn(path))
	got, err := s.LoadPreKey(id)
	v.Ensures("prekey: reads back", err == nil && got.Pkrs.Id == id && v.Eq(got.Pkrs.PublicKey, pub[:]) && v.Eq(got.Pkrs.PrivateKey, priv[:]))
	v.Ensures("prekey: there", s.ContainsPreKey(id))
	s.RemovePreKey(id)
	_, is := v.File(path)
	v.Ensures("prekey: gone", !is && !s.ContainsPreKey(id))
	_, err = s.LoadPreKey(id)
	v.Ensures("prekey: does not load", err != nil)
	x, is := v.File(file)
	v.Ensures("prekey: others untouched", is && x == "another record" && s.ContainsPreKey(other))
	v.Cover("prekey")
}
func gen_vc_preKeyRecord(r *rand.Rand) []interface{} {
	return []interface{}{zzID(r), zzID(r), zzKey32(r), zzKey32(r)}
}

//vc:prop C11 C28 C10
//vc:target (*root.store).StoreSignedPreKey (*root.store).LoadSignedPreKey (*root.store).RemoveSignedPreKey (*root.store).ContainsSignedPreKey (*root.store).signedPreKeysFilePath
func vc_signedPreKeyRecord(id, other uint32, priv, pub [32]byte, sig []byte, ts uint64) {
	v.Requires(id != other)
	dir := v.TempDir()
	s := zzPlainStore(dir)
	path, file := dir+"/signed_prekeys/"+idToFilename(id), dir+"/signed_prekeys/"+idToFilename(other)
	v.Ensures("signed prekey: ids have files of their own", path != file && s.signedPreKeysFilePath(id) == path)
	v.PutFile(path, []byte("old"))
	v.PutFile(file, []byte("another record"))
	v.WatchFile(path)
	err := s.StoreSignedPreKey(id, axolotl.NewSignedPreKeyRecord(id, ts, axolotl.MakeECKeyPair(priv[:], pub[:]), sig))
	v.Ensures("signed prekey: stored", err == nil)
	v.Ensures("signed prekey: the old or the new record at every moment", !v.Torn(path))
	got, err := s.LoadSignedPreKey(id)
	v.Ensures("signed prekey: reads back", err == nil && got.Spkrs.Id == id && v.Eq(got.Spkrs.PublicKey, pub[:]) && v.Eq(got.Spkrs.PrivateKey, priv[:]) && v.Eq(got.Spkrs.Signature, sig) && got.Spkrs.Timestamp == ts)
	v.Ensures("signed prekey: there", s.ContainsSignedPreKey(id))
	s.RemoveSignedPreKey(id)
	_, is := v.File(path)
	v.Ensures("signed prekey: gone", !is && !s.ContainsSignedPreKey(id))
	x, is := v.File(file)
	v.Ensures("signed prekey: others untouched", is && x == "another record" && s.ContainsSignedPreKey(other))
	v.Cover("signed prekey")
}
func gen_vc_signedPreKeyRecord(r *rand.Rand) []interface{} {
	return []interface{}{zzID(r), zzID(r), zzKey32(r), zzKey32(r), zzRnd(r, 64), r.Uint64()}
}

//vc:prop C07 C11 C28 C10
//vc:target (*root.store).SaveIdentity (*root.store).IsTrustedIdentity
func vc_identityRecord(id, other string, k, k2 [32]byte, first bool) {
	v.Requires(id != "" && other != "" && id != other)
	dir := v.TempDir()
	s := zzPlainStore(dir)
	key, key2 := axolotl.NewIdentityKey(k[:]), axolotl.NewIdentityKey(k2[:])
	path, file := dir+"/identity/remote_"+zzEscape(id), dir+"/identity/remote_"+zzEscape(other)
	v.Requires(path != file) // url.PathEscape is injective
	if !first {
		v.PutFile(path, []byte("old"))
		v.Ensures("identity: not trusted when another one is stored", !s.IsTrustedIdentity(id, key))
	} else {
		_, was := v.File(path)
		v.Requires(!was)
		v.Ensures("identity: trusted on first use", s.IsTrustedIdentity(id, key))
		_, was = v.File(path)
		v.Ensures("identity: asking stores nothing", !was)
	}
	v.PutFile(file, k[:])
	v.WatchFile(path)
	err := s.SaveIdentity(id, key)
	v.Ensures("identity: stored", err == nil)
	v.Ensures("identity: the old or the new record at every moment", !v.Torn(path))
	x, is := v.File(path)
	v.Ensures("identity: the key as it is", is && x == string(k[:]))
	v.Ensures("identity: the stored one is trusted", s.IsTrustedIdentity(id, key))
	v.Ensures("identity: another one is not", s.IsTrustedIdentity(id, key2) == (k == k2))
	v.Ensures("identity: another peer's counts for that peer", s.IsTrustedIdentity(other, key2) == (k == k2))
	x, is = v.File(file)
	v.Ensures("identity: others untouched", is && x == string(k[:]))
	v.Cover("identity")
}
func gen_vc_identityRecord(r *rand.Rand) []interface{} {
	k := zzKey32(r)
	k2 := k
	if r.Intn(2) == 0 {
		k2[r.Intn(32)] ^= byte(1 + r.Intn(255))
	}
	return []interface{}{zzRecID(r), zzRecID(r), k, k2, r.Intn(2) == 0}
}

//vc:prop C11 C28 C10
//vc:target (*root.store).SetIdentityKeyPair (*root.store).GetIdentityKeyPair
func vc_ownIdentityRecord(priv, pub [32]byte, id string) {
	v.Requires(id != "")
	dir := v.TempDir()
	s := zzPlainStore(dir)
	path, file := dir+"/identity/identity_key", dir+"/identity/remote_"+zzEscape(id)
	v.PutFile(path, []byte("old"))
	v.PutFile(file, []byte("another record"))
	v.PutFile(dir+"/identity/regid", []byte("17"))
	v.WatchFile(path)
	err := s.SetIdentityKeyPair(axolotl.NewIdentityKeyPairFromKeys(priv[:], pub[:]))
	v.Ensures("own identity: stored", err == nil)
	v.Ensures("own identity: the old or the new record at every moment", !v.Torn(path))
	ikp, err := s.GetIdentityKeyPair()
	v.Ensures("own identity: reads back", err == nil && *ikp.PublicKey.Key() == pub && *ikp.PrivateKey.Key() == priv)
	x, is := v.File(file)
	v.Ensures("own identity: peers' untouched", is && x == "another record")
	x, is = v.File(dir + "/identity/regid")
	v.Ensures("own identity: registration id untouched", is && x == "17")
	v.Cover("own identity")
}
func gen_vc_ownIdentityRecord(r *rand.Rand) []interface{} {
	return []interface{}{zzKey32(r), zzKey32(r), zzRecID(r)}
}

//vc:prop C11 C28 C10
//vc:target (*root.store).SetLocalRegistrationID (*root.store).GetLocalRegistrationID
func vc_regIDRecord(regid uint32, key [64]byte) {
	dir := v.TempDir()
	s := zzPlainStore(dir)
	path, file := dir+"/identity/regid", dir+"/identity/identity_key"
	v.PutFile(path, []byte("17"))
	v.PutFile(file, key[:])
	v.WatchFile(path)
	s.SetLocalRegistrationID(regid)
	v.Ensures("registration id: the old or the new one at every moment", !v.Torn(path))
	got, err := s.GetLocalRegistrationID()
	v.Ensures("registration id: reads back", err == nil && got == regid)
	x, is := v.File(file)
	v.Ensures("registration id: identity untouched", is && x == string(key[:]))
	v.Cover("registration id")
}

//vc:prop C11 C28 C10
//vc:target (*root.store).storeHTTPPassword (*root.store).loadHTTPPassword (*root.store).storeHTTPSignalingKey (*root.store).loadHTTPSignalingKey
func vc_httpRecords(pw string, sig []byte) {
	dir := v.TempDir()
	s := zzPlainStore(dir)
	p0 := dir + "/identity/http_password"
	v.PutFile(p0, []byte("old"))
	v.PutFile(dir+"/identity/regid", []byte("17"))
	v.WatchFile(p0)
	s.storeHTTPPassword(pw)
	s.storeHTTPSignalingKey(v.Clone(sig))
	v.Ensures("http: the old or the new password at every moment", !v.Torn(p0))
	p, err := s.loadHTTPPassword()
	v.Ensures("http: password reads back", err == nil && p == pw)
	g, err := s.loadHTTPSignalingKey()
	v.Ensures("http: signaling key reads back", err == nil && v.Eq(g, sig))
	x, is := v.File(dir + "/identity/regid")
	v.Ensures("http: registration id untouched", is && x == "17")
	v.Cover("http")
}
func gen_vc_httpRecords(r *rand.Rand) []interface{} {
	return []interface{}{"pw" + string(v.RandBytes(r)), v.RandBytes(r)}
}

//vc:prop C11 C28 C10
//vc:target (*root.store).StoreSession (*root.store).LoadSession (*root.store).DeleteSession (*root.store).ContainsSession (*root.store).sessionFilePath
func vc_sessionRecord(rec, other string, dev, odev uint32, root [32]byte) {
	v.Requires(rec != "" && other != "")
	dir := v.TempDir()
	s := zzPlainStore(dir)
	path, file := zzSessionPath(dir, rec, dev), zzSessionPath(dir, other, odev)
	v.Requires(path != file)
	v.PutFile(path, []byte("old"))
	v.PutFile(file, []byte("another record"))
	b, err := proto.Marshal(&axpb.RecordStructure{CurrentSession: &axpb.SessionStructure{RootKey: root[:]}})
	v.Assume(err == nil)
	sr, err := axolotl.LoadSessionRecord(b)
	v.Assume(err == nil)
	v.WatchFile(path)
	err = s.StoreSession(rec, dev, sr)
	v.Ensures("session: stored", err == nil)
	v.Ensures("session: the old or the new record at every moment", !v.Torn(path))
	_, is := v.File(path)
	v.Ensures("session: the record in its own file", is)
	v.Ensures("session: there", s.ContainsSession(rec, dev))
	got, err := s.LoadSession(rec, dev)
	v.Ensures("session: loads", err == nil && !got.Fresh)
	b1, e1 := sr.Serialize()
	b2, e2 := got.Serialize()
	v.Ensures("session: reads back as stored", e1 == nil && e2 == nil && v.Eq(b1, b2))
	s.DeleteSession(rec, dev)
	v.Ensures("session: gone", !s.ContainsSession(rec, dev))
	got, err = s.LoadSession(rec, dev)
	v.Ensures("session: none loads as a fresh one", err == nil && got.Fresh)
	x, is := v.File(file)
	v.Ensures("session: others untouched", is && x == "another record" && s.ContainsSession(other, odev))
	v.Cover("session")
}
func gen_vc_sessionRecord(r *rand.Rand) []interface{} {
	d := func() uint32 { return []uint32{0, 1, 2, 11, 12, 4294967295}[r.Intn(6)] }
	return []interface{}{zzRecID(r), zzRecID(r), d(), d(), zzKey32(r)}
}
