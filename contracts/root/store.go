package textsecure

import (
	"math/rand"
	"os/signal"
	"syscall"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	axpb "github.com/signal-golang/textsecure/axolotl/protobuf"
	"github.com/signal-golang/textsecure/config"
	v "github.com/signal-golang/textsecure/zzspec"
)

func zzNewStore(dir string, enc bool) *store {
	pw := ""
	if enc {
		pw = "a password"
	}
	config.ConfigFile = &config.Config{}
	s, err := newStore(pw, dir)
	v.Assume(err == nil)
	return s
}

// The storage keys are a function of the password and the salt alone; the salt is fresh and saved
// the first time and used again later.
//
//vc:prop C10 C26
//vc:target root.newStore (*root.store).genKeys
func vc_newStore(password string) {
	dir := v.TempDir()
	had := false
	if v.ChooseBool() {
		v.PutFile(dir+"/salt", []byte("8 bytes!"))
	}
	old, had := v.File(dir + "/salt")
	n0 := v.DrawnTotal()
	s, err := newStore(password, dir)
	v.Assume(err == nil)
	v.Ensures("store: unencrypted exactly without a password", s.unencrypted == (password == ""))
	if password != "" {
		salt, now := v.File(dir + "/salt")
		v.Ensures("store: salt saved", now)
		if had {
			v.Cover("second start")
			v.Ensures("store: saved salt used again", salt == old)
		} else {
			v.Cover("first start")
			v.Ensures("store: fresh random salt", v.DrawnTotal() == n0+8 && v.Eq([]byte(salt), v.Drawn(8)))
		}
		keys := v.PBKDF2SHA1([]byte(password), []byte(salt), 1024, 36)
		v.Ensures("store: keys from password and salt", v.Eq(s.aesKey, keys[:16]) && v.Eq(s.macKey, keys[16:]))
	}
}

func zzDistinct(p, q string) bool { return p != q }

// Storing a prekey changes its own file only, completely or not at all, and it reads back.
//
//vc:prop C10 C11 C28
//vc:target (*root.store).StorePreKey (*root.store).LoadPreKey (*root.store).writeFile (*root.store).readFile
//vc:bounded
func vc_storePreKey(enc bool, id, other uint32, k [32]byte, kind int, rel string) {
	dir := v.TempDir()
	s := zzNewStore(dir, enc)
	path := dir + "/prekeys/" + idToFilename(id)
	v.Ensures("store: path of a prekey", s.preKeysFilePath(id) == path)
	v.Ensures("store: ids have files of their own", id == other || s.preKeysFilePath(other) != path)
	v.PutFile(dir+"/prekeys/"+idToFilename(other), []byte("other record"))
	file := zzFile(dir, kind, rel)
	v.Requires(file != path)
	old, was := v.File(file)
	rec := axolotl.NewPreKeyRecord(id, axolotl.MakeECKeyPair(k[:], k[:]))
	err := s.StorePreKey(id, rec)
	v.Ensures("store: prekey stored", err == nil)
	v.Ensures("store: a crash leaves the old or the new prekey", !v.Torn(path))
	now, is := v.File(file)
	v.Ensures("store: no other file touched", is == was && now == old)
	got, err := s.LoadPreKey(id)
	v.Ensures("store: prekey reads back", err == nil && got.Pkrs.Id == id && v.Eq(got.Pkrs.PublicKey, k[:]) && v.Eq(got.Pkrs.PrivateKey, k[:]))
	v.Ensures("store: contains the prekey", s.ContainsPreKey(id))
	s.RemovePreKey(id)
	_, is = v.File(path)
	v.Ensures("store: prekey removed", !is && !s.ContainsPreKey(id))
	now, is = v.File(file)
	v.Ensures("store: removal touches no other file", is == was && now == old)
	v.Cover("prekey stored, read and removed")
}

// zzFile is an arbitrary file of the storage directory.
func zzFile(dir string, kind int, rel string) string {
	rel = zzEscape(rel)
	switch kind {
	case 0:
		return dir + "/prekeys/" + rel
	case 1:
		return dir + "/signed_prekeys/" + rel
	case 2:
		return dir + "/identity/" + rel
	case 3:
		return dir + "/sessions/" + rel
	}
	return dir + "/salt"
}
func zzRel(r *rand.Rand) string {
	return []string{"000000007", "000000008", "regid", "identity_key", "remote_a", "a_1", "a_11", "a_1_2", "x"}[r.Intn(9)]
}
func zzID(r *rand.Rand) uint32 {
	return []uint32{0, 1, 7, 8, 70, 77, 999999999, 1000000000, 4294967295, 0xffffff}[r.Intn(10)]
}
func zzKey32(r *rand.Rand) (k [32]byte) {
	v.Fill(r, k[:])
	return
}
func gen_vc_storePreKey(r *rand.Rand) []interface{} {
	return []interface{}{r.Intn(2) == 0, zzID(r), zzID(r), zzKey32(r), r.Intn(5), zzRel(r)}
}

//vc:prop C10 C11 C28
//vc:target (*root.store).StoreSignedPreKey (*root.store).LoadSignedPreKey
//vc:bounded
func vc_storeSignedPreKey(enc bool, id, other uint32, k [32]byte, kind int, rel string) {
	dir := v.TempDir()
	s := zzNewStore(dir, enc)
	path := dir + "/signed_prekeys/" + idToFilename(id)
	v.Ensures("store: path of a signed prekey", s.signedPreKeysFilePath(id) == path)
	v.Ensures("store: ids have files of their own", id == other || s.signedPreKeysFilePath(other) != path)
	file := zzFile(dir, kind, rel)
	v.Requires(file != path)
	old, was := v.File(file)
	rec := axolotl.NewSignedPreKeyRecord(id, 5, axolotl.MakeECKeyPair(k[:], k[:]), k[:])
	err := s.StoreSignedPreKey(id, rec)
	v.Ensures("store: signed prekey stored", err == nil)
	v.Ensures("store: a crash leaves the old or the new signed prekey", !v.Torn(path))
	now, is := v.File(file)
	v.Ensures("store: no other file touched", is == was && now == old)
	got, err := s.LoadSignedPreKey(id)
	v.Ensures("store: signed prekey reads back", err == nil && got.Spkrs.Id == id && v.Eq(got.Spkrs.PublicKey, k[:]) && v.Eq(got.Spkrs.PrivateKey, k[:]) && v.Eq(got.Spkrs.Signature, k[:]) && got.Spkrs.Timestamp == 5)
	v.Ensures("store: contains the signed prekey", s.ContainsSignedPreKey(id))
	s.RemoveSignedPreKey(id)
	_, is = v.File(path)
	v.Ensures("store: signed prekey removed", !is && !s.ContainsSignedPreKey(id))
	now, is = v.File(file)
	v.Ensures("store: removal touches no other file", is == was && now == old)
	v.Cover("signed prekey stored, read and removed")
}
func gen_vc_storeSignedPreKey(r *rand.Rand) []interface{} { return gen_vc_storePreKey(r) }

// A peer's identity is stored under that peer only; it is trusted if none is stored yet or it is
// the stored one, and not otherwise.
//
//vc:prop C07 C10 C11 C28
//vc:target (*root.store).SaveIdentity (*root.store).IsTrustedIdentity
//vc:bounded
func vc_storeIdentity(enc bool, id, other string, k, k2 [32]byte, kind int, rel string) {
	v.Requires(id != "" && other != "" && id != other)
	dir := v.TempDir()
	s := zzNewStore(dir, enc)
	key, key2 := axolotl.NewIdentityKey(k[:]), axolotl.NewIdentityKey(k2[:])
	path := dir + "/identity/remote_" + zzEscape(id)
	_, was0 := v.File(path)
	v.Ensures("identity: trusted on first use", was0 || s.IsTrustedIdentity(id, key))
	file := zzFile(dir, kind, rel)
	v.Requires(file != path)
	old, was := v.File(file)
	po := dir + "/identity/remote_" + zzEscape(other)
	oldO, wasO := v.File(po)
	err := s.SaveIdentity(id, key)
	v.Ensures("identity: stored", err == nil)
	v.Ensures("identity: a crash leaves the old or the new identity", !v.Torn(path))
	now, is := v.File(file)
	v.Ensures("identity: no other file touched", is == was && now == old)
	nowO, isO := v.File(po)
	v.Ensures("identity: other peers' identities untouched", isO == wasO && nowO == oldO)
	v.Ensures("identity: the stored one is trusted", s.IsTrustedIdentity(id, key))
	v.Ensures("identity: another one is not", s.IsTrustedIdentity(id, key2) == (k == k2))
	v.Ensures("identity: another peer is not affected", wasO || s.IsTrustedIdentity(other, key2))
	v.Cover("identity stored")
}
func zzRecID(r *rand.Rand) string {
	return []string{"a", "b", "a_1", "a_1_1", "..", "../sessions/a", "a/b", "f0e1d2c3-b4a5-4677-8899-aabbccddeeff", "+4912345", "%2e", "a%2Fb", "remote_a", "a.b"}[r.Intn(13)]
}
func gen_vc_storeIdentity(r *rand.Rand) []interface{} {
	k := zzKey32(r)
	k2 := k
	if r.Intn(2) == 0 {
		k2[r.Intn(32)] ^= byte(1 + r.Intn(255))
	}
	return []interface{}{r.Intn(2) == 0, zzRecID(r), zzRecID(r), k, k2, r.Intn(5), zzRel(r)}
}

// An identity record that exists but can not be read makes no identity trusted.
//
//vc:prop C07
//vc:target (*root.store).IsTrustedIdentity
func vc_storeIdentityUnreadable(id string, k [32]byte, junk []byte) {
	v.Requires(id != "")
	dir := v.TempDir()
	s := zzNewStore(dir, true)
	path := dir + "/identity/remote_" + zzEscape(id)
	v.Requires(len(junk) < 40)
	v.PutFile(path, junk)
	v.Ensures("identity: unreadable record trusts nobody", !s.IsTrustedIdentity(id, axolotl.NewIdentityKey(k[:])))
	v.Cover("unreadable")
}
func gen_vc_storeIdentityUnreadable(r *rand.Rand) []interface{} {
	return []interface{}{zzRecID(r), zzKey32(r), v.RandBytes(r)}
}

// Our own identity key pair and the other single records read back and do not touch one another.
//
//vc:prop C10 C11 C28
//vc:target (*root.store).SetIdentityKeyPair (*root.store).GetIdentityKeyPair (*root.store).SetLocalRegistrationID (*root.store).GetLocalRegistrationID (*root.store).storeHTTPPassword (*root.store).storeHTTPSignalingKey
//vc:bounded
func vc_storeSingles(enc bool, priv, pub [32]byte, regid uint32, pw string, sig []byte, id string, k [32]byte) {
	v.Requires(id != "")
	dir := v.TempDir()
	s := zzNewStore(dir, enc)
	v.Ensures("store: a peer's identity stored first", s.SaveIdentity(id, axolotl.NewIdentityKey(k[:])) == nil)
	err := s.SetIdentityKeyPair(axolotl.NewIdentityKeyPairFromKeys(priv[:], pub[:]))
	v.Ensures("store: identity stored", err == nil)
	s.SetLocalRegistrationID(regid)
	s.storeHTTPPassword(pw)
	s.storeHTTPSignalingKey(v.Clone(sig))
	ikp, err := s.GetIdentityKeyPair()
	v.Ensures("store: identity reads back", err == nil && *ikp.PublicKey.Key() == pub && *ikp.PrivateKey.Key() == priv)
	r, err := s.GetLocalRegistrationID()
	v.Ensures("store: registration id reads back", err == nil && r == regid)
	p, err := s.loadHTTPPassword()
	v.Ensures("store: password reads back", err == nil && p == pw)
	g, err := s.loadHTTPSignalingKey()
	v.Ensures("store: signaling key reads back", err == nil && v.Eq(g, sig))
	v.Ensures("store: peer's identity untouched", s.IsTrustedIdentity(id, axolotl.NewIdentityKey(k[:])))
	v.Ensures("store: a crash leaves old or new records", !v.Torn(dir+"/identity/identity_key") && !v.Torn(dir+"/identity/regid"))
	v.Cover("single records")
}
func gen_vc_storeSingles(r *rand.Rand) []interface{} {
	return []interface{}{r.Intn(2) == 0, zzKey32(r), zzKey32(r), r.Uint32(), "pw" + string(v.RandBytes(r)), v.RandBytes(r), zzRecID(r), zzKey32(r)}
}

func zzSessionPath(dir, rec string, dev uint32) string {
	return dir + "/sessions/" + zzEscape(rec) + "_" + zzDec(dev)
}

// A session is stored in a file of its own recipient and device, completely or not at all, and
// reads back; deleting it deletes that file only.
//
//vc:prop C10 C11 C28
//vc:target (*root.store).StoreSession (*root.store).LoadSession (*root.store).DeleteSession (*root.store).ContainsSession
//vc:bounded
func vc_storeSession(enc bool, rec, other string, dev, odev uint32, root [32]byte, kind int, rel string) {
	v.Requires(rec != "" && other != "")
	dir := v.TempDir()
	s := zzNewStore(dir, enc)
	path := zzSessionPath(dir, rec, dev)
	v.Ensures("session: file of the recipient and device", s.sessionFilePath(rec, dev) == path)
	file := zzFile(dir, kind, rel)
	v.Requires(file != path)
	old, was := v.File(file)
	same := rec == other && dev == odev
	var oldO string
	wasO := false
	if !same {
		v.Cover("another session")
		v.Ensures("session: files of their own", s.sessionFilePath(other, odev) != path)
		oldO, wasO = v.File(zzSessionPath(dir, other, odev))
	}
	b, err := proto.Marshal(&axpb.RecordStructure{CurrentSession: &axpb.SessionStructure{RootKey: root[:]}})
	v.Assume(err == nil)
	sr, err := axolotl.LoadSessionRecord(b)
	v.Assume(err == nil)
	err = s.StoreSession(rec, dev, sr)
	v.Ensures("session: stored", err == nil)
	v.Ensures("session: a crash leaves the old or the new session", !v.Torn(path))
	now, is := v.File(file)
	v.Ensures("session: no other file touched", is == was && now == old)
	if !same {
		nowO, isO := v.File(zzSessionPath(dir, other, odev))
		v.Ensures("session: other sessions untouched", isO == wasO && nowO == oldO)
	}
	v.Ensures("session: contained", s.ContainsSession(rec, dev))
	got, err := s.LoadSession(rec, dev)
	v.Ensures("session: loads", err == nil)
	b1, e1 := sr.Serialize()
	b2, e2 := got.Serialize()
	v.Ensures("session: reads back as stored", e1 == nil && e2 == nil && v.Eq(b1, b2))
	s.DeleteSession(rec, dev)
	v.Ensures("session: deleted", !s.ContainsSession(rec, dev))
	now, is = v.File(file)
	v.Ensures("session: deletion touches no other file", is == was && now == old)
	got, err = s.LoadSession(rec, dev)
	v.Ensures("session: none loads as a fresh one", err == nil && got.Fresh)
	v.Cover("session stored, read and deleted")
}
func gen_vc_storeSession(r *rand.Rand) []interface{} {
	d := func() uint32 { return []uint32{0, 1, 2, 11, 12, 4294967295}[r.Intn(6)] }
	return []interface{}{r.Intn(2) == 0, zzRecID(r), zzRecID(r), d(), d(), zzKey32(r), r.Intn(5), zzRel(r)}
}

// A session record that exists but is not authentic is an error and never a fresh session.
//
//vc:prop C10
//vc:target (*root.store).LoadSession
func vc_storeSessionDamaged(rec string, dev uint32, junk []byte) {
	v.Requires(rec != "")
	dir := v.TempDir()
	s := zzNewStore(dir, true)
	v.PutFile(zzSessionPath(dir, rec, dev), junk)
	n := len(junk) - 32
	v.Requires(n < 0 || !v.Eq(junk[n:], v.HMAC256(s.macKey, junk[:n])))
	_, err := s.LoadSession(rec, dev)
	v.Ensures("session: damaged record is an error", err != nil)
	v.Cover("damaged")
}
func gen_vc_storeSessionDamaged(r *rand.Rand) []interface{} {
	return []interface{}{zzRecID(r), uint32(r.Intn(3)), v.RandBytes(r)}
}

// Deleting all sessions of a recipient deletes exactly that recipient's sessions, and listing them
// lists exactly their devices.
//
//vc:prop C11 C19
//vc:target (*root.store).DeleteAllSessions (*root.store).GetSubDeviceSessions
//vc:bounded
func vc_storeDeleteAll(seed int) {
	r := rand.New(rand.NewSource(int64(seed)))
	dir := v.TempDir()
	s := zzNewStore(dir, r.Intn(2) == 0)
	type sess struct {
		rec string
		dev uint32
	}
	all := map[sess]bool{}
	victim := zzRecID(r)
	for i := r.Intn(12); i >= 0; i-- {
		x := sess{zzRecID(r), []uint32{0, 1, 2, 3, 11, 12, 4294967295, r.Uint32()}[r.Intn(8)]}
		if r.Intn(2) == 0 {
			x.rec = victim
		}
		v.Ensures("session: stored", s.StoreSession(x.rec, x.dev, axolotl.NewSessionRecord()) == nil)
		all[x] = true
	}
	n := 0
	for x := range all {
		if x.rec == victim {
			n++
		}
	}
	devs := s.GetSubDeviceSessions(victim)
	v.Ensures("sessions: as many devices as sessions", len(devs) == n)
	for _, d := range devs {
		v.Ensures("sessions: only the recipient's devices", all[sess{victim, d}])
	}
	if n > 0 {
		v.Cover("sessions to delete")
	}
	if r.Intn(2) == 0 {
		v.Ensures("prekey stored", s.StorePreKey(7, axolotl.NewPreKeyRecord(7, axolotl.NewECKeyPair())) == nil)
		v.Ensures("prekey kept apart", s.ContainsPreKey(7))
	}
	s.DeleteAllSessions(victim)
	for x := range all {
		v.Ensures("sessions: exactly the recipient's are deleted", s.ContainsSession(x.rec, x.dev) == (x.rec != victim))
	}
}

// When the file system fails part-way through writing a record, the old record survives.
//
//vc:prop C28
//vc:target (*root.store).StorePreKey (*root.store).StoreSignedPreKey (*root.store).SaveIdentity (*root.store).StoreSession (*root.store).SetIdentityKeyPair (*root.store).SetLocalRegistrationID
//vc:bounded
func vc_storeTorn(seed int) {
	r := rand.New(rand.NewSource(int64(seed)))
	dir := v.TempDir()
	s := zzNewStore(dir, r.Intn(2) == 0)
	k, k2 := zzKey32(r), zzKey32(r)
	id := zzRecID(r)
	write := []func(k [32]byte, n uint32) (string, error){
		func(k [32]byte, n uint32) (string, error) {
			return s.preKeysFilePath(7), s.StorePreKey(7, axolotl.NewPreKeyRecord(7, axolotl.MakeECKeyPair(k[:], k[:])))
		},
		func(k [32]byte, n uint32) (string, error) {
			return s.signedPreKeysFilePath(7), s.StoreSignedPreKey(7, axolotl.NewSignedPreKeyRecord(7, 5, axolotl.MakeECKeyPair(k[:], k[:]), k[:]))
		},
		func(k [32]byte, n uint32) (string, error) {
			return dir + "/identity/remote_" + zzEscape(id), s.SaveIdentity(id, axolotl.NewIdentityKey(k[:]))
		},
		func(k [32]byte, n uint32) (string, error) {
			b, err := proto.Marshal(&axpb.RecordStructure{CurrentSession: &axpb.SessionStructure{RootKey: k[:]}})
			v.Assume(err == nil)
			sr, err := axolotl.LoadSessionRecord(b)
			v.Assume(err == nil)
			return zzSessionPath(dir, id, 1), s.StoreSession(id, 1, sr)
		},
		func(k [32]byte, n uint32) (string, error) {
			return dir + "/identity/identity_key", s.SetIdentityKeyPair(axolotl.NewIdentityKeyPairFromKeys(k[:], k[:]))
		},
		func(k [32]byte, n uint32) (string, error) {
			s.SetLocalRegistrationID(n)
			return dir + "/identity/regid", nil
		},
	}[r.Intn(6)]
	path, err := write(k, 123456789)
	v.WatchFile(path)
	v.Ensures("store: stored", err == nil)
	old, was := v.File(path)
	v.Ensures("store: the record is there", was)
	limit := r.Intn(len(old))
	signal.Ignore(syscall.SIGXFSZ)
	var lim syscall.Rlimit
	v.Assume(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim) == nil)
	short := lim
	short.Cur = uint64(limit)
	v.Assume(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &short) == nil)
	_, err = write(k2, 987654321)
	v.Assume(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim) == nil)
	now, is := v.File(path)
	v.Ensures("store: a failed write leaves the old record", is && now == old)
	_, err = write(k2, 987654321)
	now, is = v.File(path)
	v.Ensures("store: a write replaces the record", err == nil && is && now != old)
	v.Ensures("store: the old or the new record at every moment", !v.Torn(path))
	v.Cover("write cut short")
}
