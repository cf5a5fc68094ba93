package textsecure

import (
	"math/rand"

	v "github.com/signal-golang/textsecure/zzspec"
)

// What the store writes is ciphertext and a MAC over all of it, and reads back as it was.
//
//vc:prop C10 C26
//vc:target (*root.store).encrypt (*root.store).decrypt
func vc_storeCrypt(aesKey, macKey, p []byte) {
	v.Requires(len(aesKey) == 16 && len(macKey) == 20 && v.Disjoint(p, aesKey) && v.Disjoint(p, macKey))
	s := &store{aesKey: aesKey, macKey: macKey}
	p0, k0, m0 := v.Clone(p), v.Clone(aesKey), v.Clone(macKey)
	e, err := s.encrypt(v.Clone(p))
	v.Ensures("store: encryption succeeds", err == nil)
	n := len(e) - 32
	v.Ensures("store: length", n >= 32 && n == 16+len(zzPad(p0)))
	v.Ensures("store: fresh IV", v.Eq(e[:16], v.Drawn(16)))
	v.Ensures("store: ciphertext", v.Eq(e[16:n], v.CBCEnc(k0, e[:16], zzPad(p0))))
	v.Ensures("store: MAC over IV and ciphertext", v.Eq(e[n:], v.HMAC256(m0, e[:n])))
	d, err := s.decrypt(e)
	v.Ensures("store: reads back what was written", err == nil && v.Eq(d, p0))
	v.Cover("written and read")
}

// Anything that is not so authenticated is an error, whatever its length.
//
//vc:prop C10
//vc:target (*root.store).decrypt
func vc_storeDecrypt(aesKey, macKey, c []byte) {
	v.Requires(len(aesKey) == 16 && len(macKey) == 20 && v.Disjoint(c, aesKey) && v.Disjoint(c, macKey))
	s := &store{aesKey: aesKey, macKey: macKey}
	c0, k0, m0 := v.Clone(c), v.Clone(aesKey), v.Clone(macKey)
	p, err := s.decrypt(c)
	n := len(c0) - 32
	ok := n >= 0 && v.Eq(c0[n:], v.HMAC256(m0, c0[:n]))
	v.Ensures("store: only authentic records", err != nil || ok)
	v.Ensures("store: no data with an error", err == nil || p == nil)
	if err == nil {
		v.Cover("authentic")
		d := v.CBCDec(k0, c0[:16], c0[16:n])
		k := int(d[len(d)-1])
		v.Ensures("store: data is the decrypted record", k <= 16 && v.Eq(p, d[:len(d)-k]))
	}
}

func zzN(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	v.Fill(r, b)
	return b
}
func gen_vc_storeCrypt(r *rand.Rand) []interface{} {
	return []interface{}{zzN(r, 16), zzN(r, 20), v.RandBytes(r)}
}
func gen_vc_storeDecrypt(r *rand.Rand) []interface{} {
	k, m := zzN(r, 16), zzN(r, 20)
	c := v.RandBytes(r)
	switch r.Intn(3) {
	case 0:
		c = v.Cat(c, v.HMAC256(m, c))
	case 1:
		c, _ = (&store{aesKey: k, macKey: m}).encrypt(c)
		if r.Intn(2) == 0 {
			c[r.Intn(len(c))] ^= 1
		}
	}
	return []interface{}{k, m, c}
}

// Writing a record replaces it in one step: whatever fails, the file holds the old record or the new one at every
// moment, and no other file changes.
//
//vc:prop C28 C10 C11
//vc:target (*root.store).writeFile (*root.store).encrypt
func vc_writeFile(aesKey, macKey, b []byte, id, other uint32, enc bool) {
	v.Requires(len(aesKey) == 16 && id != other)
	dir := v.TempDir()
	v.MkdirAll(dir + "/prekeys")
	s := &store{unencrypted: !enc, aesKey: aesKey, macKey: macKey, preKeysDir: dir + "/prekeys"}
	path, file := dir+"/prekeys/"+idToFilename(id), dir+"/prekeys/"+idToFilename(other)
	v.Requires(path != file)
	p0, k0, m0 := v.Clone(b), v.Clone(aesKey), v.Clone(macKey)
	v.PutFile(path, []byte("the old record"))
	v.PutFile(file, []byte("another record"))
	v.WatchFile(path)
	v.FSMayFail()
	err := s.writeFile(path, v.Clone(b))
	v.Ensures("write: the old or the new record at every moment", !v.Torn(path))
	now, is := v.File(path)
	v.Ensures("write: the record stays", is)
	if err != nil {
		v.Ensures("write: the old record after a failure", now == "the old record")
	} else if enc {
		v.Cover("encrypted")
		n := len(now) - 32
		v.Ensures("write: length", n == 16+len(zzPad(p0)))
		v.Ensures("write: the MAC over the rest", v.Eq([]byte(now)[n:], v.HMAC256(m0, []byte(now)[:n])))
		v.Ensures("write: the new record", v.Eq([]byte(now)[16:n], v.CBCEnc(k0, []byte(now)[:16], zzPad(p0))))
	} else {
		v.Cover("plain")
		v.Ensures("write: the new record as it is", now == string(p0))
	}
	x, has := v.File(file)
	v.Ensures("write: no other record touched", has && x == "another record")
}

func gen_vc_writeFile(r *rand.Rand) []interface{} {
	return []interface{}{zzRnd(r, 16), v.RandBytes(r), v.RandBytes(r), zzID(r), zzID(r), r.Intn(2) == 0}
}
