package zzmodels

import (
	"crypto/cipher"
	"hash"
	"io"
)

// ---- hashes ----

const (
	algSHA256 = 1
	algSHA512 = 2
	algSHA1   = 3
	algMD5    = 4
)

type Hash struct {
	Alg int
	Buf string
}

func (h *Hash) size() int {
	switch h.Alg {
	case algSHA256:
		return 32
	case algSHA512:
		return 64
	case algSHA1:
		return 20
	}
	return 16
}
func (h *Hash) sum() string {
	switch h.Alg {
	case algSHA256:
		return UFBytes("sha256", 32, h.Buf)
	case algSHA512:
		return UFBytes("sha512", 64, h.Buf)
	case algSHA1:
		return UFBytes("sha1", 20, h.Buf)
	}
	return UFBytes("md5", 16, h.Buf)
}
func (h *Hash) Write(p []byte) (int, error) { h.Buf += string(p); return len(p), nil }
func (h *Hash) Sum(b []byte) []byte         { return append(b, h.sum()...) }
func (h *Hash) Reset()                      { h.Buf = "" }
func (h *Hash) Size() int                   { return h.size() }
func (h *Hash) BlockSize() int              { return 64 }

func crypto_sha256_New() hash.Hash { return &Hash{Alg: algSHA256} }
func crypto_sha512_New() hash.Hash { return &Hash{Alg: algSHA512} }
func crypto_sha1_New() hash.Hash   { return &Hash{Alg: algSHA1} }
func crypto_md5_New() hash.Hash    { return &Hash{Alg: algMD5} }

func crypto_sha256_Sum256(b []byte) [32]byte {
	var a [32]byte
	copy(a[:], UFBytes("sha256", 32, b))
	return a
}
func crypto_sha512_Sum512(b []byte) [64]byte {
	var a [64]byte
	copy(a[:], UFBytes("sha512", 64, b))
	return a
}
func crypto_md5_Sum(b []byte) [16]byte {
	var a [16]byte
	copy(a[:], UFBytes("md5", 16, b))
	return a
}

type HMAC struct {
	Alg int
	Key string
	Buf string
}

func (h *HMAC) Write(p []byte) (int, error) { h.Buf += string(p); return len(p), nil }
func (h *HMAC) Sum(b []byte) []byte {
	switch h.Alg {
	case algSHA256:
		return append(b, UFBytes("hmac256", 32, h.Key, h.Buf)...)
	case algSHA512:
		return append(b, UFBytes("hmac512", 64, h.Key, h.Buf)...)
	}
	return append(b, UFBytes("hmac1", 20, h.Key, h.Buf)...)
}
func (h *HMAC) Reset()         { h.Buf = "" }
func (h *HMAC) Size() int      { return 32 }
func (h *HMAC) BlockSize() int { return 64 }

func crypto_hmac_New(f func() hash.Hash, key []byte) hash.Hash {
	return &HMAC{Alg: f().(*Hash).Alg, Key: string(key)}
}

// ---- HKDF ----

type HKDF struct {
	Alg                int
	Secret, Salt, Info string
	Pos                int
}

func (h *HKDF) stream() string {
	if h.Alg == algSHA256 {
		return UFBytes("hkdf256", 8160, h.Secret, h.Salt, h.Info)
	}
	return UFBytes("hkdf512", 16320, h.Secret, h.Salt, h.Info)
}
func (h *HKDF) Read(p []byte) (int, error) {
	s := h.stream()
	if h.Pos+len(p) > len(s) {
		return 0, &Err{}
	}
	copy(p, s[h.Pos:h.Pos+len(p)])
	h.Pos += len(p)
	return len(p), nil
}

func golang_org_x_crypto_hkdf_New(f func() hash.Hash, secret, salt, info []byte) io.Reader {
	s := string(salt)
	if salt == nil {
		s = Repeat(0, 32)
	}
	return &HKDF{Alg: f().(*Hash).Alg, Secret: string(secret), Salt: s, Info: string(info)}
}

// ---- AES ----

type AES struct{ Key string }

func (a *AES) BlockSize() int { return 16 }
func (a *AES) Encrypt(dst, src []byte) {
	copy(dst[:16], UFBytes("aesenc", 16, a.Key, src[:16]))
}
func (a *AES) Decrypt(dst, src []byte) {
	copy(dst[:16], UFBytes("aesdec", 16, a.Key, src[:16]))
}

func crypto_aes_NewCipher(key []byte) (cipher.Block, error) {
	if len(key) != 16 && len(key) != 24 && len(key) != 32 {
		return nil, &Err{}
	}
	return &AES{Key: string(key)}, nil
}

type CBC struct {
	Enc     bool
	Key, IV string
	Used    bool
}

func (c *CBC) BlockSize() int { return 16 }
func (c *CBC) CryptBlocks(dst, src []byte) {
	PanicIf("crypto/cipher: input not full blocks", len(src)%16 != 0)
	PanicIf("crypto/cipher: output smaller than input", len(dst) < len(src))
	PanicIf("model: CBC object used twice", c.Used)
	c.Used = true
	if c.Enc {
		copy(dst, UFBytes("cbcenc", len(src), c.Key, c.IV, src))
	} else {
		s := string(src)
		p := UFBytes("cbcdec", len(s), c.Key, c.IV, s)
		if len(s) >= 16 {
			// chaining: later blocks depend on the preceding ciphertext block only
			Assume(p == UFBytes("cbcdec", 16, c.Key, c.IV, s[:16])+UFBytes("cbcdec", len(s)-16, c.Key, s[:16], s[16:]))
		}
		copy(dst, p)
	}
}
func crypto_cipher_NewCBCEncrypter(b cipher.Block, iv []byte) cipher.BlockMode {
	PanicIf("cipher.NewCBCEncrypter: IV length must equal block size", len(iv) != 16)
	return &CBC{Enc: true, Key: b.(*AES).Key, IV: string(iv)}
}
func crypto_cipher_NewCBCDecrypter(b cipher.Block, iv []byte) cipher.BlockMode {
	PanicIf("cipher.NewCBCDecrypter: IV length must equal block size", len(iv) != 16)
	return &CBC{Key: b.(*AES).Key, IV: string(iv)}
}

type GCM struct {
	Key          string
	NSize, TSize int
}

func (g *GCM) NonceSize() int { return g.NSize }
func (g *GCM) Overhead() int  { return g.TSize }
func (g *GCM) Seal(dst, nonce, p, aad []byte) []byte {
	PanicIf("crypto/cipher: incorrect nonce length given to GCM", len(nonce) != g.NSize)
	c := UFBytes("gcmseal", len(p)+g.TSize, g.Key, nonce, p, aad)
	Assume(UFBool("gcmok", g.Key, nonce, c, aad))
	Assume(UFBytes("gcmopen", len(p), g.Key, nonce, c, aad) == string(p))
	return append(dst, c...)
}
func (g *GCM) Open(dst, nonce, c, aad []byte) ([]byte, error) {
	PanicIf("crypto/cipher: incorrect nonce length given to GCM", len(nonce) != g.NSize)
	if len(c) < g.TSize {
		return nil, &Err{}
	}
	if !UFBool("gcmok", g.Key, nonce, c, aad) {
		return nil, &Err{}
	}
	p := UFBytes("gcmopen", len(c)-g.TSize, g.Key, nonce, c, aad)
	Assume(UFBytes("gcmseal", len(c), g.Key, nonce, p, aad) == string(c))
	return append(dst, p...), nil
}
func crypto_cipher_NewGCM(b cipher.Block) (cipher.AEAD, error) {
	return &GCM{Key: b.(*AES).Key, NSize: 12, TSize: 16}, nil
}
func crypto_cipher_NewGCMWithNonceSize(b cipher.Block, size int) (cipher.AEAD, error) {
	if size <= 0 {
		return nil, &Err{}
	}
	return &GCM{Key: b.(*AES).Key, NSize: size, TSize: 16}, nil
}
func crypto_cipher_NewGCMWithTagSize(b cipher.Block, size int) (cipher.AEAD, error) {
	if size < 12 || size > 16 {
		return nil, &Err{}
	}
	PanicIf("model: GCM tags of 16 bytes only", size != 16)
	return &GCM{Key: b.(*AES).Key, NSize: 12, TSize: 16}, nil
}

// ---- specification functions (package zzspec) ----

func zzspec_Eq(a, b []byte) bool             { return string(a) == string(b) }
func zzspec_HMAC256(key, data []byte) []byte { return []byte(UFBytes("hmac256", 32, key, data)) }
func zzspec_SHA256(data []byte) []byte       { return []byte(UFBytes("sha256", 32, data)) }
func zzspec_HKDF256(secret, salt, info []byte, n int) []byte {
	s := string(salt)
	if salt == nil {
		s = Repeat(0, 32)
	}
	return []byte(UFBytes("hkdf256", 8160, secret, s, info)[:n])
}
func zzspec_CBCEnc(key, iv, p []byte) []byte {
	return []byte(UFBytes("cbcenc", len(p), key, iv, p))
}
func zzspec_CBCDec(key, iv, c []byte) []byte {
	return []byte(UFBytes("cbcdec", len(c), key, iv, c))
}
func zzspec_GCMSeal(key, nonce, p, aad []byte) []byte {
	return []byte(UFBytes("gcmseal", len(p)+16, key, nonce, p, aad))
}
func zzspec_Repeat(b byte, n int) []byte { return []byte(Repeat(b, n)) }
func zzspec_Clone(a []byte) []byte {
	if a == nil {
		return nil
	}
	return []byte(string(a))
}

func zzspec_ChainIter(key []byte, n int) []byte {
	return []byte(UFBytes("ckiter", 32, key[:32], n))
}
