package zzmodels

import "hash"

func golang_org_x_crypto_pbkdf2_Key(password, salt []byte, iter, keyLen int, h func() hash.Hash) []byte {
	return []byte(UFBytes("pbkdf2", keyLen, password, salt, iter, h().(*Hash).Alg))
}
func zzspec_PBKDF2SHA1(password, salt []byte, iter, n int) []byte {
	return []byte(UFBytes("pbkdf2", n, password, salt, iter, algSHA1))
}
