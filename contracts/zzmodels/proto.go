package zzmodels

// protobuf runtime: see govc/proto.go for what Marshal, Unmarshal and Clone are assumed to do.

func github_com_golang_protobuf_proto_Marshal(m interface{}) ([]byte, error) {
	if PBMayFail(m) && NondetBool() {
		return nil, &Err{}
	}
	return PBMarshal(m), nil
}

func github_com_golang_protobuf_proto_Unmarshal(b []byte, m interface{}) error {
	if !PBUnmarshal(b, m) {
		return &Err{}
	}
	return nil
}

func github_com_golang_protobuf_proto_Clone(m interface{}) interface{} { return PBClone(m) }

// Diffie-Hellman on Curve25519.
func golang_org_x_crypto_curve25519_ScalarMult(dst, in, base *[32]byte) {
	copy(dst[:], UFBytes("x25519", 32, in[:], base[:]))
}
func golang_org_x_crypto_curve25519_ScalarBaseMult(dst, in *[32]byte) {
	copy(dst[:], UFBytes("x25519base", 32, in[:]))
}
func zzspec_X25519(priv, pub []byte) []byte { return []byte(UFBytes("x25519", 32, priv, pub)) }
func zzspec_KeyClass(key []byte) []byte     { return []byte(UFBytes("keyclass", -1, key)) }
func zzspec_X25519Base(priv []byte) []byte  { return []byte(UFBytes("x25519base", 32, priv)) }
