package axolotl

import (
	"math/rand"

	protobuf "github.com/signal-golang/textsecure/axolotl/protobuf"
	v "github.com/signal-golang/textsecure/zzspec"

	"github.com/golang/protobuf/proto"
)

// A ratchet key seen for the first time: one step for their chain, one with a new key pair of ours for
// our chain; the root key is that of the second step.
//vc:prop C01 C05 C06 C26
//vc:target axolotl.getOrCreateChainKey
//vc:uses vc_getReceiverChain
func vc_newReceiverChain(ss *sessionState, key *ECPublicKey) {
	v.Requires(ss != nil && key != nil && ss.SS != nil && len(ss.SS.ReceiverChains) <= 5)
	v.Requires(len(ss.SS.RootKey) == 32 && ss.SS.SenderChain != nil && zzChain(ss.SS.SenderChain) && len(ss.SS.SenderChain.SenderRatchetKeyPrivate) == 32)
	rc, _ := ss.getReceiverChain(key)
	v.Requires(rc == nil)
	root, priv, idx := v.Clone(ss.SS.RootKey), v.Clone(ss.SS.SenderChain.SenderRatchetKeyPrivate), ss.SS.SenderChain.ChainKey.Index
	n := len(ss.SS.ReceiverChains)
	if n == 5 {
		n = 4
	}
	drawn := v.DrawnTotal()
	ck, err := getOrCreateChainKey(ss, key)
	v.Ensures("new chain: made", err == nil && ck != nil)
	s := ss.SS
	k1 := v.HKDF256(v.X25519(priv, key.key[:]), root, []byte("WhisperRatchet"), 64)
	k2 := v.HKDF256(v.X25519(s.SenderChain.SenderRatchetKeyPrivate, key.key[:]), k1[:32], []byte("WhisperRatchet"), 64)
	v.Ensures("new chain: returned", v.Eq(ck.Key[:], k1[32:]))
	v.Ensures("new chain: at its start", ck.Index == 0)
	rcs := s.ReceiverChains
	v.Ensures("new chain: one more, five at most", len(rcs) == n+1)
	c := rcs[len(rcs)-1]
	v.Ensures("new chain: kept under their key", c != nil && v.Eq(c.SenderRatchetKey, key.key[:]))
	v.Ensures("new chain: kept", v.Eq(c.ChainKey.Key, k1[32:]))
	v.Ensures("new chain: kept at its start", c.ChainKey.Index == 0 && len(c.MessageKeys) == 0)
	v.Ensures("new chain: 32 fresh bytes", v.DrawnTotal() == drawn+32)
	v.Ensures("new chain: a fresh key pair of ours", v.Eq(s.SenderChain.SenderRatchetKey, v.X25519Base(s.SenderChain.SenderRatchetKeyPrivate)))
	v.Ensures("new chain: our chain is made with it", v.Eq(s.SenderChain.ChainKey.Key, k2[32:]))
	v.Ensures("new chain: our chain is at its start", s.SenderChain.ChainKey.Index == 0)
	v.Ensures("new chain: the root key after both steps", v.Eq(s.RootKey, k2[:32]))
	pc := idx
	if pc > 0 {
		pc--
	}
	v.Ensures("new chain: the counter of our last chain is kept", s.PreviousCounter == pc)
	v.Cover("new chain")
}
func gen_vc_newReceiverChain(r *rand.Rand) []interface{} {
	ss := zzGenState(r)
	ss.SS.SenderChain.ChainKey.Index = []uint32{0, 1, 2, 7, 1<<32 - 1}[r.Intn(5)]
	return []interface{}{ss, zzGenKey(r)}
}

// A ratchet key seen before: its chain as it is, and nothing changes.
//vc:prop C01 C05
//vc:target axolotl.getOrCreateChainKey
//vc:uses vc_getReceiverChain
func vc_knownReceiverChain(ss *sessionState, key *ECPublicKey) {
	v.Requires(ss != nil && key != nil && zzState(ss.SS) && len(ss.SS.ReceiverChains) <= 5)
	rc, i := ss.getReceiverChain(key)
	v.Requires(rc != nil)
	root, snd, n, pc := v.Clone(ss.SS.RootKey), ss.SS.SenderChain, len(ss.SS.ReceiverChains), ss.SS.PreviousCounter
	cck, sck := rc.ChainKey, snd.ChainKey
	kb, idx := v.Clone(cck.Key), cck.Index
	drawn := v.DrawnTotal()
	ck, err := getOrCreateChainKey(ss, key)
	v.Ensures("known chain: its key", err == nil && ck != nil && v.Eq(ck.Key[:], kb) && ck.Index == idx)
	s := ss.SS
	v.Ensures("known chain: nothing changes", v.DrawnTotal() == drawn && v.Eq(s.RootKey, root) && s.SenderChain == snd && snd.ChainKey == sck && len(s.ReceiverChains) == n && s.ReceiverChains[i] == rc && rc.ChainKey == cck && s.PreviousCounter == pc)
	v.Cover("known chain")
}
func gen_vc_knownReceiverChain(r *rand.Rand) []interface{} {
	ss, key, _ := zzGenChain(r)
	return []interface{}{ss, key}
}

func zzMessageKeys(chainKey []byte) []byte {
	return v.HKDF256(v.HMAC256(chainKey, []byte{1}), nil, []byte("WhisperMessageKeys"), 80)
}

// The next message of a known chain: accepted only if its MAC covers both identities and all of it under
// the key of its position.
//vc:prop C02 C03 C05
//vc:target (*axolotl.sessionState).decrypt
//vc:uses vc_getReceiverChain
//vc:time 300
func vc_stateDecryptNext(ss *sessionState, b []byte) {
	v.Requires(ss != nil && zzState(ss.SS) && len(ss.SS.ReceiverChains) <= 5)
	b0 := v.Clone(b)
	m, err := LoadWhisperMessage(b)
	v.Requires(err == nil)
	rc, i := ss.getReceiverChain(m.RatchetKey)
	v.Requires(rc != nil && rc.ChainKey.Index == m.Counter)
	k := zzMessageKeys(rc.ChainKey.Key)
	next := v.HMAC256(v.Clone(rc.ChainKey.Key), []byte{2})
	local, remote := v.Clone(ss.SS.LocalIdentityPublic), v.Clone(ss.SS.RemoteIdentityPublic)
	ver := ss.SS.SessionVersion
	nk, root := len(rc.MessageKeys), v.Clone(ss.SS.RootKey)
	snd := ss.SS.SenderChain
	cnt := m.Counter
	n := len(b0) - 8
	p, err := ss.decrypt(m)
	good := v.Eq(b0[n:], zzMac(remote, local, k[32:64], b0[:n]))
	v.Ensures("next message: nothing with an error", err == nil || p == nil)
	v.Ensures("next message: accepted only with the right MAC", err != nil || good)
	v.Ensures("next message: accepted only in version 3", err != nil || ver == 3)
	v.Ensures("next message: no ratchet step", v.Eq(ss.SS.RootKey, root) && ss.SS.SenderChain == snd)
	v.Ensures("next message: the chain stays", ss.SS.ReceiverChains[i] == rc)
	if err == nil {
		v.Cover("accepted")
		v.Ensures("next message: the chain moves by one", rc.ChainKey.Index == cnt+1)
		v.Ensures("next message: the chain key after it", v.Eq(rc.ChainKey.Key, next))
		v.Ensures("next message: no keys kept", len(rc.MessageKeys) == nk)
		v.Ensures("next message: acknowledges our prekey message", ss.SS.PendingPreKey == nil)
	} else {
		v.Cover("refused")
	}
}

// The next message is refused only for its MAC, its version or its padding; the plaintext is what it decrypts to.
//vc:prop C01 C02 C05 C14
//vc:target (*axolotl.sessionState).decrypt
//vc:bounded
func vc_stateDecryptRefusal(ss *sessionState, b []byte) {
	v.Requires(ss != nil && zzState(ss.SS) && len(ss.SS.ReceiverChains) <= 5)
	b0 := v.Clone(b)
	m, err := LoadWhisperMessage(b)
	v.Requires(err == nil)
	rc, _ := ss.getReceiverChain(m.RatchetKey)
	v.Requires(rc != nil && rc.ChainKey.Index == m.Counter)
	k := zzMessageKeys(rc.ChainKey.Key)
	n := len(b0) - 8
	good := v.Eq(b0[n:], zzMac(ss.SS.RemoteIdentityPublic, ss.SS.LocalIdentityPublic, k[32:64], b0[:n])) && ss.SS.SessionVersion == 3
	ct := v.Clone(m.Ciphertext)
	var d []byte
	if good && len(ct) >= 16 && len(ct)%16 == 0 {
		d = v.CBCDec(k[:32], k[64:80], ct)
		good = int(d[len(d)-1]) <= 16
	} else {
		good = false
	}
	p, err := ss.decrypt(m)
	v.Ensures("next message: the plaintext", err != nil || v.Eq(p, d[:len(d)-int(d[len(d)-1])]))
	v.Ensures("next message: refused only for a reason", (err == nil) == good)
	v.Cover("next message")
}
func gen_vc_stateDecryptRefusal(r *rand.Rand) []interface{} { return gen_vc_stateDecryptNext(r) }

// zzGenNext: a message that is next for one of the state's chains, and mostly as it should be.
func zzGenNext(r *rand.Rand, ss *sessionState, c *protobuf.SessionStructure_Chain) []byte {
	k := zzMessageKeys(c.ChainKey.Key)
	plain := v.RandBytes(r)
	ct := v.CBCEnc(k[:32], k[64:80], zzPad(plain))
	switch r.Intn(8) {
	case 0:
		ct = v.RandBytes(r)
	case 1:
		ct = v.CBCEnc(k[:32], k[64:80], v.Cat(plain, v.Repeat(17, 16-len(plain)%16)))
	}
	if ct == nil {
		ct = []byte{}
	}
	idx, pc := c.ChainKey.Index, uint32(3)
	b, _ := proto.Marshal(&protobuf.SignalMessage{RatchetKey: zzKey(c.SenderRatchetKey), Counter: &idx, PreviousCounter: &pc, Ciphertext: ct})
	b = v.Cat([]byte{0x33}, b)
	mac := v.Clone(zzMac(ss.SS.RemoteIdentityPublic, ss.SS.LocalIdentityPublic, k[32:64], b))
	switch r.Intn(6) {
	case 0:
		mac[r.Intn(8)] ^= 1 << uint(r.Intn(8))
	case 1:
		mac = v.Clone(zzMac(ss.SS.LocalIdentityPublic, ss.SS.RemoteIdentityPublic, k[32:64], b))
	}
	return v.Cat(b, mac)
}
func gen_vc_stateDecryptNext(r *rand.Rand) []interface{} {
	ss, _, c := zzGenChain(r)
	if c == nil {
		return []interface{}{ss, v.RandBytes(r)}
	}
	if r.Intn(9) == 0 {
		ss.SS.SessionVersion = uint32(r.Intn(5))
	}
	return []interface{}{ss, zzGenNext(r, ss, c)}
}
