package axolotl

import (
	protobuf "github.com/signal-golang/textsecure/axolotl/protobuf"
	v "github.com/signal-golang/textsecure/zzspec"
	"math/rand"
)

// zzState: the shape every session state the code itself builds has.
func zzState(s *protobuf.SessionStructure) bool {
	return s != nil && len(s.RootKey) == 32 && len(s.LocalIdentityPublic) == 32 && len(s.RemoteIdentityPublic) == 32 &&
		s.SenderChain != nil && zzChain(s.SenderChain) && len(s.SenderChain.SenderRatchetKeyPrivate) == 32 &&
		v.Forall(0, len(s.ReceiverChains), func(i int) bool { return zzChain(s.ReceiverChains[i]) })
}

func zzChain(c *protobuf.SessionStructure_Chain) bool {
	return c != nil && len(c.SenderRatchetKey) == 32 && c.ChainKey != nil && len(c.ChainKey.Key) == 32
}

//vc:prop C05 C04
//vc:target (*axolotl.sessionState).getReceiverChain
//vc:modular
func vc_getReceiverChain(ss *sessionState, key *ECPublicKey) {
	v.Requires(ss != nil && ss.SS != nil && key != nil)
	rc, i := ss.getReceiverChain(key)
	n := len(ss.SS.ReceiverChains)
	v.Requires(n < 1<<31)
	if rc == nil {
		v.Cover("no chain")
		v.Ensures("receiver chain: none has the key", v.Forall(0, n, func(j int) bool {
			return ss.SS.ReceiverChains[j] == nil || !v.Eq(ss.SS.ReceiverChains[j].SenderRatchetKey, key.key[:])
		}))
		return
	}
	v.Cover("chain found")
	v.Ensures("receiver chain: the one named", int(i) < n && ss.SS.ReceiverChains[i] == rc && v.Eq(rc.SenderRatchetKey, key.key[:]))
	v.Ensures("receiver chain: the first one", v.Forall(0, int(i), func(j int) bool {
		return ss.SS.ReceiverChains[j] == nil || !v.Eq(ss.SS.ReceiverChains[j].SenderRatchetKey, key.key[:])
	}))
}

//vc:prop C05 C04
//vc:target (*axolotl.sessionState).hasMessageKeys
//vc:uses vc_getReceiverChain
func vc_hasMessageKeys(ss *sessionState, key *ECPublicKey, counter uint32) {
	v.Requires(ss != nil && ss.SS != nil && key != nil)
	v.Requires(len(ss.SS.ReceiverChains) < 1<<31)
	has := ss.hasMessageKeys(key, counter)
	rc, _ := ss.getReceiverChain(key)
	if rc == nil {
		v.Ensures("stored keys: none without a chain", !has)
		return
	}
	if has {
		v.Cover("has")
	} else {
		v.Cover("has not")
	}
	v.Ensures("stored keys: found exactly when one has the position", has == v.Exists(0, len(rc.MessageKeys), func(j int) bool {
		return rc.MessageKeys[j].GetIndex() == counter
	}))
}

// The key at k is the first with the position; q is any position.
//vc:prop C04
//vc:target (*axolotl.sessionState).removeMessageKeys
//vc:uses vc_getReceiverChain
//vc:bounded
func vc_removeMessageKeys(ss *sessionState, key *ECPublicKey, counter uint32, k, q int) {
	v.Requires(ss != nil && ss.SS != nil && key != nil)
	v.Requires(len(ss.SS.ReceiverChains) < 1<<31)
	rc, _ := ss.getReceiverChain(key)
	v.Requires(rc != nil)
	n := len(rc.MessageKeys)
	v.Requires(k >= 0 && k < n && rc.MessageKeys[k] != nil && rc.MessageKeys[k].Index == counter)
	v.Requires(v.Forall(0, k, func(j int) bool { return rc.MessageKeys[j].GetIndex() != counter }))
	old := append([]*protobuf.SessionStructure_Chain_MessageKey(nil), rc.MessageKeys...)
	ck := rc.ChainKey
	mk := ss.removeMessageKeys(key, counter)
	v.Ensures("remove key: one fewer", len(rc.MessageKeys) == n-1)
	v.Ensures("remove key: the others keep their order", q < 0 || q >= n-1 || q < k && rc.MessageKeys[q] == old[q] || q >= k && rc.MessageKeys[q] == old[q+1])
	v.Ensures("remove key: the removed one is returned", mk != nil && mk.Index == counter && v.Eq(mk.CipherKey, old[k].CipherKey) && v.Eq(mk.MacKey, old[k].MacKey) && v.Eq(mk.Iv, old[k].Iv))
	v.Ensures("remove key: chain key untouched", rc.ChainKey == ck)
}

//vc:prop C04
//vc:target (*axolotl.sessionState).removeMessageKeys
//vc:uses vc_getReceiverChain
func vc_removeMessageKeysNone(ss *sessionState, key *ECPublicKey, counter uint32, q int) {
	v.Requires(ss != nil && ss.SS != nil && key != nil)
	v.Requires(len(ss.SS.ReceiverChains) < 1<<31)
	rc, _ := ss.getReceiverChain(key)
	v.Requires(rc != nil)
	n := len(rc.MessageKeys)
	v.Requires(v.Forall(0, n, func(j int) bool { return rc.MessageKeys[j].GetIndex() != counter }))
	old := append([]*protobuf.SessionStructure_Chain_MessageKey(nil), rc.MessageKeys...)
	mk := ss.removeMessageKeys(key, counter)
	v.Ensures("remove key: none to remove", mk == nil && len(rc.MessageKeys) == n)
	v.Ensures("remove key: nothing changes", q < 0 || q >= n || rc.MessageKeys[q] == old[q])
}

// A message behind the chain: its stored key is used up.
//vc:prop C04 C05
//vc:target axolotl.getOrCreateMessageKeys
//vc:uses vc_getReceiverChain
//vc:bounded
func vc_messageKeysBehind(ss *sessionState, key *ECPublicKey, ck *chainKey, counter uint32, k int) {
	v.Requires(ss != nil && ss.SS != nil && key != nil && ck != nil && ck.Index > counter)
	v.Requires(len(ss.SS.ReceiverChains) < 1<<31)
	rc, _ := ss.getReceiverChain(key)
	v.Requires(rc != nil)
	n := len(rc.MessageKeys)
	v.Requires(k >= 0 && k < n && rc.MessageKeys[k] != nil && rc.MessageKeys[k].Index == counter)
	v.Requires(v.Forall(0, k, func(j int) bool { return rc.MessageKeys[j].GetIndex() != counter }))
	ckey := rc.ChainKey
	mk, err := getOrCreateMessageKeys(ss, key, ck, counter)
	v.Ensures("behind: chain key untouched", rc.ChainKey == ckey)
	v.Ensures("behind: a kept key is used and used up", err == nil && mk != nil && mk.Index == counter && len(rc.MessageKeys) == n-1)
}

// A message behind the chain without a stored key is a duplicate.
//vc:prop C04 C05
//vc:target axolotl.getOrCreateMessageKeys
//vc:uses vc_getReceiverChain
func vc_messageKeysDuplicate(ss *sessionState, key *ECPublicKey, ck *chainKey, counter uint32) {
	v.Requires(ss != nil && ss.SS != nil && key != nil && ck != nil && ck.Index > counter)
	v.Requires(len(ss.SS.ReceiverChains) < 1<<31)
	rc, _ := ss.getReceiverChain(key)
	v.Requires(rc != nil)
	n := len(rc.MessageKeys)
	v.Requires(v.Forall(0, n, func(j int) bool { return rc.MessageKeys[j].GetIndex() != counter }))
	ckey := rc.ChainKey
	mk, err := getOrCreateMessageKeys(ss, key, ck, counter)
	_, dup := err.(DuplicateMessageError)
	v.Ensures("behind: without a kept key it is a duplicate", mk == nil && err != nil && dup)
	v.Ensures("behind: nothing changes", rc.ChainKey == ckey && len(rc.MessageKeys) == n)
}

func inv_getOrCreateMessageKeys_0(ss *sessionState, theirEphemeral *ECPublicKey, chainKey *chainKey, counter uint32, w_ri uint32, w_rc *protobuf.SessionStructure_Chain, w_key0 []byte, w_idx0 uint32,
	w_n0 int, w_old []*protobuf.SessionStructure_Chain_MessageKey, w_p, w_q int) bool {
	i := int(chainKey.Index) - int(w_idx0)
	return int(w_ri) < len(ss.SS.ReceiverChains) && ss.SS.ReceiverChains[w_ri] == w_rc && v.Eq(w_rc.SenderRatchetKey, theirEphemeral.key[:]) &&
		i >= 0 && chainKey.Index <= counter && v.Eq(chainKey.Key[:], v.ChainIter(w_key0, i)) &&
		len(w_rc.MessageKeys) == w_n0+i &&
		(w_q < 0 || w_q >= w_n0 || w_rc.MessageKeys[w_q] == w_old[w_q]) &&
		(w_p < 0 || w_p >= i || int(w_rc.MessageKeys[w_n0+w_p].GetIndex()) == int(w_idx0)+w_p)
}

// A message ahead of the chain: the keys of the skipped positions (and only those) are kept and the
// chain moves to just past the message; too far ahead changes nothing.
// (p and q are any two positions: what is proved of them holds of all.)
//vc:prop C05
//vc:time 400
//vc:target axolotl.getOrCreateMessageKeys
//vc:uses vc_getReceiverChain
func vc_messageKeysAhead(ss *sessionState, key *ECPublicKey, key0 []byte, idx0 uint32, counter uint32, p, q int) {
	v.Requires(ss != nil && ss.SS != nil && key != nil && len(key0) == 32)
	v.Requires(len(ss.SS.ReceiverChains) < 1<<31)
	rc, ri := ss.getReceiverChain(key)
	v.Requires(rc != nil && counter >= idx0 && counter < 0xFFFFFFFF)
	rc.ChainKey = &protobuf.SessionStructure_Chain_ChainKey{Key: key0, Index: idx0}
	ck := newChainKey(key0, idx0)
	n0, nc := len(rc.MessageKeys), len(ss.SS.ReceiverChains)
	old := append([]*protobuf.SessionStructure_Chain_MessageKey(nil), rc.MessageKeys...)
	rk := v.Clone(rc.SenderRatchetKey)
	mk, err := getOrCreateMessageKeys(ss, key, ck, counter)
	d := int(counter) - int(idx0)
	v.Ensures("skip: fails exactly when more than 2000 ahead", (err != nil) == (d > 2000))
	v.Ensures("skip: no other chain is touched", len(ss.SS.ReceiverChains) == nc && ss.SS.ReceiverChains[ri] == rc && v.Eq(rc.SenderRatchetKey, rk))
	if err != nil {
		v.Cover("too far")
		v.Ensures("skip: too far ahead derives nothing", mk == nil && len(rc.MessageKeys) == n0 && v.Eq(rc.ChainKey.Key, key0) && rc.ChainKey.Index == idx0)
		return
	}
	if d > 0 {
		v.Cover("some skipped")
	} else {
		v.Cover("none skipped")
	}
	okm := v.HKDF256(v.HMAC256(v.ChainIter(key0, d), []byte{1}), nil, []byte("WhisperMessageKeys"), 80)
	v.Ensures("skip: the keys of the message's position are returned", mk != nil && mk.Index == counter && v.Eq(mk.CipherKey, okm[:32]) && v.Eq(mk.MacKey, okm[32:64]) && v.Eq(mk.Iv, okm[64:80]))
	v.Ensures("skip: chain moved to just past the message", rc.ChainKey.Index == counter+1 && v.Eq(rc.ChainKey.Key, v.ChainIter(key0, d+1)))
	v.Ensures("skip: as many keys kept as positions skipped", len(rc.MessageKeys) == n0+d)
	v.Ensures("skip: earlier kept keys stay", q < 0 || q >= n0 || rc.MessageKeys[q] == old[q])
	v.Ensures("skip: every skipped position has a kept key", p < 0 || p >= d || int(rc.MessageKeys[n0+p].GetIndex()) == int(idx0)+p)
}

//vc:prop C05
//vc:target (*axolotl.sessionState).setMessageKeys
//vc:uses vc_getReceiverChain
// A kept key is appended whole; nothing else in the chain changes. (q is any position.)
func vc_setMessageKeys(ss *sessionState, key *ECPublicKey, mk *messageKeys, q int) {
	v.Requires(ss != nil && ss.SS != nil && key != nil && mk != nil)
	v.Requires(len(ss.SS.ReceiverChains) < 1<<31)
	rc, _ := ss.getReceiverChain(key)
	v.Requires(rc != nil)
	n := len(rc.MessageKeys)
	old := append([]*protobuf.SessionStructure_Chain_MessageKey(nil), rc.MessageKeys...)
	ck := rc.ChainKey
	ss.setMessageKeys(key, mk)
	v.Ensures("keep key: one more", len(rc.MessageKeys) == n+1)
	v.Ensures("keep key: the others stay", q < 0 || q >= n || rc.MessageKeys[q] == old[q])
	k := rc.MessageKeys[n]
	v.Ensures("keep key: exactly the given key", k != nil && k.Index == mk.Index && v.Eq(k.CipherKey, mk.CipherKey) && v.Eq(k.MacKey, mk.MacKey) && v.Eq(k.Iv, mk.Iv))
	v.Ensures("keep key: chain key untouched", rc.ChainKey == ck)
}

// Adding a receiving chain appends it and drops the oldest beyond five. (q is any position.)
//vc:prop C05
//vc:target (*axolotl.sessionState).addReceiverChain
func vc_addReceiverChain(ss *sessionState, key *ECPublicKey, ck *chainKey, q int) {
	v.Requires(ss != nil && ss.SS != nil && key != nil && ck != nil)
	v.Requires(len(ss.SS.ReceiverChains) <= 5)
	n := len(ss.SS.ReceiverChains)
	old := append([]*protobuf.SessionStructure_Chain(nil), ss.SS.ReceiverChains...)
	ss.addReceiverChain(key, ck)
	rcs := ss.SS.ReceiverChains
	d := 0
	if n == 5 {
		d = 1
		v.Cover("oldest dropped")
	} else {
		v.Cover("room left")
	}
	v.Ensures("add chain: at most five kept", len(rcs) == n+1-d)
	v.Ensures("add chain: the others stay, oldest dropped first", q < 0 || q >= n-d || rcs[q] == old[q+d])
	c := rcs[len(rcs)-1]
	v.Ensures("add chain: the new one is last, with the given keys and no stored ones", c != nil && v.Eq(c.SenderRatchetKey, key.key[:]) && c.ChainKey != nil && c.ChainKey.Index == ck.Index && v.Eq(c.ChainKey.Key, ck.Key[:]) && len(c.MessageKeys) == 0)
}

// Promoting a state archives the current one first and drops the oldest beyond forty.
//vc:prop C05 C03
//vc:target (*axolotl.SessionRecord).promoteState
func vc_promoteState(sr *SessionRecord, s *sessionState, q int) {
	v.Requires(sr != nil && s != nil && len(sr.PreviousStates) <= 40)
	n := len(sr.PreviousStates)
	cur := sr.sessionState
	old := append([]*sessionState(nil), sr.PreviousStates...)
	sr.promoteState(s)
	v.Ensures("promote: becomes current", sr.sessionState == s)
	v.Ensures("promote: the current one is archived first", len(sr.PreviousStates) > 0 && sr.PreviousStates[0] == cur)
	v.Ensures("promote: at most forty kept", len(sr.PreviousStates) == n+1 || n == 40 && len(sr.PreviousStates) == 40)
	v.Ensures("promote: the others follow, oldest dropped", q < 0 || q >= n || q == 39 || sr.PreviousStates[q+1] == old[q])
}

// zzSameKey: two serialized keys are equal or lead to the same agreements.
func zzSameKey(a, b []byte) bool { return v.Eq(v.KeyClass(a), v.KeyClass(b)) }

// Public keys are told apart by the agreements they lead to.
//
//vc:prop C04 C08
//vc:target axolotl.equivalentPublicKeys
//vc:modular
func vc_equivalentKeys(a, b []byte) {
	if len(a) == 33 && len(b) == 33 { // the definition of the class of a key
		v.Assume(zzSameKey(a, b) == v.Eq(v.X25519(make([]byte, 32), a[1:]), v.X25519(make([]byte, 32), b[1:])))
	} else {
		v.Assume(zzSameKey(a, b) == v.Eq(a, b))
	}
	same := equivalentPublicKeys(a, b)
	v.Ensures("equivalent keys: exactly those with the same agreements", same == zzSameKey(a, b))
}

// A known session is recognised in the current and in any archived state.
//vc:prop C04 C08
//vc:target (*axolotl.SessionRecord).hasSessionState
//vc:uses vc_equivalentKeys
//vc:modular
func vc_hasSessionState(sr *SessionRecord, version uint32, key []byte) {
	v.Requires(sr != nil && sr.sessionState != nil && sr.sessionState.SS != nil)
	v.Requires(v.Forall(0, len(sr.PreviousStates), func(i int) bool { return sr.PreviousStates[i] != nil && sr.PreviousStates[i].SS != nil }))
	has := sr.hasSessionState(version, key)
	is := func(s *sessionState) bool { return s.getSessionVersion() == version && zzSameKey(key, s.SS.AliceBaseKey) }
	v.Ensures("known session: found exactly if a state has its base key, however encoded, and version", has == (is(sr.sessionState) || v.Exists(0, len(sr.PreviousStates), func(i int) bool { return is(sr.PreviousStates[i]) })))
}

func inv_SessionRecord_hasSessionState_0(record *SessionRecord, version uint32, key []byte, rangeindex int) bool {
	return v.Forall(0, rangeindex+1, func(i int) bool {
		s := record.PreviousStates[i]
		return !(s.getSessionVersion() == version && zzSameKey(key, s.SS.AliceBaseKey))
	})
}

// ---- inputs for execution ----

func zzR32(r *rand.Rand) []byte { b := make([]byte, 32); v.Fill(r, b); return b }

func zzGenKey(r *rand.Rand) *ECPublicKey { return NewECPublicKey(zzR32(r)) }

// zzGenState: a state with up to five receiving chains, each with some kept keys.
func zzGenState(r *rand.Rand) *sessionState {
	s := &protobuf.SessionStructure{SessionVersion: 3, RootKey: zzR32(r), LocalIdentityPublic: zzR32(r), RemoteIdentityPublic: zzR32(r), AliceBaseKey: append([]byte{5}, zzR32(r)...)}
	s.SenderChain = &protobuf.SessionStructure_Chain{SenderRatchetKey: zzR32(r), SenderRatchetKeyPrivate: zzR32(r), ChainKey: &protobuf.SessionStructure_Chain_ChainKey{Index: uint32(r.Intn(50)), Key: zzR32(r)}}
	for i := r.Intn(6); i > 0; i-- {
		c := &protobuf.SessionStructure_Chain{SenderRatchetKey: zzR32(r), ChainKey: &protobuf.SessionStructure_Chain_ChainKey{Index: uint32(r.Intn(50)), Key: zzR32(r)}}
		for k := r.Intn(6); k > 0; k-- {
			c.MessageKeys = append(c.MessageKeys, &protobuf.SessionStructure_Chain_MessageKey{Index: uint32(r.Intn(20)), CipherKey: zzR32(r), MacKey: zzR32(r), Iv: zzR32(r)[:16]})
		}
		s.ReceiverChains = append(s.ReceiverChains, c)
	}
	if r.Intn(3) == 0 {
		s.PendingPreKey = &protobuf.SessionStructure_PendingPreKey{PreKeyId: uint32(r.Intn(3)), SignedPreKeyId: 4, BaseKey: append([]byte{5}, zzR32(r)...)}
	}
	return newSessionState(s)
}

// zzGenChain picks a chain of the state (mostly) and its key.
func zzGenChain(r *rand.Rand) (*sessionState, *ECPublicKey, *protobuf.SessionStructure_Chain) {
	ss := zzGenState(r)
	n := len(ss.SS.ReceiverChains)
	if n == 0 || r.Intn(8) == 0 {
		return ss, zzGenKey(r), nil
	}
	c := ss.SS.ReceiverChains[r.Intn(n)]
	return ss, NewECPublicKey(c.SenderRatchetKey), c
}

func zzGenFirst(r *rand.Rand) (*sessionState, *ECPublicKey, uint32, int, *chainKey) {
	ss, key, c := zzGenChain(r)
	k, counter := 0, uint32(r.Intn(20))
	if c != nil && len(c.MessageKeys) > 0 {
		counter = c.MessageKeys[r.Intn(len(c.MessageKeys))].Index
		for k = 0; c.MessageKeys[k].Index != counter; k++ {
		}
	}
	return ss, key, counter, k, newChainKey(zzR32(r), counter+uint32(r.Intn(5)))
}

func gen_vc_removeMessageKeys(r *rand.Rand) []interface{} {
	ss, key, counter, k, _ := zzGenFirst(r)
	return []interface{}{ss, key, counter, k, r.Intn(8)}
}
func gen_vc_removeMessageKeysNone(r *rand.Rand) []interface{} {
	ss, key, _ := zzGenChain(r)
	return []interface{}{ss, key, uint32(r.Intn(40)), r.Intn(8)}
}
func gen_vc_messageKeysBehind(r *rand.Rand) []interface{} {
	ss, key, counter, k, ck := zzGenFirst(r)
	return []interface{}{ss, key, ck, counter, k}
}
func gen_vc_messageKeysDuplicate(r *rand.Rand) []interface{} {
	ss, key, _ := zzGenChain(r)
	n := uint32(r.Intn(40))
	return []interface{}{ss, key, newChainKey(zzR32(r), n+1+uint32(r.Intn(4))), n}
}
func gen_vc_messageKeysAhead(r *rand.Rand) []interface{} {
	ss, key, _ := zzGenChain(r)
	i := []uint32{uint32(r.Intn(100)), 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<32 - 9000}[r.Intn(5)]
	d := []uint32{0, 1, 2, 5, 30, 1999, 2000, 2001, 5000, 1<<31 - 110, 1 << 31, 1<<32 - 110}[r.Intn(12)]
	if i+d < i || i+d == 1<<32-1 {
		d = 1
	}
	return []interface{}{ss, key, zzR32(r), i, i + d, r.Intn(10), r.Intn(10)}
}
func gen_vc_setMessageKeys(r *rand.Rand) []interface{} {
	ss, key, _ := zzGenChain(r)
	return []interface{}{ss, key, newMessageKeys(zzR32(r), zzR32(r), zzR32(r)[:16], uint32(r.Intn(40))), r.Intn(8)}
}
func gen_vc_getReceiverChain(r *rand.Rand) []interface{} {
	ss, key, _ := zzGenChain(r)
	return []interface{}{ss, key}
}
func gen_vc_hasMessageKeys(r *rand.Rand) []interface{} {
	ss, key, _ := zzGenChain(r)
	return []interface{}{ss, key, uint32(r.Intn(20))}
}
func gen_vc_addReceiverChain(r *rand.Rand) []interface{} {
	return []interface{}{zzGenState(r), zzGenKey(r), newChainKey(zzR32(r), uint32(r.Intn(9))), r.Intn(6)}
}
func zzGenRecord(r *rand.Rand) *SessionRecord {
	sr := &SessionRecord{sessionState: zzGenState(r)}
	n := r.Intn(4)
	if r.Intn(3) == 0 {
		n = 39 + r.Intn(2)
	}
	for ; n > 0; n-- {
		sr.PreviousStates = append(sr.PreviousStates, zzGenState(r))
	}
	return sr
}
func gen_vc_promoteState(r *rand.Rand) []interface{} {
	return []interface{}{zzGenRecord(r), zzGenState(r), r.Intn(41)}
}
func gen_vc_equivalentKeys(r *rand.Rand) []interface{} {
	a := append([]byte{5}, zzR32(r)...)
	b := v.Clone(a)
	switch r.Intn(5) {
	case 0:
		b[32] ^= 0x80
	case 1:
		b = append([]byte{5}, zzR32(r)...)
	case 2:
		b = b[:r.Intn(33)]
	case 3:
		a, b = v.RandBytes(r), v.RandBytes(r)
	}
	return []interface{}{a, b}
}
func gen_vc_hasSessionState(r *rand.Rand) []interface{} {
	sr := zzGenRecord(r)
	key := zzR32(r)
	if n := len(sr.PreviousStates); n > 0 && r.Intn(2) == 0 {
		key = sr.PreviousStates[r.Intn(n)].SS.AliceBaseKey
	} else if r.Intn(2) == 0 {
		key = sr.sessionState.SS.AliceBaseKey
	}
	return []interface{}{sr, uint32(2 + r.Intn(2)), key}
}
