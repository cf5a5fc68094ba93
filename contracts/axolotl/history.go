package axolotl

// Bounded stand-ins: generated histories of two real parties, checked against a model of what each
// delivery must do. They decide nothing for all inputs; the contracts do where they reach.

import (
	"errors"
	"math/big"
	"math/rand"

	"github.com/golang/protobuf/proto"
	protobuf "github.com/signal-golang/textsecure/axolotl/protobuf"
	"github.com/signal-golang/textsecure/curve25519sign"
	v "github.com/signal-golang/textsecure/zzspec"
)

// zzParty is one client with stores that keep what is written as bytes.
type zzParty struct {
	name     string
	id       *IdentityKeyPair
	reg      uint32
	sess     map[string][]byte
	pre      map[uint32][]byte
	spre     map[uint32][]byte
	known    map[string][]byte
	locked   bool
	badLock  bool
	writes   int // sessions, prekeys, identities written or removed
	failNext int // n-th store operation from now fails (0: none)
	order    []string
}

var zzErr = errors.New("store failure")

func (p *zzParty) fail() bool {
	if p.failNext > 0 {
		p.failNext--
		return p.failNext == 0
	}
	return false
}
func (p *zzParty) GetIdentityKeyPair() (*IdentityKeyPair, error) {
	if p.fail() {
		return nil, zzErr
	}
	return p.id, nil
}
func (p *zzParty) GetLocalRegistrationID() (uint32, error) {
	if p.fail() {
		return 0, zzErr
	}
	return p.reg, nil
}
func (p *zzParty) SaveIdentity(id string, k *IdentityKey) error {
	if p.fail() {
		return zzErr
	}
	p.writes++
	p.order = append(p.order, "identity")
	p.known[id] = v.Clone(k.Key()[:])
	return nil
}
func (p *zzParty) IsTrustedIdentity(id string, k *IdentityKey) bool {
	o, ok := p.known[id]
	return !ok || v.Eq(o, k.Key()[:])
}
func (p *zzParty) LoadPreKey(id uint32) (*PreKeyRecord, error) {
	if p.fail() {
		return nil, zzErr
	}
	b, ok := p.pre[id]
	if !ok {
		return nil, errors.New("no prekey")
	}
	return LoadPreKeyRecord(b)
}
func (p *zzParty) StorePreKey(id uint32, r *PreKeyRecord) error {
	b, err := r.Serialize()
	p.pre[id] = b
	return err
}
func (p *zzParty) ContainsPreKey(id uint32) bool { _, ok := p.pre[id]; return ok }
func (p *zzParty) RemovePreKey(id uint32) {
	p.writes++
	p.order = append(p.order, "remove")
	delete(p.pre, id)
}
func (p *zzParty) LoadSignedPreKey(id uint32) (*SignedPreKeyRecord, error) {
	if p.fail() {
		return nil, zzErr
	}
	b, ok := p.spre[id]
	if !ok {
		return nil, errors.New("no signed prekey")
	}
	return LoadSignedPreKeyRecord(b)
}
func (p *zzParty) LoadSignedPreKeys() []SignedPreKeyRecord { return nil }
func (p *zzParty) StoreSignedPreKey(id uint32, r *SignedPreKeyRecord) error {
	b, err := r.Serialize()
	p.spre[id] = b
	return err
}
func (p *zzParty) ContainsSignedPreKey(id uint32) bool { _, ok := p.spre[id]; return ok }
func (p *zzParty) RemoveSignedPreKey(id uint32)        { p.writes++; delete(p.spre, id) }
func (p *zzParty) Lock() {
	if p.locked {
		p.badLock = true
	}
	p.locked = true
}
func (p *zzParty) Unlock() {
	if !p.locked {
		p.badLock = true
	}
	p.locked = false
}
func (p *zzParty) LoadSession(id string, dev uint32) (*SessionRecord, error) {
	if !p.locked {
		p.badLock = true
	}
	if p.fail() {
		return nil, zzErr
	}
	b, ok := p.sess[id]
	if !ok {
		return NewSessionRecord(), nil
	}
	return LoadSessionRecord(b)
}
func (p *zzParty) GetSubDeviceSessions(string) []uint32 { return nil }
func (p *zzParty) StoreSession(id string, dev uint32, r *SessionRecord) error {
	if !p.locked {
		p.badLock = true
	}
	if p.fail() {
		return zzErr
	}
	p.writes++
	p.order = append(p.order, "session")
	b, err := r.Serialize()
	if err != nil {
		return err
	}
	p.sess[id] = b
	return nil
}
func (p *zzParty) ContainsSession(id string, dev uint32) bool { _, ok := p.sess[id]; return ok }
func (p *zzParty) DeleteSession(id string, dev uint32)        { delete(p.sess, id) }
func (p *zzParty) DeleteAllSessions(id string)                { delete(p.sess, id) }

func zzCopyMap(m map[string][]byte) map[string][]byte {
	c := map[string][]byte{}
	for k, b := range m {
		c[k] = v.Clone(b)
	}
	return c
}

func zzNewParty(name string, r *rand.Rand) *zzParty {
	return &zzParty{name: name, id: GenerateIdentityKeyPair(), reg: uint32(r.Intn(0x3fff) + 1), sess: map[string][]byte{}, pre: map[uint32][]byte{}, spre: map[uint32][]byte{}, known: map[string][]byte{}}
}

// zzBundle makes and stores prekeys of p and returns the bundle the server would hand out.
func (p *zzParty) zzBundle(r *rand.Rand, pid, spid uint32) *PreKeyBundle {
	spk := NewECKeyPair()
	var rnd [64]byte
	v.Fill(r, rnd[:])
	sig := curve25519sign.Sign(p.id.PrivateKey.Key(), spk.PublicKey.Serialize(), rnd)
	p.StoreSignedPreKey(spid, NewSignedPreKeyRecord(spid, 1, spk, sig[:]))
	b := &PreKeyBundle{RegistrationID: p.reg, DeviceID: 1, SignedPreKeyID: int32(spid), SignedPreKeyPublic: &spk.PublicKey, SignedPreKeySignature: *sig, IdentityKey: &p.id.PublicKey}
	if pid != 0 {
		k := NewECKeyPair()
		p.StorePreKey(pid, NewPreKeyRecord(pid, k))
		b.PreKeyID, b.PreKeyPublic = pid, &k.PublicKey
	}
	return b
}

func (p *zzParty) zzCipher(peer string) *SessionCipher {
	return NewSessionCipher(p, p, p, p, peer, 1)
}

func (p *zzParty) zzBuild(peer string, b *PreKeyBundle) error {
	return NewSessionBuilder(p, p, p, p, peer, 1).BuildSenderSession(b)
}

type zzMsg struct {
	to, from *zzParty
	wire     []byte
	prekey   bool
	pkid     uint32
	plain    []byte
	done     bool
}

// zzDeliver hands wire to the receiver.
func (m *zzMsg) zzDeliver(wire []byte) ([]byte, error) {
	c := m.to.zzCipher(m.from.name)
	if m.prekey {
		p, err := LoadPreKeyWhisperMessage(wire)
		if err != nil {
			return nil, err
		}
		return c.SessionDecryptPreKeyWhisperMessage(p)
	}
	w, err := LoadWhisperMessage(wire)
	if err != nil {
		return nil, err
	}
	return c.SessionDecryptWhisperMessage(w)
}

func zzSameMap(a, b map[string][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		y, ok := b[k]
		if !ok || !v.Eq(x, y) {
			return false
		}
	}
	return true
}

func zzPreKeysLess(before, after map[uint32][]byte, gone uint32) bool {
	for k := range after {
		if _, ok := before[k]; !ok {
			return false
		}
	}
	for k := range before {
		_, ok := after[k]
		if ok == (k == gone) {
			return false
		}
	}
	return true
}

func zzMapU(m map[uint32][]byte) map[uint32][]byte {
	c := map[uint32][]byte{}
	for k, b := range m {
		c[k] = b
	}
	return c
}

func zzSend(from, to *zzParty, plain []byte) (*zzMsg, error) {
	before := zzCopyMap(from.sess)
	w0 := from.writes
	wire, typ, err := from.zzCipher(to.name).SessionEncryptMessage(v.Clone(plain))
	v.Ensures("lock held across load and store, and released", !from.badLock && !from.locked)
	if err != nil {
		v.Ensures("failed encryption: no message, nothing stored", wire == nil && zzSameMap(before, from.sess) && from.writes == w0)
		return nil, err
	}
	v.Ensures("encryption: session stored before the message is returned", from.writes == w0+1 && !zzSameMap(before, from.sess))
	m := &zzMsg{from: from, to: to, wire: wire, prekey: typ == 3, plain: plain}
	if m.prekey {
		p, e := LoadPreKeyWhisperMessage(wire)
		v.Ensures("encryption: prekey message parses", e == nil)
		m.pkid = p.PreKeyID
		v.Ensures("encryption: prekey message carries our identity and registration id", p.RegistrationID == from.reg && v.Eq(p.IdentityKey.Key()[:], from.id.PublicKey.Key()[:]))
	}
	return m, nil
}

func gen_vc_History(r *rand.Rand) []interface{} { return []interface{}{r.Int63()} }

// One session set up by a, messages both ways, delivered late, in any order, repeatedly, altered and
// with failing stores: every first delivery of an untouched message yields its plaintext, everything
// else an error and no change to anything stored.
//vc:prop C01 C02 C03 C04 C05 C06 C08 C27
//vc:target (*axolotl.SessionCipher).SessionEncryptMessage (*axolotl.SessionCipher).SessionDecryptWhisperMessage (*axolotl.SessionCipher).SessionDecryptPreKeyWhisperMessage (*axolotl.SessionCipher).decrypt (*axolotl.SessionBuilder).BuildSenderSession (*axolotl.SessionBuilder).BuildReceiverSession
//vc:bounded
func vc_History(seed int64) {
	r := rand.New(rand.NewSource(seed))
	a, b := zzNewParty("a", r), zzNewParty("b", r)
	pid := uint32(r.Intn(3))
	if pid == 2 {
		pid = 0xFFFFFF
	}
	b.StorePreKey(0, NewPreKeyRecord(0, NewECKeyPair()))
	b.StorePreKey(77, NewPreKeyRecord(77, NewECKeyPair()))
	spid := uint32(r.Intn(1000) + 1)
	bun := b.zzBundle(r, pid, spid)
	v.Ensures("session set-up with a valid bundle succeeds", a.zzBuild("b", bun) == nil)
	v.Ensures("set-up: lock held across load and store, and released", !a.badLock && !a.locked)
	v.Ensures("set-up: peer's identity recorded", v.Eq(a.known["b"], b.id.PublicKey.Key()[:]))
	var q []*zzMsg
	established := false // b has decrypted a prekey message
	steps := 20 + r.Intn(40)
	// ratchet epochs: how often the direction of the newest delivered message changed
	for i := 0; i < steps; i++ {
		if r.Intn(100) < 55 || len(q) == 0 {
			from, to := a, b
			if established && r.Intn(2) == 0 {
				from, to = b, a
			}
			n := r.Intn(4) + 1
			if r.Intn(30) == 0 {
				n = 200
			}
			for k := 0; k < n; k++ {
				plain := make([]byte, r.Intn(70))
				v.Fill(r, plain)
				if r.Intn(12) == 0 {
					from.failNext = r.Intn(4) + 1
					m, err := zzSend(from, to, plain)
					if from.failNext == 0 {
						v.Ensures("encryption fails when the store does", err != nil)
					}
					from.failNext = 0
					if err == nil {
						q = append(q, m)
					}
					continue
				}
				m, err := zzSend(from, to, plain)
				v.Ensures("encryption in an established session succeeds", err == nil)
				q = append(q, m)
			}
			continue
		}
		m := q[r.Intn(len(q))]
		if r.Intn(3) == 0 {
			m = q[len(q)-1]
		}
		if r.Intn(5) == 0 && !m.prekey && len(q) > 3 { // very late ones too
			m = q[r.Intn(3)]
		}
		to := m.to
		sess, pre, spre, known, w0 := zzCopyMap(to.sess), zzMapU(to.pre), zzMapU(to.spre), zzCopyMap(to.known), to.writes
		to.order = nil
		wire := v.Clone(m.wire)
		kind := r.Intn(10)
		switch {
		case kind == 0: // altered
			wire[r.Intn(len(wire))] ^= 1 << uint(r.Intn(8))
		case kind == 1:
			wire = wire[:r.Intn(len(wire))]
		case kind == 2:
			to.failNext = r.Intn(7) + 1
		case kind == 3 && m.prekey: // another encoding of the same base key
			wire = zzReencode(wire, r.Intn(2) == 0)
			v.Cover("base key written otherwise")
		}
		plain, err := m.zzDeliver(wire)
		v.Ensures("delivery: lock held across load and store, and released", !to.badLock && !to.locked)
		if err != nil {
			v.Ensures("failed delivery: no plaintext", plain == nil)
			v.Ensures("failed delivery: nothing stored or removed", zzSameMap(sess, to.sess) && zzPreKeysLess(pre, to.pre, 0xFFFFFFF0) && len(spre) == len(to.spre) && (zzSameMap(known, to.known) || kind == 2) && (to.writes == w0 || kind == 2))
			if kind > 3 || kind == 3 && !m.prekey {
				v.Ensures("first delivery of an untouched message succeeds", m.done || zzTooOld(q, m))
			}
			to.failNext = 0
			continue
		}
		v.Ensures("store failure makes the delivery fail", kind != 2 || to.failNext != 0)
		to.failNext = 0
		v.Ensures("repeated delivery is rejected", !m.done)
		// an altered byte may lie outside what the MAC covers only in the prekey wrapper
		v.Ensures("altered message is rejected", kind > 1 || m.prekey)
		v.Ensures("plaintext is what was sent", v.Eq(plain, m.plain))
		v.Ensures("accepted delivery: session stored", !zzSameMap(sess, to.sess))
		m.done = true
		if m.prekey && !established {
			established = true
			v.Ensures("prekey: exactly the one used is removed, never the last resort", zzPreKeysLess(pre, to.pre, zzGone(m.pkid)))
			v.Ensures("prekey: removed only after the session is stored", zzOrdered(to.order))
			v.Ensures("peer's identity recorded under the peer only", len(to.known) == 1 && v.Eq(to.known["a"], a.id.PublicKey.Key()[:]))
		} else {
			v.Ensures("prekey: an established session uses none up", zzPreKeysLess(pre, to.pre, 0xFFFFFFF0))
		}
		v.Ensures("signed prekeys are never removed", len(spre) == len(to.spre))
	}
}

// zzReencode writes the base key of a prekey message, which no MAC covers, as another key that leads to the
// same agreements: with the top bit, which X25519 ignores, or with the point of order two added to it.
func zzReencode(wire []byte, top bool) []byte {
	p := &protobuf.PreKeySignalMessage{}
	v.Assume(proto.Unmarshal(wire[1:], p) == nil)
	k := p.BaseKey[1:]
	if top {
		k[31] ^= 0x80
	} else {
		prime := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
		n := new(big.Int).ModInverse(new(big.Int).SetBytes(zzBackwards(k)), prime)
		copy(k, zzBackwards(append(make([]byte, 32), n.Bytes()...))[:32])
	}
	b, err := proto.Marshal(p)
	v.Assume(err == nil)
	return append([]byte{wire[0]}, b...)
}

func zzBackwards(b []byte) []byte {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return c
}

func zzGone(pkid uint32) uint32 {
	if pkid == 0 || pkid == 0xFFFFFF {
		return 0xFFFFFFF0
	}
	return pkid
}

func zzOrdered(o []string) bool {
	seen := false
	for _, s := range o {
		if s == "session" {
			seen = true
		}
		if s == "remove" && !seen {
			return false
		}
	}
	return seen
}

// zzTooOld: the message was sent under a ratchet key so long superseded that its receiving chain may
// have been dropped (more than five newer chains received).
func zzTooOld(q []*zzMsg, m *zzMsg) bool {
	key := func(x *zzMsg) string {
		w := x.wire
		if x.prekey {
			p, _ := LoadPreKeyWhisperMessage(w)
			return string(p.Message.RatchetKey.Key()[:])
		}
		l, _ := LoadWhisperMessage(w)
		return string(l.RatchetKey.Key()[:])
	}
	mine := key(m)
	newer := map[string]bool{}
	after := false
	for _, x := range q {
		if x.from != m.from {
			continue
		}
		k := key(x)
		if k == mine {
			after = true
			continue
		}
		if after && x.done {
			newer[k] = true
		}
	}
	return len(newer) >= 4
}
