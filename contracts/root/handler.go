package textsecure

import (
	"crypto/hmac"
	"crypto/sha256"
	"math/rand"
	"os"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/curve25519sign"
	"github.com/signal-golang/textsecure/groupsv2"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/transport"
	v "github.com/signal-golang/textsecure/zzspec"
)

// zzSeen is what the application was told.
type zzSeen struct {
	message, typing, receipt, call, delivered, read, sent int
	last                                                  *Message
	ts                                                    uint64
	from                                                  string
	dev                                                   uint32
}

func (s *zzSeen) total() int {
	return s.message + s.typing + s.receipt + s.call + s.delivered + s.read + s.sent
}

func zzClient(s *zzSeen) {
	client = &Client{
		MessageHandler:        func(m *Message) { s.message++; s.last = m },
		TypingMessageHandler:  func(m *Message) { s.typing++; s.last = m },
		ReceiptMessageHandler: func(m *Message) { s.receipt++; s.last = m },
		CallMessageHandler:    func(m *Message) { s.call++; s.last = m },
		ReceiptHandler:        func(u string, d uint32, ts uint64) { s.delivered++; s.from, s.dev, s.ts = u, d, ts },
		SyncReadHandler:       func(u string, ts uint64) { s.read++; s.from, s.ts = u, ts },
		SyncSentHandler:       func(m *Message, ts uint64) { s.sent++; s.last, s.ts = m, ts },
	}
}

// A synchronisation message that is not from our own account is refused before anything happens.
//
//vc:prop C20
//vc:target root.handleSyncMessage
func vc_syncForeign(src, srcUUID string, ts uint64, sm *signalservice.SyncMessage, uuid, tel string) {
	v.Requires(sm != nil)
	config.ConfigFile = &config.Config{UUID: uuid, Tel: tel}
	own := uuid
	if uuid == "" {
		own = tel
	}
	v.Requires(srcUUID != own || own == "")
	s := &zzSeen{}
	zzClient(s)
	err := handleSyncMessage(src, srcUUID, ts, sm)
	v.Ensures("sync: refused unless it is from ourselves", err != nil)
	v.Ensures("sync: what is refused reaches nobody", s.total() == 0)
}

// The same at the entry for all decrypted content, with everything a synchronisation message could ask for.
//
//vc:prop C20
//vc:target root.handleMessage root.handleSyncMessage
//vc:bounded
func vc_syncForeignContent(sm *signalservice.SyncMessage, which int) {
	zzSetup(false)
	self := "00000000-0000-4000-8000-000000000001"
	config.ConfigFile = &config.Config{UUID: self, Tel: "+4911", ProfileKey: v.Repeat(7, 32)}
	zzPeerState()
	s := &zzSeen{}
	zzClient(s)
	reqs := 0
	transport.ZZServe(func(q transport.ZZReq) transport.ZZResp { reqs++; return transport.ZZResp{Status: 404} })
	from := []string{"00000000-0000-4000-8000-000000000002", "", "00000000-0000-4000-8000-00000000000", "+4911", "00000000-0000-4000-8000-0000000000010"}[which%5]
	b, err := proto.Marshal(&signalservice.Content{SyncMessage: sm})
	v.Requires(err == nil)
	err = handleMessage(self, from, 5, b)
	v.Ensures("sync: refused unless it is from ourselves", err != nil)
	v.Ensures("sync: what is refused reaches nobody", s.total() == 0 && reqs == 0)
	v.Ensures("sync: what is refused ends no session", textSecureStore.ContainsSession("peer", 1) && textSecureStore.ContainsSession("other", 1))
}

func zzPeerState() {
	for _, id := range []string{"peer", "other", "00000000-0000-4000-8000-000000000002"} {
		zzPutSession(id, 1)
		zzPutSession(id, 2)
	}
}

func gen_vc_syncForeignContent(r *rand.Rand) []interface{} {
	return []interface{}{zzSync(r), r.Intn(5)}
}

func zzStr(s string) *string { return &s }
func zzU64(n uint64) *uint64 { return &n }
func zzU32(n uint32) *uint32 { return &n }

func zzSync(r *rand.Rand) *signalservice.SyncMessage {
	sm := &signalservice.SyncMessage{}
	for k := 0; k < 1+r.Intn(2); k++ {
		switch r.Intn(12) {
		case 0, 1, 2:
			sm.Sent = &signalservice.SyncMessage_Sent{DestinationUuid: zzStr("peer"), Timestamp: zzU64(3), Message: zzData(r)}
			if r.Intn(4) == 0 {
				sm.Sent.DestinationUuid = nil
				sm.Sent.DestinationE164 = zzStr("other")
			}
		case 3:
			t := signalservice.SyncMessage_Request_CONTACTS
			sm.Request = &signalservice.SyncMessage_Request{Type: &t}
		case 4:
			t := signalservice.SyncMessage_Request_GROUPS
			sm.Request = &signalservice.SyncMessage_Request{Type: &t}
		case 5, 6:
			sm.Read = []*signalservice.SyncMessage_Read{{SenderUuid: zzStr("peer"), Timestamp: zzU64(8)}}
			if r.Intn(2) == 0 {
				sm.Read = append(sm.Read, &signalservice.SyncMessage_Read{})
			}
		case 7:
			sm.Verified = &signalservice.Verified{DestinationUuid: zzStr("peer")}
		case 8:
			sm.Contacts = &signalservice.SyncMessage_Contacts{}
		case 9:
			sm.Blocked = &signalservice.SyncMessage_Blocked{}
		case 10:
			sm.Groups = &signalservice.SyncMessage_Groups{}
		}
	}
	return sm
}

// zzData is a data message without attachments or group changes.
func zzData(r *rand.Rand) *signalservice.DataMessage {
	dm := &signalservice.DataMessage{}
	if r.Intn(6) > 0 {
		dm.Timestamp = zzU64(uint64(r.Int63()))
	}
	if r.Intn(4) > 0 {
		dm.Body = zzStr(string(v.RandBytes(r)))
	}
	if r.Intn(3) == 0 {
		dm.ExpireTimer = zzU32(r.Uint32())
	}
	if r.Intn(3) == 0 {
		dm.ProfileKey = v.RandBytes(r)
	}
	if r.Intn(2) == 0 {
		dm.Flags = zzU32([]uint32{0, 1, 1, 2, 4, 4, 8}[r.Intn(7)])
	}
	if r.Intn(4) == 0 {
		dm.Reaction = &signalservice.DataMessage_Reaction{Emoji: zzStr("x"), TargetAuthorUuid: zzStr("peer")}
	}
	if r.Intn(4) == 0 {
		dm.Quote = &signalservice.DataMessage_Quote{Text: zzStr("q")}
	}
	if r.Intn(5) == 0 {
		dm.Sticker = &signalservice.DataMessage_Sticker{}
	}
	if r.Intn(5) == 0 {
		dm.Contact = []*signalservice.DataMessage_Contact{{}}
	}
	return dm
}

func zzPutSession(id string, dev uint32) {
	r, err := textSecureStore.LoadSession(id, dev)
	v.Assume(err == nil)
	v.Assume(textSecureStore.StoreSession(id, dev, r) == nil)
}

// Typing notices, calls and contents that mean nothing to us reach exactly their handler, with sender and
// time unaltered; bytes that are no content are an error; nothing crashes.
//
//vc:prop C19
//vc:target root.handleMessage root.handleTypingMessage root.handleCallMessage
func vc_smallContents(src, srcUUID string, ts uint64, b []byte) {
	c := &signalservice.Content{}
	e := proto.Unmarshal(b, c)
	v.Requires(e != nil || (c.GetDataMessage() == nil && c.GetSyncMessage() == nil))
	v.Requires(e != nil || c.GetCallMessage() != nil || c.GetReceiptMessage() == nil)
	config.ConfigFile = &config.Config{}
	s := &zzSeen{}
	zzClient(s)
	err := handleMessage(src, srcUUID, ts, b)
	if e != nil {
		v.Cover("no content")
		v.Ensures("content: unreadable bytes are an error", err != nil && s.total() == 0)
		return
	}
	v.Ensures("content: handled", err == nil)
	if c.GetCallMessage() != nil {
		v.Cover("call")
		v.Ensures("content: a call reaches its handler", s.call == 1 && s.total() == 1)
	} else if c.GetTypingMessage() != nil {
		v.Cover("typing")
		v.Ensures("content: a typing notice reaches its handler", s.typing == 1 && s.total() == 1)
	} else {
		v.Cover("nothing")
		v.Ensures("content: nothing reaches nobody", s.total() == 0)
		return
	}
	v.Ensures("content: sender and time", s.last != nil && s.last.Source() == src && s.last.SourceUUID() == srcUUID && s.last.ChatID() == srcUUID && s.last.Timestamp() == ts)
}

func gen_vc_smallContents(r *rand.Rand) []interface{} {
	c := &signalservice.Content{}
	switch r.Intn(5) {
	case 0:
		t := signalservice.TypingMessage_STARTED
		c.TypingMessage = &signalservice.TypingMessage{Timestamp: zzU64(9), Action: &t}
	case 1:
		c.CallMessage = &signalservice.CallMessage{}
		if r.Intn(2) == 0 {
			c.CallMessage.Offer = &signalservice.CallMessage_Offer{}
		}
		if r.Intn(2) == 0 {
			c.CallMessage.Hangup = &signalservice.CallMessage_Hangup{}
		}
	case 2:
		c.NullMessage = &signalservice.NullMessage{Padding: v.RandBytes(r)}
	}
	b, _ := proto.Marshal(c)
	if r.Intn(4) == 0 {
		b = v.RandBytes(r)
	}
	return []interface{}{string(v.RandBytes(r)), string(v.RandBytes(r)), r.Uint64(), b}
}

// A receipt is reported once for every message it names, in order, with its kind and its sender.
//
//vc:prop C19
//vc:target root.handleReceiptMessage
func vc_receipt(src, srcUUID string, ts uint64, rm *signalservice.ReceiptMessage, k int) {
	v.Requires(rm != nil && k >= 0)
	n, others := 0, &zzSeen{}
	var at uint64
	var from, fromUUID, kind string
	zzClient(others)
	client.ReceiptMessageHandler = func(m *Message) {
		if n == k {
			at, from, fromUUID, kind = m.Timestamp(), m.Source(), m.SourceUUID(), m.Message()
		}
		n++
	}
	err := handleReceiptMessage(src, srcUUID, ts, rm)
	v.Ensures("receipt: nobody else", others.total() == 0)
	if rm.Type == nil {
		v.Ensures("receipt: without a kind it is an error", err != nil && n == 0)
		return
	}
	v.Ensures("receipt: once for every message", err == nil && n == len(rm.GetTimestamp()))
	if k < n {
		v.Cover("reported")
		v.Ensures("receipt: of that message", at == rm.GetTimestamp()[k])
		v.Ensures("receipt: of its sender", from == src && fromUUID == srcUUID)
		v.Ensures("receipt: of its kind", kind == zzReceiptKind(rm))
	}
}

func zzReceiptKind(rm *signalservice.ReceiptMessage) string {
	if rm.GetType() == signalservice.ReceiptMessage_READ {
		return "readReceiptMessage"
	}
	if rm.GetType() == signalservice.ReceiptMessage_DELIVERY {
		return "deliveryReceiptMessage"
	}
	return "sentReceiptMessage"
}

func inv_handleReceiptMessage_0_vc_receipt(rangeindex int, w_rm *signalservice.ReceiptMessage, w_src, w_srcUUID string, w_n, w_k int, w_at uint64, w_from, w_fromUUID, w_kind string) bool {
	return w_n == rangeindex+1 && w_n <= len(w_rm.Timestamp) && (w_n <= w_k || (w_at == w_rm.Timestamp[w_k] && w_from == w_src && w_fromUUID == w_srcUUID && w_kind == zzReceiptKind(w_rm)))
}

func gen_vc_receipt(r *rand.Rand) []interface{} {
	rm := &signalservice.ReceiptMessage{}
	if r.Intn(5) > 0 {
		t := signalservice.ReceiptMessage_Type(r.Intn(4))
		rm.Type = &t
	}
	for r.Intn(3) > 0 {
		rm.Timestamp = append(rm.Timestamp, r.Uint64())
	}
	return []interface{}{"+49", string(v.RandBytes(r)), r.Uint64(), rm, r.Intn(3)}
}

// Read receipts of our other devices are all reported.
//
//vc:prop C19
//vc:target root.handleSyncRead
func vc_syncRead(rs []*signalservice.SyncMessage_Read, k int) {
	v.Requires(k >= 0 && v.Forall(0, len(rs), func(i int) bool { return rs[i] != nil }))
	n, others := 0, &zzSeen{}
	who, ts := "", uint64(0)
	zzClient(others)
	client.SyncReadHandler = func(u string, t uint64) {
		if n == k {
			who, ts = u, t
		}
		n++
	}
	err := handleSyncRead(rs)
	v.Ensures("read elsewhere: all reported", err == nil && n == len(rs) && others.total() == 0)
	if k < len(rs) {
		v.Ensures("read elsewhere: as stated", who == rs[k].GetSenderUuid() && ts == rs[k].GetTimestamp())
	}
}

func inv_handleSyncRead_0_vc_syncRead(rangeindex int, w_rs []*signalservice.SyncMessage_Read, w_n, w_k int, w_who string, w_ts uint64) bool {
	return w_n == rangeindex+1 && w_n <= len(w_rs) && (w_n <= w_k || (w_who == w_rs[w_k].GetSenderUuid() && w_ts == w_rs[w_k].GetTimestamp()))
}

func gen_vc_syncRead(r *rand.Rand) []interface{} {
	rs := []*signalservice.SyncMessage_Read{}
	for r.Intn(3) > 0 {
		rs = append(rs, &signalservice.SyncMessage_Read{SenderUuid: zzStr(string(v.RandBytes(r))), Timestamp: zzU64(r.Uint64())})
	}
	return []interface{}{rs, r.Intn(3)}
}

func zzPlain(dm *signalservice.DataMessage) bool {
	f := dm.GetFlags()
	return len(dm.GetAttachments()) == 0 && dm.GetGroupV2() == nil && f != uint32(signalservice.DataMessage_END_SESSION) && f != uint32(signalservice.DataMessage_PROFILE_KEY_UPDATE)
}

// A data message reaches the message handler, once, with everything it says unaltered.
//
//vc:prop C19
//vc:target root.handleDataMessage root.handleMessage
func vc_plainData(src, srcUUID string, ts uint64, dm *signalservice.DataMessage) {
	v.Requires(dm != nil && zzPlain(dm))
	s := &zzSeen{}
	zzClient(s)
	err := handleDataMessage(src, srcUUID, ts, dm)
	v.Ensures("data: reaches the message handler and nobody else", err == nil && s.message == 1 && s.total() == 1)
	m := s.last
	v.Ensures("data: sender", m.Source() == src && m.SourceUUID() == srcUUID && m.ChatID() == srcUUID)
	v.Ensures("data: time of the message", m.Timestamp() == dm.GetTimestamp())
	v.Ensures("data: body", m.Message() == dm.GetBody())
	v.Ensures("data: expiry", m.ExpireTimer() == dm.GetExpireTimer())
	v.Ensures("data: profile key", v.Eq(m.profileKey, dm.GetProfileKey()))
	v.Ensures("data: quote, sticker, reaction", m.Quote() == dm.GetQuote() && m.Sticker() == dm.GetSticker() && m.Reaction() == dm.GetReaction())
	v.Ensures("data: contacts", len(m.Contact()) == len(dm.GetContact()))
	v.Ensures("data: no flag, attachment or group", m.Flags() == 0 && len(m.Attachments()) == 0 && m.Group() == nil && m.GroupV2() == nil)
}

func gen_vc_plainData(r *rand.Rand) []interface{} {
	return []interface{}{string(v.RandBytes(r)), string(v.RandBytes(r)), r.Uint64(), zzData(r)}
}

// What our other device sent is reported with its destination and everything it says unaltered.
//
//vc:prop C19 C20
//vc:target root.handleSyncMessage root.handleSyncSent
func vc_plainSent(src, self string, ts uint64, sm *signalservice.SyncMessage) {
	v.Requires(self != "" && sm != nil && sm.GetSent() != nil)
	dm := sm.GetSent().GetMessage()
	v.Requires(dm == nil || zzPlain(dm))
	config.ConfigFile = &config.Config{UUID: self}
	s := &zzSeen{}
	zzClient(s)
	err := handleSyncMessage(src, self, ts, sm)
	if dm == nil {
		v.Ensures("sent elsewhere: nothing sent is an error", err != nil && s.total() == 0)
		return
	}
	v.Ensures("sent elsewhere: reaches its handler and nobody else", err == nil && s.sent == 1 && s.total() == 1)
	m := s.last
	v.Ensures("sent elsewhere: destination", m.Source() == sm.GetSent().GetDestinationE164() && m.SourceUUID() == sm.GetSent().GetDestinationUuid())
	v.Ensures("sent elsewhere: times", m.Timestamp() == dm.GetTimestamp() && s.ts == ts)
	v.Ensures("sent elsewhere: body", m.Message() == dm.GetBody())
	v.Ensures("sent elsewhere: expiry", m.ExpireTimer() == dm.GetExpireTimer())
	v.Ensures("sent elsewhere: profile key", v.Eq(m.profileKey, dm.GetProfileKey()))
	v.Ensures("sent elsewhere: quote, sticker, reaction", m.Quote() == dm.GetQuote() && m.Sticker() == dm.GetSticker() && m.Reaction() == dm.GetReaction())
	v.Ensures("sent elsewhere: no flag, attachment or group", m.Flags() == 0 && len(m.Attachments()) == 0 && m.Group() == nil && m.GroupV2() == nil)
}

func gen_vc_plainSent(r *rand.Rand) []interface{} {
	sm := zzSync(r)
	if sm.Sent == nil {
		sm.Sent = &signalservice.SyncMessage_Sent{DestinationUuid: zzStr("peer")}
	}
	return []interface{}{"", "me", r.Uint64(), sm}
}

// What arrives is taken as it is unless it authenticates under the signaling key, and then it is decrypted;
// nothing that arrives crashes the client.
//
//vc:prop C19
//vc:target root.decryptReceivedMessage
func vc_decryptReceived(msg, key []byte) {
	registration.Registration = registration.RegistrationInfo{SignalingKey: key}
	m0 := v.Clone(msg)
	if len(m0) <= 10 || len(key) < 32 || !axolotl.ValidTruncMAC(m0[:len(m0)-10], m0[len(m0)-10:], key[32:]) {
		v.Cover("plain")
		b, err := decryptReceivedMessage(msg)
		v.Ensures("received: taken as it is", err == nil && v.Eq(b, m0))
		return
	}
	v.Cover("signed")
	b, err := decryptReceivedMessage(msg)
	v.Ensures("received: decrypted or refused", err == nil || b == nil)
}

func gen_vc_decryptReceived(r *rand.Rand) []interface{} {
	key := v.RandBytes(r)
	if r.Intn(3) > 0 {
		key = make([]byte, 52)
		v.Fill(r, key)
	}
	msg := v.RandBytes(r)
	if len(key) == 52 && r.Intn(2) == 0 {
		c, _ := axolotl.Encrypt(key[:32], v.Repeat(9, 16), append([]byte{}, msg...))
		msg = append([]byte{1}, c...)
		if r.Intn(4) == 0 {
			msg = v.RandBytes(r)
		}
		h := hmac.New(sha256.New, key[32:])
		h.Write(msg)
		msg = append(msg, h.Sum(nil)[:10]...)
	}
	return []interface{}{msg, key}
}

// A message signed with the signaling key is what that key decrypts, or is refused.
//
//vc:prop C19
//vc:target root.decryptReceivedMessage
//vc:bounded
func vc_decryptReceivedSigned(msg, key []byte) {
	registration.Registration = registration.RegistrationInfo{SignalingKey: key}
	m0 := v.Clone(msg)
	v.Requires(len(m0) > 10 && len(key) >= 32 && axolotl.ValidTruncMAC(m0[:len(m0)-10], m0[len(m0)-10:], key[32:]))
	b, err := decryptReceivedMessage(msg)
	want, e := axolotl.Decrypt(key[:32], m0[1:len(m0)-10])
	v.Ensures("received: decrypted or refused", (err == nil) == (e == nil) && (err != nil || v.Eq(b, want)))
}

func gen_vc_decryptReceivedSigned(r *rand.Rand) []interface{} { return gen_vc_decryptReceived(r) }

// An end-session flag ends all sessions with the sender, those of nobody else, and is reported; a profile key
// update is kept for the sender alone.
//
//vc:prop C19
//vc:target root.handleFlags root.handleDataMessage
//vc:bounded
func vc_flags(who int, flags uint32, key []byte, body string) {
	dir := zzSetup(false)
	zzPeerState()
	contacts.Contacts = map[string]contacts.Contact{"peer": {UUID: "peer", Name: "Peer", ProfileKey: []byte("old")}, "other": {UUID: "other", Name: "Other", ProfileKey: []byte("old")}}
	_, err := contacts.ReadContacts(dir + "/contacts.yaml")
	v.Requires(err == nil)
	src := []string{"peer", "00000000-0000-4000-8000-000000000002", "pee", "stranger"}[who%4]
	s := &zzSeen{}
	zzClient(s)
	dm := &signalservice.DataMessage{Flags: &flags, ProfileKey: key, Body: &body, Timestamp: zzU64(3)}
	err = handleDataMessage(src, src, 4, dm)
	v.Ensures("flags: handled", err == nil && s.message == 1 && s.total() == 1)
	for _, id := range []string{"peer", "other", "00000000-0000-4000-8000-000000000002"} {
		ended := id == src && flags == uint32(signalservice.DataMessage_END_SESSION)
		for d := uint32(1); d <= 2; d++ {
			v.Ensures("end session: exactly the sender's sessions", textSecureStore.ContainsSession(id, d) == !ended)
		}
	}
	update := flags == uint32(signalservice.DataMessage_PROFILE_KEY_UPDATE)
	for _, id := range []string{"peer", "other"} {
		want := "old"
		if update && src == id {
			want = string(key)
		}
		v.Ensures("profile key: of the sender alone", string(contacts.Contacts[id].ProfileKey) == want)
	}
	if update {
		v.Ensures("profile key: kept", string(contacts.Contacts[src].ProfileKey) == string(key))
	}
	switch flags {
	case 1:
		v.Ensures("flags: end session reported", s.last.Flags() == EndSessionFlag)
	case uint32(signalservice.DataMessage_PROFILE_KEY_UPDATE):
		v.Ensures("flags: profile key update reported", s.last.Flags() == flags)
	default:
		v.Ensures("flags: nothing else reported", s.last.Flags() == 0)
	}
}

func gen_vc_flags(r *rand.Rand) []interface{} {
	return []interface{}{r.Intn(4), []uint32{0, 1, 1, 2, 4, 4, 8}[r.Intn(7)], v.RandBytes(r), string(v.RandBytes(r))}
}

// zzPeer is somebody who talks to us: a client state of its own, on its own directory.
type zzPeer struct {
	st  *store
	id  *axolotl.IdentityKeyPair
	own string
}

func zzNewPeer(name string) *zzPeer {
	p := &zzPeer{zzNewStore(v.TempDir(), false), axolotl.GenerateIdentityKeyPair(), name}
	p.st.SetIdentityKeyPair(p.id)
	p.st.SetLocalRegistrationID(88)
	return p
}

// greet gives p a session with us, from a bundle of ours.
func (p *zzPeer) greet(us string, pkid, spkid uint32) {
	pk, spk := axolotl.NewECKeyPair(), axolotl.NewECKeyPair()
	var r [64]byte
	sig := curve25519sign.Sign(identityKey.PrivateKey.Key(), spk.PublicKey.Serialize(), r)
	textSecureStore.StorePreKey(pkid, axolotl.NewPreKeyRecord(pkid, pk))
	textSecureStore.StoreSignedPreKey(spkid, axolotl.NewSignedPreKeyRecord(spkid, 1, spk, sig[:]))
	pb, err := axolotl.NewPreKeyBundle(77, 1, pkid, &pk.PublicKey, int32(spkid), &spk.PublicKey, sig[:], &identityKey.PublicKey)
	v.Assume(err == nil)
	v.Assume(axolotl.NewSessionBuilder(p.st, p.st, p.st, p.st, us, 1).BuildSenderSession(pb) == nil)
}

func (p *zzPeer) write(us string, c *signalservice.Content) *signalservice.Envelope {
	b, err := proto.Marshal(c)
	v.Assume(err == nil)
	m, typ, err := axolotl.NewSessionCipher(p.st, p.st, p.st, p.st, us, 1).SessionEncryptMessage(padMessage(b))
	v.Assume(err == nil)
	t := signalservice.Envelope_Type(typ)
	return &signalservice.Envelope{Type: &t, SourceUuid: &p.own, SourceDevice: zzU32(1), Content: m, ServerTimestamp: zzU64(99), Timestamp: zzU64(98)}
}

// From the server's bytes to the application: an authentic message reaches its handler once, with the sender of
// the session it decrypted under; a replayed, altered or misattributed one reaches nobody.
//
//vc:prop C19 C20
//vc:target root.handleReceivedMessage root.createEnvelope root.handleMessage root.handleDataMessage root.handleSyncMessage
//vc:bounded
func vc_received(bodies []string, what []int, own int) {
	zzSetup(false)
	us := "00000000-0000-4000-8000-000000000001"
	peer := zzNewPeer("00000000-0000-4000-8000-000000000002")
	if own == 1 {
		peer.own = us
	}
	config.ConfigFile = &config.Config{UUID: us}
	registration.Registration = registration.RegistrationInfo{}
	peer.greet(us, 5, 6)
	var old *signalservice.Envelope
	started := false
	for i := range what {
		s := &zzSeen{}
		zzClient(s)
		c := &signalservice.Content{}
		want, kind := 1, what[i]%10
		switch kind {
		case 7:
			c.SyncMessage = &signalservice.SyncMessage{Sent: &signalservice.SyncMessage_Sent{DestinationUuid: zzStr("x"), Message: &signalservice.DataMessage{Body: &bodies[i], Timestamp: zzU64(uint64(i))}}}
		case 8:
			t := signalservice.ReceiptMessage_READ
			c.ReceiptMessage = &signalservice.ReceiptMessage{Type: &t, Timestamp: []uint64{uint64(i)}}
		default:
			c.DataMessage = &signalservice.DataMessage{Body: &bodies[i], Timestamp: zzU64(uint64(i))}
		}
		env := peer.write(us, c)
		switch kind {
		case 3: // altered on the way
			env.Content = append([]byte{}, env.Content...)
			env.Content[len(env.Content)/2] ^= 1
			want = 0
		case 4: // said to come from another device
			env.SourceDevice = zzU32(2)
			if started {
				want = 0
			}
		case 5: // said to come from somebody else
			env.SourceUuid = zzStr("00000000-0000-4000-8000-000000000003")
			if started {
				want = 0
			}
		case 6: // again
			if old != nil {
				env, want = old, 0
			}
		}
		b, err := proto.Marshal(env)
		v.Assume(err == nil)
		e, err := createEnvelope(b)
		v.Ensures("received: envelope parsed", err == nil && e.GetSourceUuid() == env.GetSourceUuid())
		err = handleReceivedMessage(e)
		if want == 0 {
			v.Cover("refused")
			v.Ensures("received: a replayed, altered or misattributed message reaches nobody", s.total() == 0)
			continue
		}
		if kind == 7 && peer.own != us {
			started = true
			v.Cover("foreign sync")
			v.Ensures("received: a synchronisation message of somebody else is refused", err != nil && s.total() == 0)
			continue
		}
		if kind != 4 && kind != 5 {
			old, started = env, true
		} else { // the prekey message is taken for that sender's first one: its one-time key is used up
			old, started = nil, false
			peer = zzNewPeer(peer.own)
			config.ConfigFile = &config.Config{UUID: us}
			textSecureStore.DeleteIdentityZZ(peer.own)
			textSecureStore.DeleteIdentityZZ("00000000-0000-4000-8000-000000000003")
			peer.greet(us, uint32(100+i), uint32(200+i))
		}
		v.Cover("accepted")
		v.Ensures("received: handled once", err == nil && s.total() == 1)
		m := s.last
		switch kind {
		case 7:
			v.Ensures("received: synchronised", s.sent == 1 && m.Message() == bodies[i] && m.SourceUUID() == "x")
			continue
		case 8:
			v.Ensures("received: receipt", s.receipt == 1 && m.Timestamp() == uint64(i))
		default:
			v.Ensures("received: body and time unaltered", s.message == 1 && m.Message() == bodies[i] && m.Timestamp() == uint64(i))
		}
		v.Ensures("received: sender of the envelope", m.SourceUUID() == env.GetSourceUuid())
	}
}

func (s *store) DeleteIdentityZZ(id string) {
	os.Remove(s.identityDir + "/remote_" + id)
}

func gen_vc_received(r *rand.Rand) []interface{} {
	bodies, what := []string{}, []int{}
	for k := 0; k < 1+r.Intn(6); k++ {
		bodies, what = append(bodies, string(v.RandBytes(r))), append(what, r.Intn(10))
	}
	for i := range bodies {
		bodies[i] = strings.ToValidUTF8(bodies[i], "?")
	}
	return []interface{}{bodies, what, r.Intn(3)}
}

// Whatever envelope and whatever decrypted content: never a crash.
//
//vc:prop C19
//vc:target root.handleReceivedMessage root.handleMessage root.createEnvelope
//vc:bounded
func vc_anything(b []byte, env []byte, content bool) {
	zzSetup(false)
	self := "00000000-0000-4000-8000-000000000001"
	config.ConfigFile = &config.Config{UUID: self, StorageDir: v.TempDir()}
	groupsv2.SetupGroups(config.ConfigFile.StorageDir)
	transport.ZZServe(func(q transport.ZZReq) transport.ZZResp { return transport.ZZResp{Status: 404} })
	client = &Client{}
	if content {
		handleMessage("", self, 1, b)
		client.MessageHandler = func(*Message) {}
		handleMessage("", "peer", 1, b)
		return
	}
	e, err := createEnvelope(env)
	if err == nil && e.GetType() != signalservice.Envelope_UNIDENTIFIED_SENDER {
		e.Content = b
		handleReceivedMessage(e)
	}
}

func gen_vc_anything(r *rand.Rand) []interface{} {
	c := &signalservice.Content{}
	switch r.Intn(4) {
	case 0:
		c.DataMessage = zzData(r)
		if r.Intn(2) == 0 {
			c.DataMessage.GroupV2 = &signalservice.GroupContextV2{MasterKey: v.RandBytes(r), GroupChange: v.RandBytes(r)}
		}
	case 1:
		c.SyncMessage = zzSync(r)
		c.SyncMessage.Request, c.SyncMessage.Verified = nil, nil
	case 2:
		c.ReceiptMessage = &signalservice.ReceiptMessage{}
	case 3:
		c.CallMessage = &signalservice.CallMessage{}
	}
	b, _ := proto.Marshal(c)
	if r.Intn(3) == 0 && len(b) > 0 {
		b[r.Intn(len(b))] ^= byte(1 + r.Intn(255))
	}
	if r.Intn(4) == 0 {
		b = v.RandBytes(r)
	}
	t := signalservice.Envelope_Type([]int32{0, 1, 2, 3, 5, 8}[r.Intn(6)])
	env := &signalservice.Envelope{Type: &t}
	if r.Intn(2) == 0 {
		env.SourceUuid = zzStr([]string{"peer", "", "\xff"}[r.Intn(3)])
	}
	if r.Intn(5) == 0 {
		env.Type = nil
	}
	eb, _ := proto.Marshal(env)
	if r.Intn(3) == 0 {
		eb = v.RandBytes(r)
	}
	return []interface{}{b, eb, r.Intn(2) == 0}
}
