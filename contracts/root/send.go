package textsecure

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/curve25519sign"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/transport"
	v "github.com/signal-golang/textsecure/zzspec"
)

// zzDevice is one device of an account: its own keys and sessions, the account's identity.
type zzDevice struct {
	st   *store
	id   uint32
	reg  uint32
	next uint32
	want bool // its keys may be asked for
}

func zzNewDevice(ik *axolotl.IdentityKeyPair, id, reg uint32) *zzDevice {
	d := &zzDevice{st: zzNewStore(v.TempDir(), false), id: id, reg: reg, next: 1}
	d.st.SetIdentityKeyPair(ik)
	d.st.SetLocalRegistrationID(reg)
	return d
}

func zzRawB64(b []byte) string { return base64.RawStdEncoding.EncodeToString(b) }

// keys is the server's answer about the device's prekeys.
func (d *zzDevice) keys() []byte {
	ik, err := d.st.GetIdentityKeyPair()
	v.Assume(err == nil)
	pk, spk := axolotl.NewECKeyPair(), axolotl.NewECKeyPair()
	var rnd [64]byte
	sig := curve25519sign.Sign(ik.PrivateKey.Key(), spk.PublicKey.Serialize(), rnd)
	n := d.next
	d.next++
	d.st.StorePreKey(n, axolotl.NewPreKeyRecord(n, pk))
	d.st.StoreSignedPreKey(n, axolotl.NewSignedPreKeyRecord(n, 1, spk, sig[:]))
	return []byte(fmt.Sprintf(`{"identityKey":"%s","devices":[{"deviceId":%d,"registrationId":%d,"signedPreKey":{"keyId":%d,"publicKey":"%s","signature":"%s"},"preKey":{"keyId":%d,"publicKey":"%s"}}]}`,
		zzRawB64(ik.PublicKey.Serialize()), d.id, d.reg, n, zzRawB64(spk.PublicKey.Serialize()), zzRawB64(sig[:]), n, zzRawB64(pk.PublicKey.Serialize())))
}

func (d *zzDevice) read(from string, m jsonMessage) ([]byte, error) {
	b, err := base64.StdEncoding.DecodeString(m.Content)
	if err != nil {
		return nil, err
	}
	sc := axolotl.NewSessionCipher(d.st, d.st, d.st, d.st, from, 1)
	if m.Type == int32(signalservice.Envelope_PREKEY_BUNDLE) {
		pm, err := axolotl.LoadPreKeyWhisperMessage(b)
		if err != nil {
			return nil, err
		}
		return sc.SessionDecryptPreKeyWhisperMessage(pm)
	}
	wm, err := axolotl.LoadWhisperMessage(b)
	if err != nil {
		return nil, err
	}
	return sc.SessionDecryptWhisperMessage(wm)
}

// zzAccount is an account at the server.
type zzAccount struct {
	ik   *axolotl.IdentityKeyPair
	devs map[uint32]*zzDevice
	last [][]byte // what each device read, of the last message accepted
}

type zzPut struct {
	Messages    []jsonMessage `json:"messages"`
	Timestamp   uint64        `json:"timestamp"`
	Destination string        `json:"destination"`
}

// zzServer answers like the server does and checks what it is sent.
type zzServer struct {
	us      string
	acc     map[string]*zzAccount
	puts    int
	sync    bool
	ts      map[string]uint64
	fail    int
	extra   map[string][]uint32
	stale   []uint32        // reported in the last answer
	kept    map[uint32]bool // the other sessions there were then, nil: none of the answers was about devices
	fetched map[uint32]bool // keys asked for since then
}

// answered notes what was answered, to look at in the next attempt what became of it.
func (s *zzServer) answered(to string, stale, extra []uint32) {
	s.stale, s.kept, s.fetched = stale, map[uint32]bool{}, map[uint32]bool{}
	for id := uint32(1); id < 8; id++ {
		s.kept[id] = textSecureStore.ContainsSession(to, id)
	}
	for _, id := range append(append([]uint32{}, stale...), extra...) {
		s.kept[id] = false
	}
}

func (s *zzServer) serve(q transport.ZZReq) transport.ZZResp {
	path := strings.TrimPrefix(q.URL, "http://service")
	parts := strings.Split(path, "/")
	if len(parts) == 5 && strings.HasPrefix(path, "/v2/keys/") {
		v.Ensures("send: keys are fetched for a device without a session only", !textSecureStore.ContainsSession(parts[3], uint32(zzAtoi(parts[4]))))
		if s.kept != nil {
			s.fetched[uint32(zzAtoi(parts[4]))] = true
		}
		a := s.acc[parts[3]]
		if a == nil || a.devs[uint32(zzAtoi(parts[4]))] == nil {
			s.fail = 404 // a device known from earlier that is gone, with no session left to it
			return transport.ZZResp{Status: 404}
		}
		return transport.ZZResp{Status: 200, Body: a.devs[uint32(zzAtoi(parts[4]))].keys()}
	}
	v.Ensures("send: to the recipient's address", len(parts) == 4 && strings.HasPrefix(path, "/v1/messages/") && q.Method == "PUT")
	to := parts[3]
	var p zzPut
	err := json.Unmarshal(q.Body, &p)
	v.Ensures("send: a message as the server understands it", err == nil && p.Destination == to && p.Messages != nil)
	s.puts++
	if s.kept != nil {
		for _, id := range s.stale {
			v.Ensures("send: every device that started anew gets a new session", s.fetched[id])
		}
		for id, kept := range s.kept {
			v.Ensures("send: no other session is given up", !kept || textSecureStore.ContainsSession(to, id) && !s.fetched[id])
		}
		s.kept = nil
	}
	v.Ensures("send: comes to an end", s.puts < 15)
	if s.puts >= 15 || s.fail > 0 {
		return transport.ZZResp{Status: s.fail}
	}
	if t, ok := s.ts[to]; ok {
		v.Ensures("send: the same time in every attempt", t == p.Timestamp)
	}
	s.ts[to] = p.Timestamp
	a := s.acc[to]
	if a == nil {
		return transport.ZZResp{Status: 404}
	}
	sent := map[uint32]jsonMessage{}
	for _, m := range p.Messages {
		_, twice := sent[m.DestDeviceID]
		v.Ensures("send: one ciphertext for each device", !twice)
		v.Ensures("send: nothing to this device itself", to != s.us || m.DestDeviceID != 1)
		sent[m.DestDeviceID] = m
	}
	var missing, extra, stale []uint32
	for id := uint32(1); id < 8; id++ {
		d, m, is := a.devs[id], jsonMessage{}, false
		m, is = sent[id]
		switch {
		case to == s.us && id == 1:
		case d != nil && !is:
			missing = append(missing, id)
		case d == nil && is:
			extra = append(extra, id)
		case d != nil && is && m.DestRegistrationID != d.reg:
			stale = append(stale, id)
		}
	}
	if len(missing)+len(extra) > 0 {
		v.Cover("mismatched devices")
		s.extra[to] = append(s.extra[to], extra...)
		s.answered(to, nil, extra)
		b, _ := json.Marshal(map[string]interface{}{"missingDevices": missing, "extraDevices": extra})
		return transport.ZZResp{Status: 409, Body: b}
	}
	if len(stale) > 0 {
		v.Cover("stale devices")
		s.answered(to, stale, nil)
		b, _ := json.Marshal(map[string]interface{}{"staleDevices": stale})
		return transport.ZZResp{Status: 410, Body: b}
	}
	a.last = nil
	for id, m := range sent {
		if len(sent) > 1 { // no other device can read it
			for o, d := range a.devs {
				if o != id {
					_, err := d.read(s.us, m)
					v.Ensures("send: no device gets another's ciphertext", err != nil)
				}
			}
		}
		b, err := a.devs[id].read(s.us, m)
		v.Ensures("send: the device labelled reads it", err == nil)
		a.last = append(a.last, b)
	}
	v.Ensures("send: for every device", len(a.last) == len(sent))
	b := []byte(`{"needsSync":false}`)
	if s.sync && to != s.us {
		b = []byte(`{"needsSync":true}`)
	}
	return transport.ZZResp{Status: 200, Body: b}
}

func zzAtoi(s string) int {
	n := 0
	fmt.Sscanf(s, "%d", &n)
	return n
}

// settled holds between messages: nobody is known by a device the server has said is gone.
func (s *zzServer) settled(to string) {
	a := s.acc[to]
	for id := uint32(1); id < 8; id++ {
		own := to == s.us && id == 1
		if a.devs[id] != nil && !own {
			v.Ensures("send: a session with every device", textSecureStore.ContainsSession(to, id))
		}
	}
	for _, id := range s.extra[to] {
		if a.devs[id] == nil {
			v.Ensures("send: no session with a device that is gone", !textSecureStore.ContainsSession(to, id))
		}
	}
}

// Any history of messages to an account whose devices come, go and start anew: every message reaches every
// device of the recipient, encrypted under that device's session and labelled with its ids; what is said is
// said to all of them alike; and sessions are kept with the devices that are left. A transcript goes to our own
// other devices when the server asks for one.
//
//vc:prop C21
//vc:target root.buildMessage root.buildAndSendMessage root.sendMessage root.sendSyncMessage root.createMessage root.sendNullMessage root.EndSession root.SendMessage root.SyncContacts
//vc:bounded
func vc_send(seed int) {
	r := rand.New(rand.NewSource(int64(seed)))
	us, to := "00000000-0000-4000-8000-000000000001", "00000000-0000-4000-8000-000000000002"
	zzSetup(r.Intn(4) == 0)
	deviceLists = map[string][]uint32{}
	other, self := &zzAccount{ik: axolotl.GenerateIdentityKeyPair(), devs: map[uint32]*zzDevice{}}, &zzAccount{ik: identityKey, devs: map[uint32]*zzDevice{}}
	reg := uint32(100)
	add := func(a *zzAccount, id uint32) { reg++; a.devs[id] = zzNewDevice(a.ik, id, reg) }
	add(other, uint32(1+r.Intn(9)/8))
	if r.Intn(2) == 0 {
		add(other, 3)
	}
	add(self, 1)
	if r.Intn(3) > 0 {
		add(self, 2)
	}
	s := &zzServer{us: us, acc: map[string]*zzAccount{to: other, us: self}}
	s.extra = map[string][]uint32{}
	conf := &config.Config{UUID: us, Tel: "+4911", ProfileKey: v.RandBytes(r)}
	transport.ZZServe(s.serve)
	if r.Intn(12) == 0 {
		deviceLists[to] = []uint32{1, 2, 3, 4}[:1+r.Intn(4)]
	}
	for k := 0; k < 1+r.Intn(5); k++ {
		for n := r.Intn(3); n > 0; n-- { // devices come, start anew or go
			a := []*zzAccount{other, self}[r.Intn(2)]
			id := uint32(2 + r.Intn(3))
			if r.Intn(3) > 0 || a == other && len(a.devs) == 1 {
				add(a, id)
			} else {
				delete(a.devs, id)
			}
		}
		if r.Intn(3) == 0 { // all start anew
			for id := uint32(1); id < 8; id++ {
				if other.devs[id] != nil {
					add(other, id)
				}
			}
		}
		if len(other.devs) == 0 {
			add(other, 1)
		}
		config.ConfigFile = conf
		s.ts, s.puts, s.sync, s.fail, s.kept = map[string]uint64{}, 0, r.Intn(2) == 0, 0, nil
		other.last, self.last = nil, nil
		if r.Intn(8) == 0 {
			s.fail = []int{413, 404, 500, 401, 428}[r.Intn(5)]
		}
		var ts uint64
		var err error
		body, timer, what := fmt.Sprint("message ", k), uint32(r.Intn(3)), r.Intn(9)
		switch what {
		case 0:
			err = SyncContacts()
		case 1:
			ts, err = EndSession(to, body)
		case 2:
			ts, err = sendNullMessage(&outgoingNullMessage{to, &signalservice.NullMessage{}})
		default:
			ts, err = SendMessage(to, body, timer)
		}
		v.Ensures("send: fails exactly if the server refuses", (err == nil) == (s.fail == 0) || err == nil && s.ts[to] != 0 && s.sync)
		if err != nil {
			v.Cover("refused")
			continue
		}
		if what == 0 {
			v.Cover("to ourselves")
			s.settled(us)
			for _, b := range self.last {
				c := zzContent(b)
				v.Ensures("send: the same to every device", c != nil && c.GetSyncMessage().GetRequest().GetType() == signalservice.SyncMessage_Request_CONTACTS)
			}
			continue
		}
		v.Cover("to somebody")
		v.Ensures("send: to all the recipient's devices", len(other.last) == len(other.devs))
		v.Ensures("send: sent at the time told", s.ts[to] == ts)
		if what == 1 {
			for id := uint32(1); id < 8; id++ {
				v.Ensures("end session: no session is left", !textSecureStore.ContainsSession(to, id))
			}
		} else {
			s.settled(to)
		}
		for _, b := range other.last {
			v.Ensures("send: padded", len(b)%160 == 0)
			c := zzContent(b)
			if what == 2 {
				v.Ensures("send: the same to every device", c.GetNullMessage() != nil)
				continue
			}
			dm := c.GetDataMessage()
			v.Ensures("send: the message, to every device", dm.GetBody() == body && dm.GetTimestamp() == ts && v.Eq(dm.GetProfileKey(), config.ConfigFile.ProfileKey))
			v.Ensures("send: flags and timer", what == 1 && dm.GetFlags() == 1 || what > 2 && dm.GetFlags() == 0 && dm.GetExpireTimer() == timer)
		}
		if s.fail > 0 {
			continue // the transcript was refused
		}
		if s.sync && what != 2 {
			v.Cover("transcript")
			n := len(self.devs) - 1
			v.Ensures("transcript: to all our other devices", len(self.last) == n)
			for _, b := range self.last {
				st := zzContent(b).GetSyncMessage().GetSent()
				v.Ensures("transcript: of this message", st.GetDestinationUuid() == to && st.GetTimestamp() == ts && st.GetMessage().GetBody() == body && st.GetMessage().GetTimestamp() == ts)
			}
		} else {
			v.Ensures("transcript: only when asked for", s.ts[us] == 0)
		}
	}
}

func zzContent(b []byte) *signalservice.Content {
	c := &signalservice.Content{}
	if proto.Unmarshal(stripPadding(b), c) != nil {
		return nil
	}
	return c
}

func gen_vc_send(r *rand.Rand) []interface{} { return []interface{}{int(r.Int31())} }
