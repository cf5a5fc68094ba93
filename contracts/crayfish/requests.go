package crayfish

import (
	b64 "encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"time"

	uuid "github.com/satori/go.uuid"
	"github.com/signal-golang/textsecure/registration"
	v "github.com/signal-golang/textsecure/zzspec"
)

// zzAnswer is what came of one request.
type zzAnswer struct {
	got  func() string
	want string
	err  error
}

// Whoever asks the helper gets the answer to their own request, however many ask at the same time, however fast
// or slow the helper answers and whatever else it says in between.
//
//vc:prop C29
//vc:target crayfish.HandleEnvelope crayfish.DecryptAvatar crayfish.CrayfishRegisterWithCode crayfish.CrayfishRegister crayfish.handleCrayfishResponseMessage crayfish.handleCrayfishRequestMessage
//vc:bounded
func vc_helperRequests(seed, n, room int) {
	r := rand.New(rand.NewSource(int64(seed)))
	c := &CrayfishInstance{LocalUUID: "us", LocalDeviceID: 1, wsconn: &Conn{send: make(chan []byte, room)}}
	answers := make(chan zzAnswer, n)
	done := make(chan bool)
	faults := make(chan string, 100)
	helper := rand.New(rand.NewSource(int64(seed) + 1))
	go func() {
		for {
			// whoever asks is made to wait until the request is taken, so that the answer may come first
			time.Sleep(time.Duration(helper.Intn(3)) * 300 * time.Microsecond)
			select {
			case m := <-c.wsconn.send:
				zzHelp(c, helper, m, faults)
			case <-done:
				return
			}
		}
	}()
	for k := 0; k < n; k++ {
		what, p := r.Intn(4), []byte(fmt.Sprint("request ", k, r.Intn(1000)))
		wait := time.Duration(r.Intn(3)) * 200 * time.Microsecond
		go func() {
			time.Sleep(wait)
			var a zzAnswer
			switch what {
			case 0, 1:
				d, err := c.HandleEnvelope(p)
				a.err, a.want = err, b64.StdEncoding.EncodeToString(p)
				a.got = func() string { return d.Message }
			case 2:
				d, err := c.DecryptAvatar(p, p)
				a.err, a.want = err, string(p)
				a.got = func() string { return string(d) }
			case 3:
				info := &registration.RegistrationInfo{Password: string(p), SignalingKey: make([]byte, 52)}
				if err := c.CrayfishRegister(info, string(p), ""); err != nil {
					a.err = err
				} else if d, err := c.CrayfishRegisterWithCode(info, string(p), "", "123456"); err != nil {
					a.err = err
				} else {
					id, _ := uuid.FromBytes(zz16(p))
					a.want = id.String() + string(p)
					a.got = func() string { return d.UUID + d.Tel }
				}
			}
			answers <- a
		}()
	}
	late := time.After(20 * time.Second)
	var all []zzAnswer
	for k := 0; k < n; k++ {
		select {
		case a := <-answers:
			all = append(all, a)
			v.Ensures("request: answered", a.err == nil)
		case f := <-faults:
			v.Ensures("request: as asked: "+f, false)
		case <-late:
			v.Ensures("request: its answer is not lost", false)
		}
	}
	for _, a := range all {
		v.Ensures("request: its own answer", a.got() == a.want)
	}
	close(done)
	v.Cover("answered")
}

// A request whose connection is lost fails, and requests after it are answered again.
//
//vc:prop C29
//vc:target crayfish.StartWebsocket crayfish.HandleEnvelope
//vc:bounded
func vc_helperLost(p []byte) {
	c := &CrayfishInstance{wsconn: &Conn{send: make(chan []byte)}}
	errs := make(chan error, 2)
	ask := func() {
		_, err := c.HandleEnvelope(p)
		errs <- err
	}
	get := func() error {
		select {
		case err := <-errs:
			return err
		case <-time.After(20 * time.Second):
			v.Ensures("request: does not wait forever for a lost connection", false)
			return nil
		}
	}
	go ask()
	<-c.wsconn.send
	v.Assume(c.StartWebsocket() != nil)
	v.Ensures("request: lost with its connection", get() != nil)
	c.wsconn = &Conn{send: make(chan []byte)}
	go ask()
	m := <-c.wsconn.send
	zzHelp(c, rand.New(rand.NewSource(int64(len(m)))), m, make(chan string, 9))
	v.Ensures("request: answered after a lost one", get() == nil)
	v.Cover("lost")
}

func zz16(p []byte) []byte { return append(append([]byte{}, p...), make([]byte, 16)...)[:16] }

// zzHelp answers one request as the helper does, with other traffic around it.
func zzHelp(c *CrayfishInstance, r *rand.Rand, m []byte, faults chan string) {
	noise := func() {
		ack, req := CrayfishWebSocketResponseMessageTyp_ACK, CrayfishWebSocketRequestMessageTyp_UNKNOWN
		switch r.Intn(6) {
		case 0:
			c.handleCrayfishResponseMessage(&CrayfishWebSocketResponseMessage{Type: &ack, Message: ACKMessage{"ok"}})
		case 1:
			handleCrayfishRequestMessage(&CrayfishWebSocketRequestMessage{Type: &req})
		case 2:
			c.handleCrayfishResponseMessage(&CrayfishWebSocketResponseMessage{})
		case 3:
			c.handleCrayfishResponseMessage(nil)
		case 4:
			handleCrayfishRequestMessage(nil)
		}
	}
	noise()
	var q struct {
		Type    int
		Request struct {
			Type    int
			Message json.RawMessage
		}
	}
	if err := json.Unmarshal(m, &q); err != nil || q.Type != 1 {
		faults <- "no request"
		return
	}
	var t CrayfishWebSocketResponseMessageType
	var out interface{}
	switch q.Request.Type {
	case 1:
		t = CrayfishWebSocketResponseMessageTyp_ACK
		out = ACKMessage{"ok"}
	case 2:
		var x CrayfishWebSocketRequest_VERIFY_REGISTER_MESSAGE
		if json.Unmarshal(q.Request.Message, &x) != nil || x.Code != 123456 || x.Number != x.Password {
			faults <- "verification"
		}
		t = CrayfishWebSocketResponseMessageTyp_VERIFY_REGISTRATION
		y := CrayfishWebSocketResponse_VERIFY_REGISTER_MESSAGE{}
		copy(y.UUID[:], x.Number)
		out = y
	case 3:
		var x CrayfishWebSocketRequest_HANDLE_ENVELOPE_MESSAGE
		if json.Unmarshal(q.Request.Message, &x) != nil || x.LocalUUUID != c.LocalUUID || x.LocalDeviceID != c.LocalDeviceID {
			faults <- "envelope"
		}
		t = CrayfishWebSocketResponseMessageTyp_HANDLE_ENVELOPE
		out = map[string]interface{}{"message": x.Message, "timestamp": 1, "sender_device": 1}
	case 4:
		var x CrayfishWebSocketRequest_AVATAR_MESSAGE
		if json.Unmarshal(q.Request.Message, &x) != nil {
			faults <- "avatar"
		} else if p, err := b64.StdEncoding.DecodeString(x.Avatar); err != nil || string(x.Key[:len(p)]) != string(p) {
			faults <- "avatar key"
		}
		t = CrayfishWebSocketResponseMessageTyp_DECRYPT_AVATAR
		out = CrayfishWebSocketResponse_AVATAR_MESSAGE{Avatar: x.Avatar}
	default:
		faults <- "unknown request"
	}
	b, _ := json.Marshal(&CrayfishWebSocketResponseMessage{Type: &t, Message: out})
	a := &CrayfishWebSocketResponseMessage{}
	json.Unmarshal(b, a)
	if r.Intn(3) == 0 {
		time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
	}
	c.handleCrayfishResponseMessage(a)
	noise()
}

func gen_vc_helperRequests(r *rand.Rand) []interface{} {
	return []interface{}{int(r.Int31()), 1 + r.Intn(5), r.Intn(2) * r.Intn(4)}
}
func gen_vc_helperLost(r *rand.Rand) []interface{} { return []interface{}{v.RandBytes(r)} }
