package textsecure

import (
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	v "github.com/signal-golang/textsecure/zzspec"
)

const zzWsUs = "00000000-0000-4000-8000-000000000007"

// An acknowledgement names the request it is for.
//
//vc:prop C29
//vc:target root.sendAck
//vc:bounded
func vc_ack(id uint64) {
	c := &Conn{send: make(chan []byte, 1)}
	v.Ensures("ack: sent", c.sendAck(id) == nil && len(c.send) == 1)
	m := &signalservice.WebSocketMessage{}
	v.Ensures("ack: a response", proto.Unmarshal(<-c.send, m) == nil && m.GetType() == signalservice.WebSocketMessage_RESPONSE && m.Request == nil)
	v.Ensures("ack: to this request", m.GetResponse().GetId() == id && m.GetResponse().GetStatus() == 200)
	v.Cover("ack")
}

// Every request of the server is acknowledged under its own id, in order, and what it carries is handled before
// that, whatever the requests before it were.
//
//vc:prop C29 C19
//vc:target root.StartListening root.sendAck root.writeWorker root.connect root.StopListening
//vc:bounded
func vc_listening(seed, n int) {
	r := rand.New(rand.NewSource(int64(seed)))
	zzSetup(false)
	handled := make(chan uint64, 2*n)
	s := &zzSeen{}
	zzClient(s)
	client.ReceiptHandler = func(source string, device uint32, ts uint64) { handled <- ts }
	key := zzRnd(r, 52)
	registration.Registration = registration.RegistrationInfo{Password: "p w&", SignalingKey: key}
	type req struct {
		id, ts uint64
		body   []byte
	}
	var reqs []req
	for k := 0; k < n; k++ {
		q := req{id: r.Uint64()}
		switch r.Intn(7) {
		case 0: // nothing
		case 1:
			q.body = append(zzRnd(r, 1+r.Intn(30)), 0xff)
		case 2: // authentic and yet no ciphertext
			m := append([]byte{1}, zzRnd(r, r.Intn(40))...)
			q.body = append(m, axolotl.ComputeTruncatedMAC(m, key[32:], 10)...)
		default:
			q.ts = uint64(1 + k)
			t := signalservice.Envelope_RECEIPT
			b, _ := proto.Marshal(&signalservice.Envelope{Type: &t, SourceUuid: zzStr(zzWsUs), SourceDevice: zzU32(1), Timestamp: zzU64(q.ts)})
			q.body = b
			if r.Intn(2) == 0 {
				iv := zzRnd(r, 16)
				ct, err := axolotl.Encrypt(key[:32], iv, b)
				v.Assume(err == nil)
				m := append(append([]byte{1}, iv...), ct...)
				q.body = append(m, axolotl.ComputeTruncatedMAC(m, key[32:], 10)...)
			}
		}
		reqs = append(reqs, q)
	}
	acks, asked := make(chan *signalservice.WebSocketMessage, 4*n+4), make(chan string, 4)
	up := websocket.Upgrader{}
	burst := r.Intn(2) == 0
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, hr *http.Request) {
		asked <- fmt.Sprint(hr.URL.Path, "|", hr.URL.Query().Get("login"), "|", hr.URL.Query().Get("password"))
		c, err := up.Upgrade(w, hr, nil)
		if err != nil {
			return
		}
		defer c.Close()
		read := func() bool {
			_, b, err := c.ReadMessage()
			if err != nil {
				return false
			}
			m := &signalservice.WebSocketMessage{}
			if proto.Unmarshal(b, m) != nil {
				m = nil
			}
			acks <- m
			return true
		}
		for _, q := range reqs {
			t := signalservice.WebSocketMessage_REQUEST
			id := q.id
			b, _ := proto.Marshal(&signalservice.WebSocketMessage{Type: &t, Request: &signalservice.WebSocketRequestMessage{Id: &id, Verb: zzStr("PUT"), Path: zzStr("/api/v1/message"), Body: q.body}})
			c.WriteMessage(websocket.BinaryMessage, b)
			if !burst && !read() {
				return
			}
		}
		for read() {
		}
	}))
	defer srv.Close()
	config.ConfigFile = &config.Config{UUID: zzWsUs, Server: srv.URL}
	ended := make(chan error, 1)
	go func() { ended <- StartListening() }()
	late := time.After(20 * time.Second)
	select {
	case a := <-asked:
		v.Ensures("listening: as ourselves", a == "/v1/websocket/|"+zzWsUs+"|p w&")
	case <-late:
		v.Ensures("listening: connects", false)
	}
	for _, q := range reqs {
		select {
		case m := <-acks:
			v.Ensures("listening: every request acknowledged under its own id", m != nil && m.GetType() == signalservice.WebSocketMessage_RESPONSE && m.GetResponse().GetId() == q.id && m.GetResponse().GetStatus() == 200)
			if q.ts != 0 {
				v.Ensures("listening: handled before it is acknowledged", len(handled) > 0 && <-handled == q.ts)
				v.Cover("handled")
			}
		case <-ended:
			v.Ensures("listening: goes on whatever arrives", false)
		case <-late:
			v.Ensures("listening: no acknowledgement is lost", false)
		}
	}
	v.Ensures("listening: nothing more", len(handled) == 0 && len(acks) == 0)
	v.Ensures("listening: stops", StopListening() == nil)
	select {
	case err := <-ended:
		v.Ensures("listening: ended", err != nil)
	case <-late:
		v.Ensures("listening: ends", false)
	}
	v.Cover("listened")
}

func gen_vc_ack(r *rand.Rand) []interface{} { return []interface{}{r.Uint64() >> uint(r.Intn(64))} }
func gen_vc_listening(r *rand.Rand) []interface{} {
	return []interface{}{int(r.Int31()), 1 + r.Intn(8)}
}
