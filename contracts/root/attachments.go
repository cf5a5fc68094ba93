package textsecure

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"

	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/transport"
	v "github.com/signal-golang/textsecure/zzspec"
)

// zzCdn is the server attachments are fetched from.
var zzCdn struct {
	sync.Mutex
	srv  *httptest.Server
	body map[string][]byte
	n    int
}

func zzServeCdn() {
	zzCdn.Lock()
	defer zzCdn.Unlock()
	zzCdn.body, zzCdn.n = map[string][]byte{}, 0
	if zzCdn.srv == nil {
		zzCdn.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			zzCdn.Lock()
			b, ok := zzCdn.body[r.URL.Path]
			zzCdn.n++
			zzCdn.Unlock()
			if !ok {
				w.WriteHeader(404)
			}
			w.Write(b)
		}))
	}
	SIGNAL_CDN_URL, SIGNAL_CDN2_URL = zzCdn.srv.URL+"/cdn0", zzCdn.srv.URL+"/cdn2"
}

// What is uploaded is the initialization vector, the ciphertext and their MAC under fresh keys, and nothing
// else about the file leaves us; the pointer has its true length and digest; and from the pointer the
// recipient gets back the same bytes, or an error if a byte was altered on the way.
//
//vc:prop C13 C26
//vc:target root.uploadAttachmentV3 root.putAttachmentV3 root.allocateAttachmentV3 root.handleSingleAttachment root.getAttachment root.getAttachmentLocation root.uploadAttachment root.uploadVoiceNote root.handleAttachments
//vc:bounded
func vc_attachment(data []byte, how, bad int) {
	zzConfig()
	zzServeCdn()
	d0 := v.Clone(data)
	var up []byte
	nput := 0
	cdn := uint32([]int{0, 2}[how%2])
	transport.ZZServe(func(q transport.ZZReq) transport.ZZResp {
		switch {
		case q.Method == "GET" && strings.HasSuffix(q.URL, "/v3/attachments/form/upload"):
			if bad == 1 {
				return transport.ZZResp{Status: 500, Body: []byte("{}")}
			}
			loc := "https://up.example.org/signed/here"
			if bad == 2 {
				loc = "nowhere"
			}
			return transport.ZZResp{Status: 200, Body: []byte(fmt.Sprintf(`{"cdn":%d,"key":"the-key","headers":{"a":"b"},"signedUploadLocation":"%s"}`, cdn, loc))}
		case q.Method == "POST":
			v.Ensures("upload: to the place the server says", strings.HasSuffix(q.URL, "/signed/here") && q.Header.Get("a") == "b" && len(q.Body) == 0)
			if bad == 3 {
				return transport.ZZResp{Status: 403}
			}
			h := http.Header{"Location": []string{"https://up.example.org/put/there?x=1"}}
			if bad == 4 {
				h = nil
			}
			return transport.ZZResp{Status: 200, Header: h}
		case q.Method == "PUT":
			v.Ensures("upload: to the location allocated", strings.HasSuffix(q.URL, "/put/there?x=1"))
			up = q.Body
			nput++
			if bad == 5 {
				return transport.ZZResp{Status: 400}
			}
			return transport.ZZResp{Status: 200}
		}
		v.Ensures("upload: nothing else is sent", false)
		return transport.ZZResp{Err: true}
	})
	var p *attachmentPointerV3
	var err error
	before := v.DrawnTotal()
	voice := how&2 != 0
	if voice {
		p, err = uploadVoiceNote(bytes.NewReader(data), "text/plain")
	} else {
		p, err = uploadAttachment(bytes.NewReader(data), "text/plain")
	}
	v.Ensures("upload: fails exactly if the server refuses", (err == nil) == (bad == 0 || bad > 5))
	if err != nil {
		v.Cover("upload refused")
		return
	}
	v.Ensures("upload: input intact", v.Eq(data, d0))
	v.Ensures("upload: once", nput == 1 && len(p.keys) == 64)
	drawn := v.Drawn(v.DrawnTotal() - before)
	v.Ensures("upload: keys and initialization vector from the random source", len(drawn) == 80 && v.Eq(drawn[:64], p.keys) && v.Eq(drawn[64:], up[:16]))
	n := len(up) - 32
	v.Ensures("upload: initialization vector, ciphertext, MAC", v.Eq(up[:n], v.Cat(drawn[64:], v.CBCEnc(p.keys[:32], drawn[64:], zzPad(d0)))) && v.Eq(up[n:], v.HMAC256(p.keys[32:], up[:n])))
	v.Ensures("pointer: true length and digest", p.size == uint32(len(d0)) && v.Eq(p.digest, v.SHA256(up)))
	v.Ensures("pointer: where it is", p.cdnKey == "the-key" && p.cdnNr == cdn && p.voiceNote == voice && (voice || p.ct == "text/plain"))
	dm := createMessage(&outgoingMessage{destination: "x", attachment: p})
	v.Ensures("pointer: in the message", len(dm.GetAttachments()) == 1)
	a := dm.GetAttachments()[0]
	v.Ensures("pointer: sent as it is", a.GetCdnKey() == "the-key" && a.GetCdnNumber() == cdn && v.Eq(a.GetKey(), p.keys) && v.Eq(a.GetDigest(), p.digest) && a.GetSize() == p.size && a.GetContentType() == p.ct)
	body := v.Clone(up)
	good := true
	r := rand.New(rand.NewSource(int64(len(up)*31 + bad)))
	switch bad {
	case 6: // a bit flipped
		body[r.Intn(len(body))] ^= 1 << uint(r.Intn(8))
		good = false
	case 7: // cut short
		body = body[:r.Intn(len(body))]
		good = false
	case 8: // longer
		body = append(body, v.RandBytes(r)...)
		good = len(body) == len(up)
	case 9: // another key
		a.Key = v.Clone(a.Key)
		a.Key[32+r.Intn(32)] ^= 1 << uint(r.Intn(8))
		good = false
	case 10: // a key of another length
		a.Key = v.Cat(a.Key, a.Key)[:[]int{0, 1, 16, 31, 32, 33, 48, 63, 65, 96, 128}[r.Intn(11)]]
		good = false
	case 11: // moved
		body = v.Cat(up[16:], up[:16])
		good = false
	}
	where := "/cdn0/attachments/the-key"
	if cdn == 2 {
		where = "/cdn2/attachments/the-key"
	}
	if how&4 != 0 {
		a.AttachmentIdentifier = &signalservice.AttachmentPointer_CdnId{CdnId: 7}
		where = where[:5] + "/attachments/7"
	}
	if bad != 12 {
		zzCdn.body[where] = body
	} else {
		good = false
	}
	got, err := handleAttachments(dm)
	v.Ensures("download: exactly what authenticates", (err == nil) == good)
	if err != nil {
		v.Cover("download refused")
		v.Ensures("download: nothing else", got == nil)
		return
	}
	v.Cover("downloaded")
	v.Ensures("download: one attachment", len(got) == 1 && got[0].MimeType == p.ct)
	b, err := io.ReadAll(got[0].R)
	v.Ensures("download: what was sent", err == nil && v.Eq(b, d0))
}

func gen_vc_attachment(r *rand.Rand) []interface{} {
	n := []int{0, 1, 15, 16, 17, 31, 32, 33, 100, 1000}[r.Intn(10)]
	bad := 0
	if r.Intn(3) > 0 {
		bad = r.Intn(13)
	}
	return []interface{}{zzRnd(r, n), r.Intn(8), bad}
}

// Any pointer at all, to any body at all, yields data only if the body authenticates under the pointer's key,
// and never crashes the client.
//
//vc:prop C13 C19
//vc:target root.handleSingleAttachment root.getAttachment root.getAttachmentLocation
//vc:bounded
func vc_attachmentAny(key, body []byte, cdnKey string, sign bool) {
	zzServeCdn()
	if sign && len(key) == 64 {
		body = v.Cat(body, v.HMAC256(key[32:], body))
	}
	zzCdn.body["/cdn0/attachments/"+cdnKey] = body
	a := &signalservice.AttachmentPointer{AttachmentIdentifier: &signalservice.AttachmentPointer_CdnKey{CdnKey: cdnKey}, Key: key}
	got, err := handleSingleAttachment(a)
	n := len(body) - 32
	if err != nil {
		v.Cover("refused")
		v.Ensures("download: nothing on error", got == nil)
		return
	}
	v.Cover("taken")
	v.Ensures("download: only what authenticates", len(key) == 64 && n >= 32 && v.Eq(body[n:], v.HMAC256(key[32:], body[:n])))
	p := v.CBCDec(key[:32], body[:16], body[16:n])
	b, err := io.ReadAll(got.R)
	v.Ensures("download: what the key decrypts", err == nil && len(b) <= len(p) && v.Eq(b, p[:len(b)]) && len(p)-len(b) <= 16)
}

func gen_vc_attachmentAny(r *rand.Rand) []interface{} {
	key := zzRnd(r, []int{0, 1, 16, 32, 48, 63, 64, 64, 64, 64, 65, 80}[r.Intn(12)])
	body := v.RandBytes(r)
	if r.Intn(2) == 0 {
		body = zzRnd(r, 16*r.Intn(6))
	}
	k := []string{"a", "a", "a", "", "\x7f", "%zz", "a b", "\n", "x%"}[r.Intn(9)]
	return []interface{}{key, body, k, r.Intn(3) > 0}
}
