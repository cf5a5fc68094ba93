package textsecure

import (
	"crypto/aes"
	"crypto/cipher"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/transport"
	v "github.com/signal-golang/textsecure/zzspec"
)

// The 16 bytes of an id and the id's text are two writings of the same.
//
//vc:prop C22
//vc:target root.idToHexUUID
//vc:bounded
func vc_idText(id [16]byte) {
	s := idToHexUUID(id[:])
	b, err := hex.DecodeString(strings.Replace(s, "-", "", -1))
	v.Ensures("id: its bytes in order", err == nil && v.Eq(b, id[:]))
	v.Ensures("id: 8-4-4-4-12", len(s) == 36 && s[8] == '-' && s[13] == '-' && s[18] == '-' && s[23] == '-')
	v.Cover("id")
}

type zzEnclave struct {
	keys   []byte // client and server key
	id     []byte
	answer func(book []int64) ([]byte, int)
	asked  []int64
	r      *rand.Rand
	shape  int
}

func (e *zzEnclave) serve(q transport.ZZReq) transport.ZZResp {
	switch {
	case strings.HasSuffix(q.URL, "/v1/directory/auth"):
		return transport.ZZResp{Status: 200, Body: []byte(`{"username":"u","password":"p"}`)}
	case strings.Contains(q.URL, "/v1/attestation/"):
		var req struct {
			ClientPublic []byte `json:"clientPublic"`
		}
		v.Assume(json.Unmarshal(q.Body, &req) == nil)
		eph, st := axolotl.NewECKeyPair(), axolotl.NewECKeyPair()
		ms := v.Cat(v.X25519(eph.PrivateKey.Key()[:], req.ClientPublic), v.X25519(st.PrivateKey.Key()[:], req.ClientPublic))
		e.keys = v.HKDF256(ms, v.Cat(req.ClientPublic, eph.PublicKey.Key()[:], st.PublicKey.Key()[:]), nil, 64)
		e.id = zzRnd(e.r, 20)
		iv := zzRnd(e.r, 12)
		c := v.GCMSeal(e.keys[32:], iv, e.id, nil)
		m := len(c) - 16
		b, _ := json.Marshal(map[string]interface{}{"attestations": map[string]interface{}{"one": map[string]interface{}{
			"serverEphemeralPublic": eph.PublicKey.Key()[:], "serverStaticPublic": st.PublicKey.Key()[:], "iv": iv, "ciphertext": c[:m], "tag": c[m:]}}})
		return transport.ZZResp{Status: 200, Body: b}
	case strings.Contains(q.URL, "/v1/discovery/"):
		type env struct{ Data, Iv, Mac, RequestId []byte }
		var req struct {
			AddressCount              int
			Commitment, Data, Iv, Mac []byte
			Envelopes                 map[string]env
		}
		err := json.Unmarshal(q.Body, &req)
		en := req.Envelopes["one"]
		qk, err2 := zzGCMOpen(e.keys[:32], en.Iv, v.Cat(en.Data, en.Mac), en.RequestId)
		v.Ensures("discovery: the enclave opens its envelope", err == nil && err2 && v.Eq(en.RequestId, e.id))
		p, ok := zzGCMOpen(qk, req.Iv, v.Cat(req.Data, req.Mac), nil)
		v.Ensures("discovery: and the query", ok && len(p) == 32+8*req.AddressCount && v.Eq(req.Commitment, v.SHA256(p)))
		for i := 32; i < len(p); i += 8 {
			n := int64(0)
			for _, b := range p[i : i+8] {
				n = n<<8 | int64(b)
			}
			e.asked = append(e.asked, n)
		}
		switch e.shape {
		case 1:
			return transport.ZZResp{Status: 200, Body: []byte([]string{"", "{}", "null", "[]", `{"data":null}`}[e.r.Intn(5)])}
		case 2:
			return transport.ZZResp{Status: 429}
		}
		d, bad := e.answer(e.asked)
		iv := zzRnd(e.r, 12)
		c := v.GCMSeal(e.keys[32:], iv, d, nil)
		if bad == 1 {
			c[e.r.Intn(len(c))] ^= 1
		}
		if bad == 2 {
			iv = iv[:e.r.Intn(12)]
		}
		m := len(c) - 16
		b, _ := json.Marshal(map[string]interface{}{"data": c[:m], "iv": iv, "mac": c[m:], "requestId": e.id})
		return transport.ZZResp{Status: 200, Body: b}
	}
	return transport.ZZResp{Status: 404}
}

// Any address book, any answer: every number is asked for once; each entry of the answer goes to the number at
// its place, zeroes meaning not registered; an answer of another length or one that does not authenticate
// changes nothing and is an error.
//
//vc:prop C22
//vc:target root.GetRegisteredContacts root.getContactDiscoveryRegisteredUsers root.findIndexByE147 contactDiscoveryCrypto.GetDiscoveryResponseData contactDiscoveryCrypto.CreateDiscoveryRequest
//vc:bounded
func vc_discovery(seed int) {
	r := rand.New(rand.NewSource(int64(seed)))
	dir := v.TempDir()
	zzConfig()
	contacts.Contacts = map[string]contacts.Contact{}
	contacts.ReadContacts(filepath.Join(dir, "contacts.yml"))
	contacts.Contacts["kept"] = contacts.Contact{UUID: "kept"}
	var book []contacts.Contact
	var nums []string
	seen := map[string]bool{}
	for n := r.Intn(6); n > 0; n-- {
		tel := fmt.Sprint("+", 490000+r.Intn(5))
		switch r.Intn(12) {
		case 0:
			tel = ""
		case 1:
			tel = "no number"
		case 2:
			tel = fmt.Sprint(r.Int63n(1 << 50))
		}
		book = append(book, contacts.Contact{Tel: tel, Name: []string{"A", "B=20C=20D=20", "====", ""}[r.Intn(4)]})
		if tel != "" && tel != "no number" && !seen[tel] {
			seen[tel] = true
			nums = append(nums, tel)
		}
	}
	client = &Client{GetLocalContacts: func() ([]contacts.Contact, error) { return book, nil }}
	var ids [][]byte
	bad := []int{0, 0, 0, 0, 1, 2, 3}[r.Intn(7)]
	e := &zzEnclave{r: r, shape: []int{0, 0, 0, 0, 0, 1, 2}[r.Intn(7)]}
	e.answer = func(asked []int64) ([]byte, int) {
		var d []byte
		for range asked {
			id := make([]byte, 16)
			if r.Intn(3) > 0 {
				v.Fill(r, id)
			}
			ids = append(ids, id)
			d = append(d, id...)
		}
		if bad == 3 {
			n := r.Intn(40)
			if n == len(d) {
				n++
			}
			d = append(d, make([]byte, 64)...)[:n]
		}
		return d, bad
	}
	transport.ZZServe(e.serve)
	got, err := GetRegisteredContacts()
	v.Ensures("discovery: found exactly if there is an answer", (err == nil) == (len(nums) > 0 && e.shape == 0 && bad == 0))
	if err != nil {
		v.Cover("refused")
		v.Ensures("discovery: nothing changes without an answer", len(contacts.Contacts) == 1 && contacts.Contacts["kept"].UUID == "kept")
		return
	}
	v.Cover("answered")
	v.Ensures("discovery: every number once", len(e.asked) == len(nums) && len(got) == len(book))
	for i, s := range nums {
		n, _ := strconv.ParseInt(s, 10, 64)
		v.Ensures("discovery: in order", e.asked[i] == n)
		zero := v.Eq(ids[i], make([]byte, 16))
		first := true
		for _, c := range got {
			if c.Tel == s && first {
				first = false
				v.Ensures("discovery: the entry at the number's place", c.Registered == !zero && strings.Replace(c.UUID, "-", "", -1) == hex.EncodeToString(ids[i]))
				k := c.UUID
				if zero {
					k = c.Tel
				}
				kept := contacts.Contacts[k]
				v.Ensures("discovery: remembered", kept.Tel == s && kept.Registered == !zero && kept.UUID == c.UUID)
			}
		}
	}
	v.Ensures("discovery: nobody else", len(contacts.Contacts) == len(nums))
	all, err := contacts.ReadContacts(filepath.Join(dir, "contacts.yml"))
	v.Ensures("discovery: and stored", err == nil && len(all) == len(nums))
}

func gen_vc_discovery(r *rand.Rand) []interface{} { return []interface{}{int(r.Int31())} }
func gen_vc_idText(r *rand.Rand) []interface{} {
	var b [16]byte
	v.Fill(r, b[:])
	return []interface{}{b}
}

func zzGCMOpen(key, nonce, ct, aad []byte) ([]byte, bool) {
	b, err := aes.NewCipher(key)
	if err != nil || len(nonce) != 12 {
		return nil, false
	}
	g, err := cipher.NewGCM(b)
	if err != nil {
		return nil, false
	}
	p, err := g.Open(nil, nonce, ct, aad)
	return p, err == nil
}
