package transport

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
)

// ZZReq is a request as it leaves the library, ZZResp what the server answers.
type ZZReq struct {
	Method, URL, CT string
	Header          http.Header
	Body            []byte
}
type ZZResp struct {
	Status int
	Header http.Header
	Body   []byte
	Err    bool
}

type zzRT struct{ f func(ZZReq) ZZResp }

func (t zzRT) RoundTrip(r *http.Request) (*http.Response, error) {
	var b []byte
	if r.Body != nil {
		b, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	x := t.f(ZZReq{r.Method, r.URL.String(), r.Header.Get("Content-Type"), r.Header, b})
	if x.Err {
		return nil, fmt.Errorf("connection failed")
	}
	h := x.Header
	if h == nil {
		h = http.Header{}
	}
	return &http.Response{StatusCode: x.Status, Status: "x", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: io.NopCloser(bytes.NewReader(x.Body)), ContentLength: int64(len(x.Body)), Request: r}, nil
}

// ZZServe makes f the server behind every transport.
func ZZServe(f func(ZZReq) ZZResp) {
	c := &http.Client{Transport: zzRT{f}}
	Transport = &httpTransporter{"http://service", "user", "pass", "", "agent", c}
	CdnTransport = &httpTransporter{"http://cdn", "user", "pass", "", "agent", c}
	DirectoryTransport = &httpTransporter{"http://directory", "user", "pass", "", "agent", c}
	StorageTransport = &httpTransporter{"http://storage", "user", "pass", "", "agent", c}
	ServiceTransport = &httpTransporter{"http://service3", "user", "pass", "", "agent", c}
}
