package harness

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"

	"github.com/zyxar/socketio/engine"
)

// Pkt is an engine.io packet as the harness sees it.
type Pkt struct {
	Type byte // 0..6
	Bin  bool
	Data []byte
}

func textPkt(p Pkt) []byte {
	if p.Bin {
		e := base64.StdEncoding.EncodeToString(p.Data)
		return []byte(fmt.Sprintf("%d:b%d%s", len(e)+2, p.Type, e))
	}
	return append([]byte(fmt.Sprintf("%d:%d", len(p.Data)+1, p.Type)), p.Data...)
}

func binPkt(p Pkt) []byte {
	var b []byte
	t := p.Type
	if p.Bin {
		b = append(b, 1)
	} else {
		b = append(b, 0)
		t += '0'
	}
	for _, c := range strconv.Itoa(len(p.Data) + 1) {
		b = append(b, byte(c-'0'))
	}
	b = append(b, 0xff, t)
	return append(b, p.Data...)
}

func textPayload(ps ...Pkt) []byte {
	var b []byte
	for _, p := range ps {
		b = append(b, textPkt(p)...)
	}
	return b
}

func binPayload(ps ...Pkt) []byte {
	var b []byte
	for _, p := range ps {
		b = append(b, binPkt(p)...)
	}
	return b
}

// parseBin decodes a binary payload by the protocol, independently of the code under test.
func parseBin(b []byte) (ps []Pkt, err error) {
	for len(b) > 0 {
		k := b[0]
		if k > 1 {
			return ps, fmt.Errorf("bad kind %d", k)
		}
		i, n := 1, 0
		for ; i < len(b) && b[i] != 0xff; i++ {
			if b[i] > 9 || n > 1<<40 {
				return ps, fmt.Errorf("bad length")
			}
			n = n*10 + int(b[i])
		}
		i++
		if n < 1 || i+n > len(b) {
			return ps, fmt.Errorf("truncated")
		}
		p := Pkt{Type: b[i], Bin: k == 1, Data: append([]byte(nil), b[i+1:i+n]...)}
		if !p.Bin {
			p.Type -= '0'
		}
		ps = append(ps, p)
		b = b[i+n:]
	}
	return
}

// parseText decodes a text payload by the protocol. Lengths count bytes.
func parseText(b []byte) (ps []Pkt, err error) {
	for len(b) > 0 {
		i := bytes.IndexByte(b, ':')
		if i < 1 {
			return ps, fmt.Errorf("no length")
		}
		n, err := strconv.Atoi(string(b[:i]))
		if err != nil || n < 1 || i+1+n > len(b) {
			return ps, fmt.Errorf("bad length")
		}
		s := b[i+1 : i+1+n]
		b = b[i+1+n:]
		if s[0] == 'b' {
			if len(s) < 2 {
				return ps, fmt.Errorf("no type")
			}
			d, err := base64.StdEncoding.DecodeString(string(s[2:]))
			if err != nil {
				return ps, err
			}
			ps = append(ps, Pkt{Type: s[1] - '0', Bin: true, Data: d})
		} else {
			ps = append(ps, Pkt{Type: s[0] - '0', Data: append([]byte(nil), s[1:]...)})
		}
	}
	return
}

// fromEngine looks into a packet of the code under test through its text encoding.
func fromEngine(p *engine.Packet) (Pkt, error) {
	var b bytes.Buffer
	if _, err := p.WriteTo(&b); err != nil {
		return Pkt{}, err
	}
	ps, err := parseText(b.Bytes())
	if err != nil || len(ps) != 1 {
		return Pkt{}, fmt.Errorf("%q: %v", b.String(), err)
	}
	return ps[0], nil
}

// toEngine makes a packet of the code under test by posting it to a scratch connection.
func toEngine(p Pkt) *engine.Packet {
	r := httptest.NewRequest("GET", "/", nil)
	c, err := engine.PollingAcceptor.Accept(httptest.NewRecorder(), r)
	if err != nil {
		panic(err)
	}
	defer c.Close()
	if code, body := post(c.(http.Handler), "/", textPayload(p), false); code != 200 {
		panic(fmt.Sprint("toEngine: ", code, body))
	}
	q, err := c.ReadPacket()
	if err != nil {
		panic(err)
	}
	return q
}

// post hands a payload to h and waits for the answer; the status is 0 if h panicked.
func post(h http.Handler, url string, body []byte, bin bool) (int, string) {
	ct := "text/plain; charset=UTF-8"
	if bin {
		ct = "application/octet-stream"
	}
	return do(h, "POST", url, ct, bytes.NewReader(body))
}

func do(h http.Handler, method, url, ct string, body io.Reader) (int, string) {
	r := httptest.NewRequest(method, url, body)
	if ct != "" {
		r.Header.Set("Content-Type", ct)
	}
	w := serve(h, r)
	return w.code, w.body.String()
}

type resp struct {
	code   int
	header http.Header
	body   *bytes.Buffer
}

// serve calls h as net/http would: a panic ends the request only.
func serve(h http.Handler, r *http.Request) (out resp) {
	w := httptest.NewRecorder()
	defer func() {
		if p := recover(); p != nil {
			out = resp{0, w.Header(), bytes.NewBufferString(fmt.Sprint("panic: ", p))}
		}
	}()
	h.ServeHTTP(w, r)
	return resp{w.Code, w.Result().Header, w.Body}
}

func short(s string) string {
	if len(s) > 60 {
		s = s[:60]
	}
	return strings.ToValidUTF8(s, "?")
}
