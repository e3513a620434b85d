package harness

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/gorilla/websocket"
)

// World is one run of a script: real time or, inside a bubble, virtual time.
type World struct {
	c       *Ctx
	h       http.Handler
	virtual bool
	start   time.Time
	mu      sync.Mutex
	rnd     *rand.Rand
	over    atomic.Bool // nothing more is recorded
}

func newWorld(c *Ctx, virtual bool) *World {
	return &World{c: c, virtual: virtual, start: time.Now(), rnd: rand.New(rand.NewSource(c.Rand.Int63()))}
}

func (w *World) ev(e E) {
	if !w.over.Load() {
		w.c.Log.Ev(e)
	}
}

func (w *World) intn(n int) int { w.mu.Lock(); defer w.mu.Unlock(); return w.rnd.Intn(n) }

// bye is a closing packet: text or binary, with or without data.
func (w *World) bye() Pkt {
	return Pkt{1, w.intn(2) == 0, [][]byte{nil, nil, []byte("bye")}[w.intn(3)]}
}

func (w *World) now() int { return int(time.Since(w.start) / time.Millisecond) }

// settle lets everything that can happen now happen.
func (w *World) settle() {
	if w.virtual {
		synctest.Wait()
		return
	}
	time.Sleep(time.Duration(100+w.intn(500)) * time.Microsecond)
}

const patience = 20 * time.Second // far beyond anything that takes place without a defect

const virtualPatience = 10 * time.Minute

// await waits until cond holds, for at most d.
func (w *World) awaitFor(d time.Duration, cond func() bool) bool {
	if w.virtual {
		synctest.Wait()
	}
	end := time.Now().Add(d)
	step := 20 * time.Microsecond
	if w.virtual {
		step = 10 * time.Millisecond
	}
	for !cond() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(step)
		if w.virtual {
			synctest.Wait()
		} else if step < 2*time.Millisecond {
			step += step / 4
		}
	}
	return true
}

func (w *World) await(cond func() bool) bool {
	if w.virtual {
		return w.awaitFor(virtualPatience, cond)
	}
	return w.awaitFor(patience, cond)
}

// chunked delivers a body in pieces.
type chunked struct {
	b []byte
	n int
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := c.n
	if n > len(c.b) {
		n = len(c.b)
	}
	n = copy(p, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}

func (w *World) request(ctx context.Context, method, url string, hdr http.Header, body []byte) resp {
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
		if k := w.intn(3); k > 0 {
			rd = &chunked{body, 1 + w.intn(1+len(body)/k)}
		}
	}
	r := httptest.NewRequest(method, url, rd).WithContext(ctx)
	for k, v := range hdr {
		r.Header[k] = v
	}
	return serve(w.h, r)
}

// hijackWriter is the response writer of the little HTTP server behind WebSocket dials.
type hijackWriter struct {
	conn     net.Conn
	brw      *bufio.ReadWriter
	h        http.Header
	code     int
	body     bytes.Buffer
	hijacked bool
}

func (h *hijackWriter) Header() http.Header { return h.h }
func (h *hijackWriter) WriteHeader(c int) {
	if h.code == 0 {
		h.code = c
	}
}
func (h *hijackWriter) Write(p []byte) (int, error) {
	if h.hijacked {
		return 0, http.ErrHijacked
	}
	h.WriteHeader(200)
	return h.body.Write(p)
}
func (h *hijackWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	h.hijacked = true
	return h.conn, h.brw, nil
}

func serveConn(conn net.Conn, h http.Handler, panicked func(interface{})) {
	brw := bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
	r, err := http.ReadRequest(brw.Reader)
	if err != nil {
		conn.Close()
		return
	}
	r.RemoteAddr = "peer:1"
	w := &hijackWriter{conn: conn, brw: brw, h: http.Header{}}
	defer func() {
		if p := recover(); p != nil {
			panicked(p)
			conn.Close()
		}
	}()
	h.ServeHTTP(w, r)
	if w.hijacked {
		return
	}
	w.WriteHeader(200)
	re := http.Response{StatusCode: w.code, ProtoMajor: 1, ProtoMinor: 1, Header: w.h, Body: io.NopCloser(&w.body), ContentLength: int64(w.body.Len()), Close: true}
	re.Write(conn)
	conn.Close()
}

// dialWS opens a WebSocket to the server; status is that of the HTTP answer if it is refused.
func (w *World) dialWS(rawurl string, hdr http.Header, limit int) (*websocket.Conn, int, string) {
	a, b := memPipe(limit)
	go serveConn(b, w.h, func(p interface{}) { w.ev(E{"ev": "panic", "what": fmt.Sprint(p)}) })
	u, _ := url.Parse("ws://host" + rawurl)
	c, re, err := websocket.NewClient(a, u, hdr, 4096, 4096)
	if err != nil {
		a.Close()
		if re != nil {
			body, _ := io.ReadAll(re.Body)
			return nil, re.StatusCode, string(body)
		}
		return nil, 0, err.Error()
	}
	return c, 101, ""
}

func wsFrame(p Pkt) (int, []byte) {
	if p.Bin {
		return websocket.BinaryMessage, append([]byte{p.Type}, p.Data...)
	}
	return websocket.TextMessage, append([]byte{p.Type + '0'}, p.Data...)
}

func fromFrame(mt int, b []byte) (Pkt, bool) {
	if len(b) == 0 {
		return Pkt{}, false
	}
	p := Pkt{Type: b[0], Bin: mt == websocket.BinaryMessage, Data: b[1:]}
	if !p.Bin {
		p.Type -= '0'
	}
	return p, p.Type <= 6
}

var jsonpExp = regexp.MustCompile(`^___eio\[(\d+)\]\((".*")\);?$`)

// unjsonp evaluates a JSONP answer.
func unjsonp(body []byte, index string) ([]byte, error) {
	m := jsonpExp.FindSubmatch(bytes.TrimSpace(body))
	if m == nil || string(m[1]) != index {
		return nil, fmt.Errorf("bad jsonp %q", short(string(body)))
	}
	if bytes.ContainsAny(m[2], "\u2028\u2029") {
		return nil, fmt.Errorf("line separator in literal")
	}
	var s string
	if err := json.Unmarshal(m[2], &s); err != nil {
		return nil, err
	}
	return []byte(s), nil
}

// decodePoll decodes the answer to a poll in the given mode by the protocol.
func decodePoll(mode string, re resp) ([]Pkt, error) {
	ct := re.header.Get("Content-Type")
	b := re.body.Bytes()
	switch {
	case mode == "bin":
		if ct != "application/octet-stream" {
			return nil, fmt.Errorf("content type %q", ct)
		}
		return parseBin(b)
	case mode == "b64":
		if !strings.HasPrefix(ct, "text/plain") {
			return nil, fmt.Errorf("content type %q", ct)
		}
		return parseText(b)
	}
	if !strings.HasPrefix(ct, "text/javascript") {
		return nil, fmt.Errorf("content type %q", ct)
	}
	b, err := unjsonp(b, mode)
	if err != nil {
		return nil, err
	}
	return parseText(b)
}

func pollQuery(mode string) string {
	switch mode {
	case "bin":
		return ""
	case "b64":
		return "&b64=1"
	}
	return "&j=" + mode
}
