package harness

import (
	"bytes"
	"context"
	"fmt"
	"hash/crc32"
	"io"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/zyxar/socketio/engine"
)

func init() {
	drivers["framing"] = driveFraming
	drivers["responses"] = driveResponses
}

func pktE(p Pkt) E { return E{"type": int(p.Type), "bin": p.Bin, "data": codes(p.Data)} }

func pktOf(v interface{}) Pkt {
	m := v.(map[string]interface{})
	bin, _ := m["bin"].(bool)
	return Pkt{Type: byte(m["type"].(float64)), Bin: bin, Data: fromCodes(m["data"])}
}

func pieces(b []byte, n int) io.Reader {
	if n == 0 {
		return bytes.NewReader(b)
	}
	return &chunked{b, n}
}

func driveFraming(c *Ctx, n int, script []Op) {
	c.Log.Ev(E{"ev": "reset", "n": n})
	c.bubble(func(t *testing.T) {
		conn, err := engine.PollingAcceptor.Accept(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
		if err != nil {
			panic(err)
		}
		defer conn.Close()
		for _, o := range script {
			if o.S("op") == "bulk" {
				bulkPost(c, conn, o)
				continue
			}
			body := fromCodes(o["body"])
			ct := "text/plain; charset=UTF-8"
			if o.B("bin") {
				ct = "application/octet-stream"
			}
			done := make(chan int, 1)
			go func() {
				code, _ := do(conn.(http.Handler), "POST", "/", ct, pieces(append([]byte{}, body...), o.I("chunk")))
				done <- code
			}()
			var got []*engine.Packet
			code := -1
			for i := 0; i < 100 && code < 0; i++ {
				synctest.Wait()
				select {
				case code = <-done:
				default:
				}
				got = append(got, conn.FlushIn()...)
			}
			texts := [][]int{}
			for _, p := range got {
				var b bytes.Buffer
				p.WriteTo(&b)
				texts = append(texts, codes(b.Bytes()))
			}
			c.Log.Ev(E{"ev": "rawpost", "bin": o.B("bin"), "body": codes(body), "code": code, "got": texts})
		}
	})
}

func bulkE(p Pkt) E {
	return E{"type": int(p.Type), "bin": p.Bin, "len": len(p.Data), "sum": fmt.Sprintf("%08x", crc32.ChecksumIEEE(p.Data))}
}

// bulkPost posts packets too large to write down: what is recorded of their contents are lengths and checksums.
func bulkPost(c *Ctx, conn engine.Conn, o Op) {
	var ps []Pkt
	sent := []E{}
	for _, v := range o["ps"].([]interface{}) {
		m := v.(map[string]interface{})
		bin, _ := m["bin"].(bool)
		p := Pkt{Type: byte(m["type"].(float64)), Bin: bin, Data: make([]byte, int(m["len"].(float64)))}
		c.Rand.Read(p.Data)
		if !bin {
			for i := range p.Data {
				p.Data[i] = '!' + p.Data[i]%90
			}
		}
		ps, sent = append(ps, p), append(sent, bulkE(p))
	}
	body, ct := textPayload(ps...), "text/plain; charset=UTF-8"
	if o.B("bin") {
		body, ct = binPayload(ps...), "application/octet-stream"
	}
	cut := o.I("cut")
	body = body[:len(body)-cut]
	done := make(chan int, 1)
	go func() {
		code, _ := do(conn.(http.Handler), "POST", "/", ct, pieces(body, o.I("chunk")))
		done <- code
	}()
	got := []E{}
	for {
		synctest.Wait()
		ps := conn.FlushIn()
		if len(ps) == 0 {
			break
		}
		for _, p := range ps {
			var b bytes.Buffer
			p.WriteTo(&b)
			qs, err := parseText(b.Bytes())
			if err != nil || len(qs) != 1 {
				qs = []Pkt{{Type: 99}}
			}
			got = append(got, bulkE(qs[0]))
		}
	}
	code := -1
	select {
	case code = <-done:
	default:
	}
	c.Log.Ev(E{"ev": "bulk", "sent": sent, "cut": cut > 0, "code": code, "got": got})
}

var contentTypes = map[string][2][]string{
	"good":  {{"text/plain; charset=UTF-8", "text/plain;charset=UTF-8", "text/plain; charset=utf-8", "text/plain; charset=Utf-8"}, {"application/octet-stream"}},
	"good2": {{"Text/Plain; Charset=\"utf-8\"", "text/plain; charset=utf-8; x=y", "TEXT/PLAIN;CHARSET=uTF-8"}, {"application/octet-stream; x=1", "APPLICATION/octet-stream"}},
	"none":  {{""}, {""}},
	"json":  {{"application/json"}, {"application/json; charset=utf-8"}},
	"plain": {{"text/plain"}, {"text/plain; chars=utf-8"}},
	"latin": {{"text/plain; charset=iso-8859-1"}, {"text/plain; charset=utf-16"}},
	"odd":   {{"text/plain; charset", ";"}, {"text/plain; charset=utf-8; charset=utf-8", "/"}},
	"form":  {{"application/x-www-form-urlencoded"}, {"multipart/form-data; boundary=x"}},
	"html":  {{"text/html; charset=utf-8"}, {"application/octet"}},
}

func pollForm(mode string, form int, j []byte) string {
	e := url.QueryEscape(string(j))
	switch mode {
	case "bin":
		return []string{"", "&b64=0", "&b64="}[form]
	case "b64":
		return []string{"&b64=1", "&b64=1&j=", "&b64=1&x=2"}[form]
	}
	return []string{"&j=" + e, "&b64=1&j=" + e, "&j=" + e + "&b64=0"}[form]
}

func answer(e E, re resp) E {
	mt, params, _ := mime.ParseMediaType(re.header.Get("Content-Type"))
	e["code"], e["ct"], e["cs"], e["body"] = re.code, mt, strings.ToLower(params["charset"]), codes(re.body.Bytes())
	return e
}

func driveResponses(c *Ctx, n int, script []Op) {
	c.Log.Ev(E{"ev": "reset", "n": n})
	c.bubble(func(t *testing.T) {
		w := newWorld(c, true)
		opened := make(chan *engine.Socket, 1)
		srv, err := engine.NewServer(25*time.Second, 60*time.Second, func(s *engine.Socket) { opened <- s })
		if err != nil {
			panic(err)
		}
		defer srv.Close()
		w.h = srv
		rx := func(typ byte) engine.Callable {
			return engine.Callback(func(_ *engine.Socket, mt engine.MessageType, data []byte) {
				w.ev(E{"ev": "rx", "p": pktE(Pkt{Type: typ, Bin: mt == engine.MessageTypeBinary, Data: append([]byte{}, data...)})})
			})
		}
		srv.On(engine.EventMessage, rx(4))
		srv.On(engine.EventPing, rx(2))
		mode, j, form := []string{"bin", "b64", "jsonp"}[w.intn(3)], []byte{}, w.intn(3)
		if mode == "jsonp" {
			j = []byte("3")
		}
		re := w.request(context.Background(), "GET", "/?EIO=3&transport=polling"+pollForm(mode, form, j), nil, nil)
		w.ev(answer(E{"ev": "open", "mode": mode, "j": codes(j)}, re))
		so := <-opened
		at := "/?EIO=3&transport=polling&sid=" + so.Sid()
		var waiting chan resp
		polls := 0
		poll := func(mode string, form int, j []byte) {
			polls++
			w.ev(E{"ev": "poll", "mode": mode, "j": codes(j)})
			ch := make(chan resp, 1)
			go func() {
				ctx, stop := context.WithCancel(context.Background())
				defer stop()
				ch <- w.request(ctx, "GET", at+pollForm(mode, form, j), nil, nil)
			}()
			waiting = ch
		}
		look := func() {
			w.settle()
			if waiting == nil {
				return
			}
			select {
			case re := <-waiting:
				waiting = nil
				w.ev(answer(E{"ev": "res"}, re))
			default:
				w.ev(E{"ev": "idle"})
			}
		}
		send := func(p Pkt) {
			mt := engine.MessageTypeString
			if p.Bin {
				mt = engine.MessageTypeBinary
			}
			w.ev(E{"ev": "send", "p": pktE(p), "ok": so.Emit(engine.EventMessage, mt, p.Data) == nil})
			look()
		}
		for _, o := range script {
			switch o.S("op") {
			case "send":
				send(pktOf(o["p"]))
			case "poll":
				if waiting == nil {
					poll(o.S("mode"), o.I("form"), fromCodes(o["j"]))
					look()
				}
			case "method":
				re := w.request(context.Background(), o.S("m"), at, http.Header{"Content-Type": {"text/plain; charset=UTF-8"}}, []byte("2:4x"))
				w.ev(E{"ev": "method", "m": o.S("m"), "code": re.code})
				look()
			case "post":
				body := fromCodes(o["body"])
				k := 0
				if o.B("bin") {
					k = 1
				}
				forms := contentTypes[o.S("ct")][k]
				w.ev(E{"ev": "post", "bin": o.B("bin"), "body": codes(body), "ct": o.S("ct")})
				r := httptest.NewRequest("POST", at, pieces(body, o.I("chunk")))
				r.Header.Set("Content-Type", forms[w.intn(len(forms))])
				re := serve(w.h, r)
				w.ev(E{"ev": "posted", "code": re.code, "why": short(re.body.String())})
				w.settle()
				w.ev(E{"ev": "settled"})
				look()
			}
		}
		// take what is left
		for i := 0; i < 100; i++ {
			if waiting == nil {
				poll("bin", 0, nil)
				look()
			}
			if waiting != nil {
				break
			}
		}
		send(Pkt{Type: 4, Data: []byte("last")})
		if waiting != nil {
			w.over.Store(true)
		}
		w.ev(E{"ev": "end", "polls": polls})
		w.over.Store(true)
		so.Close()
		if waiting != nil {
			<-waiting
		}
	})
}

var _ = fmt.Sprint
