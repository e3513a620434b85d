package harness

import (
	"context"
	"fmt"
	"net/http"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

func init() { drivers["headers"] = driveHeaders }

// headed is what has headers.
type headed interface {
	GetHeader(string) string
	SetHeader(string, string)
}

func inCase(n string, k int) string {
	switch k {
	case 0:
		return n
	case 1:
		return http.CanonicalHeaderKey(n)
	case 2:
		return strings.ToUpper(n)
	}
	b := []byte(n)
	for i := range b {
		if i%2 == 1 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

func (w *World) headersOf(v interface{}) (http.Header, []E) {
	h, q := http.Header{}, []E{}
	for _, x := range v.([]interface{}) {
		m := x.(map[string]interface{})
		h.Add(inCase(m["n"].(string), w.intn(4)), m["v"].(string))
		q = append(q, E{"n": m["n"], "v": m["v"]})
	}
	// what a map of headers says comes in the order of the names only
	return h, q
}

type hsession struct {
	sid  string
	s, c headed
	own  http.Header
	copy http.Header
	end  func()
}

func driveHeaders(c *Ctx, n int, script []Op) {
	c.Log.Ev(E{"ev": "reset", "n": n})
	client := false
	for _, o := range script {
		client = client || o.S("tr") == "client"
	}
	if client {
		runHeaders(c, n, script, false)
	} else {
		c.bubble(func(t *testing.T) { runHeaders(c, n, script, true) })
	}
}

func runHeaders(c *Ctx, n int, script []Op, virtual bool) {
	w := newWorld(c, virtual)
	type op struct {
		sid string
		h   headed
	}
	opened := make(chan op, 16)
	if n%2 == 0 {
		srv, err := engine.NewServer(25*time.Second, 60*time.Second, func(s *engine.Socket) { opened <- op{s.Sid(), s} })
		if err != nil {
			panic(err)
		}
		defer srv.Close()
		w.h = srv
	} else {
		srv, err := socketio.NewServer(25*time.Second, 60*time.Second, socketio.DefaultParser)
		if err != nil {
			panic(err)
		}
		defer srv.Close()
		srv.Namespace("/").OnConnect(func(so socketio.Socket) { opened <- op{so.Sid(), so} })
		w.h = srv
	}
	addr := ""
	if !virtual {
		srv, a := w.tcpServer()
		defer srv.Close()
		addr = a
	}
	ss := map[int]*hsession{}
	var ends []func()
	req := func(method, target string, h http.Header, body []byte, wait bool) resp {
		ctx, cancel := context.WithCancel(context.Background())
		ch := make(chan resp, 1)
		go func() { ch <- w.request(ctx, method, target, h, body) }()
		if wait {
			r := <-ch
			cancel()
			return r
		}
		synctest.Wait()
		cancel()
		return <-ch
	}
	drain := func(x *websocket.Conn) {
		for {
			if _, _, err := x.ReadMessage(); err != nil {
				return
			}
		}
	}
	for _, o := range script {
		s := o.I("s")
		x := ss[s]
		switch o.S("op") {
		case "open":
			h, q := w.headersOf(o["q"])
			x = &hsession{}
			switch o.S("tr") {
			case "polling":
				req("GET", "/?EIO=3&transport=polling", h, nil, true)
			case "websocket":
				ws, code, why := w.dialWS("/?EIO=3&transport=websocket", h, 0)
				if code != 101 {
					panic(fmt.Sprint(code, why))
				}
				go drain(ws)
				ends = append(ends, func() { ws.Close() })
			case "client":
				if len(h) == 0 && w.intn(2) == 0 {
					h = nil
				}
				x.own, x.copy = h, h.Clone()
				if n%2 == 0 {
					cl, err := engine.Dial(addr+"/engine.io/", h, engine.WebsocketTransport)
					if err != nil {
						panic(err)
					}
					x.c = cl
					ends = append(ends, func() { cl.Close() })
				} else {
					cl := socketio.NewClient()
					if err := cl.Dial(addr+"/socket.io/", h, engine.WebsocketTransport, socketio.DefaultParser); err != nil {
						panic(err)
					}
					x.c = cl
					ends = append(ends, func() { cl.Close() })
				}
				w.ev(E{"ev": "open", "s": s + 10, "q": q})
			}
			y := <-opened
			x.sid, x.s = y.sid, y.h
			ss[s] = x
			w.ev(E{"ev": "open", "s": s, "q": q})
		case "set", "get":
			at, id := x.s, s
			if o.S("at") == "c" && x.c != nil {
				at, id = x.c, s+10
			}
			if o.S("op") == "set" {
				at.SetHeader(inCase(o.S("n"), o.I("case")), o.S("v"))
				w.ev(E{"ev": "set", "s": id, "n": o.S("n"), "v": o.S("v")})
			} else {
				w.ev(E{"ev": "get", "s": id, "n": o.S("n"), "v": at.GetHeader(inCase(o.S("n"), o.I("case")))})
			}
			if x.c != nil {
				w.ev(E{"ev": "own", "s": s, "same": len(x.own) == 0 && len(x.copy) == 0 || reflect.DeepEqual(x.own, x.copy)})
			}
		case "poll":
			h, _ := w.headersOf(o["q"])
			req("GET", "/?EIO=3&transport=polling&sid="+x.sid, h, nil, false)
		case "post":
			h, _ := w.headersOf(o["q"])
			h.Set("Content-Type", "text/plain; charset=UTF-8")
			req("POST", "/?EIO=3&transport=polling&sid="+x.sid, h, []byte("1:6"), true)
		case "failed":
			h, _ := w.headersOf(o["q"])
			ws, code, _ := w.dialWS("/?EIO=3&transport=websocket&sid="+x.sid, h, 0)
			if code == 101 {
				if w.intn(2) == 0 {
					ws.WriteMessage(websocket.TextMessage, []byte("2probe"))
					ws.ReadMessage()
					ws.WriteMessage(websocket.TextMessage, []byte("4no"))
				} else {
					ws.WriteMessage(websocket.TextMessage, []byte("5"))
				}
				drain(ws)
				ws.Close()
			}
			synctest.Wait()
		case "upgrade":
			h, q := w.headersOf(o["q"])
			sets := []E{}
			var wg sync.WaitGroup
			ws, code, why := w.dialWS("/?EIO=3&transport=websocket&sid="+x.sid, h, 0)
			if code != 101 {
				panic(fmt.Sprint(code, why))
			}
			wg.Add(1)
			for _, v := range o["sets"].([]interface{}) {
				m := v.(map[string]interface{})
				sets = append(sets, E{"n": m["n"], "v": m["v"]})
			}
			go func() {
				defer wg.Done()
				for _, m := range sets {
					for i := w.intn(400); i > 0; i-- {
						runtime.Gosched()
					}
					x.s.SetHeader(inCase(m["n"].(string), w.intn(4)), m["v"].(string))
				}
			}()
			ws.WriteMessage(websocket.TextMessage, []byte("2probe"))
			ws.ReadMessage()
			ws.WriteMessage(websocket.TextMessage, []byte("5"))
			wg.Wait()
			go drain(ws)
			synctest.Wait()
			ends = append(ends, func() { ws.Close() })
			w.ev(E{"ev": "upgrade", "s": s, "q": q, "sets": sets})
		}
	}
	w.over.Store(true)
	for _, s := range ss {
		if y, ok := s.s.(interface{ Close() error }); ok {
			y.Close()
		}
	}
	for _, f := range ends {
		f()
	}
	if virtual {
		synctest.Wait()
		time.Sleep(5 * time.Minute)
	}
}
