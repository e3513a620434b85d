package harness

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

func init() { drivers["admission"] = driveAdmission }

type originCheck []string

func (o originCheck) CheckOrigin(r *http.Request) bool {
	for _, s := range o {
		if s == "any" || s == r.Header.Get("Origin") {
			return true
		}
	}
	return false
}

// admitted is a session a handshake has created.
type admitted struct {
	sid, tr string
	end     func()
	ws      *websocket.Conn
	gone    bool
}

type gate struct {
	*World
	mu     sync.Mutex
	opened []string
	ends   map[string]func()
	live   []*admitted
	gone   []*admitted
}

func (g *gate) opens(sid string, end func()) {
	g.mu.Lock()
	g.opened = append(g.opened, sid)
	g.ends[sid] = end
	g.mu.Unlock()
}

func (g *gate) takeOpened() [][]int {
	g.mu.Lock()
	defer g.mu.Unlock()
	r := [][]int{}
	for _, s := range g.opened {
		r = append(r, codes([]byte(s)))
	}
	g.opened = nil
	return r
}

// result is what came back for one request.
type result struct {
	mode   string
	code   int
	text   []byte
	mu     sync.Mutex
	frames []Pkt
	gone   bool
	ws     *websocket.Conn
	cancel context.CancelFunc
	done   bool
}

func sidOf(open []byte) string {
	var p struct {
		Sid string `json:"sid"`
	}
	json.Unmarshal(open, &p)
	return p.Sid
}

// sid is the session id announced, if any; the specification judges the rest of the answer.
func (r *result) sid() string {
	switch {
	case r.mode == "ws" && len(r.frames) > 0:
		return sidOf(r.frames[0].Data)
	case r.mode == "ws":
		return ""
	}
	m := r.mode
	if m == "jsonp" {
		m = "4"
	}
	b := r.text
	if m == "bin" {
		if ps, err := parseBin(b); err == nil && len(ps) > 0 {
			return sidOf(ps[0].Data)
		}
		return ""
	}
	if m == "4" {
		b, _ = unjsonp(b, m)
	}
	if ps, err := parseText(b); err == nil && len(ps) > 0 {
		return sidOf(ps[0].Data)
	}
	return ""
}

func (r *result) event(opened [][]int) E {
	r.mu.Lock()
	defer r.mu.Unlock()
	fs := []E{}
	for _, f := range r.frames {
		fs = append(fs, pktE(f))
	}
	e := E{"mode": r.mode, "code": r.code, "text": []int{}, "body": len(r.text), "frames": fs, "gone": r.gone, "sid": codes([]byte(r.sid())), "opened": opened}
	if r.code == 200 {
		e["text"] = codes(r.text)
	}
	return e
}

// send starts a request and collects what comes of it.
func (g *gate) send(method, target string, ws bool, hs string, hdr http.Header, mode string) *result {
	r := &result{mode: mode}
	ctx, cancel := context.WithCancel(context.Background())
	r.cancel = cancel
	if !ws {
		go func() {
			q := httptest.NewRequest("GET", target, nil).WithContext(ctx)
			q.Method = method
			for k, v := range hdr {
				q.Header[k] = v
			}
			re := serve(g.h, q)
			r.mu.Lock()
			if !r.done {
				r.code, r.text, r.done = re.code, re.body.Bytes(), true
			}
			r.mu.Unlock()
		}()
		return r
	}
	a, b := memPipe(0)
	go serveConn(b, g.h, func(p interface{}) { g.ev(E{"ev": "panic", "what": fmt.Sprint(p)}) })
	if method == "GET" && hs == "good" {
		r.mode = "ws"
		go func() {
			u, _ := url.Parse("ws://host" + target)
			c, re, err := websocket.NewClient(a, u, hdr, 4096, 4096)
			r.mu.Lock()
			defer r.mu.Unlock()
			if err != nil {
				a.Close()
				r.done = true
				if re != nil {
					r.code = re.StatusCode
					r.text, _ = io.ReadAll(re.Body)
				}
				return
			}
			r.code, r.ws = 101, c
			go func() {
				for {
					mt, data, err := c.ReadMessage()
					r.mu.Lock()
					if err != nil {
						r.gone = true
						r.mu.Unlock()
						return
					}
					if p, ok := fromFrame(mt, data); ok {
						r.frames = append(r.frames, p)
					} else {
						r.frames = append(r.frames, Pkt{Type: 99})
					}
					r.mu.Unlock()
				}
			}()
		}()
		return r
	}
	go func() {
		defer a.Close()
		h := http.Header{"Connection": {"Upgrade"}, "Upgrade": {"websocket"}, "Sec-Websocket-Version": {"13"}, "Sec-Websocket-Key": {"dGhlIHNhbXBsZSBub25jZQ=="}}
		switch hs {
		case "noupgrade":
			h.Del("Upgrade")
		case "noconn":
			h.Del("Connection")
		case "badver":
			h.Set("Sec-Websocket-Version", "12")
		case "nokey":
			h.Del("Sec-Websocket-Key")
		}
		for k, v := range hdr {
			h[k] = v
		}
		fmt.Fprintf(a, "%s %s HTTP/1.1\r\nHost: host\r\n", method, target)
		h.Write(a)
		io.WriteString(a, "\r\n")
		re, err := http.ReadResponse(bufio.NewReader(a), &http.Request{Method: method})
		if err != nil {
			return
		}
		text, _ := io.ReadAll(re.Body)
		r.mu.Lock()
		r.code, r.text, r.done = re.StatusCode, text, true
		r.mu.Unlock()
	}()
	return r
}

func (g *gate) keep(r *result, tr string) {
	sid := r.sid()
	if r.code != 200 && r.code != 101 || sid == "" {
		if r.ws != nil {
			r.ws.Close()
		}
		return
	}
	g.mu.Lock()
	end := g.ends[sid]
	g.mu.Unlock()
	if end == nil {
		end = func() {}
	}
	g.live = append(g.live, &admitted{sid: sid, tr: tr, end: end, ws: r.ws})
}

func driveAdmission(c *Ctx, n int, script []Op) {
	c.bubble(func(t *testing.T) {
		g := &gate{World: newWorld(c, true), ends: map[string]func(){}}
		cfg := script[0]
		interval, timeout := time.Duration(cfg.I("interval"))*time.Millisecond, time.Duration(cfg.I("timeout"))*time.Millisecond
		var ocs []engine.OriginChecker
		checks := [][]string{}
		for _, v := range cfg["checks"].([]interface{}) {
			list := []string{}
			for _, s := range v.([]interface{}) {
				list = append(list, s.(string))
			}
			checks = append(checks, list)
			ocs = append(ocs, originCheck(list))
		}
		for i := 0; i < cfg.I("nils"); i++ {
			k := g.intn(len(ocs) + 1)
			ocs = append(ocs[:k], append([]engine.OriginChecker{nil}, ocs[k:]...)...)
		}
		g.c.Log.Ev(E{"ev": "reset", "n": n, "interval": cfg.I("interval"), "timeout": cfg.I("timeout"), "checks": checks})
		var shut func() error
		if n%2 == 0 {
			srv, err := engine.NewServer(interval, timeout, func(s *engine.Socket) { g.opens(s.Sid(), func() { s.Close() }) }, ocs...)
			if err != nil {
				panic(err)
			}
			g.h, shut = srv, srv.Close
		} else {
			srv, err := socketio.NewServer(interval, timeout, socketio.DefaultParser, ocs...)
			if err != nil {
				panic(err)
			}
			srv.Namespace("/").OnConnect(func(so socketio.Socket) { g.opens(so.Sid(), func() { so.Close() }) })
			g.h, shut = srv, srv.Close
		}
		defer shut()
		end := func(a *admitted, how string) {
			switch how {
			case "app":
				a.end()
			case "peer":
				if a.ws != nil {
					if g.intn(2) == 0 {
						a.ws.WriteMessage(websocket.TextMessage, []byte("1"))
					}
					a.ws.Close()
				} else {
					g.request(context.Background(), "POST", "/?EIO=3&transport=polling&sid="+a.sid, http.Header{"Content-Type": {"text/plain; charset=UTF-8"}}, []byte("1:1"))
				}
			}
			synctest.Wait()
			if a.ws != nil {
				a.ws.Close()
			}
			synctest.Wait()
		}
		for _, o := range script[1:] {
			switch o.S("op") {
			case "close":
				g.ev(E{"ev": "close"})
				shut()
				synctest.Wait()
			case "end":
				if o.S("how") == "time" {
					time.Sleep(interval + timeout + time.Second)
					synctest.Wait()
					for _, a := range g.live {
						if a.ws != nil {
							a.ws.Close()
						}
					}
					g.gone, g.live = append(g.gone, g.live...), nil
				} else if k := len(g.live); k > 0 {
					k = o.I("which") % k
					a := g.live[k]
					end(a, o.S("how"))
					g.live = append(g.live[:k:k], g.live[k+1:]...)
					g.gone = append(g.gone, a)
				}
				synctest.Wait()
				g.ev(E{"ev": "end", "opened": len(g.takeOpened())})
			case "req":
				sid, kind, on := "", "none", "none"
				if strings.HasPrefix(o.S("sid"), "live") && len(g.live) > 0 {
					a := g.live[o.I("which")%len(g.live)]
					sid, kind, on = a.sid, "live", a.tr
				} else if !strings.HasPrefix(o.S("sid"), "none") {
					kind = "gone"
					known := "016ZK9B4S0HT8C0Q7Z4N5YB3KM"
					if len(g.live) > 0 {
						known = g.live[o.I("which")%len(g.live)].sid
					} else if len(g.gone) > 0 {
						known = g.gone[o.I("which")%len(g.gone)].sid
					}
					sid = "016ZK9B4S0HT8C0Q7Z4N5YB3KM"
					switch how := o.S("how"); {
					case how == "suffix":
						sid = known + "0"
					case how == "prefix":
						sid = known[:len(known)-1]
					case how == "lower" && strings.ToLower(known) != known:
						sid = strings.ToLower(known)
					case how == "spaces":
						sid = known + " "
					case how == "long":
						sid = strings.Repeat(known, 300)
					case how == "utf8":
						sid = "\u00e9\U0001f600"
					case strings.HasPrefix(how, "ended") && len(g.gone) > 0:
						sid = g.gone[o.I("which")%len(g.gone)].sid
					}
				}
				mode := o.S("mode")
				q := url.Values{}
				if o.S("eio") != "" || g.intn(2) == 0 {
					q.Set("EIO", o.S("eio"))
				}
				if o.S("tr") != "" || g.intn(2) == 0 {
					q.Set("transport", o.S("tr"))
				}
				if sid != "" || g.intn(2) == 0 {
					q.Set("sid", sid)
				}
				switch mode {
				case "b64":
					q.Set("b64", "1")
				case "jsonp":
					q.Set("j", "4")
				}
				hdr := http.Header{}
				if o.S("origin") != "" {
					hdr.Set("Origin", o.S("origin"))
				}
				ws := o.S("tr") == "websocket"
				r := g.send(o.S("method"), "/?"+q.Encode(), ws, o.S("hs"), hdr, mode)
				synctest.Wait()
				r.mu.Lock()
				waiting := !r.done
				r.done = true
				r.mu.Unlock()
				rq := E{"method": o.S("method"), "eio": o.S("eio"), "tr": o.S("tr"), "sid": kind, "on": on, "origin": o.S("origin"), "ws": ws && o.S("hs") == "good"}
				g.ev(E{"ev": "req", "r": rq, "id": short(sid), "a": r.event(g.takeOpened())})
				r.cancel()
				if waiting {
					synctest.Wait()
				}
				if kind == "none" {
					g.keep(r, o.S("tr"))
				} else if r.ws != nil {
					r.ws.Close()
				}
				synctest.Wait()
			case "crowd":
				crowd(g, n, o)
			case "burst":
				var rs []*result
				qs := []E{}
				closing := make(chan struct{})
				for i := 0; i < o.I("n"); i++ {
					tr, eio := "polling", "3"
					if o.I("ws") == 1 || o.I("ws") == 2 && i%2 == 0 {
						tr = "websocket"
					}
					if o.B("junk") && i%3 == 2 {
						eio = "4"
					}
					hdr := http.Header{}
					if o.S("origin") != "" {
						hdr.Set("Origin", o.S("origin"))
					}
					rs = append(rs, g.send("GET", "/?EIO="+eio+"&transport="+tr, tr == "websocket", "good", hdr, "bin"))
					qs = append(qs, E{"method": "GET", "eio": eio, "tr": tr, "sid": "none", "on": "none", "origin": o.S("origin"), "ws": tr == "websocket"})
					if o.B("race") && i == o.I("n")/2 {
						go func() { shut(); close(closing) }()
					}
				}
				synctest.Wait()
				if o.B("race") {
					<-closing
					synctest.Wait()
				}
				opened := map[string]int{}
				for _, s := range g.takeOpened() {
					opened[string(fromInts(s))]++
				}
				as := []E{}
				for i, r := range rs {
					mine := [][]int{}
					for k := 0; k < opened[r.sid()]; k++ {
						mine = append(mine, codes([]byte(r.sid())))
					}
					delete(opened, r.sid())
					as = append(as, r.event(mine))
					r.cancel()
					g.keep(r, qs[i]["tr"].(string))
				}
				g.ev(E{"ev": "burst", "rs": qs, "as": as, "race": o.B("race"), "stray": len(opened)})
			}
		}
		g.over.Store(true)
		for _, a := range g.live {
			a.end()
			if a.ws != nil {
				a.ws.Close()
			}
		}
		synctest.Wait()
	})
}

// crowd has many sessions open at once on a server of their own: each is admitted with an id of its own and each gets its echo.
func crowd(g *gate, n int, o Op) {
	k := o.I("n")
	var mu sync.Mutex
	opened := map[string]int{}
	open := func(sid string) {
		mu.Lock()
		opened[sid]++
		mu.Unlock()
	}
	gate := make(chan struct{})
	flood := 0
	if o.B("mess") { // one session whose handler does not return, one whose client takes nothing
		flood = 40
	}
	react := func(what string, emit func(string)) {
		switch what {
		case "block":
			<-gate
		case "flood":
			for i := 0; i < flood; i++ {
				emit(fmt.Sprintf("f%d", i))
			}
		}
		emit(what)
	}
	var h http.Handler
	var meanwhile func() // something done to the server
	say := func(what string) string { return "4" + what }
	if n%2 == 0 {
		srv, err := engine.NewServer(time.Minute, time.Minute, func(s *engine.Socket) {
			open(s.Sid())
		})
		if err != nil {
			panic(err)
		}
		srv.On(engine.EventMessage, engine.Callback(func(s *engine.Socket, typ engine.MessageType, data []byte) {
			react(string(data), func(what string) { s.Emit(engine.EventMessage, typ, []byte(what)) })
		}))
		meanwhile = func() { srv.On(engine.EventPing, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) {})) }
		defer srv.Close()
		h = srv
	} else {
		srv, err := socketio.NewServer(time.Minute, time.Minute, socketio.DefaultParser)
		if err != nil {
			panic(err)
		}
		defer srv.Close()
		srv.Namespace("/").OnConnect(func(so socketio.Socket) { open(so.Sid()) }).OnEvent("say", func(so socketio.Socket, what string) {
			react(what, func(what string) { so.Emit("say", what) })
		})
		meanwhile = func() { srv.Namespace("/later") }
		say = func(what string) string { return `42["say","` + what + `"]` }
		h = srv
	}
	all := func(f func(i int)) {
		var wg sync.WaitGroup
		for i := 0; i < k; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				f(i)
			}(i)
		}
		if !await(&wg) {
			g.ev(E{"ev": "stuck"})
		}
	}
	sids := make([]string, k)
	all(func(i int) {
		re := serve(h, httptest.NewRequest("GET", "/?EIO=3&transport=polling&b64=1", nil))
		if ps, err := parseText(re.body.Bytes()); re.code == 200 && err == nil && len(ps) == 1 {
			sids[i] = sidOf(ps[0].Data)
		}
	})
	synctest.Wait()
	distinct := map[string]bool{}
	ok := 0
	for _, s := range sids {
		if s != "" {
			ok++
			distinct[s] = true
		}
	}
	mu.Lock()
	once := 0
	for s := range distinct {
		if opened[s] == 1 {
			once++
		}
	}
	calls := len(opened)
	mu.Unlock()
	posted, right := make([]bool, k), make([]bool, k)
	post := func(i int, body string) bool {
		q := httptest.NewRequest("POST", "/?EIO=3&transport=polling&sid="+sids[i], strings.NewReader(fmt.Sprintf("%d:%s", len(body), body)))
		q.Header.Set("Content-Type", "text/plain; charset=UTF-8")
		return serve(h, q).code == 200
	}
	poll := func(i int, want []string) bool { // until all of want has come, in its order
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		defer cancel()
		for ctx.Err() == nil && len(want) > 0 {
			re := serve(h, httptest.NewRequest("GET", "/?EIO=3&transport=polling&b64=1&sid="+sids[i], nil).WithContext(ctx))
			ps, err := parseText(re.body.Bytes())
			if re.code != 200 || err != nil || len(ps) == 0 {
				break
			}
			for _, p := range ps {
				if len(want) > 0 && strings.TrimSpace(string(append([]byte{'0' + p.Type}, p.Data...))) == want[0] {
					want = want[1:]
				}
			}
		}
		return len(want) == 0
	}
	first := 0
	if flood > 0 {
		first = 2
		go func() { posted[0] = post(0, say("block")) }()
		go func() { posted[1] = post(1, say("flood")) }()
		synctest.Wait()
		go meanwhile()
	}
	all(func(i int) {
		if i >= first {
			posted[i] = post(i, say(sids[i]))
		}
	})
	synctest.Wait()
	all(func(i int) {
		if i >= first {
			right[i] = poll(i, []string{say(sids[i])})
		}
	})
	if flood > 0 {
		close(gate)
		right[0] = poll(0, []string{say("block")})
		want := []string{}
		for i := 0; i < flood; i++ {
			want = append(want, say(fmt.Sprintf("f%d", i)))
		}
		right[1] = poll(1, append(want, say("flood")))
		synctest.Wait()
	}
	all(func(i int) { post(i, "1") })
	count := func(bs []bool) (c int) {
		for _, b := range bs {
			if b {
				c++
			}
		}
		return
	}
	g.ev(E{"ev": "crowd", "n": k, "ok": ok, "ids": len(distinct), "calls": calls, "once": once, "posted": count(posted), "right": count(right)})
}

// await waits for wg, but not for ever.
func await(wg *sync.WaitGroup) bool {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(10 * time.Second):
		return false
	}
}

func fromInts(v []int) []byte {
	b := make([]byte, len(v))
	for i, x := range v {
		b[i] = byte(x)
	}
	return b
}
