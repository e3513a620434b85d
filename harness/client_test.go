package harness

import (
	"errors"
	"fmt"
	"net/http"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

func init() { drivers["client"] = driveClient }

var typeNo = map[string]byte{"open": 0, "close": 1, "ping": 2, "pong": 3, "message": 4, "upgrade": 5, "noop": 6, "unknown": 7}

// cliw is an engine.Client and the server it dials, which is the harness.
type cliw struct {
	*World
	mu      sync.Mutex
	ws      *websocket.Conn
	c       *engine.Client
	ms      map[string]int
	n       int
	dropped bool
	closeCb bool // close in the next message callback
	heard   time.Time
	begun   time.Time
	pings   int
	int_    time.Duration
	tmo     time.Duration
	over    bool
}

func (w *cliw) lock(f func()) { w.mu.Lock(); defer w.mu.Unlock(); f() }

func (w *cliw) log(e E) {
	e["at"] = w.now()
	w.ev(e)
}

func openJSON(class, sid string, i, t int) string {
	switch class {
	case "params":
		return fmt.Sprintf(`{"sid":%q,"upgrades":[],"pingInterval":%d,"pingTimeout":%d}`, sid, i, t)
	case "truncated":
		return fmt.Sprintf(`{"sid":%q,"upgrades":[],"pingInterval":%d,`, sid, i)
	case "array":
		return fmt.Sprintf(`[%q,[],%d,%d]`, sid, i, t)
	case "string":
		return fmt.Sprintf(`%q`, sid)
	case "number":
		return "17"
	case "badsid":
		return fmt.Sprintf(`{"sid":17,"upgrades":[],"pingInterval":%d,"pingTimeout":%d}`, i, t)
	case "badint":
		return fmt.Sprintf(`{"sid":%q,"upgrades":[],"pingInterval":"%d","pingTimeout":%d}`, sid, i, t)
	case "badtmo":
		return fmt.Sprintf(`{"sid":%q,"upgrades":[],"pingInterval":%d,"pingTimeout":[%d]}`, sid, i, t)
	case "badupg":
		return fmt.Sprintf(`{"sid":%q,"upgrades":5,"pingInterval":%d,"pingTimeout":%d}`, sid, i, t)
	case "garbage":
		return "\x00\xff{{"
	case "trailing":
		return fmt.Sprintf(`{"sid":%q,"upgrades":[],"pingInterval":%d,"pingTimeout":%d}x`, sid, i, t)
	}
	return ""
}

func (w *cliw) payload(m int) (bool, []byte) {
	b := []byte(fmt.Sprintf("message %d ", m))
	for n := w.intn(4) * w.intn(400); n > 0; n-- {
		b = append(b, byte('a'+n%26))
	}
	return w.intn(2) == 0, b
}

func (w *cliw) newMsg() (int, Pkt) {
	w.mu.Lock()
	w.n++
	m := w.n
	w.mu.Unlock()
	bin, b := w.payload(m)
	w.lock(func() { w.ms[fmt.Sprint(bin)+string(b)] = m })
	return m, Pkt{Type: 4, Bin: bin, Data: b}
}

func (w *cliw) which(bin bool, b []byte) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if m, ok := w.ms[fmt.Sprint(bin)+string(b)]; ok {
		return m
	}
	return -1
}

func (w *cliw) write(p Pkt) {
	mt, b := wsFrame(p)
	w.ws.WriteMessage(mt, b)
}

// serve is the reading side of the server.
func (w *cliw) serve() {
	for {
		mt, b, err := w.ws.ReadMessage()
		if err != nil {
			w.lock(func() {
				if !w.dropped {
					w.log(E{"ev": "peerend"})
				}
			})
			w.ws.UnderlyingConn().Close()
			return
		}
		f, ok := fromFrame(mt, b)
		switch {
		case !ok:
			w.log(E{"ev": "garbage"})
		case f.Type == 2:
			w.lock(func() { w.pings++ })
			w.log(E{"ev": "ping"})
		case f.Type == 4:
			w.log(E{"ev": "got", "m": w.which(f.Bin, f.Data)})
		case f.Type == 1: // a client may say goodbye
		default:
			w.log(E{"ev": "unexpected", "t": int(f.Type), "bin": f.Bin, "data": strconv.QuoteToASCII(string(f.Data))})
		}
	}
}

func (w *cliw) tx(t string) {
	m, p := 0, Pkt{Type: typeNo[t]}
	switch t {
	case "message":
		m, p = w.newMsg()
	case "ping":
		p.Data = []byte("x")
	}
	w.lock(func() {
		w.heard = time.Now()
		w.log(E{"ev": "tx", "t": t, "m": m})
	})
	w.write(p)
}

func (w *cliw) drop() {
	w.lock(func() {
		w.dropped = true
		w.log(E{"ev": "drop"})
	})
	w.ws.UnderlyingConn().Close()
}

func (w *cliw) dial(o Op) {
	i, t := o.I("int"), o.I("tmo")
	w.int_, w.tmo = time.Duration(i)*time.Millisecond, time.Duration(t)*time.Millisecond
	sid := "sid " + strconv.Itoa(w.intn(1000))
	var wg sync.WaitGroup
	wg.Add(1)
	d := &memDialer{peer: func(ws *websocket.Conn, hdr http.Header) {
		w.ws = ws
		w.heard, w.begun = time.Now(), time.Now()
		first := func() {
			w.lock(func() {
				w.log(E{"ev": "first", "t": o.S("t"), "json": o.S("json"), "sid": sid, "int": i, "tmo": t})
			})
		}
		switch o.S("how") {
		case "packet":
			first()
			w.write(Pkt{Type: typeNo[o.S("t")], Data: []byte(openJSON(o.S("json"), sid, i, t))})
			for n := 0; n < o.I("early"); n++ {
				w.tx("message")
			}
		case "unknown":
			o["t"] = "unknown"
			first()
			w.write(Pkt{Type: 7, Data: []byte(openJSON("params", sid, i, t))})
		case "badframe":
			o["t"] = "none"
			first()
			ws.UnderlyingConn().Write([]byte{0xff, 0xff, 0xff, 0xff})
		case "drop":
			w.lock(func() {
				w.dropped = true
				w.log(E{"ev": "refuse"})
			})
			ws.UnderlyingConn().Close()
		}
		if o.S("how") == "packet" {
			switch o.S("after") {
			case "drop":
				w.drop()
			case "close":
				w.lock(func() { w.log(E{"ev": "tx", "t": "close", "m": 0}) })
				w.write(w.bye())
			}
		}
		wg.Done()
		w.serve()
	}}
	if o.S("how") == "refuse" {
		w.log(E{"ev": "refuse"})
		d.refuse = errors.New("refused")
		wg.Done()
	}
	good := o.S("how") == "packet" && o.S("t") == "open" && o.S("json") == "params"
	if !good && w.intn(2) == 0 {
		c := socketio.NewClient()
		err := c.Dial("ws://host/", nil, d, socketio.DefaultParser)
		wg.Wait()
		w.log(E{"ev": "dialled", "ok": err == nil, "sid": ""})
		w.over = true
		return
	}
	c, err := engine.Dial("ws://host/", nil, d, func(c *engine.Client) {
		c.On(engine.EventMessage, engine.Callback(func(ß *engine.Socket, kind engine.MessageType, data []byte) {
			w.log(E{"ev": "recv", "m": w.which(kind == engine.MessageTypeBinary, data)})
			w.mu.Lock()
			cl := w.closeCb
			w.closeCb = false
			w.mu.Unlock()
			if cl {
				w.log(E{"ev": "close"})
				c.Close()
			}
		}))
		c.On(engine.EventClose, engine.Callback(func(ß *engine.Socket, _ engine.MessageType, _ []byte) {
			w.log(E{"ev": "closecb"})
		}))
	})
	wg.Wait()
	if err != nil {
		w.log(E{"ev": "dialled", "ok": false, "sid": ""})
		w.over = true
		return
	}
	w.c = c
	w.log(E{"ev": "dialled", "ok": true, "sid": c.Sid()})
}

func (w *cliw) send() {
	m, p := w.newMsg()
	kind := engine.MessageTypeString
	if p.Bin {
		kind = engine.MessageTypeBinary
	}
	w.settle()
	// in a settled world the result is known; the other end may see the message before Emit returns
	if !w.over {
		w.log(E{"ev": "sent", "m": m, "ok": true})
		if w.c.Emit(engine.EventMessage, kind, p.Data) != nil {
			w.log(E{"ev": "refused", "m": m})
		}
		return
	}
	w.log(E{"ev": "sent", "m": m, "ok": w.c.Emit(engine.EventMessage, kind, p.Data) == nil})
}

func (w *cliw) adv(k string) {
	w.mu.Lock()
	next := w.begun.Add(time.Duration(w.pings+1) * w.int_)
	dead := w.heard.Add(w.int_ + w.tmo)
	w.mu.Unlock()
	at := time.Now()
	ms := time.Millisecond
	rnd := func(d time.Duration) time.Duration { return time.Duration(1+w.intn(int(d/ms)+1)) * ms }
	switch k {
	case "little":
		at = at.Add(rnd(w.int_ / 4))
	case "half":
		at = at.Add(w.int_ / 2)
	case "ping-":
		at = next.Add(-ms)
	case "ping":
		at = next
	case "ping+":
		at = next.Add(rnd(w.int_ / 4))
	case "dead-":
		at = dead.Add(-ms)
	case "dead":
		at = dead
	case "dead+":
		at = dead.Add(rnd(w.int_ / 4))
	}
	if !at.Before(dead) {
		w.over = true
	}
	if d := time.Until(at); d > 0 {
		time.Sleep(d)
	}
}

func (w *cliw) do(o Op) {
	if w.c == nil {
		if o.S("op") == "dial" {
			w.dial(o)
			if o.S("after") != "" {
				w.over = true
			}
		}
		return
	}
	n := o.I("n")
	switch o.S("op") {
	case "adv":
		w.adv(o.S("k"))
	case "alive":
		for i := 0; i < 6; i++ {
			if !time.Now().Add(w.int_ / 2).Before(w.heard.Add(w.int_ + w.tmo)) {
				w.over = true
			}
			time.Sleep(w.int_ / 2)
			if !w.over {
				w.tx("pong")
			}
			w.settle()
		}
	case "tx":
		for i := 0; i < n && !w.over; i++ {
			w.tx(o.S("t"))
		}
	case "send":
		for i := 0; i < n; i++ {
			w.send()
		}
	case "end":
		if w.over {
			return
		}
		if o.S("how") == "closeincb" {
			w.lock(func() { w.closeCb = true })
			n++
		}
		for i := 0; i < n; i++ {
			w.tx("message")
		}
		w.over = true
		switch o.S("how") {
		case "closepkt":
			w.lock(func() { w.log(E{"ev": "tx", "t": "close", "m": 0}) })
			w.write(w.bye())
		case "drop":
			w.drop()
		case "close":
			w.log(E{"ev": "close"})
			w.c.Close()
		case "badframe":
			w.lock(func() { w.log(E{"ev": "tx", "t": "close", "m": 0}) })
			w.ws.UnderlyingConn().Write([]byte{0xff, 0xff, 0xff, 0xff})
		case "closeframe":
			w.lock(func() { w.log(E{"ev": "tx", "t": "close", "m": 0}) })
			w.ws.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""))
		}
	}
}

func driveClient(c *Ctx, n int, script []Op) {
	c.Log.Ev(E{"ev": "reset", "n": n})
	c.bubble(func(t *testing.T) {
		w := &cliw{World: newWorld(c, true), ms: map[string]int{}}
		for _, o := range script {
			w.do(o)
			w.settle()
			w.log(E{"ev": "settled"})
		}
		if w.c != nil {
			if !w.over {
				w.over = true
				w.log(E{"ev": "close"})
			}
			w.c.Close()
			w.c.Close()
			w.settle()
			w.log(E{"ev": "settled"})
			w.send()
			time.Sleep(time.Hour)
			w.log(E{"ev": "settled"})
		}
	})
}
