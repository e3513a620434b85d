package harness

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio"
)

func init() { drivers["hostile"] = driveHostile }

// siege is a Socket.IO server, its well-behaved clients and its attackers.
type siege struct {
	*World
	parser string
	mu     sync.Mutex
	bySid  map[string]int
	socks  map[string]socketio.Socket
	toks   int
	serial int
	ends   []*guest
	stop   chan struct{}
	late   []func() // what an attacker holds back until the end
}

// guest is a client; attackers are guests too, they only say other things.
type guest struct {
	w       *siege
	n       int
	victim  bool
	tr, sid string
	ws      *websocket.Conn
	mu      sync.Mutex
	gone    bool
	pongs   map[string]bool
	acks    map[string]bool
	want    map[int]bool // tokens that must come
	need    int          // attachments to come
	header  E
	ids     int
	half    []Pkt // rest of a packet half sent
	cands   []*websocket.Conn
	spoilt  bool // the byte stream is out of step, nothing can be said on it any more
}

func (w *siege) token() (int, string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.toks++
	return w.toks, fmt.Sprintf("tok%dx%d", w.toks, w.toks)
}

// tokOf is the token a string is; damage does not make one token another.
func tokOf(s string) int {
	var k int
	if fmt.Sscanf(s, "tok%dx", &k); k > 0 && s == fmt.Sprintf("tok%dx%d", k, k) {
		return k
	}
	return 0
}

func (w *siege) ran(so socketio.Socket, nsp, s string) {
	w.mu.Lock()
	n := w.bySid[so.Sid()]
	w.mu.Unlock()
	w.ev(E{"ev": "ran", "s": n, "nsp": nsp, "tok": tokOf(s)})
}

func (w *siege) parserOf() socketio.Parser {
	if w.parser == "msgpack" {
		return socketio.MsgpackParser
	}
	return socketio.DefaultParser
}

func (w *siege) serve() *socketio.Server {
	srv, err := socketio.NewServer(25*time.Second, 60*time.Second, w.parserOf())
	if err != nil {
		panic(err)
	}
	srv.OnError(func(error) {})
	for _, nsp := range []string{"/", "/a"} {
		nsp := nsp
		n := srv.Namespace(nsp)
		n.OnError(func(socketio.Socket, ...interface{}) {})
		n.OnConnect(func(so socketio.Socket) {
			w.mu.Lock()
			w.socks[so.Sid()+nsp] = so
			w.mu.Unlock()
		})
		n.OnEvent("echo", func(so socketio.Socket, s string) string { w.ran(so, nsp, s); return s })
		if w.parser == "msgpack" {
			n.OnEvent("becho", func(so socketio.Socket, s string, b []byte) (string, []byte) { w.ran(so, nsp, s); return s, b })
			n.OnEvent("types", func(a int, s string, b bool, m map[string]interface{}, l []int, f float64, p *string, x []byte, q [2]int8, z map[string]string, t time.Duration) {
			})
			n.OnEvent("few", func(b []byte, u uint8) []byte { return b })
			n.OnEvent("two", func(l [][]string, b *[]byte) {})
		} else {
			n.OnEvent("becho", func(so socketio.Socket, s string, b socketio.Bytes) (string, socketio.Bytes) {
				w.ran(so, nsp, s)
				return s, b
			})
			n.OnEvent("types", func(a int, s string, b bool, m map[string]interface{}, l []int, f float64, p *string, x socketio.Bytes, q [2]int8, z map[string]string, t struct{ A, B int }) {
			})
			n.OnEvent("few", func(b *socketio.Bytes, u uint8) *socketio.Bytes { return b })
			n.OnEvent("two", func(a, b socketio.Bytes) (socketio.Bytes, socketio.Bytes) { return b, a })
		}
		n.OnEvent("any", func(v interface{}) interface{} { return v })
		n.OnEvent("ask", func(so socketio.Socket) { so.Emit("hi", func(s string, b bool) {}) })
		n.OnEvent("bye", func(so socketio.Socket) { so.Close() })
	}
	return srv
}

func (g *guest) url(tr string) string {
	u := "/socket.io/?EIO=3&transport=" + tr
	if g.sid != "" {
		u += "&sid=" + g.sid
	}
	return u
}

// enter opens a session; a limit makes the buffers of its connection small and leaves what arrives unread.
func (w *siege) enter(n int, tr string, victim bool, limit int) *guest {
	if !victim { // every session of an attacker has a number of its own
		w.serial++
		n = n%10 + 1000*w.serial
	}
	g := &guest{w: w, n: n, tr: tr, victim: victim, pongs: map[string]bool{}, acks: map[string]bool{}, want: map[int]bool{}}
	w.ends = append(w.ends, g)
	if tr == "polling" {
		re := w.request(context.Background(), "GET", g.url(tr), nil, nil)
		ps, err := decodePoll("bin", re)
		if err != nil || len(ps) != 1 || ps[0].Type != 0 {
			g.gone = true
			return g
		}
		g.sid = sidOf(ps[0].Data)
		w.known(g)
		go g.polls()
	} else {
		ws, code, _ := w.dialWS(g.url(tr), nil, limit)
		if code != 101 {
			g.gone = true
			return g
		}
		g.ws = ws
		_, b, err := ws.ReadMessage()
		if err != nil || len(b) == 0 {
			g.gone = true
			return g
		}
		g.sid = sidOf(b[1:])
		w.known(g)
		if limit == 0 {
			go g.reads()
		}
	}
	if g.sid == "" {
		g.gone = true
	}
	return g
}

func (w *siege) known(g *guest) { w.mu.Lock(); w.bySid[g.sid] = g.n; w.mu.Unlock() }

func (g *guest) polls() {
	for {
		re := g.w.request(context.Background(), "GET", g.url("polling"), nil, nil)
		ps, err := decodePoll("bin", re)
		if re.code != 200 || err != nil {
			g.left()
			return
		}
		for _, p := range ps {
			g.got(p)
		}
	}
}

func (g *guest) reads() {
	for {
		mt, b, err := g.ws.ReadMessage()
		if err != nil {
			g.left()
			return
		}
		if p, ok := fromFrame(mt, b); ok {
			g.got(p)
		}
	}
}

func (g *guest) left() { g.mu.Lock(); g.gone = true; g.mu.Unlock() }

func (g *guest) isGone() bool { g.mu.Lock(); defer g.mu.Unlock(); return g.gone }

func (g *guest) got(p Pkt) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if p.Type == 3 {
		g.pongs[string(p.Data)] = true
	}
	if p.Type != 4 {
		return
	}
	if p.Bin && g.w.parser == "default" {
		if g.need--; g.need == 0 {
			g.packet(g.header)
		}
		return
	}
	e, err := decodeSio(g.w.parser, p)
	if err != nil {
		if g.victim {
			g.w.ev(E{"ev": "vgot", "v": g.n, "tok": -1, "what": "garbage", "nsp": ""})
		}
		return
	}
	if n := e["n"].(int); n > 0 {
		g.need, g.header = n, e
		return
	}
	g.packet(e)
}

// packet takes a whole packet; g.mu is held.
func (g *guest) packet(e E) {
	args, _ := e["args"].([]Val)
	k := 0
	for _, a := range args {
		if q, err := strconv.Unquote(fmt.Sprint(a.V)); err == nil && tokOf(q) > 0 {
			k = tokOf(q)
		}
	}
	delete(g.want, k)
	switch {
	case strings.HasSuffix(e["t"].(string), "ACK"):
		g.acks[fmt.Sprint(e["id"])] = true
		if g.victim || k > 0 {
			g.w.ev(E{"ev": "vgot", "v": g.n, "tok": k, "what": "ack", "nsp": e["nsp"]})
		}
	case strings.HasSuffix(e["t"].(string), "EVENT"):
		if g.victim || k > 0 {
			g.w.ev(E{"ev": "vgot", "v": g.n, "tok": k, "what": "emit", "nsp": e["nsp"]})
		}
	case e["t"] == "CONNECT":
	default:
		if g.victim {
			g.w.ev(E{"ev": "vgot", "v": g.n, "tok": k, "what": fmt.Sprint(e["t"]), "nsp": e["nsp"]})
		}
	}
}

// send passes packets on, properly framed for the transport; false if the connection did not take them.
func (g *guest) send(ps ...Pkt) bool {
	if g.tr == "polling" {
		bin := g.w.intn(2) == 0
		body, ct := textPayload(ps...), "text/plain;charset=UTF-8"
		if bin {
			body, ct = binPayload(ps...), "application/octet-stream"
		}
		return g.w.request(context.Background(), "POST", g.url("polling"), http.Header{"Content-Type": {ct}}, body).code == 200
	}
	for _, p := range ps {
		mt, b := wsFrame(p)
		if g.ws.WriteMessage(mt, b) != nil {
			return false
		}
	}
	return true
}

func (g *guest) packets(nsp, name, tok string, bin bool) []Pkt {
	g.ids++
	p := sioPkt{Type: 2, Nsp: nsp, ID: strconv.Itoa(g.ids), Name: name, Args: []interface{}{tok}}
	if bin {
		p.Name, p.Args = "becho", append(p.Args, []byte("bytes of "+tok))
	}
	f, _ := encodeSio(g.w.rnd, g.w.parser, p)
	return f
}

func (g *guest) connect(nsp string) Pkt {
	f, _ := encodeSio(g.w.rnd, g.w.parser, sioPkt{Type: 0, Nsp: nsp})
	return f[0]
}

// damaged is what becomes of b by a rule of the generator.
func damaged(b []byte, o Op) []byte {
	b = append([]byte{}, b...)
	at := 0
	if len(b) > 0 {
		at = o.I("at") % len(b)
	}
	x := []byte{byte(o.I("code"))}
	switch o.S("how") {
	case "cut":
		if len(b) > 0 {
			b = append(b[:at], b[at+1:]...)
		}
	case "short":
		b = b[:at]
	case "put":
		if len(b) > 0 {
			b[at] = x[0]
		}
	case "ins":
		b = append(b[:at], append(x, b[at:]...)...)
	case "tail":
		b = append(b, x...)
	case "twice":
		b = append(b, b[at:]...)
	case "swap":
		b = append(append([]byte{}, b[at:]...), b[:at]...)
	case "rep":
		b = append(b[:at], append(bytes.Repeat(x, 70), b[at:]...)...)
	}
	return b
}

func (w *siege) base(g *guest, o Op) []byte {
	s := o.S("base")
	if o.B("hex") {
		b, err := hex.DecodeString(s)
		if err != nil {
			panic(err)
		}
		return damaged(b, o)
	}
	if strings.Contains(s, "$") {
		k, tok := w.token()
		w.ev(E{"ev": "asend", "a": g.n, "tok": k})
		s = strings.ReplaceAll(s, "$", tok)
	}
	return damaged([]byte(s), o)
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func driveHostile(c *Ctx, n int, script []Op) {
	run := func(virtual bool) {
		w := &siege{World: newWorld(c, virtual), parser: c.Job.Str("parser", "default"), bySid: map[string]int{}, socks: map[string]socketio.Socket{}, stop: make(chan struct{})}
		c.Log.Ev(E{"ev": "reset", "n": n, "parser": w.parser})
		srv := w.serve()
		w.h = srv
		victims := []*guest{w.enter(101, "websocket", true, 0), w.enter(102, "polling", true, 0)}
		for _, v := range victims {
			v := v
			v.send(v.connect("/a"))
			go func() {
				t := time.NewTicker(10 * time.Second)
				defer t.Stop()
				for {
					select {
					case <-w.stop:
						return
					case <-t.C:
						v.send(Pkt{Type: 2, Data: []byte("keep")})
					}
				}
			}()
		}
		w.pause()
		foes := map[int]*guest{}
		foe := func(k int) *guest {
			if foes[k] == nil {
				foes[k] = w.enter(k, "websocket", false, 0)
			}
			return foes[k]
		}
		for _, o := range script {
			g := (*guest)(nil)
			if a := o.I("a"); a > 0 && o.S("op") != "open" {
				if g = foe(a); g.isGone() && o.S("op") != "probe" && o.S("op") != "candidates" {
					foes[a] = w.enter(a, g.tr, false, 0)
					g = foes[a]
				}
			}
			w.act(o, g, foes, victims)
		}
		for _, v := range victims {
			v.finish()
		}
		w.rest(victims)
		for _, g := range foes {
			w.probe(g)
		}
		w.newcomer("polling")
		w.newcomer("websocket")
		w.rest(victims)
		w.over.Store(true)
		close(w.stop)
		for _, f := range w.late {
			f()
		}
		for _, g := range w.ends {
			g.leave()
		}
		if virtual {
			w.settle()
			time.Sleep(3 * time.Minute) // what is left of attackers times out
			w.settle()
		}
		srv.Close()
	}
	if c.Job.Str("mode", "virtual") == "virtual" {
		c.bubble(func(t *testing.T) { run(true) })
	} else {
		run(false)
	}
}

func (g *guest) leave() {
	for _, c := range g.cands {
		c.Close()
	}
	if g.ws != nil {
		g.ws.Close()
	} else if g.sid != "" && !g.isGone() {
		g.send(Pkt{Type: 1})
	}
}

func (w *siege) pause() {
	if w.virtual {
		w.settle()
		return
	}
	time.Sleep(time.Duration(1+w.intn(4)) * time.Millisecond)
}

// rest is a moment at which everything the well-behaved clients asked for must have come.
func (w *siege) rest(victims []*guest) {
	w.pause()
	for _, v := range victims {
		if len(v.half) > 0 {
			continue
		}
		// pings are answered after everything the client sent before
		v.mu.Lock()
		v.ids++
		mark := fmt.Sprint("mark", v.ids)
		v.mu.Unlock()
		v.send(Pkt{Type: 2, Data: []byte(mark)})
		d := patience
		if w.virtual {
			d = time.Minute
		}
		ok := w.awaitFor(d, func() bool {
			v.mu.Lock()
			defer v.mu.Unlock()
			return v.pongs[mark] && len(v.want) == 0 || v.gone
		})
		w.ev(E{"ev": "rest", "v": v.n, "ok": ok && !v.isGone()})
	}
}

func (g *guest) wants(k int) { g.mu.Lock(); g.want[k] = true; g.mu.Unlock() }

func (g *guest) finish() {
	if len(g.half) > 0 {
		g.w.ev(E{"ev": "vwhole", "v": g.n})
		g.send(g.half...)
		g.half = nil
	}
}

func (w *siege) newcomer(tr string) {
	g := w.enter(9, tr, false, 0)
	ok := !g.isGone()
	if ok {
		k, tok := w.token()
		w.ev(E{"ev": "asend", "a": g.n, "tok": k})
		g.send(g.packets("/", "echo", tok, false)...)
		id := fmt.Sprint(g.ids)
		ok = w.await(func() bool { g.mu.Lock(); defer g.mu.Unlock(); return g.acks[id] || g.gone }) && !g.isGone()
	}
	w.ev(E{"ev": "newcomer", "ok": ok})
	g.leave()
	w.pause()
}

// probe finds out whether the session of an attacker works or is closed.
func (w *siege) probe(g *guest) {
	for _, c := range g.cands {
		c.Close()
	}
	g.cands = nil
	r := "stuck"
	if g.spoilt {
		g.leave()
		r = "closed"
	} else {
		alive := func(id string) bool {
			return w.awaitFor(w.short(), func() bool { g.mu.Lock(); defer g.mu.Unlock(); return g.acks[id] || g.gone })
		}
		for i := 0; i < 3 && r == "stuck"; i++ {
			k, tok := w.token()
			w.ev(E{"ev": "asend", "a": g.n, "tok": k})
			g.ids += 100000
			ps := append([]Pkt{g.connect("/")}, g.packets("/", "echo", tok, false)...)
			id := fmt.Sprint(g.ids)
			sent := g.send(ps...)
			switch {
			case !sent && g.tr == "polling" || g.isGone():
				r = "closed"
			case alive(id):
				r = "works"
				if g.isGone() {
					r = "closed"
				}
			}
		}
	}
	w.ev(E{"ev": "probe", "a": g.n, "r": r})
}

func (w *siege) short() time.Duration {
	if w.virtual {
		return 5 * time.Second
	}
	return patience / 3
}

func (w *siege) act(o Op, g *guest, foes map[int]*guest, victims []*guest) {
	before := allocated()
	attack := true
	switch op := o.S("op"); op {
	case "vsend", "vhalf":
		attack = false
		v := victims[o.I("v")-1]
		v.finish()
		k, tok := w.token()
		w.ev(E{"ev": "vsend", "v": v.n, "tok": k, "nsp": o.S("nsp"), "half": op == "vhalf"})
		ps := v.packets(o.S("nsp"), "echo", tok, o.B("bin") || op == "vhalf")
		v.wants(k)
		if op == "vhalf" {
			i := len(ps) - 1
			v.send(ps[:i]...)
			v.half = ps[i:]
		} else {
			v.send(ps...)
		}
	case "vwhole":
		attack = false
		victims[o.I("v")-1].finish()
	case "vemit":
		attack = false
		v := victims[o.I("v")-1]
		k, tok := w.token()
		w.mu.Lock()
		so := w.socks[v.sid+o.S("nsp")]
		w.mu.Unlock()
		w.ev(E{"ev": "vemit", "v": v.n, "tok": k, "nsp": o.S("nsp")})
		v.wants(k)
		var err error
		if so == nil {
			err = io.EOF
		} else if o.B("bin") && w.parser == "default" {
			err = so.Emit("hi", tok, &socketio.Bytes{Data: []byte(tok)})
		} else {
			err = so.Emit("hi", tok)
		}
		if err != nil {
			w.ev(E{"ev": "vfail", "v": v.n})
		}
	case "newcomer":
		attack = false
		w.newcomer(o.S("tr"))
	case "probe":
		attack = false
		w.probe(g)
	case "adv":
		if w.virtual {
			time.Sleep(time.Duration(o.I("d")) * time.Millisecond)
		}
	case "open":
		if old := foes[o.I("a")]; old != nil {
			if o.B("drop") {
				old.leave()
			}
		}
		foes[o.I("a")] = w.enter(o.I("a"), o.S("tr"), false, 0)
	case "drop":
		if g.ws != nil {
			g.ws.UnderlyingConn().Close()
		} else {
			g.send(Pkt{Type: 1})
		}
		w.pause()
		g.left()
	case "text":
		w.text(g, o)
	case "payload":
		ct := map[string]string{"text": "text/plain;charset=UTF-8", "bin": "application/octet-stream", "odd": "text/plain; charset=\"utf-8\"; x=\"", "none": ""}[o.S("ct")]
		if g.sid != "" {
			w.request(w.impatient(), "POST", g.url("polling"), http.Header{"Content-Type": {ct}}, w.base(g, o))
		}
	case "http":
		w.odd(g, o)
	case "raw":
		if g.ws != nil {
			b := w.base(g, o)
			conn := g.ws.UnderlyingConn()
			conn.Write(b)
			w.pause()
			g.spoilt = true
			if o.B("cut") {
				conn.Close()
			}
		}
	case "candidates":
		w.candidates(g, o)
	case "macro":
		w.macro(g, o)
	}
	w.pause()
	if attack {
		w.ev(E{"ev": "attack", "a": o.I("a"), "op": o.S("op"), "mb": int((allocated() - before) >> 20)})
	}
	w.rest(victims)
}

func (w *siege) impatient() context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	time.AfterFunc(2*time.Minute, cancel)
	return ctx
}

// text sends a frame that is, or once was, a packet.
func (w *siege) text(g *guest, o Op) {
	b := w.base(g, o)
	if g.tr == "polling" {
		// in a payload around it that is well formed
		var body []byte
		ct := "text/plain;charset=UTF-8"
		if o.B("bin") && len(b) > 0 {
			body, ct = append(append([]byte{1}, digits(len(b))...), append([]byte{255}, b...)...), "application/octet-stream"
		} else {
			body = append([]byte(fmt.Sprintf("%d:", len(b))), b...)
		}
		w.request(w.impatient(), "POST", g.url("polling"), http.Header{"Content-Type": {ct}}, body)
		return
	}
	mt := websocket.TextMessage
	if o.B("bin") {
		mt = websocket.BinaryMessage
	}
	g.ws.WriteMessage(mt, b)
}

func digits(n int) []byte {
	out := []byte(strconv.Itoa(n))
	for i := range out {
		out[i] -= '0'
	}
	return out
}

// odd makes a request nobody in his right mind makes.
func (w *siege) odd(g *guest, o Op) {
	target := strings.ReplaceAll(o.S("target"), "$SID", g.sid)
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() {
		defer close(done)
		r := httptest.NewRequest(o.S("m"), "/socket.io/", strings.NewReader(o.S("body"))).WithContext(ctx)
		r.URL.RawQuery = target
		if ct := o.S("ct"); ct != "" {
			r.Header.Set("Content-Type", ct)
		}
		if o.B("ws") {
			r.Header.Set("Connection", "Upgrade")
			r.Header.Set("Upgrade", "websocket")
			r.Header.Set("Sec-Websocket-Version", "13")
			r.Header.Set("Sec-Websocket-Key", "short")
		}
		if re := serve(w.h, r); strings.HasPrefix(re.body.String(), "panic: ") {
			w.ev(E{"ev": "panic", "what": asciiName(re.body.String())})
		}
	}()
	w.pause()
	cancel()
	<-done
}

// candidates are offered to the session of an attacker; undecided ones only in real time.
func (w *siege) candidates(g *guest, o Op) {
	if g.sid == "" {
		return
	}
	for i := 0; i < o.I("n"); i++ {
		c, code, _ := w.dialWS(g.url("websocket"), nil, 0)
		if code != 101 {
			return
		}
		say := func(s string) { c.WriteMessage(websocket.TextMessage, []byte(s)) }
		switch o.S("how") {
		case "mute":
		case "ping":
			say("2probe")
		case "wrong":
			say("2probe")
			say("4" + o.S("base"))
		case "nopong":
			say("5")
		case "burst":
			say("2")
			say("2")
			say("5")
			say("5")
		case "binary":
			c.WriteMessage(websocket.BinaryMessage, []byte{2, 0, 255})
			c.WriteMessage(websocket.BinaryMessage, []byte{9})
		case "empty":
			c.WriteMessage(websocket.TextMessage, nil)
		}
		if w.virtual {
			c.Close()
		} else {
			g.cands = append(g.cands, c)
			go func() {
				for {
					if _, _, err := c.ReadMessage(); err != nil {
						return
					}
				}
			}()
		}
	}
	if !w.virtual && o.B("close") {
		w.pause()
		for _, c := range g.cands {
			c.Close()
		}
		g.cands = nil
	}
	if o.S("how") == "burst" {
		g.spoilt = true // the session may have moved to a candidate
	}
}

func (w *siege) macro(g *guest, o Op) {
	n := o.I("n")
	say := func(ps ...Pkt) { g.send(ps...) }
	str := func(s string) Pkt { return Pkt{Type: 4, Data: []byte(s)} }
	bin := func(b []byte) Pkt { return Pkt{Type: 4, Bin: true, Data: b} }
	switch o.S("name") {
	case "deepjson":
		say(str(`2["any",` + strings.Repeat("[", n) + strings.Repeat("]", n) + `]`))
		say(str(`2["any",` + strings.Repeat(`{"a":`, n)))
		say(str(`4` + strings.Repeat("[", n)))
	case "deepmsgp":
		say(bin(deepFrame("any", "list", n)))
		say(bin(deepFrame("any", "map", n)))
		say(bin(bytes.Repeat([]byte{0x91}, n)))
	case "hugemsgp": // announce far more than comes
		for _, h := range []string{"ddffffffff", "dfffffffff", "c6ffffffff", "dbffffffff", "c9ffffffff01", "ddffffffff92ddffffffff"} {
			b, _ := hex.DecodeString("83a474797065" + "02a36e7370a12fa464617461" + "92a3616e79" + h)
			say(bin(b))
			b, _ = hex.DecodeString("83a474797065" + "02a36e7370a12fa464617461" + "9ca57479706573" + "01a0c280" + h)
			say(bin(b))
			b, _ = hex.DecodeString(h)
			say(bin(b))
		}
	case "hugecount":
		say(str(`5999999999-["becho","x"]`), str(`5214748363-["becho","x"]`), str(`599999999999999999999-["becho"]`))
	case "hugeframe": // a frame of which only the beginning comes
		if g.ws != nil {
			g.ws.UnderlyingConn().Write([]byte{0x82, 0xff, 0, 0, 0, 0xff, 0, 0, 0, 0, 1, 2, 3, 4, 'x'})
			g.spoilt = true
		}
	case "hugelength":
		for _, b := range []string{"2147483646:4x", "214748363:4x", "99999999999999999999:4x", "b:4", "-1:4"} {
			w.request(w.impatient(), "POST", g.url("polling"), http.Header{"Content-Type": {"text/plain;charset=UTF-8"}}, []byte(b))
			w.request(w.impatient(), "POST", g.url("polling"), http.Header{"Content-Type": {"application/octet-stream"}}, append(append([]byte{0}, digits(2147483646)...), 255, '4', 'x'))
		}
	case "attachments":
		say(str(fmt.Sprintf(`5%d-["two"%s]`, n, strings.Repeat(`,{"_placeholder":true,"num":0}`, n))))
		for i := 0; i < n/2; i++ {
			say(bin([]byte{byte(i)}))
		}
	case "orphans":
		for i := 0; i < n; i++ {
			say(bin([]byte("orphan")))
		}
	case "namespaces":
		for i := 0; i < n; i++ {
			say(str(fmt.Sprintf("0/n%d", i)), str(fmt.Sprintf(`2/n%d,["echo","x"]`, i)))
		}
	case "connects":
		for i := 0; i < n; i++ {
			say(str("0/a,"), str("1/a,"), str("0"), str("1"))
		}
	case "acks":
		for i := 0; i < n; i++ {
			say(str(`2["ask"]`), str(fmt.Sprintf(`3%d["x",true]`, i)), str(fmt.Sprintf(`3%d[{}]`, i)), str("318446744073709551615[]"))
		}
	case "packets": // in one payload
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, "1:6"...)
		}
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan struct{})
		go func() {
			w.request(ctx, "POST", g.url("polling"), http.Header{"Content-Type": {"text/plain;charset=UTF-8"}}, b)
			close(done)
		}()
		w.late = append(w.late, cancel)
		w.pause()
	case "big":
		say(str(`2["any","` + strings.Repeat("x", n<<10) + `"]`))
		say(str(strings.Repeat(`2["any",{"_placeholder":true,"num":0},`, n<<4)))
		say(str(`51-["any"` + strings.Repeat(" ", n<<10) + `,{"_placeholder":true,"num":0}]`))
	case "fragments":
		if g.ws != nil {
			wr, err := g.ws.NextWriter(websocket.TextMessage)
			if err == nil {
				for i := 0; i < n; i++ {
					wr.Write([]byte("4"))
					g.ws.WriteControl(websocket.PingMessage, []byte("x"), time.Time{})
				}
				wr.Close()
			}
		}
	case "slowpost": // a body that does not end
		pr, pw := io.Pipe()
		done := make(chan struct{})
		go func() {
			r := httptest.NewRequest("POST", g.url("polling"), pr)
			r.Header.Set("Content-Type", "application/octet-stream")
			serve(w.h, r)
			pr.Close()
			close(done)
		}()
		if n%2 == 0 {
			go pw.Write([]byte{0, 5, 255, '4'})
		}
		w.late = append(w.late, func() { pw.Close(); <-done })
		w.pause()
	case "polls":
		for i := 0; i < n; i++ {
			ctx, cancel := context.WithCancel(context.Background())
			go w.request(ctx, "GET", g.url("polling"), nil, nil)
			if i%2 == 0 {
				cancel()
			} else {
				w.late = append(w.late, cancel)
			}
		}
		g.spoilt = true // answers may have gone to any of the polls
		w.pause()
	case "deaf": // asks for much and reads nothing
		d := w.enter(g.n, "websocket", false, 2048)
		if d.ws != nil {
			d.ws.SetWriteDeadline(time.Now().Add(200 * time.Millisecond))
			for i := 0; i < n; i++ {
				if d.ws.WriteMessage(websocket.TextMessage, []byte(`421["any","`+strings.Repeat("x", 300)+`"]`)) != nil {
					break
				}
			}
		}
	case "handshakes":
		for i := 0; i < n; i++ {
			ctx, cancel := context.WithCancel(context.Background())
			tr := []string{"polling", "websocket", "polling&j=x", "nothing"}[i%4]
			r := httptest.NewRequest("GET", "/socket.io/?EIO=3&transport="+tr, nil).WithContext(ctx)
			if i%3 == 0 {
				cancel()
			}
			serve(w.h, r)
			cancel()
		}
	case "halfopen": // connections that do not finish their handshake
		for i := 0; i < n; i++ {
			a, b := memPipe(0)
			go serveConn(b, w.h, func(p interface{}) { w.ev(E{"ev": "panic", "what": fmt.Sprint(p)}) })
			a.Write([]byte("GET /socket.io/?EIO=3&transport=websocket HTTP/1.1\r\nHost: x\r\nUpgr"))
			if i%2 == 0 {
				a.Close()
			} else {
				w.late = append(w.late, func() { a.Close() })
			}
		}
	}
}
