package harness

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

func init() { drivers["sio"] = driveSio }

const oddName = "we\"ird \\ name, [x]"

// siow is one Socket.IO implementation, a server or clients, with raw peers around it.
type siow struct {
	*World
	role, parser string
	srv          *socketio.Server
	mu           sync.Mutex
	peers        map[int]*siop
	bySid        map[string]int
	opening      int
	calls        int
	emits        int
	lanes        int
}

// siop is a session and its raw peer.
type siop struct {
	w       *siow
	s       int
	sid     string
	ws      *websocket.Conn
	polling bool
	post    chan []Pkt
	greet   int
	socks   map[string]socketio.Socket
	client  *socketio.Client
	pending []reqID // requests this peer has received and not answered
	used    []reqID
	gate    chan struct{}
	over    bool // an end has been caused
	silent  bool
	batch   []Pkt
	frames  int
}

type reqID struct{ nsp, id, ak string }

func (w *siow) lock(f func()) { w.mu.Lock(); defer w.mu.Unlock(); f() }

func (w *siow) parserOf() socketio.Parser {
	if w.parser == "msgpack" {
		return socketio.MsgpackParser
	}
	return socketio.DefaultParser
}

// sock identifies the socket a callback was given.
func (w *siow) sock(so socketio.Socket) (int, Val) {
	sid := so.Sid()
	w.mu.Lock()
	defer w.mu.Unlock()
	s, ok := w.bySid[sid]
	if !ok {
		s = w.opening
		w.bySid[sid] = s
	}
	return s, Val{"S", fmt.Sprintf("%d:%s", s, so.Namespace())}
}

// begin records that a callback runs; the result records that it returns.
func (w *siow) begin(so socketio.Socket, cb, nsp, name string, k int, args []Val) (int, func()) {
	s := 0
	var sv Val
	if so != nil {
		s, sv = w.sock(so)
	}
	if args == nil {
		args = []Val{}
	}
	for i := range args {
		if args[i].K == "sock" {
			args[i] = sv
		}
	}
	w.mu.Lock()
	w.calls++
	c := w.calls
	p := w.peers[s]
	var gate chan struct{}
	if p != nil {
		gate = p.gate
	}
	if so != nil && cb != "event" && cb != "ack" && cb != "globalerror" {
		if so.Namespace() != nsp {
			name = "socket of " + so.Namespace()
		}
		if cb == "connect" && p != nil {
			p.socks[nsp] = so
		}
	}
	if so != nil && nsp == quiet && p != nil {
		p.socks[nsp] = so
	}
	w.ev(E{"ev": "call", "c": c, "s": s, "cb": cb, "nsp": nsp, "name": asciiName(name), "k": k, "args": args})
	w.mu.Unlock()
	if gate != nil {
		<-gate
	}
	return s, func() { w.lock(func() { w.ev(E{"ev": "ret", "c": c}) }) }
}

type namespacer interface {
	Namespace(string) socketio.Namespace
}

var sockMark = Val{"sock", ""}

// the namespace that has events and no other callbacks
const quiet = "/q"

// register sets up the application of SioTable.
func (w *siow) register(x namespacer) {
	for _, nsp := range []string{"/", "/a", "/b", "/c d", quiet} {
		nsp := nsp
		n := x.Namespace(nsp)
		if nsp == quiet {
			w.events(n, nsp)
			continue
		}
		n.OnConnect(func(so socketio.Socket) {
			s, end := w.begin(so, "connect", nsp, "", 0, nil)
			w.mu.Lock()
			greet := 0
			if p := w.peers[s]; p != nil && w.role == "server" {
				greet = p.greet
			}
			w.mu.Unlock()
			for i := 0; i < greet; i++ {
				w.emit(so, s, s, nsp, "cb"+strconv.Itoa(s), "str", []interface{}{"greeting"}, "", false)
			}
			end()
		})
		n.OnDisconnect(func(so socketio.Socket) {
			s, end := w.begin(so, "disconnect", nsp, "", 0, nil)
			w.emit(so, s, s, nsp, "cb"+strconv.Itoa(s), "str", []interface{}{"too late"}, "", false)
			end()
		})
		n.OnError(func(so socketio.Socket, err ...interface{}) {
			_, end := w.begin(so, "error", nsp, "", 0, nil)
			end()
		})
		if nsp != "/c d" {
			w.events(n, nsp)
		}
	}
}

func (w *siow) events(n socketio.Namespace, nsp string) {
	ev := func(name string) func(args ...interface{}) func() {
		return func(args ...interface{}) func() {
			var so socketio.Socket
			vals := []Val{}
			for _, a := range args {
				if x, ok := a.(socketio.Socket); ok {
					so = x
					vals = append(vals, sockMark)
					continue
				}
				vals = append(vals, canon(a))
			}
			_, end := w.begin(so, "event", nsp, name, 0, vals)
			return end
		}
	}
	none, str, mix, mid, bin, binmix, any_, act, st, upper, odd, star := ev("none"), ev("str"), ev("mix"), ev("mid"), ev("bin"), ev("binmix"), ev("any"), ev("act"), ev("st"), ev("Str"), ev(oddName), ev("*")
	n.OnEvent("none", func() { none()() })
	n.OnEvent("*", func() { star()() })
	if nsp == "/b" {
		n.OnEvent("str", func(i int) int { defer str(i)(); return i })
	} else {
		n.OnEvent("str", func(s string) string { defer str(s)(); return s })
	}
	n.OnEvent("st", func(s string) { st(s)() })
	n.OnEvent("Str", func(s string, b bool) bool { defer upper(s, b)(); return b })
	n.OnEvent("mix", func(so socketio.Socket, s string, i int, b bool) (string, int) {
		defer mix(so, s, i, b)()
		return s, i
	})
	n.OnEvent("mid", func(s *string, so socketio.Socket, i int64) { mid(*s, so, i)() })
	if w.parser == "msgpack" {
		n.OnEvent("bin", func(b []byte) ([]byte, string) {
			defer bin(b)()
			return b, "ok"
		})
		n.OnEvent("binmix", func(s string, b []byte, i int, c *[]byte) (int, []byte, string, []byte) {
			defer binmix(s, b, i, *c)()
			return i, b, s, *c
		})
	} else {
		n.OnEvent("bin", func(b socketio.Bytes) (socketio.Bytes, string) {
			defer bin(b)()
			return b, "ok"
		})
		n.OnEvent("binmix", func(s string, b socketio.Bytes, i int, c *socketio.Bytes) (int, *socketio.Bytes, string, socketio.Bytes) {
			defer binmix(s, b, i, c)()
			return i, &b, s, *c
		})
	}
	n.OnEvent("any", func(v interface{}, l []string, m map[string]interface{}) interface{} {
		defer any_(v, l, m)()
		return v
	})
	n.OnEvent(oddName, func(i int, v *interface{}) { odd(i, *v)() })
	if nsp == "/a" {
		f := ev("onlya")
		n.OnEvent("onlya", func(s string) { f(s)() })
	}
	n.OnEvent("act", func(so socketio.Socket, cmd string) string {
		end := act(so, cmd)
		s, _ := w.sock(so)
		w.act(so, s, nsp, cmd)
		end()
		return cmd
	})
}

// act is what the handler of the event of this name does with its socket.
func (w *siow) act(so socketio.Socket, s int, nsp, cmd string) {
	lane := "cb" + strconv.Itoa(s)
	f := strings.Split(cmd, ":")
	switch f[0] {
	case "emit":
		w.emit(so, s, s, nsp, lane, "str", []interface{}{"from a callback"}, "", false)
	case "many":
		for i := 0; i < 20; i++ {
			w.emit(so, s, s, nsp, lane, "str", []interface{}{strconv.Itoa(i)}, "", false)
		}
	case "ack":
		w.emit(so, s, s, nsp, lane, "str", []interface{}{"with callback"}, "a1", false)
	case "error":
		w.emit(so, s, s, nsp, lane, "", nil, "", true)
	case "other":
		o, _ := strconv.Atoi(f[1])
		w.mu.Lock()
		p := w.peers[o]
		var other socketio.Socket
		if p != nil {
			other = p.socks["/"]
		}
		w.mu.Unlock()
		if other != nil {
			w.emit(other, o, s, "/", lane, "str", []interface{}{"from another session"}, "", false)
		}
	case "close":
		w.lock(func() {
			w.ev(E{"ev": "end", "s": s, "how": "close in a callback", "cut": false})
			w.peers[s].over = true
		})
		so.Close()
	}
}

// emit sends from the application and records when and with what result; in is the session whose callback does it, if any.
func (w *siow) emit(so socketio.Socket, s, in int, nsp, lane, name string, args []interface{}, ak string, isErr bool) {
	vals := canons(args)
	send := []interface{}{}
	for i, a := range args {
		if b, ok := a.([]byte); ok && w.parser == "default" {
			if i%2 == 0 {
				a = socketio.Bytes{Data: b}
			} else {
				a = &socketio.Bytes{Data: b}
			}
		}
		send = append(send, a)
	}
	k, t := 0, "EVENT"
	w.mu.Lock()
	if isErr {
		t, name, vals, ak = "ERROR", "", []Val{}, ""
	}
	if ak != "" {
		w.emits++
		k = w.emits
	}
	w.ev(E{"ev": "emit", "s": s, "in": in, "lane": lane, "t": t, "nsp": nsp, "name": asciiName(name), "args": vals, "k": k, "ak": ak})
	p := w.peers[s]
	w.mu.Unlock()
	if ak != "" {
		at := 0
		if len(send) > 0 {
			at = w.intn(len(send) + 1)
		}
		send = append(send[:at:at], append([]interface{}{w.ackCallback(nsp, k, ak)}, send[at:]...)...)
	}
	var err error
	switch {
	case isErr:
		err = so.EmitError("error text")
	case p != nil && p.client != nil && w.intn(2) == 0:
		err = p.client.Emit(nsp, name, send...)
	default:
		err = so.Emit(name, send...)
	}
	for _, a := range send { // the bytes are the caller's again
		switch b := a.(type) {
		case socketio.Bytes:
			for i := range b.Data {
				b.Data[i] = '#'
			}
		case []byte:
			for i := range b {
				b[i] = '#'
			}
		}
	}
	w.lock(func() { w.ev(E{"ev": "emitted", "lane": lane, "ok": err == nil}) })
}

func (w *siow) ackCallback(nsp string, k int, ak string) interface{} {
	cb := func(so socketio.Socket, args ...Val) { _, end := w.begin(so, "ack", nsp, "", k, args); end() }
	switch ak {
	case "a1":
		return func(s string, i int) { cb(nil, canon(s), canon(i)) }
	case "a2":
		return func() { cb(nil) }
	case "a3":
		if w.parser == "msgpack" {
			return func(b []byte, s string) { cb(nil, canon(b), canon(s)) }
		}
		return func(b *socketio.Bytes, s string) { cb(nil, canon(b), canon(s)) }
	case "a4":
		return func(so socketio.Socket, v interface{}) { cb(so, sockMark, canon(v)) }
	}
	return func(i *int) { cb(nil, canon(i)) }
}

// ---------------------------------------------------------------------------------------------------- the raw peer

// gotMsg is a message of the implementation.
func (p *siop) gotMsg(f Pkt) {
	w := p.w
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.parser == "default" && f.Bin {
		w.ev(E{"ev": "rxb", "s": p.s, "data": hex.EncodeToString(f.Data)})
		return
	}
	e, err := decodeSio(w.parser, f)
	if err != nil {
		w.ev(E{"ev": "rxbad", "s": p.s, "why": err.Error(), "text": strconv.QuoteToASCII(short(string(f.Data)))})
		return
	}
	e["ev"], e["s"] = "rx", p.s
	w.ev(e)
	if id := e["id"].(string); id != "" && strings.HasSuffix(e["t"].(string), "EVENT") {
		p.pending = append(p.pending, reqID{e["nsp"].(string), id, ""})
	}
}

func (p *siop) ended() { p.w.lock(func() { p.w.ev(E{"ev": "peerend", "s": p.s}) }) }

func (p *siop) readWS() {
	for {
		mt, b, err := p.ws.ReadMessage()
		if err != nil {
			p.ws.UnderlyingConn().Close()
			p.ended()
			return
		}
		f, ok := fromFrame(mt, b)
		if !ok {
			p.w.lock(func() { p.w.ev(E{"ev": "rxbad", "s": p.s, "why": "no engine.io packet", "text": ""}) })
			continue
		}
		switch f.Type {
		case 4:
			p.gotMsg(f)
		case 2:
			if !p.silent {
				p.write(Pkt{Type: 3, Bin: f.Bin, Data: f.Data})
			}
		}
	}
}

func (p *siop) write(f Pkt) {
	mt, b := wsFrame(f)
	p.w.mu.Lock()
	defer p.w.mu.Unlock()
	p.ws.WriteMessage(mt, b)
}

func (p *siop) url() string { return "/engine.io/?EIO=3&transport=polling&sid=" + p.sid }

func (p *siop) pollLoop(ctx context.Context) {
	for {
		re := p.w.request(ctx, "GET", p.url(), nil, nil)
		if re.code != 200 {
			p.ended()
			return
		}
		ps, err := decodePoll("bin", re)
		if err != nil {
			p.w.lock(func() { p.w.ev(E{"ev": "rxbad", "s": p.s, "why": err.Error(), "text": ""}) })
			return
		}
		for _, f := range ps {
			if f.Type == 4 {
				p.gotMsg(f)
			}
		}
	}
}

func (p *siop) postLoop() {
	for ps := range p.post {
		for len(ps) > 0 {
			n := 1 + p.w.intn(len(ps))
			b := binPayload(ps[:n]...)
			hdr := http.Header{"Content-Type": {"application/octet-stream"}}
			if p.w.intn(2) == 0 {
				b = textPayload(ps[:n]...)
				hdr.Set("Content-Type", "text/plain; charset=UTF-8")
			}
			p.w.request(context.Background(), "POST", p.url(), hdr, b)
			ps = ps[n:]
		}
	}
}

// sendFrames puts frames on the way to the implementation.
func (p *siop) sendFrames(fs ...Pkt) {
	if p.polling {
		p.post <- fs
		return
	}
	for _, f := range fs {
		p.write(f)
	}
}

// send sends a packet; gap lets everything settle between its frames.
func (p *siop) send(q sioPkt, gap bool) {
	w := p.w
	if p.over {
		return
	}
	frames, args := encodeSio(w.c.Rand, w.parser, q)
	n := len(frames) - 1
	w.lock(func() {
		w.ev(E{"ev": "tx", "s": p.s, "t": sioTypes[q.Type], "nsp": q.Nsp, "id": q.ID, "name": asciiName(q.Name), "args": args, "n": n})
	})
	var out []Pkt
	for i, f := range frames {
		if i > 0 {
			if gap {
				p.sendFrames(out...)
				out = nil
				w.settle()
			}
			w.lock(func() { w.ev(E{"ev": "txb", "s": p.s, "data": hex.EncodeToString(f.Data)}) })
		}
		out = append(out, f)
	}
	p.sendFrames(out...)
}

// open begins session s.
func (w *siow) open(o Op) {
	s := o.I("s")
	p := &siop{w: w, s: s, socks: map[string]socketio.Socket{}, greet: o.I("greet")}
	w.lock(func() {
		w.peers[s] = p
		w.opening = s
		w.ev(E{"ev": "open", "s": s})
	})
	if w.role == "client" {
		w.openClient(p)
		return
	}
	if o.S("tr") == "polling" {
		p.polling = true
		p.post = make(chan []Pkt, 1000)
		re := w.request(context.Background(), "GET", "/engine.io/?EIO=3&transport=polling", nil, nil)
		ps, err := decodePoll("bin", re)
		if err != nil || len(ps) < 1 || ps[0].Type != 0 {
			w.ev(E{"ev": "badopen", "s": s})
			p.over = true
			return
		}
		p.sid = openSid(ps[0].Data)
		go p.pollLoop(context.Background())
		go p.postLoop()
	} else {
		ws, code, why := w.dialWS("/engine.io/?EIO=3&transport=websocket", nil, 0)
		if code != 101 {
			w.ev(E{"ev": "badopen", "s": s, "why": why})
			p.over = true
			return
		}
		_, b, err := ws.ReadMessage()
		if err != nil || len(b) < 1 || b[0] != '0' {
			w.ev(E{"ev": "badopen", "s": s})
			p.over = true
			return
		}
		p.ws, p.sid = ws, openSid(b[1:])
		go p.readWS()
	}
	w.lock(func() { w.bySid[p.sid] = s })
}

func openSid(b []byte) string {
	var m struct {
		Sid string `json:"sid"`
	}
	json.Unmarshal(b, &m)
	return m.Sid
}

func (w *siow) openClient(p *siop) {
	p.sid = fmt.Sprintf("S%d", p.s)
	w.lock(func() { w.bySid[p.sid] = p.s })
	early := p.greet
	ready := make(chan struct{})
	d := &memDialer{peer: func(ws *websocket.Conn, _ http.Header) {
		p.ws = ws
		p.write(Pkt{Type: 0, Data: []byte(fmt.Sprintf(`{"sid":%q,"upgrades":[],"pingInterval":25000,"pingTimeout":60000}`, p.sid))})
		if early > 0 { // packets right behind OPEN
			p.send(sioPkt{Type: 0, Nsp: "/"}, false)
		}
		for i := 1; i < early; i++ {
			p.send(sioPkt{Type: 2, Nsp: "/", Name: "str", Args: []interface{}{"early"}, ID: strconv.Itoa(i)}, false)
		}
		close(ready)
		p.readWS()
	}}
	c := socketio.NewClient()
	p.client = c
	w.register(c)
	c.OnError(func(err interface{}) {
		_, end := w.begin(nil, "globalerror", "", "", 0, nil)
		end()
	})
	err := c.Dial("ws://host/socket.io/", nil, d, w.parserOf())
	if err != nil || c.Sid() != p.sid {
		w.ev(E{"ev": "badopen", "s": p.s, "why": fmt.Sprint(err)})
		p.over = true
		return
	}
	<-ready
}

func strs(v interface{}) (out []string) {
	l, _ := v.([]interface{})
	for _, x := range l {
		out = append(out, x.(string))
	}
	return
}

// lane gives a name nobody else sends under.
func (w *siow) lane() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.lanes++
	return fmt.Sprintf("app%d", w.lanes)
}

// anySocket is a socket of the session to send with on nsp.
func (p *siop) anySocket(nsp string) socketio.Socket {
	p.w.mu.Lock()
	defer p.w.mu.Unlock()
	if so := p.socks[nsp]; so != nil {
		return so
	}
	return nil
}

func (w *siow) appEmit(p *siop, o Op, lane string, args []interface{}, ak string, isErr bool) {
	nsp := o.S("nsp")
	so := p.anySocket(nsp)
	if so == nil {
		if p.client == nil || isErr {
			return
		}
		so = &clientSock{p.client, nsp}
	}
	w.emit(so, p.s, 0, nsp, lane, "str", args, ak, isErr)
}

// clientSock sends through the client itself.
type clientSock struct {
	*socketio.Client
	nsp string
}

func (c *clientSock) Emit(event string, args ...interface{}) error {
	return c.Client.Emit(c.nsp, event, args...)
}
func (c *clientSock) Namespace() string { return c.nsp }

func (w *siow) blocked() []int {
	out := []int{}
	for s, p := range w.peers {
		if p.gate != nil {
			out = append(out, s)
		}
	}
	return out
}

func (w *siow) settled() {
	w.settle()
	w.lock(func() { w.ev(E{"ev": "settled", "blocked": w.blocked()}) })
}

func (w *siow) end(p *siop, how string) {
	mark := func(q *siop) {
		w.lock(func() {
			if !q.over {
				w.ev(E{"ev": "end", "s": q.s, "how": how, "cut": how == "close" || how == "silence"})
			}
			q.over = true
		})
	}
	switch {
	case how == "silence":
		w.lock(func() {
			for _, q := range w.peers {
				q.silent = true
			}
		})
		for _, q := range w.peers {
			mark(q)
		}
		time.Sleep(100 * time.Second)
	case how == "close":
		so := p.anySocket("/")
		if so == nil && p.client != nil {
			mark(p)
			p.client.Close()
			return
		}
		if so == nil {
			for _, x := range p.socks {
				so = x
			}
		}
		mark(p)
		if p.client != nil && w.intn(2) == 0 {
			p.client.Close()
			return
		}
		so.Close()
	case how == "closeact":
		p.send(sioPkt{Type: 2, Nsp: "/", Name: "act", Args: []interface{}{"close"}}, false)
	case p.polling:
		mark(p)
		p.post <- []Pkt{w.bye()}
	case how == "drop":
		mark(p)
		p.ws.UnderlyingConn().Close()
	case how == "badframe":
		mark(p)
		p.w.mu.Lock()
		p.ws.UnderlyingConn().Write(bytes.Repeat([]byte{0xff}, 8))
		p.w.mu.Unlock()
	default:
		mark(p)
		p.write(w.bye())
	}
}

func (w *siow) do(o Op) {
	p := w.peers[o.I("s")]
	if p == nil && o.S("op") != "open" {
		return
	}
	r := w.c.Rand
	switch o.S("op") {
	case "open":
		w.open(o)
	case "event":
		q := sioPkt{Type: 2, Nsp: o.S("nsp"), Name: o.S("name"), Args: randVals(r, strs(o["kinds"]))}
		if o.B("id") {
			q.ID = []string{"0", "1", "7", "12345", "18446744073709551615"}[r.Intn(5)]
		}
		p.send(q, o.I("gap") == 1)
	case "act":
		cmd := o.S("what")
		if cmd == "other" {
			cmd += ":" + strconv.Itoa(o.I("other"))
		}
		q := sioPkt{Type: 2, Nsp: o.S("nsp"), Name: "act", Args: []interface{}{cmd}}
		if o.B("id") {
			q.ID = "3"
		}
		p.send(q, false)
	case "connect":
		p.send(sioPkt{Type: 0, Nsp: o.S("nsp")}, false)
	case "disconnect":
		w.lock(func() { // answers to requests of the namespace are worth nothing now
			var keep []reqID
			for _, x := range p.pending {
				if x.nsp != o.S("nsp") {
					keep = append(keep, x)
				}
			}
			p.pending = keep
			keep = nil
			for _, x := range p.used {
				if x.nsp != o.S("nsp") {
					keep = append(keep, x)
				}
			}
			p.used = keep
		})
		p.send(sioPkt{Type: 1, Nsp: o.S("nsp")}, false)
	case "ack":
		w.answer(p, o)
	case "error":
		p.send(sioPkt{Type: 4, Nsp: o.S("nsp"), Extra: "some error"}, false)
	case "bad":
		w.bad(p, o.S("cls"))
	case "emit":
		w.appEmit(p, o, "app0", randVals(r, strs(o["kinds"])), o.S("ak"), o.B("err"))
	case "burst":
		w.burst(p, o)
	case "block":
		w.lock(func() { p.gate = make(chan struct{}) })
	case "unblock":
		w.unblock(p)
	case "end":
		if !p.over {
			w.end(p, o.S("how"))
		}
	}
}

func (w *siow) unblock(p *siop) {
	w.mu.Lock()
	g := p.gate
	p.gate = nil
	w.mu.Unlock()
	if g != nil {
		close(g)
	}
}

// burst: several goroutines of the application send at once, with attachments and callbacks.
func (w *siow) burst(p *siop, o Op) {
	nsp := o.S("nsp")
	so := p.anySocket(nsp)
	if so == nil {
		return
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	n, each := o.I("n"), o.I("each")
	for g := 0; g < n; g++ {
		lane := w.lane()
		var argss [][]interface{}
		var aks []string
		for i := 0; i < each; i++ {
			argss = append(argss, randVals(w.c.Rand, [][]string{{"x"}, {"s", "x", "#", "x"}, {"x", "x", "x"}, {"s"}, {"x", "x", "x", "x", "s", "x", "x", "x", "x", "x", "x", "x", "x"}}[w.c.Rand.Intn(5)]))
			aks = append(aks, []string{"", "a1", "a2", "a4", "a5"}[w.c.Rand.Intn(5)])
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := range argss {
				w.emit(so, p.s, 0, nsp, lane, "str", argss[i], aks[i], false)
				runtime.Gosched()
			}
		}()
	}
	close(start)
	wg.Wait()
}

// answer acknowledges a request of the implementation, or something else.
func (w *siow) answer(p *siop, o Op) {
	w.mu.Lock()
	var x reqID
	r := w.c.Rand
	take := func(i int) {
		x = p.pending[i]
		p.pending = append(append([]reqID{}, p.pending[:i]...), p.pending[i+1:]...)
		p.used = append(p.used, x)
	}
	n := len(p.pending)
	switch pick := o.S("pick"); {
	case pick == "unknown" || n == 0 && len(p.used) == 0:
		x = reqID{nsp: o.S("nsp"), id: []string{"0", "99999", "18446744073709551615"}[r.Intn(3)]}
	case pick == "used" && len(p.used) > 0:
		x = p.used[r.Intn(len(p.used))]
	case pick == "foreign" && n > 0:
		x = p.pending[r.Intn(n)]
		for _, y := range p.pending { // an id that is outstanding there as well would be an answer
			if y.nsp == o.S("nsp") && y.id == x.id {
				x.id = "77777"
			}
		}
		x.nsp = o.S("nsp")
	case n == 0:
		x = p.used[0]
	case pick == "last":
		take(n - 1)
	case pick == "any":
		take(r.Intn(n))
	default:
		take(0)
	}
	w.mu.Unlock()
	how := o.I("how")
	kinds := [][]string{{"s", "#"}, {"x", "s"}, {"s"}, {"#"}, {"x"}}[r.Intn(5)]
	switch {
	case how == 5:
		kinds = nil
	case how == 7:
		kinds = []string{"n", "n"}
	case how > 7:
		kinds = append(kinds, strs(o["kinds"])...)
	}
	p.send(sioPkt{Type: 3, Nsp: x.nsp, ID: x.id, Args: randVals(r, kinds)}, o.I("gap") == 1)
}

// bad sends a frame that is no packet.
func (w *siow) bad(p *siop, cls string) {
	if p.over {
		return
	}
	r := w.c.Rand
	var f Pkt
	if w.parser == "default" {
		if cls == "decode" {
			f = []Pkt{{Type: 4, Data: []byte("9")}, {Type: 4, Data: []byte("")}, {Type: 4, Data: []byte("2{}")}, {Type: 4, Data: []byte("51-[\"bin\"]")}, {Type: 4, Bin: true, Data: []byte("x")},
				{Type: 4, Data: []byte("3x")}, {Type: 4, Data: []byte("5x-[\"a\"]")}, {Type: 4, Data: []byte(`50-["bin",{"_placeholder":true,"num":0}]`)}}[r.Intn(8)]
		} else {
			f = []Pkt{{Type: 4, Data: []byte(`2["str"`)}, {Type: 4, Data: []byte(`2["str",`)}, {Type: 4, Data: []byte(`2[5]`)}, {Type: 4, Data: []byte(`2[]`)}, {Type: 4, Data: []byte(`2["str","x"`)},
				{Type: 4, Data: []byte(`2["str" "x"]`)}, {Type: 4, Data: []byte(`2`)}}[r.Intn(7)]
		}
	} else {
		if cls == "decode" {
			f = []Pkt{{Type: 4, Data: []byte("")}, {Type: 4, Data: []byte("2[]")}, {Type: 4, Bin: true, Data: []byte{0xc1}}, {Type: 4, Bin: true, Data: []byte{}}, {Type: 4, Bin: true, Data: []byte("\x84\xa4type\x02")}}[r.Intn(5)]
		} else {
			f = []Pkt{{Type: 4, Bin: true, Data: []byte("\x82\xa4type\x02\xa3nsp\xa1/")}, {Type: 4, Bin: true, Data: []byte("\x82\xa4type\x02\xa4data\x05")}, {Type: 4, Bin: true, Data: []byte("\x82\xa4type\x02\xa4data\x90")}, {Type: 4, Bin: true, Data: []byte("\x82\xa4type\x02\xa4data\x91\x05")}}[r.Intn(4)]
		}
	}
	w.lock(func() { w.ev(E{"ev": "bad", "s": p.s, "cls": cls, "text": strconv.QuoteToASCII(string(f.Data))}) })
	p.sendFrames(f)
}

func driveSio(c *Ctx, n int, script []Op) {
	role, parser := c.Job.Str("role", "server"), c.Job.Str("parser", "default")
	c.Log.Ev(E{"ev": "reset", "n": n, "role": role, "parser": parser})
	c.bubble(func(t *testing.T) {
		w := &siow{World: newWorld(c, true), role: role, parser: parser, peers: map[int]*siop{}, bySid: map[string]int{}}
		if role == "server" {
			srv, err := socketio.NewServer(25*time.Second, 60*time.Second, w.parserOf())
			if err != nil {
				panic(err)
			}
			w.srv, w.h = srv, srv
			w.register(srv)
			srv.OnError(func(err error) {
				_, end := w.begin(nil, "globalerror", "", "", 0, nil)
				end()
			})
		}
		for i, o := range script {
			w.do(o)
			// frames of the peer may follow one another at once; everything else waits until nothing is left to do
			if o.B("now") && i+1 < len(script) {
				switch nx := script[i+1]; nx.S("op") {
				case "event", "act", "connect", "disconnect", "ack", "error", "bad":
					continue
				case "end":
					if h := nx.S("how"); (h == "drop" || h == "closepkt") && nx.I("s") == o.I("s") {
						continue
					}
				}
			}
			w.settled()
		}
		for _, p := range w.peers {
			w.unblock(p)
		}
		w.settled()
		for s := 1; s <= 9; s++ {
			if p := w.peers[s]; p != nil && !p.over {
				w.end(p, []string{"closepkt", "drop", "close"}[c.Rand.Intn(3)])
				w.settled()
			}
		}
		w.settled()
		for s := 1; s <= 9; s++ {
			if p := w.peers[s]; p != nil { // nothing can be sent any more
				for nsp := range p.socks {
					w.appEmit(p, Op{"nsp": nsp}, "app0", []interface{}{"after the end"}, "", false)
				}
				if p.post != nil {
					close(p.post)
				}
				if p.client != nil {
					p.client.Close()
				}
			}
		}
		if w.srv != nil {
			w.srv.Close()
		}
		w.settled()
		w.over.Store(true)
	})
}

var _ engine.Dialer = (*memDialer)(nil)
var _ = bytes.NewReader
