package harness

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/engine"
)

// The session driver: engine.io sessions of a real engine.Server, with raw clients that speak the protocol.

func init() { drivers["session"] = sessionDriver }

type sworld struct {
	*World
	srv      *engine.Server
	peers    map[int]*peer
	cands    map[int]*cand
	cond     *sync.Cond // on World.mu
	interval time.Duration
	timeout  time.Duration
	byID     map[*engine.Socket]*peer
	byNo     map[string]*peer
	content  map[string]int // direction, kind and bytes -> message
	nextM    int
	empties  map[string]bool
	huge     bool                              // there has been a message of more than a megabyte
	writing  map[*websocket.Conn]chan struct{} // one frame at a time
}

func (w *sworld) write(ws *websocket.Conn, mt int, b []byte) error {
	w.mu.Lock()
	ch := w.writing[ws]
	if ch == nil {
		ch = make(chan struct{}, 1)
		w.writing[ws] = ch
	}
	w.mu.Unlock()
	ch <- struct{}{}
	defer func() { <-ch }()
	return ws.WriteMessage(mt, b)
}

// peer is the client side of a session, and what the harness knows about its server side.
type peer struct {
	w        *sworld
	s        int
	sid      string
	tr       string // transport the client uses
	ws       *websocket.Conn
	ß        *engine.Socket
	polling  bool // a poll is in flight
	pump     bool // poll again and again
	lane     chan []laneMsg
	laneBusy int
	gate     chan struct{}         // blocks the message handler
	senders  map[int]chan sendWork // server side
	sending  int
	out      map[string]int // messages on their way, by direction
	closed   int            // close callbacks
	caused   bool           // and has been done
	limit    int            // what the connection holds while nobody reads; 0: everything
	stall    chan struct{}  // the client does not read until it is closed
	closing  bool           // something that ends the session was done
	upgrades int
	wsEnd    bool // the client's WebSocket has ended
	pings    int  // not answered yet
	opened   bool
	mode     int
	gc       *engine.Client // if the client is one of the engine's
	cgate    chan struct{}  // blocks its message handler
	cut      func()
	keep     bool // polling although the end is near
	probing  int  // candidates that have had their pong and are undecided: the client does not go on polling meanwhile
}

type laneMsg struct {
	m  int
	p  Pkt
	do func(tr string, ws *websocket.Conn) // instead of a message
}

type sendWork struct{ cls int }

type cand struct {
	c      int
	p      *peer
	ws     *websocket.Conn
	ponged bool
	ended  bool
	asked  bool
	pinged bool
	spoilt bool // it has sent something out of place
}

func (w *sworld) lock(f func()) { w.mu.Lock(); f(); w.cond.Broadcast(); w.mu.Unlock() }

// is evaluates f with the lock held.
func (w *sworld) is(f func() bool) func() bool {
	return func() bool { w.mu.Lock(); defer w.mu.Unlock(); return f() }
}

// ev logs e; lines appear in the order of the calls, and what e tells has happened or is about to happen.
func (w *sworld) log(e E) {
	e["t"] = w.now()
	w.ev(e)
}

// message makes up message contents: unique within the run, except that one of each kind may be empty.
func (w *sworld) message(s int, dir string, cls int) laneMsg {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.nextM++
	m := w.nextM
	p := Pkt{Type: 4}
	id := fmt.Sprintf("m%d.", m)
	fill := func(n int) []byte {
		b := make([]byte, n)
		w.rnd.Read(b)
		return b
	}
	switch cls % 12 {
	case 0:
		p.Data = []byte(id)
	case 1:
		p.Bin, p.Data = true, append([]byte(id), fill(w.rnd.Intn(9))...)
	case 2:
		if w.rnd.Intn(2) == 0 { // what it begins with
			id = []string{"\ufeff", " ", "\n", "\x00", "4", "b4", "\u2028", "-1:", "0{", "3probe"}[w.rnd.Intn(10)] + id
		}
		p.Data = []byte(id + "é漢😀\"\\/\n\r\t\u2028\u2029</script>&\x00\x7f")
	case 3:
		n := 9000 + w.rnd.Intn(9000)
		if !w.huge && w.rnd.Intn(16) == 0 {
			w.huge, n = true, 250000+w.rnd.Intn(500000)
		}
		p.Data = []byte(id + strings.Repeat("x1:é", n))
	case 4:
		if !w.huge && w.rnd.Intn(16) == 0 {
			w.huge = true
			p.Bin, p.Data = true, append([]byte(id), fill(1000000+w.rnd.Intn(3000000))...)
			break
		}
		p.Bin, p.Data = true, append([]byte(id), fill(60000+w.rnd.Intn(9000))...)
	case 5:
		if !w.empties[fmt.Sprint(s, dir, "t")] {
			w.empties[fmt.Sprint(s, dir, "t")] = true
			break
		}
		p.Data = []byte(id)
	case 6:
		p.Bin, p.Data = true, append([]byte{0xff, 0, 4, 0xff}, id...)
	case 7:
		p.Data = []byte("2probe6:4" + id)
	case 8:
		p.Bin = true
		if !w.empties[fmt.Sprint(s, dir, "b")] {
			w.empties[fmt.Sprint(s, dir, "b")] = true
			break
		}
		p.Data = []byte(id)
	case 9:
		p.Data = []byte(id + strings.Repeat("-", 118+w.rnd.Intn(8)))
	case 10:
		p.Bin, p.Data = true, append([]byte(id), make([]byte, 118+w.rnd.Intn(8))...)
	case 11:
		p.Bin, p.Data = true, append([]byte(id), fill(65525+w.rnd.Intn(12)-len(id))...)
	}
	w.content[w.key(s, dir, p)] = m
	w.peers[s].out[dir]++
	return laneMsg{m: m, p: p}
}

func (w *sworld) key(s int, dir string, p Pkt) string {
	return fmt.Sprint(s, dir, p.Bin) + string(p.Data)
}

// got identifies a received message: its number, or -1 for one nobody sent.
func (w *sworld) got(s int, dir string, p Pkt) int {
	if m, ok := w.content[w.key(s, dir, p)]; ok {
		return m
	}
	return -1
}

// refuser is an origin check that refuses requests with a certain header.
type refuser string

func (f refuser) CheckOrigin(r *http.Request) bool { return r.Header.Get(string(f)) == "" }

func newSWorld(c *Ctx, virtual bool, interval, timeout time.Duration) *sworld {
	w := &sworld{World: newWorld(c, virtual), peers: map[int]*peer{}, cands: map[int]*cand{}, interval: interval, timeout: timeout,
		byID: map[*engine.Socket]*peer{}, byNo: map[string]*peer{}, content: map[string]int{}, empties: map[string]bool{},
		writing: map[*websocket.Conn]chan struct{}{}}
	w.cond = sync.NewCond(&w.mu)
	srv, err := engine.NewServer(interval, timeout, w.onOpen, nil, refuser("X-Refuse"), refuser("X-Refuse-Too"))
	if err != nil {
		panic(err)
	}
	w.srv, w.h = srv, srv
	on := func(f func(p *peer, kind engine.MessageType, data []byte)) engine.Callback {
		return func(ß *engine.Socket, kind engine.MessageType, data []byte) {
			w.mu.Lock()
			p := w.byID[ß]
			w.mu.Unlock()
			if p == nil {
				w.log(E{"ev": "stranger"})
				return
			}
			f(p, kind, data)
		}
	}
	srv.On(engine.EventMessage, on(func(p *peer, kind engine.MessageType, data []byte) {
		data = append([]byte{}, data...)
		q := Pkt{Type: 4, Bin: kind == engine.MessageTypeBinary, Data: data}
		w.mu.Lock()
		m := w.got(p.s, "c", q)
		gate := p.gate
		w.mu.Unlock()
		w.log(E{"ev": "hb", "s": p.s, "m": m})
		if gate != nil {
			<-gate
		}
		w.log(E{"ev": "he", "s": p.s, "m": m})
		w.lock(func() {
			if m > 0 {
				p.out["c"]--
			}
		})
	}))
	srv.On(engine.EventUpgrade, on(func(p *peer, _ engine.MessageType, _ []byte) {
		w.log(E{"ev": "upgraded", "s": p.s})
		w.lock(func() { p.upgrades++ })
	}))
	srv.On(engine.EventPing, on(func(p *peer, _ engine.MessageType, _ []byte) {
		w.log(E{"ev": "pingcb", "s": p.s})
	}))
	srv.On(engine.EventClose, on(func(p *peer, _ engine.MessageType, _ []byte) {
		w.log(E{"ev": "closecb", "s": p.s})
		w.lock(func() { p.closed++ })
	}))
	return w
}

func (w *sworld) onOpen(ß *engine.Socket) {
	no := ß.GetHeader("X-Session")
	w.mu.Lock()
	p := w.byNo[no]
	if p != nil {
		w.byID[ß] = p
		p.ß = ß
	}
	w.mu.Unlock()
	if p == nil {
		w.log(E{"ev": "stranger"})
		return
	}
	w.log(E{"ev": "opencb", "s": p.s})
	w.mu.Lock()
	gate := p.gate
	w.mu.Unlock()
	w.lock(func() { p.opened = true })
	if gate != nil {
		<-gate
	}
}

var jsonpIndexes = []string{"0", "7", "123"}

func (p *peer) pollMode() string {
	switch p.mode {
	case 1:
		return "bin"
	case 2:
		return "b64"
	case 3:
		return jsonpIndexes[p.w.intn(3)]
	}
	return []string{"bin", "b64", jsonpIndexes[p.w.intn(3)]}[p.w.intn(3)]
}

func (p *peer) url(tr string) string {
	u := "/engine.io/?EIO=3&transport=" + tr
	if p.sid != "" {
		u += "&sid=" + p.sid
	}
	return u
}

func (w *sworld) connect(s int, tr string, mode int, block bool, limit int) {
	p := &peer{w: w, s: s, tr: tr, out: map[string]int{}, senders: map[int]chan sendWork{}, lane: make(chan []laneMsg, 4096), mode: mode, limit: limit}
	if block {
		p.gate = make(chan struct{})
	}
	no := fmt.Sprint("no", s)
	w.lock(func() { w.peers[s] = p; w.byNo[no] = p })
	w.log(E{"ev": "new", "s": s, "tr": map[bool]string{true: tr, false: "websocket"}[tr != "goclient"], "go": tr == "goclient"})
	hdr := http.Header{"X-Session": {no}}
	var open Pkt
	ok := false
	if tr == "goclient" {
		p.tr = "websocket"
		w.goConnect(s, hdr, p)
		return
	}
	if tr == "polling" {
		mode := p.pollMode()
		re := w.request(context.Background(), "GET", p.url(tr)+pollQuery(mode), hdr, nil)
		if ps, err := decodePoll(mode, re); err == nil && re.code == 200 && len(ps) == 1 {
			open, ok = ps[0], true
		}
	} else {
		ws, code, _ := w.dialWS(p.url(tr), hdr, p.limit)
		if code == 101 {
			if mt, b, err := ws.ReadMessage(); err == nil {
				if open, ok = fromFrame(mt, b); ok {
					p.ws = ws
				}
			}
		}
	}
	var par engine.Parameters
	if ok {
		ok = open.Type == 0 && !open.Bin && json.Unmarshal(open.Data, &par) == nil && par.SID != ""
	}
	p.sid = par.SID
	w.log(E{"ev": "open", "s": s, "ok": ok})
	if !ok {
		return
	}
	go p.laneLoop()
	if tr == "websocket" {
		go p.wsLoop(p.ws)
	}
}

// incoming logs a packet the client has received.
func (p *peer) incoming(q Pkt, over string) {
	w := p.w
	switch q.Type {
	case 4:
		w.mu.Lock()
		m := w.got(p.s, "s", q)
		w.mu.Unlock()
		w.log(E{"ev": "recv", "s": p.s, "m": m, "over": over})
		w.lock(func() {
			if m > 0 {
				p.out["s"]--
			}
		})
	case 3:
		w.log(E{"ev": "pong", "s": p.s, "bin": q.Bin, "data": base64.StdEncoding.EncodeToString(q.Data)})
		w.lock(func() { p.pings-- })
	case 6:
		w.log(E{"ev": "noop", "s": p.s, "over": over})
	default:
		w.log(E{"ev": "odd", "s": p.s, "type": int(q.Type), "over": over})
	}
}

// poll polls once; the caller has set p.polling.
func (p *peer) poll() {
	w := p.w
	for {
		mode := p.pollMode()
		re := w.request(context.Background(), "GET", p.url("polling")+pollQuery(mode), nil, nil)
		if re.code == 200 {
			ps, err := decodePoll(mode, re)
			if err != nil {
				w.log(E{"ev": "garbled", "s": p.s, "what": err.Error()})
			} else if len(ps) == 0 {
				w.log(E{"ev": "garbled", "s": p.s, "what": "no packet"})
			}
			for _, q := range ps {
				p.incoming(q, "polling")
			}
		} else {
			w.log(E{"ev": "pollerr", "s": p.s, "code": re.code})
		}
		stop := false
		w.lock(func() {
			stop = !p.pump || re.code != 200 || p.tr != "polling" || p.probing > 0
			if stop {
				p.polling = false
			}
		})
		if stop {
			return
		}
		if !w.virtual && w.intn(4) == 0 {
			time.Sleep(time.Duration(w.intn(300)) * time.Microsecond)
		}
	}
}

func (p *peer) startPoll(pump bool) {
	go0 := false
	p.w.lock(func() {
		p.pump = p.pump || pump
		if !p.polling && p.tr == "polling" && (!p.closing || p.keep) && !(pump && p.probing > 0) {
			p.polling, go0 = true, true
		}
	})
	if go0 {
		go p.poll()
	}
}

func (p *peer) wsLoop(ws *websocket.Conn) {
	w := p.w
	for {
		w.mu.Lock()
		stall := p.stall
		w.mu.Unlock()
		if stall != nil {
			<-stall
		}
		mt, b, err := ws.ReadMessage()
		if err != nil {
			w.log(E{"ev": "wsend", "s": p.s, "err": err.Error()})
			w.lock(func() { p.wsEnd = true })
			ws.Close()
			return
		}
		q, ok := fromFrame(mt, b)
		if !ok {
			w.log(E{"ev": "garbled", "s": p.s, "what": "frame"})
			continue
		}
		p.incoming(q, "websocket")
	}
}

// laneLoop is the client's only sender: one request or frame at a time.
func (p *peer) laneLoop() {
	w := p.w
	for batch := range p.lane {
		w.mu.Lock()
		tr, ws := p.tr, p.ws
		w.mu.Unlock()
		if do := batch[0].do; do != nil {
			do(tr, ws)
			w.lock(func() { p.laneBusy-- })
			continue
		}
		var ids []int
		var ps []Pkt
		for _, x := range batch {
			ids = append(ids, x.m)
			ps = append(ps, x.p)
		}
		ok := false
		if tr == "polling" {
			w.log(E{"ev": "send", "s": p.s, "dir": "c", "snd": 0, "ms": ids})
			var re resp
			if w.intn(2) == 0 {
				re = w.request(context.Background(), "POST", p.url(tr), http.Header{"Content-Type": {"text/plain;charset=UTF-8"}}, textPayload(ps...))
			} else {
				re = w.request(context.Background(), "POST", p.url(tr), http.Header{"Content-Type": {"application/octet-stream"}}, binPayload(ps...))
			}
			ok = re.code == 200
			w.log(E{"ev": "sent", "s": p.s, "dir": "c", "snd": 0, "ms": ids, "ok": ok})
		} else {
			for i, q := range ps {
				w.log(E{"ev": "send", "s": p.s, "dir": "c", "snd": 0, "ms": ids[i : i+1]})
				mt, b := wsFrame(q)
				ok = w.write(ws, mt, b) == nil
				w.log(E{"ev": "sent", "s": p.s, "dir": "c", "snd": 0, "ms": ids[i : i+1], "ok": ok})
			}
		}
		w.lock(func() {
			p.laneBusy--
			if !ok {
				p.out["c"] -= len(ids)
			}
		})
	}
}

func (p *peer) csend(batch []laneMsg) {
	p.w.lock(func() { p.laneBusy++ })
	p.lane <- batch
}

// then does something once everything before has been sent.
func (p *peer) then(f func(tr string, ws *websocket.Conn)) { p.csend([]laneMsg{{do: f}}) }

// last does the same with something that ends the session.
func (p *peer) last(what string, f func(tr string, ws *websocket.Conn)) {
	p.w.lock(func() { p.closing = true })
	p.then(func(tr string, ws *websocket.Conn) {
		p.cause(what)
		f(tr, ws)
	})
}

// send queues k messages for sender snd of one side.
func (p *peer) send(dir string, snd, k, cls int) {
	w := p.w
	key := snd
	if dir == "c" {
		key += 1000
	}
	w.mu.Lock()
	ch := p.senders[key]
	if ch == nil {
		ch = make(chan sendWork, 4096)
		p.senders[key] = ch
		go func() {
			ß := p.ß
			if dir == "c" {
				ß = p.gc.Socket
			}
			for x := range ch {
				m := w.message(p.s, dir, x.cls)
				w.log(E{"ev": "send", "s": p.s, "dir": dir, "snd": snd, "ms": []int{m.m}})
				err := emit(ß, m)
				w.log(E{"ev": "sent", "s": p.s, "dir": dir, "snd": snd, "ms": []int{m.m}, "ok": err == nil})
				w.lock(func() {
					p.sending--
					if err != nil {
						p.out[dir]--
					}
				})
			}
		}()
	}
	p.sending += k
	w.mu.Unlock()
	for ; k > 0; k-- {
		c := cls
		if c < 0 {
			c = w.intn(12)
		}
		ch <- sendWork{c}
	}
}

// candidates

func (w *sworld) candidate(c, s int, bad bool) {
	p := w.peers[s]
	hdr := http.Header{"X-Candidate": {fmt.Sprint(c)}}
	if bad {
		hdr[[]string{"X-Refuse", "X-Refuse-Too"}[w.intn(2)]] = []string{"1"}
	}
	t0 := w.now()
	ws, code, _ := w.dialWS(p.url("websocket"), hdr, 0)
	if code != 101 {
		w.log(E{"ev": "candrefused", "c": c, "s": s, "code": code, "bad": bad})
		return
	}
	w.log(E{"ev": "cand", "c": c, "s": s, "code": code, "bad": bad, "t0": t0})
	k := &cand{c: c, p: p, ws: ws}
	w.lock(func() { w.cands[c] = k })
	go func() {
		for {
			mt, b, err := ws.ReadMessage()
			w.mu.Lock()
			mine := p.ws == ws
			w.mu.Unlock()
			if err != nil {
				if mine {
					w.log(E{"ev": "wsend", "s": p.s, "err": err.Error()})
				} else {
					w.log(E{"ev": "candend", "c": c, "s": s})
				}
				again := false
				w.lock(func() {
					k.ended = true
					if mine {
						p.wsEnd = true
					}
					if k.ponged {
						p.probing--
					}
					again = p.pump
				})
				ws.Close()
				if again {
					p.startPoll(true)
				}
				return
			}
			q, ok := fromFrame(mt, b)
			if !ok {
				w.log(E{"ev": "garbled", "s": s, "what": "frame"})
				continue
			}
			if !k.ponged && q.Type == 3 {
				w.log(E{"ev": "candpong", "c": c, "s": s, "bin": q.Bin, "data": base64.StdEncoding.EncodeToString(q.Data)})
				w.lock(func() { k.ponged = true; p.probing++ })
				continue
			}
			p.incoming(q, "websocket")
		}
	}()
}

func (k *cand) send(t byte, bin bool, data []byte) {
	name := map[byte]string{0: "open", 1: "close", 2: "ping", 3: "pong", 4: "message", 5: "upgrade", 6: "noop"}[t]
	k.p.w.log(E{"ev": "candsend", "c": k.c, "s": k.p.s, "type": name, "bin": bin, "data": base64.StdEncoding.EncodeToString(data)})
	mt, b := wsFrame(Pkt{t, bin, data})
	k.p.w.write(k.ws, mt, b)
}

func (k *cand) drop() {
	k.p.w.log(E{"ev": "candsend", "c": k.c, "s": k.p.s, "type": "drop", "bin": false, "data": ""})
	k.spoilt = true
	k.ws.UnderlyingConn().Close()
}

// request to switch: a client stops polling and posting first
func (k *cand) upgrade() {
	w, p := k.p.w, k.p
	w.lock(func() { p.pump = false })
	nopoll := w.is(func() bool { return !p.polling })
	noposts := w.is(func() bool { return p.laneBusy == 0 })
	if w.virtual {
		w.mu.Lock()
		for p.polling || p.laneBusy > 0 {
			w.cond.Wait()
		}
		w.mu.Unlock()
	} else if !w.await(nopoll) {
		w.log(E{"ev": "stuck", "s": p.s, "what": "poll during upgrade"})
		return
	} else if !w.awaitFor(200*time.Millisecond, noposts) {
		// the server waits for polls to take what it has sent before it takes more: the client gives the upgrade up
		k.drop()
		return
	}
	w.lock(func() { k.asked = true; p.tr, p.ws = "websocket", k.ws })
	k.send(5, false, nil)
}

func (k *cand) awaitPong() bool {
	w := k.p.w
	if w.virtual {
		w.mu.Lock()
		for !k.ponged && !k.ended {
			w.cond.Wait()
		}
		w.mu.Unlock()
		return k.ponged
	}
	if !w.await(w.is(func() bool { return k.ponged || k.ended })) {
		w.log(E{"ev": "stuck", "s": k.p.s, "what": "no pong"})
	}
	return k.ponged
}

func (p *peer) ping(data string, bin bool) {
	p.w.lock(func() { p.pings++ })
	p.then(func(tr string, ws *websocket.Conn) { p.pingNow(Pkt{2, bin, []byte(data)}, tr, ws) })
}

// pingNow is for the lane.
func (p *peer) pingNow(q Pkt, tr string, ws *websocket.Conn) {
	w := p.w
	w.log(E{"ev": "ping", "s": p.s, "bin": q.Bin, "data": base64.StdEncoding.EncodeToString(q.Data)})
	if tr == "polling" {
		re := w.request(context.Background(), "POST", p.url(tr), http.Header{"Content-Type": {"application/octet-stream"}}, binPayload(q))
		if re.code != 200 {
			w.log(E{"ev": "pingfail", "s": p.s})
		}
		return
	}
	mt, b := wsFrame(q)
	if w.write(ws, mt, b) != nil {
		w.log(E{"ev": "pingfail", "s": p.s})
	}
}

func (p *peer) cause(what string) {
	p.w.lock(func() { p.closing, p.caused, p.pump = true, true, false })
	p.w.log(E{"ev": "cause", "s": p.s, "what": what})
	// a client that knows nothing of the end goes on as before; one that does not take what it is sent any more would
	// make the end wait for the write timeout, which only virtual time affords
	if what == "server" || !p.w.virtual {
		p.w.lock(func() { p.keep = true })
		p.startPoll(true)
	}
}

// undecided gives up upgrades that have not been decided: they hold the session up.
func (w *sworld) undecided() {
	for _, k := range w.cands {
		if k.pinged && !k.asked && !k.ended {
			k.drop()
		}
	}
}

// quiet waits until everything sent has arrived.
func (w *sworld) quiet() {
	unholdAll()
	w.undecided()
	for _, p := range w.peers {
		p.unblock()
		if p.sid != "" {
			p.startPoll(true)
		}
	}
	w.await(w.is(func() bool {
		for _, k := range w.cands {
			if k.asked && !k.ended && k.p.upgrades == 0 && k.p.closed == 0 || k.spoilt && !k.ended {
				return false
			}
		}
		for _, p := range w.peers {
			if p.closed > 0 || p.caused || p.sid == "" {
				continue
			}
			if p.closing || p.out["s"] > 0 || p.out["c"] > 0 || p.sending > 0 || p.laneBusy > 0 || p.pings > 0 || !p.opened {
				return false
			}
		}
		return true
	}))
	w.settle()
	w.log(E{"ev": "quiet"})
}

func (p *peer) unblock() {
	var g chan struct{}
	var h chan struct{}
	p.w.lock(func() { g, p.gate, h, p.cgate = p.gate, nil, p.cgate, nil })
	if g != nil {
		close(g)
	}
	if h != nil {
		close(h)
	}
}

// refused asks for a session that must not exist any more, until it does not, and once more.
func (p *peer) refused() bool {
	w := p.w
	u := p.url("polling")
	try := func() bool {
		re := w.request(context.Background(), "POST", u, http.Header{"Content-Type": {"text/plain;charset=UTF-8"}}, textPayload(Pkt{Type: 6}))
		return re.code >= 400
	}
	switched := func() bool {
		ws, code, _ := w.dialWS(p.url("websocket"), nil, 1<<16)
		if ws != nil {
			ws.Close()
		}
		return code >= 400
	}
	poll := func() bool {
		return w.request(context.Background(), "GET", u, nil, nil).code >= 400
	}
	return w.await(try) && w.await(switched) && try() && switched() && poll()
}

func (w *sworld) final() {
	unholdAll()
	for i := 1; i <= len(w.peers); i++ {
		p := w.peers[i]
		if p.sid == "" {
			continue
		}
		p.unblock()
		if !p.closing && p.closed == 0 {
			p.cause("server")
			p.ß.Close()
		}
	}
	for _, k := range w.cands {
		if !k.ended && !k.asked {
			k.ws.Close()
		}
	}
	for i := 1; i <= len(w.peers); i++ {
		p := w.peers[i]
		if p.sid == "" {
			continue
		}
		ended := w.await(w.is(func() bool { return p.closed > 0 }))
		released := w.await(w.is(func() bool { return !p.polling && p.laneBusy == 0 && p.sending == 0 }))
		cut := w.await(w.is(func() bool { return p.ws == nil && p.gc == nil || p.wsEnd }))
		refused := p.refused()
		sendfails := w.await(func() bool { return p.ß.Send("after the end") != nil })
		err := p.ß.Close()
		w.log(E{"ev": "gone", "s": p.s, "ended": ended, "released": released, "cut": cut, "refused": refused, "sendfails": sendfails, "again": err == nil})
		if p.gc != nil {
			again := p.gc.Close()
			w.log(E{"ev": "cgone", "s": p.s, "sendfails": p.gc.Send("after the end") != nil, "again": again == nil})
		}
		close(p.lane)
		for _, ch := range p.senders {
			close(ch)
		}
	}
	w.await(w.is(func() bool {
		for _, k := range w.cands {
			if !k.ended && !(k.asked && k.p.ws == k.ws) {
				return false
			}
		}
		return true
	}))
	w.settle()
	w.log(E{"ev": "final"})
	w.over.Store(true)
	w.srv.Close()
}

func sessionDriver(c *Ctx, n int, script []Op) {
	virtual := c.Job.Str("mode", "real") == "virtual"
	run := func(t *testing.T) {
		interval := time.Duration(c.Job.Int("interval", 60000)) * time.Millisecond
		timeout := time.Duration(c.Job.Int("timeout", 60000)) * time.Millisecond
		if len(script) > 0 && script[0].S("op") == "timing" {
			interval, timeout = time.Duration(script[0].I("interval"))*time.Millisecond, time.Duration(script[0].I("timeout"))*time.Millisecond
			script = script[1:]
		}
		c.Log.Ev(E{"ev": "reset", "n": n, "interval": int(interval / time.Millisecond), "timeout": int(timeout / time.Millisecond)})
		w := newSWorld(c, virtual, interval, timeout)
		for _, op := range script {
			w.step(op)
		}
		w.quiet()
		w.final()
	}
	if virtual {
		c.bubble(run)
	} else {
		run(c.T)
	}
}

func (w *sworld) step(op Op) {
	s := op.I("s")
	p := w.peers[s]
	if p == nil && op.S("op") != "new" && s > 0 {
		return
	}
	if p != nil && (p.sid == "" || !p.opened && !w.await(w.is(func() bool { return p.opened }))) {
		return
	}
	k := w.cands[op.I("c")]
	gone := p != nil && (p.closing || p.closed > 0)
	if p != nil && p.gc != nil && strings.Contains(" ping closepkt badframe emptyframe stray cfull cand ", " "+op.S("op")+" ") {
		return
	}
	switch op.S("op") {
	case "new":
		if p == nil {
			w.connect(s, op.S("tr"), op.I("mode"), op.B("block"), op.I("limit"))
			if op.B("pump") {
				w.peers[s].startPoll(true)
			}
		}
		return
	case "ssend":
		p.send("s", op.I("snd"), op.I("k"), w.cls(op))
	case "csend":
		if p.gc != nil {
			p.send("c", op.I("snd"), op.I("k"), w.cls(op))
			break
		}
		if gone {
			return
		}
		var batch []laneMsg
		for i := op.I("k"); i > 0; i-- {
			batch = append(batch, w.message(s, "c", w.cls(op)))
		}
		p.csend(batch)
	case "poll":
		p.startPoll(false)
	case "pump":
		p.startPoll(true)
	case "nopump":
		w.lock(func() { p.pump = false })
	case "block":
		w.lock(func() {
			if p.gate == nil {
				p.gate = make(chan struct{})
			}
		})
	case "unblock":
		p.unblock()
	case "cblock":
		w.lock(func() {
			if p.cgate == nil && p.gc != nil {
				p.cgate = make(chan struct{})
			}
		})
	case "cunblock":
		p.unblock()
	case "cclose":
		if p.gc != nil && !p.wsEnd {
			p.cause("client")
			go func() {
				err := p.gc.Close()
				w.log(E{"ev": "cclosed", "s": s, "ok": err == nil})
			}()
		}
	case "linger": // one end closes while the other is slow to take what it has been sent
		if gone || p.tr != "websocket" || p.closed > 0 {
			return
		}
		stall := make(chan struct{})
		dir := op.S("dir")
		w.lock(func() {
			switch {
			case dir == "c":
				p.gate = stall
			case p.gc != nil:
				p.cgate = stall
			default:
				p.stall = stall
			}
		})
		p.send(dir, op.I("snd"), op.I("k"), w.cls(op))
		w.settle()
		time.Sleep(time.Duration(op.I("d1")) * time.Millisecond)
		if dir == "c" {
			p.cause("client")
			go func() {
				err := p.gc.Close()
				w.log(E{"ev": "cclosed", "s": s, "ok": err == nil})
			}()
		} else {
			p.cause("server")
			go func() {
				err := p.ß.Close()
				w.log(E{"ev": "closed", "s": s, "ok": err == nil})
			}()
		}
		w.settle()
		time.Sleep(time.Duration(op.I("d2")) * time.Millisecond)
		w.lock(func() { p.gate, p.cgate, p.stall = nil, nil, nil })
		close(stall)
	case "sclosepkt":
		if p.gc != nil && !gone {
			p.cause("packet")
			p.ß.Emit(engine.EventClose, engine.MessageTypeString, "")
		}
	case "ping":
		if !gone {
			data := op.S("data")
			if data == "" {
				data = []string{"", "probe", "é\"\\", strings.Repeat("z", 200)}[w.intn(4)]
			}
			p.ping(data, op.B("bin"))
		}
	case "cand":
		if k == nil && !gone && p.tr == "polling" {
			w.candidate(op.I("c"), s, op.B("bad"))
		}
		return
	case "cping":
		if k != nil && !k.ended {
			k.pinged = true
			k.send(2, op.B("bin"), []byte([]string{"probe", "probe1", "", "é\"\\\n", strings.Repeat("p", 130), strings.Repeat("q", 66000)}[w.intn(6)]))
			if !op.B("nowait") {
				k.awaitPong()
			}
		}
	case "cup":
		if k != nil && !k.ended && !gone && k.p.tr == "polling" && k.ponged && !k.spoilt {
			k.upgrade()
		}
	case "cfast": // a complete probe that does not wait for the pong
		if k != nil && !k.ended && !gone && k.p.tr == "polling" && !k.pinged && !k.spoilt {
			k.pinged = true
			k.send(2, false, []byte("fast"))
			k.upgrade()
		}
	case "cupraw": // an upgrade request out of place
		if k != nil && !k.ended && (!k.pinged || k.spoilt) {
			k.spoilt = true
			k.send(5, false, nil)
		}
	case "csendraw":
		if k != nil && !k.ended && !k.asked {
			k.spoilt = true
			k.send(byte(op.I("type")), op.B("bin"), []byte(op.S("data")))
		}
	case "cgarbage":
		if k != nil && !k.ended && !k.asked {
			w.log(E{"ev": "candsend", "c": k.c, "s": k.p.s, "type": "garbage", "bin": false, "data": ""})
			k.spoilt = true
			switch w.intn(3) {
			case 0:
				w.write(k.ws, websocket.TextMessage, nil)
			case 1:
				w.write(k.ws, websocket.TextMessage, []byte("x"))
			default:
				k.ws.UnderlyingConn().Write([]byte{0xff, 0xff, 0xff, 0xff, 0xff})
			}
		}
	case "cdrop":
		if k != nil && !k.ended && !k.asked {
			k.drop()
		}
	case "cwait": // for the candidate to be closed
		if k != nil && !k.asked {
			ended := w.is(func() bool { return k.ended })
			if op.B("alive") { // the session goes on meanwhile
				for i := 0; i < 40 && !w.awaitFor((w.interval+w.timeout)/4, ended); i++ {
					if !gone && p.closed == 0 {
						p.ping("alive", false)
					}
				}
			}
			if !w.await(ended) {
				w.log(E{"ev": "stuck", "s": k.p.s, "what": "candidate not closed"})
			}
		}
	case "cfull": // a complete upgrade at one go
		if k == nil && !gone && p.tr == "polling" {
			w.candidate(op.I("c"), s, false)
			k = w.cands[op.I("c")]
			if k != nil {
				k.pinged = true
				k.send(2, false, []byte("probe"))
				if k.awaitPong() {
					k.upgrade()
				}
			}
		}
	case "upwait": // for the upgrade to be announced
		asked := false
		w.lock(func() {
			for _, k := range w.cands {
				asked = asked || k.p == p && k.asked
			}
		})
		if asked && !w.await(w.is(func() bool { return p.upgrades > 0 || p.closed > 0 })) {
			w.log(E{"ev": "stuck", "s": s, "what": "upgrade not announced"})
		}
	case "stray":
		if p.tr == "websocket" && p.upgrades > 0 && !gone {
			var re resp
			if op.S("method") == "POST" {
				re = w.request(context.Background(), "POST", p.url("polling"), http.Header{"Content-Type": {"text/plain;charset=UTF-8"}}, textPayload(Pkt{4, false, []byte("stray")}))
			} else {
				ctx, cancel := context.WithTimeout(context.Background(), patience)
				re = w.request(ctx, "GET", p.url("polling"), nil, nil)
				cancel()
			}
			w.log(E{"ev": "stray", "s": s, "code": re.code})
		}
	case "hold":
		if !w.virtual {
			hold(op.S("p"))
		}
	case "release":
		unhold(op.S("p"))
	case "adv":
		time.Sleep(time.Duration(op.I("d")) * time.Millisecond)
		if w.virtual {
			w.settle()
			w.log(E{"ev": "time"})
		}
	case "sclose":
		if p.closed == 0 {
			p.cause("server")
			go func() {
				err := p.ß.Close()
				w.log(E{"ev": "closed", "s": s, "ok": err == nil})
			}()
		}
	case "closepkt":
		if gone {
			return
		}
		bye := w.bye()
		more := [][]Pkt{nil, {{4, false, []byte("after the end")}}, {{2, false, nil}, {4, true, []byte("after the end")}}, {bye}}[w.intn(4)] // for nobody
		p.last("packet", func(tr string, ws *websocket.Conn) {
			if tr == "polling" {
				w.request(context.Background(), "POST", p.url("polling"), http.Header{"Content-Type": {"text/plain;charset=UTF-8"}}, textPayload(append([]Pkt{bye}, more...)...))
			} else {
				for _, q := range append([]Pkt{bye}, more...) {
					mt, b := wsFrame(q)
					w.write(ws, mt, b)
				}
			}
		})
	case "drop":
		if p.gc != nil && !gone {
			p.cause("drop")
			p.cut()
		} else if !gone && p.tr == "websocket" {
			p.cause("drop")
			p.ws.UnderlyingConn().Close()
		}
	case "badframe":
		if !gone && p.tr == "websocket" {
			p.last("badframe", func(_ string, ws *websocket.Conn) { ws.UnderlyingConn().Write(bytes.Repeat([]byte{0xff}, 8)) })
		}
	case "emptyframe":
		if !gone && p.tr == "websocket" {
			p.last("emptyframe", func(_ string, ws *websocket.Conn) { w.write(ws, websocket.TextMessage, nil) })
		}
	case "arrive": // everything of this session arrives, whatever others do
		w.undecided()
		p.unblock()
		p.startPoll(true)
		w.await(w.is(func() bool {
			return p.closed > 0 || p.caused || p.out["s"] <= 0 && p.out["c"] <= 0 && p.sending == 0 && p.laneBusy == 0 && p.pings == 0 && p.opened
		}))
		w.settle()
		w.log(E{"ev": "arrived", "s": s})
	case "await": // the end of a session, if what was to end it could be done: an upgrade it needs may have been given up
		if ended := w.is(func() bool { return p.closing || p.closed > 0 }); !ended() {
			return
		}
		w.undecided()
		p.unblock()
		if !w.await(w.is(func() bool { return p.closed > 0 })) {
			w.log(E{"ev": "stuck", "s": s, "what": "session not ended"})
		}
	case "settle":
	case "quiet":
		w.quiet()
		return
	default:
		panic("unknown op " + op.S("op"))
	}
	if !op.B("nosettle") && !(w.virtual && k != nil && k.asked) {
		w.settle()
	}
}

func (w *sworld) cls(op Op) int {
	if c, ok := op["cls"].(float64); ok && c >= 0 {
		return int(c)
	}
	return w.intn(12)
}

var _ = rand.Intn
