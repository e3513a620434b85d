package harness

import (
	"context"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/engine"
)

// memDialer is an engine.Dialer over an in-memory connection: the connection it gives to the client is a real one of the
// engine's WebSocket transport, and peer is what the other end says to.
type memDialer struct {
	peer   func(ws *websocket.Conn, hdr http.Header)
	refuse error
	limit  int
	cut    func() // cuts the connection
}

func (d *memDialer) Dial(rawurl string, hdr http.Header) (engine.Conn, error) {
	if d.refuse != nil {
		return nil, d.refuse
	}
	a, b := memPipe(d.limit)
	type res struct {
		c   engine.Conn
		err error
	}
	ch := make(chan res, 1)
	go serveConn(b, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		t := engine.WebsocketTransport
		c, err := t.Accept(w, r)
		ch <- res{c, err}
	}), func(interface{}) {})
	u, _ := url.Parse("ws://host/")
	ws, _, err := websocket.NewClient(a, u, nil, 4096, 4096)
	if err != nil {
		return nil, err
	}
	x := <-ch
	if x.err != nil {
		return nil, x.err
	}
	d.cut = func() { a.Close() }
	go d.peer(ws, hdr)
	return x.c, nil
}

// bridge connects an engine client with the server of w: frames are passed on unchanged, and so are the ends.
func (w *World) bridge(path string, hdr http.Header, limit int) *memDialer {
	d := &memDialer{limit: limit}
	d.peer = func(x *websocket.Conn, _ http.Header) {
		y, code, _ := w.dialWS(path, hdr, limit)
		if code != 101 {
			x.Close()
			return
		}
		pass := func(from, to *websocket.Conn) {
			for {
				mt, b, err := from.ReadMessage()
				if err != nil {
					to.UnderlyingConn().Close()
					from.UnderlyingConn().Close()
					return
				}
				to.WriteMessage(mt, b)
			}
		}
		go pass(x, y)
		pass(y, x)
	}
	return d
}

// goConnect opens a session whose client is an engine.Client.
func (w *sworld) goConnect(s int, hdr http.Header, p *peer) {
	d := w.bridge("/engine.io/?EIO=3&transport=websocket", hdr, p.limit)
	on := func(c *engine.Client) {
		c.On(engine.EventMessage, engine.Callback(func(_ *engine.Socket, kind engine.MessageType, data []byte) {
			q := Pkt{Type: 4, Bin: kind == engine.MessageTypeBinary, Data: append([]byte{}, data...)}
			w.mu.Lock()
			m := w.got(p.s, "s", q)
			gate := p.cgate
			w.mu.Unlock()
			w.log(E{"ev": "recv", "s": p.s, "m": m, "over": "websocket"})
			if gate != nil {
				<-gate
			}
			w.log(E{"ev": "recvend", "s": p.s, "m": m})
			w.lock(func() {
				if m > 0 {
					p.out["s"]--
				}
			})
		}))
		c.On(engine.EventClose, engine.Callback(func(_ *engine.Socket, _ engine.MessageType, _ []byte) {
			w.log(E{"ev": "wsend", "s": p.s, "err": "close callback"})
			w.lock(func() { p.wsEnd = true })
		}))
	}
	c, err := engine.Dial("ws://host/engine.io/", hdr, d, on)
	p.cut = d.cut
	if err == nil {
		p.gc, p.sid = c, c.Sid()
	}
	w.log(E{"ev": "open", "s": s, "ok": err == nil && c.Sid() != ""})
}

// emit sends m from one side of the session through the public interface.
func emit(ß *engine.Socket, m laneMsg) (err error) {
	kind := engine.MessageTypeString
	if m.p.Bin {
		kind = engine.MessageTypeBinary
	}
	if !m.p.Bin && m.m%3 == 0 {
		return ß.Send(string(m.p.Data))
	}
	b := append([]byte{}, m.p.Data...)
	err = ß.Emit(engine.EventMessage, kind, b)
	for i := range b { // the slice is the caller's again
		b[i] = '#'
	}
	return err
}

// tcpServer serves w's handler on the loopback interface, for the engine's own dialling code.
func (w *World) tcpServer() (*httptest.Server, string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	srv := httptest.NewUnstartedServer(w.h)
	srv.Listener.Close()
	srv.Listener = l
	srv.Start()
	return srv, "ws://" + l.Addr().String()
}

var _ = context.Background
