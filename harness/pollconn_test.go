package harness

import (
	"bytes"
	"context"
	"net/http"
	"net/http/httptest"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/zyxar/socketio/engine"
)

func init() { drivers["pollconn"] = pollconn }

func errClass(err error) string {
	switch err {
	case nil:
		return "ok"
	case engine.ErrPollingConnPaused:
		return "paused"
	case engine.ErrPollingConnClosed:
		return "closed"
	case engine.ErrPollingConnReadTimeout, engine.ErrPollingConnWriteTimeout:
		return "timeout"
	}
	return "other"
}

func newPollConn() engine.Conn {
	c, err := engine.PollingAcceptor.Accept(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	if err != nil {
		panic(err)
	}
	return c
}

var capOnce sync.Once
var capIn, capOut int

// measure how many packets each direction buffers
func pollCaps(t *testing.T) {
	capOnce.Do(func() {
		synctest.Test(t, func(t *testing.T) {
			c := newPollConn()
			done := make(chan int, 2)
			go func() {
				n := 0
				for c.WritePacket(toEngine(Pkt{Type: 4})) == nil && n < 4096 {
					n++
				}
				done <- n
			}()
			synctest.Wait()
			c.Close()
			capOut = <-done
		})
		synctest.Test(t, func(t *testing.T) {
			c := newPollConn()
			var n int
			done := make(chan bool)
			go func() {
				for n < 4096 {
					if code, _ := post(c.(http.Handler), "/", textPayload(Pkt{Type: 4}), false); code != 200 {
						break
					}
					n++
				}
				close(done)
			}()
			synctest.Wait()
			c.Close()
			<-done
			capIn = n
		})
	})
}

func idPkt(m int) Pkt { return Pkt{Type: 4, Data: []byte(strconv.Itoa(m))} }
func pktId(p Pkt) int {
	m, err := strconv.Atoi(string(p.Data))
	if err != nil || p.Type != 4 || p.Bin {
		return -1
	}
	return m
}

func pollconn(c *Ctx, n int, script []Op) {
	pollCaps(c.T)
	c.bubble(func(t *testing.T) {
		conn := newPollConn()
		h := conn.(http.Handler)
		start := time.Now()
		lg := c.Log
		var mu sync.Mutex
		now := func() int { return int(time.Since(start) / time.Millisecond) }
		lg.Ev(E{"ev": "reset", "n": n, "incap": capIn, "outcap": capOut})
		nextOp, nextId := 0, 0
		ids := func(k int) (m []int) {
			for ; k > 0; k-- {
				nextId++
				m = append(m, nextId)
			}
			return
		}
		pending := map[int]string{}
		cancels := map[int]func(){}
		finish := func(i int, e E) {
			mu.Lock()
			delete(pending, i)
			delete(cancels, i)
			mu.Unlock()
			e["i"], e["t"], e["last"] = i, now(), true
			if e["m"] == nil {
				e["m"] = 0
			}
			lg.Ev(e)
		}
		has := func(kind string) bool {
			mu.Lock()
			defer mu.Unlock()
			for _, k := range pending {
				if k == kind {
					return true
				}
			}
			return false
		}
		begin := func(kind string) int {
			mu.Lock()
			defer mu.Unlock()
			nextOp++
			pending[nextOp] = kind
			return nextOp
		}
		count := func() int { mu.Lock(); defer mu.Unlock(); return len(pending) }
		paused, closed := false, false
		for _, op := range script {
			k := op.I("k")
			switch k { // sizes relative to the buffers
			case 8:
				k = capOut
			case 9:
				k = capOut + 1
			}
			switch op.S("op") {
			case "read":
				if count() >= 4 {
					continue
				}
				i := begin("read")
				lg.Ev(E{"ev": "read", "i": i})
				go func() {
					p, err := conn.ReadPacket()
					if err != nil {
						finish(i, E{"ev": "readDone", "r": errClass(err), "m": 0})
						return
					}
					q, err := fromEngine(p)
					if err != nil {
						q.Data = nil
					}
					finish(i, E{"ev": "readDone", "r": "ok", "m": pktId(q)})
				}()
			case "write":
				if count() >= 4 {
					continue
				}
				i := begin("write")
				m := ids(k)
				var ps []*engine.Packet
				for _, id := range m {
					ps = append(ps, toEngine(idPkt(id)))
				}
				lg.Ev(E{"ev": "write", "i": i, "ids": m})
				go func() {
					for x, p := range ps {
						err := conn.WritePacket(p)
						if err != nil || x == len(ps)-1 {
							finish(i, E{"ev": "writeDone", "r": errClass(err), "m": m[x]})
							return
						}
						lg.Ev(E{"ev": "writeDone", "r": "ok", "m": m[x], "last": false, "i": i, "t": now()})
					}
				}()
			case "poll", "deadpoll": // dead: its client has gone before it is served
				if count() >= 4 {
					continue
				}
				i := begin("poll")
				ctx, cancel := context.WithCancel(context.Background())
				mu.Lock()
				cancels[i] = cancel
				mu.Unlock()
				lg.Ev(E{"ev": "poll", "i": i})
				if op.S("op") == "deadpoll" {
					mu.Lock()
					delete(cancels, i)
					mu.Unlock()
					lg.Ev(E{"ev": "cancel", "i": i})
					cancel()
				}
				go func() {
					defer cancel()
					w := serve(h, httptest.NewRequest("GET", "/?b64=1", nil).WithContext(ctx))
					if w.code != 200 {
						finish(i, E{"ev": "pollDone", "r": "error", "m": 0})
						return
					}
					ps, err := parseText(w.body.Bytes())
					switch {
					case err == nil && len(ps) == 1 && ps[0].Type == 6:
						finish(i, E{"ev": "pollDone", "r": "noop", "m": 0})
					case err == nil && len(ps) == 1:
						finish(i, E{"ev": "pollDone", "r": "ok", "m": pktId(ps[0])})
					default:
						finish(i, E{"ev": "pollDone", "r": "garbled", "m": 0})
					}
				}()
			case "post":
				if count() >= 4 {
					continue
				}
				i := begin("post")
				m := ids(k)
				var body []byte
				for _, id := range m {
					body = append(body, textPkt(idPkt(id))...)
				}
				lg.Ev(E{"ev": "post", "i": i, "ids": m})
				go func() {
					r := httptest.NewRequest("POST", "/", bytes.NewReader(body))
					r.Header.Set("Content-Type", "text/plain; charset=UTF-8")
					w := serve(h, r)
					if w.code == 200 {
						finish(i, E{"ev": "postDone", "r": "ok"})
					} else {
						finish(i, E{"ev": "postDone", "r": "error"})
					}
				}()
			case "cancel":
				mu.Lock()
				i := 0
				for j, kind := range pending {
					if kind == "poll" && (i == 0 || j < i) {
						i = j
					}
				}
				cancel := cancels[i]
				delete(cancels, i)
				mu.Unlock()
				if cancel == nil {
					continue
				}
				lg.Ev(E{"ev": "cancel", "i": i})
				cancel()
			case "pause":
				if paused {
					continue
				}
				paused = true
				lg.Ev(E{"ev": "pause"})
				if err := conn.Pause(); err != nil {
					lg.Ev(E{"ev": "failed"})
				}
			case "resume":
				if !paused {
					continue
				}
				paused = false
				lg.Ev(E{"ev": "resume"})
				if err := conn.Resume(); err != nil {
					lg.Ev(E{"ev": "failed"})
				}
			case "close":
				closed = true
				lg.Ev(E{"ev": "close"})
				if err := conn.Close(); err != nil {
					lg.Ev(E{"ev": "failed"})
				}
			case "rdl", "wdl":
				kind := map[string]string{"rdl": "read", "wdl": "write"}[op.S("op")]
				if has(kind) {
					continue
				}
				d := op.I("d") // 0: none, negative: past
				var at time.Time
				if d != 0 {
					at = time.Now().Add(time.Duration(d) * time.Millisecond)
				}
				var err error
				if kind == "read" {
					err = conn.SetReadDeadline(at)
				} else {
					err = conn.SetWriteDeadline(at)
				}
				dl := now() + d
				if d == 0 {
					dl = 1000000000
				} else if dl < 0 {
					dl = 0
				}
				lg.Ev(E{"ev": "deadline", "kind": kind, "dl": dl, "r": errClass(err)})
			case "adv":
				time.Sleep(time.Duration(op.I("d")) * time.Millisecond)
			case "flush":
				if !closed || count() > 0 {
					continue
				}
				list := func(ps []*engine.Packet) []int {
					m := []int{}
					for _, p := range ps {
						q, _ := fromEngine(p)
						m = append(m, pktId(q))
					}
					return m
				}
				lg.Ev(E{"ev": "flush", "out": list(conn.FlushOut()), "in": list(conn.FlushIn())})
			default:
				panic("unknown op " + op.S("op"))
			}
			synctest.Wait()
			lg.Ev(E{"ev": "settled", "t": now()})
		}
		if !closed {
			lg.Ev(E{"ev": "close"})
			conn.Close()
			synctest.Wait()
			lg.Ev(E{"ev": "settled", "t": now()})
		}
		mu.Lock()
		for _, cancel := range cancels {
			cancel()
		}
		mu.Unlock()
	})
}
