package harness

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio"
)

func init() {
	drivers["siotext"] = driveSioText
	drivers["siotextserver"] = driveSioTextServer
}

func codes(b []byte) []int {
	out := make([]int, len(b))
	for i := range b {
		out[i] = int(b[i])
	}
	return out
}

func fromCodes(v interface{}) []byte {
	l, _ := v.([]interface{})
	out := make([]byte, len(l))
	for i := range l {
		out[i] = byte(l[i].(float64))
	}
	return out
}

// tree is a JSON value as the specification writes it.
func tree(v interface{}) E {
	switch x := v.(type) {
	case nil:
		return E{"k": "z", "v": []int{}}
	case bool:
		if x {
			return E{"k": "t", "v": []int{}}
		}
		return E{"k": "f", "v": []int{}}
	case string:
		return E{"k": "s", "v": codes([]byte(x))}
	case float64:
		return E{"k": "#", "v": codes([]byte(strconv.FormatFloat(x, 'f', -1, 64)))}
	case []interface{}:
		return E{"k": "l", "v": trees(x)}
	case map[string]interface{}:
		keys := []string{}
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		out := [][]interface{}{}
		for _, k := range keys {
			out = append(out, []interface{}{codes([]byte(k)), tree(x[k])})
		}
		return E{"k": "o", "v": out}
	}
	return E{"k": "?", "v": codes([]byte(fmt.Sprintf("%T", v)))}
}

func trees(q []interface{}) []E {
	out := []E{}
	for _, x := range q {
		out = append(out, tree(x))
	}
	return out
}

// untree is the Go value of a tree of the specification.
func untree(v interface{}) interface{} {
	m := v.(map[string]interface{})
	switch m["k"].(string) {
	case "s":
		return string(fromCodes(m["v"]))
	case "#":
		s := string(fromCodes(m["v"]))
		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
			return i
		}
		f, _ := strconv.ParseFloat(s, 64)
		return f
	case "t":
		return true
	case "f":
		return false
	case "l":
		out := []interface{}{}
		l, _ := m["v"].([]interface{})
		for _, x := range l {
			out = append(out, untree(x))
		}
		return out
	case "o":
		out := map[string]interface{}{}
		l, _ := m["v"].([]interface{})
		for _, x := range l {
			kv := x.([]interface{})
			out[string(fromCodes(kv[0]))] = untree(kv[1])
		}
		return out
	}
	return nil
}

func (c *Ctx) blob() []byte {
	b := make([]byte, c.Rand.Intn(20))
	c.Rand.Read(b)
	return b
}

var ifaceType = reflect.TypeOf((*interface{})(nil)).Elem()
var bytesType = reflect.TypeOf(socketio.Bytes{})

func driveSioText(c *Ctx, n int, script []Op) {
	c.Log.Ev(E{"ev": "reset", "n": n})
	defer func() {
		if p := recover(); p != nil {
			c.Log.Ev(E{"ev": "panic", "what": asciiName(fmt.Sprint(p))})
		}
	}()
	dec := socketio.DefaultParser.Decoder()
	for _, o := range script {
		if o.S("op") == "enc" {
			c.encode(o["p"].(map[string]interface{}))
		} else {
			c.decode(dec, o)
		}
	}
}

func (c *Ctx) encode(p map[string]interface{}) {
	q := &socketio.Packet{Type: socketio.PacketType(p["type"].(float64)), Namespace: string(fromCodes(p["nsp"]))}
	if id := string(fromCodes(p["id"])); id != "" {
		u, err := strconv.ParseUint(id, 10, 64)
		if err != nil {
			panic(err)
		}
		q.ID = &u
	}
	given, args := []string{}, []interface{}{}
	l, _ := p["args"].([]interface{})
	for i, x := range l {
		if x.(map[string]interface{})["k"] == "p" {
			b := c.blob()
			given = append(given, hex.EncodeToString(b))
			if i%2 == 0 {
				args = append(args, &socketio.Bytes{Data: b})
			} else {
				args = append(args, socketio.Bytes{Data: b})
			}
			continue
		}
		args = append(args, untree(x))
	}
	switch q.Type {
	case 2, 5:
		q.Type = 2
		q.Data = append([]interface{}{string(fromCodes(p["name"]))}, args...)
	case 3, 6:
		q.Type = 3
		q.Data = args
	default:
		if len(args) > 0 {
			q.Data = args[0]
		}
	}
	b, bins, err := socketio.DefaultParser.Encoder().Encode(q)
	if err != nil {
		c.Log.Ev(E{"ev": "encodeerror", "err": asciiName(err.Error())})
		return
	}
	got := []string{}
	for _, x := range bins {
		got = append(got, hex.EncodeToString(x))
	}
	p["r"] = "ok"
	c.Log.Ev(E{"ev": "encoded", "p": p, "t": codes(b), "given": given, "bins": got})
}

func (c *Ctx) decode(dec socketio.Decoder, o Op) {
	t := fromCodes(o["t"])
	poll := func() {
		for {
			select {
			case p := <-dec.Decoded():
				c.looked(dec, p)
				continue
			default:
			}
			return
		}
	}
	add := func(kind socketio.MessageType, b []byte) (bool, bool) {
		var err error
		ok := func() (ok bool) {
			defer func() {
				if p := recover(); p != nil {
					c.Log.Ev(E{"ev": "panic", "what": asciiName(fmt.Sprint(p))})
				}
			}()
			err = dec.Add(kind, b)
			return true
		}()
		return err != nil, ok
	}
	err, ok := add(socketio.MessageTypeString, append([]byte{}, t...))
	if !ok {
		return
	}
	c.Log.Ev(E{"ev": "text", "t": codes(t), "err": err})
	poll()
	bins := o.I("bins") + o.I("extra")
	for i := 0; i < bins; i++ {
		b := c.blob()
		if err, ok = add(socketio.MessageTypeBinary, append([]byte{}, b...)); !ok {
			return
		}
		c.Log.Ev(E{"ev": "bin", "data": hex.EncodeToString(b), "err": err})
		poll()
	}
	c.Log.Ev(E{"ev": "done", "bins": bins})
	// whatever came before, the decoder goes on with the next packet
	dec.Add(socketio.MessageTypeString, []byte("0"))
	for {
		select {
		case <-dec.Decoded():
			continue
		default:
		}
		break
	}
}

// looked looks into a packet the way a handler with many parameters would.
func (c *Ctx) looked(dec socketio.Decoder, p *socketio.Packet) {
	e := E{"ev": "packet", "type": int(p.Type), "nsp": codes([]byte(p.Namespace)), "id": []int{}, "name": []int{}, "js": []E{}, "bs": []string{}, "err": false}
	if p.ID != nil {
		e["id"] = codes([]byte(strconv.FormatUint(*p.ID, 10)))
	}
	defer func() {
		if x := recover(); x != nil {
			e = E{"ev": "panic", "what": asciiName(fmt.Sprint(x))}
		}
		c.Log.Ev(e)
	}()
	if t := p.Type; t != 2 && t != 3 && t != 5 && t != 6 {
		if p.Data != nil {
			e["js"] = []E{tree(p.Data)}
		}
		return
	}
	name, data, bin, err := dec.ParseData(p)
	if err != nil {
		e["err"] = true
		return
	}
	e["name"] = codes([]byte(name))
	var types []reflect.Type
	for i := 0; i < 24; i++ {
		types = append(types, ifaceType, bytesType)
	}
	vals, err := dec.UnmarshalArgs(types, data, bin)
	if err != nil {
		e["err"] = true
		return
	}
	js, bs := []E{}, []string{}
	for i, v := range vals {
		if types[i] == ifaceType {
			js = append(js, tree(v.Interface()))
		} else if i/2 < len(bin) {
			bs = append(bs, hex.EncodeToString(v.Interface().(socketio.Bytes).Data))
		}
	}
	e["js"], e["bs"] = js, bs
}

func driveSioTextServer(c *Ctx, n int, script []Op) {
	c.Log.Ev(E{"ev": "reset", "n": n})
	c.bubble(func(t *testing.T) {
		w := newWorld(c, true)
		srv, err := socketio.NewServer(25*time.Second, 60*time.Second, socketio.DefaultParser)
		if err != nil {
			panic(err)
		}
		defer srv.Close()
		w.h = srv
		probed := -1
		errs := func() { w.ev(E{"ev": "error"}) }
		root := srv.Namespace("/").OnError(func(socketio.Socket, ...interface{}) { errs() })
		for _, name := range []string{"e", "\",]", "\u00e9 \\"} {
			name := name
			root.OnEvent(name, func(a interface{}, x socketio.Bytes, b interface{}, y *socketio.Bytes, cc interface{}, z socketio.Bytes, d interface{}, u socketio.Bytes) {
				bs := []string{}
				for _, v := range [][]byte{x.Data, y.Data, z.Data, u.Data} {
					bs = append(bs, hex.EncodeToString(v))
				}
				w.ev(E{"ev": "handler", "name": codes([]byte(name)), "js": trees([]interface{}{a, b, cc, d}), "bs": bs})
			})
		}
		root.OnEvent("probe", func(i int) { probed = i })
		srv.OnError(func(error) { errs() })
		ws, code, _ := w.dialWS("/socket.io/?EIO=3&transport=websocket", nil, 0)
		if code != 101 {
			w.ev(E{"ev": "noopen"})
			return
		}
		go func() {
			for {
				if _, _, err := ws.ReadMessage(); err != nil {
					return
				}
			}
		}()
		w.settle()
		for i, o := range script {
			text := fromCodes(o["t"])
			w.ev(E{"ev": "sent", "t": codes(text)})
			ws.WriteMessage(websocket.TextMessage, append([]byte("4"), text...))
			w.settle()
			for k := o.I("bins") + o.I("extra"); k > 0; k-- {
				b := c.blob()
				w.ev(E{"ev": "sentbin", "data": hex.EncodeToString(b)})
				ws.WriteMessage(websocket.BinaryMessage, append([]byte{4}, b...))
				w.settle()
			}
			w.ev(E{"ev": "settled", "t": codes(text)})
			w.over.Store(true)
			for _, s := range []string{"40", "40", fmt.Sprintf(`42["probe",%d]`, i)} {
				ws.WriteMessage(websocket.TextMessage, []byte(s))
				w.settle()
			}
			w.over.Store(false)
			w.ev(E{"ev": "probe", "ok": probed == i})
		}
		ws.Close()
	})
}

var _ = json.Marshal
