package harness

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio"
)

func init() {
	drivers["siomsgp"] = driveSioMsgp
	drivers["siomsgpserver"] = driveSioMsgpServer
}

type named string

func bigEndian(n uint64) []int {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], n)
	return codes(b[:])
}

// mtree is a value as Msgp.tla writes it.
func mtree(v interface{}) E {
	switch x := v.(type) {
	case nil:
		return E{"k": "z", "v": []int{}}
	case []byte:
		return E{"k": "x", "v": codes(x)}
	case float32:
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], math.Float32bits(x))
		return E{"k": "e", "v": codes(b[:])}
	case float64:
		return E{"k": "e", "v": bigEndian(math.Float64bits(x))}
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Bool:
		if rv.Bool() {
			return E{"k": "t", "v": []int{}}
		}
		return E{"k": "f", "v": []int{}}
	case reflect.String:
		return E{"k": "s", "v": codes([]byte(rv.String()))}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if i := rv.Int(); i < 0 {
			return E{"k": "#", "v": append([]int{1}, bigEndian(uint64(-i))...)}
		}
		return E{"k": "#", "v": append([]int{0}, bigEndian(uint64(rv.Int()))...)}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return E{"k": "#", "v": append([]int{0}, bigEndian(rv.Uint())...)}
	case reflect.Slice, reflect.Array:
		out := []E{}
		for i := 0; i < rv.Len(); i++ {
			out = append(out, mtree(rv.Index(i).Interface()))
		}
		return E{"k": "l", "v": out}
	case reflect.Map:
		var keys []string
		for _, k := range rv.MapKeys() {
			keys = append(keys, k.String())
		}
		sort.Strings(keys)
		out := [][]interface{}{}
		for _, k := range keys {
			out = append(out, []interface{}{codes([]byte(k)), mtree(rv.MapIndex(reflect.ValueOf(k).Convert(rv.Type().Key())).Interface())})
		}
		return E{"k": "o", "v": out}
	case reflect.Ptr:
		if rv.Type().Elem().Kind() == reflect.String && !rv.IsNil() {
			return mtree(rv.Elem().Interface())
		}
	}
	return E{"k": "?", "v": []int{}}
}

func idTree(id *uint64) []int {
	if id == nil {
		return []int{}
	}
	return append([]int{0}, bigEndian(*id)...)
}

// unmtree is a Go value an application might send for the tree.
func (c *Ctx) unmtree(v interface{}) interface{} {
	m := v.(map[string]interface{})
	b := func() []byte { return fromCodes(m["v"]) }
	list := func() []interface{} { l, _ := m["v"].([]interface{}); return l }
	switch m["k"].(string) {
	case "s":
		return string(b())
	case "x":
		return b()
	case "t":
		return true
	case "f":
		return false
	case "e":
		if x := b(); len(x) == 4 {
			return math.Float32frombits(binary.BigEndian.Uint32(x))
		} else {
			return math.Float64frombits(binary.BigEndian.Uint64(x))
		}
	case "#":
		x := b()
		u := binary.BigEndian.Uint64(x[1:])
		var fits []interface{}
		if x[0] == 0 {
			fits = append(fits, u)
			if u <= math.MaxUint32 {
				fits = append(fits, uint32(u), uint(u))
			}
			if u <= math.MaxUint16 {
				fits = append(fits, uint16(u))
			}
			if u <= math.MaxUint8 {
				fits = append(fits, uint8(u))
			}
		}
		i := int64(u)
		if x[0] == 1 {
			i = -i
		}
		if x[0] == 1 || u <= math.MaxInt64 {
			fits = append(fits, i, int(i))
			if int64(int32(i)) == i {
				fits = append(fits, int32(i))
			}
			if int64(int16(i)) == i {
				fits = append(fits, int16(i))
			}
			if int64(int8(i)) == i {
				fits = append(fits, int8(i))
			}
		}
		return fits[c.Rand.Intn(len(fits))]
	case "l":
		out, strs := []interface{}{}, []string{}
		for _, x := range list() {
			y := c.unmtree(x)
			out = append(out, y)
			if s, ok := y.(string); ok {
				strs = append(strs, s)
			}
		}
		if len(strs) == len(out) && c.Rand.Intn(2) == 0 {
			return strs
		}
		return out
	case "o":
		out, strs := map[string]interface{}{}, map[string]string{}
		for _, x := range list() {
			kv := x.([]interface{})
			y := c.unmtree(kv[1])
			out[string(fromCodes(kv[0]))] = y
			if s, ok := y.(string); ok {
				strs[string(fromCodes(kv[0]))] = s
			}
		}
		if len(strs) == len(out) && c.Rand.Intn(2) == 0 {
			return strs
		}
		return out
	}
	return nil
}

func kindType(k string) reflect.Type {
	for n, v := range map[string]interface{}{"str": "", "bool": true, "bin": []byte{}, "int": int(0), "int8": int8(0), "int16": int16(0), "int32": int32(0), "int64": int64(0),
		"dur": time.Duration(0), "uint": uint(0), "uint8": uint8(0), "uint16": uint16(0), "uint32": uint32(0), "uint64": uint64(0), "f64": float64(0), "f32": float32(0),
		"list": []interface{}{}, "strs": []string{}, "nest": [][]string{}, "pair": [2]int{}, "map": map[string]interface{}{}, "mapint": map[string]int{}, "mapnam": map[named]int{}, "pstr": new(string)} {
		if n == k {
			return reflect.TypeOf(v)
		}
	}
	return ifaceType
}

// deepFrame is an event whose argument is nested n times.
func deepFrame(name, how string, n int) []byte {
	b := []byte("\x83\xa4type\x02\xa3nsp\xa1/\xa4data\x92")
	b = append(append(b, byte(0xa0+len(name))), name...)
	for i := 0; i < n; i++ {
		if how == "list" {
			b = append(b, 0x91)
		} else {
			b = append(b, 0x81, 0xa0)
		}
	}
	return append(b, 0xc0)
}

func driveSioMsgp(c *Ctx, n int, script []Op) {
	c.Log.Ev(E{"ev": "reset", "n": n})
	dec := socketio.MsgpackParser.Decoder()
	for _, o := range script {
		func() {
			defer func() {
				if p := recover(); p != nil {
					c.Log.Ev(E{"ev": "panic", "what": asciiName(fmt.Sprint(p))})
				}
			}()
			switch o.S("op") {
			case "enc":
				c.encodeMsgp(o["p"].(map[string]interface{}))
			case "deep":
				kind := socketio.MessageTypeBinary
				err := dec.Add(kind, deepFrame("e2", o.S("how"), o.I("n")))
				c.Log.Ev(E{"ev": "deep"})
				c.lookedMsgp(dec, []interface{}{"iface"}, err == nil)
			default:
				t := fromCodes(o["t"])
				kind := socketio.MessageTypeString
				if o.B("bin") {
					kind = socketio.MessageTypeBinary
				}
				err := dec.Add(kind, append([]byte{}, t...))
				c.Log.Ev(E{"ev": "frame", "t": codes(t), "bin": o.B("bin"), "err": err != nil})
				kinds, _ := o["kinds"].([]interface{})
				c.lookedMsgp(dec, kinds, false)
			}
		}()
	}
}

func (c *Ctx) lookedMsgp(dec socketio.Decoder, kinds []interface{}, deep bool) {
	for {
		select {
		case p := <-dec.Decoded():
			e := E{"ev": "packet", "type": int(p.Type), "nsp": codes([]byte(p.Namespace)), "id": idTree(p.ID), "name": []int{}, "vals": []E{}, "err": false, "kinds": kinds}
			if kinds == nil {
				e["kinds"] = []int{}
			}
			if p.Type != 2 && p.Type != 3 {
				if p.Data != nil && p.Type == 4 {
					e["vals"] = []E{tree(p.Data)}
				}
				c.Log.Ev(e)
				continue
			}
			name, data, bin, err := dec.ParseData(p)
			if err == nil {
				e["name"] = codes([]byte(name))
				var types []reflect.Type
				for _, k := range kinds {
					types = append(types, kindType(k.(string)))
				}
				var vals []reflect.Value
				if vals, err = dec.UnmarshalArgs(types, data, bin); err == nil && !deep {
					out := []E{}
					for _, v := range vals {
						out = append(out, mtree(v.Interface()))
					}
					e["vals"] = out
				}
			}
			e["err"] = err != nil
			c.Log.Ev(e)
			continue
		default:
		}
		break
	}
	c.Log.Ev(E{"ev": "done"})
}

func (c *Ctx) encodeMsgp(p map[string]interface{}) {
	q := &socketio.Packet{Type: socketio.PacketType(p["type"].(float64)), Namespace: string(fromCodes(p["nsp"]))}
	if id := fromCodes(p["id"]); len(id) > 0 {
		u := binary.BigEndian.Uint64(id[1:])
		q.ID = &u
	}
	args := []interface{}{}
	l, _ := p["args"].([]interface{})
	for _, x := range l {
		if q.Type == 2 || q.Type == 3 {
			args = append(args, c.unmtree(x))
		} else {
			args = append(args, untree(x))
		}
	}
	switch q.Type {
	case 2:
		q.Data = append([]interface{}{string(fromCodes(p["name"]))}, args...)
	case 3:
		q.Data = args
	default:
		if len(args) > 0 {
			q.Data = args[0]
		}
	}
	b, bins, err := socketio.MsgpackParser.Encoder().Encode(q)
	if err != nil {
		c.Log.Ev(E{"ev": "encodeerror", "err": asciiName(err.Error())})
		return
	}
	out := [][]int{}
	for _, x := range bins {
		out = append(out, codes(x))
	}
	c.Log.Ev(E{"ev": "encoded", "p": p, "t": codes(b), "bins": out})
}

func driveSioMsgpServer(c *Ctx, n int, script []Op) {
	c.Log.Ev(E{"ev": "reset", "n": n})
	c.bubble(func(t *testing.T) {
		w := newWorld(c, true)
		srv, err := socketio.NewServer(25*time.Second, 60*time.Second, socketio.MsgpackParser)
		if err != nil {
			panic(err)
		}
		defer srv.Close()
		w.h = srv
		probed := -1
		errs := func() { w.ev(E{"ev": "error"}) }
		root := srv.Namespace("/").OnError(func(socketio.Socket, ...interface{}) { errs() })
		got := func(k int, vals ...interface{}) {
			out := []E{}
			for _, v := range vals {
				out = append(out, mtree(v))
			}
			w.ev(E{"ev": "handler", "name": codes([]byte("e" + strconv.Itoa(k))), "vals": out})
		}
		root.OnEvent("e1", func(a string, b int) { got(1, a, b) })
		root.OnEvent("e2", func(a interface{}, _ socketio.Socket, b []byte) { got(2, a, b) })
		root.OnEvent("e3", func(_ socketio.Socket, a []string, b map[string]interface{}) { got(3, a, b) })
		root.OnEvent("e4", func(a int8, b uint8, x bool) { got(4, a, b, x) })
		root.OnEvent("e5", func() { got(5) })
		root.OnEvent("e6", func(a float64, b uint64, x int64) { got(6, a, b, x) })
		root.OnEvent("e7", func(a [][]string, b [2]int, x map[named]int, y time.Duration, z *string) { got(7, a, b, x, y, z) })
		root.OnEvent("probe", func(i int) { probed = i })
		srv.OnError(func(error) { errs() })
		ws, code, _ := w.dialWS("/socket.io/?EIO=3&transport=websocket", nil, 0)
		if code != 101 {
			w.ev(E{"ev": "noopen"})
			return
		}
		go func() {
			for {
				if _, _, err := ws.ReadMessage(); err != nil {
					return
				}
			}
		}()
		w.settle()
		for i, o := range script {
			text := fromCodes(o["t"])
			if o.S("op") == "deep" {
				w.ev(E{"ev": "deep"})
				ws.WriteMessage(websocket.BinaryMessage, append([]byte{4}, deepFrame("e2", o.S("how"), o.I("n"))...))
			} else {
				w.ev(E{"ev": "sent", "t": codes(text), "bin": o.B("bin")})
				if o.B("bin") {
					ws.WriteMessage(websocket.BinaryMessage, append([]byte{4}, text...))
				} else {
					ws.WriteMessage(websocket.TextMessage, append([]byte("4"), text...))
				}
			}
			w.settle()
			w.ev(E{"ev": "settled"})
			w.over.Store(true)
			for k := 0; k < 2; k++ {
				ws.WriteMessage(websocket.TextMessage, []byte(`4{"type":0,"nsp":"/"}`))
				w.settle()
			}
			ws.WriteMessage(websocket.BinaryMessage, append([]byte("\x04\x83\xa4type\x02\xa3nsp\xa1/\xa4data\x92\xa5probe"), 0xd2, 0, 0, byte(i>>8), byte(i)))
			w.settle()
			w.over.Store(false)
			w.ev(E{"ev": "probe", "ok": probed == i})
		}
		ws.Close()
	})
}
