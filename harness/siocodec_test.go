package harness

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/tinylib/msgp/msgp"
	"github.com/zyxar/socketio"
)

// Val is an argument in canonical form: kind and text.
type Val struct {
	K string `json:"k"`
	V string `json:"v"`
}

// canon brings what either side has as an argument into canonical form.
func canon(v interface{}) Val {
	switch t := v.(type) {
	case nil:
		return Val{"n", ""}
	case string:
		return Val{"s", strconv.QuoteToASCII(t)}
	case bool:
		return Val{"b", strconv.FormatBool(t)}
	case []byte:
		return Val{"x", hex.EncodeToString(t)}
	case socketio.Bytes:
		return Val{"x", hex.EncodeToString(t.Data)}
	case *socketio.Bytes:
		if t == nil {
			return Val{"x", "nil"}
		}
		return Val{"x", hex.EncodeToString(t.Data)}
	case json.Number:
		if i, err := strconv.ParseInt(string(t), 10, 64); err == nil {
			return Val{"#", strconv.FormatInt(i, 10)}
		}
		if i, err := strconv.ParseUint(string(t), 10, 64); err == nil {
			return Val{"#", strconv.FormatUint(i, 10)}
		}
		f, err := t.Float64()
		if err != nil {
			return Val{"?", string(t)}
		}
		return canon(f)
	case float32:
		return canon(float64(t))
	case float64:
		if t == math.Trunc(t) && math.Abs(t) < 1<<62 {
			return Val{"#", strconv.FormatInt(int64(t), 10)}
		}
		return Val{"f", strconv.FormatFloat(t, 'g', -1, 64)}
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Val{"#", strconv.FormatInt(rv.Int(), 10)}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return Val{"#", strconv.FormatUint(rv.Uint(), 10)}
	case reflect.String:
		return canon(rv.String())
	case reflect.Bool:
		return canon(rv.Bool())
	case reflect.Ptr:
		if rv.IsNil() {
			return canon(nil)
		}
		return canon(rv.Elem().Interface())
	case reflect.Slice, reflect.Array:
		k := "ls"
		var parts []string
		for i := 0; i < rv.Len(); i++ {
			e := canon(rv.Index(i).Interface())
			if e.K != "s" {
				k = "l"
			}
			parts = append(parts, e.K+e.V)
		}
		return Val{k, "[" + strings.Join(parts, ",") + "]"}
	case reflect.Map:
		if rv.Len() == 2 { // an attachment that is still to come
			if p := rv.MapIndex(reflect.ValueOf("_placeholder")); p.IsValid() && fmt.Sprint(p.Interface()) == "true" {
				return Val{"ph", fmt.Sprint(rv.MapIndex(reflect.ValueOf("num")).Interface())}
			}
		}
		var keys []string
		for _, k := range rv.MapKeys() {
			keys = append(keys, k.String())
		}
		sort.Strings(keys)
		var parts []string
		for _, k := range keys {
			e := canon(rv.MapIndex(reflect.ValueOf(k).Convert(rv.Type().Key())).Interface())
			parts = append(parts, strconv.QuoteToASCII(k)+":"+e.K+e.V)
		}
		return Val{"m", "{" + strings.Join(parts, ",") + "}"}
	}
	return Val{"?", fmt.Sprintf("%T", v)}
}

func canons(vs []interface{}) []Val {
	out := []Val{}
	for _, v := range vs {
		out = append(out, canon(v))
	}
	return out
}

// sioPkt is a Socket.IO packet on the wire.
type sioPkt struct {
	Type  int // 0..4, with attachments or without
	Nsp   string
	ID    string
	Name  string // of events
	Args  []interface{}
	Extra interface{} // data of the other types
}

var sioTypes = []string{"CONNECT", "DISCONNECT", "EVENT", "ACK", "ERROR", "BINARY_EVENT", "BINARY_ACK"}

var someStrings = []string{"", "a", "hello world", "\"", "\\", "\\\"", "]", "[", ",", "{}", "null", "\u2028\u2029", "<b>&amp;</b>", "héllo wörld ☃ \U0001F600",
	"line\nbreak\ttab\r\x00\x1f\x7f", `,{"_placeholder":true,"num":0}`, `{"_placeholder":true,"num":1}`, "0", "1-", "/a,", "2[\"x\"]", strings.Repeat("long ", 60)}

func randBytes(r *rand.Rand) []byte {
	n := []int{0, 1, 2, 3, 17, 64, 300}[r.Intn(7)]
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		copy(b, `42["str","x"]`)
	case 1:
	default:
		r.Read(b)
	}
	return b
}

// randVal makes a value of the kind.
func randVal(r *rand.Rand, kind string) interface{} {
	switch kind {
	case "s":
		return someStrings[r.Intn(len(someStrings))]
	case "#":
		return []int64{0, 1, -1, 7, 255, 256, -129, 65536, 1 << 31, 1<<53 - 1, -(1 << 40)}[r.Intn(11)]
	case "f":
		return []float64{0.5, -1.25, 1e-7, 3.0000001}[r.Intn(4)]
	case "b":
		return r.Intn(2) == 0
	case "x":
		return randBytes(r)
	case "ls":
		l := []interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, randVal(r, "s"))
		}
		return l
	case "l":
		l := []interface{}{randVal(r, "#")}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, randVal(r, []string{"s", "#", "b", "n", "m", "ls"}[r.Intn(6)]))
		}
		return l
	case "m":
		m := map[string]interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			m[[]string{"k", "", "num", "ключ", "a b"}[r.Intn(5)]] = randVal(r, []string{"s", "#", "b", "n", "ls"}[r.Intn(5)])
		}
		return m
	}
	return nil
}

func randVals(r *rand.Rand, kinds []string) []interface{} {
	out := []interface{}{}
	for _, k := range kinds {
		out = append(out, randVal(r, k))
	}
	return out
}

// jsonText writes JSON as one of the many encoders peers use.
func jsonText(r *rand.Rand, v interface{}) string {
	ws := func() string {
		if r.Intn(6) == 0 {
			return []string{" ", "  ", "\n", "\t "}[r.Intn(4)]
		}
		return ""
	}
	switch t := v.(type) {
	case ph:
		return ws() + fmt.Sprintf(`{"_placeholder":true,"num":%d}`, int(t)) + ws()
	case []interface{}:
		var parts []string
		for _, e := range t {
			parts = append(parts, jsonText(r, e))
		}
		return ws() + "[" + strings.Join(parts, ",") + "]" + ws()
	case map[string]interface{}:
		var parts []string
		for k, e := range t {
			parts = append(parts, ws()+jsonText(r, k)+":"+jsonText(r, e))
		}
		return ws() + "{" + strings.Join(parts, ",") + "}" + ws()
	}
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(r.Intn(2) == 0)
	e.Encode(v)
	s := strings.TrimSuffix(b.String(), "\n")
	if _, ok := v.(string); ok && r.Intn(4) == 0 {
		s = strconv.QuoteToASCII(v.(string))
		if strings.ContainsAny(v.(string), "\x00\x1f\x7f\U0001F600") { // not JSON escapes
			s = strings.TrimSuffix(b.String(), "\n")
		}
	}
	return ws() + s + ws()
}

// ph stands for the n-th attachment.
type ph int

// encodeSio gives the frames of p with the given parser: the first is the header.
func encodeSio(r *rand.Rand, parser string, p sioPkt) (frames []Pkt, args []Val) {
	if parser == "msgpack" {
		args = canons(p.Args)
		if p.Type != 2 && p.Type != 3 {
			m := map[string]interface{}{"type": p.Type, "nsp": p.Nsp}
			if p.Type == 4 {
				m["data"] = p.Extra
			}
			b, _ := json.Marshal(m)
			return []Pkt{{Type: 4, Data: b}}, args
		}
		list := append([]interface{}{}, p.Args...)
		if p.Type == 2 {
			list = append([]interface{}{p.Name}, list...)
		}
		type kv struct {
			k string
			v interface{}
		}
		fields := []kv{{"type", p.Type}, {"data", list}, {"nsp", p.Nsp}}
		if p.ID != "" {
			n, _ := strconv.ParseUint(p.ID, 10, 64)
			fields = append(fields, kv{"id", n})
		} else if r.Intn(2) == 0 {
			fields = append(fields, kv{"id", nil})
		}
		if r.Intn(5) == 0 {
			fields = append(fields, kv{"options", map[string]interface{}{"compress": true}})
		}
		r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
		b := msgp.AppendMapHeader(nil, uint32(len(fields)))
		for _, f := range fields {
			b = msgp.AppendString(b, f.k)
			var err error
			if b, err = msgp.AppendIntf(b, f.v); err != nil {
				panic(err)
			}
		}
		return []Pkt{{Type: 4, Bin: true, Data: b}}, args
	}
	args = []Val{}
	var list []interface{}
	var atts [][]byte
	if p.Type == 2 {
		list = append(list, p.Name)
	}
	for _, a := range p.Args {
		if b, ok := a.([]byte); ok {
			args = append(args, Val{"ph", strconv.Itoa(len(atts))})
			list = append(list, ph(len(atts)))
			atts = append(atts, b)
			continue
		}
		args = append(args, canon(a))
		list = append(list, a)
	}
	t := p.Type
	s := ""
	if len(atts) > 0 {
		t += 3
		s = fmt.Sprintf("%d-", len(atts))
	} else if r.Intn(12) == 0 && (t == 2 || t == 3) { // binary packets need not have attachments
		t += 3
		s = "0-"
	}
	s = strconv.Itoa(t) + s
	if p.Nsp != "/" {
		s += p.Nsp
		if r.Intn(5) == 0 {
			s += "?token=1&x=/y"
		}
		if (t != 0 && t != 1) || r.Intn(2) == 0 {
			s += ","
		}
	} else if r.Intn(8) == 0 && t > 1 {
		s += "/,"
	}
	s += p.ID
	switch p.Type {
	case 2, 3:
		if list == nil {
			list = []interface{}{}
		}
		s += strings.TrimLeft(jsonText(r, list), " \n\t")
	case 4:
		b, _ := json.Marshal(p.Extra)
		s += string(b)
	}
	frames = append(frames, Pkt{Type: 4, Data: []byte(s)})
	for _, a := range atts {
		frames = append(frames, Pkt{Type: 4, Bin: true, Data: a})
	}
	return
}

// decodeSio reads a frame by the protocol: a packet or the header of one.
func decodeSio(parser string, f Pkt) (E, error) {
	e := E{"id": "", "name": "", "args": []Val{}, "n": 0, "frame": "text", "t": "", "nsp": "/"}
	if parser == "msgpack" {
		if !f.Bin {
			var m map[string]interface{}
			d := json.NewDecoder(bytes.NewReader(f.Data))
			d.UseNumber()
			if err := d.Decode(&m); err != nil {
				return nil, err
			}
			return e, sioFields(e, m)
		}
		e["frame"] = "bin"
		v, left, err := msgp.ReadMapStrIntfBytes(f.Data, nil)
		if err != nil || len(left) > 0 {
			return nil, fmt.Errorf("msgpack: %v, %d bytes left", err, len(left))
		}
		return e, sioFields(e, v)
	}
	s := string(f.Data)
	if s == "" || s[0] < '0' || s[0] > '6' {
		return nil, fmt.Errorf("bad type")
	}
	t := int(s[0] - '0')
	e["t"] = sioTypes[t]
	s = s[1:]
	if t > 4 {
		i := strings.IndexByte(s, '-')
		if i < 1 {
			return nil, fmt.Errorf("no attachment count")
		}
		n, err := strconv.Atoi(s[:i])
		if err != nil {
			return nil, err
		}
		e["n"] = n
		s = s[i+1:]
	}
	if strings.HasPrefix(s, "/") {
		i := strings.IndexByte(s, ',')
		if i < 0 {
			i = len(s)
			s += ","
		}
		e["nsp"] = s[:i]
		s = s[i+1:]
	}
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	e["id"] = s[:i]
	s = s[i:]
	if s == "" {
		return e, nil
	}
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var data interface{}
	if err := d.Decode(&data); err != nil {
		return nil, err
	}
	if rest, _ := readAllTrim(d, s); rest != "" {
		return nil, fmt.Errorf("text after the data")
	}
	return e, sioData(e, e["t"].(string), data)
}

func readAllTrim(d *json.Decoder, s string) (string, error) {
	return strings.TrimSpace(s[d.InputOffset():]), nil
}

func sioFields(e E, m map[string]interface{}) error {
	t, err := strconv.Atoi(fmt.Sprint(m["type"]))
	if err != nil || t < 0 || t > 6 {
		return fmt.Errorf("type %v", m["type"])
	}
	e["t"] = sioTypes[t]
	if n, ok := m["nsp"].(string); ok && n != "" {
		e["nsp"] = n
	}
	if id, ok := m["id"]; ok && id != nil {
		e["id"] = fmt.Sprint(id)
	}
	return sioData(e, sioTypes[t], m["data"])
}

func sioData(e E, t string, data interface{}) error {
	switch t {
	case "CONNECT", "DISCONNECT":
		if data != nil {
			return fmt.Errorf("data in %s", t)
		}
		return nil
	case "ERROR":
		return nil
	}
	list, ok := data.([]interface{})
	if !ok {
		return fmt.Errorf("data is no list")
	}
	if strings.HasSuffix(t, "EVENT") {
		if len(list) == 0 {
			return fmt.Errorf("no event name")
		}
		name, ok := list[0].(string)
		if !ok {
			return fmt.Errorf("event name is no string")
		}
		e["name"] = asciiName(name)
		list = list[1:]
	}
	e["args"] = canons(list)
	return nil
}

// asciiName is how names appear in traces.
func asciiName(s string) string {
	q := strconv.QuoteToASCII(s)
	q = q[1 : len(q)-1]
	return strings.NewReplacer(`\"`, `"`, `\\`, `\`).Replace(q)
}
