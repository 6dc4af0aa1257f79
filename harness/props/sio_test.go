package props

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	socketio "github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// Val is an argument: nil, bool, int64, float64, string, binary, list or map.
type Val struct {
	K string         `json:"k"` // nil bool int float str bin list map, and long lbin wide wmap: strings, binaries, lists and maps of I elements
	B bool           `json:"b,omitempty"`
	I int64          `json:"i,omitempty"`
	F float64        `json:"f,omitempty"`
	S string         `json:"s,omitempty"`
	X []byte         `json:"x,omitempty"`
	L []Val          `json:"l,omitempty"`
	M map[string]Val `json:"m,omitempty"`
}

// generic converts to plain Go values; binary becomes []byte.
func (v Val) generic() interface{} {
	switch v.K {
	case "bool":
		return v.B
	case "int":
		return v.I
	case "float":
		return v.F
	case "str":
		return v.S
	case "bin":
		return append([]byte{}, v.X...)
	case "long":
		return string(Blob{N: int(v.I), Seed: 5}.Bytes())
	case "lbin":
		return Blob{Bin: true, N: int(v.I), Seed: 6}.Bytes()
	case "wide":
		out := make([]interface{}, v.I)
		for i := range out {
			if out[i] = int64(i) * 37; v.B {
				out[i] = fmt.Sprint("e", i)
			}
		}
		return out
	case "wmap":
		out := make(map[string]interface{}, v.I)
		for i := int64(0); i < v.I; i++ {
			out[fmt.Sprint("k", i)] = i * 37
		}
		return out
	case "list":
		out := make([]interface{}, len(v.L))
		for i := range v.L {
			out[i] = v.L[i].generic()
		}
		return out
	case "map":
		out := make(map[string]interface{}, len(v.M))
		for k := range v.M {
			out[k] = v.M[k].generic()
		}
		return out
	}
	return nil
}

// goArg is the value an application passes to Emit.
func (v Val) goArg(msgp bool) interface{} {
	if (v.K == "bin" || v.K == "lbin") && !msgp {
		return &socketio.Bytes{Data: v.generic().([]byte)}
	}
	return v.generic()
}

// canon is a canonical text of a generic value: equal texts, equal values.
func canon(v interface{}) string {
	var b strings.Builder
	canonTo(&b, v)
	return b.String()
}

func canonTo(b *strings.Builder, v interface{}) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		b.WriteString(strconv.FormatBool(x))
	case int:
		b.WriteString(strconv.Itoa(x))
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case uint64:
		b.WriteString(strconv.FormatUint(x, 10))
	case float64:
		canonFloat(b, x)
	case json.Number:
		if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
			b.WriteString(strconv.FormatInt(i, 10))
		} else if u, err := strconv.ParseUint(string(x), 10, 64); err == nil {
			b.WriteString(strconv.FormatUint(u, 10))
		} else {
			f, _ := x.Float64()
			canonFloat(b, f)
		}
	case string:
		b.WriteString(strconv.Quote(x))
	case []byte:
		b.WriteString("bin:" + hex.EncodeToString(x))
	case []interface{}:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			canonTo(b, e)
		}
		b.WriteByte(']')
	case map[string]interface{}:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(k) + ":")
			canonTo(b, x[k])
		}
		b.WriteByte('}')
	default:
		fmt.Fprintf(b, "?%T:%v", v, v)
	}
}

func canonFloat(b *strings.Builder, f float64) {
	if f == math.Trunc(f) && math.Abs(f) < 1e18 {
		b.WriteString(strconv.FormatInt(int64(f), 10))
		return
	}
	b.WriteString(strconv.FormatFloat(f, 'g', -1, 64))
}

func canonVals(vs []Val) string {
	out := make([]string, len(vs))
	for i := range vs {
		out[i] = canon(vs[i].generic())
	}
	return strings.Join(out, " ")
}

func canonArgs(vs []interface{}) string {
	out := make([]string, len(vs))
	for i := range vs {
		out[i] = canon(vs[i])
	}
	return strings.Join(out, " ")
}

var trickyStr = []string{"", "a", "\"", "\\", "\n\t\r", "a,b", "[1]", "{\"_placeholder\":true,\"num\":0}", ",{\"_placeholder\":true,\"num\":0}", "]", "語", "😀", "</x>&", "\u2028", "1-/a,2", "\x00", "0", "null"}

func genStr(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 3).Draw(t, label+".sc") {
	case 0, 1:
		return rapid.SampledFrom(trickyStr).Draw(t, label+".s")
	case 2:
		return rapid.StringN(0, 12, -1).Draw(t, label+".s")
	}
	return strings.Repeat(rapid.SampledFrom([]string{"x", "\"", "é"}).Draw(t, label+".r"), rapid.SampledFrom([]int{31, 32, 33, 255, 256, 300, 4100, 66000}).Draw(t, label+".n"))
}

var trickyInt = []int64{0, 1, -1, 7, 31, -32, -33, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648, -2147483648, -2147483649, 1 << 53}

// genVal draws an argument; depth limits nesting, bin allows a binary at the top.
func genVal(t *rapid.T, label string, depth int, bin bool) Val {
	ks := []string{"nil", "bool", "int", "int", "float", "str", "str"}
	if bin {
		ks = append(ks, "bin", "bin", "bin")
	}
	if depth > 0 {
		ks = append(ks, "list", "map")
	}
	v := Val{K: rapid.SampledFrom(ks).Draw(t, label+".k")}
	switch v.K {
	case "bool":
		v.B = rapid.Bool().Draw(t, label+".b")
	case "int":
		v.I = rapid.SampledFrom(trickyInt).Draw(t, label+".i")
	case "float":
		v.F = rapid.SampledFrom([]float64{0.5, -1.25, 1e300, 3.0000001, 1e-7, 123456789.125}).Draw(t, label+".f")
	case "str":
		v.S = genStr(t, label)
	case "bin":
		v.X = genBlobBytes(t, label)
	case "list":
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, label+".n"); i < n; i++ {
			v.L = append(v.L, genVal(t, label+".e", depth-1, false))
		}
	case "map":
		v.M = map[string]Val{}
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, label+".n"); i < n; i++ {
			v.M[rapid.SampledFrom([]string{"a", "b", "key", "", "\"q\"", "語", "_placeholder", "num"}).Draw(t, label+".key")] = genVal(t, label+".e", depth-1, false)
		}
		if _, ok := v.M["_placeholder"]; ok {
			delete(v.M, "num") // not to be mistaken for a placeholder
		}
	}
	return v
}

func genBlobBytes(t *rapid.T, label string) []byte {
	if rapid.IntRange(0, 4).Draw(t, label+".big") == 0 {
		b := Blob{Bin: true, N: rapid.SampledFrom([]int{255, 256, 5000, 65535, 65536}).Draw(t, label+".n"), Seed: 7}
		return b.Bytes()
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, label+".x")
}

func genVals(t *rapid.T, label string, most int) []Val {
	var out []Val
	for i, n := 0, rapid.IntRange(0, most).Draw(t, label+".nargs"); i < n; i++ {
		out = append(out, genVal(t, fmt.Sprint(label, i), 2, true))
	}
	return out
}

// SP is a socket.io packet as the protocol sees it, whatever the parser: binary events
// and acks are events and acks. An event's name is Args[0].
type SP struct {
	Type int
	NSP  string
	ID   *uint64
	Args []interface{}
	Data interface{} // of connect, disconnect, error
	Bins int
}

func (p SP) String() string {
	id := "-"
	if p.ID != nil {
		id = fmt.Sprint(*p.ID)
	}
	s := fmt.Sprintf("{%s %s id=%s [%s]", [...]string{"connect", "disconnect", "event", "ack", "error"}[p.Type], p.NSP, id, canonArgs(p.Args))
	if p.Data != nil {
		s += " data=" + canon(p.Data)
	}
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s + "}"
}

func (p SP) key() string {
	id := "-"
	if p.ID != nil {
		id = fmt.Sprint(*p.ID)
	}
	return fmt.Sprintf("%d %s %s %s", p.Type, p.NSP, id, canonArgs(p.Args))
}

func evPkt(nsp, name string, args ...Val) SP {
	p := SP{Type: wire.SEvent, NSP: nsp, Args: []interface{}{name}}
	for _, a := range args {
		p.Args = append(p.Args, a.generic())
	}
	return p
}

func ackPkt(nsp string, id uint64, args ...Val) SP {
	p := SP{Type: wire.SAck, NSP: nsp, ID: &id, Args: []interface{}{}}
	for _, a := range args {
		p.Args = append(p.Args, a.generic())
	}
	return p
}

func (p SP) withID(id uint64) SP { p.ID = &id; return p }

// jsonEnc marshals without HTML escaping.
func jsonEnc(v interface{}) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		panic(fmt.Sprintf("socketioverif: encode %v: %v", v, err))
	}
	return bytes.TrimSpace(b.Bytes())
}

type frame struct {
	bin  bool
	data []byte
}

// frames encodes a packet for a peer with the given parser.
func (p SP) frames(msgp bool) []frame {
	if msgp {
		switch p.Type {
		case wire.SConnect, wire.SDisconnect, wire.SError:
			m := map[string]interface{}{"type": p.Type, "nsp": p.NSP}
			if p.Data != nil {
				m["data"] = p.Data
			}
			return []frame{{false, jsonEnc(m)}}
		}
		var id interface{}
		if p.ID != nil {
			id = *p.ID
		}
		args := p.Args
		if args == nil {
			args = []interface{}{}
		}
		return []frame{{true, wire.MEnc(nil, map[string]interface{}{"type": p.Type, "nsp": p.NSP, "data": args, "id": id}, 0)}}
	}
	q := wire.SPkt{Type: p.Type, NSP: p.NSP, ID: p.ID}
	switch p.Type {
	case wire.SEvent, wire.SAck:
		out := make([]interface{}, len(p.Args))
		for i, a := range p.Args {
			if x, ok := a.([]byte); ok {
				out[i] = json.RawMessage(fmt.Sprintf(`{"_placeholder":true,"num":%d}`, len(q.Atts)))
				q.Atts = append(q.Atts, x)
			} else {
				out[i] = a
			}
		}
		q.Data = jsonEnc(out)
		if len(q.Atts) > 0 {
			q.Type += wire.SBinEvent - wire.SEvent
		}
	default:
		if p.Data != nil {
			q.Data = jsonEnc(p.Data)
		}
	}
	fs := []frame{{false, wire.EncSIO(q)}}
	for _, a := range q.Atts {
		fs = append(fs, frame{true, a})
	}
	return fs
}

// assembler turns frames into packets for either parser.
type assembler struct {
	msgp bool
	asm  wire.Assembler
	out  []SP
}

func (a *assembler) add(bin bool, data []byte) error {
	if a.msgp {
		p, err := decMsgp(bin, data)
		if err == nil {
			a.out = append(a.out, p)
		}
		return err
	}
	if err := a.asm.Add(bin, data); err != nil {
		return err
	}
	for _, q := range a.asm.Out {
		p, err := fromSPkt(q)
		if err != nil {
			return err
		}
		a.out = append(a.out, p)
	}
	a.asm.Out = nil
	return nil
}

func fromSPkt(q wire.SPkt) (SP, error) {
	p := SP{Type: q.Type, NSP: q.NSP, ID: q.ID, Bins: len(q.Atts)}
	switch q.Type {
	case wire.SBinEvent, wire.SBinAck:
		p.Type = q.Type - (wire.SBinEvent - wire.SEvent)
		fallthrough
	case wire.SEvent, wire.SAck:
		args, err := q.Args()
		if err != nil {
			return p, fmt.Errorf("%s: %v", q, err)
		}
		bins := 0
		p.Args = []interface{}{}
		for _, a := range args {
			if a.IsB {
				// the n-th placeholder refers to the n-th attachment
				if bins < len(q.Atts) && !bytes.Equal(q.Atts[bins], a.Bin) {
					return p, fmt.Errorf("%s: placeholders out of order", q)
				}
				bins++
				p.Args = append(p.Args, a.Bin)
				continue
			}
			v, err := genericJSON(a.JSON)
			if err != nil {
				return p, err
			}
			p.Args = append(p.Args, v)
		}
		if bins != len(q.Atts) {
			return p, fmt.Errorf("%s: %d placeholders for %d attachments", q, bins, len(q.Atts))
		}
		if p.Type == wire.SEvent {
			if len(p.Args) == 0 {
				return p, fmt.Errorf("%s: event without a name", q)
			}
			if _, ok := p.Args[0].(string); !ok {
				return p, fmt.Errorf("%s: event name is no string", q)
			}
		}
	default:
		if len(q.Data) > 0 {
			v, err := genericJSON(q.Data)
			if err != nil {
				return p, err
			}
			p.Data = v
		}
	}
	return p, nil
}

func genericJSON(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	err := d.Decode(&v)
	return v, err
}

func decMsgp(bin bool, data []byte) (SP, error) {
	var p SP
	if !bin {
		v, err := genericJSON(data)
		if err != nil {
			return p, fmt.Errorf("text frame %q: %v", data, err)
		}
		m, _ := v.(map[string]interface{})
		ty, ok := m["type"].(json.Number)
		nsp, ok2 := m["nsp"].(string)
		if !ok || !ok2 {
			return p, fmt.Errorf("text frame %q is no packet", data)
		}
		n, _ := ty.Int64()
		p.Type, p.NSP, p.Data = int(n), nsp, m["data"]
		if p.Type != wire.SConnect && p.Type != wire.SDisconnect && p.Type != wire.SError {
			return p, fmt.Errorf("packet type %d in a text frame", p.Type)
		}
		return p, nil
	}
	v, rest, err := wire.MDec(data)
	if err != nil || len(rest) > 0 {
		return p, fmt.Errorf("binary frame %x: %v, %d bytes left", data, err, len(rest))
	}
	m, ok := v.(map[string]interface{})
	if !ok {
		return p, fmt.Errorf("binary frame %x is no map", data)
	}
	ty, ok1 := m["type"].(int64)
	nsp, ok2 := m["nsp"].(string)
	args, ok3 := m["data"].([]interface{})
	if !ok1 || !ok2 || !ok3 {
		return p, fmt.Errorf("packet %v lacks a field", canon(m))
	}
	for k := range m {
		if k != "type" && k != "nsp" && k != "data" && k != "id" {
			return p, fmt.Errorf("packet with field %q", k)
		}
	}
	p.Type, p.NSP, p.Args = int(ty), nsp, args
	switch p.Type {
	case wire.SEvent:
		if len(args) == 0 {
			return p, fmt.Errorf("event without a name")
		}
		if _, ok := args[0].(string); !ok {
			return p, fmt.Errorf("event name is no string")
		}
	case wire.SAck:
	default:
		return p, fmt.Errorf("packet type %d in a msgpack frame", p.Type)
	}
	if id, ok := m["id"]; ok && id != nil {
		switch x := id.(type) {
		case int64:
			u := uint64(x)
			p.ID = &u
		case uint64:
			p.ID = &x
		default:
			return p, fmt.Errorf("id %v", id)
		}
	}
	return p, nil
}

// sioCli is a reference socket.io client.
type sioCli struct {
	*link
	msgp bool

	amu  sync.Mutex
	asm  assembler
	used int
}

func newSioCli(c *kit.C, h http.Handler, msgp, ws bool, addr string, hdr http.Header, enc sim.Enc) *sioCli {
	return newSioCliMay(c, h, msgp, ws, addr, hdr, enc, nil)
}

func newSioCliMay(c *kit.C, h http.Handler, msgp, ws bool, addr string, hdr http.Header, enc sim.Enc, sidOf func() string) *sioCli {
	k := &sioCli{link: newLinkMay(c, h, ws, addr, hdr, enc, sidOf), msgp: msgp}
	k.asm.msgp = msgp
	if !ws {
		k.poll.Run(-1)
	}
	return k
}

// send queues packets: in one post, or one frame after the other.
func (k *sioCli) send(ps ...SP) {
	var out []wire.Pkt
	for _, p := range ps {
		for _, f := range p.frames(k.msgp) {
			out = append(out, wire.Pkt{Bin: f.bin, Type: wire.EMessage, Data: f.data})
		}
	}
	k.w.do(func() { k.sendNow(out) })
}

// recv returns the socket.io packets received so far.
func (k *sioCli) recv() []SP {
	k.amu.Lock()
	defer k.amu.Unlock()
	g := k.got()
	for ; k.used < len(g); k.used++ {
		if err := k.asm.add(g[k.used].Bin, g[k.used].Data); err != nil && !k.crossed() {
			k.c.Errorf("client %s received a frame that is no socket.io packet: %v", k.addr, err)
		}
	}
	return k.asm.out[:len(k.asm.out):len(k.asm.out)]
}

// find returns the packets of a type and namespace.
func (k *sioCli) find(ty int, nsp string) (out []SP) {
	for _, p := range k.recv() {
		if p.Type == ty && p.NSP == nsp {
			out = append(out, p)
		}
	}
	return
}

func (k *sioCli) events() (out []SP) {
	for _, p := range k.recv() {
		if p.Type == wire.SEvent {
			out = append(out, p)
		}
	}
	return
}

// sioEntry is one thing the application saw.
type sioEntry struct {
	Kind string // connect, disconnect, event, error
	NSP  string
	Name string
	Args string
}

func (e sioEntry) String() string {
	s := e.Kind + " " + e.NSP
	if e.Kind == "event" {
		s += " " + e.Name + "(" + e.Args + ")"
	} else if e.Args != "" {
		s += ": " + e.Args
	}
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// sioSess is what the application saw of one session.
type sioSess struct {
	sid  string
	mu   sync.Mutex
	log  []sioEntry
	sock map[string]socketio.Socket // latest per namespace
	w    *worker
	in   int
}

func (e *sioSess) entries() []sioEntry {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.log[:len(e.log):len(e.log)]
}

func (e *sioSess) count(kind, nsp string) (n int) {
	for _, x := range e.entries() {
		if x.Kind == kind && (nsp == "*" || x.NSP == nsp) {
			n++
		}
	}
	return
}

func (e *sioSess) socket(nsp string) socketio.Socket {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.sock[nsp]
}

// sioSrv is a socket.io server with a recording application.
type sioSrv struct {
	c     *kit.C
	S     *socketio.Server
	msgp  bool
	mu    sync.Mutex
	bySid map[string]*sioSess
	errs  []error
	// hooks, run after recording
	OnConnect    func(e *sioSess, so socketio.Socket)
	OnDisconnect func(e *sioSess, so socketio.Socket)
	OnError      func(e *sioSess, so socketio.Socket, err []interface{})
}

func parserOf(msgp bool) socketio.Parser {
	if msgp {
		return socketio.MsgpackParser
	}
	return socketio.DefaultParser
}

func newSioSrv(c *kit.C, msgp bool, interval, timeout time.Duration, oc ...engine.OriginChecker) *sioSrv {
	s := &sioSrv{c: c, msgp: msgp, bySid: map[string]*sioSess{}}
	var err error
	s.S, err = socketio.NewServer(interval, timeout, parserOf(msgp), oc...)
	if err != nil {
		c.Failf("NewServer: %v", err)
	}
	s.S.OnError(func(err error) { s.mu.Lock(); s.errs = append(s.errs, err); s.mu.Unlock() })
	c.Defer(s.shutdown)
	return s
}

func (s *sioSrv) errors() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.errs) }

// sess returns the record of a session.
func (s *sioSrv) sess(sid string) *sioSess {
	s.mu.Lock()
	defer s.mu.Unlock()
	e := s.bySid[sid]
	if e == nil {
		e = &sioSess{sid: sid, sock: map[string]socketio.Socket{}, w: newWorker()}
		s.bySid[sid] = e
	}
	return e
}

// byHeader is the id of the session whose handshake had a header (empty: none yet).
func (s *sioSrv) byHeader(key, val string) string {
	s.mu.Lock()
	var all []*sioSess
	for _, e := range s.bySid {
		all = append(all, e)
	}
	s.mu.Unlock()
	for _, e := range all {
		if so := e.socket("/"); so != nil && so.GetHeader(key) == val {
			return e.sid
		}
	}
	return ""
}

func (s *sioSrv) add(so socketio.Socket, nsp, kind, name, args string) *sioSess {
	e := s.sess(so.Sid())
	if got := so.Namespace(); got != nsp {
		s.c.Errorf("%s handler of %s given a socket of namespace %q", kind, nsp, got)
	}
	e.mu.Lock()
	e.log = append(e.log, sioEntry{Kind: kind, NSP: nsp, Name: name, Args: args})
	if kind == "connect" {
		e.sock[nsp] = so
	}
	e.mu.Unlock()
	return e
}

// enter and leave check that handlers of a session run one at a time.
func (s *sioSrv) enter(e *sioSess, what string) {
	e.mu.Lock()
	e.in++
	if e.in > 1 {
		s.c.Errorf("session %s: %s ran while another handler of the session was running", e.sid, what)
	}
	e.mu.Unlock()
}

func (s *sioSrv) leave(e *sioSess) { e.mu.Lock(); e.in--; e.mu.Unlock() }

// nsp registers recording connect, disconnect and error handlers.
func (s *sioSrv) nsp(name string) socketio.Namespace {
	n := s.S.Namespace(name)
	n.OnConnect(func(so socketio.Socket) {
		e := s.add(so, name, "connect", "", "")
		s.enter(e, "the connect handler of "+name)
		defer s.leave(e)
		if f := s.OnConnect; f != nil {
			f(e, so)
		}
	})
	n.OnDisconnect(func(so socketio.Socket) {
		e := s.add(so, name, "disconnect", "", "")
		s.enter(e, "the disconnect handler of "+name)
		defer s.leave(e)
		if f := s.OnDisconnect; f != nil {
			f(e, so)
		}
	})
	n.OnError(func(so socketio.Socket, err ...interface{}) {
		if so == nil {
			s.c.Errorf("error handler of %s called without a socket: %v", name, err)
			return
		}
		e := s.add(so, name, "error", "", fmt.Sprint(err...))
		if f := s.OnError; f != nil {
			f(e, so, err)
		}
	})
	return n
}

// event registers a recording handler without arguments beyond one integer tag.
func (s *sioSrv) event(nsp, name string, f func(e *sioSess, so socketio.Socket, tag int)) {
	s.S.Namespace(nsp).OnEvent(name, func(so socketio.Socket, tag int) {
		e := s.add(so, nsp, "event", name, fmt.Sprint(tag))
		s.enter(e, "event handler "+name+" of "+nsp)
		defer s.leave(e)
		if f != nil {
			f(e, so, tag)
		}
	})
}

func (s *sioSrv) shutdown() {
	s.S.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, e := range s.bySid {
		e.w.stop()
		e.mu.Lock()
		for _, so := range e.sock {
			go so.Close()
			break
		}
		e.mu.Unlock()
	}
}

// join waits until a client is in a namespace, root included.
func (s *sioSrv) join(k *sioCli, nsp string) {
	e := s.sess(k.sid)
	n := e.count("connect", nsp)
	if nsp != "/" {
		k.send(SP{Type: wire.SConnect, NSP: nsp})
		n++
	} else {
		n = 1
	}
	k.c.Await(func() bool { return e.count("connect", nsp) >= n && len(k.find(wire.SConnect, nsp)) > 0 }, "connect handler and connect packet of namespace %s", nsp)
}
