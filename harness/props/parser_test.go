package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strings"
	"unicode/utf16"

	socketio "github.com/zyxar/socketio"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// PK is a generated socket.io packet.
type PK struct {
	Type int     `json:"type"`
	NSP  string  `json:"nsp"`
	ID   *uint64 `json:"id,omitempty"`
	Name string  `json:"name,omitempty"`
	Args []Val   `json:"args,omitempty"`
	Data *Val    `json:"data,omitempty"`
}

func (p PK) sp() SP {
	q := SP{Type: p.Type, NSP: p.NSP, ID: p.ID}
	switch p.Type {
	case wire.SEvent:
		q.Args = []interface{}{p.Name}
	case wire.SAck:
		q.Args = []interface{}{}
	default:
		if p.Data != nil {
			q.Data = p.Data.generic()
		}
	}
	for _, a := range p.Args {
		q.Args = append(q.Args, a.generic())
	}
	return q
}

// packet is the library's form of the packet.
func (p PK) packet(msgp bool) *socketio.Packet {
	q := &socketio.Packet{Type: socketio.PacketType(p.Type), Namespace: p.NSP}
	if p.ID != nil {
		id := *p.ID
		q.ID = &id
	}
	args := []interface{}{}
	switch p.Type {
	case wire.SEvent:
		args = append(args, p.Name)
	case wire.SAck:
	default:
		if p.Data != nil {
			q.Data = p.Data.goArg(msgp)
		}
		return q
	}
	for _, a := range p.Args {
		args = append(args, a.goArg(msgp))
	}
	q.Data = args
	return q
}

var nspPool = []string{"/", "/a", "/chat/room-1", "/ü", "/1", "/12-3", "/a[1]", "/\"q\"", "/a b", "//", "/-", "/a#b", "/a&b=c;d", "/%41+", "/a\\b", "/" + strings.Repeat("n", 300)}

var idPool = []uint64{0, 1, 2, 9, 10, 99, 127, 128, 255, 256, 65535, 65536, 1 << 32, 1 << 53, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64}

func genID(t *rapid.T, label string) *uint64 {
	if rapid.Bool().Draw(t, label+".hasid") {
		id := rapid.SampledFrom(idPool).Draw(t, label+".id")
		return &id
	}
	return nil
}

func genName(t *rapid.T, label string) string {
	if s := genStr(t, label); s != "" {
		return s
	}
	return "e"
}

func genPK(t *rapid.T, label string, msgp bool) PK {
	p := PK{Type: rapid.SampledFrom([]int{wire.SEvent, wire.SEvent, wire.SEvent, wire.SAck, wire.SAck, wire.SConnect, wire.SDisconnect, wire.SError}).Draw(t, label+".type")}
	p.NSP = rapid.SampledFrom(nspPool).Draw(t, label+".nsp")
	switch p.Type {
	case wire.SEvent:
		p.ID = genID(t, label)
		p.Name = genName(t, label+".name")
	case wire.SAck:
		id := rapid.SampledFrom(idPool).Draw(t, label+".id")
		p.ID = &id
	case wire.SError:
		v := genVal(t, label+".data", 2, false)
		for v.K == "nil" || !msgp && (v.K == "int" || v.K == "float") {
			v = Val{K: "str", S: "problem"}
		}
		p.Data = &v
		return p
	default:
		return p
	}
	p.Args = genVals(t, label+".arg", 5)
	if msgp {
		for i := range p.Args {
			p.Args[i] = nestBin(t, label, p.Args[i])
		}
	}
	return p
}

// nestBin sometimes puts binary data inside a list or map, which msgpack can represent.
func nestBin(t *rapid.T, label string, v Val) Val {
	switch v.K {
	case "list":
		if rapid.Bool().Draw(t, label+".nb") {
			v.L = append(v.L, Val{K: "bin", X: genBlobBytes(t, label+".nbx")})
		}
	case "map":
		if rapid.Bool().Draw(t, label+".nb") {
			v.M["bin"] = Val{K: "bin", X: genBlobBytes(t, label+".nbx")}
		}
	}
	return v
}

type c11Pkt struct {
	P    PK     `json:"p"`
	Own  bool   `json:"own,omitempty"`  // decode the encoder's own frames
	Seed uint32 `json:"seed,omitempty"` // variant of the reference frames

	Again bool `json:"again,omitempty"` // the packet is encoded for the second time
}

type codecPlan struct {
	Ps []c11Pkt `json:"ps"`
}

func genCodec(msgp bool) func(t *rapid.T) codecPlan {
	return func(t *rapid.T) codecPlan {
		var p codecPlan
		n := rapid.IntRange(1, 4).Draw(t, "n")
		for i := 0; i < n; i++ {
			p.Ps = append(p.Ps, c11Pkt{P: genPK(t, fmt.Sprint("p", i), msgp), Own: rapid.Bool().Draw(t, "own"), Again: rapid.IntRange(0, 3).Draw(t, "again") == 0,
				Seed: uint32(rapid.IntRange(0, 1<<16).Draw(t, "seed"))})
		}
		return p
	}
}

func init() {
	kit.Add("C11", "codec", "the packet has an argument or an id or a namespace", 60000, 600000, genCodec(false), func(c *kit.C, p codecPlan) { runCodec(c, p, false) })
	kit.Add("C12", "codec", "the packet has an argument or an id or a namespace", 60000, 600000, genCodec(true), func(c *kit.C, p codecPlan) { runCodec(c, p, true) })
}

// xrand is a small generator for encoding variants.
type xrand uint32

func (x *xrand) n(k int) int {
	*x = *x*1664525 + 1013904223
	return int(uint32(*x)>>8) % k
}

// variantJSON writes v as JSON with random insignificant white space and string escapes.
func variantJSON(b *bytes.Buffer, v interface{}, x *xrand, bins *int) {
	ws := func() {
		if x.n(3) == 0 {
			for i := x.n(3); i >= 0; i-- {
				b.WriteByte(" \t\n\r"[x.n(4)])
			}
		}
	}
	switch t := v.(type) {
	case string:
		variantString(b, t, x)
	case []byte:
		b.WriteByte('{')
		ws()
		b.WriteString(`"_placeholder"`)
		ws()
		b.WriteByte(':')
		ws()
		b.WriteString("true")
		ws()
		b.WriteByte(',')
		ws()
		b.WriteString(`"num"`)
		ws()
		b.WriteByte(':')
		ws()
		fmt.Fprint(b, *bins)
		*bins++
		ws()
		b.WriteByte('}')
	case []interface{}:
		b.WriteByte('[')
		ws()
		for i, e := range t {
			if i > 0 {
				b.WriteByte(',')
				ws()
			}
			variantJSON(b, e, x, bins)
			ws()
		}
		b.WriteByte(']')
	case map[string]interface{}:
		b.WriteByte('{')
		ws()
		i := 0
		for k, e := range t { // any order
			if i > 0 {
				b.WriteByte(',')
				ws()
			}
			i++
			variantString(b, k, x)
			ws()
			b.WriteByte(':')
			ws()
			variantJSON(b, e, x, bins)
			ws()
		}
		b.WriteByte('}')
	default:
		b.Write(jsonEnc(v))
	}
}

func variantString(b *bytes.Buffer, s string, x *xrand) {
	mode := x.n(3)
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '/' && x.n(2) == 0:
			b.WriteString(`\/`)
		case r == '\n' && x.n(2) == 0:
			b.WriteString(`\n`)
		case r == '\t' && x.n(2) == 0:
			b.WriteString(`\t`)
		case r < 0x20 || mode == 2 || mode == 1 && x.n(4) == 0:
			if r1, r2 := utf16.EncodeRune(r); r1 != 0xfffd {
				fmt.Fprintf(b, `\u%04x\u%04X`, r1, r2)
			} else {
				fmt.Fprintf(b, `\u%04x`, r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
}

// variant encodes a packet in one of the ways a conforming peer may.
func (p SP) variant(msgp bool, seed uint32) []frame {
	x := xrand(seed)
	if seed == 0 {
		return p.frames(msgp)
	}
	if msgp {
		switch p.Type {
		case wire.SConnect, wire.SDisconnect, wire.SError:
			m := map[string]interface{}{"type": p.Type, "nsp": p.NSP}
			if p.Data != nil {
				m["data"] = p.Data
			}
			var b bytes.Buffer
			n := 0
			variantJSON(&b, m, &x, &n)
			return []frame{{false, b.Bytes()}}
		}
		keys := []string{"type", "nsp", "data", "id"}
		if p.ID == nil && x.n(2) == 0 {
			keys = keys[:3]
		}
		for i := range keys {
			j := i + x.n(len(keys)-i)
			keys[i], keys[j] = keys[j], keys[i]
		}
		form := x.n(2)
		b := wire.MMapHeader(nil, len(keys), x.n(2))
		for _, k := range keys {
			b = wire.MEnc(b, k, x.n(2))
			switch k {
			case "type":
				b = wire.MEnc(b, p.Type, 0)
			case "nsp":
				b = wire.MEnc(b, p.NSP, form)
			case "data":
				b = wire.MEnc(b, p.Args, form)
			case "id":
				if p.ID == nil {
					b = wire.MEnc(b, nil, 0)
				} else {
					b = wire.MEnc(b, *p.ID, form)
				}
			}
		}
		return []frame{{true, b}}
	}
	q := wire.SPkt{Type: p.Type, NSP: p.NSP, ID: p.ID}
	n := 0
	var b bytes.Buffer
	switch p.Type {
	case wire.SEvent, wire.SAck:
		variantJSON(&b, p.Args, &x, &n)
		for _, a := range p.Args {
			if y, ok := a.([]byte); ok {
				q.Atts = append(q.Atts, y)
			}
		}
		if n > 0 {
			q.Type += wire.SBinEvent - wire.SEvent
		}
	default:
		if p.Data != nil {
			variantJSON(&b, p.Data, &x, &n)
		}
	}
	q.Data = b.Bytes()
	fs := []frame{{false, wire.EncSIO(q)}}
	for _, a := range q.Atts {
		fs = append(fs, frame{true, a})
	}
	return fs
}

// encode runs the library's encoder and returns the frames in wire order.
func encode(c *kit.C, e socketio.Encoder, p *socketio.Packet) []frame {
	text, bins, err := e.Encode(p)
	if err != nil {
		c.Failf("encoding failed: %v", err)
	}
	var fs []frame
	if text != nil {
		fs = append(fs, frame{false, append([]byte{}, text...)})
	}
	for _, b := range bins {
		fs = append(fs, frame{true, append([]byte{}, b...)})
	}
	return fs
}

func runCodec(c *kit.C, p codecPlan, msgp bool) {
	parser := parserOf(msgp)
	enc, dec := parser.Encoder(), parser.Decoder()
	for _, q := range p.Ps {
		want := q.P.sp()
		pkt := q.P.packet(msgp)
		frames := encode(c, enc, pkt)
		if q.Again { // as for several receivers
			frames = encode(c, enc, pkt)
			c.Label("encoded again")
		}
		// the encoder against the reference decoder
		if msgp && len(frames) != 1 {
			c.Failf("%s encoded as %d frames", want, len(frames))
		}
		a := assembler{msgp: msgp}
		for i, f := range frames {
			if err := a.add(f.bin, f.data); err != nil {
				c.Failf("%s: encoder wrote frame %d %q: %v", want, i, clipB(f.data), err)
			}
		}
		if len(a.out) != 1 || a.asm.Pending() {
			c.Failf("%s: the encoder's %d frames hold %d packets (incomplete: %v)", want, len(frames), len(a.out), a.asm.Pending())
		}
		if got := a.out[0]; got.key() != want.key() || canon(got.Data) != canon(want.Data) {
			c.Failf("encoder wrote %s\nfor          %s", got, want)
		}
		// the decoder
		if !q.Own {
			frames = want.variant(msgp, q.Seed)
		}
		checkDecode(c, dec, msgp, frames, want)
		c.NonTrivialIf(len(want.Args) > 1 || want.ID != nil || want.NSP != "/")
		c.LabelIf(len(frames) > 1, "attachments")
		c.LabelIf(q.Own, "round trip")
		c.LabelIf(!q.Own && q.Seed != 0, "peer variant")
		c.LabelIf(want.Type != wire.SEvent && want.Type != wire.SAck, "connect/disconnect/error")
	}
}

func clipB(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

// drain takes the decoded packets there are.
func drain(d socketio.Decoder) (out []*socketio.Packet) {
	for {
		select {
		case p := <-d.Decoded():
			out = append(out, p)
		default:
			return
		}
	}
}

var (
	ifaceType = reflect.TypeOf((*interface{})(nil)).Elem()
	bytesType = reflect.TypeOf(socketio.Bytes{})
)

// checkDecode feeds the frames of one packet and compares what comes out.
func checkDecode(c *kit.C, dec socketio.Decoder, msgp bool, frames []frame, want SP) {
	for i, f := range frames {
		t := socketio.MessageTypeString
		if f.bin {
			t = socketio.MessageTypeBinary
		}
		if err := dec.Add(t, append([]byte{}, f.data...)); err != nil {
			c.Failf("%s: decoder refused frame %d %q: %v", want, i, clipB(f.data), err)
		}
		got := drain(dec)
		if i < len(frames)-1 {
			if len(got) > 0 {
				c.Failf("%s: a packet came out after %d of %d frames", want, i+1, len(frames))
			}
			continue
		}
		if len(got) != 1 {
			c.Failf("%s: %d packets came out (frames %q)", want, len(got), clipB(frames[0].data))
		}
		checkPacket(c, dec, msgp, got[0], want)
	}
}

func checkPacket(c *kit.C, dec socketio.Decoder, msgp bool, p *socketio.Packet, want SP) {
	got := SP{Type: int(p.Type), NSP: p.Namespace, ID: p.ID}
	if p.Type == socketio.PacketTypeBinaryEvent || p.Type == socketio.PacketTypeBinaryAck {
		got.Type -= wire.SBinEvent - wire.SEvent
	}
	switch got.Type {
	case wire.SEvent, wire.SAck:
	default:
		got.Data = p.Data
		if got.key() != want.key() || canon(got.Data) != canon(want.Data) {
			c.Failf("decoded %s\nwant    %s", got, want)
		}
		return
	}
	event, data, bin, err := dec.ParseData(p)
	if err != nil {
		c.Failf("%s: ParseData: %v", want, err)
	}
	rest := want.Args
	if want.Type == wire.SEvent {
		got.Args = append(got.Args, event)
		rest = rest[1:]
	}
	types := make([]reflect.Type, len(rest))
	for i, a := range rest {
		types[i] = ifaceType
		if _, ok := a.([]byte); ok && !msgp {
			types[i] = bytesType
		}
	}
	in, err := dec.UnmarshalArgs(types, data, bin)
	if err != nil {
		c.Failf("%s: UnmarshalArgs: %v (data %q)", want, err, clipB(data))
	}
	for _, v := range in {
		if !v.IsValid() {
			c.Failf("%s: an argument is missing", want)
		}
		switch x := v.Interface().(type) {
		case socketio.Bytes:
			got.Args = append(got.Args, x.Data)
		default:
			got.Args = append(got.Args, x)
		}
	}
	if got.key() != want.key() {
		c.Failf("decoded %s\nwant    %s", got, want)
	}
}

// ---- C13

// C13F is one input frame.
type C13F struct {
	K    string `json:"k"` // pkt: frames of P, cut to Keep frames and mutated; raw: Raw
	P    *PK    `json:"p,omitempty"`
	Seed uint32 `json:"seed,omitempty"`
	Skip int    `json:"skip,omitempty"` // frames left out at the front
	Keep int    `json:"keep,omitempty"` // frames kept after that (0: all)
	Mut  []Mut  `json:"mut,omitempty"`  // of the first kept frame
	Bin  bool   `json:"bin,omitempty"`
	Raw  []byte `json:"raw,omitempty"`
	Rep  []byte `json:"rep,omitempty"` // appended N times to Raw
	N    int    `json:"n,omitempty"`
	Mid  []byte `json:"mid,omitempty"`
	Tail []byte `json:"tail,omitempty"` // appended N times
	End  []byte `json:"end,omitempty"`
}

// Mut edits bytes.
type Mut struct {
	Op string `json:"op"` // set, ins, del, cut, num
	At int    `json:"at"` // per mille of the length
	B  byte   `json:"b,omitempty"`
	S  string `json:"s,omitempty"`
}

func mutate(b []byte, ms []Mut) []byte {
	b = append([]byte{}, b...)
	for _, m := range ms {
		i := len(b) * m.At / 1000
		switch m.Op {
		case "set":
			if i < len(b) {
				b[i] = m.B
			}
		case "ins":
			b = append(b[:i], append([]byte(m.S), b[i:]...)...)
		case "del":
			if i < len(b) {
				b = append(b[:i], b[i+1:]...)
			}
		case "cut":
			b = b[:i]
		case "head":
			if len(b) > 0 {
				b[0] = m.B
			}
		}
	}
	return b
}

func genMut(t *rapid.T, label string) Mut {
	m := Mut{Op: rapid.SampledFrom([]string{"set", "ins", "del", "cut", "head"}).Draw(t, label+".op")}
	m.At = rapid.IntRange(0, 999).Draw(t, label+".at")
	if m.Op == "set" {
		m.B = rapid.Byte().Draw(t, label+".b")
	}
	if m.Op == "head" {
		m.B = rapid.SampledFrom([]byte("0123456789:\x00\xff\x84\x94\x80\xdf\xdd\xc1")).Draw(t, label+".b")
	}
	if m.Op == "ins" {
		m.S = rapid.SampledFrom([]string{"9", "0", "-", ",", "[", "]", "\"", "\\", "{", "}", "\x00", "\xff", "1-", "99999999999999999999", "/a", "/a,",
			",{\"_placeholder\":true,\"num\":0}", "{\"_placeholder\":true,\"num\":-1},", "\xdf\xff\xff\xff\xff", "\xdd\xff\xff\xff\xff", "\xc6\xff\xff\xff\xff", "\xc9\x00\x00\x00\x01", "\xd4\x05", "\x91", "\x81", "\xc0"}).Draw(t, label+".s")
	}
	return m
}

var rawText = []string{"", "2", "3", "4", "5", "6", "7", "9", "/", "0/", "5-", "51", "51-", "61-", "52-[\"a\",{\"_placeholder\":true,\"num\":0}]", "51-[\"a\"]", "5999999999-[\"a\",{\"_placeholder\":true,\"num\":0}]",
	"518446744073709551617-[\"a\",{\"_placeholder\":true,\"num\":0}]", "50-[\"a\"]", "5x-[]", "2[", "2[]", "2[1]", "2[\"", "2[\"a", "2[\"a\"", "2[\"a\",]", "2\"a\"", "2{}", "2null", "2[\"\"]", "3", "3[", "31", "31[", "31{}", "299999999999999999999[\"a\"]",
	"2/a", "2/a,", "2/a,12", "2/a,12[", "4", "4{", "4nope", "0x", "1", "2[null]", "2[[\"a\"]]", "2[{}]", "2 [\"a\"]", "31-[]", "61-[{\"_placeholder\":true,\"num\":7}]", "{\"type\":0}", "{\"type\":2,\"nsp\":\"/\",\"data\":[\"a\"]}", "{\"type\":99,\"nsp\":\"/\"}", "{\"type\":-1}", "{\"type\":\"x\"}", "null", "[]", "1", "{", "{\"nsp\":1}", "{\"type\":3,\"nsp\":\"/\",\"id\":0}", "{\"type\":5,\"nsp\":\"/\",\"data\":\"eA==\"}", "[{\"_placeholder\":true,\"num\":1}]", "[{\"_placeholder\":true,\"num\":-1}]", "[{\"_placeholder\":true,\"num\":2},null]", "[[{\"_placeholder\":true,\"num\":0}],1,\"a\"]"}

var rawBin = []string{"", "\x80", "\xc0", "\x84", "\x90", "\xff", "\x81\xa4type", "\x81\xa4type\x02", "\x82\xa4type\x02\xa4data\xdd\xff\xff\xff\xff", "\x82\xa4type\x02\xa4data\xdf\xff\xff\xff\xff", "\x82\xa4type\x02\xa4data\xc6\xff\xff\xff\xff",
	"\x82\xa4type\x02\xa4data\x90", "\x82\xa4type\x02\xa4data\x91\xa0", "\x82\xa4type\x02\xa4data\x91\xa1a", "\x82\xa4type\x02\xa4data\xa1a", "\x82\xa4type\x63\xa4data\x91\xa1a", "\x83\xa4type\x03\xa4data\x90\xa2id\xff", "\x83\xa4type\x03\xa4data\x90\xa2id\x01", "\x82\xa4type\x03\xa4data\xc0",
	"\x82\xa4type\x02\xa3nsp\x01", "\x81\x01\x02", "\xdf\xff\xff\xff\xff", "\xdd\xff\xff\xff\xff", "\x82\xa4type\x02\xa4data\x92\xa1a\xdd\x7f\xff\xff\xff", "\x82\xa4type\x02\xa4data\x92\xa1a\xdf\x7f\xff\xff\xff", "\x82\xa4type\x02\xa4data\x92\xa1a\xc9\xff\xff\xff\xff\x05", "\x82\xa4type\x02\xa4data\x92\xa1a\xd8\x05",
	"\x91\xdd\x7f\xff\xff\xff", "\x91\xdf\x7f\xff\xff\xff", "\x91\xdd\x0f\xff\xff\xff\xa1a", "\x91\xdf\x0f\xff\xff\xff\xa1a\x01", "\x91\x91\xdd\x0f\xff\xff\xff", "\x91\x81\xa1k\xdf\x0f\xff\xff\xff"}

func genC13F(t *rapid.T, label string, msgp bool) C13F {
	switch rapid.IntRange(0, 9).Draw(t, label+".k") {
	case 0, 1, 2, 3, 4:
		p := genPK(t, label+".p", msgp)
		f := C13F{K: "pkt", P: &p, Seed: uint32(rapid.IntRange(0, 1000).Draw(t, label+".seed"))}
		f.Skip = rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, label+".skip")
		f.Keep = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, label+".keep")
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, label+".nm"); i < n; i++ {
			f.Mut = append(f.Mut, genMut(t, label+".m"))
		}
		return f
	case 5, 6:
		return C13F{K: "raw", Raw: []byte(rapid.SampledFrom(rawText).Draw(t, label+".raw")), Bin: rapid.IntRange(0, 9).Draw(t, label+".bin") == 0}
	case 7:
		return C13F{K: "raw", Raw: []byte(rapid.SampledFrom(rawBin).Draw(t, label+".raw")), Bin: rapid.IntRange(0, 9).Draw(t, label+".bin") != 0}
	case 8:
		return C13F{K: "raw", Raw: rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, label+".raw"), Bin: rapid.Bool().Draw(t, label+".bin")}
	}
	f := C13F{K: "raw", Bin: rapid.Bool().Draw(t, label+".bin")}
	if f.Bin {
		f.Raw = []byte("\x82\xa4type\x02\xa4data\x92\xa1a")
		f.Rep = []byte(rapid.SampledFrom([]string{"\x91", "\x81\xa1k", "\xdd\x00\x00\x00\x01", "\x81", "\xc0", "\xdf\x00\x00\x00\x01\xa0", "\xdd\x00\xff\xff\xff", "\x9f"}).Draw(t, label+".rep"))
	} else {
		f.Raw = []byte(rapid.SampledFrom([]string{"2[\"a\",", "51-[\"a\",", "4", "0", "2/", "5", "2", "2[\"", "{\"type\":4,\"data\":", "2["}).Draw(t, label+".raw"))
		f.Rep = []byte(rapid.SampledFrom([]string{"[", "{\"a\":", "1", "\\", " ", "{\"_placeholder\":true,\"num\":0},", ",{\"_placeholder\":true,\"num\":0}", "\"a\","}).Draw(t, label+".rep"))
	}
	f.N = rapid.SampledFrom([]int{100, 2000, 12000, 60000}).Draw(t, label+".n")
	if rapid.Bool().Draw(t, label+".closed") { // what is opened is closed, but for the outermost list of a text
		switch string(f.Rep) {
		case "\x91", "\x81\xa1k", "\xdd\x00\x00\x00\x01", "\xdf\x00\x00\x00\x01\xa0":
			f.End = []byte{0xc0}
		case "[":
			f.Tail = []byte("]")
		case "{\"a\":":
			f.Tail = []byte("}")
			f.Mid = []byte("0")
		}
		if f.Tail != nil && strings.HasPrefix(string(f.Raw), "2[\"a\",") {
			f.End = []byte("]")
		}
	}
	return f
}

// expand returns the frames.
func (f C13F) expand(msgp bool) []frame {
	if f.K == "raw" {
		return []frame{{f.Bin, bytes.Join([][]byte{f.Raw, bytes.Repeat(f.Rep, f.N), f.Mid, bytes.Repeat(f.Tail, f.N), f.End}, nil)}}
	}
	fs := f.P.sp().variant(msgp, f.Seed)
	if f.Skip >= len(fs) {
		f.Skip = 0
	}
	fs = fs[f.Skip:]
	if f.Keep > 0 && f.Keep < len(fs) {
		fs = fs[:f.Keep]
	}
	fs[0].data = mutate(fs[0].data, f.Mut)
	return fs
}

// intact tells whether the frames are exactly those of the packet.
func (f C13F) intact(msgp bool) bool {
	return f.K == "pkt" && len(f.Mut) == 0 && len(f.expand(msgp)) == len(f.P.sp().variant(msgp, f.Seed))
}

type c13Plan struct {
	Msgp bool     `json:"msgp,omitempty"`
	In   []C13F   `json:"in"`
	Last PK       `json:"last"`
	As   []string `json:"as"` // parameter types to decode arguments of whatever comes out into
}

var c13Types = map[string]reflect.Type{
	"iface": ifaceType, "bytes": bytesType, "pbytes": reflect.TypeOf(&socketio.Bytes{}), "int": reflect.TypeOf(0), "u8": reflect.TypeOf(uint8(0)),
	"str": reflect.TypeOf(""), "bool": reflect.TypeOf(false), "f64": reflect.TypeOf(0.0), "raw": reflect.TypeOf([]byte(nil)),
	"ints": reflect.TypeOf([]int(nil)), "strs": reflect.TypeOf([]string(nil)), "list": reflect.TypeOf([]interface{}(nil)), "lists": reflect.TypeOf([][]int(nil)), "map": reflect.TypeOf(map[string]interface{}(nil)),
	"mapint": reflect.TypeOf(map[string]int(nil)), "struct": reflect.TypeOf(c14S{}), "pstr": reflect.TypeOf(new(string)), "pp": reflect.TypeOf(new(*int)), "arr": reflect.TypeOf([3]int{}),
	"mapmap": reflect.TypeOf(map[string]map[string]string(nil)), "empty": reflect.TypeOf([]struct{}(nil)), "big": reflect.TypeOf([][8]string(nil)), "c64": reflect.TypeOf(complex64(0)),
}

var c13TypeNames = []string{"iface", "bytes", "pbytes", "int", "u8", "str", "bool", "f64", "raw", "ints", "strs", "list", "lists", "map", "mapint", "struct", "pstr", "pp", "arr", "mapmap", "empty", "big", "c64"}

func init() {
	kit.Add("C13", "frames", "some input frame was refused, or left incomplete", 40000, 400000, func(t *rapid.T) c13Plan {
		p := c13Plan{Msgp: rapid.Bool().Draw(t, "msgp")}
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); i < n; i++ {
			f := genC13F(t, fmt.Sprint("f", i), p.Msgp)
			if len(f.Rep) == 1 && rapid.IntRange(0, 29).Draw(t, "huge") == 29 {
				f.N = 12000000 // deeper than any stack
			}
			p.In = append(p.In, f)
		}
		p.Last = genPK(t, "last", p.Msgp)
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "na"); i < n; i++ {
			p.As = append(p.As, rapid.SampledFrom(c13TypeNames).Draw(t, "as"))
		}
		return p
	}, runC13)
}

// allocatedBy runs f and returns the bytes it allocated.
func allocatedBy(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func runC13(c *kit.C, p c13Plan) {
	dec := parserOf(p.Msgp).Decoder()
	need := 0 // attachments announced and missing
	var types []reflect.Type
	for _, a := range p.As {
		types = append(types, c13Types[a])
	}
	for _, in := range p.In {
		if in.intact(p.Msgp) {
			checkDecode(c, dec, p.Msgp, in.expand(p.Msgp), in.P.sp())
			need = 0
			continue
		}
		for _, f := range in.expand(p.Msgp) {
			var got []*socketio.Packet
			var err error
			t := socketio.MessageTypeString
			if f.bin {
				t = socketio.MessageTypeBinary
			}
			data := append([]byte{}, f.data...)
			limit := uint64(1<<20) + 1500*uint64(len(data))
			measured := len(data) > 1000 || bytes.Contains(data, []byte("\xff\xff\xff")) || bytes.Contains(data, []byte("9999")) || bytes.Contains(data, []byte("518446744073709551617"))
			work := func() {
				err = dec.Add(t, data)
				got = drain(dec)
				for _, q := range got {
					if _, d, b, err := dec.ParseData(q); err == nil {
						dec.UnmarshalArgs(types, d, b)
					}
				}
			}
			if measured {
				if n := allocatedBy(work); n > limit {
					c.Failf("a frame of %d bytes made the decoder allocate %d bytes (frame %q)", len(data), n, clipB(data))
				}
			} else {
				work()
			}
			if len(got) > 1 {
				c.Failf("%d packets from the frame %q", len(got), clipB(f.data))
			}
			if !p.Msgp {
				before := need
				if f.bin {
					need = max(need-1, 0)
				} else {
					need = announced(f.data)
				}
				for _, q := range got {
					if err != nil {
						c.Failf("frame %q refused (%v), and yet a packet came out", clipB(f.data), err)
					}
					if need > 0 {
						c.Failf("packet %d came out of %q although %d announced attachments are missing", q.Type, clipB(f.data), need)
					}
					if f.bin && before != 1 {
						c.Failf("an attachment that no packet announced produced a packet of type %d", q.Type)
					}
				}
				if err != nil && !f.bin {
					need = 0
				}
			}
			c.NonTrivialIf(err != nil || need > 0 && !f.bin)
			c.LabelIf(err != nil, "refused")
			c.LabelIf(err == nil && len(got) == 1, "mutated but accepted")
			c.LabelIf(measured, "allocation measured")
		}
		c.LabelIf(need > 0, "left incomplete")
	}
	// the next complete packet is decoded
	checkDecode(c, dec, p.Msgp, p.Last.sp().frames(p.Msgp), p.Last.sp())
	c.LabelIf(p.Msgp, "msgpack")
}

// announced is the number of attachments a header frame announces, read leniently.
func announced(b []byte) int {
	if len(b) == 0 || b[0] != '5' && b[0] != '6' {
		return 0
	}
	n := 0
	for i := 1; i < len(b); i++ {
		if b[i] == '-' {
			return n
		}
		if b[i] < '0' || b[i] > '9' || n > 1<<40 {
			return 0
		}
		n = n*10 + int(b[i]-'0')
	}
	return 0
}

// ---- through a server

type c13SrvPlan struct {
	Msgp bool    `json:"msgp,omitempty"`
	WS   bool    `json:"ws,omitempty"`
	Enc  sim.Enc `json:"enc,omitempty"`
	In   []C13F  `json:"in"`
}

func init() {
	kit.Add("C13", "server", "the garbage holds a frame that is certainly malformed", 12000, 120000, func(t *rapid.T) c13SrvPlan {
		p := c13SrvPlan{Msgp: rapid.Bool().Draw(t, "msgp"), WS: rapid.Bool().Draw(t, "ws"), Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, "enc"))}
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "n"); i < n; i++ {
			f := genC13F(t, fmt.Sprint("f", i), p.Msgp)
			p.In = append(p.In, f)
		}
		return p
	}, func(c *kit.C, p c13SrvPlan) {
		s := newSioSrv(c, p.Msgp, long, long)
		s.nsp("/")
		// a namespace of its own, so that the garbage does not reach it by accident
		const home = "/home-of-the-check"
		s.nsp(home)
		s.nsp("/a")
		var mu chan int = make(chan int, 100)
		s.event(home, "ok", func(e *sioSess, so socketio.Socket, tag int) { mu <- tag; so.Emit("ok", tag) })
		s.S.Namespace("/").OnEvent("a", func(a int, b string) int { return a })
		s.S.Namespace("/a").OnEvent("a", func(a interface{}, b []interface{}) int { return 1 })
		k := newSioCli(c, s.S, p.Msgp, p.WS, "10.0.0.1:1", nil, p.Enc)
		s.join(k, "/")
		s.join(k, home)
		k.send(evPkt(home, "ok", Val{K: "int", I: 1}))
		bad := 0
		for _, in := range p.In {
			for _, f := range in.expand(p.Msgp) {
				if strings.Contains(string(f.data), home) {
					continue
				}
				if surelyBad(f, p.Msgp) {
					bad++
				}
				k.raw(wire.Pkt{Bin: f.bin, Type: wire.EMessage, Data: f.data})
			}
		}
		k.send(evPkt(home, "ok", Val{K: "int", I: 2}), evPkt(home, "ok", Val{K: "int", I: 3}))
		done := func() bool {
			n := 0
			for _, q := range k.lenientRecv() {
				if q.Type == wire.SEvent && q.NSP == home {
					n++
				}
			}
			return n >= 3
		}
		c.Await(done, "answers to the events that surround the garbage")
		for i := 1; i <= 3; i++ {
			if got := <-mu; got != i {
				c.Failf("event %d of %s handled in place of %d", got, home, i)
			}
		}
		c.Quiet()
		if e := s.sess(k.sid); e.count("disconnect", "*") > e.count("connect", "*") || e.count("disconnect", home) > 0 {
			c.Failf("garbage disconnected the session")
		}
		if len(mu) > 0 {
			c.Failf("an event ran twice")
		}
		if s.errors() < bad {
			c.Failf("%d malformed frames, %d errors reported", bad, s.errors())
		}
		c.NonTrivialIf(bad > 0)
		c.LabelIf(p.Msgp, "msgpack")
		c.LabelIf(p.WS, "websocket")
	})
}

// lenientRecv decodes what the client received, ignoring what it cannot decode: garbage
// may be answered with error packets for odd namespaces.
func (k *sioCli) lenientRecv() (out []SP) {
	a := assembler{msgp: k.msgp}
	for _, g := range k.got() {
		a.add(g.Bin, g.Data)
	}
	return a.out
}

// surelyBad tells whether no decoder may accept the frame.
func surelyBad(f frame, msgp bool) bool {
	switch {
	case msgp && f.bin: // not a map
		return len(f.data) == 0 || f.data[0]&0xf0 != 0x80 && f.data[0] != 0xde && f.data[0] != 0xdf
	case msgp:
		return !json.Valid(f.data)
	case f.bin:
		return false
	}
	return len(f.data) == 0 || f.data[0] < '0' || f.data[0] > '6'
}

// ---- through a session

type c12Emit struct {
	NSP  string `json:"nsp"`
	Name string `json:"name"`
	Args []Val  `json:"args"`
	Ack  bool   `json:"ack,omitempty"`
}

type c12SessPlan struct {
	WS    bool      `json:"ws,omitempty"`
	Enc   sim.Enc   `json:"enc,omitempty"`
	Emits []c12Emit `json:"emits"`
	In    []c12Emit `json:"in"`
}

func init() {
	for _, msgp := range []bool{false, true} {
		msgp := msgp
		prop := "C11"
		if msgp {
			prop = "C12"
		}
		kit.Add(prop, "session", "at least two packets are emitted", 10000, 100000, func(t *rapid.T) c12SessPlan {
			p := c12SessPlan{WS: rapid.Bool().Draw(t, "ws"), Enc: sim.Enc(rapid.IntRange(0, 2).Draw(t, "enc"))}
			gen := func(label string) c12Emit {
				e := c12Emit{NSP: rapid.SampledFrom([]string{"/", "/a", "/ü/2"}).Draw(t, label+".nsp"), Name: genName(t, label+".name"), Args: genVals(t, label, 4), Ack: rapid.Bool().Draw(t, label+".ack")}
				if msgp {
					for i := range e.Args {
						e.Args[i] = nestBin(t, label, e.Args[i])
					}
				}
				return e
			}
			for i, n := 0, rapid.IntRange(0, 5).Draw(t, "n"); i < n; i++ {
				p.Emits = append(p.Emits, gen(fmt.Sprint("e", i)))
			}
			for i, n := 0, rapid.IntRange(0, 4).Draw(t, "m"); i < n; i++ {
				p.In = append(p.In, gen(fmt.Sprint("i", i)))
			}
			return p
		}, func(c *kit.C, p c12SessPlan) { runC12Session(c, p, msgp) })
	}
}

func runC12Session(c *kit.C, p c12SessPlan, msgp bool) {
	s := newSioSrv(c, msgp, long, long)
	var want []string
	for _, n := range []string{"/", "/a", "/ü/2"} {
		s.nsp(n)
	}
	// handlers for what the client sends
	handled := make(chan string, 100)
	for i, e := range p.In {
		i, e := i, e
		types := make([]reflect.Type, len(e.Args))
		for j, a := range e.Args {
			types[j] = ifaceType
			if a.K == "bin" && !msgp {
				types[j] = bytesType
			}
		}
		f := reflect.MakeFunc(reflect.FuncOf(types, []reflect.Type{reflect.TypeOf(0)}, false), func(in []reflect.Value) []reflect.Value {
			got := make([]interface{}, len(in))
			for j := range in {
				got[j] = in[j].Interface()
				if x, ok := got[j].(socketio.Bytes); ok {
					got[j] = x.Data
				}
			}
			handled <- fmt.Sprint(e.NSP, " ", i, " ", canonArgs(got))
			return []reflect.Value{reflect.ValueOf(i)}
		})
		s.S.Namespace(e.NSP).OnEvent(fmt.Sprint(i, e.Name), f.Interface())
	}
	k := newSioCli(c, s.S, msgp, p.WS, "10.0.0.1:1", nil, p.Enc)
	e := s.sess(k.sid)
	for _, n := range []string{"/", "/a", "/ü/2"} {
		s.join(k, n)
		want = append(want, SP{Type: wire.SConnect, NSP: n}.key())
	}
	frames := 3
	for _, m := range p.Emits {
		args := []interface{}{}
		ev := evPkt(m.NSP, m.Name, m.Args...)
		frames++
		for _, a := range m.Args {
			args = append(args, a.goArg(msgp))
			if a.K == "bin" && !msgp {
				frames++
			}
		}
		if m.Ack {
			args = append(args, func() {})
		}
		if err := e.socket(m.NSP).Emit(m.Name, args...); err != nil {
			c.Failf("emit %s: %v", ev, err)
		}
		want = append(want, ev.key())
	}
	c.Await(func() bool { return len(k.recv()) >= len(want) }, "%d packets at the client, %d came", len(want), len(k.recv()))
	for i, m := range p.In {
		q := evPkt(m.NSP, fmt.Sprint(i, m.Name), m.Args...)
		if m.Ack {
			q = q.withID(uint64(i))
		}
		k.send(q)
		var got string
		c.Await(func() bool { return len(handled) > 0 }, "handling of the event %s", q)
		got = <-handled
		if w := fmt.Sprint(m.NSP, " ", i, " ", canonVals(m.Args)); got != w {
			c.Failf("handler received %s\nwant             %s", clipS(got), clipS(w))
		}
		if m.Ack {
			want = append(want, ackPkt(m.NSP, uint64(i), Val{K: "int", I: int64(i)}).key())
			frames++
			c.Await(func() bool { return len(k.recv()) >= len(want) }, "ack of the event %s", q)
		}
	}
	c.Quiet()
	got := k.recv()
	var ids []uint64
	for i, q := range got {
		if i < len(want) && q.Type == wire.SEvent && q.ID != nil {
			ids = append(ids, *q.ID)
			q.ID = nil
		}
		if i >= len(want) || q.key() != want[i] {
			c.Failf("client received packet %d: %s\nwant %s", i, q, clipS(append(want, "none")[min(i, len(want))]))
		}
	}
	wantIDs := 0
	for _, m := range p.Emits {
		if m.Ack {
			wantIDs++
		}
	}
	if len(ids) != wantIDs {
		c.Failf("%d events carried an ack id, %d callbacks were passed", len(ids), wantIDs)
	}
	if n := len(k.got()); n != frames {
		c.Failf("%d packets took %d messages, want %d", len(want), n, frames)
	}
	c.NonTrivialIf(len(p.Emits)+len(p.In) > 1)
	c.LabelIf(p.WS, "websocket")
	c.LabelIf(frames > len(want), "attachments")
}

func clipS(s string) string { return string(clipB([]byte(s))) }
