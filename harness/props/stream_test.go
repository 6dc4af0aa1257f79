package props

import (
	"bytes"
	"fmt"

	"github.com/tinylib/msgp/msgp"
	socketio "github.com/zyxar/socketio"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/wire"
)

// Packets through the msgp interfaces of socketio.Packet: appended to one slice or written to one
// stream, and read back from a reader that delivers them in pieces.

type streamPlan struct {
	Ps    []PK  `json:"ps"`
	Slice bool  `json:"slice,omitempty"` // MarshalMsg and UnmarshalMsg, not EncodeMsg and DecodeMsg
	Reuse bool  `json:"reuse,omitempty"` // decode into one Packet
	Buf   int   `json:"buf,omitempty"`
	Cuts  []int `json:"cuts,omitempty"` // sizes of the pieces
}

func genStream(t *rapid.T) streamPlan {
	p := streamPlan{Slice: rapid.Bool().Draw(t, "slice"), Reuse: rapid.Bool().Draw(t, "reuse"), Buf: rapid.SampledFrom([]int{0, 18, 19, 64, 4096}).Draw(t, "buf")}
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); i < n; i++ {
		p.Ps = append(p.Ps, genPK(t, fmt.Sprint("p", i), true))
	}
	p.Cuts = rapid.SliceOfN(rapid.IntRange(1, 40), 0, 6).Draw(t, "cuts")
	return p
}

func init() {
	kit.Add("C12", "stream", "at least two packets, one with an argument, an id or a namespace, share a stream", 25000, 300000, genStream, runStream)
}

// pieces delivers b in the given sizes, over and over.
type pieces struct {
	b    []byte
	cuts []int
	i    int
}

func (r *pieces) Read(p []byte) (int, error) {
	n := len(r.b)
	if len(r.cuts) > 0 && n > r.cuts[r.i%len(r.cuts)] {
		n = r.cuts[r.i%len(r.cuts)]
	}
	r.i++
	n = copy(p, r.b[:n])
	r.b = r.b[n:]
	if n == 0 && len(p) > 0 {
		return 0, fmt.Errorf("read beyond the end")
	}
	return n, nil
}

func runStream(c *kit.C, p streamPlan) {
	dec := parserOf(true).Decoder()
	var buf bytes.Buffer
	prefix := []byte("\xc1not part of it")
	out := append([]byte{}, prefix...)
	w := msgp.NewWriterSize(&buf, p.Buf)
	for _, q := range p.Ps {
		var err error
		if p.Slice {
			out, err = q.packet(true).MarshalMsg(out)
		} else {
			err = q.packet(true).EncodeMsg(w)
		}
		if err != nil {
			c.Failf("%s: %v", q.sp(), err)
		}
	}
	if err := w.Flush(); err != nil {
		c.Failf("flush: %v", err)
	}
	if p.Slice {
		if !bytes.HasPrefix(out, prefix) {
			c.Failf("MarshalMsg changed what it appends to")
		}
		out = out[len(prefix):]
	} else {
		out = append([]byte{}, buf.Bytes()...)
	}
	// the reference decoder
	rest := out
	for _, q := range p.Ps {
		want := q.sp()
		var v interface{}
		var err error
		if v, rest, err = wire.MDec(rest); err != nil {
			c.Failf("%s: what was written is not msgpack: %v", want, err)
		}
		got, ok := v.(map[string]interface{})
		if !ok {
			c.Failf("%s was written as %s", want, clipS(canon(v)))
		}
		var id, data interface{}
		if want.ID != nil {
			id = *want.ID
		}
		if data = want.Data; want.Type == wire.SEvent || want.Type == wire.SAck {
			data = want.Args
		}
		if w := (map[string]interface{}{"type": want.Type, "nsp": want.NSP, "data": data, "id": id}); canon(got) != canon(w) {
			c.Failf("written %s\nwant    %s", clipS(canon(got)), clipS(canon(w)))
		}
	}
	if len(rest) > 0 {
		c.Failf("%d bytes follow the packets", len(rest))
	}
	// and back
	check := func(i int, x *socketio.Packet) {
		want := p.Ps[i].sp()
		if want.Type == wire.SEvent || want.Type == wire.SAck {
			checkPacket(c, dec, true, x, want)
			return
		}
		raw, ok := x.Data.([]byte)
		if !ok {
			c.Failf("%s: data decoded as %T", want, x.Data)
		}
		if len(raw) == 0 {
			raw = []byte{0xc0} // how nil is kept
		}
		v, left, err := wire.MDec(raw)
		got := SP{Type: int(x.Type), NSP: x.Namespace, ID: x.ID, Data: v}
		if err != nil || len(left) > 0 || got.key() != want.key() || canon(v) != canon(want.Data) {
			c.Failf("decoded %s, data %q (%v)\nwant    %s", got, clipB(raw), err, want)
		}
	}
	rd := msgp.NewReaderSize(&pieces{b: append([]byte{}, out...), cuts: p.Cuts}, p.Buf)
	left := append([]byte{}, out...)
	one := new(socketio.Packet)
	var all []*socketio.Packet
	for i := range p.Ps {
		x := one
		if !p.Reuse {
			x = new(socketio.Packet)
			all = append(all, x)
		}
		var err error
		if p.Slice {
			left, err = x.UnmarshalMsg(left)
		} else {
			err = x.DecodeMsg(rd)
		}
		if err != nil {
			c.Failf("packet %d of %d, %s: %v", i, len(p.Ps), p.Ps[i].sp(), err)
		}
		check(i, x)
		c.NonTrivialIf(len(p.Ps) > 1 && (len(p.Ps[i].Args) > 0 || p.Ps[i].ID != nil || p.Ps[i].NSP != "/"))
	}
	if p.Slice && len(left) > 0 {
		c.Failf("UnmarshalMsg leaves %d bytes behind the last packet", len(left))
	}
	for i, x := range all { // what was decoded stays as it was
		check(i, x)
	}
	c.LabelIf(p.Slice, "slice")
	c.LabelIf(!p.Slice, "stream")
	c.LabelIf(!p.Slice && len(p.Cuts) > 0, "in pieces")
	c.LabelIf(p.Reuse, "one packet reused")
}
