package wire

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
)

// Socket.io packet types.
const (
	SConnect = iota
	SDisconnect
	SEvent
	SAck
	SError
	SBinEvent
	SBinAck
)

// SPkt is one socket.io packet. Data is the raw JSON behind the header (nil if absent).
type SPkt struct {
	Type int             `json:"type"`
	NSP  string          `json:"nsp"`
	ID   *uint64         `json:"id,omitempty"`
	Data json.RawMessage `json:"data,omitempty"`
	Atts [][]byte        `json:"atts,omitempty"`
}

func (p SPkt) String() string {
	id := "-"
	if p.ID != nil {
		id = strconv.FormatUint(*p.ID, 10)
	}
	return fmt.Sprintf("{%d %s id=%s %s atts=%x}", p.Type, p.NSP, id, bytes.TrimSpace(p.Data), p.Atts)
}

// EncSIO writes the header frame.
func EncSIO(p SPkt) []byte {
	var b bytes.Buffer
	b.WriteByte('0' + byte(p.Type))
	if p.Type == SBinEvent || p.Type == SBinAck {
		b.WriteString(strconv.Itoa(len(p.Atts)))
		b.WriteByte('-')
	}
	if p.NSP != "/" && p.NSP != "" {
		b.WriteString(p.NSP)
		b.WriteByte(',')
	}
	if p.ID != nil {
		b.WriteString(strconv.FormatUint(*p.ID, 10))
	}
	b.Write(p.Data)
	return b.Bytes()
}

// DecSIO parses a header frame as the reference JavaScript parser does, and returns
// the number of attachments to follow.
func DecSIO(b []byte) (p SPkt, natt int, err error) {
	if len(b) == 0 {
		return p, 0, errors.New("empty packet")
	}
	p.Type = int(b[0]) - '0'
	if p.Type < 0 || p.Type > SBinAck {
		return p, 0, fmt.Errorf("bad type %q", b[0])
	}
	i := 1
	if p.Type == SBinEvent || p.Type == SBinAck {
		j := i
		for j < len(b) && b[j] >= '0' && b[j] <= '9' {
			j++
		}
		if j == i || j == len(b) || b[j] != '-' || j-i > 9 {
			return p, 0, errors.New("bad attachment count")
		}
		natt, _ = strconv.Atoi(string(b[i:j]))
		i = j + 1
	}
	p.NSP = "/"
	if i < len(b) && b[i] == '/' {
		j := i
		for j < len(b) && b[j] != ',' {
			j++
		}
		p.NSP = string(b[i:j])
		i = j
		if i < len(b) {
			i++
		}
	}
	if i < len(b) && b[i] >= '0' && b[i] <= '9' {
		j := i
		for j < len(b) && b[j] >= '0' && b[j] <= '9' {
			j++
		}
		id, e := strconv.ParseUint(string(b[i:j]), 10, 64)
		if e != nil {
			return p, 0, e
		}
		p.ID = &id
		i = j
	}
	if i < len(b) {
		if !json.Valid(b[i:]) {
			return p, 0, fmt.Errorf("bad JSON %q", b[i:])
		}
		p.Data = append(json.RawMessage{}, bytes.TrimSpace(b[i:])...)
		if p.Type == SEvent || p.Type == SBinEvent || p.Type == SAck || p.Type == SBinAck {
			if p.Data[0] != '[' {
				return p, 0, errors.New("data is not an array")
			}
		}
	}
	return p, natt, nil
}

// Assembler turns a stream of frames into packets.
type Assembler struct {
	cur  *SPkt
	need int
	Out  []SPkt
}

// Add consumes one frame.
func (a *Assembler) Add(bin bool, data []byte) error {
	if bin {
		if a.cur == nil {
			return fmt.Errorf("attachment %x without a packet announcing it", data)
		}
		a.cur.Atts = append(a.cur.Atts, append([]byte{}, data...))
		a.need--
		if a.need == 0 {
			a.Out = append(a.Out, *a.cur)
			a.cur = nil
		}
		return nil
	}
	if a.cur != nil {
		return fmt.Errorf("text frame %q while %d attachments of %s are missing", data, a.need, a.cur)
	}
	p, n, err := DecSIO(data)
	if err != nil {
		return fmt.Errorf("frame %q: %v", data, err)
	}
	if n == 0 {
		a.Out = append(a.Out, p)
		return nil
	}
	a.cur, a.need = &p, n
	return nil
}

// Pending tells whether a packet is incomplete.
func (a *Assembler) Pending() bool { return a.cur != nil }

// Arg is an argument of an event or ack: JSON, or binary.
type Arg struct {
	JSON json.RawMessage `json:"json,omitempty"`
	Bin  []byte          `json:"bin,omitempty"`
	IsB  bool            `json:"isb,omitempty"`
}

func (a Arg) String() string {
	if a.IsB {
		return fmt.Sprintf("bin:%x", a.Bin)
	}
	return string(a.JSON)
}

// Args splits the data array of a packet into arguments, resolving placeholders by number.
func (p SPkt) Args() ([]Arg, error) {
	var raw []json.RawMessage
	if len(p.Data) == 0 {
		return nil, errors.New("no data")
	}
	if err := json.Unmarshal(p.Data, &raw); err != nil {
		return nil, err
	}
	out := make([]Arg, len(raw))
	for i, r := range raw {
		var ph struct {
			P   *bool `json:"_placeholder"`
			Num *int  `json:"num"`
		}
		if len(r) > 0 && r[0] == '{' && json.Unmarshal(r, &ph) == nil && ph.P != nil && *ph.P && ph.Num != nil {
			if p.Type != SBinEvent && p.Type != SBinAck {
				out[i] = Arg{JSON: r}
				continue
			}
			if *ph.Num < 0 || *ph.Num >= len(p.Atts) {
				return nil, fmt.Errorf("placeholder %d of %d", *ph.Num, len(p.Atts))
			}
			out[i] = Arg{IsB: true, Bin: p.Atts[*ph.Num]}
			continue
		}
		out[i] = Arg{JSON: r}
	}
	return out, nil
}

// JSONEq compares two JSON texts by value (numbers by their exact text after decoding).
func JSONEq(a, b []byte) bool {
	va, e1 := decodeNum(a)
	vb, e2 := decodeNum(b)
	if e1 != nil || e2 != nil {
		return false
	}
	ca, _ := json.Marshal(va)
	cb, _ := json.Marshal(vb)
	return bytes.Equal(ca, cb)
}

func decodeNum(a []byte) (v interface{}, err error) {
	d := json.NewDecoder(bytes.NewReader(a))
	d.UseNumber()
	if err = d.Decode(&v); err != nil {
		return
	}
	if d.More() {
		err = errors.New("trailing data")
	}
	return
}
