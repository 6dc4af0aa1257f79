// Package wire holds reference codecs, written from the protocol documents and
// independent of the library under test.
package wire

import (
	"encoding/base64"
	"errors"
	"fmt"
	"strconv"
)

// Engine packet types.
const (
	EOpen = iota
	EClose
	EPing
	EPong
	EMessage
	EUpgrade
	ENoop
)

// Pkt is one engine.io packet.
type Pkt struct {
	Bin  bool   `json:"bin,omitempty"`
	Type byte   `json:"type"`
	Data []byte `json:"data"`
}

func (p Pkt) String() string {
	k := "s"
	if p.Bin {
		k = "b"
	}
	if len(p.Data) > 60 {
		return fmt.Sprintf("%s%d(%d bytes)%q...", k, p.Type, len(p.Data), p.Data[:60])
	}
	return fmt.Sprintf("%s%d%q", k, p.Type, p.Data)
}

// Eq compares two packets.
func (p Pkt) Eq(q Pkt) bool {
	return p.Bin == q.Bin && p.Type == q.Type && string(p.Data) == string(q.Data)
}

// EncText encodes packets in the text payload format (byte lengths).
func EncText(ps []Pkt) []byte {
	var out []byte
	for _, p := range ps {
		var body []byte
		if p.Bin {
			body = append(body, 'b', '0'+p.Type)
			body = append(body, base64.StdEncoding.EncodeToString(p.Data)...)
		} else {
			body = append(body, '0'+p.Type)
			body = append(body, p.Data...)
		}
		out = append(out, strconv.Itoa(len(body))...)
		out = append(out, ':')
		out = append(out, body...)
	}
	return out
}

// EncBin encodes packets in the binary (XHR2) payload format.
func EncBin(ps []Pkt) []byte {
	var out []byte
	for _, p := range ps {
		if p.Bin {
			out = append(out, 1)
		} else {
			out = append(out, 0)
		}
		for _, d := range strconv.Itoa(len(p.Data) + 1) {
			out = append(out, byte(d-'0'))
		}
		out = append(out, 0xff)
		if p.Bin {
			out = append(out, p.Type)
		} else {
			out = append(out, '0'+p.Type)
		}
		out = append(out, p.Data...)
	}
	return out
}

var errShort = errors.New("payload cut short")

// DecText decodes a text payload strictly.
func DecText(b []byte) (ps []Pkt, err error) {
	for len(b) > 0 {
		i := 0
		for i < len(b) && b[i] >= '0' && b[i] <= '9' {
			i++
		}
		if i == len(b) {
			return ps, errShort
		}
		if i == 0 || i > 10 || b[i] != ':' {
			return ps, fmt.Errorf("bad length field %q", b[:i+1])
		}
		n, _ := strconv.Atoi(string(b[:i]))
		b = b[i+1:]
		if n > len(b) {
			return ps, errShort
		}
		if n < 1 {
			return ps, errors.New("empty packet")
		}
		body := b[:n]
		b = b[n:]
		var p Pkt
		if body[0] == 'b' {
			if len(body) < 2 {
				return ps, errors.New("empty binary packet")
			}
			p.Bin = true
			p.Data, err = base64.StdEncoding.DecodeString(string(body[2:]))
			if err != nil {
				return ps, err
			}
			body = body[1:]
		} else {
			p.Data = append([]byte{}, body[1:]...)
		}
		if body[0] < '0' || body[0] > '6' {
			return ps, fmt.Errorf("bad packet type %q", body[0])
		}
		p.Type = body[0] - '0'
		ps = append(ps, p)
	}
	return ps, nil
}

// DecBin decodes a binary payload strictly.
func DecBin(b []byte) (ps []Pkt, err error) {
	for len(b) > 0 {
		if b[0] > 1 {
			return ps, fmt.Errorf("bad kind byte %#x", b[0])
		}
		p := Pkt{Bin: b[0] == 1}
		i, n := 1, 0
		for i < len(b) && b[i] <= 9 && i < 11 {
			n = n*10 + int(b[i])
			i++
		}
		if i == len(b) {
			return ps, errShort
		}
		if i == 1 || b[i] != 0xff {
			return ps, errors.New("bad length field")
		}
		b = b[i+1:]
		if n > len(b) {
			return ps, errShort
		}
		if n < 1 {
			return ps, errors.New("empty packet")
		}
		t := b[0]
		if !p.Bin {
			t -= '0'
		}
		if t > 6 {
			return ps, fmt.Errorf("bad packet type %#x", b[0])
		}
		p.Type = t
		p.Data = append([]byte{}, b[1:n]...)
		b = b[n:]
		ps = append(ps, p)
	}
	return ps, nil
}

// DecFrame decodes one WebSocket message into a packet.
func DecFrame(text bool, b []byte) (Pkt, error) {
	if len(b) == 0 {
		return Pkt{}, errors.New("empty frame")
	}
	t := b[0]
	if text {
		t -= '0'
	}
	if t > 6 {
		return Pkt{}, fmt.Errorf("bad packet type %#x", b[0])
	}
	return Pkt{Bin: !text, Type: t, Data: append([]byte{}, b[1:]...)}, nil
}

// EncFrame is the inverse of DecFrame.
func EncFrame(p Pkt) []byte {
	b := []byte{p.Type}
	if !p.Bin {
		b[0] += '0'
	}
	return append(b, p.Data...)
}
