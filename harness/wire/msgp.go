package wire

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"sort"
)

// MEnc appends the msgpack encoding of v: nil, bool, int64, uint64, float64, string,
// []byte, []interface{}, map[string]interface{} (keys sorted). The form argument picks
// among equivalent encodings (0 = most compact, 1 = widest).
func MEnc(b []byte, v interface{}, form int) []byte {
	be16 := func(n int) []byte { var x [2]byte; binary.BigEndian.PutUint16(x[:], uint16(n)); return x[:] }
	be32 := func(n int) []byte { var x [4]byte; binary.BigEndian.PutUint32(x[:], uint32(n)); return x[:] }
	be64 := func(n uint64) []byte { var x [8]byte; binary.BigEndian.PutUint64(x[:], n); return x[:] }
	switch x := v.(type) {
	case nil:
		return append(b, 0xc0)
	case bool:
		if x {
			return append(b, 0xc3)
		}
		return append(b, 0xc2)
	case int:
		return MEnc(b, int64(x), form)
	case int64:
		if x >= 0 {
			return MEnc(b, uint64(x), form)
		}
		switch {
		case x >= -32 && form == 0:
			return append(b, byte(int8(x)))
		case x >= math.MinInt8 && form == 0:
			return append(b, 0xd0, byte(int8(x)))
		case x >= math.MinInt16 && form == 0:
			return append(append(b, 0xd1), be16(int(x))...)
		case x >= math.MinInt32 && form == 0:
			return append(append(b, 0xd2), be32(int(x))...)
		}
		return append(append(b, 0xd3), be64(uint64(x))...)
	case uint64:
		switch {
		case x < 128 && form == 0:
			return append(b, byte(x))
		case x < 256 && form == 0:
			return append(b, 0xcc, byte(x))
		case x < 65536 && form == 0:
			return append(append(b, 0xcd), be16(int(x))...)
		case x < 1<<32 && form == 0:
			return append(append(b, 0xce), be32(int(x))...)
		}
		return append(append(b, 0xcf), be64(x)...)
	case float64:
		return append(append(b, 0xcb), be64(math.Float64bits(x))...)
	case string:
		n := len(x)
		switch {
		case n < 32 && form == 0:
			b = append(b, 0xa0|byte(n))
		case n < 256 && form == 0:
			b = append(b, 0xd9, byte(n))
		case n < 65536 && form == 0:
			b = append(append(b, 0xda), be16(n)...)
		default:
			b = append(append(b, 0xdb), be32(n)...)
		}
		return append(b, x...)
	case []byte:
		n := len(x)
		switch {
		case n < 256 && form == 0:
			b = append(b, 0xc4, byte(n))
		case n < 65536 && form == 0:
			b = append(append(b, 0xc5), be16(n)...)
		default:
			b = append(append(b, 0xc6), be32(n)...)
		}
		return append(b, x...)
	case []interface{}:
		n := len(x)
		switch {
		case n < 16 && form == 0:
			b = append(b, 0x90|byte(n))
		case n < 65536 && form == 0:
			b = append(append(b, 0xdc), be16(n)...)
		default:
			b = append(append(b, 0xdd), be32(n)...)
		}
		for _, e := range x {
			b = MEnc(b, e, form)
		}
		return b
	case map[string]interface{}:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b = MMapHeader(b, len(keys), form)
		for _, k := range keys {
			b = MEnc(b, k, form)
			b = MEnc(b, x[k], form)
		}
		return b
	}
	panic(fmt.Sprintf("wire.MEnc: %T", v))
}

// MMapHeader appends a map header.
func MMapHeader(b []byte, n, form int) []byte {
	switch {
	case n < 16 && form == 0:
		return append(b, 0x80|byte(n))
	case n < 65536 && form == 0:
		return append(b, 0xde, byte(n>>8), byte(n))
	}
	return append(b, 0xdf, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
}

var errMShort = errors.New("msgpack: short")

// MDec decodes one msgpack value: nil, bool, int64 (uint64 above its range), float64,
// string, []byte, []interface{}, map[string]interface{}.
func MDec(b []byte) (v interface{}, rest []byte, err error) {
	return mdec(b, 0)
}

func mdec(b []byte, depth int) (v interface{}, rest []byte, err error) {
	if depth > 200 {
		return nil, b, errors.New("msgpack: too deep")
	}
	if len(b) == 0 {
		return nil, b, errMShort
	}
	c := b[0]
	r := b[1:]
	num := func(n int) (uint64, bool) {
		if len(r) < n {
			return 0, false
		}
		var x uint64
		for i := 0; i < n; i++ {
			x = x<<8 | uint64(r[i])
		}
		r = r[n:]
		return x, true
	}
	take := func(n uint64) ([]byte, bool) {
		if uint64(len(r)) < n {
			return nil, false
		}
		x := r[:n]
		r = r[n:]
		return x, true
	}
	str := func(n uint64) (interface{}, []byte, error) {
		s, ok := take(n)
		if !ok {
			return nil, b, errMShort
		}
		return string(s), r, nil
	}
	arr := func(n uint64) (interface{}, []byte, error) {
		if n > uint64(len(r)) {
			return nil, b, errMShort
		}
		out := make([]interface{}, 0, n)
		for i := uint64(0); i < n; i++ {
			var e interface{}
			var err error
			if e, r, err = mdec(r, depth+1); err != nil {
				return nil, b, err
			}
			out = append(out, e)
		}
		return out, r, nil
	}
	mp := func(n uint64) (interface{}, []byte, error) {
		if 2*n > uint64(len(r)) {
			return nil, b, errMShort
		}
		out := make(map[string]interface{}, n)
		for i := uint64(0); i < n; i++ {
			var k, e interface{}
			var err error
			if k, r, err = mdec(r, depth+1); err != nil {
				return nil, b, err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, b, errors.New("msgpack: non-string key")
			}
			if e, r, err = mdec(r, depth+1); err != nil {
				return nil, b, err
			}
			out[ks] = e
		}
		return out, r, nil
	}
	u := func(n int) (interface{}, []byte, error) {
		x, ok := num(n)
		if !ok {
			return nil, b, errMShort
		}
		if x > math.MaxInt64 {
			return x, r, nil
		}
		return int64(x), r, nil
	}
	switch {
	case c < 0x80:
		return int64(c), r, nil
	case c >= 0xe0:
		return int64(int8(c)), r, nil
	case c < 0x90:
		return mp(uint64(c & 15))
	case c < 0xa0:
		return arr(uint64(c & 15))
	case c < 0xc0:
		return str(uint64(c & 31))
	}
	switch c {
	case 0xc0:
		return nil, r, nil
	case 0xc2:
		return false, r, nil
	case 0xc3:
		return true, r, nil
	case 0xca:
		x, ok := num(4)
		if !ok {
			return nil, b, errMShort
		}
		return float64(math.Float32frombits(uint32(x))), r, nil
	case 0xcb:
		x, ok := num(8)
		if !ok {
			return nil, b, errMShort
		}
		return math.Float64frombits(x), r, nil
	case 0xcc:
		return u(1)
	case 0xcd:
		return u(2)
	case 0xce:
		return u(4)
	case 0xcf:
		return u(8)
	case 0xd0, 0xd1, 0xd2, 0xd3:
		n := 1 << (c - 0xd0)
		x, ok := num(n)
		if !ok {
			return nil, b, errMShort
		}
		sh := uint(64 - 8*n)
		return int64(x<<sh) >> sh, r, nil
	case 0xc4, 0xc5, 0xc6, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf:
		var w int
		switch c {
		case 0xc4, 0xd9:
			w = 1
		case 0xc5, 0xda, 0xdc, 0xde:
			w = 2
		default:
			w = 4
		}
		n, ok := num(w)
		if !ok {
			return nil, b, errMShort
		}
		switch c {
		case 0xc4, 0xc5, 0xc6:
			x, ok := take(n)
			if !ok {
				return nil, b, errMShort
			}
			return append([]byte{}, x...), r, nil
		case 0xd9, 0xda, 0xdb:
			return str(n)
		case 0xdc, 0xdd:
			return arr(n)
		}
		return mp(n)
	}
	return nil, b, fmt.Errorf("msgpack: unsupported lead byte %#x", c)
}
