package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	socketio "github.com/zyxar/socketio"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// c14S is a struct argument.
type c14S struct {
	A int    `json:"a"`
	B string `json:"b"`
	C []int  `json:"c,omitempty"`
}

type c14Int int

type c14Key string

// c14Bin is a binary type of the application; it refuses data that starts with 'X'.
type c14Bin struct{ got []byte }

func (b *c14Bin) UnmarshalBinary(p []byte) error {
	if len(p) > 0 && p[0] == 'X' {
		return errors.New("refused")
	}
	b.got = append([]byte{}, p...)
	return nil
}

func (b *c14Bin) MarshalBinary() ([]byte, error) { return b.got, nil }

// c14JSON decodes itself from a JSON string.
type c14JSON struct{ s string }

func (j *c14JSON) UnmarshalJSON(b []byte) error { return json.Unmarshal(b, &j.s) }

// c14Msgp decodes itself from a msgpack string.
type c14Msgp struct{ s string }

func (m *c14Msgp) UnmarshalMsg(b []byte) ([]byte, error) {
	v, rest, err := wire.MDec(b)
	if err != nil {
		return b, err
	}
	s, ok := v.(string)
	if !ok {
		return b, errors.New("not a string")
	}
	m.s = s
	return rest, nil
}

// goType is a parameter type: which Vals convert to it and which do not.
type goType struct {
	t      reflect.Type
	gen    func(t *rapid.T, l string) Val
	bad    func(t *rapid.T, l string) Val // nil: anything converts
	parser int                            // 0 both, 1 default, 2 msgpack
	form   func(v Val) string             // canonical text of v as this type; nil: that of the value sent
}

// refs is the canonical text of a list or map of pointers.
func refs(v Val) string {
	var b strings.Builder
	switch v.K {
	case "list":
		b.WriteByte('[')
		for i, e := range v.L {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString("&" + canon(e.generic()))
		}
		b.WriteByte(']')
	case "map":
		var keys []string
		for k := range v.M {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(k) + ":&" + canon(v.M[k].generic()))
		}
		b.WriteByte('}')
	}
	return b.String()
}

// padded is v with its lists at the given depth filled up to n elements.
func padded(v Val, depth, n int) Val {
	switch {
	case depth > 0 && v.K == "list":
		l := append([]Val{}, v.L...)
		for i := range l {
			l[i] = padded(l[i], depth-1, n)
		}
		v.L = l
	case depth > 0:
		m := map[string]Val{}
		for k, e := range v.M {
			m[k] = padded(e, depth-1, n)
		}
		v.M = m
	default:
		v.L = append([]Val{}, v.L...)
		for len(v.L) < n {
			v.L = append(v.L, intVal(0))
		}
	}
	return v
}

func pick(vs ...int64) func(*rapid.T, string) Val {
	return func(t *rapid.T, l string) Val {
		return Val{K: "int", I: rapid.SampledFrom(vs).Draw(t, l)}
	}
}

func pickVal(vs ...Val) func(*rapid.T, string) Val {
	return func(t *rapid.T, l string) Val { return rapid.SampledFrom(vs).Draw(t, l) }
}

func strVal(s string) Val { return Val{K: "str", S: s} }
func intVal(i int64) Val  { return Val{K: "int", I: i} }

var (
	aMap  = Val{K: "map", M: map[string]Val{"k": intVal(1)}}
	aList = Val{K: "list", L: []Val{intVal(1)}}
)

func anyStr(t *rapid.T, l string) Val { return strVal(genStr(t, l)) }

func listOf(g func(*rapid.T, string) Val, most int) func(*rapid.T, string) Val {
	return func(t *rapid.T, l string) Val {
		v := Val{K: "list"}
		for i, n := 0, rapid.IntRange(0, most).Draw(t, l+".n"); i < n; i++ {
			v.L = append(v.L, g(t, l+".e"))
		}
		return v
	}
}

func mapOf(g func(*rapid.T, string) Val) func(*rapid.T, string) Val {
	return func(t *rapid.T, l string) Val {
		v := Val{K: "map", M: map[string]Val{}}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, l+".n"); i < n; i++ {
			v.M[rapid.SampledFrom([]string{"", "a", "k\"", "語"}).Draw(t, l+".k")] = g(t, l+".e")
		}
		return v
	}
}

func aBin(t *rapid.T, l string) Val {
	b := genBlobBytes(t, l)
	if len(b) > 0 && b[0] == 'X' {
		b[0] = 'Y'
	}
	return Val{K: "bin", X: b}
}

func structVal(t *rapid.T, l string) Val {
	v := Val{K: "map", M: map[string]Val{"a": pick(0, -5, 1<<40)(t, l+".a"), "b": anyStr(t, l+".b")}}
	if rapid.Bool().Draw(t, l+".hasc") {
		v.M["c"] = Val{K: "list", L: []Val{intVal(3), intVal(4)}}
	}
	return v
}

var anInt = pick(0, 1, -1, 127, -32, 200, -129, 70000, -70000, 1<<31, -1<<40, 1<<53)

var goTypes = map[string]goType{
	"int":    {reflect.TypeOf(0), anInt, pickVal(strVal("1"), aMap, aList, Val{K: "bool", B: true}, Val{K: "float", F: 1.5}), 0, nil},
	"int8":   {reflect.TypeOf(int8(0)), pick(0, 127, -128, -1, -33), pickVal(strVal("1"), intVal(128), intVal(-129), intVal(1000)), 0, nil},
	"int16":  {reflect.TypeOf(int16(0)), pick(0, 32767, -32768, 128), pickVal(aMap, intVal(32768), intVal(-32769)), 0, nil},
	"int32":  {reflect.TypeOf(int32(0)), pick(0, 1<<31-1, -1<<31), pickVal(aList, intVal(1<<31), intVal(-1<<31-1)), 0, nil},
	"int64":  {reflect.TypeOf(int64(0)), pick(0, 1<<62, -1<<62), pickVal(strVal(""), aList), 0, nil},
	"uint":   {reflect.TypeOf(uint(0)), pick(0, 1<<40), pickVal(intVal(-1), strVal("x")), 0, nil},
	"uint8":  {reflect.TypeOf(uint8(0)), pick(0, 255, 128), pickVal(intVal(-1), intVal(256)), 0, nil},
	"uint16": {reflect.TypeOf(uint16(0)), pick(0, 65535), pickVal(intVal(-1), intVal(65536)), 0, nil},
	"uint32": {reflect.TypeOf(uint32(0)), pick(0, 1<<32-1), pickVal(intVal(-1), intVal(1<<32)), 0, nil},
	"uint64": {reflect.TypeOf(uint64(0)), pick(0, 1<<62), pickVal(intVal(-1), aMap), 0, nil},
	"float64": {reflect.TypeOf(0.0), pickVal(Val{K: "float", F: 0.5}, Val{K: "float", F: -1e300}, Val{K: "float", F: 1e-7}),
		pickVal(strVal("0.5"), aMap, Val{K: "bool", B: true}), 0, nil},
	"string":  {reflect.TypeOf(""), anyStr, pickVal(intVal(1), aList, aMap, Val{K: "bool"}), 0, nil},
	"bool":    {reflect.TypeOf(false), pickVal(Val{K: "bool"}, Val{K: "bool", B: true}), pickVal(strVal("true"), intVal(1), aList), 0, nil},
	"iface":   {ifaceType, func(t *rapid.T, l string) Val { return genVal(t, l, 2, false) }, nil, 0, nil},
	"[]int":   {reflect.TypeOf([]int(nil)), listOf(anInt, 20), pickVal(intVal(1), aMap, Val{K: "list", L: []Val{strVal("x")}}, Val{K: "list", L: []Val{intVal(1), aMap}}), 0, nil},
	"[]str":   {reflect.TypeOf([]string(nil)), listOf(anyStr, 4), pickVal(strVal("x"), aMap, aList), 0, nil},
	"[]iface": {reflect.TypeOf([]interface{}(nil)), listOf(func(t *rapid.T, l string) Val { return genVal(t, l, 1, false) }, 4), pickVal(strVal("[]"), aMap), 0, nil},
	"[][]int": {reflect.TypeOf([][]int(nil)), listOf(listOf(anInt, 3), 3), pickVal(aList, aMap), 0, nil},
	"[2]int":  {reflect.TypeOf([2]int{}), pickVal(Val{K: "list", L: []Val{intVal(7), intVal(-8)}}), pickVal(intVal(1), strVal("x"), aMap), 0, nil},
	"mapint":  {reflect.TypeOf(map[string]int(nil)), mapOf(anInt), pickVal(aList, intVal(1), Val{K: "map", M: map[string]Val{"a": strVal("x")}}), 0, nil},
	"mapstr":  {reflect.TypeOf(map[string]string(nil)), mapOf(anyStr), pickVal(aList, strVal("{}"), aMap), 0, nil},
	"map":     {reflect.TypeOf(map[string]interface{}(nil)), mapOf(func(t *rapid.T, l string) Val { return genVal(t, l, 1, false) }), pickVal(aList, strVal("{}")), 0, nil},
	"struct":  {reflect.TypeOf(c14S{}), structVal, pickVal(aList, strVal("x"), Val{K: "map", M: map[string]Val{"a": strVal("x")}}), 1, nil},
	"structs": {reflect.TypeOf([]c14S(nil)), listOf(structVal, 3), pickVal(aList, aMap), 1, nil},
	"named":   {reflect.TypeOf(c14Int(0)), anInt, pickVal(strVal("x"), aMap), 1, nil},
	"json":    {reflect.TypeOf(c14JSON{}), anyStr, pickVal(intVal(1), aMap), 1, nil},
	"bytes":   {bytesType, aBin, nil, 1, nil},
	"ownbin":  {reflect.TypeOf(c14Bin{}), aBin, pickVal(Val{K: "bin", X: []byte("X!")}), 1, nil},
	"[]byte":  {reflect.TypeOf([]byte(nil)), aBin, pickVal(intVal(1), aMap), 2, nil},
	"msgp":    {reflect.TypeOf(c14Msgp{}), anyStr, pickVal(intVal(1), aMap, aList), 2, nil},

	"float32":  {reflect.TypeOf(float32(0)), pickVal(Val{K: "float", F: 0.5}, Val{K: "float", F: -2.25}), pickVal(strVal("0.5"), aMap), 1, nil},
	"duration": {reflect.TypeOf(time.Duration(0)), pick(0, -1, 1<<40), pickVal(strVal("1s"), aMap), 0, nil},
	"[3]int":   {reflect.TypeOf([3]int{}), shortInts, pickVal(strVal("x"), aMap, Val{K: "list", L: []Val{strVal("x")}}), 0, pad3(0)},
	"[][3]int": {reflect.TypeOf([][3]int(nil)), listOf(shortInts, 4), pickVal(aList, aMap), 0, pad3(1)},
	"map3int":  {reflect.TypeOf(map[string][3]int(nil)), mapOf(shortInts), pickVal(aList, aMap), 0, pad3(1)},
	"mapints":  {reflect.TypeOf(map[string][]int(nil)), mapOf(listOf(anInt, 3)), pickVal(aList, aMap), 0, nil},
	"mapstrs":  {reflect.TypeOf(map[string][]string(nil)), mapOf(listOf(anyStr, 3)), pickVal(aList, aMap), 0, nil},
	"mapmap":   {reflect.TypeOf(map[string]map[string]int(nil)), mapOf(mapOf(anInt)), pickVal(aList, aMap), 0, nil},
	"[]map":    {reflect.TypeOf([]map[string]interface{}(nil)), listOf(mapOf(func(t *rapid.T, l string) Val { return genVal(t, l, 1, false) }), 3), pickVal(aList, aMap), 0, nil},
	"[]mapint": {reflect.TypeOf([]map[string]int(nil)), listOf(mapOf(anInt), 3), pickVal(aList, aMap), 0, nil},
	"keymap":   {reflect.TypeOf(map[c14Key]int(nil)), mapOf(anInt), pickVal(aList, intVal(1)), 0, nil},
	"[]*int":   {reflect.TypeOf([]*int(nil)), listOf(anInt, 4), pickVal(aMap, Val{K: "list", L: []Val{strVal("x")}}), 0, refs},
	"map*int":  {reflect.TypeOf(map[string]*int(nil)), mapOf(anInt), pickVal(aList, intVal(1)), 0, refs},
	"map*strs": {reflect.TypeOf(map[string]*[]string(nil)), mapOf(listOf(anyStr, 3)), pickVal(aList, intVal(1)), 0, refs},
	"*int":     {reflect.TypeOf((*int)(nil)), anInt, pickVal(aList, aMap, strVal("")), 0, func(v Val) string { return "&" + canon(v.generic()) }},
}

// shortInts are 1 to 3 integers, none of them 0.
func shortInts(t *rapid.T, l string) Val {
	v := Val{K: "list", L: []Val{pick(1, -7, 1<<40)(t, l+".e")}}
	for i, n := 1, rapid.IntRange(1, 3).Draw(t, l+".n"); i < n; i++ {
		v.L = append(v.L, pick(2, 300)(t, l+".e"))
	}
	return v
}

func pad3(depth int) func(Val) string {
	return func(v Val) string { return canon(padded(v, depth, 3).generic()) }
}

var goTypeNames = func() (out []string) {
	for k := range goTypes {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}()

var sockType = reflect.TypeOf((*socketio.Socket)(nil)).Elem()

// Param is one parameter of a generated function.
type Param struct {
	T   string `json:"t"` // a name in goTypes, or socket
	Ptr bool   `json:"ptr,omitempty"`
}

func (p Param) typ() reflect.Type {
	if p.T == "socket" {
		return sockType
	}
	t := goTypes[p.T].t
	if p.Ptr {
		t = reflect.PtrTo(t)
	}
	return t
}

// Sig is a generated function and the arguments it is called with.
type Sig struct {
	Ps       []Param `json:"ps"`
	Variadic bool    `json:"variadic,omitempty"` // the last parameter is a list
	Args     []Val   `json:"args"`
	Bad      bool    `json:"bad,omitempty"` // some argument does not convert
}

func genSig(t *rapid.T, label string, msgp bool) Sig {
	var s Sig
	usable := []string{}
	for _, n := range goTypeNames {
		if p := goTypes[n].parser; p == 0 || p == 2 == msgp {
			usable = append(usable, n)
		}
	}
	n := rapid.IntRange(0, 5).Draw(t, label+".n")
	for i := 0; i < n; i++ {
		l := fmt.Sprint(label, i)
		if rapid.IntRange(0, 5).Draw(t, l+".so") == 0 {
			s.Ps = append(s.Ps, Param{T: "socket"})
			continue
		}
		p := Param{T: rapid.SampledFrom(usable).Draw(t, l+".t"), Ptr: rapid.IntRange(0, 4).Draw(t, l+".ptr") == 0}
		v := goTypes[p.T].gen(t, l+".v")
		if p.T == "iface" && p.Ptr && v.K == "nil" {
			v = intVal(1)
		}
		s.Ps = append(s.Ps, p)
		s.Args = append(s.Args, v)
	}
	if n > 0 && rapid.Bool().Draw(t, label+".variadic") {
		switch q := s.Ps[n-1]; q.T {
		case "[]int", "[]str", "[]iface":
			s.Variadic = !q.Ptr
		}
	}
	if len(s.Args) > 0 && rapid.IntRange(0, 3).Draw(t, label+".bad") == 0 {
		k := rapid.IntRange(0, len(s.Args)-1).Draw(t, label+".which")
		for i, q := range s.Ps {
			if q.T == "socket" {
				continue
			}
			if k > 0 {
				k--
				continue
			}
			if b := goTypes[q.T].bad; b != nil {
				s.Args[s.argOf(i)] = b(t, label+".badval")
				s.Bad = true
			}
			break
		}
	}
	return s
}

// argOf is the index of the argument of parameter i.
func (s Sig) argOf(i int) int {
	k := 0
	for _, p := range s.Ps[:i] {
		if p.T != "socket" {
			k++
		}
	}
	return k
}

// want is the canonical text of what the function must receive.
func (s Sig) want() string {
	var out []string
	k := 0
	for _, p := range s.Ps {
		if p.T == "socket" {
			out = append(out, "socket")
			continue
		}
		w := ""
		if f := goTypes[p.T].form; f != nil {
			w = f(s.Args[k])
		} else {
			w = canon(s.Args[k].generic())
		}
		if p.Ptr {
			w = "&" + w
		}
		out = append(out, w)
		k++
	}
	return strings.Join(out, " ")
}

// fn makes the function: it reports the canonical text of its arguments and the sockets
// it was given, and returns what rets holds.
func (s Sig) fn(outs []reflect.Type, call func(args string, socks []socketio.Socket) []reflect.Value) interface{} {
	types := make([]reflect.Type, len(s.Ps))
	for i, p := range s.Ps {
		types[i] = p.typ()
	}
	return reflect.MakeFunc(reflect.FuncOf(types, outs, s.Variadic), func(in []reflect.Value) []reflect.Value {
		var out []string
		var socks []socketio.Socket
		for i := range in {
			if s.Ps[i].T == "socket" {
				so, _ := in[i].Interface().(socketio.Socket)
				socks = append(socks, so)
				out = append(out, "socket")
				continue
			}
			out = append(out, canonGo(in[i]))
		}
		return call(strings.Join(out, " "), socks)
	}).Interface()
}

// canonGo is the canonical text of a Go value.
func canonGo(v reflect.Value) string {
	var b strings.Builder
	canonGoTo(&b, v)
	return b.String()
}

func canonGoTo(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("null")
		return
	}
	switch x := v.Interface().(type) {
	case socketio.Bytes:
		canonTo(b, append([]byte{}, x.Data...))
		return
	case c14Bin:
		canonTo(b, append([]byte{}, x.got...))
		return
	case c14JSON:
		canonTo(b, x.s)
		return
	case c14Msgp:
		canonTo(b, x.s)
		return
	case []byte:
		canonTo(b, append([]byte{}, x...))
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nilptr")
			return
		}
		b.WriteString("&")
		canonGoTo(b, v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("null")
			return
		}
		canonGoTo(b, v.Elem())
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		canonFloat(b, v.Float())
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			canonGoTo(b, v.Index(i))
		}
		b.WriteByte(']')
	case reflect.Map:
		var keys []string
		for _, k := range v.MapKeys() {
			keys = append(keys, k.String())
		}
		sort.Strings(keys)
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(k) + ":")
			canonGoTo(b, v.MapIndex(reflect.ValueOf(k).Convert(v.Type().Key())))
		}
		b.WriteByte('}')
	case reflect.Struct:
		s, ok := v.Interface().(c14S)
		if !ok {
			fmt.Fprintf(b, "?%v", v.Type())
			return
		}
		m := map[string]interface{}{"a": int64(s.A), "b": s.B}
		if s.C != nil {
			l := []interface{}{}
			for _, i := range s.C {
				l = append(l, int64(i))
			}
			m["c"] = l
		}
		canonTo(b, m)
	default:
		fmt.Fprintf(b, "?%v", v.Type())
	}
}

// notes is a list several goroutines append to.
type notes struct {
	mu sync.Mutex
	l  []string
}

func (n *notes) add(s string) { n.mu.Lock(); n.l = append(n.l, s); n.mu.Unlock() }

func (n *notes) all() []string { n.mu.Lock(); defer n.mu.Unlock(); return n.l[:len(n.l):len(n.l)] }

func (n *notes) len() int { return len(n.all()) }

func sameNotes(got, want []string) error {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Errorf("step %d never happened: %s", i+1, clipS(want[i]))
		case i >= len(want):
			return fmt.Errorf("step %d is one too many: %s", i+1, clipS(got[i]))
		case got[i] != want[i]:
			return fmt.Errorf("step %d was\n %s\nnot\n %s", i+1, clipS(got[i]), clipS(want[i]))
		}
	}
	return nil
}

// ---- C14

type c14Call struct {
	Sig Sig     `json:"sig"`
	NSP string  `json:"nsp"`
	Ack bool    `json:"ack,omitempty"` // event: carries an ack id.
	CB  bool    `json:"cb,omitempty"`  // the function is the ack callback of an emit
	Two bool    `json:"two,omitempty"` // the handler has a second result
	Ext *Val    `json:"ext,omitempty"` // an argument more than there are parameters
	ID  *uint64 `json:"-"`
}

type c14Plan struct {
	Msgp  bool      `json:"msgp,omitempty"`
	WS    bool      `json:"ws,omitempty"`
	Cli   bool      `json:"cli,omitempty"` // the library's end is a client
	Enc   sim.Enc   `json:"enc,omitempty"`
	Seed  uint32    `json:"seed,omitempty"`
	Mute  []string  `json:"mute,omitempty"` // namespaces without an error handler
	Calls []c14Call `json:"calls"`
}

func init() {
	rule := "a function has at least two parameters or an argument does not convert"
	kit.Add("C14", "server", rule, 30000, 300000, genC14(false), runC14)
	kit.Add("C14", "client", rule, 15000, 200000, genC14(true), runC14)
}

func genC14(cli bool) func(t *rapid.T) c14Plan {
	return func(t *rapid.T) c14Plan {
		p := c14Plan{Cli: cli, Msgp: rapid.Bool().Draw(t, "msgp"), WS: rapid.IntRange(0, 2).Draw(t, "ws") > 0, Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, "enc"))}
		if rapid.Bool().Draw(t, "variant") {
			p.Seed = uint32(rapid.IntRange(1, 1000).Draw(t, "seed"))
		}
		if rapid.IntRange(0, 5).Draw(t, "mute") == 0 {
			p.Mute = rapid.SampledFrom([][]string{{"/"}, {"/a"}, {"/", "/a"}}).Draw(t, "muted")
		}
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "n"); i < n; i++ {
			l := fmt.Sprint("c", i)
			k := c14Call{Sig: genSig(t, l, p.Msgp), NSP: rapid.SampledFrom([]string{"/", "/a"}).Draw(t, l+".nsp"),
				CB: rapid.IntRange(0, 3).Draw(t, l+".cb") == 0, Ack: rapid.Bool().Draw(t, l+".ack"), Two: rapid.Bool().Draw(t, l+".two")}
			if rapid.IntRange(0, 5).Draw(t, l+".extra") == 0 {
				v := genVal(t, l+".ext", 1, false)
				k.Ext = &v
			}
			p.Calls = append(p.Calls, k)
		}
		return p
	}
}

func runC14(c *kit.C, p c14Plan) {
	var log notes
	var want, wantOut []string
	onError := func(so socketio.Socket, err []interface{}) {
		if len(err) == 0 || err[0] == nil {
			c.Errorf("error handler of %s called without an error", so.Namespace())
		}
		log.add("error " + so.Namespace())
	}
	var s *sioSrv
	var r *argCli
	var sid string
	var k *sioCli
	namespace := func(n string) socketio.Namespace { return s.S.Namespace(n) }
	muted := func(n string) bool {
		for _, m := range p.Mute {
			if m == n {
				return true
			}
		}
		return false
	}
	if p.Cli {
		r = newArgCli(onError)
		namespace = func(n string) socketio.Namespace { return r.C.Namespace(n) }
	} else {
		s = newSioSrv(c, p.Msgp, long, long)
		s.OnError = func(e *sioSess, so socketio.Socket, err []interface{}) { onError(so, err) }
		s.nsp("/")
		s.nsp("/a")
	}
	for _, n := range p.Mute {
		namespace(n).OnError(nil)
	}
	check := func(i int, nsp string, args string, socks []socketio.Socket) {
		for _, so := range socks {
			if so == nil || so.Sid() != sid || so.Namespace() != nsp {
				c.Errorf("function %d of %s was given the socket %v", i, nsp, so)
			}
		}
		log.add(fmt.Sprint(i, " ", nsp, " ", args))
	}
	for i, call := range p.Calls {
		i, call := i, call
		if call.CB {
			continue
		}
		outs := []reflect.Type{reflect.TypeOf(0)}
		if call.Two {
			outs = append(outs, reflect.TypeOf(""))
		}
		namespace(call.NSP).OnEvent(fmt.Sprint("f", i), call.Sig.fn(outs, func(args string, socks []socketio.Socket) []reflect.Value {
			check(i, call.NSP, args, socks)
			return []reflect.Value{reflect.ValueOf(i), reflect.ValueOf("two")}[:len(outs)]
		}))
	}
	var socket func(nsp string) socketio.Socket
	var disconnects func() int
	base := 0
	if p.Cli {
		sid = "the-sid"
		k = r.start(c, p.Msgp, !p.WS)
		socket, disconnects = r.socket, r.left.len
	} else {
		k = newSioCli(c, s.S, p.Msgp, p.WS, "10.0.0.1:1", nil, p.Enc)
		sid = k.sid
		s.join(k, "/")
		s.join(k, "/a")
		e := s.sess(k.sid)
		socket = e.socket
		disconnects = func() int { return e.count("disconnect", "*") }
		base = 2
	}
	sendv := func(q SP) {
		var out []wire.Pkt
		for _, f := range q.variant(p.Msgp, p.Seed) {
			out = append(out, wire.Pkt{Bin: f.bin, Type: wire.EMessage, Data: f.data})
		}
		k.raw(out...)
	}
	nwant := func() int { return base + len(wantOut) }
	for i, call := range p.Calls {
		args := call.Sig.Args
		if call.Ext != nil {
			args = append(append([]Val{}, args...), *call.Ext)
		}
		outcome := fmt.Sprint(i, " ", call.NSP, " ", call.Sig.want())
		if call.Sig.Bad {
			outcome = "error " + call.NSP
		}
		if !call.Sig.Bad || !muted(call.NSP) {
			want = append(want, outcome)
		}
		c.LabelIf(call.Sig.Bad && muted(call.NSP), "does not convert, nobody to tell")
		if call.CB {
			fn := call.Sig.fn(nil, func(args string, socks []socketio.Socket) []reflect.Value {
				check(i, call.NSP, args, socks)
				return nil
			})
			if err := socket(call.NSP).Emit(fmt.Sprint("f", i), fn); err != nil {
				c.Failf("emit with a callback: %v", err)
			}
			name := fmt.Sprint("f", i)
			var id *uint64
			find := func() bool {
				for _, q := range k.recv() {
					if q.Type == wire.SEvent && q.Args[0] == name {
						id = q.ID
						return true
					}
				}
				return false
			}
			c.Await(find, "the event with a callback at the peer")
			if id == nil {
				c.Failf("emit with a callback carries no ack id")
			}
			base++
			sendv(ackPkt(call.NSP, *id, args...))
		} else {
			q := evPkt(call.NSP, fmt.Sprint("f", i), args...)
			if call.Ack {
				q = q.withID(uint64(i + 1))
				if !call.Sig.Bad {
					a := ackPkt(call.NSP, uint64(i+1), intVal(int64(i)))
					if call.Two {
						a.Args = append(a.Args, "two")
					}
					wantOut = append(wantOut, a.key())
				}
			}
			sendv(q)
		}
		c.NonTrivialIf(len(call.Sig.Ps) > 1 || call.Sig.Bad)
		c.LabelIf(call.Sig.Bad, "does not convert")
		c.LabelIf(call.CB, "ack callback")
		c.LabelIf(call.Sig.Variadic, "variadic")
	}
	c.Reaches(func() bool { return log.len() >= len(want) && len(k.recv()) >= nwant() })
	c.Quiet()
	if err := sameNotes(log.all(), want); err != nil {
		c.Failf("%v", err)
	}
	var got []string
	for _, q := range k.recv() {
		if q.Type == wire.SAck {
			got = append(got, q.key())
		}
		if q.Type == wire.SError {
			c.Failf("peer received %s", q)
		}
	}
	if err := sameNotes(got, wantOut); err != nil {
		c.Failf("acks: %v", err)
	}
	if disconnects() > 0 {
		c.Failf("the session ended")
	}
	c.LabelIf(p.Msgp, "msgpack")
	c.LabelIf(p.WS, "websocket")
}

// argCli is a client that joins two namespaces.
type argCli struct {
	C     *socketio.Client
	mu    sync.Mutex
	socks map[string]socketio.Socket
	left  notes
}

func newArgCli(onError func(so socketio.Socket, err []interface{})) *argCli {
	r := &argCli{C: socketio.NewClient(), socks: map[string]socketio.Socket{}}
	for _, n := range []string{"/", "/a"} {
		n := n
		r.C.Namespace(n).OnConnect(func(so socketio.Socket) {
			r.mu.Lock()
			r.socks[n] = so
			r.mu.Unlock()
		}).OnDisconnect(func(so socketio.Socket) { r.left.add(n) }).OnError(func(so socketio.Socket, err ...interface{}) { onError(so, err) })
	}
	return r
}

func (r *argCli) socket(nsp string) socketio.Socket {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.socks[nsp]
}

func (r *argCli) start(c *kit.C, msgp, poll bool) *sioCli {
	k, conn := newFake(c, msgp, poll)
	k.raw(openPkt("the-sid", 3600000, 3600000))
	k.send(SP{Type: wire.SConnect, NSP: "/"})
	k.send(SP{Type: wire.SConnect, NSP: "/a"})
	done := make(chan error, 1)
	go func() { done <- r.C.Dial("ws://server.example/", nil, &oneConn{conn: conn}, parserOf(msgp)) }()
	c.Await(func() bool { return len(done) > 0 }, "return of Dial")
	if err := <-done; err != nil {
		c.Failf("Dial: %v", err)
	}
	c.Defer(func() { go r.C.Close() })
	c.Await(func() bool { return r.socket("/") != nil && r.socket("/a") != nil }, "connect handlers of the client")
	return k
}

// ---- C11, C12: decoding into parameters of other types than the values have by themselves

type typesPlan struct {
	Sigs []Sig  `json:"sigs"`
	Own  []bool `json:"own"` // decode the encoder's own frames
	Seed uint32 `json:"seed,omitempty"`
}

func genTypes(msgp bool) func(t *rapid.T) typesPlan {
	return func(t *rapid.T) typesPlan {
		p := typesPlan{Seed: uint32(rapid.IntRange(0, 1<<16).Draw(t, "seed"))}
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
			p.Sigs = append(p.Sigs, genSig(t, fmt.Sprint("s", i), msgp))
			p.Own = append(p.Own, rapid.Bool().Draw(t, "own"))
		}
		return p
	}
}

func init() {
	kit.Add("C11", "types", "a packet has at least two arguments", 30000, 400000, genTypes(false), func(c *kit.C, p typesPlan) { runTypes(c, p, false) })
	kit.Add("C12", "types", "a packet has at least two arguments", 30000, 400000, genTypes(true), func(c *kit.C, p typesPlan) { runTypes(c, p, true) })
}

func runTypes(c *kit.C, p typesPlan, msgp bool) {
	parser := parserOf(msgp)
	enc, dec := parser.Encoder(), parser.Decoder()
	for i, s := range p.Sigs {
		q := PK{Type: wire.SEvent, NSP: "/", Name: "e", Args: s.Args}
		frames := q.sp().variant(msgp, p.Seed)
		if p.Own[i] {
			frames = encode(c, enc, q.packet(msgp))
		}
		for j, f := range frames {
			t := socketio.MessageTypeString
			if f.bin {
				t = socketio.MessageTypeBinary
			}
			if err := dec.Add(t, append([]byte{}, f.data...)); err != nil {
				c.Failf("decoder refused frame %d %q: %v", j, clipB(f.data), err)
			}
		}
		got := drain(dec)
		if len(got) != 1 {
			c.Failf("%d packets came out (frames %q)", len(got), clipB(frames[0].data))
		}
		event, data, bin, err := dec.ParseData(got[0])
		if err != nil || event != "e" {
			c.Failf("ParseData: event %q, error %v", event, err)
		}
		var types []reflect.Type
		for _, a := range s.Ps {
			types = append(types, a.typ())
		}
		in, err := dec.UnmarshalArgs(types, data, bin)
		if (err != nil) != s.Bad {
			c.Failf("UnmarshalArgs to %v: error %v (data %q)", types, err, clipB(data))
		}
		if s.Bad {
			c.Label("does not convert")
			continue
		}
		var text []string
		for j, v := range in {
			switch {
			case s.Ps[j].T == "socket":
				text = append(text, "socket")
			case !v.IsValid():
				c.Failf("argument %d is missing", j)
			default:
				text = append(text, canonGo(v))
			}
		}
		if g, w := strings.Join(text, " "), s.want(); g != w {
			c.Failf("decoded to %v\n got %s\nwant %s", types, clipS(g), clipS(w))
		}
		c.NonTrivialIf(len(s.Args) > 1)
		c.LabelIf(p.Own[i], "round trip")
	}
}
