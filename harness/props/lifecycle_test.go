package props

import (
	"fmt"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	socketio "github.com/zyxar/socketio"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C09: lifecycle ----

// "/c": its connect handler closes the session. "/d": its disconnect handler does.
var c09NSPs = []string{"/", "/a", "/b", "/c", "/d"}

type c09Op struct {
	K string `json:"k"` // join, leave, ev, emit, upgrade, quiet
	N int    `json:"n"`
	M int    `json:"m,omitempty"` // number of events
	A bool   `json:"a,omitempty"` // with a callback nobody answers
}

type c09Sess struct {
	WS   bool     `json:"ws,omitempty"`
	Enc  sim.Enc  `json:"enc,omitempty"`
	Root bool     `json:"root,omitempty"` // the connect handler of "/" closes the session
	Ops  []c09Op  `json:"ops,omitempty"`
	Tail []c09Op  `json:"tail,omitempty"` // run while the session ends
	Ends []string `json:"ends"`           // at once
	St   int      `json:"st,omitempty"`   // stage of the upgrade cut by the end
	Mute int      `json:"mute,omitempty"` // namespaces without handlers, joined first
}

type c09Plan struct {
	Msgp     bool      `json:"msgp,omitempty"`
	Sess     []c09Sess `json:"sess"`
	ConnEmit int       `json:"cemit,omitempty"` // emits of connect handlers
	EvEmit   int       `json:"eemit,omitempty"` // emits of event handlers
	Ask      bool      `json:"ask,omitempty"`   // what handlers emit asks for an ack that never comes
	DiscUse  bool      `json:"duse,omitempty"`  // disconnect handlers use the socket
	SrvClose bool      `json:"srvclose,omitempty"`
}

var c09Ends = []string{"closepkt", "app", "appns", "drop", "closeframe", "appconn", "appev", "appdisc", "midupgrade", "midupgrade-app", "garbage", "closedata"}

func genC09(t *rapid.T) c09Plan {
	p := c09Plan{Msgp: rapid.IntRange(0, 2).Draw(t, "msgp") == 0, ConnEmit: rapid.SampledFrom([]int{0, 0, 1, 20}).Draw(t, "cemit"),
		EvEmit: rapid.SampledFrom([]int{0, 0, 1, 20}).Draw(t, "eemit"), Ask: rapid.Bool().Draw(t, "ask"), DiscUse: rapid.Bool().Draw(t, "duse"), SrvClose: rapid.IntRange(0, 3).Draw(t, "srvclose") == 0}
	ops := func(l string, most int, up bool) (out []c09Op) {
		kinds := []string{"join", "join", "leave", "ev", "ev", "ev", "emit", "quiet"}
		if up {
			kinds = append(kinds, "upgrade")
		}
		for i, n := 0, rapid.IntRange(0, most).Draw(t, l+".n"); i < n; i++ {
			o := c09Op{K: rapid.SampledFrom(kinds).Draw(t, l+".k"), N: rapid.IntRange(0, 2).Draw(t, l+".nsp")}
			if o.K == "ev" || o.K == "emit" {
				o.M = rapid.SampledFrom([]int{1, 1, 2, 12}).Draw(t, l+".m")
				o.A = rapid.Bool().Draw(t, l+".ask")
			}
			out = append(out, o)
		}
		return
	}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "sessions"); i < n; i++ {
		l := fmt.Sprint("s", i)
		s := c09Sess{WS: rapid.Bool().Draw(t, l+".ws"), Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, l+".enc")), Root: rapid.IntRange(0, 11).Draw(t, l+".root") == 0}
		if !s.Root {
			s.Ops = ops(l+".op", 8, !s.WS)
		}
		if rapid.Bool().Draw(t, l+".racing") {
			s.Tail = ops(l+".tail", 5, false)
		}
		for j, m := 0, rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, l+".ends"); j < m; j++ {
			s.Ends = append(s.Ends, rapid.SampledFrom(c09Ends).Draw(t, l+".end"))
		}
		s.St = rapid.IntRange(0, 4).Draw(t, l+".st")
		s.Mute = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, l+".mute")
		p.Sess = append(p.Sess, s)
	}
	return p
}

func init() {
	kit.Add("C09", "sio", "a namespace is left and joined again, several endings at once, traffic while the session ends, or an end inside a handler or an upgrade",
		8000, 80000, genC09, runC09)
}

type c09Cli struct {
	*sioCli
	e      *sioSess
	joined map[string]bool
	log    []string
	ended  bool
	half   *sim.WS // of an upgrade that was not finished
}

// grammar checks (connect event* disconnect)* per namespace.
func grammar(log []sioEntry, over bool) error {
	in := map[string]bool{}
	seen := map[string]bool{}
	for i, x := range log {
		switch x.Kind {
		case "connect":
			if in[x.NSP] {
				return fmt.Errorf("entry %d: connect handler of %s ran again without a disconnect", i, x.NSP)
			}
			in[x.NSP], seen[x.NSP] = true, true
		case "event":
			if !in[x.NSP] {
				return fmt.Errorf("entry %d: event handler of %s ran while the client was not in it", i, x.NSP)
			}
		case "disconnect":
			if !in[x.NSP] {
				return fmt.Errorf("entry %d: disconnect handler of %s ran while the client was not in it", i, x.NSP)
			}
			in[x.NSP] = false
		}
	}
	if over {
		if !seen["/"] {
			return fmt.Errorf("connect handler of / never ran")
		}
		for n, b := range in {
			if b {
				return fmt.Errorf("disconnect handler of %s never ran", n)
			}
		}
	}
	return nil
}

func noErrors(log []sioEntry) (out []sioEntry) {
	for _, x := range log {
		if x.Kind != "error" {
			out = append(out, x)
		}
	}
	return
}

func strs(log []sioEntry) (out []string) {
	for _, x := range log {
		out = append(out, x.String())
	}
	return
}

// over tells whether every namespace joined was left again.
func over(e *sioSess) bool {
	n := 0
	for _, x := range e.entries() {
		switch x.Kind {
		case "connect":
			n++
		case "disconnect":
			n--
		}
	}
	return n == 0 && e.count("connect", "/") > 0
}

// halfUpgrade performs an upgrade up to a stage: 0 connected, 1 probe sent, 2 pong
// received, 3 confirmation sent, 4 and some time for the server to take it. It returns nil
// if the session ended meanwhile.
func (k *sioCli) halfUpgrade(st int) *sim.WS {
	ws := sim.DialWS(k.h, "EIO=3&transport=websocket&sid="+k.sid, k.addr, k.upHdr(), nil)
	k.c.Defer(ws.Close)
	if !k.c.Reaches(func() bool { return ws.HSDone() }) {
		k.c.Failf("websocket handshake of an upgrade is never answered")
	}
	if _, err := ws.Handshaken(); err != nil {
		return nil
	}
	if st >= 1 {
		ws.Send(wire.Pkt{Type: wire.EPing, Data: []byte("probe")})
	}
	if st >= 2 {
		k.c.Await(func() bool { return ws.N() > 0 || ws.Ended() != nil }, "pong to the probe, or the end of the connection")
	}
	if st >= 3 {
		k.cross()
		ws.Send(wire.Pkt{Type: wire.EUpgrade})
	}
	if st >= 4 {
		time.Sleep(50 * time.Microsecond)
	}
	return ws
}

func runC09(c *kit.C, p c09Plan) {
	s := newSioSrv(c, p.Msgp, long, long)
	var wg sync.WaitGroup
	rootCloses := func(so socketio.Socket) bool {
		i, err := strconv.Atoi(so.GetHeader("X-Client"))
		return err == nil && i < len(p.Sess) && p.Sess[i].Root
	}
	use := func(so socketio.Socket) {
		_ = so.Sid()
		if so.RemoteAddr() == nil || so.LocalAddr() == nil {
			c.Errorf("a handler's socket has no address")
		}
		so.SetHeader("X-Seen", so.Namespace())
		if g := so.GetHeader("X-Seen"); g != so.Namespace() {
			c.Errorf("a handler's socket lost a header just set: %q", g)
		}
	}
	var args = func(ask bool, i int) []interface{} {
		if ask {
			return []interface{}{i, func(int) { c.Errorf("an ack callback ran although no ack was sent") }}
		}
		return []interface{}{i}
	}
	s.OnConnect = func(e *sioSess, so socketio.Socket) {
		use(so)
		for i := 0; i < p.ConnEmit; i++ {
			so.Emit("hello", args(p.Ask, i)...) // may fail if the session is ending
		}
		if so.Namespace() == "/c" || so.Namespace() == "/" && rootCloses(so) {
			so.Close()
		}
	}
	s.OnDisconnect = func(e *sioSess, so socketio.Socket) {
		if so.Namespace() == "/d" {
			so.Close()
		}
		if !p.DiscUse {
			return
		}
		use(so)
		for _, a := range [][]interface{}{{1}, {func() {}}} {
			if err := so.Emit("bye", a...); err == nil {
				c.Errorf("an emit in the disconnect handler of %s returned no error", so.Namespace())
			}
		}
		if so.Namespace() == "/b" {
			so.EmitError("bye")
		}
	}
	for _, n := range c09NSPs {
		s.nsp(n)
		s.event(n, "ev", func(e *sioSess, so socketio.Socket, tag int) {
			for i := 0; i < p.EvEmit; i++ {
				so.Emit("echo", args(p.Ask, tag)...)
			}
		})
		s.event(n, "close", func(e *sioSess, so socketio.Socket, tag int) { so.Close() })
	}
	mutes := []string{"/mute", "/mute2", "/mute3"}
	for _, n := range mutes {
		s.S.Namespace(n)
	}
	var cli []*c09Cli
	again, racing, inside := false, false, false
	for i, q := range p.Sess {
		id := strconv.Itoa(i)
		var sidOf func() string
		if q.Root {
			sidOf = func() string { return s.byHeader("X-Client", id) }
		}
		k := &c09Cli{sioCli: newSioCliMay(c, s.S, p.Msgp, q.WS, fmt.Sprintf("10.0.0.%d:1", i+1), http.Header{"X-Client": {id}}, q.Enc, sidOf), joined: map[string]bool{"/": true}}
		k.e = s.sess(k.sid)
		cli = append(cli, k)
		k.log = []string{"connect /"}
		if q.Root {
			k.lenient()
			inside = true
			continue
		}
		s.join(k.sioCli, "/")
		for j := 0; j < q.Mute; j++ {
			k.send(SP{Type: wire.SConnect, NSP: mutes[j]})
		}
	}
	var tags atomic.Int64
	do := func(k *c09Cli, o c09Op, model bool) {
		n := c09NSPs[o.N]
		switch o.K {
		case "join":
			k.send(SP{Type: wire.SConnect, NSP: n})
			if model && !k.joined[n] {
				for _, l := range k.log {
					again = again || l == "disconnect "+n
				}
				k.joined[n] = true
				k.log = append(k.log, "connect "+n)
			}
		case "leave":
			k.send(SP{Type: wire.SDisconnect, NSP: n})
			if model && k.joined[n] {
				delete(k.joined, n)
				k.log = append(k.log, "disconnect "+n)
			}
		case "ev":
			for i := 0; i < o.M; i++ {
				tag := tags.Add(1)
				k.send(evPkt(n, "ev", intVal(tag)))
				if model && k.joined[n] {
					k.log = append(k.log, fmt.Sprintf("event %s ev(%d)", n, tag))
				}
			}
		case "emit":
			if model {
				want := len(k.log)
				c.Await(func() bool { return len(noErrors(k.e.entries())) >= want }, "handlers %v", k.log)
			}
			if so := k.e.socket(n); so != nil {
				for i := 0; i < o.M; i++ {
					if err := so.Emit("out", args(o.A, i)...); model && (err == nil) != k.joined[n] {
						c.Failf("emit to %s (joined: %v): %v", n, k.joined[n], err)
					}
				}
			}
		case "upgrade":
			if !k.onWS {
				k.upgrade(nil)
			}
		case "quiet":
			if model {
				c.Quiet()
			}
		}
	}
	most := 0
	for i := range p.Sess {
		most = max(most, len(p.Sess[i].Ops))
	}
	for j := 0; j < most; j++ {
		for i, k := range cli {
			if j < len(p.Sess[i].Ops) {
				do(k, p.Sess[i].Ops[j], true)
			}
		}
	}
	for i, k := range cli {
		k := k
		if p.Sess[i].Root {
			continue
		}
		c.Reaches(func() bool { return len(noErrors(k.e.entries())) >= len(k.log) && k.w.idle() })
	}
	c.Quiet()
	for i, k := range cli {
		if p.Sess[i].Root {
			continue
		}
		if err := sameNotes(strs(noErrors(k.e.entries())), k.log); err != nil {
			c.Failf("handlers of session %d before its end: %v", i, err)
		}
	}
	// the endings of all sessions, at once
	exact := make([]bool, len(cli))
	for i, k := range cli {
		i, k, q := i, k, p.Sess[i]
		k.lenient()
		exact[i] = len(q.Tail) == 0 && len(q.Ends) == 1 && !q.Root
		racing = racing || len(q.Tail) > 0 || len(q.Ends) > 1
		if q.Root {
			continue
		}
		for _, end := range q.Ends {
			end := end
			if !k.onWS && (end == "drop" || end == "closeframe") || k.onWS && strings.HasPrefix(end, "midupgrade") {
				end = "closepkt"
			}
			so := k.e.socket("/")
			var f func()
			switch end {
			case "closepkt":
				f = func() { k.raw(wire.Pkt{Type: wire.EClose}) }
			case "closedata": // a close packet that carries something
				f = func() { k.raw(wire.Pkt{Type: wire.EClose, Data: []byte("bye")}) }
			case "app":
				f = func() { so.Close() }
			case "appns":
				for _, n := range c09NSPs {
					if x := k.e.socket(n); x != nil {
						so = x
					}
				}
				f = func() { so.Close(); so.Close() }
			case "drop":
				f = func() { k.ws.Close() }
			case "closeframe":
				f = func() { k.ws.CloseFrame() }
			case "garbage": // a reserved frame type: the connection cannot go on
				f = func() {
					if k.onWS {
						k.ws.Cli.Write([]byte{0x83, 0x80, 1, 2, 3, 4})
					} else {
						k.raw(wire.Pkt{Type: wire.EClose})
					}
				}
			case "appconn":
				inside = true
				f = func() { k.send(SP{Type: wire.SConnect, NSP: "/c"}) }
				if exact[i] {
					k.log = append(k.log, "connect /c")
					k.joined["/c"] = true
				}
			case "appev":
				inside = true
				n := "/"
				for x := range k.joined {
					n = max(n, x)
				}
				tg := tags.Add(1)
				f = func() { k.send(SP{Type: wire.SConnect, NSP: n}, evPkt(n, "close", intVal(tg))) }
				if exact[i] {
					if !k.joined[n] {
						k.log = append(k.log, "connect "+n)
						k.joined[n] = true
					}
					k.log = append(k.log, fmt.Sprintf("event %s close(%d)", n, tg))
				}
			case "appdisc":
				inside = true
				f = func() { k.send(SP{Type: wire.SConnect, NSP: "/d"}, SP{Type: wire.SDisconnect, NSP: "/d"}) }
				if exact[i] {
					k.log = append(k.log, "connect /d", "disconnect /d")
				}
			case "midupgrade", "midupgrade-app":
				inside = true
				f = func() {
					ws := k.halfUpgrade(q.St)
					if end == "midupgrade-app" {
						so.Close()
						return
					}
					k.raw(wire.Pkt{Type: wire.EClose})
					if ws != nil {
						if q.St >= 3 {
							ws.Send(wire.Pkt{Type: wire.EClose})
						} else {
							time.Sleep(20 * time.Microsecond)
							ws.Close()
						}
					}
				}
			}
			wg.Add(1)
			go func() { defer wg.Done(); defer recoverSentinel(); f() }()
		}
		if len(q.Tail) > 0 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range q.Tail {
					do(k, o, false)
				}
			}()
		}
	}
	if p.SrvClose {
		s.S.Close()
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	c.Reaches(func() bool {
		select {
		case <-fin:
		default:
			return false
		}
		for _, k := range cli {
			if !over(k.e) {
				return false
			}
		}
		return true
	})
	c.Quiet()
	for i, k := range cli {
		log := noErrors(k.e.entries())
		if err := grammar(log, true); err != nil {
			c.Failf("handlers of session %d (endings %v): %v: %v", i, p.Sess[i].Ends, err, strs(log))
		}
		if exact[i] {
			n := len(k.log)
			if len(log) < n {
				c.Failf("handlers of session %d: %v, want %v first", i, strs(log), k.log)
			}
			if err := sameNotes(strs(log[:n]), k.log); err != nil {
				c.Failf("handlers of session %d: %v", i, err)
			}
			for _, x := range log[n:] {
				if x.Kind != "disconnect" {
					c.Failf("handlers of session %d: unexpected %v after %v", i, x, k.log)
				}
			}
		}
		select {
		case <-fin:
		default:
			c.Failf("endings of the sessions hang: %v", p.Sess)
		}
		for _, n := range c09NSPs {
			so := k.e.socket(n)
			if so == nil {
				continue
			}
			for j := 0; j < 12; j++ { // more than any buffer
				if err := so.Emit("late", j); err == nil {
					c.Failf("session %d has ended (%v), but an emit to %s returned no error", i, p.Sess[i].Ends, n)
				}
				if err := so.EmitError("late"); err == nil {
					c.Failf("session %d has ended (%v), but an EmitError to %s returned no error", i, p.Sess[i].Ends, n)
				}
			}
			so.Close()
		}
	}
	c.Quiet()
	for i, k := range cli {
		if err := grammar(k.e.entries(), true); err != nil {
			c.Failf("handlers of session %d after the end: %v", i, err)
		}
	}
	c.NonTrivialIf(again || racing || inside)
	c.LabelIf(again, "joined again")
	c.LabelIf(racing, "racing endings or traffic")
	c.LabelIf(inside, "end inside a handler or an upgrade")
}

// recoverSentinel ends a goroutine of a case whose violation is already recorded.
func recoverSentinel() {
	if v := recover(); v != nil && !kit.IsSentinel(v) {
		panic(v)
	}
}

// ---- engine sessions

type c09EngSess struct {
	WS   bool     `json:"ws,omitempty"`
	Up   bool     `json:"up,omitempty"`
	Send int      `json:"send,omitempty"` // messages before
	Tail int      `json:"tail,omitempty"` // messages while it ends
	Emit int      `json:"emit,omitempty"` // emits while it ends
	Ends []string `json:"ends"`
	St   int      `json:"st,omitempty"`
	Lag  int      `json:"lag,omitempty"` // tens of ns between the stage of the upgrade and the end
}

type c09EngPlan struct {
	Sess []c09EngSess `json:"sess"`
	Slow bool         `json:"slow,omitempty"` // message handlers yield
	Use  bool         `json:"use,omitempty"`  // the close callback uses the socket
}

var c09EngEnds = []string{"closepkt", "app", "app2", "drop", "closeframe", "inopen", "inmsg", "garbage", "badpost", "midupgrade", "midupgrade-app", "closedata"}

func init() {
	kit.Add("C09", "engine", "several endings at once, traffic while the session ends, or an end inside a callback or an upgrade", 6000, 60000, func(t *rapid.T) c09EngPlan {
		p := c09EngPlan{Slow: rapid.Bool().Draw(t, "slow"), Use: rapid.Bool().Draw(t, "use")}
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "sessions"); i < n; i++ {
			l := fmt.Sprint("s", i)
			s := c09EngSess{WS: rapid.Bool().Draw(t, l+".ws"), Send: rapid.IntRange(0, 4).Draw(t, l+".send"), Tail: rapid.SampledFrom([]int{0, 0, 3, 20}).Draw(t, l+".tail"), Emit: rapid.SampledFrom([]int{0, 0, 3, 20}).Draw(t, l+".emit"), St: rapid.IntRange(0, 4).Draw(t, l+".st")}
			s.Up = !s.WS && rapid.IntRange(0, 2).Draw(t, l+".up") == 0
			for j, m := 0, rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, l+".ends"); j < m; j++ {
				s.Ends = append(s.Ends, rapid.SampledFrom(c09EngEnds).Draw(t, l+".end"))
			}
			p.Sess = append(p.Sess, s)
		}
		return p
	}, runC09Eng)
	kit.Add("C09", "upclose", "sessions closed about when their upgrade is confirmed", 2400, 40000, func(t *rapid.T) c09EngPlan {
		p := c09EngPlan{Use: rapid.Bool().Draw(t, "use")}
		for i, n := 0, rapid.IntRange(3, 10).Draw(t, "sessions"); i < n; i++ {
			l := fmt.Sprint("s", i)
			s := c09EngSess{St: rapid.SampledFrom([]int{3, 3, 3, 3, 2, 4}).Draw(t, l+".st"), Lag: rapid.IntRange(0, rapid.SampledFrom([]int{0, 200, 3000}).Draw(t, l+".lags")).Draw(t, l+".lag"), Emit: rapid.SampledFrom([]int{0, 0, 2, 12}).Draw(t, l+".emit")}
			s.Ends = []string{rapid.SampledFrom([]string{"midupgrade-app", "midupgrade-app", "midupgrade-app", "midupgrade"}).Draw(t, l+".end")}
			p.Sess = append(p.Sess, s)
		}
		return p
	}, runC09Eng)
}

func runC09Eng(c *kit.C, p c09EngPlan) {
	s := newEngSrv(c, long, long)
	in := func(e *esess, what string) bool {
		i, err := strconv.Atoi(e.Sock.GetHeader("X-Client"))
		if err != nil || i >= len(p.Sess) {
			return false
		}
		for _, x := range p.Sess[i].Ends {
			if x == what {
				return true
			}
		}
		return false
	}
	s.OnOpen = func(e *esess) {
		if in(e, "inopen") {
			e.Sock.Close()
		}
	}
	s.OnMsg = func(e *esess, n int, k wire.Pkt) {
		if p.Slow {
			yield(10)
		}
		if string(k.Data) == "close" {
			e.Sock.Close()
		}
	}
	s.OnEnd = func(e *esess) {
		if p.Use {
			for i := 0; i < 12; i++ {
				if err := e.emit(Blob{Lit: []byte("late")}); err == nil {
					c.Errorf("an emit in the close callback returned no error")
				}
			}
			_, _, _ = e.Sock.GetHeader("X-Client"), e.Sock.RemoteAddr(), e.Sock.LocalAddr()
			e.Sock.Close()
		}
	}
	var ps []*peer
	racing, inside := false, false
	for i, q := range p.Sess {
		id := strconv.Itoa(i)
		var sidOf func() string
		for _, end := range q.Ends {
			if end == "inopen" {
				sidOf = func() string { return s.byHeader("X-Client", id) }
			}
		}
		pe := newPeerMay(c, s, q.WS, fmt.Sprintf("10.0.0.%d:1", i+1), http.Header{"X-Client": {id}}, sim.XHR2, sidOf)
		ps = append(ps, pe)
		if !q.WS {
			pe.poll.Run(-1)
		}
		if in(pe.e, "inopen") {
			pe.lenient()
			inside = true
			continue
		}
		for j := 0; j < q.Send; j++ {
			pe.send([]Blob{{Lit: []byte(fmt.Sprint("a", j))}}, 0)
		}
		if q.Up {
			pe.upgrade(nil)
		}
	}
	for i, pe := range ps {
		if in(pe.e, "inopen") {
			continue
		}
		pe.finish(fmt.Sprintf("session %d before its end", i))
		pe.lenient()
	}
	var wg sync.WaitGroup
	run := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); defer recoverSentinel(); f() }()
	}
	for i, pe := range ps {
		pe, q := pe, p.Sess[i]
		racing = racing || len(q.Ends) > 1 || q.Tail+q.Emit > 0
		for _, end := range q.Ends {
			if !pe.onWS && (end == "drop" || end == "closeframe" || end == "garbage") || pe.onWS && (strings.HasPrefix(end, "midupgrade") || end == "badpost") {
				end = "closepkt"
			}
			end := end
			switch end {
			case "closepkt":
				run(func() { pe.sendPkts([]wire.Pkt{{Type: wire.EClose}}) })
			case "closedata":
				run(func() { pe.sendPkts([]wire.Pkt{{Type: wire.EClose, Data: []byte("bye")}}) })
			case "app":
				run(func() { pe.e.Sock.Close() })
			case "app2":
				run(func() { pe.e.Sock.Close() })
				run(func() { pe.e.Sock.Close(); pe.e.Sock.Close() })
			case "drop":
				run(func() { pe.ws.Close() })
			case "closeframe":
				run(func() { pe.ws.CloseFrame() })
			case "garbage":
				run(func() { pe.ws.Cli.Write([]byte{0x83, 0x80, 1, 2, 3, 4}) })
			case "inmsg":
				inside = true
				run(func() { pe.sendPkts([]wire.Pkt{{Type: wire.EMessage, Data: []byte("close")}}) })
			case "badpost": // a message and a close packet in one body
				run(func() {
					pe.sendPkts([]wire.Pkt{{Type: wire.EMessage, Data: []byte("x")}, {Type: wire.EClose}, {Type: wire.EMessage, Data: []byte("y")}})
				})
			case "midupgrade", "midupgrade-app":
				inside = true
				run(func() {
					k := &sioCli{link: pe.link}
					ws := k.halfUpgrade(q.St)
					for t0 := time.Now(); time.Since(t0) < time.Duration(q.Lag)*10; {
					}
					if end == "midupgrade-app" {
						pe.e.Sock.Close()
						return
					}
					pe.sendPkts([]wire.Pkt{{Type: wire.EClose}})
					if ws != nil && q.St >= 3 {
						ws.Send(wire.Pkt{Type: wire.EClose})
					} else if ws != nil {
						time.Sleep(20 * time.Microsecond)
						ws.Close()
					}
				})
			}
		}
		if q.Tail > 0 {
			run(func() {
				for j := 0; j < q.Tail; j++ {
					pe.sendPkts([]wire.Pkt{{Type: wire.EMessage, Data: []byte(fmt.Sprint("t", j))}})
				}
			})
		}
		if q.Emit > 0 {
			run(func() {
				for j := 0; j < q.Emit; j++ {
					pe.e.emit(Blob{Lit: []byte(fmt.Sprint("e", j))})
				}
			})
		}
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	finished := func() bool {
		select {
		case <-fin:
			return true
		default:
			return false
		}
	}
	c.Reaches(func() bool {
		for _, pe := range ps {
			if !pe.e.Closed() {
				return false
			}
		}
		return finished()
	})
	c.Quiet()
	for i, pe := range ps {
		if !finished() {
			c.Failf("endings of the sessions hang: %v", p.Sess)
		}
		for j := 0; j < 12; j++ {
			if err := pe.e.emit(Blob{Lit: []byte("late")}); err == nil {
				c.Failf("session %d has ended (%v), but an emit returned no error", i, p.Sess[i].Ends)
			}
		}
		pe.e.Sock.Close()
	}
	c.Quiet()
	for i, pe := range ps {
		o, n, u := pe.e.counts()
		pe.e.mu.Lock()
		after := pe.e.AfterClose
		pe.e.mu.Unlock()
		if o != 1 || n != 1 || after != 0 || u > 1 {
			c.Failf("session %d (endings %v): open callback ran %d times, close callback %d times, %d messages after it, %d upgrades", i, p.Sess[i].Ends, o, n, after, u)
		}
	}
	c.NonTrivialIf(racing || inside)
	c.LabelIf(racing, "racing endings or traffic")
	c.LabelIf(inside, "end inside a callback or an upgrade")
}

// ---- expiry

type c09Exp struct {
	Msgp     bool   `json:"msgp,omitempty"`
	WS       bool   `json:"ws,omitempty"`
	Up       bool   `json:"up,omitempty"`
	Interval int    `json:"interval_ms"`
	Timeout  int    `json:"timeout_ms"`
	Join     []int  `json:"join"`
	Leave    []int  `json:"leave"`
	Gaps     []int  `json:"gaps_pm"` // of pings, in thousandths of the period
	End      string `json:"end"`     // what else happens about when the session expires
	Off      int    `json:"off_ms"`  // and when, relative to the expiry
}

func init() {
	kit.Add("C09", "expiry", "namespaces were joined and another ending falls near the expiry, or one was left", 3000, 60000, func(t *rapid.T) c09Exp {
		p := c09Exp{Msgp: rapid.Bool().Draw(t, "msgp"), WS: rapid.Bool().Draw(t, "ws"), Interval: rapid.IntRange(50, 5000).Draw(t, "interval"), Timeout: rapid.IntRange(50, 5000).Draw(t, "timeout"),
			Join: rapid.SliceOfN(rapid.IntRange(1, 2), 0, 3).Draw(t, "join"), Leave: rapid.SliceOfN(rapid.IntRange(1, 2), 0, 1).Draw(t, "leave"),
			Gaps: rapid.SliceOfN(rapid.IntRange(0, 990), 0, 4).Draw(t, "gaps"),
			End:  rapid.SampledFrom([]string{"", "", "app", "closepkt", "server"}).Draw(t, "end"), Off: rapid.IntRange(-2, 2).Draw(t, "off")}
		p.Up = !p.WS && rapid.Bool().Draw(t, "up")
		return p
	}, runC09Exp).OnVirtualTime()
}

func runC09Exp(c *kit.C, p c09Exp) {
	ms := time.Millisecond
	s := newSioSrv(c, p.Msgp, time.Duration(p.Interval)*ms, time.Duration(p.Timeout)*ms)
	for _, n := range c09NSPs[:3] {
		s.nsp(n)
	}
	s.OnDisconnect = func(e *sioSess, so socketio.Socket) {
		if err := so.Emit("bye", 1); err == nil {
			c.Errorf("an emit in the disconnect handler of %s returned no error", so.Namespace())
		}
	}
	k := newSioCli(c, s.S, p.Msgp, p.WS, "10.0.0.1:1", nil, sim.XHR2)
	e := s.sess(k.sid)
	s.join(k, "/")
	joined := map[string]bool{"/": true}
	want := []string{"connect /"}
	for _, i := range p.Join {
		n := c09NSPs[i]
		if !joined[n] {
			want = append(want, "connect "+n)
		}
		joined[n] = true
		k.send(SP{Type: wire.SConnect, NSP: n})
	}
	for _, i := range p.Leave {
		n := c09NSPs[i]
		if joined[n] {
			want = append(want, "disconnect "+n)
		}
		delete(joined, n)
		k.send(SP{Type: wire.SDisconnect, NSP: n})
	}
	c.Quiet()
	if p.Up {
		k.upgrade(nil)
		c.Quiet()
	}
	period := time.Duration(p.Interval+p.Timeout) * ms
	last := time.Now()
	for _, g := range p.Gaps {
		time.Sleep(period * time.Duration(g) / 1000)
		k.raw(wire.Pkt{Type: wire.EPing})
		last = time.Now()
		c.Quiet()
	}
	if err := sameNotes(strs(noErrors(e.entries())), want); err != nil {
		c.Failf("handlers while the client is alive: %v", err)
	}
	k.lenient()
	so := e.socket("/")
	at := last.Add(period)
	ending := func() {
		switch p.End {
		case "app":
			go so.Close()
		case "closepkt":
			k.raw(wire.Pkt{Type: wire.EClose})
		case "server":
			s.S.Close()
		}
	}
	time.Sleep(time.Until(at.Add(time.Duration(p.Off) * ms)))
	ending()
	time.Sleep(time.Until(at.Add(3 * ms)))
	if p.End == "app" {
		time.Sleep(period) // the close waits for messages on their way
	}
	c.Quiet()
	log := noErrors(e.entries())
	if err := grammar(log, true); err != nil {
		c.Failf("handlers after the session expired (with %q %d ms after it): %v: %v", p.End, p.Off, err, strs(log))
	}
	if len(log) != len(want)+len(joined) {
		c.Failf("handlers after the session expired: %v, want %v and a disconnect for each of %v", strs(log), want, joined)
	}
	for _, n := range c09NSPs {
		if x := e.socket(n); x != nil {
			if err := x.Emit("late"); err == nil {
				c.Failf("emit to %s after the session expired returned no error", n)
			}
		}
	}
	time.Sleep(3 * period)
	c.Quiet()
	if n := len(noErrors(e.entries())); n != len(log) {
		c.Failf("handlers ran long after the session expired: %v", strs(e.entries()))
	}
	c.NonTrivialIf(len(joined) > 1 && (p.End != "" || len(p.Leave) > 0))
	c.LabelIf(p.Up, "upgraded")
	c.LabelIf(p.End != "", "with another ending")
}
