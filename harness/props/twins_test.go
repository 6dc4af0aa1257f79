package props

import (
	"fmt"
	"net/http"
	"sync"
	"time"

	socketio "github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- several servers in one process ----

// C04: each with its own intervals and origin checkers

type c04Twin struct {
	Interval int         `json:"interval_ms"`
	Timeout  int         `json:"timeout_ms"`
	Checkers []originSet `json:"checkers"`
}

type c04TwinReq struct {
	S      int     `json:"server"`
	WS     bool    `json:"ws,omitempty"`
	Origin int     `json:"origin"`
	Sid    int     `json:"sid,omitempty"` // 1: that of the last session of another server
	Enc    sim.Enc `json:"enc,omitempty"`
}

type c04TwinPlan struct {
	Servers []c04Twin    `json:"servers"`
	Late    int          `json:"late"` // servers created only after that many requests: the last one
	Reqs    []c04TwinReq `json:"reqs"`
}

var c04Origins = []string{okOrigin, "", "http://other.example", "http://third.example"}

func genC04Twins(t *rapid.T) c04TwinPlan {
	var p c04TwinPlan
	for i, n := 0, rapid.IntRange(2, 3).Draw(t, "servers"); i < n; i++ {
		x := c04Twin{Interval: rapid.IntRange(30000, 9000000).Draw(t, "interval"), Timeout: rapid.IntRange(30000, 9000000).Draw(t, "timeout")}
		for j, m := 0, rapid.IntRange(0, 2).Draw(t, "checkers"); j < m; j++ {
			var o originSet
			for _, a := range c04Origins {
				if rapid.Bool().Draw(t, "accept") {
					o = append(o, a)
				}
			}
			if o == nil {
				o = originSet{"http://nobody.example"}
			}
			x.Checkers = append(x.Checkers, o)
		}
		p.Servers = append(p.Servers, x)
	}
	for i, n := 0, rapid.IntRange(2, 10).Draw(t, "reqs"); i < n; i++ {
		p.Reqs = append(p.Reqs, c04TwinReq{S: rapid.IntRange(0, len(p.Servers)-1).Draw(t, "s"), WS: rapid.Bool().Draw(t, "ws"), Origin: rapid.IntRange(0, len(c04Origins)-1).Draw(t, "origin"),
			Sid: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "sid"), Enc: sim.Enc(rapid.IntRange(0, 2).Draw(t, "enc"))})
	}
	p.Late = rapid.IntRange(0, len(p.Reqs)).Draw(t, "late")
	return p
}

func runC04Twins(c *kit.C, p c04TwinPlan) {
	srv := make([]*engSrv, len(p.Servers))
	start := func(i int) {
		x := p.Servers[i]
		var oc []engine.OriginChecker
		for _, o := range x.Checkers {
			oc = append(oc, o)
		}
		srv[i] = newEngSrv(c, time.Duration(x.Interval)*time.Millisecond, time.Duration(x.Timeout)*time.Millisecond, oc...)
	}
	for i := range srv[1:] {
		start(i)
	}
	opened := make([]int, len(srv))
	last := make([]string, len(srv))
	sids := map[string]bool{}
	yes, no := 0, 0
	for i, r := range p.Reqs {
		if i == p.Late {
			start(len(srv) - 1)
		}
		s := srv[r.S]
		if s == nil {
			continue
		}
		x := p.Servers[r.S]
		origin := c04Origins[r.Origin]
		valid := c04Req{EIO: "3", Tr: "polling", Origin: origin}.valid(x.Checkers)
		q := "EIO=3&transport=polling"
		if r.WS {
			q = "EIO=3&transport=websocket"
		}
		if r.Sid == 1 {
			other := last[(r.S+1)%len(srv)]
			if other == "" {
				continue
			}
			q += "&sid=" + other
			valid = false
		}
		if valid {
			yes++
		} else {
			no++
		}
		hdr := http.Header{}
		if origin != "" {
			hdr.Set("Origin", origin)
		}
		addr := fmt.Sprintf("10.1.%d.1:1000", i)
		var code int
		var open []wire.Pkt
		if r.WS {
			w := sim.DialWS(s.S, q, addr, hdr, nil)
			c.Defer(w.Close)
			c.Await(w.HSDone, "answer to %s", q)
			if call := w.Call(); call != nil {
				noPanic(c, call)
			}
			if code = w.Status(); valid {
				c.Await(func() bool { return w.N() > 0 || w.Ended() != nil }, "open packet on %s", q)
				open, _ = w.Got()
			}
		} else {
			call := sim.Do(s.S, sim.Req("GET", q+r.Enc.Query("0"), addr, hdr, nil))
			c.Defer(call.Abort)
			c.Await(call.Done, "answer to %s", q)
			noPanic(c, call)
			if code, _, _ = call.Result(); valid {
				var err error
				if open, err = sim.DecodePoll(call, r.Enc, "0"); err != nil {
					c.Failf("request %d to server %d (origin %q): %v", i, r.S, origin, err)
				}
			}
		}
		if !valid {
			if code < 400 || code > 499 {
				c.Failf("request %d, %s, to server %d (origin %q) answered with status %d, want 4xx", i, q, r.S, origin, code)
			}
			continue
		}
		opened[r.S]++
		if len(open) == 0 {
			c.Failf("request %d to server %d (origin %q) is not answered with an open packet (status %d)", i, r.S, origin, code)
		}
		sid, _, in, to, err := sim.ParseOpen(open[0])
		if err != nil || in != x.Interval || to != x.Timeout {
			c.Failf("server %d announces interval %d and timeout %d, configured %d and %d (%v)", r.S, in, to, x.Interval, x.Timeout, err)
		}
		if sids[sid] {
			c.Failf("session id %s was handed out before", sid)
		}
		sids[sid] = true
		last[r.S] = sid
	}
	c.NonTrivialIf(yes > 0 && no > 0)
	c.Quiet()
	for i, s := range srv {
		if s == nil {
			continue
		}
		n := 0
		for _, e := range s.sessions() {
			o, cl, _ := e.counts()
			if n += o; cl > 0 {
				c.Failf("session %s of server %d was closed", e.Sid, i)
			}
		}
		if n != opened[i] {
			c.Failf("server %d opened %d sessions for %d valid requests", i, n, opened[i])
		}
	}
}

// C16: each with its own namespaces and handlers

type c16Twin struct {
	Msgp bool    `json:"msgp,omitempty"`
	Has  [3]bool `json:"has"`
	Ev   [4]int  `json:"ev"` // per namespace, root last: no handler, one, another name
}

type c16TwinPlan struct {
	Servers []c16Twin `json:"servers"`
	Cli     []int     `json:"clients"` // server of each
	WS      []bool    `json:"ws"`
	Ops     [][3]int  `json:"ops"` // kind, client, namespace
}

var c16TwinNSPs = []string{"/a", "/b", "/c", "/"}

func genC16Twins(t *rapid.T) c16TwinPlan {
	var p c16TwinPlan
	for i, n := 0, rapid.IntRange(2, 3).Draw(t, "servers"); i < n; i++ {
		x := c16Twin{Msgp: rapid.Bool().Draw(t, "msgp")}
		for j := range x.Has {
			x.Has[j] = rapid.Bool().Draw(t, "has")
		}
		for j := range x.Ev {
			x.Ev[j] = rapid.IntRange(0, 2).Draw(t, "ev")
		}
		p.Servers = append(p.Servers, x)
		p.Cli = append(p.Cli, i)
		p.WS = append(p.WS, rapid.Bool().Draw(t, "ws"))
	}
	if rapid.Bool().Draw(t, "one more") {
		p.Cli = append(p.Cli, 0)
		p.WS = append(p.WS, rapid.Bool().Draw(t, "ws"))
	}
	for i, n := 0, rapid.IntRange(2, 20).Draw(t, "ops"); i < n; i++ {
		p.Ops = append(p.Ops, [3]int{rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2}).Draw(t, "k"), rapid.IntRange(0, len(p.Cli)-1).Draw(t, "c"), rapid.IntRange(0, 3).Draw(t, "n")})
	}
	return p
}

func runC16Twins(c *kit.C, p c16TwinPlan) {
	srv := make([]*sioSrv, len(p.Servers))
	var mu sync.Mutex
	for i, x := range p.Servers {
		s := newSioSrv(c, x.Msgp, long, long)
		srv[i] = s
		for j, n := range c16TwinNSPs {
			n, i := n, i
			if n != "/" && !x.Has[j] {
				continue
			}
			s.nsp(n)
			if x.Ev[j] > 0 {
				s.S.Namespace(n).OnEvent([]string{"", "e", "f"}[x.Ev[j]], func(so socketio.Socket, tag int) {
					mu.Lock()
					defer mu.Unlock()
					s.add(so, n, "event", "", fmt.Sprint(tag))
					if err := so.Emit("r", tag, i); err != nil {
						c.Errorf("emit in a handler of server %d: %v", i, err)
					}
				})
			}
		}
	}
	type client struct {
		*sioCli
		s      int
		e      *sioSess
		joined map[string]bool
		want   []string
		log    []string
	}
	cli := make([]*client, len(p.Cli))
	for i, si := range p.Cli {
		k := &client{sioCli: newSioCli(c, srv[si].S, p.Servers[si].Msgp, p.WS[i], fmt.Sprintf("10.0.0.%d:1", i+1), nil, sim.XHR2), s: si, joined: map[string]bool{"/": true}}
		srv[si].join(k.sioCli, "/")
		k.e = srv[si].sess(k.sid)
		k.want = []string{SP{Type: wire.SConnect, NSP: "/"}.key()}
		k.log = []string{"connect /"}
		cli[i] = k
	}
	foreign := 0
	for oi, o := range p.Ops {
		k, n := cli[o[1]], c16TwinNSPs[o[2]]
		x := p.Servers[k.s]
		has := n == "/" || x.Has[o[2]]
		for i, y := range p.Servers { // what another server would do differently
			if i != k.s && (n != "/" && y.Has[o[2]] != has || y.Ev[o[2]] != x.Ev[o[2]]) {
				foreign++
			}
		}
		switch o[0] {
		case 0:
			if !has || k.joined[n] {
				continue
			}
			k.send(SP{Type: wire.SConnect, NSP: n})
			k.joined[n] = true
			k.want = append(k.want, SP{Type: wire.SConnect, NSP: n}.key())
			k.log = append(k.log, "connect "+n)
		case 1:
			k.send(evPkt(n, "e", intVal(int64(oi))))
			if !has {
				k.want = append(k.want, "error "+n)
			} else if k.joined[n] && x.Ev[o[2]] == 1 {
				k.want = append(k.want, evPkt(n, "r", intVal(int64(oi)), intVal(int64(k.s))).key())
				k.log = append(k.log, fmt.Sprint("event ", n, oi))
			}
		case 2:
			if n == "/" || !k.joined[n] {
				continue
			}
			k.send(SP{Type: wire.SDisconnect, NSP: n})
			delete(k.joined, n)
			k.log = append(k.log, "disconnect "+n)
		}
	}
	c.NonTrivialIf(foreign > 0)
	c.Reaches(func() bool {
		for _, k := range cli {
			if len(k.recv()) < len(k.want) || len(k.e.entries()) < len(k.log) {
				return false
			}
		}
		return true
	})
	c.Quiet()
	for i, k := range cli {
		var got, log []string
		for _, q := range k.recv() {
			if q.Type == wire.SError {
				got = append(got, "error "+q.NSP)
			} else {
				got = append(got, q.key())
			}
		}
		if err := sameNotes(got, k.want); err != nil {
			c.Failf("packets of client %d (server %d): %v", i, k.s, err)
		}
		for _, e := range k.e.entries() {
			s := e.Kind + " " + e.NSP
			if e.Kind == "event" {
				s += e.Args
			}
			log = append(log, s)
		}
		if err := sameNotes(log, k.log); err != nil {
			c.Failf("handlers for client %d (server %d): %v", i, k.s, err)
		}
	}
	for i, s := range srv {
		n := 0
		for _, si := range p.Cli {
			if si == i {
				n++
			}
		}
		s.mu.Lock()
		m := len(s.bySid)
		s.mu.Unlock()
		if m != n {
			c.Failf("%d sessions at server %d, which has %d clients", m, i, n)
		}
	}
}

func init() {
	kit.Add("C04", "twins", "2-3 servers with intervals and origin checkers of their own; non-trivial: both valid and invalid requests among them", 6000, 80000, genC04Twins, runC04Twins)
	kit.Add("C16", "twins", "2-3 servers with namespaces, handlers and parsers of their own; non-trivial: a packet that another of the servers would treat otherwise", 4000, 60000, genC16Twins, runC16Twins)
}
