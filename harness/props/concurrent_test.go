package props

import (
	"fmt"
	"strings"

	socketio "github.com/zyxar/socketio"
	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// c17Emit is one packet: Bins attachments of Size bytes.
type c17Emit struct {
	NSP  string `json:"nsp"`
	Bins int    `json:"bins,omitempty"`
	Size int    `json:"size,omitempty"`
	CB   bool   `json:"cb,omitempty"`
	Err  bool   `json:"err,omitempty"` // EmitError
}

type c17In struct {
	K   string `json:"k"` // ev, evbin, ping, unknown
	NSP string `json:"nsp,omitempty"`
}

type c17Plan struct {
	Msgp    bool        `json:"msgp,omitempty"`
	WS      bool        `json:"ws,omitempty"`
	Enc     sim.Enc     `json:"enc,omitempty"`
	Upgrade bool        `json:"upgrade,omitempty"`
	Stall   bool        `json:"stall,omitempty"`
	G       [][]c17Emit `json:"g"`
	In      []c17In     `json:"in"`
}

func init() {
	kit.Add("C17", "emits", "at least two goroutines emit packets with attachments", 12000, 120000, func(t *rapid.T) c17Plan {
		p := c17Plan{Msgp: rapid.IntRange(0, 4).Draw(t, "msgp") == 0, WS: rapid.IntRange(0, 2).Draw(t, "ws") > 0, Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, "enc")), Stall: rapid.Bool().Draw(t, "stall")}
		p.Upgrade = !p.WS && rapid.Bool().Draw(t, "upgrade")
		for g, n := 0, rapid.IntRange(1, 6).Draw(t, "g"); g < n; g++ {
			var es []c17Emit
			for i, m := 0, rapid.IntRange(1, 8).Draw(t, "m"); i < m; i++ {
				es = append(es, c17Emit{NSP: rapid.SampledFrom([]string{"/", "/a"}).Draw(t, "nsp"), Bins: rapid.IntRange(0, 4).Draw(t, "bins"), Size: rapid.SampledFrom([]int{0, 1, 100, 5000}).Draw(t, "size"),
					CB: rapid.IntRange(0, 3).Draw(t, "cb") == 0, Err: rapid.IntRange(0, 9).Draw(t, "err") == 0})
			}
			p.G = append(p.G, es)
		}
		for i, n := 0, rapid.IntRange(0, 8).Draw(t, "nin"); i < n; i++ {
			p.In = append(p.In, c17In{K: rapid.SampledFrom([]string{"ev", "evbin", "evbin", "ping", "unknown"}).Draw(t, "k"), NSP: rapid.SampledFrom([]string{"/", "/a"}).Draw(t, "insp")})
		}
		return p
	}, runC17).Repeat(2)
}

func runC17(c *kit.C, p c17Plan) {
	s := newSioSrv(c, p.Msgp, long, long)
	bin := func(g, i, j, size int) []byte {
		return []byte(fmt.Sprintf("%d.%d.%d", g, i, j) + strings.Repeat("z", size))
	}
	for _, n := range []string{"/", "/a"} {
		s.nsp(n)
		s.S.Namespace(n).OnEvent("ev", func(i int) int { return i })
		s.S.Namespace(n).OnEvent("evbin", func(i int) (interface{}, int, interface{}) {
			a, b := bin(i, -1, 0, 10), bin(i, -1, 1, 10)
			if p.Msgp {
				return a, i, b
			}
			return &socketio.Bytes{Data: a}, i, &socketio.Bytes{Data: b}
		})
	}
	k := newSioCli(c, s.S, p.Msgp, p.WS, "10.0.0.1:1", nil, p.Enc)
	s.join(k, "/")
	s.join(k, "/a")
	e := s.sess(k.sid)
	if p.Stall && p.WS {
		k.ws.Srv.StallWrites(true)
	} else if p.Stall {
		k.poll.Hold()
	}
	pings := 0
	var wantAcks []string
	unknown := 0
	for i, in := range p.In {
		q := evPkt(in.NSP, in.K, intVal(int64(i))).withID(uint64(i))
		switch in.K {
		case "ping":
			pings++
			k.raw(wire.Pkt{Type: wire.EPing, Data: []byte(fmt.Sprint("p", i))})
			continue
		case "unknown":
			unknown++
			q.NSP = "/nowhere"
			q.Args[0] = "x"
		case "ev":
			wantAcks = append(wantAcks, ackPkt(in.NSP, uint64(i), intVal(int64(i))).key())
		case "evbin":
			wantAcks = append(wantAcks, ackPkt(in.NSP, uint64(i), Val{K: "bin", X: bin(i, -1, 0, 10)}, intVal(int64(i)), Val{K: "bin", X: bin(i, -1, 1, 10)}).key())
		}
		k.send(q)
	}
	want := make([][]string, len(p.G))
	total := 0
	done := make(chan int, len(p.G))
	withBins := 0
	for g, es := range p.G {
		for i, m := range es {
			if m.Err {
				want[g] = append(want[g], fmt.Sprintf("error %s %d.%d", m.NSP, g, i))
				continue
			}
			vals := []Val{strVal(fmt.Sprintf("%d.%d", g, i))}
			for j := 0; j < m.Bins; j++ {
				vals = append(vals, Val{K: "bin", X: bin(g, i, j, m.Size)})
			}
			want[g] = append(want[g], evPkt(m.NSP, "out", vals...).key())
		}
		for _, m := range es {
			if m.Bins > 0 {
				withBins++
				break
			}
		}
		total += len(es)
	}
	start := make(chan struct{})
	for g, es := range p.G {
		g, es := g, es
		go func() {
			<-start
			defer func() { done <- g }()
			for i, m := range es {
				so := e.socket(m.NSP)
				if m.Err {
					if err := so.EmitError(fmt.Sprintf("%d.%d", g, i)); err != nil {
						c.Errorf("EmitError: %v", err)
					}
					continue
				}
				args := []interface{}{fmt.Sprintf("%d.%d", g, i)}
				for j := 0; j < m.Bins; j++ {
					b := bin(g, i, j, m.Size)
					if p.Msgp {
						args = append(args, b)
					} else {
						args = append(args, &socketio.Bytes{Data: b})
					}
				}
				if m.CB {
					args = append(args, func() {})
				}
				if err := so.Emit("out", args...); err != nil {
					c.Errorf("emit: %v", err)
				}
			}
		}()
	}
	close(start)
	if p.Stall && p.WS {
		c.Quiet()
		k.ws.Srv.StallWrites(false)
	} else if p.Stall {
		c.Quiet()
		k.poll.Allow(-1)
	}
	if p.Upgrade {
		k.upgrade(nil)
	}
	expect := 2 + total + len(wantAcks) + unknown
	c.Reaches(func() bool { return len(done) == len(p.G) && len(k.recv()) >= expect && k.w.idle() })
	c.Quiet()
	got := make([][]string, len(p.G))
	var acks []string
	errs := 0
	for _, q := range k.recv() {
		var g, i int
		switch q.Type {
		case wire.SAck:
			acks = append(acks, q.key())
		case wire.SEvent:
			q.ID = nil
			tag, _ := (append(q.Args, nil, nil))[1].(string)
			if n, _ := fmt.Sscanf(tag, "%d.%d", &g, &i); n != 2 || g >= len(got) {
				c.Failf("client received %s, which nobody emitted", q)
			}
			got[g] = append(got[g], q.key())
		case wire.SError:
			if q.NSP == "/nowhere" {
				errs++
				continue
			}
			tag, _ := q.Data.(string)
			if n, _ := fmt.Sscanf(tag, "%d.%d", &g, &i); n != 2 || g >= len(got) {
				c.Failf("client received %s, which nobody emitted", q)
			}
			got[g] = append(got[g], fmt.Sprintf("error %s %d.%d", q.NSP, g, i))
		}
	}
	for g := range want {
		if err := sameNotes(got[g], want[g]); err != nil {
			c.Failf("emits of goroutine %d: %v", g, err)
		}
	}
	if err := sameNotes(acks, wantAcks); err != nil {
		c.Failf("acks: %v", err)
	}
	if errs != unknown {
		c.Failf("%d error packets for %d events of an unknown namespace", errs, unknown)
	}
	pongs := 0
	for _, q := range k.all() {
		if q.Type == wire.EPong && string(q.Data) != "probe" {
			pongs++
		}
	}
	if pongs != pings {
		c.Failf("%d pings, %d pongs", pings, pongs)
	}
	c.NonTrivialIf(withBins > 1)
	c.LabelIf(p.Stall, "stalled writer")
	c.LabelIf(p.Upgrade, "during an upgrade")
	c.LabelIf(p.WS, "websocket")
	c.LabelIf(len(wantAcks) > 0, "library acks")
}
