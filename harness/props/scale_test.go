package props

import (
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// Facets that repeat other facets' checks at sizes and numbers far from the usual ones.

// genHuge draws content of about one to some twenty megabytes, around the sizes that limits
// tend to have.
func genHuge(t *rapid.T, label string) Blob {
	return Blob{Bin: rapid.Bool().Draw(t, label+".bin"), Seed: uint32(rapid.IntRange(0, 1<<16).Draw(t, label+".seed")),
		N: rapid.SampledFrom([]int{1 << 20, 1000000, 1 << 20, 1 << 19, 1 << 18, 2000000, 1 << 21, 3 << 20, 4 << 20, 5000000, 8 << 20, 10000000, 10 << 20, 1 << 24, 20000000}).Draw(t, label+".base") +
			rapid.IntRange(-6, 70).Draw(t, label+".off")}
}

// genCrowd draws many small packets.
func genCrowd(t *rapid.T, label string) []postPkt {
	n := rapid.SampledFrom([]int{64, 65, 100, 128, 129, 200, 255, 256, 257, 300, 500, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 3000}).Draw(t, label+".n")
	sd := rapid.IntRange(0, 1<<16).Draw(t, label+".seed")
	out := make([]postPkt, n)
	for i := range out {
		out[i] = postPkt{Type: wire.EMessage, Blob: Blob{Bin: (sd>>(i%11))&1 == 1, Lit: []byte(fmt.Sprintf("%d/%d", sd, i))}}
		if (sd+i)%97 == 0 {
			out[i].Type = []byte{wire.EPing, wire.EPong, wire.ENoop}[i%3]
		}
	}
	return out
}

type c05Big struct {
	WS   bool    `json:"ws"`
	Enc  sim.Enc `json:"enc"`
	Up   []Blob  `json:"up"`
	Down []Blob  `json:"down"`
	Frag []int   `json:"frag,omitempty"`
	Read int     `json:"read,omitempty"`
}

func init() {
	kit.Add("C01", "large", "every body: it holds megabytes or scores to thousands of packets", 320, 4000,
		func(t *rapid.T) c01Plan {
			var p c01Plan
			r := postReq{Bin: rapid.Bool().Draw(t, "enc"), CT: rapid.IntRange(0, 5).Draw(t, "ct")}
			if rapid.Bool().Draw(t, "crowd") {
				r.Pkts = genCrowd(t, "c")
			} else {
				r.Pkts = append(r.Pkts, postPkt{Type: wire.EMessage, Blob: genHuge(t, "h")})
				if rapid.Bool().Draw(t, "more") {
					r.Pkts = append(r.Pkts, postPkt{Type: wire.EMessage, Blob: genSmall(t, "s")})
				}
			}
			if rapid.Bool().Draw(t, "split") {
				r.Chunks = rapid.SliceOfN(rapid.SampledFrom([]int{1000, 1460, 4096, 32768, 65536}), 1, 3).Draw(t, "chunks")
			}
			p.Posts = append(p.Posts, r)
			return p
		}, func(c *kit.C, p c01Plan) { c.NonTrivial(); runC01(c, p) })

	kit.Add("C02", "large", "every case: megabytes or scores to thousands of messages", 240, 4000,
		func(t *rapid.T) c02Plan {
			gp := func(l string) c02Poll {
				return c02Poll{Enc: sim.Enc(rapid.IntRange(0, 2).Draw(t, l+".enc")), J: rapid.SampledFrom([]int{0, 7, 12, 99999}).Draw(t, l+".j")}
			}
			p := c02Plan{HS: gp("hs")}
			if rapid.Bool().Draw(t, "crowd") {
				for _, k := range genCrowd(t, "c") {
					p.Msgs = append(p.Msgs, c02Msg{Blob: k.Blob})
				}
			} else {
				p.Msgs = append(p.Msgs, c02Msg{Blob: genHuge(t, "h"), Via: rapid.IntRange(0, 2).Draw(t, "via")}, c02Msg{Blob: genSmall(t, "s")})
			}
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "polls"); i < n; i++ {
				p.Polls = append(p.Polls, gp(fmt.Sprint("p", i)))
			}
			return p
		}, func(c *kit.C, p c02Plan) { c.NonTrivial(); runC02(c, p) })

	kit.Add("C05", "large", "every case: megabytes or scores to thousands of messages", 320, 4000,
		func(t *rapid.T) c05Big {
			p := c05Big{WS: rapid.Bool().Draw(t, "ws"), Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, "enc"))}
			gen := func(l string) (out []Blob) {
				switch rapid.IntRange(0, 2).Draw(t, l) {
				case 0:
					for _, k := range genCrowd(t, l) {
						out = append(out, k.Blob)
					}
				case 1:
					out = append(out, genHuge(t, l), genSmall(t, l+".s"))
				default:
					out = append(out, genSmall(t, l+".s"))
				}
				return
			}
			p.Up, p.Down = gen("up"), gen("down")
			if p.WS {
				p.Frag, p.Read = genFrag(t)
				if p.Read > 0 && p.Read < 1000 {
					p.Read = 1460
				}
				for i, f := range p.Frag {
					if f > 3 && f < 1000 { // keep the number of frames sane
						p.Frag[i] = 5000
					}
				}
			}
			return p
		},
		func(c *kit.C, p c05Big) {
			s := newEngSrv(c, long, long)
			s.keep = true
			pe := newPeer(c, s, p.WS, "10.0.0.1:1", nil, p.Enc)
			if p.WS {
				pe.ws.Frag(p.Frag)
				pe.ws.Srv.MaxRead(p.Read)
			} else {
				pe.poll.Run(-1)
			}
			c.NonTrivialIf(len(p.Up) > 60 || len(p.Down) > 60 || p.Up[0].N > 1<<17 || p.Down[0].N > 1<<17)
			c.LabelIf(p.WS, "websocket")
			pe.send(p.Up, 0)
			pe.emit(p.Down)
			pe.exchange("at the end")
		})

	kit.Add("C04", "ids", "hundreds of sessions opened at the same instant", 800, 8000,
		func(t *rapid.T) c04IDs {
			iv := []int{1, 2, 3, 7, 20, 100, 999, 1000, 1001, 25000, 60000, 86400000, 2147483647, 2147483648}
			return c04IDs{N: rapid.SampledFrom([]int{2, 40, 300, 600, 1000, 1500, 2500}).Draw(t, "n"), Lanes: rapid.IntRange(1, 12).Draw(t, "lanes"), WS: rapid.IntRange(0, 5).Draw(t, "ws"), End: rapid.IntRange(0, 3).Draw(t, "end"),
				Interval: rapid.SampledFrom(iv).Draw(t, "interval"), Timeout: rapid.SampledFrom(iv).Draw(t, "timeout")}
		}, runC04IDs).OnVirtualTime()

	kit.Add("C10", "crowd", "scores of clients, some of them stalled", 160, 2500, func(t *rapid.T) c10Plan {
		n := rapid.SampledFrom([]int{20, 33, 40, 65, 70, 100, 130, 257}).Draw(t, "clients")
		p := c10Plan{Msgp: rapid.IntRange(0, 3).Draw(t, "msgp") == 0}
		sd := rapid.Uint32().Draw(t, "seed")
		next := func(n int) int {
			sd ^= sd << 13
			sd ^= sd >> 17
			sd ^= sd << 5
			return int(sd>>5) % n
		}
		if sd == 0 {
			sd = 1
		}
		every := rapid.SampledFrom([]int{2, 3, 5, 12}).Draw(t, "every")
		for i := 0; i < n; i++ {
			k := c10Cli{WS: next(2) == 0, Enc: sim.Enc(next(3)), Late: next(2) == 0}
			if i > 0 && next(every) == 0 {
				k.Stall, k.Emits, k.Late = c10Stalls[next(len(c10Stalls))], []int{0, 1, 8, 9, 30}[next(5)], false
			}
			p.Cli = append(p.Cli, k)
		}
		for i, m := 0, n+next(n); i < m; i++ {
			o := c10Op{K: []string{"ev", "ev", "ev", "emit", "emit", "join", "join", "leave", "upgrade"}[next(9)], C: next(n), N: next(2)}
			o.M = []int{1, 1, 3}[next(3)]
			p.Ops = append(p.Ops, o)
		}
		return p
	}, runC10)
}

type c04IDs struct {
	N        int `json:"n"`
	Lanes    int `json:"lanes"`
	WS       int `json:"ws"`  // of 10 sessions, those over WebSocket
	End      int `json:"end"` // of 10 sessions, those ended at once
	Interval int `json:"interval_ms"`
	Timeout  int `json:"timeout_ms"`
}

func runC04IDs(c *kit.C, p c04IDs) {
	ms := time.Millisecond
	s := newEngSrv(c, time.Duration(p.Interval)*ms, time.Duration(p.Timeout)*ms)
	var mu sync.Mutex
	seen := map[string]int{}
	var wg sync.WaitGroup
	lane := func(l int) {
		defer wg.Done()
		for i := l; i < p.N; i += p.Lanes {
			addr := fmt.Sprintf("10.0.%d.%d:1", i>>8, i&255)
			var k wire.Pkt
			if i%10 < p.WS {
				opened := make(chan wire.Pkt, 1)
				w := sim.DialWS(s.S, "EIO=3&transport=websocket", addr, nil, func(cli, srv *sim.Conn) {})
				w.OnPkt(func(k wire.Pkt) {
					select {
					case opened <- k:
					default:
					}
				})
				defer w.Close()
				if g, _ := w.Got(); len(g) > 0 {
					k = g[0]
				} else {
					k = <-opened
				}
				if (i/10)%10 < p.End {
					w.Send(wire.Pkt{Type: wire.EClose})
				}
			} else {
				q := sim.NewPoll(s.S, addr, nil, sim.XHR2)
				call := q.Get()
				<-call.DoneChan()
				pk, err := sim.DecodePoll(call, sim.XHR2, q.J)
				if err != nil || len(pk) == 0 {
					c.Errorf("handshake %d of %d: %v", i, p.N, err)
					return
				}
				k = pk[0]
				if sid, _, _, _, err := sim.ParseOpen(k); err == nil && (i/10)%10 < p.End {
					q.Sid = sid
					<-q.Post(wire.Pkt{Type: wire.EClose}).DoneChan()
				}
			}
			sid, _, in, to, err := sim.ParseOpen(k)
			if err != nil {
				c.Errorf("handshake %d: %v", i, err)
				return
			}
			if in != p.Interval || to != p.Timeout {
				c.Errorf("open packet announces interval %d and timeout %d, configured %d and %d", in, to, p.Interval, p.Timeout)
			}
			mu.Lock()
			if j, ok := seen[sid]; ok {
				c.Errorf("sessions %d and %d were both given the id %s", j, i, sid)
			}
			seen[sid] = i
			mu.Unlock()
		}
	}
	for l := 0; l < p.Lanes; l++ {
		wg.Add(1)
		go lane(l)
	}
	wg.Wait()
	c.Check()
	c.Await(func() bool { return len(s.sessions()) >= p.N }, "open callbacks of %d sessions", p.N)
	c.NonTrivialIf(p.N >= 300)
}

// genWide draws packets with many arguments or arguments of many elements.
func genWide(t *rapid.T, label string) PK {
	sizes := []int{0, 1, 2, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 120, 127, 128, 129, 255, 256, 257, 300, 999, 1000, 1025}
	p := PK{Type: rapid.SampledFrom([]int{wire.SEvent, wire.SEvent, wire.SAck}).Draw(t, label+".type"), NSP: rapid.SampledFrom(nspPool).Draw(t, label+".nsp"), ID: genID(t, label)}
	if p.Type == wire.SAck {
		id := rapid.SampledFrom(idPool).Draw(t, label+".ackid")
		p.ID = &id
	} else {
		p.Name = "e"
		if rapid.IntRange(0, 2).Draw(t, label+".longname") == 0 {
			p.Name = strings.Repeat("n", rapid.SampledFrom([]int{30, 31, 32, 33, 254, 255, 256, 65535, 65536, 70000}).Draw(t, label+".name"))
		}
	}
	if rapid.IntRange(0, 3).Draw(t, label+".longnsp") == 0 {
		p.NSP = "/" + strings.Repeat("p", rapid.SampledFrom([]int{30, 31, 32, 254, 255, 256, 4096, 65535, 65536}).Draw(t, label+".nsplen"))
	}
	n := rapid.SampledFrom(sizes).Draw(t, label+".nargs")
	bins := rapid.IntRange(0, 4).Draw(t, label+".bins")
	x := xrand(rapid.Uint32().Draw(t, label+".seed"))
	for i := 0; i < n; i++ {
		switch {
		case x.n(4) < bins:
			p.Args = append(p.Args, Val{K: "bin", X: []byte(fmt.Sprintf("\x00%d\xff", i))})
		case x.n(3) == 0:
			p.Args = append(p.Args, Val{K: "str", S: fmt.Sprintf("arg%d \"%d\"", i, x.n(100))})
		case x.n(9) == 0:
			p.Args = append(p.Args, Val{K: "nil"})
		default:
			p.Args = append(p.Args, Val{K: "int", I: int64(i)})
		}
	}
	for i, m := 0, rapid.IntRange(0, 2).Draw(t, label+".big"); i < m; i++ {
		v := Val{K: rapid.SampledFrom([]string{"long", "lbin", "wide", "wmap"}).Draw(t, label+".k"), B: rapid.Bool().Draw(t, label+".b")}
		v.I = int64(rapid.SampledFrom([]int{15, 16, 17, 31, 32, 33, 255, 256, 257, 1000, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 200000}).Draw(t, label+".i"))
		at := x.n(len(p.Args) + 1)
		p.Args = append(p.Args[:at:at], append([]Val{v}, p.Args[at:]...)...)
	}
	return p
}

func init() {
	gen := func(t *rapid.T) codecPlan {
		var p codecPlan
		for i, n := 0, rapid.IntRange(1, 2).Draw(t, "n"); i < n; i++ {
			p.Ps = append(p.Ps, c11Pkt{P: genWide(t, fmt.Sprint("p", i)), Own: rapid.Bool().Draw(t, "own"), Seed: uint32(rapid.IntRange(0, 1<<16).Draw(t, "seed"))})
		}
		return p
	}
	kit.Add("C11", "wide", "a packet has an argument, an id or a namespace; it may have a thousand arguments", 800, 12000, gen, func(c *kit.C, p codecPlan) { runCodec(c, p, false) })
	kit.Add("C12", "wide", "a packet has an argument, an id or a namespace; it may have a thousand arguments", 800, 12000, gen, func(c *kit.C, p codecPlan) { runCodec(c, p, true) })
}

type c15Many struct {
	Msgp bool   `json:"msgp,omitempty"`
	WS   bool   `json:"ws,omitempty"`
	NSPs int    `json:"nsps"`
	N    int    `json:"n"`
	Kept int    `json:"kept"`  // of a hundred emissions, those acknowledged only at the end
	Wave int    `json:"wave"`  // emissions before the others are acknowledged
	Ord  int    `json:"order"` // of acknowledgements: as emitted, backwards, mixed
	Seed uint32 `json:"seed"`
}

func init() {
	kit.Add("C15", "many", "over a hundred emissions of a session wait for their acknowledgements at once", 400, 6000, func(t *rapid.T) c15Many {
		n := []int{20, 120, 129, 257, 300, 300, 513, 1025, 2000}
		if rapid.IntRange(0, 49).Draw(t, "huge") == 49 {
			n = []int{33000, 66000}
		}
		p := c15Many{Msgp: rapid.Bool().Draw(t, "msgp"), WS: rapid.Bool().Draw(t, "ws"), NSPs: rapid.IntRange(1, 3).Draw(t, "nsps"), N: rapid.SampledFrom(n).Draw(t, "n"),
			Kept: rapid.SampledFrom([]int{100, 50, 3, 1}).Draw(t, "kept"), Ord: rapid.IntRange(0, 2).Draw(t, "order"), Seed: rapid.Uint32().Draw(t, "seed")}
		waves := []int{p.N, 50, 500}
		if p.N > 2000 {
			waves[1] = 5000
		}
		p.Wave = rapid.SampledFrom(waves).Draw(t, "wave")
		return p
	}, runC15Many)
}

func runC15Many(c *kit.C, p c15Many) {
	s := newSioSrv(c, p.Msgp, long, long)
	nsps := []string{"/", "/a", "/b"}[:p.NSPs]
	for _, n := range nsps {
		s.nsp(n)
	}
	k := newSioCli(c, s.S, p.Msgp, p.WS, "10.0.0.1:1", nil, sim.XHR2)
	for _, n := range nsps {
		s.join(k, n)
	}
	e := s.sess(k.sid)
	x := xrand(p.Seed)
	ran := make([]int, p.N) // calls of each callback
	var mu sync.Mutex
	total, bad := 0, 0
	type wait struct {
		nsp string
		id  uint64
		n   int
	}
	var kept []wait
	acks := func(ws []wait) {
		for i := range ws {
			switch j := i; p.Ord {
			case 1:
				if j = len(ws) - 1 - i; i < j {
					ws[i], ws[j] = ws[j], ws[i]
				}
			case 2:
				j = i + x.n(len(ws)-i)
				ws[i], ws[j] = ws[j], ws[i]
			}
		}
		for len(ws) > 0 {
			m := min(len(ws), 200)
			var out []SP
			for _, w := range ws[:m] {
				out = append(out, ackPkt(w.nsp, w.id, intVal(int64(w.n))))
			}
			k.send(out...)
			ws = ws[m:]
		}
	}
	seen := 0
	var events []SP // received so far: k.events() would look at all of them each time
	read := 0
	received := func() int {
		all := k.recv()
		for ; read < len(all); read++ {
			if all[read].Type == wire.SEvent {
				events = append(events, all[read])
			}
		}
		return len(events)
	}
	busy := map[string]bool{}
	answered := 0
	for at := 0; at < p.N; at += p.Wave {
		upto := min(at+p.Wave, p.N)
		done := make(chan struct{})
		go func() {
			defer close(done)
			for i := at; i < upto; i++ {
				i := i
				if err := e.socket(nsps[i%len(nsps)]).Emit("q", i, func(n int) {
					mu.Lock()
					defer mu.Unlock()
					total++
					if ran[i]++; n != i || ran[i] > 1 {
						if bad++; bad < 5 {
							c.Errorf("the callback of emission %d ran for the %d. time and got %d", i, ran[i], n)
						}
					}
				}); err != nil {
					c.Errorf("emit %d: %v", i, err)
				}
			}
		}()
		c.Await(func() bool {
			select {
			case <-done:
				return received() >= upto
			default:
				return false
			}
		}, "emissions at the client")
		c.Check()
		var now []wait
		for _, q := range events[seen:] {
			n, err := strconv.Atoi(canonArgs(q.Args[1:]))
			if err != nil || n != seen || q.ID == nil || q.NSP != nsps[n%len(nsps)] {
				c.Failf("emission %d arrived as %s", seen, q)
			}
			seen++
			w := wait{q.NSP, *q.ID, n}
			key := fmt.Sprint(w.nsp, " ", w.id)
			if busy[key] {
				c.Failf("two emissions of %s wait for an acknowledgement with id %d", w.nsp, w.id)
			}
			busy[key] = true
			if x.n(100) < p.Kept {
				kept = append(kept, w)
			} else {
				now = append(now, w)
				answered++
			}
		}
		for _, w := range now {
			delete(busy, fmt.Sprint(w.nsp, " ", w.id))
		}
		acks(now)
		c.Await(func() bool { mu.Lock(); defer mu.Unlock(); return total >= answered || bad > 0 }, "callbacks of %d acknowledged emissions (of %d)", answered, p.N)
		c.Check()
	}
	c.NonTrivialIf(len(kept) > 100)
	c.LabelIf(len(kept) > 1000, "over a thousand wait at once")
	acks(kept)
	c.Reaches(func() bool { mu.Lock(); defer mu.Unlock(); return total >= p.N || bad > 0 })
	c.Quiet()
	c.Check()
	mu.Lock()
	defer mu.Unlock()
	for i, n := range ran {
		if n != 1 {
			c.Failf("the callback of emission %d of %d ran %d times", i, p.N, n)
		}
	}
}
