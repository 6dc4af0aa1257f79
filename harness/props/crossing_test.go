package props

import (
	"fmt"

	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C06: requests in flight across the confirmation of an upgrade ----

type c06xPost struct {
	K     int `json:"k"`     // messages
	Start int `json:"start"` // stage at which the request begins
	End   int `json:"end"`   // stage at which its body ends
	Wait  int `json:"wait,omitempty"`
	Mix   int `json:"mix,omitempty"` // bits: pings between the messages, empty messages between them
}

type c06xPlan struct {
	Enc   sim.Enc    `json:"enc"`
	Posts []c06xPost `json:"posts,omitempty"`
	Polls [4]int     `json:"polls"` // begun at each stage
	Emits [5]int     `json:"emits"`
	Sends int        `json:"sends"` // on the WebSocket, after the confirmation
}

// stages: 0 before the attempt, 1 probe sent, 2 pong received, 3 confirmation sent, 4 the session is on WebSocket

func genC06x(t *rapid.T) c06xPlan {
	p := c06xPlan{Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, "enc")), Sends: rapid.IntRange(0, 4).Draw(t, "sends")}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "posts"); i < n; i++ {
		q := c06xPost{K: rapid.SampledFrom([]int{1, 1, 2, 5, 9, 20}).Draw(t, "k"), Start: rapid.IntRange(0, 3).Draw(t, "start")}
		q.End = rapid.IntRange(q.Start, 4).Draw(t, "end")
		q.Wait = rapid.SampledFrom([]int{0, 0, 1, 5, 20, 40}).Draw(t, "wait")
		q.Mix = rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "mix")
		p.Posts = append(p.Posts, q)
	}
	for i := range p.Polls {
		p.Polls[i] = rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "polls")
	}
	for i := range p.Emits {
		p.Emits[i] = rapid.SampledFrom([]int{0, 0, 1, 2, 6}).Draw(t, "emits")
	}
	return p
}

func runC06x(c *kit.C, p c06xPlan) {
	s := newEngSrv(c, long, long)
	pe := newPollPeer(c, s, "10.0.0.1:1", nil, p.Enc)
	pe.lenient()
	type post struct {
		gate chan struct{}
		call *sim.Call
		msgs []wire.Pkt // with data
		none int        // messages without data
		ping []string
	}
	posts := make([]post, len(p.Posts))
	var polls []*sim.Call
	emitted := 0
	crossing := false
	stage := func(st int) {
		for i, q := range p.Posts {
			x := &posts[i]
			if q.Start == st {
				var all []wire.Pkt
				for j := 0; j < q.K; j++ {
					k := Blob{Bin: (i+j)%2 == 0, Lit: []byte(fmt.Sprintf("p%d.%d", i, j))}.Msg()
					x.msgs = append(x.msgs, k)
					if all = append(all, k); q.Mix&1 == 1 && j%2 == 0 {
						x.ping = append(x.ping, fmt.Sprintf("ping%d.%d", i, j))
						all = append(all, wire.Pkt{Type: wire.EPing, Data: []byte(x.ping[len(x.ping)-1])})
					}
					if q.Mix&2 == 2 && j%3 == 0 {
						x.none++
						all = append(all, Blob{Bin: j%2 == 0}.Msg())
					}
				}
				x.gate = make(chan struct{})
				body, ct := wire.EncText(all), "text/plain;charset=UTF-8"
				if p.Enc == sim.XHR2 {
					body, ct = wire.EncBin(all), "application/octet-stream"
				}
				x.call = pe.poll.PostBody(sim.NewBody(body, nil, nil).Gate(x.gate), ct)
				c.Defer(x.call.Abort)
				crossing = crossing || q.End >= 3 && st < 3
			}
			if q.End == st {
				yield(q.Wait)
				close(x.gate)
			}
		}
		if st < len(p.Polls) {
			for i := 0; i < p.Polls[st]; i++ {
				k := pe.poll.Get()
				c.Defer(k.Abort)
				polls = append(polls, k)
				crossing = crossing || st < 3
			}
		}
		for i := 0; i < p.Emits[st]; i++ {
			pe.emit([]Blob{{Bin: emitted%3 == 0, Lit: []byte(fmt.Sprint("e", emitted))}})
			emitted++
		}
	}
	stage(0)
	ws := sim.DialWS(s.S, "EIO=3&transport=websocket&sid="+pe.sid, pe.addr, nil, nil)
	c.Defer(ws.Close)
	c.Await(ws.HSDone, "websocket handshake of an upgrade")
	ws.Send(wire.Pkt{Type: wire.EPing, Data: []byte("probe")})
	stage(1)
	c.Await(func() bool { return ws.N() > 0 || ws.Ended() != nil }, "pong to the probe")
	stage(2)
	ws.Send(wire.Pkt{Type: wire.EUpgrade})
	stage(3)
	var sent []wire.Pkt
	for i := 0; i < p.Sends; i++ {
		k := Blob{Lit: []byte(fmt.Sprint("w", i))}.Msg()
		sent = append(sent, k)
		ws.Send(k)
	}
	c.Await(func() bool { _, _, n := pe.e.counts(); return n > 0 }, "announcement of the upgrade")
	stage(4)
	last := fence().Msg()
	sent = append(sent, last)
	ws.Send(last)
	pe.emit([]Blob{fence()})
	emitted++
	pongs := map[string]int{}
	received := func() (viaPoll, viaWS []wire.Pkt) {
		clear(pongs)
		note := func(ps []wire.Pkt) {
			for _, q := range ps {
				if q.Type == wire.EPong {
					pongs[string(q.Data)]++
				}
			}
		}
		for _, k := range polls {
			if k.Done() {
				noPanic(c, k)
				if code, _, _ := k.Result(); code == 200 {
					ms, err := sim.DecodePoll(k, p.Enc, "0")
					if err != nil {
						c.Failf("poll response: %v", err)
					}
					note(ms)
					viaPoll = append(viaPoll, onlyMsgs(ms)...)
				}
			}
		}
		g, bad := ws.Got()
		if bad != nil {
			c.Failf("%v", bad)
		}
		note(g)
		return viaPoll, onlyMsgs(g)
	}
	has := func(ms []wire.Pkt, k wire.Pkt) (n int) {
		for _, m := range ms {
			if m.Bin == k.Bin && string(m.Data) == string(k.Data) {
				n++
			}
		}
		return
	}
	c.Reaches(func() bool {
		for _, x := range posts {
			if !x.call.Done() {
				return false
			}
		}
		for _, k := range polls {
			if !k.Done() {
				return false
			}
		}
		a, b := received()
		for _, x := range posts {
			if code, _, _ := x.call.Result(); code != 200 {
				continue
			}
			for _, q := range x.ping {
				if pongs[q] == 0 {
					return false
				}
			}
		}
		return len(a)+len(b) >= emitted && has(pe.e.Received(), last) > 0 && pe.e.w.idle()
	})
	c.Quiet()
	if pe.e.Closed() {
		c.Failf("the session was closed")
	}
	for i, k := range polls {
		if !k.Done() {
			c.Failf("poll %d is not answered although the session has been upgraded", i)
		}
	}
	got := pe.e.Received()
	none, atLeast, atMost := 0, 0, 0
	for _, m := range got {
		if len(m.Data) == 0 {
			none++
		}
	}
	received()
	for i, x := range posts {
		if !x.call.Done() {
			c.Failf("post %d is not answered although the session has been upgraded", i)
		}
		noPanic(c, x.call)
		code, _, _ := x.call.Result()
		var mine []wire.Pkt
		for _, m := range got {
			if has(x.msgs, m) > 0 {
				mine = append(mine, m)
			}
		}
		want := x.msgs
		if code != 200 {
			want = want[:min(len(want), len(mine))]
			c.Label("post refused")
		} else {
			c.Label("post accepted")
			atLeast += x.none
			for _, q := range x.ping {
				if pongs[q] != 1 {
					c.Failf("post %d (begun at stage %d, ended at %d) was accepted, but its ping %q was answered %d times", i, p.Posts[i].Start, p.Posts[i].End, q, pongs[q])
				}
			}
		}
		for _, q := range x.ping {
			if pongs[q] > 1 {
				c.Failf("ping %q was answered %d times", q, pongs[q])
			}
		}
		atMost += x.none
		if err := samePkts(mine, want); err != nil {
			c.Failf("post %d (begun at stage %d, ended at %d) was answered %d, but of its messages the application received: %v", i, p.Posts[i].Start, p.Posts[i].End, code, err)
		}
	}
	if none < atLeast || none > atMost {
		c.Failf("%d to %d empty messages were posted, the application received %d", atLeast, atMost, none)
	}
	var mine []wire.Pkt
	for _, m := range got {
		if has(sent, m) > 0 {
			mine = append(mine, m)
		}
	}
	if err := samePkts(mine, sent); err != nil {
		c.Failf("messages sent after the confirmation: %v", err)
	}
	a, b := received()
	for i, k := range pe.emitted {
		if n := has(a, k) + has(b, k); n != 1 {
			c.Failf("message %d of %d the application emitted arrived %d times", i, len(pe.emitted), n)
		}
	}
	// what is left for the WebSocket arrives in order
	at := -1
	for _, k := range b {
		for i, e := range pe.emitted {
			if e.Bin == k.Bin && string(e.Data) == string(k.Data) {
				if i < at {
					c.Failf("message %d arrived on the WebSocket after message %d", i, at)
				}
				at = i
			}
		}
	}
	c.NonTrivialIf(crossing)
	c.LabelIf(len(a) > 0, "poll answered")
}

func init() {
	kit.Add("C06", "crossing", "a request that began before the confirmation of the upgrade may end after it; non-trivial: such a request", 16000, 200000, genC06x, runC06x)
}
