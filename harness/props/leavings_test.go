package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C07: a failed upgrade attempt leaves nothing running ----

type c07Leave struct {
	Enc   sim.Enc `json:"enc"`
	Tries []struct {
		Stage int    `json:"stage"` // 0 connected, 1 probe answered
		End   string `json:"end"`
		Pkt   int    `json:"pkt"`
	} `json:"tries"`
	Good bool `json:"good"`
}

func init() {
	kit.Add("C07", "leavings", "every case: failed upgrade attempts on a session that lives on", 6000, 80000, func(t *rapid.T) c07Leave {
		p := c07Leave{Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, "enc")), Good: rapid.Bool().Draw(t, "good")}
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "tries"); i < n; i++ {
			p.Tries = append(p.Tries, struct {
				Stage int    `json:"stage"`
				End   string `json:"end"`
				Pkt   int    `json:"pkt"`
			}{rapid.IntRange(0, 1).Draw(t, "stage"), rapid.SampledFrom([]string{"drop", "closeframe", "wrong", "garbage"}).Draw(t, "end"), rapid.IntRange(0, 6).Draw(t, "pkt")})
		}
		return p
	}, runC07Leave)
}

func runC07Leave(c *kit.C, p c07Leave) {
	c.NonTrivial()
	s := newEngSrv(c, long, long)
	pe := newPollPeer(c, s, "10.0.0.1:1", nil, p.Enc)
	c.Quiet()
	known := map[string]bool{}
	for _, g := range sim.LibGoroutines() {
		known[g.ID] = true
	}
	more := func() (out []string) {
		for _, g := range sim.LibGoroutines() {
			if !known[g.ID] {
				out = append(out, g.Stack)
			}
		}
		return
	}
	for i, y := range p.Tries {
		c.Label(fmt.Sprint(y.End, y.Stage))
		w := sim.DialWS(s.S, "EIO=3&transport=websocket&sid="+pe.sid, pe.addr, nil, nil)
		c.Defer(w.Close)
		c.Await(w.HSDone, "answer to upgrade request %d", i)
		if y.Stage > 0 {
			w.Send(wire.Pkt{Type: wire.EPing, Data: []byte("probe")})
			c.Await(func() bool { return w.N() > 0 || w.Ended() != nil }, "answer to the probe of attempt %d", i)
		}
		switch y.End {
		case "drop":
			w.Close()
		case "closeframe":
			w.CloseFrame()
		case "garbage":
			w.Cli.Write([]byte{0xff, 0xff, 1, 2, 3, 4, 5, 6})
		default:
			if k := wrongFirst[y.Pkt]; y.Stage == 0 {
				w.Send(k)
			} else {
				w.Send(wrongSecond[y.Pkt])
			}
		}
		c.Await(func() bool { call := w.Call(); return call != nil && call.Done() }, "end of failed upgrade attempt %d (%s)", i, y.End)
	}
	c.Reaches(func() bool { return len(more()) == 0 })
	if left := more(); len(left) > 0 {
		c.Failf("%d goroutines are left of %d failed upgrade attempts:\n%s", len(left), len(p.Tries), strings.Join(left, "\n\n"))
	}
	pe.poll.Run(-1)
	pe.exchange("after the attempts")
	if p.Good {
		pe.upgrade(nil)
		pe.exchange("after the upgrade")
	}
}
