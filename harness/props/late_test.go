package props

import (
	"fmt"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
)

// ---- C06: upgrades whose steps are far apart ----

type c06Late struct {
	Enc     sim.Enc `json:"enc"`
	Timeout int     `json:"timeout_ms"`
	Before  int     `json:"before"` // messages emitted before, which nobody polls
	During  int     `json:"during"` // messages emitted after the probe was answered
	Sends   [3]int  `json:"sends"`  // messages sent before, on the polling transport after the pong, and after the confirmation
	Delay   [4]int  `json:"delay"`  // before the probe, after its answer, before the confirmation, after it; percent of the timeout
}

func init() {
	kit.Add("C06", "late", "upgrades whose steps are up to two ping timeouts apart, in real time; non-trivial: a step takes longer than the timeout while messages wait", 144, 3000, genC06Late, runC06Late)
}

func genC06Late(t *rapid.T) c06Late {
	p := c06Late{Enc: sim.Enc(rapid.IntRange(0, 1).Draw(t, "enc")), Timeout: rapid.SampledFrom([]int{250, 400}).Draw(t, "timeout"),
		Before: rapid.IntRange(0, 3).Draw(t, "before"), During: rapid.SampledFrom([]int{0, 1, 4, 12}).Draw(t, "during")}
	for i := range p.Sends {
		p.Sends[i] = rapid.SampledFrom([]int{0, 1, 3, 12}).Draw(t, "sends")
	}
	for i := range p.Delay {
		p.Delay[i] = rapid.SampledFrom([]int{0, 0, 50, 120, 180}).Draw(t, "delay")
	}
	// what was emitted may wait for a poll no longer than the timeout
	if p.Delay[0] > 0 && p.Before > 0 {
		p.Delay[0] = 0
	}
	return p
}

// hiccups watches how late this process is scheduled: the result is the longest delay seen.
func hiccups(c *kit.C) func() time.Duration {
	var worst atomic.Int64
	stop := make(chan struct{})
	c.Defer(func() { close(stop) })
	go func() {
		last := time.Now()
		for {
			select {
			case <-stop:
				return
			case <-time.After(5 * time.Millisecond):
			}
			now := time.Now()
			if d := int64(now.Sub(last)); d > worst.Load() {
				worst.Store(d)
			}
			last = now
		}
	}()
	return func() time.Duration { return time.Duration(worst.Load()) }
}

func runC06Late(c *kit.C, p c06Late) {
	timeout := time.Duration(p.Timeout) * time.Millisecond
	s := newEngSrv(c, long, timeout)
	late := hiccups(c)
	c.Excuse(func() bool { return late() > timeout/5 })
	pe := newPollPeer(c, s, "10.0.0.1:1", nil, p.Enc)
	pe.poll.Run(0)
	nothing := func(i int) { time.Sleep(timeout * time.Duration(p.Delay[i]) / 100) }
	n, m := 0, 0
	emit := func(k int) {
		for ; k > 0; k-- {
			n++
			pe.emit([]Blob{{Bin: n%3 == 0, Lit: []byte(fmt.Sprint("s", n))}})
		}
	}
	send := func(i int) {
		for k := p.Sends[i]; k > 0; k-- {
			m++
			pe.send([]Blob{{Bin: m%3 == 0, Lit: []byte(fmt.Sprint("c", m))}}, 0)
		}
	}
	emit(p.Before)
	send(0)
	pe.upgrade(func(st int) {
		switch st {
		case 0:
			nothing(0)
		case 2:
			nothing(1)
			emit(p.During)
			send(1)
			nothing(2)
		case 3:
			nothing(3)
		}
	})
	send(2)
	pe.send([]Blob{fence()}, 0)
	pe.emit([]Blob{fence()})
	c.Reaches(pe.settled)
	slow := p.Delay[0] > 100 || p.Delay[1]+p.Delay[2] > 100 || p.Delay[3] > 100
	c.NonTrivialIf(slow && n+m > 0)
	c.LabelIf(p.Delay[1]+p.Delay[2] > 100 && p.Before > 0, "confirmed late with messages queued")
	pe.compare("after a slow upgrade")
	pe.upgradeChecks()
}
