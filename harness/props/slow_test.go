package props

import (
	"fmt"
	"sync"
	"time"

	"pgregory.net/rapid"
	"socketioverif/kit"
	"socketioverif/sim"
	"socketioverif/wire"
)

// ---- C05: a client that keeps polling, but slowly ----

type c05Slow struct {
	Timeout int   `json:"timeout_ms"`
	Gaps    []int `json:"gaps"`  // between polls, percent of the timeout
	By      []int `json:"by"`    // messages of each concurrent emitter
	Pause   []int `json:"pause"` // of an emitter between two messages, percent of the timeout
	Held    int   `json:"held"`  // percent of the timeout each handler takes
	Posts   []int `json:"posts"`
}

func init() {
	kit.Add("C05", "slow", "several goroutines emit to a client that polls once in less than the ping timeout; non-trivial: the messages outlast the timeout many times", 6000, 100000, genC05Slow, runC05Slow).OnVirtualTime()
}

func genC05Slow(t *rapid.T) c05Slow {
	p := c05Slow{Timeout: rapid.IntRange(20, 3000).Draw(t, "timeout"), Gaps: rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 10, 50, 80, 95}), 1, 4).Draw(t, "gaps"),
		By:    rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 5, 12, 30}), 1, 6).Draw(t, "by"),
		Pause: rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 5, 60, 150}), 1, 3).Draw(t, "pause"),
		Held:  rapid.SampledFrom([]int{0, 0, 30, 99, 150, 400}).Draw(t, "held"),
		Posts: rapid.SliceOfN(rapid.SampledFrom([]int{1, 1, 3, 9, 20}), 0, 3).Draw(t, "posts")}
	if rapid.IntRange(0, 3).Draw(t, "patient") == 0 {
		p.Timeout *= rapid.SampledFrom([]int{20, 300, 2000}).Draw(t, "times")
	}
	return p
}

func runC05Slow(c *kit.C, p c05Slow) {
	unit := time.Duration(p.Timeout) * time.Millisecond / 100
	s := newEngSrv(c, time.Hour*1000, unit*100)
	s.OnMsg = func(*esess, int, wire.Pkt) { time.Sleep(unit * time.Duration(p.Held)) }
	pe := newPeer(c, s, false, "10.0.0.1:1", nil, sim.XHR2)
	total := 0
	for _, n := range p.By {
		total += n
	}
	var wg sync.WaitGroup
	for i, n := range p.By {
		i, n := i, n
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < n; j++ {
				if err := pe.e.emit(Blob{Bin: j%3 == 0, Lit: []byte(fmt.Sprintf("%d.%d", i, j))}); err != nil {
					c.Errorf("emit on a session whose client polls in time: %v", err)
				}
				time.Sleep(unit * time.Duration(p.Pause[(i+j)%len(p.Pause)]))
			}
		}()
	}
	for i, n := range p.Posts {
		var bs []Blob
		for j := 0; j < n; j++ {
			bs = append(bs, Blob{Bin: j%3 == 0, Lit: []byte(fmt.Sprintf("c%d.%d", i, j))})
		}
		pe.send(bs, 0)
	}
	var got []wire.Pkt
	for i := 0; len(got) < total; i++ {
		time.Sleep(unit * time.Duration(p.Gaps[i%len(p.Gaps)]))
		call := pe.poll.Get()
		select {
		case <-call.DoneChan():
		case <-time.After(unit * 50000):
			c.Failf("poll not answered: %d of %d messages received so far", len(got), total)
		}
		noPanic(c, call)
		pk, err := sim.DecodePoll(call, sim.XHR2, "0")
		if err != nil {
			c.Failf("poll %d after %d of %d messages: %v", i, len(got), total, err)
		}
		got = append(got, onlyMsgs(pk)...)
	}
	wg.Wait()
	time.Sleep(unit * time.Duration((pe.sentN()+1)*p.Held))
	c.Quiet()
	if pe.e.Closed() {
		c.Failf("session closed although its client polls within the timeout")
	}
	next := make([]int, len(p.By))
	for _, k := range got {
		var i, j int
		if n, _ := fmt.Sscanf(string(k.Data), "%d.%d", &i, &j); n != 2 || i >= len(next) || k.Bin != (j%3 == 0) || next[i] != j {
			c.Failf("client received %s (%d next of each emitter: %v)", k, len(got), next)
		}
		next[i]++
	}
	for i, n := range p.By {
		if next[i] != n {
			c.Failf("client received %d of %d messages of emitter %d", next[i], n, i)
		}
	}
	if err := samePkts(pe.e.Received(), pe.sent); err != nil {
		c.Failf("application received: %v", err)
	}
	c.NonTrivialIf(total > 16)
	c.LabelIf(len(p.By) > 2, "several emitters")
}
