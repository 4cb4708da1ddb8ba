package main

import (
	"crypto/rand"
	"io"

	"verif.local/sim/simkit"
	"verif.local/sim/simrt"
)

// Sched decides interleavings: either explicitly or from a seed.
type Sched struct {
	Mode   string        `json:"mode,omitempty"` // random, pct, serial
	Seed   uint64        `json:"seed,omitempty"`
	Q      int           `json:"q,omitempty"`
	Slices []simrt.Slice `json:"slices,omitempty"`
}

func genSched(r *simkit.Rng) Sched {
	switch r.Intn(10) {
	case 0, 1, 2:
		return Sched{Mode: "pct", Seed: r.U64(), Q: []int{200, 2000, 10000, 40000}[r.Intn(4)]}
	case 3:
		return Sched{Mode: "serial"}
	default:
		return Sched{Mode: "random", Seed: r.U64(), Q: []int{1, 3, 12, 60, 400, 2500}[r.Intn(6)]}
	}
}

type policy struct {
	s    Sched
	r    *simkit.Rng
	prio map[int]uint64
	k    int
	last int
	step int
	chg  []int
}

func (s Sched) policy() *policy {
	p := &policy{s: s, r: simkit.NewRng(s.Seed), prio: map[int]uint64{}, last: -1}
	if s.Mode == "pct" {
		for i := 0; i < 4; i++ {
			p.chg = append(p.chg, p.r.Intn(s.Q+1))
		}
	}
	return p
}

const long = 1 << 30

// Next implements simrt.Policy.
//
//go:norace
func (p *policy) Next(ids []int) (int, int) {
	if len(p.s.Slices) > 0 {
		for p.k < len(p.s.Slices) {
			sl := p.s.Slices[p.k]
			p.k++
			for _, id := range ids {
				if id == sl.T {
					return id, sl.N
				}
			}
		}
		return ids[0], long
	}
	switch p.s.Mode {
	case "random":
		q := p.s.Q
		if p.r.Intn(8) == 0 {
			q *= 20
		}
		return ids[p.r.Intn(len(ids))], 1 + p.r.Intn(q)
	case "pct":
		// priorities, lowered at a few random points
		best := -1
		for _, id := range ids {
			if _, ok := p.prio[id]; !ok {
				p.prio[id] = p.r.U64() | 1<<63
			}
			if best < 0 || p.prio[id] > p.prio[best] {
				best = id
			}
		}
		if p.k < len(p.chg) {
			q := p.chg[p.k]%(p.s.Q/4+1) + 1
			p.k++
			p.prio[best] = uint64(len(p.chg) - p.k)
			return best, q
		}
		return best, long
	default:
		return ids[0], long
	}
}

// Entropy describes the stream behind crypto/rand.
type Entropy struct {
	Seed   uint64 `json:"seed"`
	Short  int    `json:"short,omitempty"`  // at most this many bytes per read
	Reject int    `json:"reject,omitempty"` // percent of bytes forced to 252..255
	Run    int    `json:"run,omitempty"`    // length of runs of one byte mixed in
	Zero   int    `json:"zero,omitempty"`   // one in Zero reads delivers nothing
}

type entropy struct {
	e     Entropy
	r     *simkit.Rng
	run   int
	b     byte
	count int64
	zeros int64
	rej   int64
	short int64
}

//go:norace
func (e *entropy) Read(p []byte) (int, error) {
	n := len(p)
	if e.e.Zero > 0 && e.r.Intn(e.e.Zero) == 0 {
		e.zeros++
		return 0, nil
	}
	if e.e.Short > 0 && n > e.e.Short {
		n = 1 + e.r.Intn(e.e.Short)
		e.short++
	}
	for i := 0; i < n; i++ {
		if e.run > 0 {
			e.run--
		} else {
			e.b = byte(e.r.U64() >> 13)
			switch {
			case e.e.Reject > 0 && e.r.Intn(100) < e.e.Reject:
				e.b = 252 + e.b&3
				e.rej++
			case e.e.Run > 0 && e.r.Intn(40) == 0:
				e.run = e.r.Intn(e.e.Run)
			}
		}
		p[i] = e.b
	}
	e.count += int64(n)
	return n, nil
}

func (e Entropy) install() *entropy {
	x := &entropy{e: e, r: simkit.NewRng(e.Seed)}
	rand.Reader = io.Reader(x)
	return x
}
