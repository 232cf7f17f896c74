package sim

import (
	"math/big"
	"math/rand"

	"pgregory.net/rapid"
)

// A crowd makes a scenario large: many validators, events and transactions, all derived from one
// number so that they cost little to draw. The sizes shrink.
type crowd struct {
	r      *rand.Rand
	n      int
	events int
	txs    int
	base   int // position of its first validator
}

const crowdIdx = 5000 // indices of crowd validators start here (others are below, or very large)

func newCrowd(t *rapid.T) *crowd {
	c := &crowd{r: rand.New(rand.NewSource(int64(rapid.Uint32().Draw(t, "crowdseed"))))}
	size := func(l string, s ...int) int { m := Of(t, l+"max", s...); return U(t, m+1, l) }
	c.n = size("crowdvals", 12, 40, 40, 150, 400)
	c.events = size("crowdevs", 0, 10, 40, 120)
	c.txs = size("crowdtxs", 0, 10, 40, 300)
	return c
}

func (c *crowd) pct(p int) bool { return c.r.Intn(100) < p }

func (c *crowd) wei(min int64) string {
	var x *big.Int
	switch c.r.Intn(4) {
	case 0:
		x = big.NewInt(c.r.Int63n(50))
	case 1:
		x = new(big.Int).Mul(big.NewInt(c.r.Int63n(4e18)), big.NewInt(c.r.Int63n(1000)))
	default:
		x = big.NewInt(c.r.Int63n(4e18))
	}
	if x.Cmp(big.NewInt(min)) < 0 {
		x = big.NewInt(min)
	}
	return x.String()
}

func (c *crowd) vals(s *Scn, pf *Profile, nSteps int) {
	first := s.FirstSlot()
	c.base = len(s.Vals)
	for i := 0; i < c.n; i++ {
		v := Val{Idx: crowdIdx + uint64(i)*7 + uint64(c.r.Intn(7)), Cred: Cred01 + c.r.Intn(2), Addr: AccWd0 + c.r.Intn(5)}
		if c.pct(75) {
			v.Addr = AccCrowd + c.r.Intn(nCrowd)
		}
		p := 5
		if pf.Cleanup {
			p = 40
		}
		if c.pct(p) {
			v.Status = []StatusAt{{0, 3 + c.r.Intn(6)}}
			if c.pct(50) {
				v.Status[0].From = first + uint64(c.r.Intn(nSteps+1))
			}
		}
		if c.pct(50) {
			v.Eff = []EffAt{{0, uint64(1+c.r.Intn(2048)) * 1e9}}
		}
		s.Vals = append(s.Vals, v)
		if !pf.Inits || s.Start == 0 || c.pct(25) {
			continue
		}
		in := Init{V: len(s.Vals) - 1, Status: []int{Active, Active, Active, Active, Yellow, Red, NotSubscribed, Banned}[c.r.Intn(8)], Acc: c.wei(pf.minWei), Sub: c.r.Intn(2)}
		if in.Status == Active || in.Status == Yellow || in.Status == Red {
			in.Pend = c.wei(pf.minWei)
		}
		s.Inits = append(s.Inits, in)
	}
}

func (c *crowd) cons(s *Scn, pf *Profile) {
	if !pf.Cleanup || s.N().Electra == 0 {
		return
	}
	for i := c.base; i < len(s.Vals); i++ {
		j := c.base + c.r.Intn(c.n)
		if i == j || c.pct(60) {
			continue
		}
		s.Cons = append(s.Cons, Cons{Src: s.Vals[i].Idx, Tgt: s.Vals[j].Idx, To: 1 << 62})
	}
}

func (c *crowd) step(t *rapid.T, s *Scn, pf *Profile, st *Step) {
	if st.Missed {
		return
	}
	if c.txs > 0 && Pct(t, 50, "crowdtx") {
		var txs []Tx
		for i := 0; i < c.txs; i++ {
			txs = append(txs, Tx{Type: c.r.Intn(6), From: []int{AccOther, AccBuilder, AccWd0}[c.r.Intn(3)], To: []int{AccOther, AccContr, -1, AccPool}[c.r.Intn(4)],
				Value: c.wei(0), Tip: uint64(c.r.Int63n(5e9)), Slack: uint64(c.r.Int63n(5e9)), GasUsed: uint64(21000 + c.r.Intn(100000))})
		}
		if len(st.Txs) > 0 { // the last one may be a MEV payment
			st.Txs = append(txs, st.Txs...)
		} else {
			txs[len(txs)-1].From = AccWd0 + 5
			if st.FeeRec == AccWd0+5 {
				txs[len(txs)-1].From = AccWd0 + 6
			}
			st.Txs = txs
		}
	}
	if c.events == 0 || !Pct(t, 50, "crowdev") {
		return
	}
	by := map[string][]Ev{}
	add := func(k string, n int, f func() Ev) {
		for i := 0; i < n; i++ {
			e := f()
			e.Kind = k
			by[k] = append(by[k], e)
		}
	}
	val := func() *Val { return &s.Vals[c.r.Intn(len(s.Vals))] }
	own := func(sub bool) Ev {
		v := val()
		e := Ev{Idx: v.Idx, Sender: v.Addr}
		if c.pct(10) {
			e.Sender = AccOther
		}
		if sub {
			e.Amt = s.Coll
			if c.pct(10) {
				e.Amt = c.wei(0)
			}
		}
		return e
	}
	share := func(p int) int {
		if p == 0 || c.pct(40) {
			return 0
		}
		return c.r.Intn(c.events + 1)
	}
	add("sub", share(pf.Sub), func() Ev { return own(true) })
	add("unsub", share(pf.Unsub), func() Ev { return own(false) })
	add("ban", share(pf.Ban)/4, func() Ev { return Ev{Idx: val().Idx} })
	add("unban", share(pf.Unban)/2, func() Ev { return Ev{Idx: val().Idx} })
	mev := ""
	if l, ok := st.LastMev(); ok {
		mev = l.Value
	}
	add("ether", share(pf.Ether), func() Ev {
		e := Ev{Sender: AccOther, Amt: c.wei(max(1, pf.minWei))}
		if mev != "" && B(mev).Sign() > 0 && c.pct(3) {
			e.Amt = mev
		}
		return e
	})
	// the kinds stay together, as in the rest of the scenario
	for _, k := range []string{"sub", "unsub", "ban", "unban", "ether"} {
		st.Evs = append(st.Evs, by[k]...)
	}
	if len(st.Evs) > 0 && st.Group == 0 && c.pct(50) {
		st.Group = 1 + c.r.Intn(20)
	}
}
