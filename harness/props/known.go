package props

import (
	"fmt"
	"math/big"

	"pgregory.net/rapid"
	"verifharness/h"
	"verifharness/sim"
)

// Dedicated checks of the defects known_findings.txt lists: each runs the very history that fails.

func known(prop, id string, scn func() *sim.Scn, keepEther bool, recv int64) {
	h.Add(prop, "known-"+id, "always", 1, 1, func(*rapid.T) *sim.Scn { return scn() }, func(s *sim.Scn, st *h.Stats) error {
		st.NT()
		or, _ := s.NewOracle()
		raw := s.Build(&s.Steps[0], s.Start, s.Block0+1)
		if !keepEther {
			raw.Events.EtherReceived = nil
		}
		var err error
		msg, fatal := h.Catch(func() { _, err = or.AdvanceStateToNextSlot(s.FullBlock(raw, true)) })
		if fatal {
			return h.Known(prop, id, fmt.Errorf("the oracle stopped (log.Fatal): %s", msg))
		}
		if err != nil {
			return h.Known(prop, id, err)
		}
		m := sim.Extract(or.State())
		if m.Owed().Cmp(big.NewInt(recv)) != 0 {
			return fmt.Errorf("owed %s of %d received", m.Owed(), recv)
		}
		for _, v := range m.Vals {
			if v.Pend.Sign() < 0 || v.Acc.Sign() < 0 {
				return h.Known(prop, id, fmt.Errorf("validator %d has a negative balance: pending %s, accumulated %s", v.Idx, v.Pend, v.Acc))
			}
		}
		return nil
	})
}

func init() {
	base := func(net string, slot uint64) *sim.Scn {
		return &sim.Scn{Net: net, Slot0: slot, Block0: 50, Fee: 700, Coll: "1000", Ckpt: 1, InitFees: "0", Start: slot,
			Vals:  []sim.Val{{Idx: 11, Cred: sim.Cred01, Addr: sim.AccWd0}},
			Inits: []sim.Init{{V: 0, Status: 1, Pend: "0", Acc: "0"}}}
	}
	known("C02", "zero-effective-balance", func() *sim.Scn {
		s := base("mainnet", 11700000)
		s.Vals[0].Eff = []sim.EffAt{{From: 0, Eff: 0}}
		s.Steps = []sim.Step{{Prop: -1, Fork: 3, FeeRec: sim.AccOther, Evs: []sim.Ev{{Kind: "ether", Sender: sim.AccOther, Amt: "1000000"}}}}
		return s
	}, true, 1000000)
	known("C02", "tiny-amount-before-fork1", func() *sim.Scn {
		s := base("mainnet", 9900000)
		s.Steps = []sim.Step{{Prop: -1, Fork: 2, FeeRec: sim.AccOther, Evs: []sim.Ev{{Kind: "ether", Sender: sim.AccOther, Amt: "1"}}}}
		return s
	}, true, 1)
	known("C08", "last-tx-without-event", func() *sim.Scn {
		s := base("mainnet", 11700000)
		// the fee recipient's own subscription is the last transaction of the block: it credits the pool with a subscription event
		s.Vals = append(s.Vals, sim.Val{Idx: 12, Cred: sim.Cred01, Addr: sim.AccWd0 + 1})
		s.Steps = []sim.Step{{Prop: -1, Fork: 3, FeeRec: sim.AccWd0 + 1, BaseFee: 10,
			Txs: []sim.Tx{{Type: 2, From: sim.AccWd0 + 1, To: sim.AccPool, Value: "1000", GasUsed: 60000}},
			Evs: []sim.Ev{{Kind: "sub", Idx: 12, Sender: sim.AccWd0 + 1, Amt: "1000"}}}}
		return s
	}, false, 1000)
}
