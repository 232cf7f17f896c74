package props

import (
	"bytes"
	"fmt"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"pgregory.net/rapid"

	"verifharness/h"
	"verifharness/sim"
)

// A history during which the beacon node fails while a slot is being processed.
type nodeFail struct {
	S    *sim.Scn
	Nth  int  // the request that fails, counted over the whole history
	Last bool // counted from the last one
	Keep bool // and so do all later ones
	Cons bool // count requests for pending consolidations only
}

var errNode = fmt.Errorf("503: the beacon node is not available")

// nodeFails: a slot whose chain data cannot be read is either not processed, or processed as if nothing had failed.
func nodeFails(prop string, quick, thorough int, pf sim.Profile) {
	h.Add(prop, "node-fails", "the node failed while a slot was processed", quick, thorough,
		func(t *rapid.T) *nodeFail {
			return &nodeFail{S: sim.Gen(t, pf), Nth: 1 + sim.U(t, 5, "nth"), Last: sim.Pct(t, 40, "last"), Keep: rapid.Bool().Draw(t, "keep"), Cons: sim.Pct(t, 20, "cons")}
		},
		func(c *nodeFail, st *h.Stats) error {
			s := c.S
			tp := s.Tape()
			// how many requests are there, and what comes out when all are answered
			total := 0
			good, _ := s.NewOracle()
			count := func(or *oracle.Oracle, hit func(cons bool) bool) {
				set, cons := s.GetSet(), s.GetCons()
				or.SetGetSetOfValidatorsFunc(func(idxs []phase0.ValidatorIndex, slot string, o ...sim.Opt) (map[phase0.ValidatorIndex]*v1.Validator, error) {
					if hit(false) {
						return nil, errNode
					}
					return set(idxs, slot, o...)
				})
				or.GetPendingConsolidationsFunc(func(id string, o ...sim.Opt) (*oracle.PendingConsolidationsResponse, error) {
					if hit(true) {
						return nil, errNode
					}
					return cons(id, o...)
				})
			}
			count(good, func(cons bool) bool {
				if !c.Cons || cons {
					total++
				}
				return false
			})
			var states [][]byte
			for pos := 0; pos < tp.Len(); pos++ {
				stop := false
				if _, fatal := stopped(func() { stop = tp.Feed(good, pos) != nil }); fatal || stop {
					break
				}
				states = append(states, sim.PlainJSON(good))
			}
			nth := c.Nth
			if c.Last {
				nth = total + 1 - nth
			}
			if nth < 1 || nth > total {
				return nil
			}
			bad, _ := s.NewOracle()
			n, failed := 0, false
			count(bad, func(cons bool) bool {
				if c.Cons && !cons {
					return false
				}
				n++
				if n == nth || n > nth && c.Keep {
					failed = true
					return true
				}
				return false
			})
			for pos := range states {
				st.Eval(1)
				var err error
				why, fatal := stopped(func() { err = tp.Feed(bad, pos) })
				if failed {
					st.NT()
				}
				if fatal || err != nil {
					if !failed {
						return fmt.Errorf("slot %d: %v %s", tp.First+uint64(pos), err, why)
					}
					st.Class("stopped")
					return nil
				}
				if got := sim.PlainJSON(bad); !bytes.Equal(got, states[pos]) {
					return fmt.Errorf("slot %d was processed although the node failed: the state is\n%s\nand not\n%s", tp.First+uint64(pos), got, states[pos])
				}
			}
			if failed {
				st.Class("recovered")
			}
			return nil
		})
}

func init() {
	nodeFails("C02", 5000, 100000, with(func(p *sim.Profile) { p.MaxVals = 6; p.MaxSteps = 6; p.Ether = 60; p.WOk = 8; p.PostFork1 = true }))
	nodeFails("C16", 8000, 150000, with(func(p *sim.Profile) { p.Cleanup = true; p.MaxSteps = 5; p.MaxVals = 8; p.Ether = 20; p.MaxGap = 5 }))
}
