// Package props registers the generated checks of every property.
package props

import (
	"fmt"
	"strings"

	"github.com/dappnode/mev-sp-oracle/oracle"

	"pgregory.net/rapid"
	"verifharness/h"
	"verifharness/sim"
)

func mixed() sim.Profile {
	return sim.Profile{MaxVals: 6, MaxSteps: 10, Inits: true, WUnrelated: 3, WMissed: 3, WOk: 6, WWrong: 2, WMevElse: 2,
		Sub: 30, Unsub: 20, Ban: 12, Unban: 12, Ether: 30, Ties: 25, MaxGap: 10, Crowd: 2, Long: 1, CfgEvents: 4, CfgSame: true}
}

func with(f func(*sim.Profile)) sim.Profile {
	p := mixed()
	f(&p)
	return p
}

// nt says which model tags make a case non-trivial: all of the groups, any tag (prefix) of a group.
func nt(p *sim.Player, groups ...string) bool {
	for _, g := range groups {
		ok := false
		for _, want := range strings.Split(g, "|") {
			for k := range p.Tags {
				if strings.HasPrefix(k, want) {
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func core(prop, name, rule string, quick, thorough int, pf sim.Profile, fields int, groups []string, extra func(*sim.Player, *sim.StepCtx) error) {
	h.Add(prop, name, rule, quick, thorough,
		func(t *rapid.T) *sim.Scn { return sim.Gen(t, pf) },
		func(s *sim.Scn, st *h.Stats) error {
			p, err := s.Compare(fields, st, extra)
			if nt(p, groups...) {
				st.NT()
			}
			return err
		})
}

func init() {
	// C01
	conserve := func(p *sim.Player, c *sim.StepCtx) error {
		if owed := c.Got.Owed(); owed.Cmp(p.Recv) != 0 {
			return fmt.Errorf("owed %s, received so far %s", owed, p.Recv)
		}
		if err := p.Or.RunOffchainReconciliation(); err != nil {
			return fmt.Errorf("off-chain reconciliation rejects the oracle's own state: %w", err)
		}
		return nil
	}
	core("C01", "conservation", "slots with a pool reward or donation shared among validators and one more balance-moving action (subscription, unsubscription, ban, wrong fee, cleanup)",
		20000, 600000, with(func(p *sim.Profile) { p.MaxSteps = 14 }), 0, []string{"share:", "sub:|unsub:ok|ban:ok|wrong:|clean:"}, conserve)
	core("C01", "conservation-cleanup", "a cleanup that moves pending rewards", 10000, 300000,
		with(func(p *sim.Profile) { p.Cleanup = true; p.MaxSteps = 6 }), 0, []string{"clean:shared|clean:to"}, conserve)

	// C02
	core("C02", "split", "an amount shared by formula among two or more eligible validators", 25000, 800000,
		with(func(p *sim.Profile) { p.MaxVals = 8; p.MaxSteps = 8; p.Ether = 60; p.WOk = 8 }), sim.FBal, []string{"share:", "share:many"}, nil)
	core("C02", "split-fee-change", "an amount shared after the scheduled fee change", 7500, 200000,
		with(func(p *sim.Profile) { p.FeeRegion = 100; p.Nets = []string{"mainnet", "hoodi"}; p.Ether = 60 }), sim.FBal, []string{"share:", "cfg:fee"}, nil)

	// C03
	core("C03", "transitions", "a miss, a pool proposal of a tracked validator, a wrong-fee block, a ban, an unban, an unsubscription or a re-subscription", 30000, 800000,
		with(func(p *sim.Profile) {
			p.WMissed = 8
			p.WOk = 8
			p.WWrong = 3
			p.MaxSteps = 16
			p.Unsub = 25
			p.Ban = 15
			p.Unban = 25
			p.MaxVals = 4
		}), sim.FStatus,
		[]string{"missed:|ok:1|ok:2|ok:3|ok:4|ok:5|wrong:|ban:ok|unban:ok|unsub:ok|sub:ok-again"}, nil)
	core("C03", "transitions-cleanup", "a cleanup of an exited validator", 7500, 200000,
		with(func(p *sim.Profile) { p.Cleanup = true; p.MaxSteps = 5 }), sim.FStatus, []string{"clean:shared|clean:to"}, nil)

	// C04
	core("C04", "subscriptions", "at least one subscription event for an existing validator", 30000, 800000,
		with(func(p *sim.Profile) { p.Sub = 90; p.MaxSteps = 7; p.MaxVals = 4 }), sim.FBal|sim.FStatus|sim.FMeta|sim.FEvents,
		[]string{"sub:ok|sub:already|sub:banned|sub:low|sub:sender|sub:bls|sub:beacon"}, nil)

	// C05
	core("C05", "unsubscriptions", "an accepted unsubscription, with pending rewards to share", 30000, 800000,
		with(func(p *sim.Profile) { p.Unsub = 90; p.Sub = 20; p.MaxSteps = 7; p.MaxVals = 5 }), sim.FBal|sim.FStatus|sim.FEvents, []string{"unsub:ok", "unsub:pend"}, nil)

	// C06
	core("C06", "bans", "a ban by event or by a wrong-fee proposal", 30000, 800000,
		with(func(p *sim.Profile) {
			p.Ban = 50
			p.Unban = 40
			p.WWrong = 8
			p.WMevElse = 3
			p.MaxSteps = 8
			p.Unsub = 10
		}), sim.FBal|sim.FStatus|sim.FProps,
		[]string{"ban:ok|wrong:"}, nil)

	// C07
	core("C07", "valuation", "a valued proposal: a MEV payment, or tips paid to the pool", 30000, 800000,
		with(func(p *sim.Profile) {
			p.WOk = 10
			p.WWrong = 6
			p.WMevElse = 5
			p.WMissed = 3
			p.Sub, p.Unsub, p.Ban, p.Unban = 8, 5, 3, 3
			p.MaxSteps = 8
		}),
		sim.FProps|sim.FBal|sim.FStatus, []string{"mev:|vanilla:pool-nonzero"}, nil)
	h.Add("C07", "builders", "always", 1, 1, func(*rapid.T) int { return 0 }, func(_ int, st *h.Stats) error {
		// the documented whitelisted builder of mainnet is one, and only there
		const b = "0xae0a3d884e746599bd6c893a674e556c36a47f1e"
		st.NT()
		for id, l := range oracle.WhitelistedBuilders {
			has := false
			for _, x := range l {
				has = has || strings.EqualFold(x, b)
			}
			if has != (id == 1) {
				return fmt.Errorf("builder %s whitelisted on chain %d: %v", b, id, has)
			}
		}
		return nil
	})

	exc := with(func(p *sim.Profile) { p.MaxSteps = 4; p.Ether = 50; p.MaxGap = 10 })
	h.Add("C07", "exception", "the slot is reached and its proposer is subscribed by then", 1500, 60000,
		func(t *rapid.T) *sim.Scn { return sim.GenException(t, exc) },
		func(s *sim.Scn, st *h.Stats) (err error) {
			if len(s.Steps) == 0 {
				return nil
			}
			sim.WithPool(sim.ExceptionPool, func() {
				p := s.Play()
				p.Fetch = func(raw *sim.Raw, need bool) (*oracle.FullBlock, error) {
					if raw.Slot != sim.Exception {
						return s.FullBlock(raw, true), nil
					}
					return s.FullBlock(s.Build(s.Steps[len(s.Steps)-1].Unseen(), raw.Slot, raw.Block), true), nil
				}
				err = p.Run(func(c *sim.StepCtx) error {
					if c.Raw.Slot == sim.Exception {
						if v := c.Exp.Post.Vals[c.Raw.Prop]; v != nil {
							st.NT()
						}
					}
					return sim.Diff(c.Exp.Post, c.Got, sim.FBal|sim.FStatus|sim.FProps|sim.FDon)
				})
				for k := range p.Tags {
					st.Class("%s", k)
				}
				st.Eval(p.Slots)
			})
			return err
		})

	// C08
	core("C08", "donations", "a donation in a block, together with a MEV reward paid to the pool or with other donations", 30000, 800000,
		with(func(p *sim.Profile) {
			p.Ether = 85
			p.Ties = 50
			p.WOk = 9
			p.WMevElse = 4
			p.MaxSteps = 6
			p.Sub, p.Unsub, p.Ban, p.Unban = 8, 5, 3, 3
		}), sim.FDon|sim.FBal|sim.FEvents,
		[]string{"don:many|don:with-mev|don:tie"}, func(_ *sim.Player, c *sim.StepCtx) error {
			// each event exactly once
			if c.Step.Missed {
				return nil
			}
			nd := len(c.Got.Don) - len(c.Pre.Don)
			ne := len(c.Raw.Events.EtherReceived)
			mev := 0
			for i := len(c.Pre.Proposed); i < len(c.Got.Proposed); i++ {
				if c.Got.Proposed[i].RType == sim.RMev {
					mev++
				}
			}
			if nd+mev != ne {
				return fmt.Errorf("%d ether events: %d donations and %d MEV rewards", ne, nd, mev)
			}
			return nil
		})

	// C14
	core("C14", "parameters", "a parameter event, accepted or refused", 25000, 600000,
		with(func(p *sim.Profile) {
			p.CfgEvents, p.CfgSame = 45, false
			p.FeeRegion = 60
			p.Nets = []string{"mainnet", "hoodi", "mainnet", "hoodi", "holesky"}
			p.Ether = 50
		}),
		sim.FCfg|sim.FBal, []string{"cfg:|refuse:"}, func(p *sim.Player, c *sim.StepCtx) error {
			if p.Cfg.PoolFeesPercentOver10000 != c.Exp.Post.FeePct {
				return fmt.Errorf("configured fee %d, want %d", p.Cfg.PoolFeesPercentOver10000, c.Exp.Post.FeePct)
			}
			st := p.Or.State()
			want := p.S.Cfg()
			if st.Network != want.Network || st.PoolAddress != want.PoolAddress || st.PoolFeesAddress != want.PoolFeesAddress ||
				st.CheckPointSizeInSlots != want.CheckPointSizeInSlots || st.CollateralInWei.Cmp(want.CollateralInWei) != 0 ||
				st.DeployedBlock != want.DeployedBlock || st.DeployedSlot != want.DeployedSlot {
				return fmt.Errorf("a parameter changed in the state")
			}
			if p.Cfg.CheckPointSizeInSlots != want.CheckPointSizeInSlots || p.Cfg.CollateralInWei.Cmp(want.CollateralInWei) != 0 || p.Cfg.PoolFeesAddress != want.PoolFeesAddress {
				return fmt.Errorf("a parameter changed in the configuration")
			}
			return nil
		})

	// C15
	core("C15", "order", "a block for another slot, or one with refused parameters, was offered", 25000, 600000,
		with(func(p *sim.Profile) {
			p.SlotOff = 45
			p.CfgEvents, p.CfgSame = 15, false
			p.FeeRegion = 40
			p.MaxGap = 20
		}), sim.FPos, []string{"refuse:"}, nil)

	// C16
	core("C16", "cleanup", "a cleanup slot where an exited validator's pending rewards move", 30000, 800000,
		with(func(p *sim.Profile) { p.Cleanup = true; p.MaxSteps = 5; p.MaxVals = 8; p.Ether = 20; p.MaxGap = 5 }), sim.FBal|sim.FStatus|sim.FMeta,
		[]string{"clean:shared|clean:to"}, nil)

	// C31
	core("C31", "claimable", "a pool proposal by a tracked or new validator", 30000, 800000,
		with(func(p *sim.Profile) { p.WOk = 14; p.MaxSteps = 8 }), sim.FBal|sim.FMeta|sim.FStatus, []string{"ok:"},
		func(_ *sim.Player, c *sim.StepCtx) error {
			// apart from returned collateral, accumulated rewards only grow for the proposer of a pool block
			returned := map[uint64]bool{}
			for _, e := range c.Step.Evs {
				if e.Kind == "sub" {
					returned[e.Idx] = true
				}
			}
			for k, g := range c.Got.Vals {
				if b := c.Pre.Vals[k]; b != nil && g.Acc.Cmp(b.Acc) != 0 && k != c.Raw.Prop && !returned[k] {
					return fmt.Errorf("accumulated rewards of validator %d went from %s to %s without a proposal of its own", k, b.Acc, g.Acc)
				}
			}
			return nil
		})
}
