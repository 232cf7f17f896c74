package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"pgregory.net/rapid"

	"verifharness/h"
	"verifharness/sim"
)

// freshFolder points the code's state folder to a new empty directory.
func freshFolder() func() {
	base := os.Getenv("VERIF_TMP")
	d, err := os.MkdirTemp(base, "state-")
	h.Must(err)
	old := oracle.StateFolder
	oracle.StateFolder = filepath.Join(d, "oracle-data")
	return func() {
		oracle.StateFolder = old
		os.RemoveAll(d)
	}
}

// touch does one of the things that must not influence an oracle.
func touch(or *oracle.Oracle, kind int) {
	switch kind {
	case 0:
		or.State()
	case 1:
		_, err := or.StateWithHash()
		h.Must(err)
	case 2:
		h.Must(or.SaveToJson(false))
	case 3:
		h.Must(or.SaveToJson(true))
	case 4:
		or.LatestCommitedState()
		or.LatestCommitedSlot()
	case 5:
		or.GetUniqueWithdrawalAddresses()
	case 6:
		or.RunOffchainReconciliation()
		or.RunOnchainReconciliation(big.NewInt(1), map[string]*big.Int{"0x": big.NewInt(3)})
	case 7:
		or.IsOracleInSyncWithChain(oracle.DefaultRoot, 3)
	case 8:
		or.IsCheckpoint()
	case 9:
		oracle.NewMerklelizer().GenerateTreeFromState(or.State())
	}
}

const nTouch = 10

type shuffled struct {
	S       *sim.Scn
	Touch   []int // what is done to the other oracle after each slot (cyclic); -1: nothing
	PCase   int
	FCase   int
	Reverse bool // the node lists consolidations in another order
}

func tapeProfile(f func(*sim.Profile)) sim.Profile {
	return with(func(p *sim.Profile) {
		p.PostFork1 = true
		p.Ckpt = []uint64{1, 2, 3, 5}
		p.MaxSteps = 12
		p.FeeRegion = 25
		if f != nil {
			f(p)
		}
	})
}

func genTouches(t *rapid.T) []int {
	n := 1 + U(t, 8)
	var out []int
	for i := 0; i < n; i++ {
		if sim.Pct(t, 40, "quiet") {
			out = append(out, -1)
		} else {
			out = append(out, sim.U(t, nTouch, "touch"))
		}
	}
	return out
}

func U(t *rapid.T, n int) int { return sim.U(t, n, "n") }

func init() {
	// ---- C09
	c09 := func(name string, q, th int, pf sim.Profile, rule string, nontrivial func(*sim.Scn, *oracle.Oracle) bool) {
		h.Add("C09", name, rule, q, th, func(t *rapid.T) *shuffled {
			c := &shuffled{S: sim.Gen(t, pf), Touch: genTouches(t), PCase: U(t, 3), FCase: U(t, 3), Reverse: rapid.Bool().Draw(t, "rev")}
			return c
		}, func(c *shuffled, st *h.Stats) error {
			defer freshFolder()()
			s := c.S
			tp := s.Tape()
			a, acfg := s.NewOracle()
			b, bcfg := s.NewOracle()
			other := *s
			other.PoolCase, other.FeeCase = c.PCase, c.FCase
			k, _ := other.NewOracle()
			if c.Reverse {
				o2 := *s
				o2.Cons = nil
				for i := len(s.Cons) - 1; i >= 0; i-- {
					o2.Cons = append(o2.Cons, s.Cons[i])
				}
				o2.Attach(b)
				o2.Attach(k)
			}
			for pos := 0; pos < tp.Len(); pos++ {
				if err := tp.Feed(a, pos); err != nil {
					return err
				}
				if err := tp.Feed(b, pos); err != nil {
					return fmt.Errorf("the other oracle: %w", err)
				}
				if x := c.Touch[pos%len(c.Touch)]; x >= 0 {
					touch(b, x)
				}
				if err := tp.Feed(k, pos); err != nil {
					return fmt.Errorf("the oracle with other letter case: %w", err)
				}
				st.Eval(3)
				slot := tp.First + uint64(pos)
				pa, pb := sim.PlainJSON(a), sim.PlainJSON(b)
				if !bytes.Equal(pa, pb) {
					return fmt.Errorf("states differ after slot %d:\n%s\n%s", slot, pa, pb)
				}
				ma := sim.Extract(a.State())
				if err := sim.Diff(ma, sim.Extract(b.State()), sim.FAll); err != nil {
					return fmt.Errorf("states differ after slot %d: %w", slot, err)
				}
				if err := sim.Diff(ma, sim.Extract(k.State()), sim.FAll); err != nil {
					return fmt.Errorf("states with other letter case differ after slot %d: %w", slot, err)
				}
				ca := sim.CkptsView(a.State())
				if cb := sim.CkptsView(b.State()); !reflect.DeepEqual(ca, cb) {
					return fmt.Errorf("checkpoints differ after slot %d: %v vs %v", slot, ca, cb)
				}
				if ck := sim.CkptsView(k.State()); !reflect.DeepEqual(ca, ck) {
					return fmt.Errorf("checkpoints with other letter case differ after slot %d: %v vs %v", slot, ca, ck)
				}
				if acfg.PoolFeesPercentOver10000 != bcfg.PoolFeesPercentOver10000 {
					return fmt.Errorf("pool fees differ")
				}
			}
			sa, err := a.StateWithHash()
			h.Must(err)
			ha := sa.StateHash
			sb, err := b.StateWithHash()
			h.Must(err)
			if ha != sb.StateHash || ha != sim.HashOf(sim.PlainJSON(a)) {
				return fmt.Errorf("state hashes %s and %s, want %s", ha, sb.StateHash, sim.HashOf(sim.PlainJSON(a)))
			}
			// hashing again must not change the hash
			sa, err = a.StateWithHash()
			h.Must(err)
			if sa.StateHash != ha {
				return fmt.Errorf("state hash changes when it is computed again")
			}
			if nontrivial(s, a) {
				st.NT()
			}
			return nil
		})
	}
	c09("agree", 8000, 160000, tapeProfile(nil), "at least one checkpoint with two or more addresses", func(s *sim.Scn, or *oracle.Oracle) bool {
		return len(or.State().CommitedStates) > 0 && len(or.GetUniqueWithdrawalAddresses()) > 2
	})
	c09("agree-cleanup", 6000, 120000, tapeProfile(func(p *sim.Profile) { p.Cleanup = true; p.MaxVals = 9; p.MaxSteps = 6; p.Ckpt = []uint64{1, 2} }),
		"a cleanup slot after Electra with pending consolidations", func(s *sim.Scn, or *oracle.Oracle) bool { return len(s.Cons) > 0 })

	// ---- C10
	h.Add("C10", "tree", "a checkpoint with three or more leaves", 12000, 300000,
		func(t *rapid.T) *sim.Crafted { return sim.GenCrafted(t, 24, false) },
		func(c *sim.Crafted, st *h.Stats) error {
			or, _ := c.Oracle()
			m := sim.Extract(or.State())
			ok := or.FreezeCheckpoint()
			ls := sim.Leaves(m, c.FeeAddress())
			st.Class("leaves:%d", min(len(ls), 20))
			if len(ls) < 2 {
				if ok || len(or.State().CommitedStates) != 0 {
					return fmt.Errorf("a checkpoint was made of %d leaves", len(ls))
				}
				return nil
			}
			if !ok {
				return fmt.Errorf("no checkpoint was made of %d leaves", len(ls))
			}
			if len(ls) > 2 {
				st.NT()
			}
			if len(or.State().CommitedStates) != 1 || or.State().CommitedStates[c.Slot] == nil {
				return fmt.Errorf("checkpoints %v", or.State().CommitedStates)
			}
			if err := sim.CheckCkpt(or.State().CommitedStates[c.Slot], m, c.Slot, c.FeeAddress(), true); err != nil {
				return err
			}
			// the order of the leaves, as the merkle package lists them
			for i, l := range oracle.NewMerklelizer().AggregateValidatorsIndexes(or.State()) {
				if i >= len(ls) || l.WithdrawalAddress != ls[i].Addr || l.AccumulatedBalanceWei.Cmp(ls[i].Bal) != 0 {
					return fmt.Errorf("leaf %d is %+v", i, l)
				}
			}
			if err := sim.Diff(m, sim.Extract(or.State()), sim.FAll); err != nil {
				return fmt.Errorf("freezing changed the state: %w", err)
			}
			return nil
		})
	h.Add("C10", "history", "a checkpoint of a generated history with three or more leaves", 6000, 120000,
		func(t *rapid.T) *sim.Scn { return sim.Gen(t, tapeProfile(nil)) },
		func(s *sim.Scn, st *h.Stats) error {
			tp := s.Tape()
			or, cfg := s.NewOracle()
			for pos := 0; pos < tp.Len(); pos++ {
				if err := tp.Feed(or, pos); err != nil {
					return err
				}
				slot := tp.First + uint64(pos)
				m := sim.Extract(or.State())
				c := or.State().CommitedStates[slot]
				want := (slot-s.Slot0)%s.Ckpt == 0 && len(m.Vals) > 0
				if (c != nil) != want {
					return fmt.Errorf("checkpoint at slot %d: %v, want %v", slot, c != nil, want)
				}
				if c != nil {
					if len(c.Leafs) > 2 {
						st.NT()
					}
					if err := sim.CheckCkpt(c, m, slot, cfg.PoolFeesAddress, true); err != nil {
						return fmt.Errorf("slot %d: %w", slot, err)
					}
				}
			}
			st.Eval(tp.Len())
			return nil
		})
	type poolLeaf struct {
		C     *sim.Crafted
		Pool  int // letter case of the configured pool address
		Where int // the validator that withdraws to the pool; -1: none
	}
	h.Add("C10", "pool", "a validator withdraws to the pool", 1500, 60000,
		func(t *rapid.T) *poolLeaf {
			c := &poolLeaf{C: sim.GenCrafted(t, 8, false), Pool: sim.U(t, 3, "poolcase"), Where: -1}
			if len(c.C.Vals) > 0 && sim.Pct(t, 70, "towards") {
				c.Where = sim.U(t, len(c.C.Vals), "where")
				c.C.Vals[c.Where].Addr = sim.Low(sim.AccPool)[2:]
			}
			return c
		},
		func(c *poolLeaf, st *h.Stats) error {
			or, cfg := c.C.Oracle()
			cfg.PoolAddress = sim.Cased(sim.AccPool, c.Pool)
			or.State().PoolAddress = cfg.PoolAddress
			ok := false
			msg, stopped := h.Catch(func() { ok = or.FreezeCheckpoint() })
			if c.Where < 0 {
				if stopped {
					return fmt.Errorf("the oracle stops: %s", msg)
				}
				return nil
			}
			st.NT()
			if !stopped {
				return fmt.Errorf("a checkpoint (%v) of a state with a validator that withdraws to the pool itself: %v", ok, or.State().CommitedStates)
			}
			if len(or.State().CommitedStates) != 0 {
				return fmt.Errorf("the oracle stopped, but the checkpoint is there")
			}
			return nil
		})
	h.Add("C10", "fee-address-withdraws", "always", 1, 1,
		func(*rapid.T) *sim.Crafted {
			return &sim.Crafted{Net: "mainnet", Slot: 100, Ckpt: 1, Deployed: 100, Fees: "5", FeeAddr: fmt.Sprintf("%040x", 0x1000),
				Vals: []sim.CVal{{Idx: 1, Status: 1, Acc: "7", Pend: "0", Coll: "0", Addr: fmt.Sprintf("%040x", 0x1000)}}}
		},
		func(c *sim.Crafted, st *h.Stats) error {
			st.NT()
			or, _ := c.Oracle()
			ls := oracle.NewMerklelizer().AggregateValidatorsIndexes(or.State())
			n := map[string]int{}
			for _, l := range ls {
				n[l.WithdrawalAddress]++
			}
			for a, k := range n {
				if k > 1 {
					return h.Known("C10", "fee-address-twice", fmt.Errorf("address %s has %d leaves", a, k))
				}
			}
			return nil
		})

	// ---- C11
	h.Add("C11", "immutable", "at least two checkpoints and a balance that changes after the first", 6000, 120000,
		func(t *rapid.T) *shuffled {
			pf := tapeProfile(func(p *sim.Profile) { p.Cleanup = rapid.Bool().Draw(t, "cl"); p.Ckpt = []uint64{1, 1, 2, 3} })
			return &shuffled{S: sim.Gen(t, pf), Touch: genTouches(t)}
		},
		func(c *shuffled, st *h.Stats) error {
			defer freshFolder()()
			s := c.S
			tp := s.Tape()
			or, cfg := s.NewOracle()
			seen := map[uint64]string{}
			claim := map[string]*big.Int{}
			var prev *sim.MS
			changed := false
			check := func(when string) error {
				now := sim.CkptsView(or.State())
				for k, v := range seen {
					if now[k] != v {
						return fmt.Errorf("checkpoint of slot %d changed %s:\n%s\n%s", k, when, v, now[k])
					}
				}
				if len(now) != len(seen) {
					return fmt.Errorf("%d checkpoints instead of %d %s", len(now), len(seen), when)
				}
				return nil
			}
			for pos := 0; pos < tp.Len(); pos++ {
				slot := tp.First + uint64(pos)
				if _, err := or.AdvanceStateToNextSlot(tp.Full(pos)); err != nil {
					return fmt.Errorf("slot %d: %w", slot, err)
				}
				if err := check(fmt.Sprintf("by processing slot %d", slot)); err != nil {
					return err
				}
				m := sim.Extract(or.State())
				if prev != nil {
					if m.Fees.Cmp(prev.Fees) < 0 {
						return fmt.Errorf("slot %d: pool fees fell from %s to %s", slot, prev.Fees, m.Fees)
					}
					for k, v := range prev.Vals {
						g := m.Vals[k]
						if g == nil {
							return fmt.Errorf("slot %d: validator %d is gone", slot, k)
						}
						if g.Acc.Cmp(v.Acc) < 0 {
							return fmt.Errorf("slot %d: accumulated rewards of validator %d fell from %s to %s", slot, k, v.Acc, g.Acc)
						}
						changed = changed || (len(seen) > 0 && g.Acc.Cmp(v.Acc) > 0)
					}
				}
				if m.Fees.Sign() < 0 {
					return fmt.Errorf("slot %d: negative fees", slot)
				}
				for k, v := range m.Vals {
					if v.Acc.Sign() < 0 || v.Pend.Sign() < 0 {
						return fmt.Errorf("slot %d: negative balance of validator %d: %s %s", slot, k, v.Acc, v.Pend)
					}
				}
				for _, l := range sim.Leaves(m, cfg.PoolFeesAddress) {
					if o := claim[l.Addr]; o != nil && l.Bal.Cmp(o) < 0 {
						return fmt.Errorf("slot %d: claimable total of %s fell from %s to %s", slot, l.Addr, o, l.Bal)
					}
					claim[l.Addr] = new(big.Int).Set(l.Bal)
				}
				prev = m
				if is, err := or.IsCheckpoint(); err != nil {
					return err
				} else if is && or.FreezeCheckpoint() {
					c := or.State().CommitedStates[slot]
					if c == nil {
						return fmt.Errorf("no checkpoint at slot %d", slot)
					}
					if err := sim.CheckCkpt(c, m, slot, cfg.PoolFeesAddress, false); err != nil {
						return fmt.Errorf("slot %d: the checkpoint is not the live state: %w", slot, err)
					}
					seen[slot] = sim.CkptView(c)
				}
				if err := check(fmt.Sprintf("by freezing at slot %d", slot)); err != nil {
					return err
				}
				if x := c.Touch[pos%len(c.Touch)]; x >= 0 {
					touch(or, x)
					if err := check(fmt.Sprintf("by operation %d after slot %d", x, slot)); err != nil {
						return err
					}
					if x == 2 || x == 3 {
						if found, err := or.LoadFromJson(); err != nil || !found {
							return fmt.Errorf("reload after slot %d: %v %v", slot, found, err)
						}
						if err := check(fmt.Sprintf("by reloading after slot %d", slot)); err != nil {
							return err
						}
					}
				}
			}
			if len(seen) > 1 && changed {
				st.NT()
			}
			st.Eval(tp.Len())
			return nil
		})

	// ---- C12
	type restart struct {
		Pos  int // after this position
		Kind int
		Back int // checkpoints to go back
		Lost int // bits: the copies of this checkpoint, the one before it and the one before that are lost
	}
	type restarts struct {
		S *sim.Scn
		R []restart
	}
	h.Add("C12", "restart", "a restart in the middle of a history that tracks validators", 6000, 120000,
		func(t *rapid.T) *restarts {
			pf := tapeProfile(func(p *sim.Profile) {
				p.FeeRegion = 50
				p.Ckpt = []uint64{1, 2, 2, 3, 5}
				p.Cleanup = sim.Pct(t, 25, "cl")
				p.MaxSteps = 10
			})
			c := &restarts{S: sim.Gen(t, pf)}
			n := c.S.Tape().Len()
			for i := 1 + sim.U(t, 4, "nr"); i > 0; i-- {
				c.R = append(c.R, restart{Pos: sim.U(t, n, "pos"), Kind: sim.U(t, 6, "kind"), Back: sim.U(t, 3, "back"), Lost: max(0, sim.U(t, 14, "lost")-6)})
			}
			sort.SliceStable(c.R, func(i, j int) bool { return c.R[i].Pos < c.R[j].Pos })
			return c
		},
		func(c *restarts, st *h.Stats) error {
			defer freshFolder()()
			s := c.S
			tp := s.Tape()
			ref, rcfg := s.NewOracle()
			type snap struct {
				plain []byte
				m     *sim.MS
				ck    map[uint64]string
				fee   int
			}
			var snaps []snap
			for pos := 0; pos < tp.Len(); pos++ {
				if err := tp.Feed(ref, pos); err != nil {
					return err
				}
				snaps = append(snaps, snap{sim.PlainJSON(ref), sim.Extract(ref.State()), sim.CkptsView(ref.State()), rcfg.PoolFeesPercentOver10000})
			}
			st.Eval(tp.Len())
			or, cfg := s.NewOracle()
			same := func(pos int, when string) error {
				w := snaps[pos]
				if g := sim.PlainJSON(or); !bytes.Equal(g, w.plain) {
					return fmt.Errorf("%s: the state differs from the uninterrupted run:\n%s\nwant\n%s", when, g, w.plain)
				}
				if err := sim.Diff(w.m, sim.Extract(or.State()), sim.FAll); err != nil {
					return fmt.Errorf("%s: %w", when, err)
				}
				if g := sim.CkptsView(or.State()); !reflect.DeepEqual(g, w.ck) {
					return fmt.Errorf("%s: checkpoints %v, want %v", when, g, w.ck)
				}
				if cfg.PoolFeesPercentOver10000 != w.fee {
					return fmt.Errorf("%s: configured fee %d, want %d", when, cfg.PoolFeesPercentOver10000, w.fee)
				}
				sh, err := or.StateWithHash()
				h.Must(err)
				if sh.StateHash != sim.HashOf(w.plain) {
					return fmt.Errorf("%s: state hash %s, want %s", when, sh.StateHash, sim.HashOf(w.plain))
				}
				return nil
			}
			ri := 0
			budget := 4*tp.Len() + 20
			feeChanged := false
			for pos := 0; pos < tp.Len(); pos++ {
				if budget--; budget < 0 {
					break
				}
				if err := tp.Feed(or, pos); err != nil {
					return fmt.Errorf("after %d restarts: %w", ri, err)
				}
				st.Eval(1)
				slot := tp.First + uint64(pos)
				if err := same(pos, fmt.Sprintf("slot %d", slot)); err != nil {
					return err
				}
				// the main loop saves at every checkpoint
				if (slot-s.Slot0)%s.Ckpt == 0 {
					if err := or.SaveToJson(true); err != nil {
						return err
					}
				}
				if ri < len(c.R) && c.R[ri].Pos <= pos {
					r := c.R[ri]
					ri++
					when := fmt.Sprintf("restart of kind %d after slot %d", r.Kind, slot)
					feeChanged = feeChanged || snaps[pos].fee != s.Fee
					st.Class("kind:%d", r.Kind)
					if snaps[pos].fee != s.Fee {
						st.Class("after-fee-change")
					}
					fresh := func() {
						cfg = s.Cfg()
						or = oracle.NewOracle(cfg)
						s.Attach(or)
					}
					var found bool
					var err error
					to := pos
					switch r.Kind {
					case 0, 1:
						h.Must(or.SaveToJson(r.Kind == 1))
						fresh()
						found, err = or.LoadFromJson()
					case 2:
						// what the state endpoint serves to a peer
						sh, e := or.StateWithHash()
						h.Must(e)
						var buf bytes.Buffer
						h.Must(json.NewEncoder(&buf).Encode(sh))
						fresh()
						found, err = or.LoadFromBytes(buf.Bytes())
					case 3:
						h.Must(or.SaveToJson(true))
						p := filepath.Join(oracle.StateFolder, fmt.Sprintf("state_%d.json", slot))
						fresh()
						found, err = or.LoadFromPath(p)
					default:
						// process restart, then back to an older checkpoint (as when the contract is behind), in the same process
						if r.Kind == 5 {
							h.Must(or.SaveToJson(false))
							fresh()
							if f, e := or.LoadFromJson(); e != nil || !f {
								return fmt.Errorf("%s: %v %v", when, f, e)
							}
						}
						cks := (slot - s.Slot0) / s.Ckpt
						if cks < uint64(r.Back) {
							continue
						}
						target := s.Slot0 + (cks-uint64(r.Back))*s.Ckpt
						if target < tp.First {
							continue
						}
						st.Class("older:%d", r.Back)
						// the copy of the latest of three checkpoints that is still there
						to = -1
						for k := 2; k >= 0; k-- {
							x := int(target-tp.First) - k*int(s.Ckpt)
							if x < 0 {
								continue
							}
							file := filepath.Join(oracle.StateFolder, fmt.Sprintf("state_%d.json", tp.First+uint64(x)))
							if r.Lost>>k&1 == 1 {
								os.Remove(file)
							}
							if _, err := os.Stat(file); err == nil {
								to = x
							}
						}
						st.Class("lost:%d", r.Lost)
						found, err = or.LoadGivenState(target)
						if to < 0 && !found {
							if e := same(pos, when+" (no copy)"); err != nil || e != nil {
								return fmt.Errorf("%s: no copy: %v %v", when, err, e)
							}
							continue
						}
						if to < 0 {
							to = pos // which one it loaded is not specified, if it is an earlier one
							if l := or.State().LatestProcessedSlot; l < target && l >= tp.First {
								to = int(l - tp.First)
							}
						}
					}
					if err != nil || !found {
						return fmt.Errorf("%s: found %v, error %v", when, found, err)
					}
					if err := same(to, when); err != nil {
						return err
					}
					if len(snaps[to].m.Vals) > 0 && pos+1 < tp.Len() {
						st.NT()
					}
					pos = to
				}
			}
			return nil
		})

	// ---- C13
	h.Add("C13", "edited", "the edit changes the parsed content", 20000, 400000,
		func(t *rapid.T) *edited {
			pf := tapeProfile(func(p *sim.Profile) { p.MaxSteps = 5; p.MaxVals = 4; p.Ckpt = []uint64{1, 2}; p.FeeRegion = 40 })
			c := &edited{S: sim.Gen(t, pf), Ahead: U(t, 3)}
			for i := 1 + sim.U(t, 2, "nm"); i > 0; i-- {
				c.M = append(c.M, mut{Kind: sim.U(t, 10, "mk"), At: rapid.Uint32().Draw(t, "at"), X: rapid.Uint32().Draw(t, "x")})
			}
			return c
		}, runEdited)
	h.Add("C13", "foreign", "a state of another configuration", 10000, 200000,
		func(t *rapid.T) *foreign {
			pf := tapeProfile(func(p *sim.Profile) { p.MaxSteps = 4; p.MaxVals = 3; p.FeeRegion = 40; p.Ckpt = []uint64{1, 2, 7} })
			return &foreign{S: sim.Gen(t, pf), Kind: sim.U(t, 9, "kind"), X: U(t, 3)}
		}, runForeign)
	h.Add("C13", "missing", "always", 200, 2000,
		func(t *rapid.T) uint64 { return rapid.Uint64Range(0, 1<<40).Draw(t, "slot") },
		func(slot uint64, st *h.Stats) error {
			defer freshFolder()()
			st.NT()
			or := oracle.NewOracle((&sim.Scn{Net: "hoodi", Slot0: 1000, Block0: 10, Fee: 700, Coll: "5", Ckpt: 1 + slot%7}).Cfg())
			before := sim.PlainJSON(or)
			for i, f := range []func() (bool, error){or.LoadFromJson, func() (bool, error) { return or.LoadGivenState(slot) }, func() (bool, error) { return or.LoadFromPath(filepath.Join(oracle.StateFolder, "x")) }} {
				if found, err := f(); found || err != nil {
					return fmt.Errorf("loading a missing file (%d): %v %v", i, found, err)
				}
			}
			if !bytes.Equal(before, sim.PlainJSON(or)) {
				return fmt.Errorf("loading a missing file changed the state")
			}
			return nil
		})

	// ---- C25
	type cadence struct {
		Deployed, Size, Latest uint64
	}
	h.Add("C25", "cadence", "a processed slot", 30000, 500000,
		func(t *rapid.T) cadence {
			c := cadence{Deployed: rapid.Uint64Range(1, 15000000).Draw(t, "d"), Size: rapid.Uint64Range(1, 20000).Draw(t, "s")}
			switch sim.Weighted(t, "l", 4, 4, 2, 1) {
			case 0:
				c.Latest = c.Deployed + c.Size*rapid.Uint64Range(0, 2000).Draw(t, "k")
			case 1:
				c.Latest = c.Deployed + c.Size*rapid.Uint64Range(0, 2000).Draw(t, "k") + rapid.Uint64Range(0, 2).Draw(t, "o") - 1
			case 2:
				c.Latest = c.Deployed + rapid.Uint64Range(0, 100000).Draw(t, "any")
			case 3:
				c.Latest = rapid.Uint64Range(0, c.Deployed-1).Draw(t, "before")
			}
			return c
		},
		func(c cadence, st *h.Stats) error {
			or := oracle.NewOracle(&oracle.Config{DeployedSlot: c.Deployed, CheckPointSizeInSlots: c.Size, CollateralInWei: big.NewInt(1), Network: "mainnet"})
			or.State().LatestProcessedSlot = c.Latest
			got, err := or.IsCheckpoint()
			if c.Latest < c.Deployed {
				if err == nil {
					return fmt.Errorf("slot %d before the deployment at %d: no error (%v)", c.Latest, c.Deployed, got)
				}
				return nil
			}
			st.NT()
			want := (c.Latest-c.Deployed)%c.Size == 0
			st.Class("due:%v", want)
			if err != nil || got != want {
				return fmt.Errorf("slot %d, deployed %d, size %d: checkpoint %v (error %v), want %v", c.Latest, c.Deployed, c.Size, got, err, want)
			}
			return nil
		})
	type verdict struct {
		Slots     []uint64
		Roots     []uint32
		ChainSlot int // index in Slots, -1: another, -2: 0
		ChainRoot int // index, -1: another one, -2: default
		Upper     bool
	}
	h.Add("C25", "sync", "the oracle has checkpoints", 20000, 400000,
		func(t *rapid.T) verdict {
			var v verdict
			n := sim.U(t, 5, "n")
			for i := 0; i < n; i++ {
				v.Slots = append(v.Slots, rapid.Uint64Range(1, 100000).Draw(t, "s"))
				v.Roots = append(v.Roots, uint32(sim.U(t, 6, "r")))
			}
			v.ChainSlot = sim.U(t, n+2, "cs") - 2
			v.ChainRoot = sim.U(t, n+2, "cr") - 2
			v.Upper = rapid.Bool().Draw(t, "up")
			return v
		},
		func(v verdict, st *h.Stats) error {
			root := func(x uint32) string { return fmt.Sprintf("0xab%062x", x) }
			or := oracle.NewOracle(&oracle.Config{DeployedSlot: 1, CheckPointSizeInSlots: 1, CollateralInWei: big.NewInt(1), Network: "mainnet"})
			latest, lroot := uint64(0), ""
			for i, s := range v.Slots {
				or.State().CommitedStates[s] = &oracle.OnchainState{Slot: s, MerkleRoot: root(v.Roots[i])}
			}
			for s, c := range or.State().CommitedStates {
				if s > latest {
					latest, lroot = s, c.MerkleRoot
				}
			}
			cs, cr := uint64(0), oracle.DefaultRoot
			if v.ChainSlot >= 0 {
				cs = v.Slots[v.ChainSlot]
			} else if v.ChainSlot == -1 {
				cs = 200001
			}
			if v.ChainRoot >= 0 {
				cr = root(v.Roots[v.ChainRoot])
			} else if v.ChainRoot == -1 {
				cr = root(99)
			}
			eqRoot := cr == lroot
			if v.Upper {
				cr = "0x" + strings.ToUpper(cr[2:])
			}
			gs, ok := or.LatestCommitedSlot()
			st2 := or.LatestCommitedState()
			if len(v.Slots) == 0 {
				if ok || st2 != nil {
					return fmt.Errorf("latest checkpoint %d %v of none", gs, st2)
				}
				in, err := or.IsOracleInSyncWithChain(cr, cs)
				if err != nil || in != (v.ChainRoot == -2) {
					return fmt.Errorf("no checkpoints, chain %s/%d: in sync %v, %v", cr, cs, in, err)
				}
				return nil
			}
			st.NT()
			if !ok || gs != latest || st2 == nil || st2.Slot != latest {
				return fmt.Errorf("latest checkpoint %d %v, want %d", gs, ok, latest)
			}
			in, err := or.IsOracleInSyncWithChain(cr, cs)
			switch {
			case eqRoot && cs == latest:
				st.Class("in-sync")
				if err != nil || !in {
					return fmt.Errorf("chain %s/%d is the latest checkpoint: %v %v", cr, cs, in, err)
				}
			case eqRoot || cs == latest:
				st.Class("half")
				if err == nil || in {
					return fmt.Errorf("chain %s/%d half matches %s/%d: %v %v", cr, cs, lroot, latest, in, err)
				}
			default:
				st.Class("behind")
				if err != nil || in {
					return fmt.Errorf("chain %s/%d does not match %s/%d: %v %v", cr, cs, lroot, latest, in, err)
				}
			}
			return nil
		})
	h.Add("C25", "history", "a history with two or more checkpoints", 4000, 80000,
		func(t *rapid.T) *sim.Scn {
			return sim.Gen(t, tapeProfile(func(p *sim.Profile) { p.MaxGap = 40; p.Ckpt = []uint64{1, 2, 3, 5, 8} }))
		},
		func(s *sim.Scn, st *h.Stats) error {
			tp := s.Tape()
			or, _ := s.NewOracle()
			n := 0
			for pos := 0; pos < tp.Len(); pos++ {
				slot := tp.First + uint64(pos)
				if _, err := or.AdvanceStateToNextSlot(tp.Full(pos)); err != nil {
					return err
				}
				is, err := or.IsCheckpoint()
				if want := (slot-s.Slot0)%s.Ckpt == 0; err != nil || is != want {
					return fmt.Errorf("slot %d: checkpoint %v %v, want %v", slot, is, err, want)
				}
				if is && or.FreezeCheckpoint() {
					n++
					if l, ok := or.LatestCommitedSlot(); !ok || l != slot {
						return fmt.Errorf("latest checkpoint %d %v, want %d", l, ok, slot)
					}
					c := or.LatestCommitedState()
					if in, err := or.IsOracleInSyncWithChain(strings.ToUpper(c.MerkleRoot), slot); err != nil || !in {
						return fmt.Errorf("slot %d: not in sync with its own checkpoint: %v", slot, err)
					}
				}
			}
			st.Eval(tp.Len())
			if n > 1 {
				st.NT()
			}
			return nil
		})

	// ---- C26
	type reconc struct {
		C      *sim.Crafted
		Claims []string // per distinct address
		Delta  string
		Neg    bool
		Over   int // 1: more is claimed than was ever owed, and the contract is empty; 2: it has what was claimed too much
	}
	h.Add("C26", "balance", "a state with two or more validators and claims", 20000, 400000,
		func(t *rapid.T) *reconc {
			r := &reconc{C: sim.GenCrafted(t, 8, true)}
			for i := 0; i <= len(r.C.Vals); i++ {
				r.Claims = append(r.Claims, sim.BigWei(t, "claim"))
			}
			r.Delta = "0"
			if rapid.Bool().Draw(t, "off") {
				r.Delta = sim.Of(t, "delta", "1", "2", sim.BigWei(t, "d"))
				r.Neg = rapid.Bool().Draw(t, "neg")
			}
			if sim.Pct(t, 10, "over") {
				r.Over = 1 + sim.U(t, 2, "how")
			}
			return r
		},
		func(r *reconc, st *h.Stats) error {
			or, _ := r.C.Oracle()
			m := sim.Extract(or.State())
			owed := m.Owed()
			claims := map[string]*big.Int{}
			addrs := or.GetUniqueWithdrawalAddresses()
			want := map[string]bool{strings.ToLower(r.C.FeeAddress()): true}
			for _, v := range m.Vals {
				want[v.Wd] = true
			}
			got := map[string]bool{}
			for _, a := range addrs {
				k := strings.ToLower(a)
				if got[k] {
					return fmt.Errorf("address %s listed twice in %v", k, addrs)
				}
				got[k] = true
			}
			if !reflect.DeepEqual(got, want) {
				return fmt.Errorf("addresses that can claim: %v, want %v", got, want)
			}
			// claims of at most the cumulative balance
			for i, l := range sim.Leaves(m, r.C.FeeAddress()) {
				cl := sim.B(r.Claims[i%len(r.Claims)])
				if cl.Cmp(l.Bal) > 0 {
					cl.Set(l.Bal)
				}
				if o := claims[l.Addr]; o != nil {
					cl.Add(cl, o)
				}
				claims[l.Addr] = cl
			}
			bal := new(big.Int).Set(owed)
			for _, c := range claims {
				bal.Sub(bal, c)
			}
			d := sim.B(r.Delta)
			if r.Neg {
				d.Neg(d)
			}
			bal.Add(bal, d)
			if r.Over > 0 {
				if d = new(big.Int).Abs(d); d.Sign() == 0 {
					d.SetInt64(1)
				}
				var all []string
				for a := range claims {
					all = append(all, a)
				}
				sort.Strings(all)
				if len(all) == 0 {
					return nil
				}
				x := new(big.Int).Add(owed, d) // claimed: everything and more
				for _, a := range all {
					x.Sub(x, claims[a])
				}
				claims[all[0]].Add(claims[all[0]], x)
				if bal.SetInt64(0); r.Over == 2 {
					bal.Set(d)
				}
			}
			if bal.Sign() < 0 {
				return nil
			}
			if len(m.Vals) > 1 {
				st.NT()
			}
			st.Class("solvent:%v", d.Sign() == 0)
			if err := or.RunOnchainReconciliation(bal, claims); (err == nil) != (d.Sign() == 0) {
				return fmt.Errorf("owed %s, claims %v, balance %s: %v", owed, claims, bal, err)
			}
			if err := sim.Diff(m, sim.Extract(or.State()), sim.FAll); err != nil {
				return fmt.Errorf("reconciliation changed the state: %w", err)
			}
			return nil
		})

	type offchain struct {
		C      *sim.Crafted
		Ether  []string
		Coll   []string
		Blocks []string // reward
		Kinds  []int
		Delta  string
		Where  int // what absorbs the difference
		Neg    bool
	}
	h.Add("C26", "received", "a state with two or more validators that received something", 15000, 300000,
		func(t *rapid.T) *offchain {
			r := &offchain{C: sim.GenCrafted(t, 6, true)}
			for i := sim.U(t, 4, "nether"); i > 0; i-- {
				r.Ether = append(r.Ether, sim.BigWei(t, "ether"))
			}
			for i := sim.U(t, 4, "ncoll"); i > 0; i-- {
				r.Coll = append(r.Coll, sim.BigWei(t, "coll"))
			}
			for i := sim.U(t, 5, "nblocks"); i > 0; i-- {
				r.Blocks = append(r.Blocks, sim.BigWei(t, "reward"))
				r.Kinds = append(r.Kinds, sim.U(t, 3, "kind"))
			}
			r.Delta = "0"
			if rapid.Bool().Draw(t, "off") {
				r.Delta = sim.Of(t, "delta", "1", "2", sim.BigWei(t, "d"))
				r.Neg = rapid.Bool().Draw(t, "neg")
			}
			r.Where = sim.U(t, 3, "where")
			return r
		},
		func(r *offchain, st *h.Stats) error {
			or, _ := r.C.Oracle()
			os := or.State()
			got := new(big.Int)
			for _, a := range r.Ether {
				os.EtherReceivedEvents = append(os.EtherReceivedEvents, &contract.ContractEtherReceived{Sender: sim.Addr(sim.AccOther), DonationAmount: sim.B(a)})
				got.Add(got, sim.B(a))
			}
			for _, a := range r.Coll {
				os.SubscriptionEvents = append(os.SubscriptionEvents, &contract.ContractSubscribeValidator{Sender: sim.Addr(sim.AccWd0), SubscriptionCollateral: sim.B(a)})
				got.Add(got, sim.B(a))
			}
			for i, a := range r.Blocks {
				// what a block paid through the execution layer is already among the ether received
				k := []oracle.RewardType{oracle.VanilaBlock, oracle.MevBlock, oracle.UnknownRewardType}[r.Kinds[i]]
				os.ProposedBlocks = append(os.ProposedBlocks, oracle.SummarizedBlock{Slot: r.C.Slot - uint64(i), Block: 1, Reward: sim.B(a), RewardType: k})
				if k == oracle.VanilaBlock {
					got.Add(got, sim.B(a))
				}
			}
			// the difference goes to some balance
			d := sim.B(r.Delta)
			if r.Neg {
				d.Neg(d)
			}
			diff := new(big.Int).Sub(got, sim.Extract(os).Owed())
			diff.Add(diff, d)
			to := os.PoolAccumulatedFees
			if n := len(r.C.Vals); n > 0 && r.Where > 0 {
				v := os.Validators[r.C.Vals[n-1].Idx]
				if to = v.PendingRewardsWei; r.Where == 2 {
					to = v.AccumulatedRewardsWei
				}
			}
			to.Add(to, diff)
			if len(r.C.Vals) > 1 && got.Sign() > 0 {
				st.NT()
			}
			st.Class("received-is-owed:%v", d.Sign() == 0)
			if err := or.RunOffchainReconciliation(); (err == nil) != (d.Sign() == 0) {
				return fmt.Errorf("received %s, owed %s: %v", got, sim.Extract(os).Owed(), err)
			}
			return nil
		})
}
