package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"runtime/debug"
	"slices"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/core/types"

	"pgregory.net/rapid"
	"verifharness/fakes"
	"verifharness/h"
	"verifharness/sim"
)

var chains = map[string]*oracle.Onchain{}

// onchain is the oracle's access to the fake nodes, which now serve w.
func onchain(w *fakes.World) *oracle.Onchain {
	n := fakes.Shared()
	s := w.S
	key := fmt.Sprint(s.Net, s.PoolCase)
	n.Set(w)
	o := chains[key]
	if o == nil {
		boot := fakes.NewWorld(s)
		boot.TimeOf = func(uint64) (uint64, bool) { return boot.Genesis + 12*s.Slot0, true }
		n.Set(boot)
		var err error
		o, err = oracle.NewOnchain(&config.CliConfig{ConsensusEndpoint: n.Beacon, ExecutionEndpoint: n.Exec,
			PoolAddress: sim.Cased(sim.AccPool, s.PoolCase), NumRetries: 3}, nil)
		h.Must(err)
		n.Set(w)
		chains[key] = o
	}
	return o
}

// farEpoch is fetched before a case, so that no duties of an earlier case are remembered.
func farEpoch(w *fakes.World, o *oracle.Onchain) {
	f := w.Faults
	fix := w.DutyFix
	w.Faults, w.DutyFix = nil, nil
	_, err := o.GetProposalDuty(1 << 40)
	if err == nil {
		_, err = o.GetProposalDuty(1<<40 + 1<<20)
	}
	h.Must(err)
	w.Faults, w.DutyFix = f, fix
	w.Log, w.Hit = nil, 0
}

// stopped runs f; a log.Fatal or a panic of the code under test is how it stops.
func stopped(f func()) (why string, stop bool) {
	defer func() {
		if r := recover(); r != nil {
			if i, ok := r.(h.Infra); ok {
				panic(i)
			}
			if fe, ok := r.(h.FatalExit); ok {
				why, stop = "fatal: "+fe.Msg, true
				return
			}
			why, stop = fmt.Sprintf("panic: %v\n%s", r, debug.Stack()), true
		}
	}()
	f()
	return "", false
}

func asJSON(v any) string {
	b, err := json.Marshal(v)
	h.Must(err)
	return string(b)
}

func ssz(b *spec.VersionedSignedBeaconBlock) []byte {
	var x []byte
	var err error
	switch {
	case b.Bellatrix != nil:
		x, err = b.Bellatrix.MarshalSSZ()
	case b.Capella != nil:
		x, err = b.Capella.MarshalSSZ()
	case b.Deneb != nil:
		x, err = b.Deneb.MarshalSSZ()
	case b.Electra != nil:
		x, err = b.Electra.MarshalSSZ()
	case b.Fulu != nil:
		x, err = b.Fulu.MarshalSSZ()
	default:
		return []byte("no block")
	}
	if err != nil {
		return []byte(err.Error())
	}
	return append([]byte(b.Version.String()), x...)
}

func events(e *oracle.Events) map[string]any {
	m := map[string]any{}
	add := func(k string, n int, v any) {
		if n > 0 {
			m[k] = v
		}
	}
	add("ether", len(e.EtherReceived), e.EtherReceived)
	add("sub", len(e.SubscribeValidator), e.SubscribeValidator)
	add("unsub", len(e.UnsubscribeValidator), e.UnsubscribeValidator)
	add("fee", len(e.UpdatePoolFee), e.UpdatePoolFee)
	add("recip", len(e.PoolFeeRecipient), e.PoolFeeRecipient)
	add("ckpt", len(e.CheckpointSlotSize), e.CheckpointSlotSize)
	add("coll", len(e.UpdateSubscriptionCollateral), e.UpdateSubscriptionCollateral)
	add("ban", len(e.BanValidator), e.BanValidator)
	add("unban", len(e.UnbanValidator), e.UnbanValidator)
	return m
}

func sameVals(want, got []*v1.Validator) bool {
	if len(want) != len(got) {
		return false
	}
	for i := range want {
		if (want[i] == nil) != (got[i] == nil) || want[i] != nil && asJSON(want[i]) != asJSON(got[i]) {
			return false
		}
	}
	return true
}

// sameBlock compares what was fetched with what the chain contains.
func sameBlock(s *sim.Scn, r *sim.Raw, need bool, got *oracle.FullBlock) error {
	want := s.FullBlock(r, true)
	if got == nil {
		return fmt.Errorf("no block")
	}
	if asJSON(want.ConsensusDuty) != asJSON(got.ConsensusDuty) {
		return fmt.Errorf("duty %s, expected %s", asJSON(got.ConsensusDuty), asJSON(want.ConsensusDuty))
	}
	if !sameVals([]*v1.Validator{want.Validator}, []*v1.Validator{got.Validator}) {
		return fmt.Errorf("proposer's record %s, expected %s", asJSON(got.Validator), asJSON(want.Validator))
	}
	if got.ChainId != s.N().ChainId {
		return fmt.Errorf("chain id %d, expected %d", got.ChainId, s.N().ChainId)
	}
	if r.Missed {
		if got.ConsensusBlock != nil || len(got.ExecutionReceipts) > 0 || got.Events != nil && len(events(got.Events)) > 0 || len(got.ValidatorsSubs)+len(got.ValidatorsUnsubs) > 0 {
			return fmt.Errorf("the slot was missed, fetched %s", asJSON(got))
		}
		return nil
	}
	if got.ConsensusBlock == nil {
		return fmt.Errorf("the slot was taken as missed")
	}
	if !bytes.Equal(ssz(want.ConsensusBlock), ssz(got.ConsensusBlock)) {
		return fmt.Errorf("consensus block differs")
	}
	if got.Events == nil || asJSON(events(want.Events)) != asJSON(events(got.Events)) {
		return fmt.Errorf("events %s, expected %s", asJSON(got.Events), asJSON(events(want.Events)))
	}
	if !sameVals(want.ValidatorsSubs, got.ValidatorsSubs) {
		return fmt.Errorf("records of subscribing validators %s, expected %s", asJSON(got.ValidatorsSubs), asJSON(want.ValidatorsSubs))
	}
	if !sameVals(want.ValidatorsUnsubs, got.ValidatorsUnsubs) {
		return fmt.Errorf("records of unsubscribing validators %s, expected %s", asJSON(got.ValidatorsUnsubs), asJSON(want.ValidatorsUnsubs))
	}
	if got.ExecutionHeader == nil && got.ExecutionReceipts == nil {
		if need {
			return fmt.Errorf("no header and receipts, which valuing the block needs")
		}
		return nil
	}
	if got.ExecutionHeader == nil || got.ExecutionHeader.Hash() != want.ExecutionHeader.Hash() {
		return fmt.Errorf("header %s, expected %s", asJSON(got.ExecutionHeader), asJSON(want.ExecutionHeader))
	}
	if asJSON(want.ExecutionReceipts) != asJSON(got.ExecutionReceipts) {
		return fmt.Errorf("receipts %s, expected %s", asJSON(got.ExecutionReceipts), asJSON(want.ExecutionReceipts))
	}
	return nil
}

type NetCase struct {
	S       *sim.Scn
	SSZ     bool
	All     bool // fetch everything
	Retries int
	Faults  []fakes.Fault
	Wrong   string
	Right   int // answers about validators that are right nevertheless
	At      int // step at which the persistent fault or wrong answer begins
}

// rawWorld puts the whole scenario in the nodes.
func rawWorld(s *sim.Scn) *fakes.World {
	w := fakes.NewWorld(s)
	slot, block := s.FirstSlot(), s.Block0
	for i := range s.Steps {
		st := &s.Steps[i]
		slot += uint64(st.Gap)
		w.Add(s.Build(st, slot, block+1))
		if !st.Missed {
			block++
		}
		slot++
	}
	return w
}

var errStopped = fmt.Errorf("stopped")

// playNet plays the scenario with blocks fetched from the nodes, and compares every block and every state.
func playNet(c *NetCase, w *fakes.World, st *h.Stats, atStep func(i int)) (*sim.Player, string, error) {
	o := onchain(w)
	farEpoch(w, o)
	o.NumRetries = c.Retries
	p := c.S.Play()
	p.Or.SetGetSetOfValidatorsFunc(o.GetSetOfValidators)
	p.Or.GetPendingConsolidationsFunc(o.GetPendingConsolidations)
	why := ""
	p.Fetch = func(r *sim.Raw, need bool) (*oracle.FullBlock, error) {
		w.Add(r)
		if atStep != nil {
			atStep(p.I - 1)
		}
		var fb *oracle.FullBlock
		var stop bool
		why, stop = stopped(func() {
			if c.All {
				fb = o.FetchFullBlock(r.Slot, p.Or, true)
			} else {
				fb = o.FetchFullBlock(r.Slot, p.Or)
			}
		})
		if stop {
			return nil, errStopped
		}
		if err := sameBlock(c.S, r, need || c.All, fb); err != nil {
			return nil, fmt.Errorf("slot %d: %w", r.Slot, err)
		}
		return fb, nil
	}
	var err error
	msg, fatal := h.Catch(func() {
		err = p.Run(func(x *sim.StepCtx) error {
			return sim.Diff(x.Exp.Post, x.Got, sim.FAll)
		})
	})
	var ae *sim.AdvanceError
	if fatal || errors.As(err, &ae) {
		why, err = fmt.Sprint(msg, ae), errStopped
	}
	for k := range p.Tags {
		st.Class("%s", k)
	}
	st.Eval(p.Slots)
	return p, why, err
}

func genNet(t *rapid.T, pf sim.Profile) *NetCase {
	return &NetCase{S: sim.Gen(t, pf), SSZ: sim.Pct(t, 50, "ssz"), All: sim.Pct(t, 10, "all"), Retries: 1 + sim.U(t, 4, "retries")}
}

var blockClasses = []string{"block", "validators", "duties", "eth_getLogs", "eth_getBlockByNumber", "eth_getTransactionReceipt"}
var netModes = []int{fakes.F500, fakes.F503, fakes.F429, fakes.FDrop, fakes.FTruncated, fakes.FGarbage, fakes.FHtml, fakes.FEmpty, fakes.FRpcErr, fakes.F404, fakes.F204, fakes.FCut, fakes.FNull}

func genMode(t *rapid.T, class string, ssz bool) int {
	for {
		m := sim.Of(t, "mode", netModes...)
		switch {
		case m == fakes.F404 && class == "block":
		case m == fakes.FCut && class == "block" && ssz: // may still be a block
		case m == fakes.FNull && class != "eth_getBlockByNumber" && class != "eth_getTransactionReceipt":
		default:
			return m
		}
	}
}

func netProfile() sim.Profile {
	return with(func(p *sim.Profile) {
		p.MaxSteps = 8
		p.MaxGap = 6
		p.CfgEvents, p.CfgSame = 20, false
		p.FeeRegion = 30
	})
}

func init() {
	h.Add("C17", "faithful", "a block with pool events whose receipts are needed, fetched through a node that fails at least once", 5000, 200000,
		func(t *rapid.T) *NetCase {
			pf := netProfile()
			if sim.Pct(t, 25, "cleanup") {
				pf.Cleanup = true
				pf.MaxSteps = 4
			}
			c := genNet(t, pf)
			for _, k := range append([]string{"consolidations"}, blockClasses...) {
				if c.Retries > 1 && sim.Pct(t, 35, "fault") {
					c.Faults = append(c.Faults, fakes.Fault{Class: k, Skip: sim.U(t, 8, "skip"), Times: 1 + sim.U(t, c.Retries-1, "times"), Mode: genMode(t, k, c.SSZ)})
				}
			}
			return c
		},
		func(c *NetCase, st *h.Stats) error {
			w := rawWorld(c.S)
			w.SSZ = c.SSZ
			w.Faults = append([]fakes.Fault(nil), c.Faults...)
			p, why, err := playNet(c, w, st, nil)
			if err == errStopped {
				return fmt.Errorf("failures within the %d attempts (%+v) stopped the oracle: %s", c.Retries, c.Faults, why)
			}
			if w.Hit > 0 {
				st.Class("transient fault")
			}
			for _, f := range c.Faults {
				st.Class("fault %s mode %d", f.Class, f.Mode)
			}
			if w.Hit > 0 && nt(p, "ok:|sub:|wrong:|donation") {
				st.NT()
			}
			return err
		})
	h.Add("C17", "persistent", "a kind of request that keeps failing, or a node that keeps answering with something else than what was asked, when the oracle needs the answer", 7000, 250000,
		func(t *rapid.T) *NetCase {
			pf := netProfile()
			pf.MaxSteps = 5
			c := genNet(t, pf)
			if c.Retries > 2 {
				c.Retries = 2
			}
			c.At = sim.U(t, len(c.S.Steps), "at")
			if sim.Pct(t, 60, "fault") {
				k := sim.Of(t, "class", blockClasses...)
				skip, times := sim.U(t, sim.Of(t, "skipmax", 4, 12), "skip"), -1
				if k == "duties" {
					skip, c.At = 0, 0
				}
				f := fakes.Fault{Class: k, Skip: skip, Times: times, Mode: genMode(t, k, c.SSZ)}
				switch {
				case k == "eth_getLogs" && sim.Pct(t, 70, "kind"):
					f.Class, f.Skip = "logs:"+sim.Of(t, "evkind", "ether", "sub", "unsub", "ban", "unban", "fee", "recip", "ckpt", "coll"), sim.U(t, 3, "kskip")
				case k != "duties" && sim.Pct(t, 40, "one"):
					f.Times = c.Retries // just one request, every time it is tried
				}
				c.Faults = []fakes.Fault{f}
			} else {
				c.Wrong = sim.Of(t, "wrong", wrongs...)
				if c.Wrong == "val-other" || c.Wrong == "val-extra" { // not only the proposer
					c.Right = sim.U(t, 4, "right")
				}
			}
			return c
		},
		func(c *NetCase, st *h.Stats) error {
			w := rawWorld(c.S)
			w.SSZ = c.SSZ
			armed := false
			_, why, err := playNet(c, w, st, func(i int) {
				if i >= c.At && !armed {
					armed = true
					w.Faults = append([]fakes.Fault(nil), c.Faults...)
					misbehave(w, c.Wrong, c.Right)
				}
			})
			st.Class("%s", map[bool]string{true: "wrong " + c.Wrong, false: "fault"}[c.Wrong != ""])
			for _, f := range c.Faults {
				st.Class("fault %s mode %d hit %v", f.Class, f.Mode, w.Hit > 0)
			}
			if w.Hit > 0 {
				st.NT()
				if err == nil && (len(c.Faults) == 0 || c.Faults[0].Times < 0) {
					return fmt.Errorf("%d requests failed for good (%+v %s), and the oracle went on", w.Hit, c.Faults, c.Wrong)
				}
			}
			if err == errStopped {
				st.Class("stopped")
				if w.Hit == 0 && c.Wrong == "" {
					return fmt.Errorf("the oracle stopped without reason: %s", why)
				}
				return nil
			}
			return err
		})
}

type GetCase struct {
	S       *sim.Scn
	Idx     []uint64
	Slot    uint64
	Retries int
	Fault   fakes.Fault
	Lose    int // one of the answers is lost (index + 1)
}

func init() {
	h.Add("C17", "validators-and-consolidations", "a node that fails or leaves out a validator, or a validator that does not exist", 6000, 200000,
		func(t *rapid.T) *GetCase {
			pf := netProfile()
			pf.Cleanup = true
			pf.MaxSteps = 2
			pf.Crowd = 10
			c := &GetCase{S: sim.Gen(t, pf), Retries: 1 + sim.U(t, 3, "retries")}
			most := sim.Of(t, "most", 4, 4, 4, 1000)
			for _, i := range rapid.Permutation(c.S.Vals).Draw(t, "order") {
				if len(c.Idx) < most && sim.Pct(t, 70, "ask") {
					c.Idx = append(c.Idx, i.Idx)
				}
			}
			if sim.Pct(t, 20, "unknown") {
				c.Idx = append(c.Idx, 99999999)
			}
			c.Slot = c.S.FirstSlot() + uint64(sim.U(t, 60, "slot"))
			if sim.Pct(t, 60, "fault") {
				k := sim.Of(t, "class", "validators", "consolidations")
				c.Fault = fakes.Fault{Class: k, Times: sim.Of(t, "times", 1, 2, -1), Mode: genMode(t, k, false)}
			}
			if sim.Pct(t, 25, "lose") && len(c.Idx) > 0 {
				c.Lose = 1 + sim.U(t, len(c.Idx), "lose")
			}
			return c
		},
		func(c *GetCase, st *h.Stats) error {
			w := fakes.NewWorld(c.S)
			if c.Fault.Class != "" {
				w.Faults = []fakes.Fault{c.Fault}
			}
			o := onchain(w)
			o.NumRetries = c.Retries
			if c.Lose > 0 {
				st.NT()
				w.ValsFix = func(vs []*v1.Validator) []*v1.Validator {
					for i, v := range vs {
						if uint64(v.Index) == c.Idx[c.Lose-1] {
							return append(vs[:i], vs[i+1:]...)
						}
					}
					return vs
				}
			}
			missing, lost := len(c.Idx) == 0, c.Lose > 0
			var ids []phase0.ValidatorIndex
			for _, i := range c.Idx {
				ids = append(ids, phase0.ValidatorIndex(i))
				if c.S.ApiVal(i, c.Slot) == nil {
					missing = true
					st.NT()
				}
			}
			fails := func(class string) bool {
				return c.Fault.Class == class && (c.Fault.Times < 0 || c.Fault.Times >= c.Retries)
			}
			if c.Fault.Class != "" {
				st.NT()
			}
			// a connection that is dropped may be retried below the oracle
			open := c.Fault.Mode == fakes.FDrop && c.Fault.Times > 0
			id := fmt.Sprint(c.Slot)
			got, err := o.GetSetOfValidators(ids, id)
			st.Class("validators error %v", err != nil)
			if bad := missing || lost || fails("validators"); (err != nil) != bad && !(open && !missing && !lost) {
				return fmt.Errorf("GetSetOfValidators(%v) with missing %v, lost %v, fault %+v: %d validators, error %v", c.Idx, missing, lost, c.Fault, len(got), err)
			}
			if err == nil {
				for _, i := range ids {
					if g := got[i]; g == nil || asJSON(g) != asJSON(c.S.ApiVal(uint64(i), c.Slot)) {
						return fmt.Errorf("validator %d: got %s, expected %s", i, asJSON(g), asJSON(c.S.ApiVal(uint64(i), c.Slot)))
					}
				}
			}
			cons, err := o.GetPendingConsolidations(id)
			n := c.S.N()
			st.Class("consolidations error %v", err != nil)
			if bad := fails("consolidations") || n.Electra != 0 && c.Slot < n.Electra; (err != nil) != bad && !open {
				return fmt.Errorf("GetPendingConsolidations with fault %+v: %s, error %v", c.Fault, asJSON(cons), err)
			}
			if err == nil {
				var want []oracle.PendingConsolidation
				for _, x := range c.S.Cons {
					if c.Slot >= x.From && c.Slot < x.To {
						want = append(want, sim.NewCons(x.Src, x.Tgt))
					}
				}
				if len(want) != len(cons.Data) || len(want) > 0 && asJSON(want) != asJSON(cons.Data) {
					return fmt.Errorf("pending consolidations %s, expected %s", asJSON(cons.Data), asJSON(want))
				}
			}
			return nil
		})
}

var wrongs = []string{"duty-shift", "duty-epoch", "val-other", "val-extra", "set-extra", "val-none", "block-slot", "block-proposer", "log-block", "header-number"}

// misbehave makes the nodes answer with something else than what was asked; Hit counts how often.
// The first right answers about validators are as they should be.
func misbehave(w *fakes.World, how string, right int) {
	switch how {
	case "duty-shift":
		w.DutyFix = func(ds []*v1.ProposerDuty) []*v1.ProposerDuty {
			w.Hit++
			return append(ds[1:], ds[0])
		}
	case "duty-epoch":
		w.DutyFix = func(ds []*v1.ProposerDuty) []*v1.ProposerDuty {
			w.Hit++
			for _, d := range ds {
				d.Slot += 32
			}
			return ds
		}
	case "val-other":
		w.ValsFix = func(vs []*v1.Validator) []*v1.Validator {
			for _, v := range vs {
				if right--; right >= 0 {
					break
				}
				w.Hit++
				v.Index++
			}
			return vs
		}
	case "val-extra":
		w.ValsFix = func(vs []*v1.Validator) []*v1.Validator {
			if right--; len(vs) == 1 && right < 0 {
				w.Hit++
				x := *vs[0]
				x.Index++
				return append(vs, &x)
			}
			return vs
		}
	case "set-extra": // one more validator of the chain than asked for
		w.ValsFix = func(vs []*v1.Validator) []*v1.Validator {
			for _, x := range w.S.Vals {
				asked := slices.ContainsFunc(vs, func(v *v1.Validator) bool { return uint64(v.Index) == x.Idx })
				if v := w.S.ApiVal(x.Idx, w.S.FirstSlot()); v != nil && !asked {
					w.Hit++
					return append(vs, v)
				}
			}
			return vs
		}
	case "val-none": // the proposer does not exist
		w.ValsFix = func(vs []*v1.Validator) []*v1.Validator {
			w.Hit++
			return nil
		}
	case "block-slot", "block-proposer":
		w.BlockFix = func(r *sim.Raw) *sim.Raw {
			w.Hit++
			x := *r
			slot, prop := r.Slot, r.Prop
			if how == "block-slot" {
				slot++
			} else {
				prop++
			}
			x.Beacon = rebuilt(r.Beacon, slot, prop)
			return &x
		}
	case "log-block":
		w.LogFix = func(ls []types.Log) []types.Log {
			out := append([]types.Log(nil), ls...)
			for i := range out {
				w.Hit++
				out[i].BlockNumber++
			}
			return out
		}
	case "header-number":
		w.HeaderFix = func(n uint64) uint64 {
			for b := range w.ByBlock {
				if b != n {
					w.Hit++
					return b
				}
			}
			return n
		}
	case "":
	default:
		panic(how)
	}
}

// rebuilt is the block with another slot and proposer.
func rebuilt(b *spec.VersionedSignedBeaconBlock, slot, prop uint64) *spec.VersionedSignedBeaconBlock {
	x := *b
	sl, pi := phase0.Slot(slot), phase0.ValidatorIndex(prop)
	switch {
	case b.Bellatrix != nil:
		m := *b.Bellatrix
		k := *m.Message
		k.Slot, k.ProposerIndex = sl, pi
		m.Message = &k
		x.Bellatrix = &m
	case b.Capella != nil:
		m := *b.Capella
		k := *m.Message
		k.Slot, k.ProposerIndex = sl, pi
		m.Message = &k
		x.Capella = &m
	case b.Deneb != nil:
		m := *b.Deneb
		k := *m.Message
		k.Slot, k.ProposerIndex = sl, pi
		m.Message = &k
		x.Deneb = &m
	case b.Electra != nil:
		m := *b.Electra
		k := *m.Message
		k.Slot, k.ProposerIndex = sl, pi
		m.Message = &k
		x.Electra = &m
	case b.Fulu != nil:
		m := *b.Fulu
		k := *m.Message
		k.Slot, k.ProposerIndex = sl, pi
		m.Message = &k
		x.Fulu = &m
	}
	return &x
}
