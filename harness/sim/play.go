package sim

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"

	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/core/types"

	"verifharness/h"
)

// FirstSlot is the first slot the scenario feeds to the oracle.
func (s *Scn) FirstSlot() uint64 {
	if s.Start != 0 {
		return s.Start
	}
	return s.Slot0
}

// NewOracle makes an oracle in the scenario's initial state.
func (s *Scn) NewOracle() (*oracle.Oracle, *oracle.Config) {
	return s.NewOracleCfg(s.Cfg())
}

func (s *Scn) NewOracleCfg(cfg *oracle.Config) (*oracle.Oracle, *oracle.Config) {
	or := oracle.NewOracle(cfg)
	s.Attach(or)
	if len(s.Inits) > 0 || s.Start != 0 || s.InitFees != "" {
		st := or.State()
		st.LatestProcessedSlot = s.FirstSlot() - 1
		st.NextSlotToProcess = s.FirstSlot()
		if s.Start != 0 {
			st.LatestProcessedBlock = s.Block0
		}
		st.PoolAccumulatedFees = B(s.InitFees)
		total := B(s.InitFees)
		for _, i := range s.Inits {
			v := &s.Vals[i.V]
			pend, acc := B(i.Pend), B(i.Acc)
			st.Validators[v.Idx] = &oracle.ValidatorInfo{ValidatorStatus: oracle.ValidatorStatus(i.Status), AccumulatedRewardsWei: acc, PendingRewardsWei: pend,
				CollateralWei: big.NewInt(0), WithdrawalAddress: Low(v.Addr), ValidatorIndex: v.Idx, ValidatorKey: PubKeyHex(v.Idx), SubscriptionType: oracle.SubscriptionType(i.Sub)}
			total.Add(total, pend)
			total.Add(total, acc)
		}
		if total.Sign() > 0 {
			e := &contract.ContractEtherReceived{Sender: Addr(AccOther), DonationAmount: total, Raw: types.Log{Address: Addr(AccPool), BlockNumber: s.Block0, Data: []byte{}, Topics: nil}}
			e.Raw.Topics = append(e.Raw.Topics, evTopic("ether"))
			st.EtherReceivedEvents = append(st.EtherReceivedEvents, e)
			st.Donations = append(st.Donations, e)
		}
		if or.State().NextSlotToProcess != s.FirstSlot() {
			h.Must(fmt.Errorf("cannot set the initial state"))
		}
	}
	return or, cfg
}

// ErrUnspec: the scenario leaves the specified domain here; it ends.
var ErrUnspec = errors.New("unspecified")

// AdvanceError: the oracle refused the block with an error.
type AdvanceError struct{ error }

type StepCtx struct {
	I        int
	Step     *Step
	Raw      *Raw
	Pre, Got *MS
	Exp      *Expected
}

type Player struct {
	S      *Scn
	Or     *oracle.Oracle
	Cfg    *oracle.Config
	Block  uint64
	I      int
	Recv   *big.Int // received since the beginning
	Tags   map[string]int
	Slots  int
	Refuse bool // check refusals (C14, C15) strictly
	// Fetch gets a block's data another way than from the scenario itself
	Fetch func(raw *Raw, need bool) (*oracle.FullBlock, error)
}

func (s *Scn) Play() *Player {
	or, cfg := s.NewOracle()
	return s.PlayOn(or, cfg)
}

func (s *Scn) PlayOn(or *oracle.Oracle, cfg *oracle.Config) *Player {
	p := &Player{S: s, Or: or, Cfg: cfg, Block: s.Block0, Recv: new(big.Int), Tags: map[string]int{}}
	p.Recv = Extract(or.State()).Owed()
	return p
}

func (p *Player) More() bool { return p.I < len(p.S.Steps) }

func StateJSON(or *oracle.Oracle) []byte {
	b, err := json.Marshal(or.State())
	h.Must(err)
	return b
}

// MissedBlock is the oracle's input for a slot an unrelated validator missed.
func (s *Scn) MissedBlock(slot uint64) *oracle.FullBlock {
	return s.FullBlock(&Raw{Slot: slot, Prop: Stranger.Idx, Missed: true}, false)
}

// Skip processes one slot missed by an unrelated validator.
func (p *Player) Skip() error {
	slot := p.Or.State().NextSlotToProcess
	fb := p.S.MissedBlock(slot)
	if p.Fetch != nil {
		var err error
		if fb, err = p.Fetch(&Raw{Slot: slot, Prop: Stranger.Idx, Missed: true}, false); err != nil {
			return err
		}
	}
	got, err := p.Or.AdvanceStateToNextSlot(fb)
	if err != nil {
		return &AdvanceError{fmt.Errorf("slot %d missed by an unrelated validator: error %w", slot, err)}
	}
	if got != slot {
		return fmt.Errorf("slot %d missed by an unrelated validator: processed %d", slot, got)
	}
	p.Slots++
	return nil
}

// offer gives the oracle a block that must be refused.
func (p *Player) offer(fb *oracle.FullBlock, why string) error {
	before := StateJSON(p.Or)
	cfg := *p.Cfg
	_, err := p.Or.AdvanceStateToNextSlot(fb)
	if err == nil {
		return fmt.Errorf("a block that must be refused (%s) was accepted", why)
	}
	if after := StateJSON(p.Or); !bytes.Equal(before, after) {
		return fmt.Errorf("a refused block (%s) changed the state:\nbefore %s\nafter  %s", why, before, after)
	}
	if fmt.Sprintf("%+v", cfg) != fmt.Sprintf("%+v", *p.Cfg) {
		return fmt.Errorf("a refused block (%s) changed the configuration: %+v to %+v", why, cfg, *p.Cfg)
	}
	return nil
}

func stripCfg(st *Step) *Step {
	c := *st
	c.Evs = nil
	for _, e := range st.Evs {
		switch e.Kind {
		case "fee", "recip", "ckpt", "coll":
		default:
			c.Evs = append(c.Evs, e)
		}
	}
	return &c
}

// Step feeds the next step of the scenario (not its gap), and computes what must come out of it.
func (p *Player) Step() (*StepCtx, error) {
	st := &p.S.Steps[p.I]
	p.I++
	s := p.S
	pre := Extract(p.Or.State())
	slot := pre.Next
	sub := false
	if v := pre.Vals[s.Prop(st.Prop).Idx]; v != nil {
		sub = v.subscribed()
	}
	head := st.Header || s.NeedsHeader(st, sub)
	if st.SlotOff != 0 && (st.SlotOff > 0 || uint64(-st.SlotOff) < slot) {
		off := st
		if st.OffFee {
			off = stripCfg(st)
			off.Evs = append(off.Evs, Ev{Kind: "fee", Amt: fmt.Sprint(s.N().FeeValue)})
		}
		other := s.Build(off, slot+uint64(int64(st.SlotOff)), p.Block+1)
		// the offered block is valued with the state as it is
		if err := p.offer(s.FullBlock(other, !st.Missed), fmt.Sprintf("slot %+d", st.SlotOff)); err != nil {
			return nil, err
		}
		p.Tags["refuse:slot"]++
	}
	raw := s.Build(st, slot, p.Block+1)
	ex := s.Model(pre, st, raw)
	if ex.Refuse {
		if err := p.offer(s.FullBlock(raw, head), ex.Why); err != nil {
			return nil, err
		}
		for k, v := range ex.Tags {
			p.Tags[k] += v
		}
		st = stripCfg(st)
		raw = s.Build(st, slot, p.Block+1)
		ex = s.Model(pre, st, raw)
		if ex.Refuse {
			panic("refused twice: " + ex.Why)
		}
	}
	if ex.Unspec {
		p.Tags["unspecified"]++
		return nil, ErrUnspec
	}
	fb := s.FullBlock(raw, head)
	if p.Fetch != nil {
		var err error
		if fb, err = p.Fetch(raw, s.NeedsHeader(st, sub)); err != nil {
			return nil, err
		}
	}
	got, err := p.Or.AdvanceStateToNextSlot(fb)
	if err != nil {
		return nil, &AdvanceError{fmt.Errorf("slot %d (step %d): error %w", slot, p.I-1, err)}
	}
	if got != slot {
		return nil, fmt.Errorf("slot %d (step %d): reported %d as processed", slot, p.I-1, got)
	}
	if !st.Missed {
		p.Block++
	}
	p.Slots++
	p.Recv.Add(p.Recv, ex.Recv)
	for k, v := range ex.Tags {
		p.Tags[k] += v
	}
	return &StepCtx{I: p.I - 1, Step: st, Raw: raw, Pre: pre, Got: Extract(p.Or.State()), Exp: ex}, nil
}

// Run plays the whole scenario and calls f after every accepted slot of a step.
func (p *Player) Run(f func(*StepCtx) error) error {
	for p.More() {
		for i := 0; i < p.S.Steps[p.I].Gap; i++ {
			if err := p.Skip(); err != nil {
				return err
			}
		}
		c, err := p.Step()
		if err == ErrUnspec {
			return nil
		}
		if err != nil {
			return err
		}
		if err := f(c); err != nil {
			return fmt.Errorf("slot %d (step %d): %w", c.Raw.Slot, c.I, err)
		}
	}
	return nil
}

// Compare plays the scenario and compares every state with the reference model.
func (s *Scn) Compare(fields int, st *h.Stats, extra func(*Player, *StepCtx) error) (*Player, error) {
	p := s.Play()
	err := p.Run(func(c *StepCtx) error {
		if err := Diff(c.Exp.Post, c.Got, fields); err != nil {
			return err
		}
		if extra != nil {
			return extra(p, c)
		}
		return nil
	})
	for k := range p.Tags {
		st.Class("%s", k)
	}
	st.Eval(p.Slots)
	return p, err
}
