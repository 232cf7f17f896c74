package props

import (
	"errors"
	"fmt"
	"math/big"
	"reflect"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"

	"pgregory.net/rapid"
	"verifharness/h"
	"verifharness/sim"
)

// C24: a block is assembled from parts one of which does not belong to it.
type PartsCase struct {
	S    *sim.Scn
	At   int // step
	How  string
	I, J int
	Off  int
}

var parts = []string{"none", "duty-slot", "duty-validator", "validator", "validator-nil", "block-slot", "block-proposer", "header-number", "header-nil", "receipt-number", "receipts-nil",
	"receipt-dropped", "receipt-twice", "receipts-swapped", "receipt-other", "event-number", "subs-swapped", "subs-other", "subs-dropped", "unsubs-other", "unsubs-dropped"}

func cpVal(v *v1.Validator, off int) *v1.Validator {
	x := *v
	x.Index = phase0.ValidatorIndex(uint64(int64(x.Index) + int64(off)))
	return &x
}

// eventLists are pointers to the lists of a block's events.
func eventLists(e *oracle.Events) []reflect.Value {
	var out []reflect.Value
	v := reflect.ValueOf(e).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Slice && f.CanSet() && f.Type().Elem().Kind() == reflect.Pointer {
			if _, ok := f.Type().Elem().Elem().FieldByName("Raw"); ok {
				out = append(out, f)
			}
		}
	}
	return out
}

// assemble builds the step's block the way FetchFullBlock does; mismatch says that a part does not belong.
func (c *PartsCase) assemble(r *sim.Raw, need bool) (fb *oracle.FullBlock, mismatch bool) {
	s := c.S
	want := s.FullBlock(r, true)
	// the tips of the block matter
	tips := need
	if c.At < len(s.Steps) && r.Beacon != nil {
		if _, mev := s.Steps[c.At].LastMev(); mev {
			tips = false
		}
	}
	duty, val := want.ConsensusDuty, want.Validator
	blk, head, recs := r.Beacon, r.Header, append([]*types.Receipt{}, r.Receipts...)
	slot, prop := r.Slot, r.Prop
	subs, unsubs := append([]*v1.Validator{}, want.ValidatorsSubs...), append([]*v1.Validator{}, want.ValidatorsUnsubs...)
	var evs oracle.Events
	if r.Events != nil {
		evs = *r.Events
	}
	for _, f := range eventLists(&evs) { // copies
		n := reflect.MakeSlice(f.Type(), 0, f.Len())
		for i := 0; i < f.Len(); i++ {
			e := reflect.New(f.Type().Elem().Elem())
			e.Elem().Set(f.Index(i).Elem())
			n = reflect.Append(n, e)
		}
		f.Set(n)
	}
	other := func(vs []*v1.Validator) bool {
		if len(vs) == 0 || vs[c.I%len(vs)] == nil {
			return false
		}
		vs[c.I%len(vs)] = cpVal(vs[c.I%len(vs)], c.Off)
		return true
	}
	withRec := func(i int, f func(*types.Receipt)) bool {
		if len(recs) == 0 {
			return false
		}
		x := *recs[i%len(recs)]
		f(&x)
		recs[i%len(recs)] = &x
		return true
	}
	switch c.How {
	case "duty-slot":
		if blk == nil {
			break
		}
		d := *duty
		d.Slot = phase0.Slot(int64(d.Slot) + int64(c.Off))
		duty, mismatch = &d, true
	case "duty-validator":
		d := *duty
		d.ValidatorIndex = phase0.ValidatorIndex(int64(d.ValidatorIndex) + int64(c.Off))
		duty, mismatch = &d, true
	case "validator":
		val, mismatch = cpVal(val, c.Off), true
	case "validator-nil":
		val, mismatch = nil, true
	case "block-slot", "block-proposer":
		if blk == nil {
			break
		}
		if c.How == "block-slot" {
			slot = uint64(int64(slot) + int64(c.Off))
		} else {
			prop = uint64(int64(prop) + int64(c.Off))
		}
		blk, mismatch = rebuilt(blk, slot, prop), true
	case "header-number":
		if blk != nil && need {
			head = types.CopyHeader(head)
			head.Number.Add(head.Number, big.NewInt(int64(c.Off)))
			mismatch = true
		}
	case "header-nil":
		head, mismatch = nil, blk != nil && need
	case "receipt-number":
		mismatch = need && withRec(c.I, func(x *types.Receipt) {
			x.BlockNumber = new(big.Int).Add(x.BlockNumber, big.NewInt(int64(c.Off)))
		})
	case "receipts-nil":
		recs, mismatch = nil, blk != nil && need
	case "receipt-dropped":
		if len(recs) > 0 {
			i := c.I % len(recs)
			recs = append(recs[:i:i], recs[i+1:]...)
			mismatch = tips
		}
	case "receipt-twice":
		if len(recs) > 0 {
			recs = append(recs, recs[c.I%len(recs)])
			mismatch = tips
		}
	case "receipts-swapped":
		if n := len(recs); n > 1 && c.I%n != c.J%n {
			recs[c.I%n], recs[c.J%n] = recs[c.J%n], recs[c.I%n]
			mismatch = tips
		}
	case "receipt-other":
		mismatch = tips && withRec(c.I, func(x *types.Receipt) { x.TxHash = common.Hash{byte(c.J), 7} })
	case "event-number":
		if blk == nil {
			break
		}
		// an event the block has, or one of a kind it has none of
		ls := eventLists(&evs)
		f := ls[c.I%len(ls)]
		for k := 0; k < len(ls) && f.Len() == 0 && c.J%3 != 0; k++ {
			f = ls[(c.I+k)%len(ls)]
		}
		if f.Len() == 0 {
			e := reflect.New(f.Type().Elem().Elem())
			e.Elem().FieldByName("Raw").Set(reflect.ValueOf(types.Log{BlockNumber: r.Block}))
			f.Set(reflect.Append(f, e))
		}
		raw := f.Index(c.J % f.Len()).Elem().FieldByName("Raw").Addr().Interface().(*types.Log)
		raw.BlockNumber = uint64(int64(raw.BlockNumber) + int64(c.Off))
		mismatch = true
	case "subs-swapped":
		if n := len(subs); n > 1 {
			i, j := c.I%n, c.J%n
			a, b := subs[i], subs[j]
			subs[i], subs[j] = b, a
			mismatch = a != nil && b != nil && a.Index != b.Index
		}
	case "subs-other":
		mismatch = other(subs)
	case "subs-dropped":
		if len(subs) > 0 {
			subs, mismatch = subs[:len(subs)-1], true
		}
	case "unsubs-other":
		mismatch = other(unsubs)
	case "unsubs-dropped":
		if len(unsubs) > 0 {
			unsubs, mismatch = unsubs[:len(unsubs)-1], true
		}
	}
	fb = oracle.NewFullBlock(duty, val, s.N().ChainId)
	if blk == nil {
		return fb, mismatch
	}
	fb.SetConsensusBlock(blk)
	fb.SetEvents(&evs)
	fb.ValidatorsSubs, fb.ValidatorsUnsubs = subs, unsubs
	if need {
		fb.SetHeaderAndReceipts(head, recs)
	}
	return fb, mismatch
}

// mismatched is assemble's second result, also when assembling stops.
func (c *PartsCase) mismatched(r *sim.Raw, need bool) (fb *oracle.FullBlock, mismatch bool, why string, stop bool) {
	// a dry pass on a copy of the case says whether the part can be exchanged
	why, stop = stopped(func() { fb, mismatch = c.assemble(r, need) })
	return
}

func init() {
	h.Add("C24", "mismatched-parts", "a part that does not belong to the block", 40000, 1200000,
		func(t *rapid.T) *PartsCase {
			pf := with(func(p *sim.Profile) {
				p.MaxSteps = 4
				p.MaxVals = 4
				p.Sub = 50
				p.Unsub = 45
				p.WOk = 8
				p.WWrong = 3
				p.MaxGap = 2
			})
			c := &PartsCase{S: sim.Gen(t, pf)}
			c.At = sim.U(t, len(c.S.Steps), "at")
			c.How = sim.Of(t, "how", parts...)
			c.I, c.J = sim.U(t, 40, "i"), sim.U(t, 40, "j")
			c.Off = sim.Of(t, "off", 1, -1, 2, 1000)
			return c
		},
		func(c *PartsCase, st *h.Stats) error {
			p := c.S.Play()
			bad, stop := false, false
			why, step := "", -1
			p.Fetch = func(r *sim.Raw, need bool) (*oracle.FullBlock, error) {
				x := *c
				step = p.I - 1
				if p.I-1 != c.At || r.Events == nil { // Skip's blocks have none
					x.How = "none"
				}
				var fb *oracle.FullBlock
				fb, bad, why, stop = x.mismatched(r, need)
				if stop {
					return nil, errStopped
				}
				return fb, nil
			}
			var err error
			msg, fatal := h.Catch(func() {
				err = p.Run(func(x *sim.StepCtx) error {
					if bad {
						return fmt.Errorf("a block with %s (i %d, j %d, %+d) was processed", c.How, c.I, c.J, c.Off)
					}
					return sim.Diff(x.Exp.Post, x.Got, sim.FAll)
				})
			})
			var ae *sim.AdvanceError
			if fatal || errors.As(err, &ae) {
				why, stop = fmt.Sprint(msg, ae), true
			} else if err != nil && err != errStopped {
				return err
			}
			if stop {
				st.Class("stopped by %s", c.How)
				if step != c.At || c.How == "none" || !c.possible() {
					return fmt.Errorf("consistent data (step %d) stopped the oracle: %s", step, why)
				}
				st.NT()
				return nil
			}
			st.Class("played with %s", c.How)
			return nil
		})
}

// possible says that the step has the part in question.
func (c *PartsCase) possible() bool {
	st := &c.S.Steps[c.At]
	switch c.How {
	case "duty-validator", "validator", "validator-nil":
		return true
	case "subs-swapped", "subs-other", "subs-dropped":
		return !st.Missed && hasEv(st, "sub")
	case "unsubs-other", "unsubs-dropped":
		return !st.Missed && hasEv(st, "unsub")
	case "receipt-number", "receipt-dropped", "receipt-twice", "receipts-swapped", "receipt-other":
		return !st.Missed && len(st.Txs) > 0
	}
	return !st.Missed
}

func hasEv(st *sim.Step, kind string) bool {
	for _, e := range st.Evs {
		if e.Kind == kind {
			return true
		}
	}
	return false
}
