package sim

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"

	"github.com/dappnode/mev-sp-oracle/oracle"

	"verifharness/h"
)

// Tape is a scenario laid out slot by slot, to be fed to any number of oracles from any position.
type Tape struct {
	S     *Scn
	First uint64
	Steps []int    // step of every slot, -1 for a slot missed by an unrelated validator
	Block []uint64 // block number of every slot
}

func (s *Scn) Tape() *Tape {
	tp := &Tape{S: s, First: s.FirstSlot()}
	b := s.Block0
	for i := range s.Steps {
		for g := 0; g < s.Steps[i].Gap; g++ {
			tp.Steps = append(tp.Steps, -1)
			tp.Block = append(tp.Block, 0)
		}
		if !s.Steps[i].Missed {
			b++
		}
		tp.Steps = append(tp.Steps, i)
		tp.Block = append(tp.Block, b)
	}
	return tp
}

func (tp *Tape) Len() int { return len(tp.Steps) }

// Full makes a fresh input for a position.
func (tp *Tape) Full(pos int) *oracle.FullBlock {
	slot := tp.First + uint64(pos)
	if tp.Steps[pos] < 0 {
		return tp.S.MissedBlock(slot)
	}
	st := &tp.S.Steps[tp.Steps[pos]]
	return tp.S.FullBlock(tp.S.Build(st, slot, tp.Block[pos]), !st.Missed)
}

// Feed processes one position as the main loop does: advance, then freeze at a checkpoint.
func (tp *Tape) Feed(or *oracle.Oracle, pos int) error {
	slot := tp.First + uint64(pos)
	got, err := or.AdvanceStateToNextSlot(tp.Full(pos))
	if err != nil || got != slot {
		return fmt.Errorf("slot %d: processed %d, error %v", slot, got, err)
	}
	return Freeze(or)
}

func Freeze(or *oracle.Oracle) error {
	is, err := or.IsCheckpoint()
	if err != nil {
		return fmt.Errorf("IsCheckpoint: %v", err)
	}
	if is {
		or.FreezeCheckpoint()
	}
	return nil
}

// PlainJSON is the whole state, without its hash field.
func PlainJSON(or *oracle.Oracle) []byte {
	st := *or.State()
	st.StateHash = ""
	b, err := json.MarshalIndent(&st, "", " ")
	h.Must(err)
	return b
}

// HashOf is the specified hash of a state.
func HashOf(plain []byte) string {
	s := sha256.Sum256(plain)
	return "0x" + hex.EncodeToString(s[:])
}
