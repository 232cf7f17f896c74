// Package sim holds the chain scenarios the oracle checks run on: plain-data
// descriptions of slots (who proposes, which fork, which transactions, which
// contract events), the builder that turns them into the oracle's input, and an
// independent reference model of what the oracle must do with them.
package sim

import (
	"crypto/ecdsa"
	"encoding/hex"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

// Network facts, written down independently of the code under test.
type Net struct {
	Name     string
	ChainId  uint64
	Fork1    uint64
	Electra  uint64 // 0: never
	FeeSlot  uint64 // 0: no scheduled fee change
	FeeValue int
}

var Nets = map[string]Net{
	"mainnet": {"mainnet", 1, 10188220, 11649024, 14082460, 500},
	"holesky": {"holesky", 17000, 2720632, 0, 0, 0},
	"hoodi":   {"hoodi", 560048, 1, 65536, 2801050, 500},
}

// Foreign is a builder that is whitelisted on other networks only.
func (n Net) Foreign() int {
	if n.ChainId == 1 {
		return AccWhiteT
	}
	return AccWhiteM
}

func (n Net) IsElectra(slot uint64) bool { return n.Electra != 0 && slot >= n.Electra }
func (n Net) IsFork1(slot uint64) bool   { return slot >= n.Fork1 }

const CleanupEvery = 1200

// Accounts. 0 is the pool contract and 1 the fee address: nobody signs with those.
const (
	AccPool    = 0
	AccFees    = 1
	AccWd0     = 2 // 2..9: withdrawal addresses
	AccBuilder = 10
	AccWhite   = 11 // whitelisted builder
	AccContr   = 12 // some contract
	AccOther   = 13
	AccWhiteM  = 14 // builder whitelisted on mainnet only
	AccWhiteT  = 15 // builder whitelisted on the test networks only
	AccN       = 16
	AccCrowd   = AccN // withdrawal addresses of crowds
	nCrowd     = 160
)

var keys [AccN + nCrowd]*ecdsa.PrivateKey
var addrs [AccN + nCrowd]common.Address

func init() {
	for i := range keys {
		k, err := crypto.ToECDSA(crypto.Keccak256([]byte(fmt.Sprintf("verif account %d", i))))
		if err != nil {
			panic(err)
		}
		keys[i] = k
		addrs[i] = crypto.PubkeyToAddress(k.PublicKey)
	}
	for id := range oracle.WhitelistedBuilders {
		other := AccWhiteT
		if id == 1 {
			other = AccWhiteM
		}
		oracle.WhitelistedBuilders[id] = append(oracle.WhitelistedBuilders[id], addrs[AccWhite].String(), addrs[other].String())
	}
}

// WithPool runs f with another address for the pool.
func WithPool(a string, f func()) {
	old := addrs[AccPool]
	defer func() { addrs[AccPool] = old }()
	addrs[AccPool] = common.HexToAddress(a)
	f()
}

func Addr(i int) common.Address { return addrs[i] }

// Account key (for fakes that need to sign).
func Key(i int) *ecdsa.PrivateKey { return keys[i] }

func Low(i int) string { return strings.ToLower(addrs[i].String()) }

// Cased returns the address in one of several letter cases.
func Cased(i int, c int) string {
	s := addrs[i].String()
	switch c {
	case 1:
		return strings.ToLower(s)
	case 2:
		return "0x" + strings.ToUpper(s[2:])
	}
	return s
}

const (
	CredBls = iota
	Cred01
	Cred02
	CredBadPrefix
	CredBadPad
)

type StatusAt struct {
	From uint64
	St   int
}
type EffAt struct {
	From uint64
	Eff  uint64
}

// A beacon chain validator. Status and effective balance are piecewise constant in the slot.
type Val struct {
	Idx    uint64
	Cred   int
	Addr   int
	CredAt uint64 // before this slot the credentials are BLS (0: never were)
	Status []StatusAt
	Eff    []EffAt
}

// A validator the oracle already tracks when the scenario starts.
type Init struct {
	V      int // index in Vals
	Status int
	Pend   string
	Acc    string
	Sub    int
}

type Tx struct {
	Type    int // 0-4, 5: legacy without replay protection
	From    int
	To      int // -1: contract creation
	Value   string
	Tip     uint64 // gwei-free: wei per gas above (type 2+: max priority fee)
	Slack   uint64 // type 2+: fee cap = base + min... see builder
	GasUsed uint64
}

type Ev struct {
	Kind   string // ether sub unsub ban unban fee recip ckpt coll
	Idx    uint64
	Sender int
	Amt    string
}

type Step struct {
	Gap     int // slots missed before this one by validators nobody tracks
	Prop    int // index in Vals, -1: an unrelated validator
	Missed  bool
	Fork    int // 0 bellatrix 1 capella 2 deneb 3 electra 4 fulu
	FeeRec  int
	BaseFee uint64
	Txs     []Tx
	ViaCtr  bool // the MEV reward is delivered to the pool by a contract
	Header  bool // header and receipts are there even when not needed
	Evs     []Ev
	SlotOff int  // a block for slot+SlotOff is offered first, and must be refused
	OffFee  bool // that block carries the scheduled fee change
	Group   int  // events per transaction: 0 one, 1 all, k k
}

type Cons struct {
	Src, Tgt uint64
	From, To uint64
}

type Scn struct {
	Net      string
	Slot0    uint64
	Block0   uint64
	Fee      int
	Coll     string
	Ckpt     uint64
	PoolCase int
	FeeCase  int
	Vals     []Val
	Inits    []Init
	InitFees string
	Start    uint64 // first slot processed after the initial state (0: Slot0)
	Steps    []Step
	Cons     []Cons
}

func B(s string) *big.Int {
	if s == "" {
		return new(big.Int)
	}
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad number " + s)
	}
	return x
}

func (s *Scn) N() Net { return Nets[s.Net] }

func (s *Scn) Cfg() *oracle.Config {
	return &oracle.Config{
		ConsensusEndpoint: "http://consensus", ExecutionEndpoint: "http://execution",
		Network:                  s.Net,
		PoolAddress:              Cased(AccPool, s.PoolCase),
		DeployedSlot:             s.Slot0,
		DeployedBlock:            s.Block0,
		CheckPointSizeInSlots:    s.Ckpt,
		PoolFeesPercentOver10000: s.Fee,
		PoolFeesAddress:          Cased(AccFees, s.FeeCase),
		CollateralInWei:          B(s.Coll),
	}
}

func PubKey(idx uint64) phase0.BLSPubKey {
	var k phase0.BLSPubKey
	h := crypto.Keccak256([]byte(fmt.Sprintf("pubkey %d", idx)))
	copy(k[:], h)
	copy(k[32:], crypto.Keccak256(h))
	return k
}

func PubKeyHex(idx uint64) string {
	k := PubKey(idx)
	return "0x" + hex.EncodeToString(k[:])
}

// Status of a validator at a slot.
func (v *Val) StatusAt(slot uint64) v1.ValidatorState {
	st := v1.ValidatorStateActiveOngoing
	for _, s := range v.Status {
		if slot >= s.From {
			st = v1.ValidatorState(s.St)
		}
	}
	return st
}

func (v *Val) EffAt(slot uint64) uint64 {
	e := uint64(32000000000)
	for _, x := range v.Eff {
		if slot >= x.From {
			e = x.Eff
		}
	}
	return e
}

func (v *Val) CredTypeAt(slot uint64) int {
	if slot < v.CredAt {
		return CredBls
	}
	return v.Cred
}

// Cred bytes of a validator at a slot.
func (v *Val) CredBytes(slot uint64) []byte {
	c := make([]byte, 32)
	switch v.CredTypeAt(slot) {
	case CredBls:
		copy(c, crypto.Keccak256([]byte(fmt.Sprintf("bls %d", v.Idx))))
		c[0] = 0
	case Cred01:
		c[0] = 1
		copy(c[12:], addrs[v.Addr][:])
	case Cred02:
		c[0] = 2
		copy(c[12:], addrs[v.Addr][:])
	case CredBadPrefix:
		c[0] = 3
		copy(c[12:], addrs[v.Addr][:])
	case CredBadPad:
		c[0] = 1
		c[7] = 9
		copy(c[12:], addrs[v.Addr][:])
	}
	return c
}

// Wd is the withdrawal address of a validator at a slot, if it has one.
func (v *Val) Wd(slot uint64) (string, bool) {
	switch v.CredTypeAt(slot) {
	case Cred01, Cred02:
		return Low(v.Addr), true
	}
	return "", false
}

// Stranger is a validator no scenario ever tracks.
var Stranger = Val{Idx: 77777777, Cred: CredBls}

func (s *Scn) Prop(i int) *Val {
	if i < 0 {
		return &Stranger
	}
	return &s.Vals[i]
}

func (s *Scn) ValByIdx(idx uint64) *Val {
	for i := range s.Vals {
		if s.Vals[i].Idx == idx {
			return &s.Vals[i]
		}
	}
	if idx == Stranger.Idx {
		return &Stranger
	}
	return nil
}

// ApiVal is the beacon node's record of a validator at a slot (nil if it does not exist).
func (s *Scn) ApiVal(idx uint64, slot uint64) *v1.Validator {
	v := s.ValByIdx(idx)
	if v == nil {
		return nil
	}
	return &v1.Validator{
		Index:   phase0.ValidatorIndex(v.Idx),
		Balance: phase0.Gwei(v.EffAt(slot)/3 + 1000000007*(v.Idx%97) + slot%1000), // not the effective balance
		Status:  v.StatusAt(slot),
		Validator: &phase0.Validator{
			PublicKey:             PubKey(v.Idx),
			WithdrawalCredentials: v.CredBytes(slot),
			EffectiveBalance:      phase0.Gwei(v.EffAt(slot)),
			ActivationEpoch:       1,
		},
	}
}

// StateSlot reads the slot a state is asked for. The node has no states from long before or
// long after the slots of the scenario.
func (s *Scn) StateSlot(id string) (uint64, error) {
	n, err := strconv.ParseUint(id, 10, 64)
	if err != nil {
		return 0, fmt.Errorf("400: invalid state id %q", id)
	}
	lo := s.Start
	if lo == 0 {
		lo = s.Slot0
	}
	hi := lo
	for _, st := range s.Steps {
		hi += uint64(st.Gap) + 1
	}
	if n+1000 < lo || n > hi+1000 {
		return 0, fmt.Errorf("404: no state at slot %s", id)
	}
	return n, nil
}

// Attach connects an oracle to the scenario's beacon chain.
func (s *Scn) Attach(or *oracle.Oracle) {
	or.SetGetSetOfValidatorsFunc(s.GetSet())
	or.GetPendingConsolidationsFunc(s.GetCons())
}

func (s *Scn) GetSet() oracle.GetSetOfValidatorsFunc {
	return func(idxs []phase0.ValidatorIndex, slot string, _ ...Opt) (map[phase0.ValidatorIndex]*v1.Validator, error) {
		if len(idxs) == 0 {
			return nil, fmt.Errorf("no indices")
		}
		n, err := s.StateSlot(slot)
		if err != nil {
			return nil, err
		}
		out := map[phase0.ValidatorIndex]*v1.Validator{}
		for _, i := range idxs {
			v := s.ApiVal(uint64(i), n)
			if v == nil {
				return nil, fmt.Errorf("validator %d not found", i)
			}
			out[i] = v
		}
		return out, nil
	}
}

func (s *Scn) ConsAt(slot uint64) map[uint64]uint64 {
	m := map[uint64]uint64{}
	for _, c := range s.Cons {
		if slot >= c.From && slot < c.To {
			m[c.Src] = c.Tgt
		}
	}
	return m
}

func (s *Scn) GetCons() oracle.GetPendingConsolidationsFunc {
	return func(stateID string, _ ...Opt) (*oracle.PendingConsolidationsResponse, error) {
		slot, err := s.StateSlot(stateID)
		if err != nil {
			return nil, err
		}
		if n := s.N(); n.Electra != 0 && slot < n.Electra {
			return nil, fmt.Errorf("404: no pending consolidations before electra")
		}
		r := &oracle.PendingConsolidationsResponse{Version: "electra"}
		for _, c := range s.Cons {
			if slot >= c.From && slot < c.To {
				r.Data = append(r.Data, NewCons(c.Src, c.Tgt))
			}
		}
		return r, nil
	}
}
