package sim

import (
	"encoding/binary"
	"fmt"
	"math/big"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/altair"
	"github.com/attestantio/go-eth2-client/spec/bellatrix"
	"github.com/attestantio/go-eth2-client/spec/capella"
	"github.com/attestantio/go-eth2-client/spec/deneb"
	"github.com/attestantio/go-eth2-client/spec/electra"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"
	"github.com/prysmaticlabs/go-bitfield"
)

type Opt = retry.Option

func NewCons(src, tgt uint64) oracle.PendingConsolidation {
	return oracle.PendingConsolidation{SourceIndex: phase0.ValidatorIndex(src), TargetIndex: phase0.ValidatorIndex(tgt)}
}

// Raw is what the chain contains at one slot.
type Raw struct {
	Slot, Block uint64
	Prop        uint64
	Missed      bool
	Beacon      *spec.VersionedSignedBeaconBlock
	Header      *types.Header
	Receipts    []*types.Receipt
	Txs         []*types.Transaction
	Events      *oracle.Events
	Subs        []uint64
	Unsubs      []uint64
	Logs        []types.Log
}

// MakeTx builds and signs a transaction. The fee cap is always at least the base fee.
func MakeTx(x Tx, nonce uint64, chain uint64, base uint64) *types.Transaction {
	cid := new(big.Int).SetUint64(chain)
	var to *common.Address
	if x.To >= 0 {
		a := Addr(x.To)
		to = &a
	}
	val := B(x.Value)
	gasPrice := new(big.Int).SetUint64(base)
	gasPrice.Add(gasPrice, new(big.Int).SetUint64(x.Tip))
	// max fee: from exactly the base fee to above base fee + tip; tip must not exceed it
	maxFee := new(big.Int).SetUint64(base)
	maxFee.Add(maxFee, new(big.Int).SetUint64(x.Slack))
	tip := new(big.Int).SetUint64(x.Tip)
	if tip.Cmp(maxFee) > 0 {
		tip.Set(maxFee)
	}
	u := func(b *big.Int) *uint256.Int { r, _ := uint256.FromBig(b); return r }
	typ := x.Type
	if x.To < 0 && (typ == 3 || typ == 4) {
		typ = 2 // blob and set-code transactions cannot create contracts
	}
	var inner types.TxData
	var signer types.Signer = types.LatestSignerForChainID(cid)
	switch typ {
	case 0:
		inner = &types.LegacyTx{Nonce: nonce, GasPrice: gasPrice, Gas: x.GasUsed, To: to, Value: val}
	case 5:
		inner = &types.LegacyTx{Nonce: nonce, GasPrice: gasPrice, Gas: x.GasUsed, To: to, Value: val}
		signer = types.HomesteadSigner{}
	case 1:
		inner = &types.AccessListTx{ChainID: cid, Nonce: nonce, GasPrice: gasPrice, Gas: x.GasUsed, To: to, Value: val}
	case 2:
		inner = &types.DynamicFeeTx{ChainID: cid, Nonce: nonce, GasTipCap: tip, GasFeeCap: maxFee, Gas: x.GasUsed, To: to, Value: val}
	case 3:
		inner = &types.BlobTx{ChainID: u(cid), Nonce: nonce, GasTipCap: u(tip), GasFeeCap: u(maxFee), Gas: x.GasUsed, To: *to, Value: u(val),
			BlobFeeCap: uint256.NewInt(7), BlobHashes: []common.Hash{{1}}}
	case 4:
		inner = &types.SetCodeTx{ChainID: u(cid), Nonce: nonce, GasTipCap: u(tip), GasFeeCap: u(maxFee), Gas: x.GasUsed, To: *to, Value: u(val),
			AuthList: []types.SetCodeAuthorization{{ChainID: *u(cid), Address: Addr(AccContr), Nonce: 1}}}
	}
	tx, err := types.SignNewTx(Key(x.From), signer, inner)
	if err != nil {
		panic(err)
	}
	return tx
}

// Price is the price per gas a transaction pays, from its description alone.
func (x Tx) Price(base uint64) *big.Int {
	p := new(big.Int).SetUint64(base)
	switch x.Type {
	case 0, 1, 5:
		return p.Add(p, new(big.Int).SetUint64(x.Tip))
	}
	maxFee := new(big.Int).Add(p, new(big.Int).SetUint64(x.Slack))
	tip := new(big.Int).SetUint64(x.Tip)
	if tip.Cmp(maxFee) > 0 {
		tip.Set(maxFee)
	}
	p.Add(p, tip)
	if p.Cmp(maxFee) > 0 {
		return maxFee
	}
	return p
}

// LastMev tells whether the last transaction is, by description, a MEV payment.
func (st *Step) LastMev() (Tx, bool) {
	if st.Missed || len(st.Txs) == 0 {
		return Tx{}, false
	}
	l := st.Txs[len(st.Txs)-1]
	if l.To < 0 {
		return l, false
	}
	return l, l.From == st.FeeRec || l.From == AccWhite
}

// AllEvs are the step's events plus, when its MEV payment credits the pool, the ether event of it.
func (st *Step) AllEvs() []Ev {
	evs := append([]Ev(nil), st.Evs...)
	if l, ok := st.LastMev(); ok {
		if l.To == AccPool {
			evs = append(evs, Ev{Kind: "ether", Sender: l.From, Amt: l.Value})
		} else if st.ViaCtr {
			evs = append(evs, Ev{Kind: "ether", Sender: AccContr, Amt: l.Value})
		}
	}
	return evs
}

// EvSig are the contract's event signatures.
var EvSig = map[string]string{
	"ether": "EtherReceived(address,uint256)",
	"sub":   "SubscribeValidator(address,uint256,uint64)",
	"unsub": "UnsubscribeValidator(address,uint64)",
	"ban":   "BanValidator(uint64)",
	"unban": "UnbanValidator(uint64)",
	"fee":   "UpdatePoolFee(uint256)",
	"recip": "UpdatePoolFeeRecipient(address)",
	"ckpt":  "UpdateCheckpointSlotSize(uint64)",
	"coll":  "UpdateSubscriptionCollateral(uint256)",
	// events the oracle has no use for
	"claim": "ClaimRewards(address,address,uint256)",
	"rept":  "SubmitReport(uint256,bytes32,address)",
}

var topics = map[string]common.Hash{}

func init() {
	for k, v := range EvSig {
		topics[k] = crypto.Keccak256Hash([]byte(v))
	}
}

func evTopic(kind string) common.Hash { return topics[kind] }

func Word(x *big.Int) []byte { return common.LeftPadBytes(x.Bytes(), 32) }

func evData(e Ev) []byte {
	a := common.LeftPadBytes(Addr(e.Sender).Bytes(), 32)
	amt := Word(B(e.Amt))
	idx := Word(new(big.Int).SetUint64(e.Idx))
	cat := func(ws ...[]byte) []byte {
		var r []byte
		for _, w := range ws {
			r = append(r, w...)
		}
		return r
	}
	switch e.Kind {
	case "ether":
		return cat(a, amt)
	case "sub":
		return cat(a, amt, idx)
	case "unsub":
		return cat(a, idx)
	case "ban", "unban":
		return idx
	case "recip":
		return a
	case "claim":
		return cat(a, a, amt)
	case "rept":
		return cat(idx, amt, a)
	}
	return amt
}

// Build makes the raw chain contents of one slot.
func (s *Scn) Build(st *Step, slot, block uint64) *Raw {
	r := &Raw{Slot: slot, Prop: s.Prop(st.Prop).Idx, Missed: st.Missed, Events: &oracle.Events{}}
	if st.Missed {
		return r
	}
	r.Block = block
	chain := s.N().ChainId
	var raw []bellatrix.Transaction
	var gas uint64
	for i, x := range st.Txs {
		tx := MakeTx(x, slot*1000+uint64(i), chain, st.BaseFee)
		b, err := tx.MarshalBinary()
		if err != nil {
			panic(err)
		}
		raw = append(raw, b)
		r.Txs = append(r.Txs, tx)
		gas += x.GasUsed
		r.Receipts = append(r.Receipts, &types.Receipt{Type: tx.Type(), Status: 1, TxHash: tx.Hash(), GasUsed: x.GasUsed, CumulativeGasUsed: gas,
			BlockNumber: new(big.Int).SetUint64(block), TransactionIndex: uint(i), Logs: []*types.Log{}})
	}
	if r.Receipts == nil {
		r.Receipts = []*types.Receipt{}
	}
	r.Header = &types.Header{Number: new(big.Int).SetUint64(block), BaseFee: new(big.Int).SetUint64(st.BaseFee), GasUsed: gas,
		Difficulty: new(big.Int), Extra: []byte{}}
	r.Beacon = BeaconBlock(st.Fork, slot, r.Prop, block, Addr(st.FeeRec), st.BaseFee, gas, raw)

	for i, e := range st.AllEvs() {
		txi := i
		switch {
		case st.Group == 1:
			txi = 0
		case st.Group > 1:
			txi = i / st.Group
		}
		lg := types.Log{Address: Addr(AccPool), Topics: []common.Hash{evTopic(e.Kind)}, Data: evData(e), BlockNumber: block, BlockHash: r.Header.Hash(),
			TxHash: crypto.Keccak256Hash([]byte(fmt.Sprintf("ev %d %d", block, txi))), TxIndex: uint(txi), Index: uint(i)}
		if i >= len(st.Evs) || st.Group == 1 && len(st.AllEvs()) > len(st.Evs) {
			// the event of the MEV payment belongs to the last transaction, and others may be in it
			lg.TxIndex = uint(len(r.Txs) - 1)
			lg.TxHash = r.Txs[lg.TxIndex].Hash()
		}
		ev := r.Events
		amt := B(e.Amt)
		sender := Addr(e.Sender)
		switch e.Kind {
		case "ether":
			ev.EtherReceived = append(ev.EtherReceived, &contract.ContractEtherReceived{Sender: sender, DonationAmount: amt, Raw: lg})
		case "sub":
			ev.SubscribeValidator = append(ev.SubscribeValidator, &contract.ContractSubscribeValidator{Sender: sender, SubscriptionCollateral: amt, ValidatorID: e.Idx, Raw: lg})
			r.Subs = append(r.Subs, e.Idx)
		case "unsub":
			ev.UnsubscribeValidator = append(ev.UnsubscribeValidator, &contract.ContractUnsubscribeValidator{Sender: sender, ValidatorID: e.Idx, Raw: lg})
			r.Unsubs = append(r.Unsubs, e.Idx)
		case "ban":
			ev.BanValidator = append(ev.BanValidator, &contract.ContractBanValidator{ValidatorID: e.Idx, Raw: lg})
		case "unban":
			ev.UnbanValidator = append(ev.UnbanValidator, &contract.ContractUnbanValidator{ValidatorID: e.Idx, Raw: lg})
		case "fee":
			ev.UpdatePoolFee = append(ev.UpdatePoolFee, &contract.ContractUpdatePoolFee{NewPoolFee: amt, Raw: lg})
		case "recip":
			ev.PoolFeeRecipient = append(ev.PoolFeeRecipient, &contract.ContractUpdatePoolFeeRecipient{NewPoolFeeRecipient: sender, Raw: lg})
		case "ckpt":
			ev.CheckpointSlotSize = append(ev.CheckpointSlotSize, &contract.ContractUpdateCheckpointSlotSize{NewCheckpointSlotSize: amt.Uint64(), Raw: lg})
		case "coll":
			ev.UpdateSubscriptionCollateral = append(ev.UpdateSubscriptionCollateral, &contract.ContractUpdateSubscriptionCollateral{NewSubscriptionCollateral: amt, Raw: lg})
		case "claim", "rept":
		default:
			panic("event kind " + e.Kind)
		}
		r.Logs = append(r.Logs, lg)
	}
	return r
}

// BeaconBlock makes a beacon block of the given fork that carries the payload.
func BeaconBlock(fork int, slot, prop, block uint64, feeRec common.Address, base, gas uint64, txs []bellatrix.Transaction) *spec.VersionedSignedBeaconBlock {
	fr := bellatrix.ExecutionAddress(feeRec)
	var le [32]byte
	binary.LittleEndian.PutUint64(le[:], base)
	sl, pi := phase0.Slot(slot), phase0.ValidatorIndex(prop)
	eth1 := &phase0.ETH1Data{BlockHash: make([]byte, 32)}
	sync := &altair.SyncAggregate{SyncCommitteeBits: bitfield.NewBitvector512()}
	if txs == nil {
		txs = []bellatrix.Transaction{}
	}
	switch fork {
	case 0:
		return &spec.VersionedSignedBeaconBlock{Version: spec.DataVersionBellatrix, Bellatrix: &bellatrix.SignedBeaconBlock{Message: &bellatrix.BeaconBlock{Slot: sl, ProposerIndex: pi,
			Body: &bellatrix.BeaconBlockBody{ETH1Data: eth1, SyncAggregate: sync, ExecutionPayload: &bellatrix.ExecutionPayload{FeeRecipient: fr, BlockNumber: block, GasUsed: gas, BaseFeePerGas: le, ExtraData: []byte{}, Transactions: txs}}}}}
	case 1:
		return &spec.VersionedSignedBeaconBlock{Version: spec.DataVersionCapella, Capella: &capella.SignedBeaconBlock{Message: &capella.BeaconBlock{Slot: sl, ProposerIndex: pi,
			Body: &capella.BeaconBlockBody{ETH1Data: eth1, SyncAggregate: sync, ExecutionPayload: &capella.ExecutionPayload{FeeRecipient: fr, BlockNumber: block, GasUsed: gas, BaseFeePerGas: le, ExtraData: []byte{}, Transactions: txs}}}}}
	}
	pl := &deneb.ExecutionPayload{FeeRecipient: fr, BlockNumber: block, GasUsed: gas, BaseFeePerGas: uint256.NewInt(base), ExtraData: []byte{}, Transactions: txs}
	switch fork {
	case 2:
		return &spec.VersionedSignedBeaconBlock{Version: spec.DataVersionDeneb, Deneb: &deneb.SignedBeaconBlock{Message: &deneb.BeaconBlock{Slot: sl, ProposerIndex: pi,
			Body: &deneb.BeaconBlockBody{ETH1Data: eth1, SyncAggregate: sync, ExecutionPayload: pl}}}}
	}
	eb := &electra.SignedBeaconBlock{Message: &electra.BeaconBlock{Slot: sl, ProposerIndex: pi,
		Body: &electra.BeaconBlockBody{ETH1Data: eth1, SyncAggregate: sync, ExecutionPayload: pl, ExecutionRequests: &electra.ExecutionRequests{}}}}
	if fork == 3 {
		return &spec.VersionedSignedBeaconBlock{Version: spec.DataVersionElectra, Electra: eb}
	}
	return &spec.VersionedSignedBeaconBlock{Version: spec.DataVersionFulu, Fulu: eb}
}

// FullBlock is the oracle's input for a slot, as FetchFullBlock assembles it.
func (s *Scn) FullBlock(r *Raw, headers bool) *oracle.FullBlock {
	duty := &v1.ProposerDuty{PubKey: PubKey(r.Prop), Slot: phase0.Slot(r.Slot), ValidatorIndex: phase0.ValidatorIndex(r.Prop)}
	fb := oracle.NewFullBlock(duty, s.ApiVal(r.Prop, r.Slot), s.N().ChainId)
	if r.Missed {
		return fb
	}
	fb.SetConsensusBlock(r.Beacon)
	fb.SetEvents(r.Events)
	fb.ValidatorsSubs = []*v1.Validator{}
	fb.ValidatorsUnsubs = []*v1.Validator{}
	for _, i := range r.Subs {
		fb.ValidatorsSubs = append(fb.ValidatorsSubs, s.ApiVal(i, r.Slot))
	}
	for _, i := range r.Unsubs {
		fb.ValidatorsUnsubs = append(fb.ValidatorsUnsubs, s.ApiVal(i, r.Slot))
	}
	if headers {
		fb.SetHeaderAndReceipts(r.Header, r.Receipts)
	}
	return fb
}
