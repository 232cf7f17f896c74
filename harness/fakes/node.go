// Package fakes simulates the beacon node and the execution node the oracle talks to,
// over HTTP, from a scenario of package sim. Faults can be injected per request.
package fakes

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"sync"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"verifharness/h"
	"verifharness/sim"
)

// What goes wrong with one request. Class names a kind of request ("block", "validators", "duties",
// "consolidations", "finalized", "state", "config", an execution method such as "eth_getLogs", or "logs:ban" for the logs of one kind of event).
type Fault struct {
	Class string
	Skip  int // requests of this class that go well first
	Times int // requests that fail (-1: all)
	Mode  int
}

const (
	F500 = iota
	F503
	F429
	FDrop      // the connection is closed without an answer
	FTruncated // the body is cut
	FGarbage   // 200 with something that is not an answer
	FHtml
	FEmpty  // 200 with an empty body
	FRpcErr // execution node: JSON-RPC error object (beacon node: 400)
	F404    // not for blocks, where it means that there is none
	F204    // no content
	FCut    // a complete answer with half of the body
	FNull   // execution node: result null, which means that the thing does not exist (yet)
	FModes
)

// World is what both nodes know.
type World struct {
	mu sync.Mutex

	S         *sim.Scn
	Raws      map[uint64]*sim.Raw // by slot
	ByBlock   map[uint64]*sim.Raw
	Finalized uint64
	SSZ       bool // blocks as SSZ
	Faults    []Fault
	Hit       int // faulty answers given

	ExecChain, NetId, ConsChain uint64
	ExecSyncing                 bool
	Distance                    uint64
	Genesis                     uint64 // unix time of slot 0
	Head                        uint64 // head block

	Contract    Contract
	Snapshot    int // validators in the finalized state (indices 0..n-1)
	SnapSlot    uint64
	Nonces      map[common.Address]uint64
	NonceLag    uint64         // transactions that are still pending
	Pool        common.Address // where the contract is
	BalanceAt   func(a common.Address, block string) *big.Int
	ClaimedAt   func(a common.Address, block string) *big.Int
	Txs         []*types.Transaction // received
	OnTx        func(*types.Transaction) error
	Receipt     func(common.Hash) *types.Receipt
	EstimateErr string
	DeployTxs   []*types.Transaction // transactions of the deployment block
	TimeOf      func(block uint64) (uint64, bool)

	// DutyFix and ValsFix may corrupt answers
	DutyFix func([]*v1.ProposerDuty) []*v1.ProposerDuty
	ValsFix func([]*v1.Validator) []*v1.Validator
	// the same for what other getters serve
	BlockFix   func(*sim.Raw) *sim.Raw
	LogFix     func([]types.Log) []types.Log
	HeaderFix  func(uint64) uint64
	ReceiptFix func(*types.Receipt) *types.Receipt

	// OnReq is told of every request before it is answered; Arg is the slot of a block request
	OnReq func(class string)
	Arg   uint64
	Quiet bool // a consensus node that is behind does not call itself syncing

	Log   []string // classes of the requests served
	Calls []Call
}

type Call struct {
	Sel   string
	Arg   []byte
	Block string
}

// Contract storage.
type Contract struct {
	CkptSize, Quorum, Deployed, LastSlot uint64
	Collateral, Fee                      *big.Int
	FeeRecipient                         common.Address
	Members                              []common.Address
	Root                                 [32]byte
	Claimed                              map[common.Address]*big.Int
	VotedHash                            map[common.Address][32]byte
	Reports                              map[[32]byte][2]uint64
}

func NewWorld(s *sim.Scn) *World {
	n := s.N()
	return &World{S: s, Raws: map[uint64]*sim.Raw{}, ByBlock: map[uint64]*sim.Raw{}, ExecChain: n.ChainId, NetId: n.ChainId, ConsChain: n.ChainId,
		Genesis: 1606824023, Pool: sim.Addr(sim.AccPool), Nonces: map[common.Address]uint64{},
		Contract: Contract{CkptSize: s.Ckpt, Quorum: 1, Collateral: sim.B(s.Coll), Fee: big.NewInt(int64(s.Fee)), Deployed: s.Block0, FeeRecipient: sim.Addr(sim.AccFees),
			Claimed: map[common.Address]*big.Int{}, VotedHash: map[common.Address][32]byte{}, Reports: map[[32]byte][2]uint64{}}}
}

func (w *World) Add(r *sim.Raw) {
	w.Lock()
	defer w.Unlock()
	w.Raws[r.Slot] = r
	if !r.Missed {
		w.ByBlock[r.Block] = r
		if r.Block > w.Head {
			w.Head = r.Block
		}
	}
}

func (w *World) Lock()   { w.mu.Lock() }
func (w *World) Unlock() { w.mu.Unlock() }

// Node is a pair of HTTP servers whose world can be replaced.
type Node struct {
	Beacon, Exec string
	mu           sync.Mutex
	w            *World
	ls           []*http.Server
}

func (n *Node) Set(w *World) {
	n.mu.Lock()
	n.w = w
	n.mu.Unlock()
}

func (n *Node) World() *World {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.w
}

// Serve starts an HTTP server on a free local port and returns its URL.
func Serve(f http.HandlerFunc) string {
	url, _ := serve(f)
	return url
}

func serve(f http.HandlerFunc) (string, *http.Server) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	h.Must(err)
	s := &http.Server{Handler: f}
	go s.Serve(l)
	return "http://" + l.Addr().String(), s
}

// Server is a closable HTTP server.
type Server struct {
	Url string
	*http.Server
}

func NewServer(f http.HandlerFunc) *Server {
	url, s := serve(f)
	return &Server{url, s}
}

// Close ends the node's servers.
func (n *Node) Close() {
	for _, s := range n.ls {
		s.Close()
	}
}

func NewNode(w *World) *Node {
	n := &Node{w: w}
	var b, e *http.Server
	n.Beacon, b = serve(func(rw http.ResponseWriter, r *http.Request) { n.World().beacon(rw, r) })
	n.Exec, e = serve(func(rw http.ResponseWriter, r *http.Request) { n.World().exec(rw, r) })
	n.ls = []*http.Server{b, e}
	return n
}

var node *Node
var nodeOnce sync.Once

// Shared is the process's node.
func Shared() *Node {
	nodeOnce.Do(func() { node = NewNode(nil) })
	return node
}

// fault decides under the lock whether this request goes wrong.
func (w *World) fault(class string, also ...string) (int, bool) {
	w.Log = append(w.Log, class)
	is := func(c string) bool {
		for _, a := range also {
			if a == c {
				return true
			}
		}
		return c == class
	}
	if w.OnReq != nil {
		w.OnReq(class)
	}
	for i := range w.Faults {
		f := &w.Faults[i]
		if !is(f.Class) {
			continue
		}
		if f.Skip > 0 {
			f.Skip--
			continue
		}
		if f.Times == 0 {
			continue
		}
		if f.Times > 0 {
			f.Times--
		}
		w.Hit++
		return f.Mode, true
	}
	return 0, false
}

func drop(rw http.ResponseWriter) {
	c, _, err := rw.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	if t, ok := c.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	c.Close()
}

// answer writes body, or what the fault makes of it.
func answer(rw http.ResponseWriter, ctype string, body []byte, mode int, faulty bool) {
	if !faulty {
		rw.Header().Set("Content-Type", ctype)
		rw.Write(body)
		return
	}
	switch mode {
	case F500:
		http.Error(rw, `{"code":500,"message":"internal error"}`, 500)
	case F503:
		http.Error(rw, `{"code":503,"message":"syncing"}`, 503)
	case F429:
		http.Error(rw, `too many requests`, 429)
	case FDrop:
		drop(rw)
	case FTruncated:
		if len(body) < 4 {
			drop(rw)
			return
		}
		rw.Header().Set("Content-Type", ctype)
		rw.Header().Set("Content-Length", strconv.Itoa(len(body)))
		rw.Write(body[:len(body)/2])
		if f, ok := rw.(http.Flusher); ok {
			f.Flush()
		}
		drop(rw)
	case FGarbage:
		rw.Header().Set("Content-Type", ctype)
		rw.Write([]byte("\x00\x01garbage{"))
	case FHtml:
		rw.Header().Set("Content-Type", "text/html")
		rw.Write([]byte("<html><body>please log in</body></html>"))
	case F204:
		rw.WriteHeader(204)
	case FCut:
		rw.Header().Set("Content-Type", ctype)
		rw.Write(body[:len(body)/2])
	case FEmpty:
		rw.Header().Set("Content-Type", ctype)
		rw.WriteHeader(200)
	case FRpcErr:
		http.Error(rw, `{"code":400,"message":"bad request"}`, 400)
	case F404:
		http.Error(rw, `{"code":404,"message":"NOT_FOUND: state not found"}`, 404)
	default:
		panic("fault mode")
	}
}

func js(rw http.ResponseWriter, v any, mode int, faulty bool) {
	b, err := json.Marshal(v)
	if err != nil {
		http.Error(rw, err.Error(), 599)
		fmt.Println("FAKE NODE", err)
		return
	}
	answer(rw, "application/json", b, mode, faulty)
}

func u(x uint64) string { return strconv.FormatUint(x, 10) }

// Validator as the beacon node reports it in a state. Validators nobody describes exist below the snapshot size.
func (w *World) Validator(idx, slot uint64) *v1.Validator {
	if v := w.S.ApiVal(idx, slot); v != nil {
		return v
	}
	if idx < uint64(w.Snapshot) || idx == Filler {
		f := sim.Val{Idx: idx, Cred: sim.CredBls}
		return &v1.Validator{Index: phase0.ValidatorIndex(idx), Balance: 32000000000, Status: v1.ValidatorStateActiveOngoing,
			Validator: &phase0.Validator{PublicKey: sim.PubKey(idx), WithdrawalCredentials: f.CredBytes(slot), EffectiveBalance: 32000000000, ActivationEpoch: 1}}
	}
	return nil
}

// Filler proposes the slots no scenario describes.
const Filler = 77777777

func (w *World) duty(slot uint64) *v1.ProposerDuty {
	idx := uint64(Filler)
	if r := w.Raws[slot]; r != nil {
		idx = r.Prop
	}
	return &v1.ProposerDuty{PubKey: sim.PubKey(idx), Slot: phase0.Slot(slot), ValidatorIndex: phase0.ValidatorIndex(idx)}
}

func (w *World) beacon(rw http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	if w == nil {
		http.Error(rw, "no world", 500)
		return
	}
	w.Lock()
	defer w.Unlock()
	p := r.URL.Path
	parts := strings.Split(strings.Trim(p, "/"), "/")
	data := func(class string, v any) {
		m, f := w.fault(class)
		js(rw, map[string]any{"data": v, "execution_optimistic": false, "finalized": true}, m, f)
	}
	switch {
	case p == "/eth/v1/node/syncing":
		data("syncing", map[string]any{"head_slot": u(w.Finalized + 70 + w.Distance), "sync_distance": u(w.Distance), "is_syncing": w.Distance > 1 && !w.Quiet, "is_optimistic": false, "el_offline": false})
	case p == "/eth/v1/node/version":
		data("version", map[string]any{"version": "fake/v1.0.0"})
	case p == "/eth/v1/config/deposit_contract":
		data("config", map[string]any{"chain_id": u(w.ConsChain), "address": "0x00000000219ab540356cbb839cbe05303d7705fa"})
	case p == "/eth/v1/config/spec":
		data("spec", map[string]any{"SLOTS_PER_EPOCH": "32", "SECONDS_PER_SLOT": "12", "FAR_FUTURE_EPOCH": "18446744073709551615", "DEPOSIT_CHAIN_ID": u(w.ConsChain)})
	case p == "/eth/v1/beacon/genesis":
		data("genesis", map[string]any{"genesis_time": u(w.Genesis), "genesis_validators_root": "0x" + strings.Repeat("4b", 32), "genesis_fork_version": "0x00000000"})
	case strings.HasPrefix(p, "/eth/v1/validator/duties/proposer/"):
		ep, err := strconv.ParseUint(parts[len(parts)-1], 10, 64)
		if err != nil {
			http.Error(rw, "bad epoch", 400)
			return
		}
		var ds []*v1.ProposerDuty
		for i := uint64(0); i < 32; i++ {
			ds = append(ds, w.duty(ep*32+i))
		}
		if w.DutyFix != nil {
			ds = w.DutyFix(ds)
		}
		m, f := w.fault("duties")
		js(rw, map[string]any{"data": ds, "dependent_root": "0x" + strings.Repeat("11", 32), "execution_optimistic": false}, m, f)
	case strings.HasPrefix(p, "/eth/v2/beacon/blocks/"):
		slot, err := strconv.ParseUint(parts[len(parts)-1], 10, 64)
		if err != nil {
			http.Error(rw, "bad slot", 400)
			return
		}
		w.block(rw, r, slot)
	case p == "/eth/v1/beacon/headers/finalized":
		data("finalized", map[string]any{"root": "0x" + strings.Repeat("22", 32), "canonical": true, "header": map[string]any{
			"message":   map[string]any{"slot": u(w.Finalized), "proposer_index": "1", "parent_root": "0x" + strings.Repeat("22", 32), "state_root": "0x" + strings.Repeat("22", 32), "body_root": "0x" + strings.Repeat("22", 32)},
			"signature": "0x" + strings.Repeat("22", 96)}})
	case strings.HasPrefix(p, "/eth/v2/debug/beacon/states/"):
		w.state(rw)
	case strings.HasSuffix(p, "/pending_consolidations") && len(parts) == 6:
		slot, err := strconv.ParseUint(parts[4], 10, 64)
		if err != nil {
			http.Error(rw, "bad state", 400)
			return
		}
		if n := w.S.N(); n.Electra != 0 && slot < n.Electra {
			w.fault("consolidations")
			http.Error(rw, `{"code":404,"message":"not electra"}`, 404)
			return
		}
		var l []any
		for _, c := range w.S.Cons {
			if slot >= c.From && slot < c.To {
				l = append(l, map[string]string{"source_index": u(c.Src), "target_index": u(c.Tgt)})
			}
		}
		if l == nil {
			l = []any{}
		}
		m, f := w.fault("consolidations")
		js(rw, map[string]any{"version": "electra", "execution_optimistic": false, "finalized": true, "data": l}, m, f)
	case strings.HasSuffix(p, "/validators") && len(parts) == 6:
		slot, err := strconv.ParseUint(parts[4], 10, 64)
		if err != nil {
			http.Error(rw, "bad state", 400)
			return
		}
		var q struct {
			Ids []string `json:"ids"`
		}
		json.Unmarshal(body, &q)
		out := []*v1.Validator{}
		for _, id := range q.Ids {
			i, err := strconv.ParseUint(id, 10, 64)
			if err != nil {
				http.Error(rw, "bad id", 400)
				return
			}
			if v := w.Validator(i, slot); v != nil {
				out = append(out, v)
			}
		}
		if w.ValsFix != nil {
			out = w.ValsFix(out)
		}
		data("validators", out)
	default:
		w.Log = append(w.Log, "unknown "+p)
		http.Error(rw, `{"code":405,"message":"unknown endpoint"}`, 405)
	}
}

var forkNames = []string{"bellatrix", "capella", "deneb", "electra", "fulu"}

func (w *World) block(rw http.ResponseWriter, r *http.Request, slot uint64) {
	w.Arg = slot
	m, f := w.fault("block")
	raw := w.Raws[slot]
	if raw == nil || raw.Missed {
		if f {
			answer(rw, "application/json", []byte(`{"code":404,"message":"NOT_FOUND"}`), m, f)
			return
		}
		rw.Header().Set("Content-Type", "application/json")
		rw.WriteHeader(404)
		fmt.Fprintf(rw, `{"code":404,"message":"NOT_FOUND: beacon block at slot %d","stacktraces":[]}`, slot)
		return
	}
	if w.BlockFix != nil {
		raw = w.BlockFix(raw)
	}
	b := raw.Beacon
	var o interface {
		MarshalSSZ() ([]byte, error)
		MarshalJSON() ([]byte, error)
	}
	name := b.Version.String()
	switch {
	case b.Bellatrix != nil:
		o = b.Bellatrix
	case b.Capella != nil:
		o = b.Capella
	case b.Deneb != nil:
		o = b.Deneb
	case b.Electra != nil:
		o = b.Electra
	case b.Fulu != nil:
		o = b.Fulu
	}
	fill(reflect.ValueOf(o).Elem())
	rw.Header().Set("Eth-Consensus-Version", name)
	if w.SSZ && strings.Contains(r.Header.Get("Accept"), "octet-stream") {
		x, err := o.MarshalSSZ()
		if err != nil {
			fmt.Println("FAKE NODE", err)
		}
		answer(rw, "application/octet-stream", x, m, f)
		return
	}
	js(rw, map[string]any{"version": name, "execution_optimistic": false, "finalized": true, "data": o}, m, f)
}

// Snap is a validator of the finalized state (nil: not there), with epochs that encode its status.
func (w *World) Snap(idx uint64) *v1.Validator {
	if idx >= uint64(w.Snapshot) {
		return nil
	}
	v := *w.Validator(idx, w.SnapSlot)
	x := *v.Validator
	const far = phase0.Epoch(1<<64 - 1)
	now := phase0.Epoch(max(w.SnapSlot, 160) / 32)
	x.ActivationEligibilityEpoch, x.ActivationEpoch, x.ExitEpoch, x.WithdrawableEpoch, x.Slashed = 0, 1, far, far, false
	switch v.Status {
	case v1.ValidatorStateUnknown: // there is no such state of a known validator
		v.Status = v1.ValidatorStateActiveOngoing
	case v1.ValidatorStatePendingInitialized:
		x.ActivationEligibilityEpoch, x.ActivationEpoch = far, far
	case v1.ValidatorStatePendingQueued:
		x.ActivationEpoch = now + 1
	case v1.ValidatorStateActiveExiting, v1.ValidatorStateActiveSlashed:
		x.ExitEpoch, x.WithdrawableEpoch, x.Slashed = now+1, now+300, v.Status == v1.ValidatorStateActiveSlashed
	case v1.ValidatorStateExitedUnslashed, v1.ValidatorStateExitedSlashed:
		x.ExitEpoch, x.WithdrawableEpoch, x.Slashed = now, now+1, v.Status == v1.ValidatorStateExitedSlashed
	case v1.ValidatorStateWithdrawalPossible:
		x.ExitEpoch, x.WithdrawableEpoch = 2, now
	case v1.ValidatorStateWithdrawalDone:
		x.ExitEpoch, x.WithdrawableEpoch = 2, now
		v.Balance = 0
	}
	v.Validator = &x
	return &v
}

// state is the finalized state: only its validators matter.
func (w *World) state(rw http.ResponseWriter) {
	m, f := w.fault("state")
	st := &phase0.BeaconState{GenesisTime: w.Genesis, Slot: phase0.Slot(max(w.SnapSlot, 160)), Fork: &phase0.Fork{}, LatestBlockHeader: &phase0.BeaconBlockHeader{},
		BlockRoots: make([]phase0.Root, 8192), StateRoots: make([]phase0.Root, 8192), ETH1Data: &phase0.ETH1Data{BlockHash: make([]byte, 32)},
		RANDAOMixes: make([]phase0.Root, 65536), Slashings: make([]phase0.Gwei, 8192), JustificationBits: []byte{0},
		PreviousJustifiedCheckpoint: &phase0.Checkpoint{}, CurrentJustifiedCheckpoint: &phase0.Checkpoint{}, FinalizedCheckpoint: &phase0.Checkpoint{}}
	for i := 0; i < w.Snapshot; i++ {
		v := w.Snap(uint64(i))
		st.Validators = append(st.Validators, v.Validator)
		st.Balances = append(st.Balances, v.Balance)
	}
	b, err := st.MarshalSSZ()
	if err != nil {
		fmt.Println("FAKE NODE", err)
	}
	rw.Header().Set("Eth-Consensus-Version", "phase0")
	answer(rw, "application/octet-stream", b, m, f)
}

type rpcReq struct {
	Id     json.RawMessage   `json:"id"`
	Method string            `json:"method"`
	Params []json.RawMessage `json:"params"`
}

type rpcErr struct {
	Code    int    `json:"code"`
	Message string `json:"message"`
	Data    any    `json:"data,omitempty"`
}

func (w *World) exec(rw http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	if w == nil {
		http.Error(rw, "no world", 500)
		return
	}
	w.Lock()
	defer w.Unlock()
	var q rpcReq
	if err := json.Unmarshal(body, &q); err != nil {
		http.Error(rw, "bad request", 400)
		return
	}
	class := q.Method
	if q.Method == "eth_call" {
		var c struct{ Data, Input hexutil.Bytes }
		if len(q.Params) > 0 {
			json.Unmarshal(q.Params[0], &c)
		}
		if len(c.Data) == 0 {
			c.Data = c.Input
		}
		if len(c.Data) >= 4 {
			class = "call:" + selName(c.Data[:4])
		}
	}
	var also []string
	if q.Method == "eth_getLogs" && len(q.Params) > 0 {
		// "logs:KIND" is a query for that kind of event
		for k, sig := range sim.EvSig {
			t := common.BytesToHash(crypto.Keccak256([]byte(sig)))
			if p := strings.ToLower(string(q.Params[0])); !strings.Contains(p, "\"topics\":[") || strings.Contains(p, strings.ToLower(t.Hex())) {
				also = append(also, "logs:"+k)
			}
		}
	}
	m, f := w.fault(class, also...)
	res, e := w.rpc(&q)
	if f && m == FRpcErr {
		res, e, f = nil, &rpcErr{Code: -32000, Message: "internal failure"}, false
	}
	if f && m == FNull {
		res, e, f = nil, nil, false
	}
	out := map[string]any{"jsonrpc": "2.0", "id": q.Id}
	if e != nil {
		out["error"] = e
	} else {
		out["result"] = res
	}
	js(rw, out, m, f)
}

func sel(sig string) string { return hex.EncodeToString(crypto.Keccak256([]byte(sig))[:4]) }

var sels = map[string]string{}

func init() {
	for _, s := range []string{"checkpointSlotSize()", "quorum()", "deploymentBlockNumber()", "lastConsolidatedSlot()", "subscriptionCollateral()", "poolFee()",
		"poolFeeRecipient()", "getAllOracleMembers()", "rewardsRoot()", "claimedBalance(address)", "addressToVotedReportHash(address)", "reportHashToReport(bytes32)"} {
		sels[sel(s)] = s[:strings.IndexByte(s, '(')]
	}
}

func selName(b []byte) string {
	if n, ok := sels[hex.EncodeToString(b)]; ok {
		return n
	}
	return hex.EncodeToString(b)
}

func word(x uint64) []byte { return sim.Word(new(big.Int).SetUint64(x)) }

func aword(a common.Address) []byte { return common.LeftPadBytes(a[:], 32) }

func (w *World) rpc(q *rpcReq) (any, *rpcErr) {
	bad := func(f string, a ...any) (any, *rpcErr) {
		w.Log = append(w.Log, "bad "+fmt.Sprintf(f, a...))
		return nil, &rpcErr{Code: -32602, Message: fmt.Sprintf(f, a...)}
	}
	str := func(i int) string {
		var s string
		if i < len(q.Params) {
			json.Unmarshal(q.Params[i], &s)
		}
		return s
	}
	hx := func(x uint64) string { return hexutil.EncodeUint64(x) }
	switch q.Method {
	case "eth_chainId":
		return hx(w.ExecChain), nil
	case "net_version":
		return u(w.NetId), nil
	case "eth_syncing":
		if w.ExecSyncing {
			cur := "0x10"
			if w.Distance%2 == 1 || w.Finalized%2 == 1 { // it still syncs (transactions, states) although it has the blocks
				cur = "0x20"
			}
			return map[string]any{"startingBlock": "0x1", "currentBlock": cur, "highestBlock": "0x20"}, nil
		}
		return false, nil
	case "eth_blockNumber":
		return hx(w.Head), nil
	case "eth_gasPrice":
		return "0x3b9aca00", nil
	case "eth_maxPriorityFeePerGas":
		return "0x5f5e100", nil
	case "eth_estimateGas":
		if w.EstimateErr != "" {
			return nil, &rpcErr{Code: 3, Message: w.EstimateErr}
		}
		return "0x186a0", nil
	case "eth_getCode":
		return "0x6001", nil
	case "eth_getTransactionCount":
		x := w.Nonces[common.HexToAddress(str(0))]
		if str(1) != "pending" {
			x -= w.NonceLag
		}
		return hx(x), nil
	case "eth_getBalance":
		w.Calls = append(w.Calls, Call{Sel: "balance", Arg: common.HexToAddress(str(0)).Bytes(), Block: str(1)})
		if w.BalanceAt == nil {
			return "0xde0b6b3a7640000", nil
		}
		return hexutil.EncodeBig(w.BalanceAt(common.HexToAddress(str(0)), str(1))), nil
	case "eth_getBlockByNumber":
		var full bool
		if len(q.Params) > 1 {
			json.Unmarshal(q.Params[1], &full)
		}
		n := w.Head
		if s := str(0); strings.HasPrefix(s, "0x") {
			var err error
			if n, err = hexutil.DecodeUint64(s); err != nil {
				return bad("block %s", s)
			}
		}
		if w.HeaderFix != nil {
			n = w.HeaderFix(n)
		}
		return w.execBlock(n, full), nil
	case "eth_getTransactionReceipt":
		hash := common.HexToHash(str(0))
		if w.Receipt != nil {
			if rc := w.Receipt(hash); rc != nil {
				return rc, nil
			}
		}
		for _, r := range w.ByBlock {
			for i, t := range r.Txs {
				if t.Hash() == hash {
					rc := r.Receipts[i]
					if w.ReceiptFix != nil {
						rc = w.ReceiptFix(rc)
					}
					return rc, nil
				}
			}
		}
		return nil, nil
	case "eth_getLogs":
		var fq struct {
			FromBlock, ToBlock string
			Address            json.RawMessage
			Topics             []json.RawMessage
		}
		if err := json.Unmarshal(q.Params[0], &fq); err != nil {
			return bad("filter %v", err)
		}
		from, to := uint64(0), w.Head
		if strings.HasPrefix(fq.FromBlock, "0x") {
			from, _ = hexutil.DecodeUint64(fq.FromBlock)
		}
		if strings.HasPrefix(fq.ToBlock, "0x") {
			to, _ = hexutil.DecodeUint64(fq.ToBlock)
		}
		var as []common.Address
		if json.Unmarshal(fq.Address, &as) != nil {
			var a common.Address
			if err := json.Unmarshal(fq.Address, &a); err != nil {
				return bad("address %s", fq.Address)
			}
			as = []common.Address{a}
		}
		var tops []common.Hash
		if len(fq.Topics) > 0 {
			json.Unmarshal(fq.Topics[0], &tops)
			if tops == nil {
				var t common.Hash
				if json.Unmarshal(fq.Topics[0], &t) == nil {
					tops = []common.Hash{t}
				}
			}
		}
		out := []types.Log{}
		if to < from {
			return out, nil
		}
		if to-from > 100000 {
			return bad("range %d-%d", from, to)
		}
		for b := from; b <= to; b++ {
			r := w.ByBlock[b]
			if r == nil {
				continue
			}
			for _, l := range r.Logs {
				ok := len(as) == 0
				for _, a := range as {
					ok = ok || a == l.Address
				}
				okT := len(tops) == 0
				for _, t := range tops {
					okT = okT || t == l.Topics[0]
				}
				if ok && okT {
					out = append(out, l)
				}
			}
		}
		if w.LogFix != nil {
			out = w.LogFix(out)
		}
		return out, nil
	case "eth_call":
		return w.call(q, str(1), bad)
	case "eth_sendRawTransaction":
		raw, err := hexutil.Decode(str(0))
		if err != nil {
			return bad("raw tx")
		}
		tx := new(types.Transaction)
		if err := tx.UnmarshalBinary(raw); err != nil {
			return bad("raw tx: %v", err)
		}
		w.Txs = append(w.Txs, tx)
		if w.OnTx != nil {
			if err := w.OnTx(tx); err != nil {
				return nil, &rpcErr{Code: -32000, Message: err.Error()}
			}
		}
		return tx.Hash(), nil
	}
	return bad("the method %s does not exist", q.Method)
}

func (w *World) call(q *rpcReq, block string, bad func(string, ...any) (any, *rpcErr)) (any, *rpcErr) {
	var c struct {
		To          common.Address
		Data, Input hexutil.Bytes
	}
	if err := json.Unmarshal(q.Params[0], &c); err != nil {
		return bad("call: %v", err)
	}
	if len(c.Data) == 0 {
		c.Data = c.Input
	}
	if c.To != w.Pool || len(c.Data) < 4 {
		return "0x", nil
	}
	name, arg := selName(c.Data[:4]), []byte(c.Data[4:])
	w.Calls = append(w.Calls, Call{Sel: name, Arg: arg, Block: block})
	k := &w.Contract
	h := func(b []byte) (any, *rpcErr) { return hexutil.Bytes(b), nil }
	switch name {
	case "checkpointSlotSize":
		return h(word(k.CkptSize))
	case "quorum":
		return h(word(k.Quorum))
	case "deploymentBlockNumber":
		return h(word(k.Deployed))
	case "lastConsolidatedSlot":
		return h(word(k.LastSlot))
	case "subscriptionCollateral":
		return h(sim.Word(k.Collateral))
	case "poolFee":
		return h(sim.Word(k.Fee))
	case "poolFeeRecipient":
		return h(aword(k.FeeRecipient))
	case "rewardsRoot":
		return h(k.Root[:])
	case "getAllOracleMembers":
		b := append(word(32), word(uint64(len(k.Members)))...)
		for _, m := range k.Members {
			b = append(b, aword(m)...)
		}
		return h(b)
	case "claimedBalance":
		if len(arg) != 32 {
			return bad("args")
		}
		x := k.Claimed[common.BytesToAddress(arg)]
		if w.ClaimedAt != nil {
			x = w.ClaimedAt(common.BytesToAddress(arg), block)
		}
		if x == nil {
			x = new(big.Int)
		}
		return h(sim.Word(x))
	case "addressToVotedReportHash":
		v := k.VotedHash[common.BytesToAddress(arg)]
		return h(v[:])
	case "reportHashToReport":
		v := k.Reports[common.BytesToHash(arg)]
		return h(append(word(v[0]), word(v[1])...))
	}
	return bad("unknown call %s", name)
}

func (w *World) execBlock(n uint64, full bool) any {
	var hd *types.Header
	var txs []*types.Transaction
	if r := w.ByBlock[n]; r != nil {
		hd, txs = types.CopyHeader(r.Header), r.Txs
		if full {
			hd.TxHash = txRoot(txs)
		}
	} else {
		if w.TimeOf == nil {
			return nil
		}
		t, ok := w.TimeOf(n)
		if !ok {
			return nil
		}
		txs = w.DeployTxs
		hd = &types.Header{Number: new(big.Int).SetUint64(n), BaseFee: big.NewInt(7), Time: t, Difficulty: new(big.Int), Extra: []byte{},
			TxHash: txRoot(txs)}
	}
	if full {
		hd.UncleHash = types.EmptyUncleHash
	}
	b, err := json.Marshal(hd)
	if err != nil {
		fmt.Println("FAKE NODE", err)
	}
	m := map[string]any{}
	json.NewDecoder(bytes.NewReader(b)).Decode(&m)
	if full {
		m["uncles"] = []any{}
		l := []any{}
		for i, t := range txs {
			tb, err := t.MarshalJSON()
			if err != nil {
				fmt.Println("FAKE NODE", err)
			}
			tm := map[string]any{}
			json.Unmarshal(tb, &tm)
			var sg types.Signer = types.HomesteadSigner{}
			if t.Protected() {
				sg = types.LatestSignerForChainID(t.ChainId())
			}
			from, _ := types.Sender(sg, t)
			tm["from"], tm["blockNumber"], tm["transactionIndex"] = from, hexutil.EncodeUint64(n), hexutil.EncodeUint64(uint64(i))
			tm["blockHash"] = hd.Hash()
			l = append(l, tm)
		}
		m["transactions"] = l
	}
	return m
}

// txRoot is not the real root: the client only looks at whether it is that of an empty list.
func txRoot(txs []*types.Transaction) common.Hash {
	if len(txs) == 0 {
		return types.EmptyTxsHash
	}
	var b []byte
	for _, t := range txs {
		b = append(b, t.Hash().Bytes()...)
	}
	return crypto.Keccak256Hash(b)
}

// fill makes the nil lists of a block empty lists, for JSON.
func fill(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			fill(v.Elem())
		}
	case reflect.Struct:
		if v.Type().PkgPath() == "github.com/holiman/uint256" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			v.Set(reflect.MakeSlice(v.Type(), 0, 0))
		}
	}
}
