package props

import (
	"bytes"
	"crypto/ecdsa"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"pgregory.net/rapid"
	"verifharness/fakes"
	"verifharness/h"
	"verifharness/sim"
)

// ---- C26: gathering the claims

type ClaimCase struct {
	C      *sim.Crafted
	Claims []string
	Delta  string
	Neg    bool
	Block  uint64
	Case   int
	Fault  fakes.Fault
}

// ---- C18

type SubmitCase struct {
	Net      string
	PoolCase int
	Key      int
	Slot     uint64
	Root     string
	Nonce    uint64
	Lag      uint64
	Polls    int
	Outcome  string // mined reverted rejected estimate never
	Fault    fakes.Fault
}

func genRoot(t *rapid.T) (string, []byte) {
	var b [32]byte
	switch sim.U(t, 4, "rootkind") {
	case 0:
	case 1:
		b[0] = byte(sim.U(t, 256, "b"))
	case 2:
		b[31] = byte(sim.U(t, 256, "b"))
	default:
		copy(b[:], crypto.Keccak256([]byte(fmt.Sprint(sim.U(t, 1000000, "root")))))
	}
	return fmt.Sprintf("%x", b), b[:]
}

// root as 32 bytes when it is one.
func rootBytes(s string) ([]byte, bool) {
	s = strings.TrimPrefix(s, "0x")
	if len(s) != 64 {
		return nil, false
	}
	var out []byte
	for i := 0; i < 64; i += 2 {
		var x byte
		for _, c := range []byte(s[i : i+2]) {
			switch {
			case c >= '0' && c <= '9':
				x = x<<4 | (c - '0')
			case c >= 'a' && c <= 'f':
				x = x<<4 | (c - 'a' + 10)
			case c >= 'A' && c <= 'F':
				x = x<<4 | (c - 'A' + 10)
			default:
				return nil, false
			}
		}
		out = append(out, x)
	}
	return out, true
}

var submitters = map[string]*oracle.Onchain{}

func submitter(w *fakes.World, c *SubmitCase) *oracle.Onchain {
	n := fakes.Shared()
	k := fmt.Sprint(c.Net, c.PoolCase, c.Key)
	o := submitters[k]
	if o == nil {
		n.Set(fakes.NewWorld(w.S))
		n.World().TimeOf = func(uint64) (uint64, bool) { return 1, true }
		var key *ecdsa.PrivateKey = sim.Key(c.Key)
		var err error
		o, err = oracle.NewOnchain(&config.CliConfig{ConsensusEndpoint: n.Beacon, ExecutionEndpoint: n.Exec, PoolAddress: sim.Cased(sim.AccPool, c.PoolCase), NumRetries: 2}, key)
		h.Must(err)
		submitters[k] = o
	}
	n.Set(w)
	return o
}

var sendClasses = []string{"eth_getTransactionCount", "net_version", "eth_getBlockByNumber", "eth_maxPriorityFeePerGas", "eth_estimateGas", "eth_sendRawTransaction", "eth_getTransactionReceipt"}

// ---- C29

type DeployTx struct {
	Kind string // init create nested other-pool other-create impl method plain malformed
	Fee  uint64
	From int
	Typ  int
	Seed int
}

type StartCase struct {
	Net      string
	PoolCase int
	ExecId   uint64 // 0: that of the network
	ExecLate uint64 // execution node's chain id changes to this after connecting
	Slot     uint64
	Block    uint64
	Genesis  uint64
	Ckpt     uint64
	Coll     string
	FeeRec   int
	Quorum   uint64
	Members  int
	Txs      []DeployTx
	Base     uint64
	Fork     int
	Mismatch string // number missing
	DryRun   bool
	Retries  int
	Fault    fakes.Fault
	PoolBy   string // how the pool got its address: "" a fixed one, "create"
}

var initArgs = []string{"address", "uint256", "uint256", "address", "uint64", "uint64"}

func initData(x DeployTx) []byte {
	b := crypto.Keccak256([]byte("initialize(address,uint256,uint256,address,uint64,uint64)"))[:4]
	b = append(b, common.LeftPadBytes(sim.Addr(sim.AccOther).Bytes(), 32)...)
	b = append(b, sim.Word(big.NewInt(int64(x.Seed)*1000000007))...)
	b = append(b, sim.Word(new(big.Int).SetUint64(x.Fee))...)
	b = append(b, common.LeftPadBytes(sim.Addr(sim.AccFees).Bytes(), 32)...)
	b = append(b, sim.Word(big.NewInt(7200))...)
	return append(b, sim.Word(big.NewInt(1))...)
}

// proxyCode is creation code with an initialize() call in the constructor's arguments.
func proxyCode(x DeployTx) []byte {
	code := bytes.Repeat(crypto.Keccak256([]byte(fmt.Sprint("proxy", x.Seed))), 4+x.Seed%7)
	code = code[:len(code)-x.Seed%31]
	if x.Seed%3 == 0 { // the code knows the selector, too
		code = append(code, implCode(x)...)
	}
	in := initData(x)
	code = append(code, common.LeftPadBytes(sim.Addr(sim.AccContr).Bytes(), 32)...)
	code = append(code, common.LeftPadBytes(sim.Addr(sim.AccOther).Bytes(), 32)...)
	code = append(code, sim.Word(big.NewInt(96))...)
	code = append(code, sim.Word(big.NewInt(int64(len(in))))...)
	code = append(code, in...)
	return append(code, make([]byte, (32-len(in)%32)%32)...)
}

// implCode is creation code of an implementation: the selector is in its dispatch table.
func implCode(x DeployTx) []byte {
	code := bytes.Repeat(crypto.Keccak256([]byte(fmt.Sprint("impl", x.Seed))), 3)
	code = append(code, 0x63)
	code = append(code, initData(x)[:4]...)
	code = append(code, 0x14, 0x61, 0x01, 0x02, 0x57)
	return append(code, bytes.Repeat(crypto.Keccak256([]byte(fmt.Sprint("rest", x.Seed))), 12)...)
}

func genStart(t *rapid.T) *StartCase {
	c := &StartCase{Net: sim.Of(t, "net", "mainnet", "hoodi", "holesky"), PoolCase: sim.U(t, 3, "case")}
	c.Slot = rapid.Uint64Range(1, 15000000).Draw(t, "slot")
	c.Block = rapid.Uint64Range(1, 25000000).Draw(t, "block")
	c.Genesis = rapid.Uint64Range(1, 2000000000).Draw(t, "genesis")
	c.Ckpt = sim.Of(t, "ckpt", uint64(1), 7200, 43200, 1<<40)
	c.Coll = sim.BigWei(t, "coll")
	c.FeeRec = sim.U(t, sim.AccN, "feerec")
	c.Quorum = uint64(1 + sim.U(t, 5, "quorum"))
	c.Members = sim.U(t, 6, "members")
	c.Base = uint64(sim.U(t, 100, "base"))
	c.Fork = sim.U(t, 5, "fork")
	c.DryRun = rapid.Bool().Draw(t, "dry")
	c.Retries = 1 + sim.U(t, 3, "retries")
	tx := func(kind string) DeployTx {
		return DeployTx{Kind: kind, Fee: uint64(sim.Of(t, "fee", 0, 1, 500, 700, 1000, 9999, 10000, sim.U(t, 10001, "feeval"))), From: 2 + sim.U(t, 8, "from"), Typ: sim.Of(t, "typ", 0, 1, 2, 5), Seed: sim.U(t, 1000, "seed")}
	}
	real := sim.Of(t, "real", "", "init", "create", "nested")
	var decoys []string
	switch real {
	case "nested":
		decoys = []string{"other-pool", "method", "plain", "impl"}
	case "":
		decoys = []string{"other-pool", "method", "plain", "impl", "malformed"}
	default:
		decoys = []string{"other-pool", "method", "plain", "impl", "other-create"}
	}
	for i := sim.U(t, 4, "before"); i > 0; i-- {
		c.Txs = append(c.Txs, tx(sim.Of(t, "decoy", decoys...)))
	}
	if real != "" {
		c.Txs = append(c.Txs, tx(real))
	}
	for i := sim.U(t, 3, "after"); i > 0; i-- {
		c.Txs = append(c.Txs, tx(sim.Of(t, "decoy", decoys...)))
	}
	switch {
	case sim.Pct(t, 8, "mismatch"):
		c.Mismatch = sim.Of(t, "how", "number", "missing", "exec-missing")
	case sim.Pct(t, 8, "unsupported"):
		c.ExecId = sim.Of(t, "id", uint64(11155111), 100, 31337, 2, 0)
	case sim.Pct(t, 8, "differ"):
		c.ExecLate = sim.Of(t, "id", uint64(1), 17000, 560048, 5, 100)
	case sim.Pct(t, 8, "goerli"):
		c.ExecId = 5
	case sim.Pct(t, 15, "fault"):
		k := sim.Of(t, "class", "eth_chainId", "config", "genesis", "eth_getBalance", "eth_getBlockByNumber", "block", "call:checkpointSlotSize", "call:deploymentBlockNumber",
			"call:poolFeeRecipient", "call:subscriptionCollateral", "call:getAllOracleMembers", "call:quorum")
		c.Fault = fakes.Fault{Class: k, Times: -1, Mode: genMode(t, k, false)}
	}
	return c
}

func init() {
	h.Add("C26", "claims", "a state with two or more validators; the claims are read from the contract", 10000, 200000,
		func(t *rapid.T) *ClaimCase {
			r := &ClaimCase{C: sim.GenCrafted(t, 8, true), Block: rapid.Uint64Range(1, 30000000).Draw(t, "block"), Delta: "0", Case: sim.U(t, 3, "pool")}
			for i := 0; i <= len(r.C.Vals); i++ {
				r.Claims = append(r.Claims, sim.BigWei(t, "claim"))
			}
			switch {
			case sim.Pct(t, 40, "off"):
				r.Delta = sim.Of(t, "delta", "1", "2", sim.BigWei(t, "d"))
				r.Neg = rapid.Bool().Draw(t, "neg")
			case sim.Pct(t, 20, "fault"):
				k := sim.Of(t, "class", "call:claimedBalance", "eth_getBalance")
				r.Fault = fakes.Fault{Class: k, Skip: sim.U(t, 4, "skip"), Times: 1, Mode: sim.Of(t, "mode", fakes.F500, fakes.F503, fakes.F429, fakes.FTruncated, fakes.FGarbage, fakes.FHtml, fakes.FEmpty, fakes.FRpcErr, fakes.F204, fakes.FCut)}
			}
			return r
		},
		func(r *ClaimCase, st *h.Stats) error {
			or, _ := r.C.Oracle()
			m := sim.Extract(or.State())
			s := &sim.Scn{Net: "mainnet", PoolCase: r.Case}
			w := fakes.NewWorld(s)
			fee := strings.ToLower(r.C.FeeAddress())
			claims, can := map[string]*big.Int{}, map[string]bool{fee: true}
			for _, v := range m.Vals {
				can[v.Wd] = true
			}
			bal := m.Owed()
			for i, l := range sim.Leaves(m, r.C.FeeAddress()) {
				cl := sim.B(r.Claims[i%len(r.Claims)])
				if cl.Cmp(l.Bal) > 0 {
					cl.Set(l.Bal)
				}
				bal.Sub(bal, cl)
				if claims[l.Addr] == nil {
					claims[l.Addr] = new(big.Int)
				}
				claims[l.Addr].Add(claims[l.Addr], cl)
			}
			d := sim.B(r.Delta)
			if r.Neg {
				d.Neg(d)
			}
			if bal.Add(bal, d); bal.Sign() < 0 {
				return nil
			}
			tag := hexutil.EncodeUint64(r.Block)
			lie := func(x *big.Int, block string) *big.Int {
				if block != tag { // what another block says is something else
					return new(big.Int).Add(x, big.NewInt(12345))
				}
				return x
			}
			w.ClaimedAt = func(a common.Address, block string) *big.Int {
				x := claims[strings.ToLower(a.Hex())]
				if x == nil {
					x = new(big.Int)
				}
				return lie(x, block)
			}
			w.BalanceAt = func(a common.Address, block string) *big.Int {
				if a != sim.Addr(sim.AccPool) {
					return big.NewInt(99)
				}
				return lie(bal, block)
			}
			o := onchain(w)
			if r.Fault.Class != "" {
				w.Faults = []fakes.Fault{r.Fault}
			}
			w.Calls = nil
			block := new(big.Int).SetUint64(r.Block)
			once := retry.Attempts(1)
			b, err1 := o.GetPoolEthBalance(block, once)
			got, err2 := o.GetClaimedPerWithdrawalAddress(or.GetUniqueWithdrawalAddresses(), block, once)
			if len(m.Vals) > 1 {
				st.NT()
			}
			st.Class("fault %v", w.Hit > 0)
			if w.Hit > 0 {
				if err1 == nil && err2 == nil {
					return fmt.Errorf("a request failed (%+v), balance and claims were taken as %s %v", r.Fault, b, got)
				}
				return nil
			}
			if err1 != nil || err2 != nil {
				return fmt.Errorf("balance and claims: %v %v", err1, err2)
			}
			asked := map[string]int{}
			for _, c := range w.Calls {
				if c.Sel == "claimedBalance" {
					asked[strings.ToLower(common.BytesToAddress(c.Arg).Hex())]++
				}
			}
			for a := range can {
				if asked[a] != 1 {
					return fmt.Errorf("the claims of %s were asked for %d times", a, asked[a])
				}
			}
			if len(asked) != len(can) {
				return fmt.Errorf("claims asked for: %v, can claim: %v", asked, can)
			}
			if err := or.RunOnchainReconciliation(b, got); (err == nil) != (d.Sign() == 0) {
				return fmt.Errorf("owed %s, claims %v, balance %s: %v", m.Owed(), claims, bal, err)
			}
			return nil
		})

	h.Add("C18", "submit", "a submission that is mined after one or more polls, or that fails", 12000, 300000,
		func(t *rapid.T) *SubmitCase {
			c := &SubmitCase{Net: sim.Of(t, "net", "mainnet", "hoodi", "holesky"), PoolCase: sim.U(t, 3, "case"), Key: 2 + sim.U(t, 4, "key")}
			c.Slot = sim.Of(t, "slot", 0, 1, 32, rapid.Uint64Range(0, 1<<26).Draw(t, "slotn"), rapid.Uint64().Draw(t, "slotany"))
			c.Nonce = sim.Of(t, "nonce", 0, 1, rapid.Uint64Range(0, 100000).Draw(t, "noncen"))
			c.Lag = uint64(sim.U(t, 3, "lag"))
			c.Root, _ = genRoot(t)
			if rapid.Bool().Draw(t, "prefix") {
				c.Root = "0x" + c.Root
			}
			c.Polls = sim.Weighted(t, "polls", 5, 3, 2, 1)
			c.Outcome = "mined"
			switch {
			case sim.Pct(t, 20, "malformed"):
				b := []byte(c.Root)
				switch sim.U(t, 9, "how") {
				case 0:
					c.Root = ""
				case 1:
					c.Root = c.Root[:len(c.Root)-1-sim.U(t, 10, "cut")]
				case 2:
					c.Root += sim.Of(t, "tail", "0", "00", "zz", " ", "\n")
				case 3:
					b[len(b)-1-sim.U(t, 60, "at")] = sim.Of(t, "bad", byte('g'), 'x', ' ', 'Z', 0)
					c.Root = string(b)
				case 4:
					c.Root = "0x0x" + strings.TrimPrefix(c.Root, "0x")
				case 5:
					c.Root = "0X" + strings.TrimPrefix(c.Root, "0x")
				case 6:
					c.Root = strings.ToUpper(strings.TrimPrefix(c.Root, "0x"))
				case 7:
					c.Root = "0x"
				case 8:
					c.Root = rapid.String().Draw(t, "any")
				}
			case sim.Pct(t, 40, "bad"):
				c.Outcome = sim.Of(t, "outcome", "reverted", "rejected", "estimate")
			case sim.Pct(t, 30, "fault"):
				k := sim.Of(t, "class", sendClasses...)
				c.Fault = fakes.Fault{Class: k, Times: -1, Mode: genMode(t, k, false)}
				if k == "eth_getTransactionReceipt" {
					c.Fault.Times = 1 + sim.U(t, 3, "times")
				}
				if c.Fault.Mode == fakes.FNull {
					c.Fault.Mode = fakes.F500
				}
			case sim.U(t, 200, "never") == 0:
				c.Outcome = "never"
			}
			return c
		},
		func(c *SubmitCase, st *h.Stats) error {
			s := &sim.Scn{Net: c.Net, PoolCase: c.PoolCase}
			w := fakes.NewWorld(s)
			w.TimeOf = func(uint64) (uint64, bool) { return 1, true }
			w.Head = 1000
			w.Nonces[sim.Addr(c.Key)] = c.Nonce
			w.NonceLag = c.Lag
			if w.NonceLag > c.Nonce {
				w.NonceLag = c.Nonce
			}
			o := submitter(w, c)
			if c.Fault.Class != "" {
				w.Faults = []fakes.Fault{c.Fault}
			}
			var chain big.Int
			chain.SetUint64(s.N().ChainId)
			switch c.Outcome {
			case "rejected":
				w.OnTx = func(*types.Transaction) error { return fmt.Errorf("insufficient funds for gas * price + value") }
			case "estimate":
				w.EstimateErr = "execution reverted: DappnodeSmoothingPool::submitReport: Slot number invalid"
			}
			polls := 0
			w.Receipt = func(hash common.Hash) *types.Receipt {
				polls++
				if c.Outcome == "never" || polls <= c.Polls || len(w.Txs) == 0 || w.Txs[len(w.Txs)-1].Hash() != hash {
					return nil
				}
				r := &types.Receipt{Type: 2, Status: 1, TxHash: hash, GasUsed: 50000, CumulativeGasUsed: 50000, BlockNumber: big.NewInt(1001), BlockHash: common.Hash{9}, Logs: []*types.Log{}}
				if c.Outcome == "reverted" {
					r.Status = 0
				}
				return r
			}
			type res struct {
				err   error
				why   string
				fatal bool
			}
			done := make(chan res, 1)
			t0 := time.Now()
			go func() {
				var r res
				r.why, r.fatal = stopped(func() { r.err = o.UpdateContractMerkleRoot(c.Slot, c.Root) })
				done <- r
			}()
			var r res
			select {
			case r = <-done:
			case <-time.After(60 * time.Second):
				// how long it waits is not what is checked
				st.Class("still waiting")
				w.Lock()
				w.Receipt = func(hash common.Hash) *types.Receipt {
					return &types.Receipt{Type: 2, Status: 0, TxHash: hash, BlockNumber: big.NewInt(1001), Logs: []*types.Log{}}
				}
				w.Unlock()
				<-done
				if c.Outcome != "never" {
					return fmt.Errorf("submission with outcome %s did not return", c.Outcome)
				}
				return nil
			}
			slow := time.Since(t0) > time.Second
			if r.fatal {
				r.err = fmt.Errorf("%s", r.why)
				st.Class("stopped")
			}
			w.Lock()
			defer w.Unlock()
			root, well := rootBytes(c.Root)
			st.Class("outcome %s, root well-formed %v", c.Outcome, well)
			if w.Hit > 0 {
				st.Class("fault %s", c.Fault.Class)
			}
			if len(w.Txs) > 1 {
				return fmt.Errorf("%d transactions were sent", len(w.Txs))
			}
			for _, tx := range w.Txs {
				if !well {
					return fmt.Errorf("root %q is not 32 bytes, a transaction was sent with %x", c.Root, tx.Data())
				}
				want := append(crypto.Keccak256([]byte("submitReport(uint64,bytes32)"))[:4], sim.Word(new(big.Int).SetUint64(c.Slot))...)
				want = append(want, root...)
				if !bytes.Equal(tx.Data(), want) {
					return fmt.Errorf("slot %d root %s: data %x, expected %x", c.Slot, c.Root, tx.Data(), want)
				}
				if tx.To() == nil || *tx.To() != sim.Addr(sim.AccPool) {
					return fmt.Errorf("sent to %v", tx.To())
				}
				if tx.Value().Sign() != 0 {
					return fmt.Errorf("value %s", tx.Value())
				}
				if tx.Nonce() != c.Nonce {
					return fmt.Errorf("nonce %d, the next pending one is %d", tx.Nonce(), c.Nonce)
				}
				from, err := types.Sender(types.LatestSignerForChainID(&chain), tx)
				if err != nil || from != sim.Addr(c.Key) {
					return fmt.Errorf("sender %s %v, expected %s", from, err, sim.Addr(c.Key))
				}
			}
			bad := !well || c.Outcome != "mined" || w.Hit > 0 && c.Fault.Class != "eth_getTransactionReceipt"
			if bad || c.Polls > 0 {
				st.NT()
			}
			switch {
			case bad && r.err == nil:
				return fmt.Errorf("reported as successful: outcome %s, root %q, %d failed requests (%+v), %d transactions sent", c.Outcome, c.Root, w.Hit, c.Fault, len(w.Txs))
			case !bad && r.err != nil && len(w.Txs) == 0 && strings.ToLower(c.Root) != c.Root:
				st.Class("upper case refused")
			case !bad && r.err != nil && !slow:
				return fmt.Errorf("mined after %d polls, reported as an error: %v", c.Polls, r.err)
			case !bad && r.err == nil && len(w.Txs) != 1:
				return fmt.Errorf("reported as successful, no transaction was sent")
			}
			return nil
		})

	h.Add("C29", "config", "the fee comes from a transaction among others, or the start must be refused", 12000, 300000, genStart,
		func(c *StartCase, st *h.Stats) error {
			s := &sim.Scn{Net: c.Net, Ckpt: c.Ckpt, Coll: c.Coll, PoolCase: c.PoolCase}
			w := fakes.NewWorld(s)
			network, id := c.Net, s.N().ChainId
			if c.ExecId != 0 {
				id, network = c.ExecId, ""
				if id == 5 {
					network = "goerli"
				}
			}
			w.ExecChain, w.ConsChain, w.NetId = id, id, id
			w.Genesis = c.Genesis
			w.Contract.Deployed, w.Contract.FeeRecipient, w.Contract.Quorum = c.Block, sim.Addr(c.FeeRec), c.Quorum
			for i := 0; i < c.Members; i++ {
				w.Contract.Members = append(w.Contract.Members, sim.Addr(2+i))
			}
			// the pool's address follows from its creation when there is one
			pool := sim.Addr(sim.AccPool)
			for i, x := range c.Txs {
				if x.Kind == "create" {
					pool = crypto.CreateAddress(sim.Addr(x.From), uint64(i))
				}
			}
			w.Pool = pool
			var txs []*types.Transaction
			fee, found := 0, ""
			for i, x := range c.Txs {
				to, data := &pool, []byte(nil)
				other := common.Address(crypto.Keccak256([]byte(fmt.Sprint(x.Seed)))[:20])
				switch x.Kind {
				case "init":
					data = initData(x)
				case "create", "nested", "other-create":
					to, data = nil, proxyCode(x)
				case "other-pool":
					to, data = &other, initData(x)
				case "impl":
					to, data = nil, implCode(x)
				case "method":
					data = append(crypto.Keccak256([]byte("updatePoolFee(uint256)"))[:4], initData(x)[4:]...)
				case "plain":
					data = initData(x)[:x.Seed%4]
				case "malformed":
					data = initData(x)[:4+x.Seed%160]
				}
				switch x.Kind {
				case "init", "create", "nested":
					fee, found = int(x.Fee), x.Kind
				}
				txs = append(txs, deployTx(x, uint64(i), to, data, id))
			}
			stp := &sim.Step{Fork: c.Fork, Prop: -1, FeeRec: sim.AccOther, BaseFee: 7}
			raw := s.Build(stp, c.Slot, c.Block)
			raw.Txs = txs
			raw.Header.Time = c.Genesis + 12*c.Slot
			w.Add(raw)
			refuse := ""
			switch c.Mismatch {
			case "number":
				w.Raws[c.Slot] = s.Build(stp, c.Slot, c.Block+1+c.Base)
				refuse = "the block at the deployment slot is another one"
			case "missing":
				delete(w.Raws, c.Slot)
				refuse = "no block at the deployment slot"
			case "exec-missing":
				delete(w.ByBlock, c.Block)
				refuse = "no deployment block"
			}
			if network == "" {
				refuse = "the chain is not supported"
			}
			if found == "" {
				switch network {
				case "mainnet":
					fee = 700
				case "hoodi":
					fee = 1000
				default:
					if refuse == "" {
						refuse = "no fee known"
					}
				}
			}
			n := fakes.Shared()
			head := w.Head
			w.TimeOf = func(b uint64) (uint64, bool) { return 1, b == head && c.Mismatch != "exec-missing" || b > c.Block }
			w.Head = c.Block + 1000
			n.Set(w)
			poolStr := pool.Hex()
			switch c.PoolCase {
			case 1:
				poolStr = strings.ToLower(poolStr)
			case 2:
				poolStr = "0x" + strings.ToUpper(poolStr[2:])
			}
			cli := &config.CliConfig{ConsensusEndpoint: n.Beacon, ExecutionEndpoint: n.Exec, PoolAddress: poolStr, NumRetries: c.Retries, DryRun: c.DryRun,
				UpdaterKeyFile: "key file", UpdaterKeyPass: "key pass"}
			o, err := oracle.NewOnchain(cli, nil)
			if err != nil {
				return fmt.Errorf("connecting: %w", err)
			}
			defer o.ExecutionClient.Close()
			if c.ExecLate != 0 && c.ExecLate != id {
				w.ExecChain = c.ExecLate
				refuse = "the nodes are on different chains"
			}
			if c.Fault.Class != "" {
				w.Lock()
				w.Faults, w.Hit = []fakes.Fault{c.Fault}, 0
				w.Unlock()
			}
			var cfg *oracle.Config
			why, stop := stopped(func() { cfg = o.GetConfigFromContract(cli) })
			if w.Hit > 0 {
				refuse = fmt.Sprintf("requests fail: %+v", c.Fault)
			}
			st.Class("fee from %q network %q refuse %q", found, network, strings.SplitN(refuse, ":", 2)[0])
			if refuse != "" || found != "" && len(c.Txs) > 1 {
				st.NT()
			}
			if refuse != "" {
				if !stop && cfg != nil {
					return fmt.Errorf("started although %s, with %s", refuse, asJSON(cfg))
				}
				return nil
			}
			if stop || cfg == nil {
				return fmt.Errorf("refused to start: %s", why)
			}
			want := &oracle.Config{ConsensusEndpoint: n.Beacon, ExecutionEndpoint: n.Exec, Network: network, PoolAddress: poolStr, DeployedSlot: c.Slot, DeployedBlock: c.Block,
				CheckPointSizeInSlots: c.Ckpt, PoolFeesPercentOver10000: fee, PoolFeesAddress: cfg.PoolFeesAddress, CollateralInWei: sim.B(c.Coll), DryRun: c.DryRun,
				NumRetries: c.Retries, UpdaterKeyFile: "key file", UpdaterKeyPass: "key pass"}
			if !strings.EqualFold(cfg.PoolFeesAddress, sim.Addr(c.FeeRec).Hex()) {
				return fmt.Errorf("fee address %s, the contract says %s", cfg.PoolFeesAddress, sim.Addr(c.FeeRec))
			}
			if asJSON(cfg) != asJSON(want) {
				return fmt.Errorf("configuration %s, expected %s (transactions of the deployment block: %+v)", asJSON(cfg), asJSON(want), c.Txs)
			}
			return nil
		})
	h.Add("C29", "connect", "nodes of different chains", 400, 20000,
		func(t *rapid.T) [2]uint64 {
			ids := []uint64{1, 5, 17000, 560048, 100, 11155111}
			return [2]uint64{sim.Of(t, "a", ids...), sim.Of(t, "b", ids...)}
		},
		func(c [2]uint64, st *h.Stats) error {
			w := fakes.NewWorld(&sim.Scn{Net: "mainnet"})
			w.ExecChain, w.ConsChain = c[0], c[1]
			w.TimeOf = func(uint64) (uint64, bool) { return 1, true }
			n := fakes.Shared()
			n.Set(w)
			cli := &config.CliConfig{ConsensusEndpoint: n.Beacon, ExecutionEndpoint: n.Exec, PoolAddress: sim.Cased(sim.AccPool, 0), NumRetries: 1}
			o, err := oracle.NewOnchain(cli, nil)
			if o != nil {
				defer o.ExecutionClient.Close()
			}
			if c[0] != c[1] {
				st.NT()
				if err == nil {
					return fmt.Errorf("execution node of chain %d, consensus node of chain %d: accepted", c[0], c[1])
				}
			} else if err != nil || o.ChainId != c[0] {
				return fmt.Errorf("chain %d: %v", c[0], err)
			}
			return nil
		})
}

func deployTx(x DeployTx, nonce uint64, to *common.Address, data []byte, id uint64) *types.Transaction {
	cid := new(big.Int).SetUint64(id)
	signer := types.LatestSignerForChainID(cid)
	var in types.TxData
	switch x.Typ {
	case 5:
		signer = types.HomesteadSigner{}
		fallthrough
	case 0:
		in = &types.LegacyTx{Nonce: nonce, GasPrice: big.NewInt(9), Gas: 100000, To: to, Value: new(big.Int), Data: data}
	case 1:
		in = &types.AccessListTx{ChainID: cid, Nonce: nonce, GasPrice: big.NewInt(9), Gas: 100000, To: to, Value: new(big.Int), Data: data}
	default:
		in = &types.DynamicFeeTx{ChainID: cid, Nonce: nonce, GasTipCap: big.NewInt(1), GasFeeCap: big.NewInt(9), Gas: 100000, To: to, Value: new(big.Int), Data: data}
	}
	tx, err := types.SignNewTx(sim.Key(x.From), signer, in)
	h.Must(err)
	return tx
}
