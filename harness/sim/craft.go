package sim

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/dappnode/mev-sp-oracle/oracle"
	"pgregory.net/rapid"
)

// A state built directly, for the properties that hold for any state.
type CVal struct {
	Idx       uint64
	Status    int
	Acc, Pend string
	Addr      string // 40 hex digits
	Case      int
	Sub       int
	Coll      string
}

type Crafted struct {
	Net      string
	Slot     uint64
	Ckpt     uint64
	Deployed uint64
	Fees     string
	FeeAddr  string // 40 hex digits
	FeeCase  int
	FeePct   int
	Vals     []CVal
}

func hexCase(h string, c int) string {
	switch c {
	case 1:
		return "0x" + strings.ToUpper(h)
	case 2:
		b := []byte(h)
		for i := range b {
			if i%3 == 0 {
				b[i] = strings.ToUpper(h)[i]
			}
		}
		return "0x" + string(b)
	}
	return "0x" + h
}

// BigWei draws an amount with any number of bits up to 250.
func BigWei(t *rapid.T, label string) string {
	if Pct(t, 70, label+"k") {
		return Wei(t, label, 0)
	}
	x := new(big.Int)
	for i := 1 + U(t, 4, label+"n"); i > 0; i-- {
		x.Lsh(x, 62)
		x.Or(x, new(big.Int).SetUint64(rapid.Uint64Range(0, 1<<62-1).Draw(t, label)))
	}
	return x.String()
}

func GenAddr(t *rapid.T, label string) string {
	switch Weighted(t, label+"k", 3, 3, 1, 1) {
	case 0: // a few fixed ones, so that addresses repeat
		return fmt.Sprintf("%040x", 0x1000+U(t, 6, label))
	case 1:
		return fmt.Sprintf("%016x%024x", rapid.Uint64().Draw(t, label), 0xabcdef)
	case 2:
		return strings.Repeat("f", 39) + fmt.Sprintf("%x", U(t, 16, label))
	}
	return "a" + strings.Repeat("0", 38) + fmt.Sprintf("%x", U(t, 16, label))
}

func GenCrafted(t *rapid.T, maxVals int, feeMayWithdraw bool) *Crafted {
	c := &Crafted{Net: Of(t, "net", "mainnet", "hoodi", "holesky"), FeePct: U(t, 10001, "pct")}
	c.Deployed = rapid.Uint64Range(1, 12000000).Draw(t, "deployed")
	c.Ckpt = Of(t, "ckpt", uint64(1), 5, 1200, 7200)
	c.Slot = c.Deployed + rapid.Uint64Range(0, 100000).Draw(t, "slot")
	c.Fees = BigWei(t, "fees")
	c.FeeAddr = GenAddr(t, "feeaddr")
	c.FeeCase = U(t, 3, "feecase")
	n := U(t, maxVals+1, "nvals")
	if Pct(t, 2, "crowd") {
		n = U(t, 150, "crowdvals")
	}
	seen := map[uint64]bool{}
	for i := 0; i < n; i++ {
		v := CVal{Idx: rapid.Uint64Range(0, 2000000).Draw(t, "idx"), Status: 1 + U(t, 5, "status"), Acc: BigWei(t, "acc"), Pend: BigWei(t, "pend"),
			Addr: GenAddr(t, "addr"), Case: U(t, 3, "case"), Sub: U(t, 2, "sub"), Coll: Wei(t, "coll", 0)}
		if Pct(t, 15, "zero") {
			v.Acc = "0"
		}
		if seen[v.Idx] {
			continue
		}
		if feeMayWithdraw && Pct(t, 10, "feewd") {
			v.Addr = c.FeeAddr
		}
		if !feeMayWithdraw && v.Addr == c.FeeAddr {
			continue
		}
		seen[v.Idx] = true
		c.Vals = append(c.Vals, v)
	}
	return c
}

func (c *Crafted) FeeAddress() string { return hexCase(c.FeeAddr, c.FeeCase) }

func (c *Crafted) Cfg() *oracle.Config {
	return &oracle.Config{Network: c.Net, PoolAddress: Cased(AccPool, 0), DeployedSlot: c.Deployed, DeployedBlock: 1, CheckPointSizeInSlots: c.Ckpt,
		PoolFeesPercentOver10000: c.FeePct, PoolFeesAddress: c.FeeAddress(), CollateralInWei: big.NewInt(1000)}
}

// Oracle in the crafted state.
func (c *Crafted) Oracle() (*oracle.Oracle, *oracle.Config) {
	cfg := c.Cfg()
	or := oracle.NewOracle(cfg)
	st := or.State()
	st.LatestProcessedSlot, st.NextSlotToProcess, st.LatestProcessedBlock = c.Slot, c.Slot+1, 77
	st.PoolAccumulatedFees = B(c.Fees)
	for _, v := range c.Vals {
		st.Validators[v.Idx] = &oracle.ValidatorInfo{ValidatorStatus: oracle.ValidatorStatus(v.Status), AccumulatedRewardsWei: B(v.Acc), PendingRewardsWei: B(v.Pend),
			CollateralWei: B(v.Coll), WithdrawalAddress: hexCase(v.Addr, v.Case), ValidatorIndex: v.Idx, ValidatorKey: PubKeyHex(v.Idx), SubscriptionType: oracle.SubscriptionType(v.Sub)}
	}
	return or, cfg
}
