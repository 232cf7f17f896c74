package sim

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

// CkptView writes down everything a checkpoint contains, without the code's own codecs.
func CkptView(c *oracle.OnchainState) string {
	if c == nil {
		return "<nil>"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "slot %d root %s\n", c.Slot, c.MerkleRoot)
	var idx []uint64
	for k := range c.Validators {
		idx = append(idx, k)
	}
	sort.Slice(idx, func(i, j int) bool { return idx[i] < idx[j] })
	for _, k := range idx {
		fmt.Fprintf(&sb, "val %d %s\n", k, ValView(c.Validators[k]))
	}
	var ks []string
	for k := range c.Leafs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&sb, "leaf %s %s %s\n", k, c.Leafs[k].WithdrawalAddress, c.Leafs[k].AccumulatedBalanceWei)
	}
	ks = nil
	for k := range c.Proofs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&sb, "proof %s %v\n", k, c.Proofs[k])
	}
	return sb.String()
}

func ValView(v *oracle.ValidatorInfo) string {
	if v == nil {
		return "<nil>"
	}
	return fmt.Sprintf("status %d acc %s pend %s coll %s wd %s idx %d key %s sub %d", v.ValidatorStatus, v.AccumulatedRewardsWei, v.PendingRewardsWei,
		v.CollateralWei, v.WithdrawalAddress, v.ValidatorIndex, v.ValidatorKey, v.SubscriptionType)
}

// CkptsView of all checkpoints of a state.
func CkptsView(st *oracle.OracleState) map[uint64]string {
	m := map[uint64]string{}
	for k, c := range st.CommitedStates {
		m[k] = CkptView(c)
	}
	return m
}

// Leaf of the claim tree.
type Leaf struct {
	Addr string
	Bal  *big.Int
}

func (l Leaf) Hash() []byte {
	var buf [52]byte
	copy(buf[:20], common.HexToAddress(l.Addr).Bytes())
	l.Bal.FillBytes(buf[20:])
	return crypto.Keccak256(buf[:])
}

func pair(a, b []byte) []byte {
	if bytes.Compare(a, b) > 0 {
		a, b = b, a
	}
	return crypto.Keccak256(a, b)
}

// Leaves are the specified leaves of a state: the fee address, then every withdrawal address in order.
func Leaves(m *MS, feeAddr string) []Leaf {
	sum := map[string]*big.Int{}
	for _, v := range m.Vals {
		if sum[v.Wd] == nil {
			sum[v.Wd] = new(big.Int)
		}
		sum[v.Wd].Add(sum[v.Wd], v.Acc)
	}
	var as []string
	for a := range sum {
		as = append(as, a)
	}
	sort.Strings(as)
	out := []Leaf{{low(feeAddr), m.Fees}}
	for _, a := range as {
		out = append(out, Leaf{a, sum[a]})
	}
	return out
}

// Root of the specified tree; a last node without a sibling is paired with itself.
func Root(ls []Leaf) string {
	var level [][]byte
	for _, l := range ls {
		level = append(level, l.Hash())
	}
	for len(level) > 1 {
		if len(level)%2 == 1 {
			level = append(level, level[len(level)-1])
		}
		var up [][]byte
		for i := 0; i < len(level); i += 2 {
			up = append(up, pair(level[i], level[i+1]))
		}
		level = up
	}
	return fmt.Sprintf("0x%x", level[0])
}

// Verifies is the contract's proof verification.
func Verifies(root string, proof []string, l Leaf) bool {
	h := l.Hash()
	for _, p := range proof {
		b := common.FromHex(p)
		if len(b) != 32 {
			return false
		}
		h = pair(h, b)
	}
	return strings.EqualFold(fmt.Sprintf("0x%x", h), root)
}

// CheckCkpt compares a frozen checkpoint with what the state (at that moment) must give.
func CheckCkpt(c *oracle.OnchainState, m *MS, slot uint64, feeAddr string, allPairs bool) error {
	ls := Leaves(m, feeAddr)
	if c.Slot != slot {
		return fmt.Errorf("checkpoint slot %d, want %d", c.Slot, slot)
	}
	if want := Root(ls); !strings.EqualFold(c.MerkleRoot, want) {
		return fmt.Errorf("root %s, want %s", c.MerkleRoot, want)
	}
	if len(c.Leafs) != len(ls) || len(c.Proofs) != len(ls) {
		return fmt.Errorf("%d leaves and %d proofs, want %d", len(c.Leafs), len(c.Proofs), len(ls))
	}
	for i, l := range ls {
		got, ok := c.Leafs[l.Addr]
		if !ok || got.WithdrawalAddress != l.Addr || got.AccumulatedBalanceWei.Cmp(l.Bal) != 0 {
			return fmt.Errorf("leaf of %s: %+v, want %s", l.Addr, got, l.Bal)
		}
		pr, ok := c.Proofs[l.Addr]
		if !ok || !Verifies(c.MerkleRoot, pr, l) {
			return fmt.Errorf("the proof of %s does not verify", l.Addr)
		}
		for j, o := range ls {
			if i != j && (allPairs || j == i+1 || j == 0) && Verifies(c.MerkleRoot, pr, o) {
				return fmt.Errorf("the proof of %s also verifies for %s", l.Addr, o.Addr)
			}
		}
		if Verifies(c.MerkleRoot, pr, Leaf{l.Addr, new(big.Int).Add(l.Bal, big.NewInt(1))}) {
			return fmt.Errorf("the proof of %s verifies for another balance", l.Addr)
		}
	}
	if len(c.Validators) != len(m.Vals) {
		return fmt.Errorf("%d validators, want %d", len(c.Validators), len(m.Vals))
	}
	for k, v := range m.Vals {
		g := c.Validators[k]
		if g == nil || int(g.ValidatorStatus) != v.Status || g.AccumulatedRewardsWei.Cmp(v.Acc) != 0 || g.PendingRewardsWei.Cmp(v.Pend) != 0 ||
			low(g.WithdrawalAddress) != v.Wd || low(g.ValidatorKey) != v.Key || g.ValidatorIndex != v.Idx || int(g.SubscriptionType) != v.Sub {
			return fmt.Errorf("snapshot of validator %d: %s, want %+v", k, ValView(g), *v)
		}
	}
	return nil
}
