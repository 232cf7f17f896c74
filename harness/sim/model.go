package sim

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
)

// Validator states and record types of the specification.
const (
	Active        = 1
	Yellow        = 2
	Red           = 3
	NotSubscribed = 4
	Banned        = 5

	TMissed = 1
	TWrong  = 2
	TOk     = 3
	TOkBls  = 4

	RNone    = 0
	RVanilla = 1
	RMev     = 2
)

type MV struct {
	Status         int
	Acc, Pend, Col *big.Int
	Wd, Key        string
	Idx            uint64
	Sub            int
}

func (v *MV) subscribed() bool { return v.Status == Active || v.Status == Yellow || v.Status == Red }
func (v *MV) eligible() bool   { return v.Status == Active || v.Status == Yellow }

type Rec struct {
	Slot, Block, Idx uint64
	Key, Wd          string
	Type             int
	Reward           *big.Int
	RType            int
	AnyReward        bool // the specification does not fix the reward of this record
}

type EvRec struct {
	Sender, Amt string
	Idx         uint64
	Tx          string
	Block       uint64
}

// MS is the part of the oracle's state the specification talks about.
type MS struct {
	Slot, Next, Block uint64
	FeePct            int
	Fees              *big.Int
	Vals              map[uint64]*MV
	Proposed, Missed  []Rec
	Wrong             []Rec
	Ether, Don        []EvRec
	Subs, Unsubs      []EvRec
}

func low(s string) string { return strings.ToLower(s) }

func recOf(b oracle.SummarizedBlock) Rec {
	return Rec{Slot: b.Slot, Block: b.Block, Idx: b.ValidatorIndex, Key: low(b.ValidatorKey), Wd: low(b.WithdrawalAddress),
		Type: int(b.BlockType), Reward: cp(b.Reward), RType: int(b.RewardType)}
}

func cp(x *big.Int) *big.Int {
	if x == nil {
		return nil
	}
	return new(big.Int).Set(x)
}

func etherOf(e *contract.ContractEtherReceived) EvRec {
	return EvRec{Sender: low(e.Sender.String()), Amt: e.DonationAmount.String(), Tx: e.Raw.TxHash.String(), Block: e.Raw.BlockNumber}
}

func recs(bs []oracle.SummarizedBlock) []Rec {
	out := make([]Rec, 0, len(bs))
	for _, b := range bs {
		out = append(out, recOf(b))
	}
	return out
}

func ethers(es []*contract.ContractEtherReceived) []EvRec {
	out := make([]EvRec, 0, len(es))
	for _, e := range es {
		out = append(out, etherOf(e))
	}
	return out
}

// Extract copies what the specification talks about out of the oracle's state.
func Extract(st *oracle.OracleState) *MS {
	m := &MS{Slot: st.LatestProcessedSlot, Next: st.NextSlotToProcess, Block: st.LatestProcessedBlock, FeePct: st.PoolFeesPercentOver10000,
		Fees: cp(st.PoolAccumulatedFees), Vals: map[uint64]*MV{}}
	for k, v := range st.Validators {
		m.Vals[k] = &MV{Status: int(v.ValidatorStatus), Acc: cp(v.AccumulatedRewardsWei), Pend: cp(v.PendingRewardsWei), Col: cp(v.CollateralWei),
			Wd: low(v.WithdrawalAddress), Key: low(v.ValidatorKey), Idx: v.ValidatorIndex, Sub: int(v.SubscriptionType)}
	}
	m.Proposed, m.Missed, m.Wrong = recs(st.ProposedBlocks), recs(st.MissedBlocks), recs(st.WrongFeeBlocks)
	m.Ether, m.Don = ethers(st.EtherReceivedEvents), ethers(st.Donations)
	for _, e := range st.SubscriptionEvents {
		m.Subs = append(m.Subs, EvRec{Sender: low(e.Sender.String()), Amt: e.SubscriptionCollateral.String(), Idx: e.ValidatorID, Tx: e.Raw.TxHash.String(), Block: e.Raw.BlockNumber})
	}
	for _, e := range st.UnsubscriptionEvents {
		m.Unsubs = append(m.Unsubs, EvRec{Sender: low(e.Sender.String()), Idx: e.ValidatorID, Tx: e.Raw.TxHash.String(), Block: e.Raw.BlockNumber})
	}
	return m
}

// Copy of the balances; the lists are shared (they are only appended to).
func (m *MS) Copy() *MS {
	c := *m
	c.Fees = cp(m.Fees)
	c.Vals = map[uint64]*MV{}
	for k, v := range m.Vals {
		w := *v
		w.Acc, w.Pend, w.Col = cp(v.Acc), cp(v.Pend), cp(v.Col)
		c.Vals[k] = &w
	}
	clip := func(r []Rec) []Rec { return r[:len(r):len(r)] }
	clipE := func(r []EvRec) []EvRec { return r[:len(r):len(r)] }
	c.Proposed, c.Missed, c.Wrong = clip(m.Proposed), clip(m.Missed), clip(m.Wrong)
	c.Ether, c.Don, c.Subs, c.Unsubs = clipE(m.Ether), clipE(m.Don), clipE(m.Subs), clipE(m.Unsubs)
	return &c
}

// Owed is everything the state assigns to somebody.
func (m *MS) Owed() *big.Int {
	t := cp(m.Fees)
	for _, v := range m.Vals {
		t.Add(t, v.Acc)
		t.Add(t, v.Pend)
	}
	return t
}

type stepper struct {
	s    *Scn
	m    *MS
	slot uint64
	tags map[string]int
	// everything received in the step
	recv   *big.Int
	unspec bool
}

func (p *stepper) tag(f string, a ...any) { p.tags[fmt.Sprintf(f, a...)]++ }

func (p *stepper) subscribed(idx uint64) bool {
	v := p.m.Vals[idx]
	return v != nil && v.subscribed()
}

func (p *stepper) share(reward *big.Int) {
	m := p.m
	var el []uint64
	for k, v := range m.Vals {
		if v.eligible() {
			el = append(el, k)
		}
	}
	if len(el) == 0 {
		m.Fees.Add(m.Fees, reward)
		p.tag("share:nobody")
		return
	}
	tenk := big.NewInt(10000)
	num := new(big.Int).Mul(reward, big.NewInt(int64(m.FeePct)))
	cut, rem := new(big.Int).QuoRem(num, tenk, new(big.Int))
	rest := new(big.Int).Sub(reward, cut)
	n := p.s.N()
	given := new(big.Int)
	switch {
	case n.IsElectra(p.slot):
		total := new(big.Int)
		for _, k := range el {
			total.Add(total, new(big.Int).SetUint64(p.s.ValByIdx(k).EffAt(p.slot)))
		}
		same := true
		for _, k := range el {
			e := p.s.ValByIdx(k).EffAt(p.slot)
			same = same && e == p.s.ValByIdx(el[0]).EffAt(p.slot)
			x := new(big.Int).Mul(rest, new(big.Int).SetUint64(e))
			x.Div(x, total)
			m.Vals[k].Pend.Add(m.Vals[k].Pend, x)
			given.Add(given, x)
		}
		p.tag("share:electra")
		if !same {
			p.tag("share:unequal")
		}
	default:
		if !n.IsFork1(p.slot) {
			rest.Sub(rest, rem)
			if rest.Sign() < 0 {
				// below 10000 wei or so the formula of that time assigns negative amounts
				p.unspec = true
			}
			p.tag("share:prefork1")
			if rem.Sign() != 0 {
				p.tag("share:prefork1rem")
			}
		} else {
			p.tag("share:fork1")
		}
		per := new(big.Int).Div(rest, big.NewInt(int64(len(el))))
		for _, k := range el {
			m.Vals[k].Pend.Add(m.Vals[k].Pend, per)
			given.Add(given, per)
		}
	}
	if len(el) > 1 {
		p.tag("share:many")
	}
	for _, v := range m.Vals {
		if !v.eligible() {
			p.tag("share:excluded-%d", v.Status)
		}
	}
	m.Fees.Add(m.Fees, new(big.Int).Sub(reward, given))
}

// Expected is what must come out of offering a step's block to the oracle.
type Expected struct {
	Refuse bool
	Post   *MS
	Tags   map[string]int
	Recv   *big.Int // received by the pool in this step
	Why    string
	Unspec bool // outside of what the specification covers
}

// MEV value and recipient by the specification.
func (s *Scn) mev(st *Step) (val *big.Int, toPool, present bool) {
	l, ok := st.LastMev()
	if !ok {
		return nil, false, false
	}
	val = B(l.Value)
	toPool = l.To == AccPool
	for _, e := range st.AllEvs() {
		if e.Kind == "ether" && B(e.Amt).Cmp(val) == 0 {
			toPool = true
		}
	}
	return val, toPool, true
}

// NeedsHeader: the oracle has to value the block by its tips.
func (s *Scn) NeedsHeader(st *Step, subscribed bool) bool {
	if st.Missed {
		return false
	}
	_, toPool, present := s.mev(st)
	if present && toPool {
		return true
	}
	return subscribed || st.FeeRec == AccPool
}

func (st *Step) Tips() *big.Int {
	t := new(big.Int)
	for _, x := range st.Txs {
		y := x
		if x.To < 0 && (x.Type == 3 || x.Type == 4) {
			y.Type = 2
		}
		pr := y.Price(st.BaseFee)
		pr.Sub(pr, new(big.Int).SetUint64(st.BaseFee))
		t.Add(t, pr.Mul(pr, new(big.Int).SetUint64(x.GasUsed)))
	}
	return t
}

// Model computes the state after the step's block, from the state before it.
func (s *Scn) Model(pre *MS, st *Step, r *Raw) *Expected {
	p := &stepper{s: s, m: pre.Copy(), slot: r.Slot, tags: map[string]int{}, recv: new(big.Int)}
	ex := &Expected{Tags: p.tags, Recv: p.recv}
	m := p.m
	evs := map[string][]Ev{}
	for _, e := range st.AllEvs() {
		if !st.Missed {
			evs[e.Kind] = append(evs[e.Kind], e)
		}
	}
	refuse := func(why string) *Expected {
		ex.Refuse, ex.Why, ex.Post = true, why, pre
		p.tag("refuse:%s", why)
		return ex
	}
	if r.Slot != pre.Next {
		return refuse("slot")
	}
	for _, k := range []string{"fee", "recip", "ckpt", "coll"} {
		if len(evs[k]) > 1 {
			return refuse("two-" + k)
		}
	}
	n := s.N()
	newFee := m.FeePct
	for _, e := range evs["fee"] {
		if n.FeeSlot == 0 || r.Slot != n.FeeSlot || B(e.Amt).Cmp(big.NewInt(int64(n.FeeValue))) != 0 {
			return refuse("fee")
		}
		newFee = n.FeeValue
		p.tag("cfg:fee")
	}
	for _, e := range evs["recip"] {
		if e.Sender != AccFees {
			return refuse("recip")
		}
		p.tag("cfg:same-recip")
	}
	for _, e := range evs["ckpt"] {
		if B(e.Amt).Uint64() != s.Ckpt {
			return refuse("ckpt")
		}
		p.tag("cfg:same-ckpt")
	}
	for _, e := range evs["coll"] {
		if B(e.Amt).Cmp(B(s.Coll)) != 0 {
			return refuse("coll")
		}
		p.tag("cfg:same-coll")
	}
	m.FeePct = newFee

	// Classification of the proposal
	prop := s.Prop(st.Prop)
	rec := Rec{Slot: r.Slot, Idx: prop.Idx, Key: PubKeyHex(prop.Idx), Reward: new(big.Int), Type: TMissed}
	cb := prop.CredBytes(r.Slot)
	okCred := false
	switch prop.CredTypeAt(r.Slot) {
	case CredBls:
		rec.Wd = "0x" + fmt.Sprintf("%x", cb[1:])
	case Cred01, Cred02:
		rec.Wd = Low(prop.Addr)
		okCred = true
	}
	if !st.Missed {
		wasSub := p.subscribed(prop.Idx)
		val, toPool, present := s.mev(st)
		rec.Block = r.Block
		rec.Type = TWrong
		switch {
		case present:
			rec.Reward, rec.RType = val, RMev
			if toPool {
				rec.Type = TOk
			}
			p.tag("mev:pool=%v", toPool)
			if toPool && st.Txs[len(st.Txs)-1].To != AccPool {
				p.tag("mev:via-contract")
			}
			if st.Txs[len(st.Txs)-1].From == AccWhite {
				p.tag("mev:whitelisted")
			}
		default:
			if st.FeeRec == AccPool || wasSub {
				rec.Reward, rec.RType = st.Tips(), RVanilla
			}
			if st.FeeRec == AccPool {
				rec.Type = TOk
				p.recv.Add(p.recv, rec.Reward)
				p.tag("vanilla:pool")
				if rec.Reward.Sign() > 0 {
					p.tag("vanilla:pool-nonzero")
				}
			} else {
				p.tag("vanilla:elsewhere")
			}
		}
		if rec.Type == TOk && !okCred {
			rec.Type = TOkBls
		}
		if rec.Type == TWrong && !wasSub {
			rec.AnyReward = true
		}
	}

	for _, e := range evs["ether"] {
		p.recv.Add(p.recv, B(e.Amt))
	}
	for _, e := range r.Events.EtherReceived {
		m.Ether = append(m.Ether, etherOf(e))
	}
	for _, e := range r.Events.SubscribeValidator {
		m.Subs = append(m.Subs, EvRec{Sender: low(e.Sender.String()), Amt: e.SubscriptionCollateral.String(), Idx: e.ValidatorID, Tx: e.Raw.TxHash.String(), Block: e.Raw.BlockNumber})
	}
	for _, e := range r.Events.UnsubscribeValidator {
		m.Unsubs = append(m.Unsubs, EvRec{Sender: low(e.Sender.String()), Idx: e.ValidatorID, Tx: e.Raw.TxHash.String(), Block: e.Raw.BlockNumber})
	}

	// Subscriptions
	for _, e := range evs["sub"] {
		c := B(e.Amt)
		p.recv.Add(p.recv, c)
		v := s.ValByIdx(e.Idx)
		toFees := func(why string) { m.Fees.Add(m.Fees, c); p.tag("sub:%s", why) }
		if v == nil {
			toFees("unknown")
			continue
		}
		switch v.StatusAt(r.Slot) {
		case v1.ValidatorStatePendingInitialized, v1.ValidatorStatePendingQueued, v1.ValidatorStateActiveOngoing:
		default:
			toFees("beacon-state")
			continue
		}
		wd, ok := v.Wd(r.Slot)
		if !ok {
			toFees("bls")
			continue
		}
		if Low(e.Sender) != wd {
			toFees("sender")
			continue
		}
		t := m.Vals[e.Idx]
		if t != nil && (t.Status == Banned || t.subscribed()) {
			t.Acc.Add(t.Acc, c)
			if t.Status == Banned {
				p.tag("sub:banned")
			} else {
				p.tag("sub:already")
			}
			continue
		}
		if c.Cmp(B(s.Coll)) < 0 {
			toFees("low")
			continue
		}
		if t == nil {
			t = &MV{Acc: new(big.Int), Pend: new(big.Int), Col: cp(c), Wd: wd, Key: PubKeyHex(e.Idx), Idx: e.Idx}
			m.Vals[e.Idx] = t
			p.tag("sub:ok-new")
		} else {
			p.tag("sub:ok-again")
		}
		t.Status, t.Sub = Active, 0
		t.Pend.Add(t.Pend, c)
	}

	// The proposal
	t := m.Vals[prop.Idx]
	switch rec.Type {
	case TMissed:
		if t != nil && t.subscribed() {
			p.tag("missed:%d", t.Status)
			switch t.Status {
			case Active:
				t.Status = Yellow
			case Yellow:
				t.Status = Red
			}
			m.Missed = append(m.Missed, rec)
		}
	case TOkBls:
		m.Fees.Add(m.Fees, rec.Reward)
		m.Proposed = append(m.Proposed, rec)
		p.tag("ok:bls")
		if t != nil {
			p.tag("ok:bls-tracked")
		}
	case TOk:
		switch {
		case t == nil:
			p.tag("ok:untracked")
			t = &MV{Status: Active, Acc: new(big.Int), Pend: new(big.Int), Col: new(big.Int), Wd: rec.Wd, Key: PubKeyHex(prop.Idx), Idx: prop.Idx, Sub: 1}
			m.Vals[prop.Idx] = t
		default:
			p.tag("ok:%d", t.Status)
			switch t.Status {
			case NotSubscribed:
				t.Status, t.Sub = Active, 1
			case Red:
				t.Status = Yellow
			case Yellow:
				t.Status = Active
			}
		}
		p.share(rec.Reward)
		t.Acc.Add(t.Acc, t.Pend)
		t.Pend = new(big.Int)
		m.Proposed = append(m.Proposed, rec)
	case TWrong:
		if t != nil && t.subscribed() {
			p.tag("wrong:%d", t.Status)
			if t.Pend.Sign() > 0 {
				p.tag("wrong:pend")
			}
			t.Status = Banned
			x := t.Pend
			t.Pend = new(big.Int)
			p.share(x)
			m.Wrong = append(m.Wrong, rec)
		}
	}

	// Unsubscriptions
	for _, e := range evs["unsub"] {
		v := s.ValByIdx(e.Idx)
		if v == nil {
			p.tag("unsub:unknown")
			continue
		}
		wd, ok := v.Wd(r.Slot)
		if !ok {
			p.tag("unsub:bls")
			continue
		}
		if Low(e.Sender) != wd {
			p.tag("unsub:sender")
			continue
		}
		t := m.Vals[e.Idx]
		if t == nil || !t.subscribed() {
			p.tag("unsub:notsub")
			continue
		}
		p.tag("unsub:ok-%d", t.Status)
		if t.Pend.Sign() > 0 {
			p.tag("unsub:pend")
		}
		t.Status = NotSubscribed
		x := t.Pend
		t.Pend = new(big.Int)
		p.share(x)
	}

	// Donations: every ether event but the one that is the MEV reward
	var dons []int
	mevAt := -1
	if val, toPool, present := s.mev(st); !st.Missed && present && toPool {
		for i, e := range evs["ether"] {
			if B(e.Amt).Cmp(val) == 0 {
				if mevAt >= 0 {
					p.tag("don:tie")
				}
				mevAt = i
			}
		}
	}
	for i := range evs["ether"] {
		if i != mevAt {
			dons = append(dons, i)
		}
	}
	for _, i := range dons {
		m.Don = append(m.Don, etherOf(r.Events.EtherReceived[i]))
		p.share(B(evs["ether"][i].Amt))
		p.tag("don")
		if mevAt >= 0 {
			p.tag("don:with-mev")
		}
	}
	if len(dons) > 1 {
		p.tag("don:many")
	}

	// Bans
	total := new(big.Int)
	banned := 0
	for _, e := range evs["ban"] {
		t := m.Vals[e.Idx]
		if t == nil || !t.subscribed() {
			p.tag("ban:ignored")
			continue
		}
		p.tag("ban:ok-%d", t.Status)
		banned++
		t.Status = Banned
		total.Add(total, t.Pend)
		t.Pend = new(big.Int)
	}
	if banned > 1 {
		p.tag("ban:many")
	}
	if total.Sign() > 0 {
		p.tag("ban:pend")
		p.share(total)
	}
	for _, e := range evs["unban"] {
		t := m.Vals[e.Idx]
		if t == nil || t.Status != Banned {
			p.tag("unban:ignored")
			continue
		}
		p.tag("unban:ok")
		t.Status = Active
	}

	// Cleanup
	if r.Slot%CleanupEvery == 0 && n.IsFork1(r.Slot) {
		p.tag("cleanup")
		cons := map[uint64]uint64{}
		if n.IsElectra(r.Slot) {
			cons = s.ConsAt(r.Slot)
		}
		var idxs []uint64
		for k := range m.Vals {
			idxs = append(idxs, k)
		}
		sort.Slice(idxs, func(i, j int) bool { return idxs[i] < idxs[j] })
		total := new(big.Int)
		for _, k := range idxs {
			t := m.Vals[k]
			v := s.ValByIdx(k)
			switch v.StatusAt(r.Slot) {
			case v1.ValidatorStateActiveOngoing, v1.ValidatorStateActiveExiting, v1.ValidatorStateActiveSlashed:
				continue
			}
			if t.Pend.Sign() == 0 {
				p.tag("clean:nothing")
				continue
			}
			if t.subscribed() {
				t.Status = NotSubscribed
			}
			x := t.Pend
			t.Pend = new(big.Int)
			tgt, ok := cons[k]
			switch {
			case !ok:
				total.Add(total, x)
				p.tag("clean:shared")
			case m.Vals[tgt] == nil:
				tv := s.ValByIdx(tgt)
				wd, ok := tv.Wd(r.Slot)
				if !ok {
					panic("consolidation target without withdrawal address")
				}
				m.Vals[tgt] = &MV{Status: NotSubscribed, Acc: new(big.Int), Pend: x, Col: new(big.Int), Wd: wd, Key: PubKeyHex(tgt), Idx: tgt}
				p.tag("clean:to-new")
			case m.Vals[tgt].Status == Banned:
				total.Add(total, x)
				p.tag("clean:to-banned")
			default:
				m.Vals[tgt].Pend.Add(m.Vals[tgt].Pend, x)
				p.tag("clean:to-tracked")
			}
		}
		if total.Sign() != 0 {
			p.share(total)
		}
	}

	ex.Unspec = p.unspec
	m.Slot, m.Next = r.Slot, r.Slot+1
	if !st.Missed {
		m.Block = r.Block
	}
	ex.Post = m
	return ex
}

// What a comparison looks at.
const (
	FBal = 1 << iota
	FStatus
	FMeta
	FProps
	FEvents
	FDon
	FCfg
	FPos
	FAll = 1<<iota - 1
)

func eq(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Cmp(b) == 0
}

// Diff compares the expected with the actual state.
func Diff(want, got *MS, f int) error {
	for k, w := range want.Vals {
		g := got.Vals[k]
		if g == nil {
			return fmt.Errorf("validator %d: not tracked, want status %d", k, w.Status)
		}
		if f&FStatus != 0 && g.Status != w.Status {
			return fmt.Errorf("validator %d: status %d, want %d", k, g.Status, w.Status)
		}
		if f&FBal != 0 {
			if !eq(g.Pend, w.Pend) {
				return fmt.Errorf("validator %d: pending %s, want %s", k, g.Pend, w.Pend)
			}
			if !eq(g.Acc, w.Acc) {
				return fmt.Errorf("validator %d: accumulated %s, want %s", k, g.Acc, w.Acc)
			}
		}
		if f&FMeta != 0 {
			if g.Idx != w.Idx || g.Wd != w.Wd || g.Key != w.Key || g.Sub != w.Sub || !eq(g.Col, w.Col) {
				return fmt.Errorf("validator %d: record idx=%d wd=%s key=%s sub=%d coll=%s, want idx=%d wd=%s key=%s sub=%d coll=%s",
					k, g.Idx, g.Wd, g.Key, g.Sub, g.Col, w.Idx, w.Wd, w.Key, w.Sub, w.Col)
			}
		}
	}
	for k, g := range got.Vals {
		if want.Vals[k] == nil {
			return fmt.Errorf("validator %d: tracked (status %d, pending %s, accumulated %s), want untracked", k, g.Status, g.Pend, g.Acc)
		}
	}
	if f&FBal != 0 && !eq(got.Fees, want.Fees) {
		return fmt.Errorf("pool fees %s, want %s", got.Fees, want.Fees)
	}
	if f&FProps != 0 {
		for _, l := range []struct {
			name string
			g, w []Rec
		}{{"proposed", got.Proposed, want.Proposed}, {"missed", got.Missed, want.Missed}, {"wrong fee", got.Wrong, want.Wrong}} {
			if len(l.g) != len(l.w) {
				return fmt.Errorf("%s blocks: %d, want %d", l.name, len(l.g), len(l.w))
			}
			for i := range l.g {
				g, w := l.g[i], l.w[i]
				bad := g.Slot != w.Slot || g.Block != w.Block || g.Idx != w.Idx || g.Key != w.Key || g.Wd != w.Wd || g.Type != w.Type
				if !w.AnyReward {
					bad = bad || g.RType != w.RType || !eq(g.Reward, w.Reward)
				}
				if bad {
					return fmt.Errorf("%s block %d: %+v reward %s, want %+v reward %s", l.name, i, g, g.Reward, w, w.Reward)
				}
			}
		}
	}
	type evl struct {
		name string
		g, w []EvRec
	}
	var ls []evl
	if f&FEvents != 0 {
		ls = append(ls, evl{"ether events", got.Ether, want.Ether}, evl{"subscription events", got.Subs, want.Subs}, evl{"unsubscription events", got.Unsubs, want.Unsubs})
	}
	if f&FDon != 0 {
		ls = append(ls, evl{"donations", got.Don, want.Don})
	}
	for _, l := range ls {
		if len(l.g) != len(l.w) {
			return fmt.Errorf("%s: %d, want %d", l.name, len(l.g), len(l.w))
		}
		for i := range l.g {
			if l.g[i] != l.w[i] {
				return fmt.Errorf("%s %d: %+v, want %+v", l.name, i, l.g[i], l.w[i])
			}
		}
	}
	if f&FCfg != 0 && got.FeePct != want.FeePct {
		return fmt.Errorf("pool fee %d, want %d", got.FeePct, want.FeePct)
	}
	if f&FPos != 0 && (got.Slot != want.Slot || got.Next != want.Next || got.Block != want.Block) {
		return fmt.Errorf("position slot=%d next=%d block=%d, want slot=%d next=%d block=%d", got.Slot, got.Next, got.Block, want.Slot, want.Next, want.Block)
	}
	return nil
}
