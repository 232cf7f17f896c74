package sim

import (
	"fmt"
	"math/big"
	"math/bits"

	"pgregory.net/rapid"
)

// Profile says which scenarios to generate.
type Profile struct {
	MaxVals, MaxSteps int
	Inits             bool // start from a state that already tracks validators
	Cleanup           bool // be near cleanup slots, with exits and consolidations
	CfgEvents         int  // percent of steps with parameter events
	CfgSame           bool // such events set what is set
	FeeRegion         int  // percent of scenarios near the scheduled fee change
	SlotOff           int  // percent of steps preceded by a block for another slot
	// weights of what happens in a step
	WUnrelated, WMissed, WOk, WWrong, WMevElse int
	// percent of steps with each kind of event
	Sub, Unsub, Ban, Unban, Ether int
	Ties                          int  // percent of ether events with the amount of the MEV reward
	NoBls                         bool // all proposers may subscribe
	TinyAmounts                   bool
	Nets                          []string
	PostFork1                     bool  // only slots from the first fork on
	minWei                        int64 // set for scenarios that start before the first fork
	MaxGap                        int   // percent of steps with a gap
	Ckpt                          []uint64
	MultiCk                       bool
	Long                          int    // percent of scenarios with many more steps
	Crowd                         int    // percent of scenarios with many validators, events and transactions
	Anchor                        uint64 // be near this slot of mainnet
}

var coin = rapid.Bool()

// U draws 0..n-1 nearly uniformly (rapid's own ranges prefer small values); it shrinks towards 0.
func U(t *rapid.T, n int, label string) int {
	if n <= 1 {
		return 0
	}
	k := bits.Len(uint(n-1)) + 2
	x := 0
	for i := 0; i < k; i++ {
		x <<= 1
		if coin.Draw(t, label) {
			x |= 1
		}
	}
	return x * n >> k
}

func Pct(t *rapid.T, p int, label string) bool {
	if p <= 0 {
		return false
	}
	return U(t, 100, label) >= 100-p
}

func Weighted(t *rapid.T, label string, ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	x := U(t, sum, label)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	panic("weights")
}

func Of[T any](t *rapid.T, label string, xs ...T) T { return xs[U(t, len(xs), label)] }

// Wei draws an amount of at least min, from single wei to absurdly large.
func Wei(t *rapid.T, label string, min int64) string {
	var x *big.Int
	switch Weighted(t, label+"k", 4, 3, 4, 1) {
	case 0:
		x = big.NewInt(rapid.Int64Range(0, 40).Draw(t, label))
	case 1:
		x = big.NewInt(rapid.Int64Range(0, 1000000).Draw(t, label))
	case 2:
		x = big.NewInt(rapid.Int64Range(1e15, 4e18).Draw(t, label))
	case 3:
		x = big.NewInt(rapid.Int64Range(1, 4e18).Draw(t, label))
		x.Mul(x, big.NewInt(rapid.Int64Range(1, 1e9).Draw(t, label+"m")))
	}
	if x.Cmp(big.NewInt(min)) < 0 {
		x = big.NewInt(min)
	}
	return x.String()
}

// paid draws the amount of a transfer: now and then nothing at all.
func paid(t *rapid.T, label string, pf *Profile) string {
	if Pct(t, 3, label+"0") {
		return "0"
	}
	return Wei(t, label, max(1, pf.minWei))
}

// Base draws the network, deployment point and parameters.
func Base(t *rapid.T, pf *Profile) *Scn {
	s := &Scn{}
	nets := pf.Nets
	if nets == nil {
		nets = []string{"mainnet", "mainnet", "hoodi", "hoodi", "holesky"}
	}
	s.Net = Of(t, "net", nets...)
	n := s.N()
	var anchors []uint64
	if pf.FeeRegion > 0 && n.FeeSlot != 0 && Pct(t, pf.FeeRegion, "feeregion") {
		anchors = []uint64{n.FeeSlot}
	} else {
		anchors = []uint64{n.Fork1 + 3*CleanupEvery, n.Fork1, n.Fork1 / 1200 * 1200, (n.Fork1/1200 + 1) * 1200}
		if n.Electra != 0 {
			anchors = append(anchors, n.Electra, n.Electra, n.Electra/1200*1200, (n.Electra/1200+1)*1200, n.Electra+100000, n.Electra+100000)
		}
		if n.FeeSlot != 0 {
			anchors = append(anchors, n.FeeSlot+5000)
		}
	}
	if s.Net != "mainnet" {
		anchors = append(anchors, Exception) // special on mainnet only
	}
	if pf.PostFork1 {
		for i := range anchors {
			if anchors[i] < n.Fork1+uint64(pf.MaxSteps) {
				anchors[i] = n.Fork1 + uint64(pf.MaxSteps)
			}
		}
	}
	a := Of(t, "anchor", anchors...)
	if pf.Anchor != 0 {
		a = pf.Anchor
	}
	if pf.Cleanup {
		if a%CleanupEvery != 0 && (a != n.Electra && a != n.Fork1 || Pct(t, 80, "snap")) {
			a = (a/CleanupEvery + 1) * CleanupEvery
		}
	}
	if pf.Cleanup && n.Electra != 0 && a < n.Electra && Pct(t, 60, "late") {
		a = (n.Electra/1200 + 1 + uint64(U(t, 3, "later"))) * 1200
	}
	back := uint64(U(t, pf.MaxSteps+1, "back"))
	if back >= a {
		back = a - 1
	}
	if s.Net == "mainnet" && a-back == Exception {
		back++
	}
	s.Slot0 = a - back
	if s.Slot0 == 0 {
		s.Slot0 = 1
	}
	s.Block0 = uint64(rapid.IntRange(1, 20000000).Draw(t, "block0"))
	s.Fee = Of(t, "fee", 700, 1000, 500, 0, 1, 1500, 3333, 9999, 10000)
	if Pct(t, 20, "feeany") {
		s.Fee = rapid.IntRange(0, 10000).Draw(t, "feepct")
	}
	s.Coll = Of(t, "coll", "10000000000000000", "1000", "80000000000000000", "0", "1", "1000")
	ck := pf.Ckpt
	if ck == nil {
		ck = []uint64{1, 2, 3, 5, 7, 1200, 7200}
	}
	s.Ckpt = Of(t, "ckpt", ck...)
	s.PoolCase = U(t, 2+1, "poolcase")
	s.FeeCase = U(t, 2+1, "feecase")
	if pf.Inits && (pf.Cleanup || Pct(t, 80, "inits")) {
		// deployed some time before the first slot of the scenario
		before := uint64(U(t, 3+1, "ago")) * s.Ckpt
		if before < s.Slot0 && !(n.FeeSlot != 0 && s.Slot0 > n.FeeSlot && s.Slot0-before <= n.FeeSlot) {
			s.Start = s.Slot0
			s.Slot0 -= before
		}
	}
	return s
}

func genVals(t *rapid.T, s *Scn, pf *Profile, nSteps int) {
	nv := (1 + U(t, pf.MaxVals, "nvals"))
	first := s.FirstSlot()
	for i := 0; i < nv; i++ {
		idx := uint64((1 + U(t, 9, "idx"))) + uint64(i)*10
		if Pct(t, 10, "bigidx") {
			idx += 1 << 33
		}
		v := Val{Idx: idx}
		cw := []int{4, 5, 5, 1, 1}
		if pf.NoBls {
			cw[0], cw[3], cw[4] = 0, 0, 0
		}
		// validators with 0x01 are the simplest
		v.Cred = []int{Cred01, Cred02, CredBls, CredBadPrefix, CredBadPad}[Weighted(t, "cred", cw[1], cw[2], cw[0], cw[3], cw[4])]
		v.Addr = AccWd0 + U(t, 4+1, "addr")
		if v.Cred == Cred01 && !pf.NoBls && Pct(t, 10, "upg") {
			v.CredAt = first + uint64(U(t, nSteps+1, "credat"))
		}
		nst := 0
		p := 15
		if pf.Cleanup {
			p = 60
		}
		if Pct(t, p, "hasst") {
			nst = (1 + U(t, 2, "nst"))
		}
		for j := 0; j < nst; j++ {
			from := uint64(0)
			if j > 0 || rapid.Bool().Draw(t, "stlater") {
				from = first + uint64(U(t, nSteps+1, "stfrom"))
			}
			v.Status = append(v.Status, StatusAt{from, U(t, 9+1, "st")})
		}
		if len(v.Status) == 2 && v.Status[0].From > v.Status[1].From {
			v.Status[0], v.Status[1] = v.Status[1], v.Status[0]
		}
		for j := U(t, 2+1, "neff"); j > 0; j-- {
			from := uint64(0)
			if len(v.Eff) > 0 {
				from = first + uint64(U(t, nSteps+1, "efffrom"))
			}
			v.Eff = append(v.Eff, EffAt{from, Of(t, "eff", uint64(32000000000), 2048000000000, 33000000000, 1, 16000000000, 1000000000, 31000000000, 1999000000000)})
		}
		s.Vals = append(s.Vals, v)
	}
	if pf.Inits {
		for i := range s.Vals {
			if s.Start == 0 || !Pct(t, 75, "tracked") {
				continue
			}
			v := &s.Vals[i]
			if _, ok := v.Wd(first); !ok {
				continue // only validators with a withdrawal address are ever tracked
			}
			st := Of(t, "initst", Active, Active, Active, Yellow, Red, NotSubscribed, Banned)
			in := Init{V: i, Status: st, Acc: Wei(t, "acc", pf.minWei), Sub: U(t, 1+1, "sub")}
			if st == Active || st == Yellow || st == Red || (st == NotSubscribed && s.N().IsElectra(first) && Pct(t, 20, "nspend")) {
				in.Pend = Wei(t, "pend", pf.minWei)
			}
			s.Inits = append(s.Inits, in)
		}
		if s.Start != 0 {
			s.InitFees = Wei(t, "initfees", 0)
		}
	}
}

func genTx(t *rapid.T, s *Scn, pf *Profile) Tx {
	return Tx{
		Type:    U(t, 5+1, "txtype"),
		From:    Of(t, "txfrom", AccOther, AccBuilder, AccWd0, AccWd0+1, AccWhite, s.N().Foreign()),
		To:      Of(t, "txto", AccOther, AccContr, -1, AccWd0, AccPool),
		Value:   Wei(t, "txval", 0),
		Tip:     rapid.Uint64Range(0, 5e9).Draw(t, "tip"),
		Slack:   rapid.Uint64Range(0, 5e9).Draw(t, "slack"),
		GasUsed: rapid.Uint64Range(21000, 3000000).Draw(t, "gas"),
	}
}

func genStep(t *rapid.T, s *Scn, pf *Profile) Step {
	st := Step{Prop: -1}
	if Pct(t, pf.MaxGap, "gapped") {
		st.Gap = Of(t, "gap", 1, 2, 5, int(s.Ckpt%1300))
	}
	kind := Weighted(t, "kind", pf.WUnrelated, pf.WMissed, pf.WOk, pf.WWrong, pf.WMevElse)
	if kind != 0 {
		st.Prop = U(t, len(s.Vals), "prop")
	}
	if kind == 1 {
		st.Missed = true
		if Pct(t, 10, "strmissed") {
			st.Prop = -1
		}
		return st
	}
	st.Fork = U(t, 4+1, "fork")
	st.BaseFee = Of(t, "base", uint64(7), 0, 1000000000, 25000000000, 18446744073)
	st.Header = Pct(t, 20, "header")
	nt := U(t, 3+1, "ntx")
	for i := 0; i < nt; i++ {
		st.Txs = append(st.Txs, genTx(t, s, pf))
	}
	last := func(from, to int) {
		x := genTx(t, s, pf)
		x.From, x.To = from, to
		x.Value = paid(t, "mev", pf)
		st.Txs = append(st.Txs, x)
	}
	builder := Of(t, "builder", AccBuilder, AccOther, AccWd0)
	elsewhere := Of(t, "elsewhere", AccOther, AccFees, AccContr, AccWd0+1)
	var foreign *Ev
	noMev := func() {
		// the last transaction must not happen to be a MEV payment
		if n := len(st.Txs); n > 0 {
			l := &st.Txs[n-1]
			if l.From == st.FeeRec || l.From == AccWhite {
				if Pct(t, 30, "creation") {
					l.To = -1
				} else {
					l.From = AccWd0 + 5
				}
			}
		}
	}
	switch kind {
	case 0, 3: // unrelated block, or a proposal that pays somebody else
		st.FeeRec = Of(t, "feerec", builder, AccFees, AccWd0+2)
		if kind == 3 && rapid.Bool().Draw(t, "mevwrong") {
			st.FeeRec = builder
			last(builder, elsewhere)
		} else {
			noMev()
		}
	case 2:
		switch Weighted(t, "okkind", 4, 4, 2, 2) {
		case 0:
			st.FeeRec = AccPool
			noMev()
		case 1:
			st.FeeRec = builder
			last(builder, AccPool)
		case 2:
			st.FeeRec = builder
			last(builder, elsewhere)
			st.ViaCtr = true
		case 3:
			st.FeeRec = Of(t, "wfr", builder, AccFees)
			last(AccWhite, AccPool)
		}
	case 4: // fee recipient's or whitelisted builder's MEV to somebody, maybe with pool as nothing
		st.FeeRec = builder
		from := Of(t, "mevfrom", builder, AccWhite, s.N().Foreign())
		if from == s.N().Foreign() && rapid.Bool().Draw(t, "foreignpool") {
			elsewhere = AccPool
		}
		last(from, elsewhere)
		if elsewhere == AccPool { // not a MEV payment here
			foreign = &Ev{Kind: "ether", Sender: from, Amt: st.Txs[len(st.Txs)-1].Value}
		}
	}
	if l, ok := st.LastMev(); ok && st.FeeRec == AccPool && l.From == AccWhite {
		st.Txs[len(st.Txs)-1].From = AccOther
	}
	mevVal := ""
	if l, ok := st.LastMev(); ok {
		mevVal = l.Value
	}
	idx := func() uint64 {
		switch Weighted(t, "evidx", 20, 1, 1) {
		case 1:
			return Of(t, "noidx", uint64(123456789), 0)
		case 2:
			return s.Prop(st.Prop).Idx
		}
		return s.Vals[U(t, len(s.Vals), "evval")].Idx
	}
	sender := func(i uint64) int {
		if v := s.ValByIdx(i); v != nil && v != &Stranger && !Pct(t, 20, "othersender") {
			return v.Addr
		}
		return Of(t, "sender", AccOther, AccWd0, AccWd0+1, AccFees)
	}
	many := func(p int, l string) int {
		if !Pct(t, p, l) {
			return 0
		}
		return (1 + U(t, 3, l+"n"))
	}
	for i := many(pf.Sub, "subs"); i > 0; i-- {
		e := Ev{Kind: "sub", Idx: idx()}
		e.Sender = sender(e.Idx)
		c := B(s.Coll)
		switch Weighted(t, "collk", 5, 1, 1, 1, 1) {
		case 1:
			c.Add(c, big.NewInt(1))
		case 2:
			c.Sub(c, big.NewInt(1))
		case 3:
			c = B(Wei(t, "anycoll", 0))
		case 4:
			c = new(big.Int)
		}
		if c.Sign() < 0 {
			c = new(big.Int)
		}
		e.Amt = c.String()
		st.Evs = append(st.Evs, e)
	}
	for i := many(pf.Unsub, "unsubs"); i > 0; i-- {
		e := Ev{Kind: "unsub", Idx: idx()}
		e.Sender = sender(e.Idx)
		st.Evs = append(st.Evs, e)
	}
	for i := many(pf.Ban, "bans"); i > 0; i-- {
		st.Evs = append(st.Evs, Ev{Kind: "ban", Idx: idx()})
	}
	for i := many(pf.Unban, "unbans"); i > 0; i-- {
		st.Evs = append(st.Evs, Ev{Kind: "unban", Idx: idx()})
	}
	for i := many(pf.Ether, "ethers"); i > 0; i-- {
		e := Ev{Kind: "ether", Sender: Of(t, "donor", AccOther, AccBuilder, AccWd0), Amt: paid(t, "ether", pf)}
		if mevVal != "" && B(mevVal).Sign() > 0 && Pct(t, pf.Ties, "tie") {
			e.Amt = mevVal
		}
		st.Evs = append(st.Evs, e)
	}
	if foreign != nil {
		st.Evs = append(st.Evs, *foreign)
	}
	if Pct(t, 5, "unused") {
		st.Evs = append(st.Evs, Ev{Kind: Of(t, "unusedk", "claim", "rept"), Sender: Of(t, "of", AccWd0, AccFees, AccOther), Idx: 1, Amt: "1000"})
	}
	if Pct(t, pf.CfgEvents, "cfgev") {
		for i := (1 + U(t, 2, "ncfg")); i > 0; i-- {
			kind := 0
			if pf.CfgSame {
				kind = 1 + U(t, 3, "samek")
			} else {
				kind = Weighted(t, "cfgk", 4, 2, 2, 2)
			}
			switch kind {
			case 0:
				st.Evs = append(st.Evs, Ev{Kind: "fee", Amt: Of(t, "newfee", "500", fmt.Sprint(s.Fee), "700", "501", "0", "10000")})
			case 1:
				e := Ev{Kind: "recip", Sender: AccFees}
				if !pf.CfgSame {
					e.Sender = Of(t, "newrecip", AccFees, AccFees, AccOther, AccPool)
				}
				st.Evs = append(st.Evs, e)
			case 2:
				e := Ev{Kind: "ckpt", Amt: fmt.Sprint(s.Ckpt)}
				if !pf.CfgSame {
					e.Amt = Of(t, "newck", e.Amt, e.Amt, fmt.Sprint(s.Ckpt+1), "0")
				}
				st.Evs = append(st.Evs, e)
			case 3:
				e := Ev{Kind: "coll", Amt: s.Coll}
				if !pf.CfgSame {
					e.Amt = Of(t, "newcoll", s.Coll, s.Coll, B(s.Coll).Add(B(s.Coll), big.NewInt(1)).String(), "5")
				}
				st.Evs = append(st.Evs, e)
			}
			if pf.CfgSame { // two of a kind are refused
				break
			}
		}
	}
	if Pct(t, pf.SlotOff, "slotoff") {
		st.SlotOff = Of(t, "off", -1, 1, -2, 2, 32, -32, 7200)
	}
	if len(st.Evs) > 0 {
		st.Group = Weighted(t, "group", 4, 2, 1, 1)
	}
	return st
}

func genCons(t *rapid.T, s *Scn, pf *Profile) {
	if !pf.Cleanup || s.N().Electra == 0 {
		return
	}
	// a source may have one pending consolidation, into another validator with 0x01/0x02 credentials
	for i := range s.Vals {
		if x := s.Vals[i].Idx; x >= crowdIdx && x < 1<<20 || !Pct(t, 60, "cons") {
			continue
		}
		j := U(t, len(s.Vals), "tgt")
		if j == i || s.Vals[j].CredAt != 0 {
			continue
		}
		if c := s.Vals[j].Cred; c != Cred01 && c != Cred02 {
			continue
		}
		c := Cons{Src: s.Vals[i].Idx, Tgt: s.Vals[j].Idx, From: 0, To: 1 << 62}
		if Pct(t, 20, "consend") {
			c.To = s.FirstSlot() + uint64(U(t, 30+1, "consto"))
		}
		s.Cons = append(s.Cons, c)
	}
}

// Gen draws a scenario.
func Gen(t *rapid.T, pf Profile) *Scn {
	s := Base(t, &pf)
	if !s.N().IsFork1(s.FirstSlot()) {
		pf.minWei = 1e9
	}
	ns := (1 + U(t, pf.MaxSteps, "nsteps"))
	if first := s.FirstSlot(); pf.Cleanup {
		// reach the next cleanup
		if d := int((CleanupEvery - first%CleanupEvery) % CleanupEvery); d <= pf.MaxSteps && ns <= d {
			ns = d + 1
		}
	}
	long := Pct(t, pf.Long, "long")
	if long {
		ns += U(t, Of(t, "longmax", 30, 60, 150), "longn")
	}
	genVals(t, s, &pf, ns)
	var cr *crowd
	if !long && Pct(t, pf.Crowd, "crowd") {
		cr = newCrowd(t)
		cr.vals(s, &pf, ns)
	}
	genCons(t, s, &pf)
	if cr != nil {
		cr.cons(s, &pf)
	}
	slot := s.FirstSlot()
	n := s.N()
	for i := 0; i < ns; i++ {
		st := genStep(t, s, &pf)
		if cr != nil {
			cr.step(t, s, &pf, &st)
		}
		slot += uint64(st.Gap)
		if n.FeeSlot != 0 && slot == n.FeeSlot && !st.Missed && pf.FeeRegion > 0 && Pct(t, 80, "dofee") {
			st.Evs = append(stripCfg(&st).Evs, Ev{Kind: "fee", Amt: fmt.Sprint(n.FeeValue)})
		}
		if st.SlotOff != 0 && !st.Missed && n.FeeSlot != 0 && slot != n.FeeSlot && pf.FeeRegion > 0 && slot+200 > n.FeeSlot && slot < n.FeeSlot+200 && Pct(t, 50, "offfee") {
			// the scheduled change arrives in a block for a slot that is not the next one
			st.SlotOff = int(int64(n.FeeSlot) - int64(slot))
			st.OffFee = true
		}
		slot++
		s.Steps = append(s.Steps, st)
	}
	s.fixFee()
	return s
}

// Exception is a slot of mainnet whose MEV reward is fixed: its payment to the pool left no event.
const (
	Exception       = 10400574
	ExceptionReward = "177043568463114308"
	ExceptionPool   = "0xAdFb8D27671F14f297eE94135e266aAFf8752e35"
)

// GenException generates a scenario of mainnet whose last step is the exception slot. The step pays the
// reward to the pool; Unseen is the same step as it looks on chain.
func GenException(t *rapid.T, pf Profile) *Scn {
	pf.Nets, pf.Anchor, pf.FeeRegion = []string{"mainnet"}, Exception, 0
	s := Gen(t, pf)
	slot := s.FirstSlot()
	for i := range s.Steps {
		slot += uint64(s.Steps[i].Gap)
		if slot > Exception {
			s.Steps = s.Steps[:i]
			break
		}
		slot++
	}
	if len(s.Steps) == 0 {
		return s
	}
	slot = s.FirstSlot()
	for i := range s.Steps {
		slot += uint64(s.Steps[i].Gap) + 1
	}
	st := &s.Steps[len(s.Steps)-1]
	st.Gap += int(Exception + 1 - slot)
	if st.Missed {
		st.Fork = U(t, 4+1, "xfork")
		st.BaseFee = 7
	}
	st.Missed, st.SlotOff, st.OffFee, st.ViaCtr, st.Group = false, 0, false, false, 0
	if Pct(t, 70, "tracked") {
		st.Prop = U(t, len(s.Vals), "xprop")
	}
	st.FeeRec = Of(t, "xrec", AccBuilder, AccOther, AccWd0)
	x := genTx(t, s, &pf)
	x.From, x.To, x.Value = st.FeeRec, AccPool, ExceptionReward
	st.Txs = append(st.Txs, x)
	return s
}

// Unseen is the exception slot's step as it looks on chain: the last transaction pays nobody the oracle knows.
func (st *Step) Unseen() *Step {
	c := *st
	c.Txs = append([]Tx(nil), st.Txs...)
	l := &c.Txs[len(c.Txs)-1]
	l.To = AccContr
	if l.Tip%2 == 0 {
		l.Value = "0"
	}
	if l.Slack%3 == 0 {
		l.From = AccOther
	}
	return &c
}

// fixFee drops the steps that would process mainnet's hardcoded exception slot.
func (s *Scn) fixFee() {
	slot := s.FirstSlot()
	for i := range s.Steps {
		slot += uint64(s.Steps[i].Gap)
		if s.Net == "mainnet" && slot == Exception {
			s.Steps = s.Steps[:i]
			return
		}
		slot++
	}
}
