package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/google/uuid"

	"pgregory.net/rapid"
	"verifharness/fakes"
	"verifharness/h"
	"verifharness/sim"
)

// LoopCase is a life of the running program: a chain, how it becomes final, what the other oracles and
// the contract do, when nodes lose sync, and when the program is stopped and started again.
type LoopCase struct {
	S      *sim.Scn // the first step is the deployment block
	Dry    bool
	First  int // 0: the first checkpoint of the oracle comes next on-chain; n: the (n-1)-th after the deployment is on-chain
	Quorum int
	Votes  []Vote
	Init   int // slots final at the start
	Fin    []Fin
	Stops  []Stop
	Out    []Out
	Load   int // the first run starts from: 0 nothing, 1 a saved state, 2 a checkpoint-sync provider
	Pos    int // processed slots of that state
	Fails  fakes.Fault
	Short  bool // the pool has less than what is owed
	Gauges bool // only what the program says about itself is judged (C33)
	Skew   int  // the loaded state owes that much too much
	Leak   int  // at the end of the chain, some time later, the pool holds that much more (less) than is owed
	Outage []Outage
	Change int // slot (after the deployment's) whose block changes a parameter of the contract; 0: none
}

// Outage: from the N-th request of a class on, some of them fail.
type Outage struct {
	Class    string
	N, Times int
	Mode     int
	Due      bool // counted are only requests at a checkpoint that comes next on-chain
}

// Vote is how the contract reaches the i-th checkpoint.
type Vote struct {
	Kind  string // own first between asleep race late error refused other
	Delay int    // reads until the others have voted too
}

type Fin struct{ Polls, Jump int }

type Stop struct {
	Term  bool
	Class string
	N     int
	Down  bool // the others consolidate what was voted for while the oracle is down
	Line  int  // class "log": lines of the log after which it is told to stop, the log being read slowly
}

type Out struct {
	At, For int // at the At-th request for the finalized header, for so many sync checks
	Exec    bool
}

const updater = sim.AccWd0 + 7

func genLoop(t *rapid.T) *LoopCase {
	pf := mixed()
	pf.Inits, pf.MaxGap, pf.MaxSteps, pf.MaxVals = false, 0, 16, 4
	pf.Sub, pf.WOk, pf.Unsub, pf.Ban, pf.CfgEvents = 45, 8, 8, 4, 8
	pf.Nets = []string{"mainnet", "hoodi"}
	c := &LoopCase{S: sim.Gen(t, pf)}
	c.S.FeeCase = 0
	c.S.Ckpt = uint64(sim.Of(t, "size", 1, 2, 3, 3, 4, 5, 7))
	for i := range c.S.Steps {
		st := &c.S.Steps[i]
		for j := range st.Txs { // the running program has its own list of builders
			if st.Txs[j].From == sim.AccWhite {
				st.Txs[j].From = sim.AccBuilder
			}
		}
		st.SlotOff = 0
	}
	if sim.Pct(t, 25, "refresh") { // slots at which the validators are read again
		c.S.Slot0 = (c.S.Slot0/1200+2)*1200 - uint64(3+sim.U(t, 7, "before"))
	}
	dep := sim.Step{Prop: -1, FeeRec: sim.AccOther, BaseFee: 7}
	if len(c.S.Steps) > 0 {
		dep.Fork = c.S.Steps[0].Fork
	}
	c.S.Steps = append([]sim.Step{dep}, c.S.Steps...)
	c.Dry = sim.Pct(t, 20, "dry")
	c.First = sim.Of(t, "first", 0, 0, 0, 0, 0, 1, 2, 3, 5)
	if sim.Pct(t, 12, "lead") { // the first checkpoints have no data, and the contract doesn't know
		c.First = 1
		lead := make([]sim.Step, int(c.S.Ckpt)+sim.U(t, int(c.S.Ckpt)+1, "nlead"))
		for i := range lead {
			lead[i] = dep
			lead[i].FeeRec = sim.AccOther
		}
		c.S.Steps = append(append([]sim.Step{dep}, lead...), c.S.Steps[1:]...)
	}
	c.Quorum = sim.Of(t, "quorum", 1, 1, 2, 3)
	for i := 0; i < 5; i++ {
		v := Vote{Kind: sim.Of(t, "vote", "own", "own", "own", "own", "own", "first", "between", "asleep", "asleep", "race", "late", "error", "refused"), Delay: sim.U(t, 6, "delay")}
		if sim.Pct(t, 12, "slow") {
			v.Delay = 10 + sim.U(t, 60, "long delay")
		}
		if sim.Pct(t, 3, "other") {
			v.Kind = "other"
		}
		c.Votes = append(c.Votes, v)
	}
	c.Init = sim.U(t, 20, "init")
	for i := sim.U(t, 6, "nfin"); i > 0; i-- {
		c.Fin = append(c.Fin, Fin{sim.U(t, 3, "polls"), 1 + sim.U(t, 8, "jump")})
	}
	for i := sim.Of(t, "nstops", 0, 0, 1, 1, 2, 3); i > 0; i-- {
		s := Stop{Term: sim.Pct(t, 40, "term"), Class: sim.Of(t, "at", "block", "block", "block", "call:lastConsolidatedSlot", "call:lastConsolidatedSlot", "call:addressToVotedReportHash",
			"eth_sendRawTransaction", "eth_sendRawTransaction", "eth_getTransactionReceipt", "eth_estimateGas", "finalized", "state"), Down: sim.Pct(t, 40, "down")}
		s.N = 1 + sim.U(t, 3, "n")
		if sim.Pct(t, 25, "log") { // between two lines of the log, while a checkpoint is processed
			s.Class, s.Term, s.Line = "log", true, sim.U(t, 24, "line")
		}
		switch s.Class {
		case "state":
			s.N = 1
		case "block", "finalized":
			s.N = 1 + sim.U(t, 16, "n")
		case "call:lastConsolidatedSlot", "call:addressToVotedReportHash":
			s.N = 1 + sim.U(t, 8, "n")
		}
		c.Stops = append(c.Stops, s)
	}
	if sim.Pct(t, 15, "revote") { // a vote that stays alone for long, and a restart meanwhile
		c.Dry, c.Quorum = false, 2
		for i := range c.Votes {
			c.Votes[i] = Vote{Kind: "own", Delay: 20 + sim.U(t, 80, "long delay")}
		}
		c.Stops = append([]Stop{{Class: sim.Of(t, "at", "eth_sendRawTransaction", "eth_getTransactionReceipt"), N: 1 + sim.U(t, 2, "n")}}, c.Stops...)
	}
	for i := sim.Of(t, "nout", 0, 0, 1, 2); i > 0; i-- {
		c.Out = append(c.Out, Out{1 + sim.U(t, 20, "at"), 1 + sim.U(t, 3, "for"), rapid.Bool().Draw(t, "exec")})
	}
	c.Load = sim.Weighted(t, "load", 5, 2, 2)
	c.Pos = 1 + sim.U(t, len(c.S.Steps), "pos")
	if sim.Pct(t, 15, "fails") {
		c.Fails = fakes.Fault{Class: "finalized", Skip: sim.U(t, 10, "skip"), Times: 1 + sim.U(t, 5, "times"), Mode: sim.Of(t, "mode", fakes.F500, fakes.F503, fakes.FDrop, fakes.FTruncated, fakes.FGarbage, fakes.FEmpty)}
	}
	c.Short = sim.Pct(t, 5, "short")
	if sim.Pct(t, 6, "leak") {
		c.Leak = sim.Of(t, "leaks", -1, 1)
	}
	if !c.Short && sim.Pct(t, 45, "outage") {
		for i := 1 + sim.U(t, 2, "noutages"); i > 0; i-- {
			o := Outage{Class: sim.Of(t, "fails at", "call:lastConsolidatedSlot", "call:lastConsolidatedSlot", "call:lastConsolidatedSlot", "call:lastConsolidatedSlot", "call:rewardsRoot", "call:rewardsRoot", "call:rewardsRoot", "call:rewardsRoot", "call:addressToVotedReportHash", "call:reportHashToReport", "call:quorum",
				"eth_estimateGas", "eth_sendRawTransaction", "eth_getTransactionReceipt", "eth_getTransactionCount", "eth_getLogs", "block", "duties", "validators", "eth_getHeaderByNumber", "eth_getBlockByNumber", "eth_getBalance", "call:claimedBalance", "eth_syncing", "state"),
				Times: sim.Of(t, "times", 2, 2, 2, 1, 3, 4), Mode: sim.Of(t, "how", fakes.F500, fakes.F503, fakes.FDrop, fakes.FTruncated, fakes.FGarbage, fakes.FEmpty, fakes.FRpcErr), Due: sim.Pct(t, 75, "due")}
			o.N = 1 + sim.U(t, sim.Of(t, "upto", 3, 3, 8), "n")
			if !o.Due {
				o.N = 1 + sim.U(t, 40, "n")
			}
			c.Outage = append(c.Outage, o)
		}
	}
	if c.Load != 0 && sim.Pct(t, 25, "skew") {
		c.Skew = 1 + sim.U(t, 3, "more")
		c.Dry = sim.Pct(t, 50, "skewed dry")
		if sim.Pct(t, 80, "undisturbed") {
			c.Stops, c.Short, c.Outage = nil, false, nil
			c.Pos = 1 + sim.U(t, (len(c.S.Steps)+1)/2, "skewed pos")
		}
	}
	return c
}

// parameter is an event that changes a parameter of the contract.
func parameter(s *sim.Scn, kind int) sim.Ev {
	switch kind {
	case 0:
		return sim.Ev{Kind: "recip", Sender: sim.AccOther}
	case 1:
		return sim.Ev{Kind: "ckpt", Amt: fmt.Sprint(s.Ckpt + 1)}
	case 2:
		return sim.Ev{Kind: "coll", Amt: new(big.Int).Add(sim.B(s.Coll), big.NewInt(1)).String()}
	}
	return sim.Ev{Kind: "fee", Amt: fmt.Sprint(s.Fee + 1)}
}

func genLife(t *rapid.T) *LoopCase {
	c := genLoop(t)
	if sim.Pct(t, 6, "change") && c.Skew == 0 && len(c.S.Steps) > 1 {
		at := 1 + sim.U(t, len(c.S.Steps)-1, "change at")
		if st := &c.S.Steps[at]; !st.Missed {
			c.Change = at
			st.Evs = append(st.Evs, parameter(c.S, sim.U(t, 4, "changed")))
		}
	}
	return c
}

// expected is what an oracle must know after each slot.
type expected struct {
	m       []*sim.MS
	ckpts   []map[uint64]string
	root    map[uint64]string // of the frozen checkpoints
	json    [][]byte
	copies  map[uint64][]byte   // saved at each checkpoint
	blocks  map[uint64]*big.Int // owed after each block
	isCk    map[uint64]bool
	blk     []uint64
	refused uint64 // the block of this slot must not be processed
	skewed  bool   // the state at Pos owes more than was received
}

func (c *LoopCase) cfg() *oracle.Config {
	cfg := c.S.Cfg()
	cfg.DeployedBlock = c.S.Block0 + 1
	return cfg
}

func (c *LoopCase) expect() (*expected, error) {
	tp := c.S.Tape()
	or, _ := c.S.NewOracleCfg(c.cfg())
	e := &expected{copies: map[uint64][]byte{}, root: map[uint64]string{}, blocks: map[uint64]*big.Int{0: new(big.Int)}, isCk: map[uint64]bool{}}
	for i := 0; i < tp.Len(); i++ {
		if c.Change > 0 && i == c.Change {
			e.refused = tp.First + uint64(i)
			break
		}
		if err := tp.Feed(or, i); err != nil {
			return nil, err
		}
		st := or.State()
		is, err := or.IsCheckpoint()
		h.Must(err)
		slot := st.LatestProcessedSlot
		e.isCk[slot] = is
		if k := st.CommitedStates[slot]; k != nil {
			e.root[slot] = k.MerkleRoot
		}
		m := sim.Extract(st)
		e.m = append(e.m, m)
		e.blk = append(e.blk, st.LatestProcessedBlock)
		e.ckpts = append(e.ckpts, sim.CkptsView(st))
		e.blocks[st.LatestProcessedBlock] = m.Owed()
		if i+1 == c.Pos || e.root[slot] != "" {
			undo := freshFolder()
			var owed *big.Int
			if i+1 == c.Pos && c.Skew > 0 {
				least := uint64(math.MaxUint64)
				for i := range st.Validators {
					least = min(least, i)
				}
				if v := st.Validators[least]; v != nil {
					owed = v.PendingRewardsWei
					owed.Add(owed, big.NewInt(int64(c.Skew)))
					e.skewed = true
				}
			}
			h.Must(or.SaveToJson(false))
			if owed != nil {
				owed.Sub(owed, big.NewInt(int64(c.Skew)))
			}
			b, err := os.ReadFile(filepath.Join(oracle.StateFolder, oracle.StateJsonName))
			h.Must(err)
			undo()
			e.copies[slot] = b
			if i+1 == c.Pos {
				e.json = append(e.json, b)
			}
		}
	}
	return e, nil
}

// ctl plays the world around the program and watches it.
type ctl struct {
	c        *LoopCase
	w        *fakes.World
	e        *expected
	dir      string
	first    uint64
	last     uint64 // slot
	proc     *os.Process
	run      int
	counts   map[string]int
	fins     int    // requests for the finalized header, all runs
	served   uint64 // finalized slot as last served
	started  bool   // the main loop runs
	fresh    uint64 // slot asked for last when all validators were read
	next     uint64 // first slot this run may ask for
	req      uint64 // slot being processed, 0 none
	reads    int    // reads of the on-chain slot since this slot's block was asked for
	polls    int
	fin      int
	out      int
	outSlots map[uint64]bool
	voted    map[uint64]bool
	pend     uint64 // voted for, not consolidated
	delay    int
	other    bool // the others consolidated something else
	dying    bool
	ended    bool // everything is done
	late     map[common.Hash]bool
	fatal    string // the program must stop with an error
	idle     int
	outage   bool  // a node failed in this run: it may end
	failed   []int // requests seen, per outage
	leaking  bool
	out0     *syncBuf
	slow     map[uint64]bool
	short    int // reconciliations are bound to fail
	atTerm   uint64
	err      error
	metrics  int    // port
	servedAt uint64 // finalized slot when the slot's block was asked for
	sampled  int
	gaugeErr error
	noGauges error // the metrics could not be read
	tags     map[string]int
	start    time.Time
}

func (k *ctl) fail(f string, a ...any) {
	if k.err == nil {
		k.err = fmt.Errorf("run %d, on-chain slot %d, processing slot %d (deployed at %d, size %d): %s", k.run, k.w.Contract.LastSlot, k.req, k.first, k.c.S.Ckpt, fmt.Sprintf(f, a...))
		k.kill()
	}
}

func (k *ctl) kill() {
	k.dying = true
	if k.proc != nil {
		k.proc.Signal(syscall.SIGKILL)
	}
}

// plan of the checkpoint at slot.
func (k *ctl) plan(slot uint64) Vote {
	return k.c.Votes[int((slot-k.first)/k.c.S.Ckpt)%len(k.c.Votes)]
}

func (k *ctl) consolidate(slot uint64, root string) {
	n := &k.w.Contract
	n.LastSlot = slot
	copy(n.Root[:], common.FromHex(root))
	for h := range n.Reports {
		delete(n.Reports, h)
	}
	k.pend = 0
}

// due tells whether the slot being processed is a checkpoint that comes next on-chain.
func (k *ctl) due() bool {
	_, ok := k.e.root[k.req]
	return ok && k.w.Contract.LastSlot+k.c.S.Ckpt == k.req
}

// on is called, with the world locked, before a request is answered.
func (k *ctl) on(class string) {
	if k.err != nil || k.proc == nil {
		return
	}
	w := k.w
	if class == "finalized" && !k.started {
		k.started = true
	}
	if class == "state" {
		k.fresh = max(k.req, k.next)
	}
	if !k.started {
		if class == "eth_sendRawTransaction" {
			k.fail("a transaction was sent at start-up")
		}
		return
	}
	k.counts[class]++
	for i, o := range k.c.Outage {
		if o.Class == class && (!o.Due || k.req != 0 && k.due()) {
			if k.failed[i]++; k.failed[i] == o.N {
				k.tags["outage of "+class]++
				k.outage = true
				w.Faults = append(w.Faults, fakes.Fault{Class: class, Times: o.Times, Mode: o.Mode})
			}
		}
	}
	switch class {
	case "finalized":
		k.onFinalized()
	case "eth_syncing":
		if k.out > 0 {
			k.idle = 0
			if k.out--; k.out == 0 {
				w.ExecSyncing, w.Distance = false, 0
			}
		}
	case "block":
		k.onBlock(w.Arg)
	case "call:lastConsolidatedSlot", "call:addressToVotedReportHash":
		k.onRead(class == "call:lastConsolidatedSlot")
	case "eth_estimateGas", "eth_sendRawTransaction":
		k.onAttempt(class)
	}
	if k.run < len(k.c.Stops) && !k.dying {
		s := k.c.Stops[k.run]
		if s.Class == "log" && class == "block" && k.e.isCk[w.Arg] && !k.slow[w.Arg] {
			if k.slow[w.Arg] = true; len(k.slow) == s.N {
				k.out0.slowly(s.Line, func() {
					w.Lock()
					if k.proc != nil && !k.dying && k.err == nil {
						k.tags["stopped at a line of the log"]++
						k.dying, k.atTerm = true, max(k.req, k.next)
						k.proc.Signal(syscall.SIGTERM)
					}
					w.Unlock()
					time.Sleep(20 * time.Millisecond)
				})
			}
		}
		if s.Class == class && k.counts[class] == s.N {
			k.tags["stopped at "+class]++
			if s.Term {
				k.dying, k.atTerm = true, max(k.req, k.next)
				k.proc.Signal(syscall.SIGTERM)
				if class == "state" { // a slow answer
					time.Sleep(30 * time.Millisecond)
				}
			} else {
				k.kill()
			}
		}
	}
}

func (k *ctl) onFinalized() {
	w := k.w
	k.fins++
	k.served = w.Finalized
	if k.short > 0 {
		if k.short++; k.short > 60 {
			k.fail("the pool's balance is too low, and the oracle goes on")
		}
		return
	}
	for _, o := range k.c.Out {
		if o.At == k.fins && k.out == 0 {
			k.out, k.outSlots = o.For, map[uint64]bool{}
			k.tags["out of sync"]++
			if o.Exec {
				w.ExecSyncing = true
			} else {
				w.Distance, w.Quiet = uint64(5+o.For*3), true
			}
		}
	}
	if w.Finalized >= k.next && (k.req == 0 || k.req < w.Finalized) {
		k.idle++
		if k.idle > 400 && k.out == 0 {
			k.fail("slot %d is final, but is not processed", max(k.next, k.req+1))
		}
		return
	}
	// at the head
	k.polls++
	if k.fin < len(k.c.Fin) && w.Finalized < k.last {
		if f := k.c.Fin[k.fin]; k.polls > f.Polls {
			w.Finalized = min(k.last, w.Finalized+uint64(f.Jump))
			k.fin++
			k.polls = 0
		}
		return
	}
	if w.Finalized < k.last {
		w.Finalized = k.last
		k.polls = 0
		return
	}
	if k.c.Leak != 0 && !k.dying && k.polls >= 3 {
		k.leaking = true
		if k.polls > 300 {
			k.fail("for five hours the pool does not hold what is owed (%+d wei), and the oracle goes on", k.c.Leak)
		}
		return
	}
	if k.polls >= 3 && !k.dying {
		k.ended, k.dying = true, true
		k.proc.Signal(syscall.SIGTERM)
	}
}

func (k *ctl) onBlock(slot uint64) {
	k.idle, k.polls = 0, 0
	if slot > k.served {
		k.fail("the block of slot %d was asked for, the finalized slot is %d", slot, k.served)
		return
	}
	if k.out > 0 {
		k.outSlots[slot] = true
		if len(k.outSlots) > 1 {
			k.fail("slots are processed while a node is out of sync: %v", k.outSlots)
			return
		}
	}
	if slot == k.req {
		return
	}
	if k.req == 0 && slot != k.next || k.req != 0 && slot != k.req+1 {
		k.fail("the block of slot %d was asked for, expected slot %d", slot, max(k.next, k.req+1))
		return
	}
	if slot > k.last {
		k.fail("the block of slot %d was asked for, the last final slot is %d", slot, k.last)
		return
	}
	if k.e.skewed && k.e.isCk[k.req] {
		k.fail("slot %d is next, although the state of the checkpoint owes %d wei more than the pool received", slot, k.c.Skew)
		return
	}
	if k.req != 0 && k.req == k.e.refused {
		k.fail("slot %d is next, although the block of slot %d changed a parameter", slot, k.req)
		return
	}
	if prev := k.req; prev != 0 {
		if _, ok := k.e.root[prev]; ok {
			k.tags["checkpoint passed"]++
			// it has been saved
			if err := k.saved(oracle.StateJsonName, prev); err != nil {
				k.fail("slot %d is next, and the state of the checkpoint is not saved: %v", slot, err)
				return
			}
			if err := k.saved(fmt.Sprintf("state_%d.json", prev), prev); err != nil {
				k.fail("slot %d is next, and the copy of the checkpoint is not saved: %v", slot, err)
				return
			}
			if !k.c.Dry && k.due() {
				k.fail("slot %d is next, and the checkpoint was not brought on-chain (voted: %v)", slot, k.voted[prev])
				return
			}
			if !k.c.Dry && k.w.Contract.LastSlot == prev && hexutil.Encode(k.w.Contract.Root[:]) != k.e.root[prev] && k.voted[prev] {
				k.fail("slot %d is next, and the contract has another root", slot)
				return
			}
		}
	}
	// around every 1200th slot
	if k.fresh == 0 || slot%1200 == 3 && slot > k.next+5 && k.fresh < slot-6 {
		k.fail("slot %d is processed, and the validators of the beacon chain were not read again", slot)
		return
	}
	if k.c.Gauges {
		k.gauges()
	}
	k.req, k.reads, k.servedAt = slot, 0, k.served
}

// saved checks a file of the program.
func (k *ctl) saved(name string, slot uint64) error {
	b, err := os.ReadFile(filepath.Join(k.dir, "oracle-data", name))
	if err != nil {
		return err
	}
	or, _ := k.c.S.NewOracleCfg(k.c.cfg())
	found, err := or.LoadFromBytes(b)
	if err != nil || !found {
		return fmt.Errorf("%s: found %v, error %v", name, found, err)
	}
	st := or.State()
	if st.LatestProcessedSlot != slot {
		return fmt.Errorf("%s: it is of slot %d", name, st.LatestProcessedSlot)
	}
	i := int(slot - k.first)
	if i >= len(k.e.m) {
		return fmt.Errorf("%s: of slot %d", name, slot)
	}
	if err := sim.Diff(k.e.m[i], sim.Extract(st), sim.FAll); err != nil {
		return fmt.Errorf("%s: %v", name, err)
	}
	if a, b := asJSON(k.e.ckpts[i]), asJSON(sim.CkptsView(st)); a != b {
		return fmt.Errorf("%s: checkpoints %s, expected %s", name, b, a)
	}
	return nil
}

func (k *ctl) onRead(slot bool) {
	k.idle++
	if k.idle > 400 && !k.other {
		k.fail("the oracle waits for something it has")
		return
	}
	if k.pend != 0 {
		if k.delay > 0 {
			k.delay--
			return
		}
		k.consolidate(k.pend, k.e.root[k.pend])
		k.idle = 0
		return
	}
	if !slot {
		return
	}
	if k.reads++; !k.due() {
		return
	}
	switch p := k.plan(k.req); {
	case p.Kind == "first", p.Kind == "between" && k.reads == 2:
		k.tags["others "+p.Kind]++
		k.consolidate(k.req, k.e.root[k.req])
	case p.Kind == "other" && k.reads > p.Delay && !k.voted[k.req]:
		k.tags["others another root"]++
		k.other = true
		k.consolidate(k.req, "0x"+strings.Repeat("ab", 32))
	}
	if k.other && k.reads > 30 && !k.dying {
		k.ended = true
		k.kill()
	}
}

// onNap is called, with the world locked, when the program starts a pause.
func (k *ctl) onNap() {
	if k.err == nil && k.proc != nil && k.started && k.pend == 0 && k.reads > 0 && k.due() && k.plan(k.req).Kind == "asleep" {
		k.tags["others asleep"]++
		k.consolidate(k.req, k.e.root[k.req])
	}
}

func (k *ctl) onAttempt(class string) {
	w := k.w
	k.idle = 0
	w.EstimateErr = ""
	if k.c.Dry {
		k.fail("%s in dry-run", class)
		return
	}
	if !k.due() {
		k.fail("%s although this is not the next checkpoint", class)
		return
	}
	if k.voted[k.req] {
		k.fail("%s although the checkpoint is voted for", class)
		return
	}
	if k.e.skewed {
		k.fail("%s although the state owes %d wei more than the pool received", class, k.c.Skew)
		return
	}
	p := k.plan(k.req)
	switch {
	case class == "eth_estimateGas" && p.Kind == "race":
		k.tags["race"]++
		k.consolidate(k.req, k.e.root[k.req])
		w.EstimateErr = "execution reverted: DappnodeSmoothingPool::submitReport: Slot number invalid"
	case class == "eth_estimateGas" && p.Kind == "error" && k.tags[fmt.Sprint("error ", k.req)] == 0:
		k.tags[fmt.Sprint("error ", k.req)]++
		w.EstimateErr = "execution reverted: DappnodeSmoothingPool::onlyOracleMember: Only oracle members"
		k.fatal = "the submission failed"
	case class == "eth_estimateGas" && p.Kind == "refused" && k.tags[fmt.Sprint("refused ", k.req)] == 0:
		k.tags[fmt.Sprint("refused ", k.req)]++
		w.EstimateErr = "execution reverted: DappnodeSmoothingPool::submitReport: Smoothing pool not initialized"
		k.fatal = "the submission was refused"
	}
}

func (k *ctl) onTx(tx *types.Transaction) error {
	if k.err != nil {
		return nil
	}
	sender, err := types.Sender(types.LatestSignerForChainID(new(big.Int).SetUint64(k.c.S.N().ChainId)), tx)
	root, ok := k.e.root[k.req]
	switch {
	case !k.started:
		k.fail("a transaction was sent at start-up")
	case k.c.Dry:
		k.fail("a transaction was sent in dry-run")
	case err != nil || sender != sim.Addr(updater):
		k.fail("a transaction of %s: %v", sender, err)
	case !ok:
		k.fail("a transaction was sent, but this is no checkpoint: %x", tx.Data())
	case tx.To() == nil || *tx.To() != k.w.Pool || tx.Value().Sign() != 0:
		k.fail("a transaction that is not for the pool contract")
	default:
		want := append(crypto.Keccak256([]byte("submitReport(uint64,bytes32)"))[:4], sim.Word(new(big.Int).SetUint64(k.req))...)
		want = append(want, common.FromHex(root)...)
		if !bytes.Equal(tx.Data(), want) {
			k.fail("submitted %x, expected %x", tx.Data(), want)
		}
	}
	if k.err != nil {
		return nil
	}
	k.w.Nonces[sim.Addr(updater)]++
	if p := k.plan(k.req); p.Kind == "late" && k.due() {
		k.tags["late"]++
		k.consolidate(k.req, root)
		k.late[tx.Hash()] = true
		k.fatal = "the submission was reverted"
		return nil
	}
	k.voted[k.req] = true
	k.tags["voted"]++
	var hash [32]byte
	copy(hash[:], crypto.Keccak256([]byte(fmt.Sprint(k.req, root))))
	k.w.Contract.VotedHash[sender] = hash
	k.w.Contract.Reports[hash] = [2]uint64{k.req, 1}
	k.pend, k.delay = k.req, k.plan(k.req).Delay
	if k.c.Quorum == 1 {
		k.consolidate(k.req, root)
	} else if k.delay > 0 {
		k.tags["waits for quorum"]++
	}
	return nil
}

// readState reads what a state file is about.
func readState(b []byte) (latest, commited uint64) {
	var x struct {
		LatestProcessedSlot uint64                     `json:"latest_processed_slot"`
		CommitedStates      map[uint64]json.RawMessage `json:"commited_states"`
	}
	h.Must(json.Unmarshal(b, &x))
	for s := range x.CommitedStates {
		commited = max(commited, s)
	}
	return x.LatestProcessedSlot, commited
}

// disk is the state the next run starts from: slot processed last.
func (k *ctl) disk(raw []byte) (slot uint64, ok bool, stuck bool) {
	if raw == nil {
		b, err := os.ReadFile(filepath.Join(k.dir, "oracle-data", oracle.StateJsonName))
		if errors.Is(err, os.ErrNotExist) {
			return k.first - 1, false, false
		}
		h.Must(err)
		raw = b
	}
	latest, commited := readState(raw)
	on := k.w.Contract.LastSlot
	if k.c.Dry || commited <= on {
		return latest, true, false
	}
	for i := uint64(0); i < 3; i++ {
		b, err := os.ReadFile(filepath.Join(k.dir, "oracle-data", fmt.Sprintf("state_%d.json", on-i*k.c.S.Ckpt)))
		if err == nil {
			latest, _ = readState(b)
			return latest, true, false
		}
	}
	return 0, false, true
}

var portSeq int

// freePorts returns ports nobody listens on. The processes of a run use different ranges.
func freePorts(n int) (out []int) {
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	for len(out) < n {
		portSeq++
		p := 10000 + shard%8*2500 + (os.Getpid()*7+portSeq)%2500
		if l, err := net.Listen("tcp", fmt.Sprintf(":%d", p)); err == nil {
			l.Close()
			out = append(out, p)
		}
	}
	return out
}

type syncBuf struct {
	mu   sync.Mutex
	b    bytes.Buffer
	r    *os.File      // the log is read from there
	read chan struct{} // closed when it has been
	left int           // lines still to be read slowly
	then func()
}

// slowly reads so many lines one by one from now on, and then calls f before reading on.
func (s *syncBuf) slowly(lines int, f func()) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.r != nil {
		s.left, s.then = lines, f
	}
}

// narrow gives the program a log that holds it up unless it is read.
func (s *syncBuf) narrow(cmd *exec.Cmd) {
	fd, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	h.Must(err)
	h.Must(syscall.SetsockoptInt(fd[1], syscall.SOL_SOCKET, syscall.SO_SNDBUF, 1))
	s.r, s.read = os.NewFile(uintptr(fd[0]), "log"), make(chan struct{})
	end := os.NewFile(uintptr(fd[1]), "log")
	cmd.Stdout, cmd.Stderr = end, end
	h.Must(cmd.Start())
	end.Close()
	go func() {
		defer close(s.read)
		defer s.r.Close()
		buf := make([]byte, 1<<16)
		for {
			s.mu.Lock()
			then, left := s.then, s.left
			s.mu.Unlock()
			b := buf
			if then != nil {
				if left == 0 {
					s.mu.Lock()
					s.then = nil
					s.mu.Unlock()
					then()
				} else {
					b = buf[:1]
				}
			}
			n, err := s.r.Read(b)
			if n > 0 {
				s.Write(b[:n])
				if then != nil && left > 0 && b[0] == '\n' {
					s.mu.Lock()
					s.left--
					s.mu.Unlock()
					time.Sleep(time.Millisecond)
				}
			}
			if err != nil {
				return
			}
		}
	}()
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}

func (s *syncBuf) String() string {
	if s.read != nil {
		<-s.read
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

// tail of a log.
func tail(s string, n int) string {
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return s
}

// writeKey writes the updater's key file.
func writeKey(dir, pass string) string {
	id, err := uuid.FromBytes(make([]byte, 16))
	h.Must(err)
	key := sim.Key(updater)
	b, err := keystore.EncryptKey(&keystore.Key{Id: id, Address: crypto.PubkeyToAddress(key.PublicKey), PrivateKey: key}, pass, 2, 1)
	h.Must(err)
	p := filepath.Join(dir, "key.json")
	h.Must(os.WriteFile(p, b, 0600))
	return p
}

// program starts the real binary.
func program(dir string, args []string) (*exec.Cmd, *syncBuf) {
	bin := os.Getenv("VERIF_BIN")
	if bin == "" {
		panic(h.Infra{Err: fmt.Errorf("VERIF_BIN is not set")})
	}
	out := &syncBuf{}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Stdout, cmd.Stderr = out, out
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	return cmd, out
}

// world of a running program: the chain with the deployment block and the contract.
func (c *LoopCase) world() *fakes.World {
	s := c.S
	w := fakes.NewWorld(s)
	w.Snapshot = 4
	w.SnapSlot = s.Slot0
	tp := s.Tape()
	for i := range tp.Steps {
		slot := tp.First + uint64(i)
		st := &s.Steps[tp.Steps[i]]
		raw := s.Build(st, slot, tp.Block[i])
		if i == 0 {
			x := DeployTx{Kind: "init", Fee: uint64(s.Fee), From: sim.AccOther, Typ: 2}
			to := w.Pool
			raw.Txs = []*types.Transaction{deployTx(x, 1, &to, initData(x), s.N().ChainId)}
			raw.Header.Time = w.Genesis + 12*slot
		}
		w.Add(raw)
	}
	known := w.Head
	w.TimeOf = func(b uint64) (uint64, bool) { return w.Genesis + 12*(tp.First+b), b > known }
	w.Head += 1000
	w.Contract.Deployed = s.Block0 + 1
	w.Contract.Members = []common.Address{sim.Addr(sim.AccOther), sim.Addr(updater)}
	return w
}

func runLoop(c *LoopCase, st *h.Stats) error {
	k, err := c.live(st)
	if c.Gauges && k != nil { // the rest is not this property
		if k.noGauges != nil {
			return err
		}
		return k.gaugeErr
	}
	return err
}

func (c *LoopCase) live(st *h.Stats) (k *ctl, _ error) {
	e, err := c.expect()
	if err != nil {
		return k, nil // not this property
	}
	s := c.S
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "loop-")
	h.Must(err)
	defer os.RemoveAll(dir)
	first := s.Slot0
	last := first + uint64(len(s.Steps)) - 1
	w := c.world()
	k = &ctl{c: c, w: w, e: e, dir: dir, first: first, last: last, voted: map[uint64]bool{}, failed: make([]int, len(c.Outage)), late: map[common.Hash]bool{}, tags: map[string]int{}}
	w.Contract.Quorum = uint64(c.Quorum)
	w.Contract.LastSlot = first + uint64(max(0, c.First-1))*s.Ckpt
	if c.First == 0 {
		least := last
		for slot := range e.root {
			least = min(least, slot)
		}
		w.Contract.LastSlot = least - s.Ckpt
	}
	if c.Fails.Class != "" {
		w.Faults = []fakes.Fault{c.Fails}
	}
	var provider string
	var given []byte
	if c.Load != 0 && c.Pos <= len(e.m) {
		given = e.json[0]
		ahead := uint64(0) // checkpoints of that state are on-chain
		for slot := range e.root {
			if slot < first+uint64(c.Pos) {
				ahead = max(ahead, slot)
			}
		}
		if ahead > w.Contract.LastSlot {
			k.consolidate(ahead, e.root[ahead])
		}
		if c.Load == 1 {
			h.Must(os.MkdirAll(filepath.Join(dir, "oracle-data"), 0755))
			h.Must(os.WriteFile(filepath.Join(dir, "oracle-data", oracle.StateJsonName), given, 0644))
			given = nil
		} else {
			srv := fakes.NewServer(func(rw http.ResponseWriter, r *http.Request) { rw.Write(e.json[0]) })
			defer srv.Close()
			provider = srv.Url
		}
	}
	w.Finalized = min(last, first+uint64(c.Init))
	if w.Finalized > 0 && c.Init == 0 {
		w.Finalized = first - 1
	}
	w.BalanceAt = func(a common.Address, block string) *big.Int {
		if a != sim.Addr(sim.AccPool) {
			return big.NewInt(1e18)
		}
		b, err := hexutil.DecodeUint64(block)
		if err != nil || e.blocks[b] == nil {
			return big.NewInt(123456789) // no other block is right
		}
		if c.Short && e.blocks[b].Sign() > 0 {
			k.short = 1
			return new(big.Int).Sub(e.blocks[b], big.NewInt(1))
		}
		if k.leaking {
			k.short = 1
			if e.blocks[b].Sign() == 0 {
				return big.NewInt(1)
			}
			return new(big.Int).Add(e.blocks[b], big.NewInt(int64(c.Leak)))
		}
		return e.blocks[b]
	}
	w.OnTx = k.onTx
	w.Receipt = func(hash common.Hash) *types.Receipt {
		for _, t := range w.Txs {
			if t.Hash() == hash {
				status := uint64(1)
				if k.late[hash] {
					status = 0
				}
				return &types.Receipt{Type: t.Type(), Status: status, TxHash: hash, GasUsed: 50000, CumulativeGasUsed: 50000, BlockNumber: new(big.Int).SetUint64(w.Head), Logs: []*types.Log{}}
			}
		}
		return nil
	}
	w.OnReq = k.on
	n := fakes.NewNode(w)
	defer n.Close()
	naps := fakes.NewServer(func(http.ResponseWriter, *http.Request) {
		w.Lock()
		defer w.Unlock()
		k.onNap()
	})
	defer naps.Close()
	args := []string{"--consensus-endpoint=" + n.Beacon, "--execution-endpoint=" + n.Exec, "--pool-address=" + sim.Cased(sim.AccPool, s.PoolCase),
		"--relayers-endpoints=https://relay.invalid", "--num-retries=2", "--log-level=debug"}
	if c.Dry {
		args = append(args, "--dry-run")
	} else {
		args = append(args, "--updater-keystore-file="+writeKey(dir, "pass"), "--updater-keystore-pass=pass")
	}
	deadline := time.Now().Add(110 * time.Second)
	defer func() {
		for t := range k.tags {
			st.Class("%s", strings.TrimRight(t, "0123456789 "))
		}
		st.Class("dry:%v load:%d", c.Dry, c.Load)
		if c.Gauges {
			if k.tags["known root"] > 0 || k.sampled > 2 && k.run > 0 {
				st.NT()
			}
			return
		}
		if k.tags["voted"] > 0 && (k.run > 0 || k.tags["waits for quorum"] > 0) || k.tags["checkpoint passed"] > 1 && (k.run > 0 || c.Dry) {
			st.NT()
		}
	}()
	for tries := 0; ; {
		// what this run starts from
		w.Lock()
		slot, found, stuck := k.disk(given)
		if !found && !stuck {
			slot = first - 1
		}
		k.next, k.req, k.started, k.fresh, k.dying, k.counts, k.idle, k.polls, k.reads, k.fatal, k.served, k.short, k.atTerm, k.outage, k.slow, k.leaking = slot+1, 0, false, 0, false, map[string]int{}, 0, 0, 0, "", 0, 0, 0, false, map[uint64]bool{}, false
		for _, f := range w.Faults { // it may go on
			k.outage = k.outage || f.Class != "finalized" && f.Times > 0
		}
		k.out, w.ExecSyncing, w.Distance = 0, false, 0
		ports := freePorts(2)
		k.metrics = ports[1]
		a := append(append([]string{}, args...), fmt.Sprintf("--api-port=%d", ports[0]), fmt.Sprintf("--metrics-port=%d", ports[1]))
		if given != nil {
			a = append(a, "--checkpoint-sync-url="+provider+"/state")
			given = nil
		}
		cmd, out := program(dir, a)
		cmd.Env = append(cmd.Env, "VERIF_NAP="+naps.Url)
		k.out0 = out
		if k.run < len(c.Stops) && c.Stops[k.run].Class == "log" {
			out.narrow(cmd)
		} else {
			h.Must(cmd.Start())
		}
		k.proc = cmd.Process
		w.Unlock()
		st.Eval(1)
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var werr error
		hung := false
		select {
		case werr = <-done:
		case <-time.After(time.Until(deadline)):
			hung = true
			cmd.Process.Kill()
			<-done
		}
		text := out.String()
		w.Lock()
		k.proc = nil
		code := cmd.ProcessState.ExitCode()
		if k.err != nil {
			w.Unlock()
			return k, fmt.Errorf("%w\n%s", k.err, tail(text, 3000))
		}
		if hung {
			defer w.Unlock()
			return k, fmt.Errorf("run %d: the program hangs (on-chain slot %d, processing %d, finalized %d)\n%s", k.run, w.Contract.LastSlot, k.req, w.Finalized, tail(text, 3000))
		}
		w.Unlock()
		if strings.Contains(text, "could not start http server") && tries < 5 {
			tries++
			k.noGauges = nil
			continue
		}
		if k.noGauges != nil {
			return k, fmt.Errorf("run %d: %w\n%s", k.run, k.noGauges, tail(text, 3000))
		}
		where := fmt.Sprintf("run %d, after slot %d, on-chain slot %d", k.run, k.req, w.Contract.LastSlot)
		switch {
		case e.skewed && !stuck && (!k.dying || k.ended):
			if code == 0 {
				return k, fmt.Errorf("%s: the state owes %d wei more than the pool received, but the program ended as if nothing happened\n%s", where, c.Skew, tail(text, 3000))
			}
			st.Class("stopped by the check of what was received")
			return k, nil
		case e.skewed && !stuck: // stopped before
			return k, nil
		case e.refused != 0 && k.req == e.refused && (!k.dying || code > 0):
			if code == 0 {
				return k, fmt.Errorf("%s: the block changed a parameter, but the program ended as if nothing happened\n%s", where, tail(text, 3000))
			}
			b, err := os.ReadFile(filepath.Join(dir, "oracle-data", oracle.StateJsonName))
			if err == nil {
				if latest, _ := readState(b); latest >= first {
					if err := k.saved(oracle.StateJsonName, latest); err != nil {
						return k, fmt.Errorf("%s: after a block that changed a parameter: %w\n%s", where, err, tail(text, 3000))
					}
				}
			}
			st.Class("stopped by a changed parameter")
			return k, nil
		case stuck:
			// the state is ahead of the contract, and there is none to go back to
			st.Class("nothing to go back to")
			if code == 0 && k.started && !k.dying {
				return k, fmt.Errorf("%s: started from a state that is ahead of the contract\n%s", where, tail(text, 3000))
			}
			return k, nil
		case k.ended && k.other:
			return k, nil
		case k.fatal != "":
			if code == 0 && !k.dying {
				return k, fmt.Errorf("%s: %s, but the program ended as if nothing happened\n%s", where, k.fatal, tail(text, 3000))
			}
		case k.short > 0 && (!k.dying || code > 0): // maybe before it was told to stop
			if code == 0 {
				return k, fmt.Errorf("%s: the program ended as if nothing happened\n%s", where, tail(text, 3000))
			}
			st.Class("stopped by reconciliation")
			return k, nil
		case k.outage && !k.dying:
			if code == 0 {
				return k, fmt.Errorf("%s: a node failed, but the program ended as if nothing happened\n%s", where, tail(text, 3000))
			}
			k.tags["ended by an outage"]++
			w.Lock()
			w.Faults = slices.DeleteFunc(w.Faults, func(f fakes.Fault) bool { return f.Class != "finalized" })
			w.Unlock()
		case !k.dying:
			return k, fmt.Errorf("%s: the program ended (%v)\n%s", where, werr, tail(text, 3000))
		}
		if k.ended {
			if code != 0 && k.outage {
				return k, nil
			}
			if code != 0 {
				return k, fmt.Errorf("%s: ended with code %d\n%s", where, code, tail(text, 3000))
			}
			if k.req != 0 || found {
				if err := k.saved(oracle.StateJsonName, last); err != nil {
					return k, fmt.Errorf("%s: the state after a signal: %w\n%s", where, err, tail(text, 3000))
				}
			}
			return k, nil
		}
		if k.atTerm != 0 && k.fatal == "" && !(k.outage && code != 0) {
			if code != 0 {
				return k, fmt.Errorf("%s: ended with code %d\n%s", where, code, tail(text, 3000))
			}
			b, err := os.ReadFile(filepath.Join(dir, "oracle-data", oracle.StateJsonName))
			if err != nil {
				return k, fmt.Errorf("%s: no state after a signal: %v\n%s", where, err, tail(text, 3000))
			}
			latest, _ := readState(b)
			if latest >= first { // something has been processed
				err = k.saved(oracle.StateJsonName, latest)
			}
			if err != nil || latest+1 < k.atTerm {
				return k, fmt.Errorf("%s: the state after a signal at slot %d: slot %d, %v\n%s", where, k.atTerm, latest, err, tail(text, 3000))
			}
		}
		w.Lock()
		if k.run < len(c.Stops) && c.Stops[k.run].Down && k.pend != 0 {
			k.consolidate(k.pend, e.root[k.pend])
		}
		k.run++
		w.Unlock()
		if k.run > len(c.Stops)+len(c.Outage)+12+len(e.root) { // a late vote costs a restart
			return k, fmt.Errorf("%s: the program does not survive\n%s", where, tail(text, 3000))
		}
	}
}

// UpCase is one start of the program.
type UpCase struct {
	L       *LoopCase
	Key     string // good pass missing
	Member  bool
	Balance bool
	Chain   bool   // the nodes are of different chains
	State   string // none good cut flip foreign empty
	Url     string // none good 500 404 cut flip foreign down empty
	Copies  []int  // which copies of checkpoints are there
	On      int    // checkpoint that is on-chain, of the frozen ones; -1: before all of them
	Flip    int
}

func genUp(t *rapid.T) *UpCase {
	c := &UpCase{L: genLoop(t), Key: "good", Member: true, Balance: true}
	c.L.Dry = sim.Pct(t, 30, "dryrun")
	c.L.Fails, c.L.Out, c.L.Stops, c.L.Short, c.L.Skew, c.L.Leak, c.L.Outage = fakes.Fault{}, nil, nil, false, 0, 0, nil
	if sim.Pct(t, 12, "badkey") {
		c.Key = sim.Of(t, "key", "pass", "missing")
	}
	c.Member = !sim.Pct(t, 12, "member")
	c.Balance = !sim.Pct(t, 12, "balance")
	c.Chain = sim.Pct(t, 5, "chain")
	c.State = sim.Of(t, "state", "none", "good", "good", "good", "good", "cut", "flip", "foreign", "empty")
	c.Url = "none"
	if sim.Pct(t, 40, "url") {
		c.Url = sim.Of(t, "urlkind", "good", "good", "good", "500", "404", "cut", "flip", "foreign", "down", "empty")
	}
	for i := 0; i < 8; i++ {
		if sim.Pct(t, 50, "copy") {
			c.Copies = append(c.Copies, i)
		}
	}
	c.On = sim.U(t, 6, "on") - 1
	c.L.Pos = 1 + sim.U(t, len(c.L.S.Steps), "position")
	if sim.Pct(t, 60, "late") {
		c.L.Pos = len(c.L.S.Steps)
	}
	c.Flip = sim.U(t, 1<<20, "flip")
	return c
}

// spoil makes a state that must not be taken.
func spoil(how string, b []byte, at int) []byte {
	switch how {
	case "cut":
		return b[:at%len(b)]
	case "empty":
		return nil
	case "foreign":
		return bytes.Replace(b, []byte(`"network": "`), []byte(`"network": "x`), 1)
	case "flip": // a digit of an amount, slot or hash, not of a field's name
		b = append([]byte(nil), b...)
		for i := 0; ; i++ {
			p := (at + i) % len(b)
			start := bytes.LastIndexByte(b[:p], '\n') + 1
			if name := bytes.Index(b[start:], []byte(`":`)); name >= 0 && p < start+name && !bytes.ContainsRune(b[p:start+name], '\n') {
				continue
			}
			if b[p] >= '0' && b[p] <= '9' {
				b[p] = '0' + (b[p]-'0'+1)%10
				return b
			}
		}
	}
	return b
}

func runUp(u *UpCase, st *h.Stats) error {
	c := u.L
	e, err := c.expect()
	if err != nil || len(e.json) == 0 {
		return nil
	}
	s := c.S
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "up-")
	h.Must(err)
	defer os.RemoveAll(dir)
	first := s.Slot0
	w := c.world()
	w.Finalized = first + uint64(len(s.Steps)) + 100
	w.Contract.Quorum = 1
	given := e.json[0]
	latest, commited := readState(given)
	var frozen []uint64
	for slot := range e.root {
		frozen = append(frozen, slot)
	}
	slices.Sort(frozen)
	w.Contract.LastSlot = first - 1
	if u.On >= 0 && len(frozen) > 0 {
		w.Contract.LastSlot = frozen[u.On%len(frozen)]
	}
	data := filepath.Join(dir, "oracle-data")
	files := map[string][]byte{}
	put := func(name string, b []byte) {
		h.Must(os.MkdirAll(data, 0755))
		h.Must(os.WriteFile(filepath.Join(data, name), b, 0644))
		files[name] = b
	}
	if u.State != "none" {
		put(oracle.StateJsonName, spoil(u.State, given, u.Flip))
	}
	copies := map[uint64]bool{}
	for _, i := range u.Copies {
		if i < len(frozen) && frozen[i] <= latest {
			put(fmt.Sprintf("state_%d.json", frozen[i]), e.copies[frozen[i]])
			copies[frozen[i]] = true
		}
	}
	// what must come of it
	refuse := ""
	next := first
	switch {
	case !c.Dry && u.Key != "good":
		refuse = "no key"
	case u.Chain:
		refuse = "different chains"
	case !c.Dry && !u.Member:
		refuse = "not a member"
	case !c.Dry && !u.Balance:
		refuse = "no balance"
	case u.Url != "none" && u.Url != "good":
		refuse = "no state from the provider"
	case u.Url == "none" && u.State != "none" && u.State != "good":
		refuse = "the saved state is damaged"
	}
	if refuse == "" && (u.Url == "good" || u.State == "good") {
		next = latest + 1
		if on := w.Contract.LastSlot; !c.Dry && commited > on {
			st.Class("ahead of the contract")
			next = 0
			for i := uint64(0); i < 3 && next == 0; i++ {
				if copies[on-i*s.Ckpt] {
					next = on - i*s.Ckpt + 1
				}
			}
			if next == 0 {
				refuse = "nothing to go back to"
			}
		}
	}
	st.Class("refuse %q", refuse)
	st.Class("state %s url %s", u.State, u.Url)
	if refuse != "" || next != first {
		st.NT()
	}
	if u.Chain {
		w.ConsChain = 5
	}
	if !u.Member {
		w.Contract.Members = []common.Address{sim.Addr(sim.AccOther)}
	}
	w.BalanceAt = func(a common.Address, block string) *big.Int {
		if a == sim.Addr(updater) && !u.Balance {
			return new(big.Int)
		}
		return big.NewInt(1e18)
	}
	var proc *os.Process
	started, got := false, uint64(0)
	w.OnReq = func(class string) {
		if class == "finalized" {
			started = true
		}
		if class == "block" && started && got == 0 {
			got = w.Arg
			proc.Signal(syscall.SIGKILL)
		}
	}
	n := fakes.NewNode(w)
	defer n.Close()
	args := []string{"--consensus-endpoint=" + n.Beacon, "--execution-endpoint=" + n.Exec, "--pool-address=" + sim.Cased(sim.AccPool, s.PoolCase),
		"--relayers-endpoints=https://relay.invalid", "--num-retries=2"}
	if c.Dry {
		args = append(args, "--dry-run")
	} else {
		key, pass := writeKey(dir, "pass"), "pass"
		switch u.Key {
		case "pass":
			pass = "other"
		case "missing":
			key += "x"
		}
		args = append(args, "--updater-keystore-file="+key, "--updater-keystore-pass="+pass)
	}
	switch u.Url {
	case "none":
	case "down":
		args = append(args, fmt.Sprintf("--checkpoint-sync-url=http://127.0.0.1:%d/state", freePorts(1)[0]))
	default:
		srv := fakes.NewServer(func(rw http.ResponseWriter, r *http.Request) {
			switch u.Url {
			case "500":
				rw.WriteHeader(500)
				rw.Write(given)
			case "404":
				rw.WriteHeader(404)
				rw.Write(given)
			default:
				rw.Write(spoil(u.Url, given, u.Flip))
			}
		})
		defer srv.Close()
		args = append(args, "--checkpoint-sync-url="+srv.Url+"/state")
	}
	for tries := 0; ; tries++ {
		ports := freePorts(2)
		w.Lock()
		cmd, out := program(dir, append(append([]string{}, args...), fmt.Sprintf("--api-port=%d", ports[0]), fmt.Sprintf("--metrics-port=%d", ports[1])))
		h.Must(cmd.Start())
		proc = cmd.Process
		w.Unlock()
		done := make(chan bool, 1)
		go func() { cmd.Wait(); done <- true }()
		hung := false
		select {
		case <-done:
		case <-time.After(100 * time.Second):
			hung = true
			cmd.Process.Kill()
			<-done
		}
		text := out.String()
		if strings.Contains(text, "could not start http server") && tries < 5 {
			w.Lock()
			started, got = false, 0
			w.Unlock()
			continue
		}
		w.Lock()
		defer w.Unlock()
		where := fmt.Sprintf("state %s, provider %s, contract at slot %d, state of slot %d (last checkpoint %d)", u.State, u.Url, w.Contract.LastSlot, latest, commited)
		if len(w.Txs) > 0 {
			return fmt.Errorf("%s: a transaction was sent at start-up", where)
		}
		if refuse != "" {
			if started || got != 0 || cmd.ProcessState.ExitCode() == 0 {
				return fmt.Errorf("%s: started although: %s\n%s", where, refuse, tail(text, 3000))
			}
		} else if hung || got != next {
			return fmt.Errorf("%s: goes on with slot %d, expected %d\n%s", where, got, next, tail(text, 3000))
		}
		for name, b := range files {
			now, err := os.ReadFile(filepath.Join(data, name))
			if err != nil || !bytes.Equal(now, b) {
				return fmt.Errorf("%s: the start changed %s", where, name)
			}
		}
		return nil
	}
}

func init() {
	h.Add("C19", "start", "the program must refuse to start, or continues from a state", 240, 12000, genUp, runUp)
	h.Add("C19", "life", "a vote and a restart or a wait for quorum; or two checkpoints passed with a restart or in dry-run", 220, 12000, genLife, runLoop)
}
