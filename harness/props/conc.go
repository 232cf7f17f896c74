package props

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dappnode/mev-sp-oracle/oracle"

	"pgregory.net/rapid"
	"verifharness/h"
	"verifharness/sim"
)

// ConcCase: one writer processes a history while readers ask all the time.
type ConcCase struct {
	S       *sim.Scn
	Readers [][]int // what each reader does, over and over
	Pause   []int   // microseconds the writer waits before each slot
	Saves   []int   // per slot: 0 none, 1 save, 2 save with copy, 3 onto an unusable folder, 4 onto a full disk
}

const (
	opState = iota
	opHash
	opIsCkpt
	opSlot
	opCkpt
	opSync
	opUnique
	opSave
	opHTTPState
	opHTTP
	nOps
)

// moment is what the queries answer between two operations of the writer.
type moment struct {
	plain, ckpt, uniq string
	is                bool
	slot              uint64
	has               bool
}

func momentOf(or *oracle.Oracle) moment {
	var m moment
	m.plain = string(sim.PlainJSON(or))
	m.ckpt = asJSON(or.LatestCommitedState())
	m.uniq = uniqOf(or)
	m.is, _ = or.IsCheckpoint()
	m.slot, m.has = or.LatestCommitedSlot()
	return m
}

func uniqOf(or *oracle.Oracle) string {
	l := or.GetUniqueWithdrawalAddresses()
	for i := range l {
		l[i] = strings.ToLower(l[i])
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func plainOf(st oracle.OracleState) (string, string) {
	hash := st.StateHash
	st.StateHash = ""
	b, err := json.MarshalIndent(&st, "", " ")
	h.Must(err)
	return string(b), hash
}

type fail struct {
	mu  sync.Mutex
	err error
}

func (f *fail) set(err error) {
	f.mu.Lock()
	if f.err == nil {
		f.err = err
	}
	f.mu.Unlock()
}

func runConc(c *ConcCase, st *h.Stats) error {
	defer freshFolder()()
	s := c.S
	tp := s.Tape()
	// what the states are, one after the other
	ref, _ := s.NewOracle()
	ms := []moment{momentOf(ref)}
	roots := map[string]uint64{}
	for pos := 0; pos < tp.Len(); pos++ {
		if _, err := ref.AdvanceStateToNextSlot(tp.Full(pos)); err != nil {
			return nil // not this property
		}
		ms = append(ms, momentOf(ref))
		if sim.Freeze(ref) != nil {
			return nil
		}
		ms = append(ms, momentOf(ref))
		if k := ref.LatestCommitedState(); k != nil {
			roots[k.MerkleRoot] = k.Slot
		}
	}
	w := apiWorld(s, 12, s.FirstSlot())
	v := serve(s, w)
	if v.svc.Onchain.Validators() == nil { // its content does not matter here
		v.svc.Onchain.RefreshBeaconValidators()
	}
	w.Lock()
	w.Finalized = s.FirstSlot() + uint64(tp.Len())
	w.Unlock()
	or := v.or
	var fulls []*oracle.FullBlock
	for pos := 0; pos < tp.Len(); pos++ {
		fulls = append(fulls, tp.Full(pos))
	}
	var done atomic.Bool
	var answers, during atomic.Int64
	var bad fail
	var wg sync.WaitGroup
	// each reader sees the states in their order
	reader := func(ops []int) {
		defer wg.Done()
		defer func() {
			if r := recover(); r != nil {
				bad.set(fmt.Errorf("a query panics: %v", r))
			}
		}()
		at := 0
		find := func(what string, ok func(*moment) bool) bool {
			for i := at; i < len(ms); i++ {
				if ok(&ms[i]) {
					at = i
					return true
				}
			}
			bad.set(fmt.Errorf("%s: an answer that no state (from the last one seen on) gives", what))
			return false
		}
		for round := 0; round == 0 || !done.Load(); round++ {
			time.Sleep(time.Duration(100+200*round) * time.Microsecond)
			for _, op := range ops {
				switch op {
				case opState:
					or.State()
				case opHash:
					x, err := or.StateWithHash()
					if err != nil {
						bad.set(fmt.Errorf("StateWithHash: %v", err))
						return
					}
					plain, hash := plainOf(*x)
					if !find("StateWithHash", func(m *moment) bool { return m.plain == plain }) {
						return
					}
					if hash != sim.HashOf([]byte(plain)) {
						bad.set(fmt.Errorf("StateWithHash: the hash %s is of another state", hash))
						return
					}
				case opIsCkpt:
					is, _ := or.IsCheckpoint()
					if !find("IsCheckpoint", func(m *moment) bool { return m.is == is }) {
						return
					}
				case opSlot:
					slot, has := or.LatestCommitedSlot()
					if !find("LatestCommitedSlot", func(m *moment) bool { return m.has == has && m.slot == slot }) {
						return
					}
				case opCkpt:
					k := asJSON(or.LatestCommitedState())
					if !find("LatestCommitedState", func(m *moment) bool { return m.ckpt == k }) {
						return
					}
				case opSync:
					for r, slot := range roots {
						in, err := or.IsOracleInSyncWithChain(r, slot)
						if in && err == nil && !find("IsOracleInSyncWithChain", func(m *moment) bool { return m.has && m.slot == slot }) {
							return
						}
						break
					}
				case opUnique:
					u := uniqOf(or)
					if !find("GetUniqueWithdrawalAddresses", func(m *moment) bool { return m.uniq == u }) {
						return
					}
				case opSave:
					or.SaveToJson(false)
				case opHTTPState:
					r, err := v.get("/state")
					if err != nil || r.code != 200 {
						bad.set(fmt.Errorf("GET /state: %v %v", r, err))
						return
					}
					var x oracle.OracleState
					if err := json.Unmarshal(r.body, &x); err != nil {
						bad.set(fmt.Errorf("GET /state: %v", err))
						return
					}
					plain, _ := plainOf(x)
					if !find("GET /state", func(m *moment) bool { return m.plain == plain }) {
						return
					}
				default:
					path := []string{"/status", "/memory/statistics", "/memory/validators", fmt.Sprintf("/memory/validator/%d", s.Vals[0].Idx), fmt.Sprintf("/memory/validatorsbyindex/%d,5", s.Vals[0].Idx),
						"/memory/validators/" + sim.Low(s.Vals[0].Addr), "/memory/feesinfo", "/memory/allblocks", "/memory/proposedblocks", "/memory/missedblocks", "/memory/wrongfeeblocks", "/memory/donations",
						"/onchain/proof/" + sim.Low(s.Vals[0].Addr)}[op-opHTTP]
					if _, err := v.get(path); err != nil {
						bad.set(err)
						return
					}
				}
				answers.Add(1)
				if !done.Load() {
					during.Add(1)
				}
			}
		}
	}
	for _, ops := range c.Readers {
		wg.Add(1)
		go reader(ops)
	}
	folder := oracle.StateFolder
	saveFails := 0
	var werr error
	for pos := range fulls {
		if bad.get() != nil {
			break
		}
		time.Sleep(time.Duration(c.Pause[pos%len(c.Pause)]) * time.Microsecond)
		if _, err := or.AdvanceStateToNextSlot(fulls[pos]); err != nil {
			werr = fmt.Errorf("slot %d fails while there are queries: %v", pos, err)
			break
		}
		if err := sim.Freeze(or); err != nil {
			werr = err
			break
		}
		var err error
		kind := c.Saves[pos%len(c.Saves)]
		switch kind {
		case 1, 2:
			err = or.SaveToJson(kind == 2)
		case 3:
			block(folder, true)
			if or.SaveToJson(true) != nil {
				saveFails++
			}
			block(folder, false)
		case 4:
			undo := limitFiles(10)
			if or.SaveToJson(true) != nil {
				saveFails++
			}
			undo()
		}
		if err != nil {
			werr = fmt.Errorf("a save fails while there are queries: %v", err)
			break
		}
	}
	done.Store(true)
	wg.Wait()
	if werr != nil {
		return werr
	}
	if err := bad.get(); err != nil {
		return err
	}
	st.Eval(int(answers.Load()))
	if during.Load() > 0 && len(c.Readers) > 1 {
		st.NT()
	}
	if saveFails > 0 {
		st.Class("saves failed")
	}
	if got := string(sim.PlainJSON(or)); got != ms[len(ms)-1].plain {
		return fmt.Errorf("the queries changed what the oracle computes")
	}
	if err := or.SaveToJson(true); err != nil {
		return fmt.Errorf("the last save fails: %v", err)
	}
	return v.healthy()
}

func (f *fail) get() error {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.err
}

// block makes the folder unusable by putting a file in its place, or usable again.
func block(folder string, on bool) {
	away := folder + ".away"
	if on {
		os.Rename(folder, away)
		h.Must(os.WriteFile(folder, nil, 0644))
		return
	}
	h.Must(os.RemoveAll(folder))
	if _, err := os.Stat(away); err == nil {
		h.Must(os.Rename(away, folder))
	}
}

func init() {
	h.Add("C28", "overlap", "two or more readers got answers while slots were processed", 110, 12000,
		func(t *rapid.T) *ConcCase {
			c := &ConcCase{S: sim.Gen(t, with(func(p *sim.Profile) { p.MaxSteps = 12 }))}
			http := sim.Pct(t, 50, "http")
			saver := false
			for i := 1 + sim.U(t, 4, "nreaders"); i > 0; i-- {
				var ops []int
				for j := 1 + sim.U(t, 5, "nops"); j > 0; j-- {
					op := sim.U(t, opHTTPState, "op")
					if http && sim.Pct(t, 70, "http") {
						op = opHTTPState + sim.U(t, 14, "path")
					}
					saver = saver || op == opSave
					ops = append(ops, op)
				}
				c.Readers = append(c.Readers, ops)
			}
			for i := 1 + sim.U(t, 6, "npause"); i > 0; i-- {
				c.Pause = append(c.Pause, sim.Of(t, "pause", 0, 0, 20, 100, 500, 2000))
			}
			for i := 1 + sim.U(t, 6, "nsaves"); i > 0; i-- {
				k := sim.Weighted(t, "save", 5, 3, 3, 2, 2)
				if saver && k >= 3 { // the others would fail as well
					k = 1
				}
				c.Saves = append(c.Saves, k)
			}
			return c
		}, runConc)
}

// HammerCase: short queries follow each other closely while writers wait for their turn, which is when locks taken twice hang.
type HammerCase struct {
	S       *sim.Scn
	Readers [][]int
	Writers []int
	N       int
}

func runHammer(c *HammerCase, st *h.Stats) error {
	defer freshFolder()()
	s := c.S
	tp := s.Tape()
	or, _ := s.NewOracle()
	if tp.Len() == 0 {
		return nil
	}
	for pos := 0; pos < tp.Len(); pos++ {
		if tp.Feed(or, pos) != nil {
			return nil
		}
	}
	or.FreezeCheckpoint()
	k := or.LatestCommitedState()
	want := momentOf(or)
	full := tp.Full(0) // of another slot: refused without changing anything
	var bad fail
	var readers, writers sync.WaitGroup
	var done atomic.Bool
	for _, ops := range c.Readers {
		readers.Add(1)
		go func() {
			defer readers.Done()
			for i := 0; i < c.N && bad.get() == nil; i++ {
				switch ops[i%len(ops)] {
				case 0:
					or.State()
				case 1:
					if is, _ := or.IsCheckpoint(); is != want.is {
						bad.set(fmt.Errorf("IsCheckpoint: %v", is))
					}
				case 2:
					if slot, has := or.LatestCommitedSlot(); slot != want.slot || has != want.has {
						bad.set(fmt.Errorf("LatestCommitedSlot: %d %v", slot, has))
					}
				case 3:
					if x := or.LatestCommitedState(); (x == nil) != (k == nil) || x != nil && (x.Slot != k.Slot || x.MerkleRoot != k.MerkleRoot) {
						bad.set(fmt.Errorf("LatestCommitedState: %v", x))
					}
				case 4:
					if k != nil {
						if in, err := or.IsOracleInSyncWithChain(k.MerkleRoot, k.Slot); !in || err != nil {
							bad.set(fmt.Errorf("IsOracleInSyncWithChain: %v %v", in, err))
						}
					}
				default:
					if u := uniqOf(or); u != want.uniq {
						bad.set(fmt.Errorf("GetUniqueWithdrawalAddresses: %s", u))
					}
				}
			}
		}()
	}
	for _, op := range c.Writers {
		writers.Add(1)
		go func() {
			defer writers.Done()
			for !done.Load() {
				switch op {
				case 0:
					or.FreezeCheckpoint()
				case 1:
					or.StateWithHash()
				case 2:
					or.AdvanceStateToNextSlot(full)
				default:
					or.SaveToJson(false)
				}
			}
		}()
	}
	readers.Wait()
	done.Store(true)
	writers.Wait()
	st.Eval(c.N * len(c.Readers))
	st.NT()
	return bad.get()
}

func init() {
	h.Add("C28", "hammer", "always: one or more readers and one or more writers follow each other without a pause", 60, 5000,
		func(t *rapid.T) *HammerCase {
			c := &HammerCase{S: sim.Gen(t, with(func(p *sim.Profile) { p.MaxSteps = 4 })), N: 300 + sim.U(t, 1500, "n")}
			for i := 1 + sim.U(t, 3, "nreaders"); i > 0; i-- {
				var ops []int
				for j := 1 + sim.U(t, 4, "nops"); j > 0; j-- {
					ops = append(ops, sim.U(t, 6, "op"))
				}
				c.Readers = append(c.Readers, ops)
			}
			for i := 1 + sim.U(t, 2, "nwriters"); i > 0; i-- {
				c.Writers = append(c.Writers, sim.Weighted(t, "writer", 2, 3, 6, 1))
			}
			return c
		}, runHammer)
}
