package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/dappnode/mev-sp-oracle/oracle"

	"pgregory.net/rapid"
	"verifharness/h"
	"verifharness/sim"
)

// limitFiles makes every file of this process end at n bytes: what is written beyond fails, as on a full disk.
func limitFiles(n uint64) (undo func()) {
	var old syscall.Rlimit
	h.Must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	l := old
	l.Cur = n
	h.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l))
	return func() { h.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }
}

// FullCase: saves along a history, some of them onto a disk that fills up at a given byte.
type FullCase struct {
	S     *sim.Scn
	Saves []FullSave
}

type FullSave struct {
	Skip  int  // slots processed before
	Copy  bool // with a copy for the slot
	Limit int  // -1: none; else the room, in thousandths of the size (or bytes around it)
	Near  int
	Taken bool // the place of the copy is taken by a folder
}

// loaded is what a fresh oracle finds: nil if it finds nothing.
func loaded(s *sim.Scn, slot uint64, load func(*oracle.Oracle) (bool, error)) ([]byte, error) {
	or, _ := s.NewOracle()
	found, err := load(or)
	if err != nil {
		return nil, fmt.Errorf("the saved state is refused: %v", err)
	}
	// the copy of an earlier slot may be taken instead of one that is missing
	if !found || slot != 0 && or.State().LatestProcessedSlot != slot {
		return nil, nil
	}
	return sim.PlainJSON(or), nil
}

func oneOf(b []byte, l ...[]byte) bool {
	for _, x := range l {
		if bytes.Equal(b, x) {
			return true
		}
	}
	return false
}

func ckptProfile(p *sim.Profile) { p.MaxSteps = 10 }

func runFull(c *FullCase, st *h.Stats) error {
	defer freshFolder()()
	s := c.S
	tp := s.Tape()
	or, _ := s.NewOracle()
	var last []byte               // what state.json must hold
	copies := map[uint64][]byte{} // what the copies must hold
	load := func(or *oracle.Oracle) (bool, error) { return or.LoadFromJson() }
	pos, fails := 0, 0
	for i, sv := range c.Saves {
		for n := 0; n < sv.Skip && pos < tp.Len(); n++ {
			if err := tp.Feed(or, pos); err != nil {
				return nil // not this property
			}
			pos++
		}
		slot := or.State().LatestProcessedSlot
		now := sim.PlainJSON(or)
		undo := func() {}
		if sv.Limit >= 0 {
			n := len(now)*sv.Limit/1000 + sv.Near
			undo = limitFiles(uint64(max(0, n)))
		}
		place := filepath.Join(oracle.StateFolder, fmt.Sprintf("state_%d.json", slot))
		taken := false
		if _, e := os.Lstat(place); e != nil && sv.Taken && sv.Copy {
			taken = true
			h.Must(os.MkdirAll(filepath.Join(place, "x"), 0755))
		}
		err := or.SaveToJson(sv.Copy)
		undo()
		if i, e := os.Lstat(place); taken && e == nil && i.IsDir() {
			h.Must(os.RemoveAll(place))
		}
		st.Eval(1)
		where := fmt.Sprintf("save %d (slot %d, %d bytes, %+v, error %v)", i, slot, len(now), sv, err)
		if err != nil && sv.Limit < 0 && !taken {
			return fmt.Errorf("%s failed without reason", where)
		}
		got, lerr := loaded(s, 0, load)
		if lerr != nil {
			return fmt.Errorf("%s: %v", where, lerr)
		}
		if err == nil && !bytes.Equal(got, now) {
			return fmt.Errorf("%s: the state found later is not the saved one", where)
		}
		if err != nil {
			fails++
			st.Class("a save failed, over an old state: %v", last != nil)
			if last != nil {
				st.NT()
			}
			if !oneOf(got, last, now) {
				return fmt.Errorf("%s: neither the previous nor the new state is found later (found: %v)", where, got != nil)
			}
		}
		last = got
		if sv.Copy {
			if _, ok := copies[slot]; !ok {
				copies[slot] = nil
			}
		}
		for at, old := range copies {
			got, lerr := loaded(s, at, func(or *oracle.Oracle) (bool, error) { return or.LoadGivenState(at) })
			if lerr != nil {
				return fmt.Errorf("%s, copy of slot %d: %v", where, at, lerr)
			}
			switch {
			case at == slot && sv.Copy && err == nil && !bytes.Equal(got, now):
				return fmt.Errorf("%s: the copy is not the saved state", where)
			case at == slot && sv.Copy && !oneOf(got, old, now), (at != slot || !sv.Copy) && !bytes.Equal(got, old):
				return fmt.Errorf("%s: the copy of slot %d holds neither the previous nor the new state (found: %v)", where, at, got != nil)
			}
			copies[at] = got
		}
	}
	// and the disk has room again
	if fails > 0 {
		if err := or.SaveToJson(true); err != nil {
			return fmt.Errorf("after a failed save: %v", err)
		}
		if got, err := loaded(s, 0, load); err != nil || !bytes.Equal(got, sim.PlainJSON(or)) {
			return fmt.Errorf("after a failed save the next one is not found later: %v", err)
		}
	}
	return nil
}

// WindowCase: a save is watched while it happens; what can be read at any moment is what a crash at that moment leaves.
type WindowCase struct {
	S    *sim.Scn
	Copy bool
	N    int
}

func runWindow(c *WindowCase, st *h.Stats) error {
	defer freshFolder()()
	s := c.S
	tp := s.Tape()
	a, _ := s.NewOracle()
	b, _ := s.NewOracle()
	for pos := 0; pos < tp.Len(); pos++ {
		if tp.Feed(b, pos) != nil {
			return nil
		}
	}
	slot := b.State().LatestProcessedSlot
	if c.Copy {
		// another state of the same slot: the copy of a slot can be written again
		a, _ = s.NewOracle()
		for pos := 0; pos < tp.Len(); pos++ {
			if tp.Feed(a, pos) != nil {
				return nil
			}
		}
		a.State().EtherReceivedEvents = nil
		a.State().SubscriptionEvents = nil
	}
	paths := []string{filepath.Join(oracle.StateFolder, oracle.StateJsonName)}
	if c.Copy {
		paths = append(paths, filepath.Join(oracle.StateFolder, fmt.Sprintf("state_%d.json", slot)))
	}
	content := map[string]bool{}
	for _, or := range []*oracle.Oracle{b, a} {
		h.Must(or.SaveToJson(c.Copy))
		for _, p := range paths {
			x, err := os.ReadFile(p)
			if err != nil {
				if p == paths[0] {
					return fmt.Errorf("the state was saved, but is not where it should be: %v", err)
				}
				return nil // copies under another name are not watched
			}
			content[string(x)] = true
		}
	}
	var bad atomic.Pointer[string]
	var reads, stop atomic.Int64
	var wg sync.WaitGroup
	for _, p := range append(paths, paths...) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for stop.Load() == 0 && bad.Load() == nil {
				x, err := os.ReadFile(p)
				reads.Add(1)
				if err != nil || !content[string(x)] {
					m := fmt.Sprintf("%s, while it is saved: %d bytes, error %v", filepath.Base(p), len(x), err)
					if err == nil {
						or, _ := s.NewOracle()
						m += ", "
						if _, err := or.LoadFromBytes(x); err == nil {
							continue // complete, if different
						} else {
							m += err.Error()
						}
					}
					bad.Store(&m)
				}
			}
		}()
	}
	for i := 0; i < c.N && bad.Load() == nil; i++ {
		or := a
		if i%2 == 0 {
			or = b
		}
		if err := or.SaveToJson(c.Copy); err != nil {
			stop.Store(1)
			wg.Wait()
			return fmt.Errorf("a save failed: %v", err)
		}
	}
	stop.Store(1)
	wg.Wait()
	st.Eval(int(reads.Load()))
	if m := bad.Load(); m != nil {
		return fmt.Errorf("%s", *m)
	}
	st.NT()
	return nil
}

// KillCase: a process that saves one state after another is killed at any time.
type KillCase struct {
	S     *sim.Scn
	After []int // microseconds from the first completed save to each kill
	Back  []int // per life: how many slots after the first its copy is, to which it goes back before (-1: it does not)
	Dir   string
}

func saveForever(c *KillCase, life int) {
	oracle.StateFolder = c.Dir
	tp := c.S.Tape()
	or, _ := c.S.NewOracle()
	if found, err := or.LoadFromJson(); err != nil {
		fmt.Println("refused", err)
		os.Exit(7)
	} else if !found {
		h.Must(or.SaveToJson(true))
	}
	if life < len(c.Back) && c.Back[life] >= 0 {
		at := tp.First - 1 + uint64(c.Back[life])
		if found, err := or.LoadGivenState(at); err != nil {
			fmt.Println("refused the copy", err)
			os.Exit(7)
		} else if found {
			h.Must(or.SaveToJson(true))
		}
	}
	fmt.Println("ready")
	for {
		for pos := int(or.State().NextSlotToProcess - tp.First); pos < tp.Len(); pos++ {
			if tp.Feed(or, pos) != nil {
				os.Exit(0)
			}
			h.Must(or.SaveToJson(true))
		}
		or, _ = c.S.NewOracle()
	}
}

func runKill(c *KillCase, st *h.Stats) error {
	defer freshFolder()()
	d := filepath.Dir(oracle.StateFolder)
	c.Dir = oracle.StateFolder
	s := c.S
	tp := s.Tape()
	or, _ := s.NewOracle()
	known := map[uint64][]byte{or.State().LatestProcessedSlot: sim.PlainJSON(or)}
	for pos := 0; pos < tp.Len(); pos++ {
		if tp.Feed(or, pos) != nil {
			return nil
		}
		known[or.State().LatestProcessedSlot] = sim.PlainJSON(or)
	}
	arg := filepath.Join(d, "case.json")
	b, err := json.Marshal(c)
	h.Must(err)
	h.Must(os.WriteFile(arg, b, 0644))
	for i, us := range c.After {
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "VERIF_CHILD=save", "VERIF_CHILD_ARG="+arg, fmt.Sprint("VERIF_CHILD_LIFE=", i), "VERIF_STATS=", "VERIF_REPLAY_OUT=")
		out, err := cmd.StdoutPipe()
		h.Must(err)
		h.Must(cmd.Start())
		line := make([]byte, 200)
		n, _ := out.Read(line)
		time.Sleep(time.Duration(us) * time.Microsecond)
		cmd.Process.Kill()
		cmd.Wait()
		if !bytes.HasPrefix(line[:n], []byte("ready")) {
			return fmt.Errorf("start %d: %q (exit %d)", i, line[:n], cmd.ProcessState.ExitCode())
		}
		st.Eval(1)
		or, _ := s.NewOracle()
		found, err := or.LoadFromJson()
		if err != nil || !found {
			return fmt.Errorf("killed %d µs after the first save: state found %v, error %v", us, found, err)
		}
		if slot := or.State().LatestProcessedSlot; !bytes.Equal(known[slot], sim.PlainJSON(or)) {
			return fmt.Errorf("killed %d µs after the first save: the state of slot %d is not the saved one", us, slot)
		}
		for slot, want := range known {
			or, _ := s.NewOracle()
			found, err := or.LoadGivenState(slot)
			if found {
				want = known[or.State().LatestProcessedSlot]
			}
			if err != nil || found && !bytes.Equal(want, sim.PlainJSON(or)) {
				return fmt.Errorf("killed %d µs after the first save: the copy of slot %d: found %v, error %v", us, slot, found, err)
			}
		}
		st.NT()
	}
	return nil
}

func init() {
	h.Add("C32", "full", "a save over an old state fails part-way", 2500, 100000,
		func(t *rapid.T) *FullCase {
			c := &FullCase{S: sim.Gen(t, with(ckptProfile))}
			for i := 2 + sim.U(t, 5, "nsaves"); i > 0; i-- {
				sv := FullSave{Skip: sim.U(t, 4, "skip"), Copy: sim.Pct(t, 60, "copy"), Limit: -1, Taken: sim.Pct(t, 15, "taken")}
				switch {
				case sim.Pct(t, 60, "full"):
					sv.Limit = sim.U(t, 1001, "room")
				case sim.Pct(t, 50, "around"):
					sv.Limit, sv.Near = sim.Of(t, "edge", 1000, 0), sim.U(t, 300, "near")-100
				}
				c.Saves = append(c.Saves, sv)
			}
			return c
		}, runFull)
	h.Add("C32", "window", "always: the files are read all the time while they are replaced", 300, 10000,
		func(t *rapid.T) *WindowCase {
			return &WindowCase{S: sim.Gen(t, with(ckptProfile)), Copy: sim.Pct(t, 60, "copy"), N: 6 + sim.U(t, 20, "n")}
		}, runWindow)
	h.Add("C32", "kill", "a process that saves was killed", 40, 2000,
		func(t *rapid.T) *KillCase {
			c := &KillCase{S: sim.Gen(t, with(ckptProfile))}
			for i := 4; i > 0; i-- {
				c.After = append(c.After, sim.U(t, 1+sim.Of(t, "scale", 300, 3000, 20000), "us"))
				back := -1
				if sim.Pct(t, 60, "goes back") {
					back = sim.U(t, 3, "to")
				}
				c.Back = append(c.Back, back)
			}
			return c
		}, runKill)
}
