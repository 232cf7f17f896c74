package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/dappnode/mev-sp-oracle/oracle"

	"verifharness/h"
	"verifharness/sim"
)

type mut struct {
	Kind  int
	At, X uint32
}

type edited struct {
	S     *sim.Scn
	Ahead int // slots the running oracle has not processed
	M     []mut
}

// leaf paths of a JSON document
type jref struct {
	get func() any
	set func(any)
	del func()
}

func walkJSON(v any, set func(any), out *[]jref) {
	switch x := v.(type) {
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			k := k
			*out = append(*out, jref{get: func() any { return x[k] }, set: func(n any) { x[k] = n }, del: func() { delete(x, k) }})
			walkJSON(x[k], func(n any) { x[k] = n }, out)
		}
	case []any:
		for i := range x {
			i := i
			*out = append(*out, jref{get: func() any { return x[i] }, set: func(n any) { x[i] = n }, del: func() {
				set(append(append([]any{}, x[:i]...), x[i+1:]...))
			}})
			walkJSON(x[i], func(n any) { x[i] = n }, out)
		}
	}
}

func mutate(b []byte, m mut) []byte {
	if len(b) == 0 {
		return []byte{byte(m.X)}
	}
	at := int(m.At) % len(b)
	b = append([]byte(nil), b...)
	switch m.Kind {
	case 0:
		return b[:at]
	case 1:
		b[at] ^= byte(1 << (m.X % 8))
		return b
	case 2:
		return append(b[:at], append([]byte{byte(m.X)}, b[at:]...)...)
	case 3:
		end := min(len(b), at+1+int(m.X%200))
		return append(b[:at], b[end:]...)
	case 4:
		// change a digit
		for i := 0; i < len(b); i++ {
			j := (at + i) % len(b)
			if b[j] >= '0' && b[j] <= '9' {
				b[j] = '0' + (b[j]-'0'+1+byte(m.X%9))%10
				return b
			}
		}
		return b
	case 9:
		junk := []string{"", "null", "{}", "[]", "0", `{"state_hash":"0x"}`, "\x00\x00\x00", `{"state_hash":null,"validators":null}`, strings.Repeat("[", 20000), `"x"`}
		return []byte(junk[int(m.X)%len(junk)])
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var doc any
	if dec.Decode(&doc) != nil {
		return b
	}
	root, ok := doc.(map[string]any)
	if !ok {
		return b
	}
	var refs []jref
	walkJSON(root, nil, &refs)
	if len(refs) == 0 {
		return b
	}
	r := refs[int(m.At)%len(refs)]
	switch m.Kind {
	case 5, 6:
		switch x := r.get().(type) {
		case json.Number:
			z, ok := new(big.Int).SetString(x.String(), 10)
			if !ok {
				return b
			}
			z.Add(z, big.NewInt(int64(m.X%3)-1))
			if m.X%7 == 0 {
				z.Mul(z, big.NewInt(10))
			}
			r.set(json.Number(z.String()))
		case string:
			opts := []string{"active", "banned", "notsubscribed", "", x + "0", "0x", "1"}
			if len(x) > 0 && m.X%2 == 0 {
				y := []byte(x)
				y[int(m.X/2)%len(y)] ^= 1
				r.set(string(y))
			} else {
				r.set(opts[int(m.X)%len(opts)])
			}
		case bool:
			r.set(!x)
		case []any:
			if len(x) > 0 {
				r.set(append(append([]any{}, x...), x[int(m.X)%len(x)]))
			} else {
				r.set(nil)
			}
		case map[string]any:
			r.set(nil)
		default:
			r.set(json.Number("7"))
		}
	case 7:
		r.del()
	case 8:
		hs, _ := root["state_hash"].(string)
		switch m.X % 6 {
		case 0:
			delete(root, "state_hash")
		case 1:
			root["state_hash"] = ""
		case 2:
			root["state_hash"] = strings.ToUpper(hs)
		case 3:
			root["state_hash"] = hs + "00"
		case 4:
			root["state_hash"] = strings.TrimPrefix(hs, "0x")
		case 5:
			root["state_hash"] = "0x" + strings.Repeat("0", 64)
		}
	}
	out, err := json.MarshalIndent(root, "", " ")
	h.Must(err)
	return out
}

func runEdited(c *edited, st *h.Stats) error {
	defer freshFolder()()
	tp := c.S.Tape()
	saver, _ := c.S.NewOracle()
	or, cfg := c.S.NewOracle()
	for pos := 0; pos < tp.Len(); pos++ {
		if err := tp.Feed(saver, pos); err != nil {
			return err
		}
		if pos < tp.Len()-c.Ahead {
			if err := tp.Feed(or, pos); err != nil {
				return err
			}
		}
	}
	h.Must(saver.SaveToJson(false))
	path := filepath.Join(oracle.StateFolder, oracle.StateJsonName)
	good, err := os.ReadFile(path)
	h.Must(err)
	orig := sim.PlainJSON(saver)
	om := sim.Extract(saver.State())
	bad := good
	for _, m := range c.M {
		bad = mutate(bad, m)
		st.Class("edit:%d", m.Kind)
	}
	h.Must(os.WriteFile(path, bad, 0644))
	before, cfgBefore := sim.PlainJSON(or), fmt.Sprintf("%+v", *cfg)
	bm := sim.Extract(or.State())
	found, err := or.LoadFromJson()
	if err == nil && !found {
		return fmt.Errorf("an edited file is reported as not found")
	}
	if err == nil {
		st.Class("harmless")
		// harmless edit: the content must be the saved one
		if g := sim.PlainJSON(or); !bytes.Equal(g, orig) {
			return fmt.Errorf("an edited file was accepted: the state is\n%s\ninstead of\n%s", g, orig)
		}
		if err := sim.Diff(om, sim.Extract(or.State()), sim.FAll); err != nil {
			return fmt.Errorf("an edited file was accepted: %w", err)
		}
		return nil
	}
	if found {
		return fmt.Errorf("refused (%v) and found", err)
	}
	st.NT()
	if !bytes.Equal(before, sim.PlainJSON(or)) {
		return fmt.Errorf("a refused load (%v) changed the state", err)
	}
	if err := sim.Diff(bm, sim.Extract(or.State()), sim.FAll); err != nil {
		return fmt.Errorf("a refused load changed the state: %w", err)
	}
	if g := fmt.Sprintf("%+v", *cfg); g != cfgBefore {
		return fmt.Errorf("a refused load (%v) changed the configuration: %s to %s", err, cfgBefore, g)
	}
	// the unedited file still loads
	h.Must(os.WriteFile(path, good, 0644))
	if found, err := or.LoadFromJson(); err != nil || !found {
		return fmt.Errorf("the oracle's own state is refused: %v %v", found, err)
	}
	if !bytes.Equal(orig, sim.PlainJSON(or)) {
		return fmt.Errorf("the loaded state is not the saved one")
	}
	return nil
}

type foreign struct {
	S    *sim.Scn
	Kind int
	X    int
}

func runForeign(c *foreign, st *h.Stats) error {
	defer freshFolder()()
	s := c.S
	tp := s.Tape()
	saver, _ := s.NewOracle()
	or, cfg := s.NewOracle()
	for pos := 0; pos < tp.Len(); pos++ {
		if err := tp.Feed(saver, pos); err != nil {
			return err
		}
	}
	x := saver.State()
	accept, skip := false, false
	one := uint64(1 + c.X)
	switch c.Kind {
	case 0:
		x.Network = map[string]string{"mainnet": "hoodi", "hoodi": "holesky", "holesky": "mainnet"}[x.Network]
	case 1:
		x.PoolAddress = sim.Addr(sim.AccContr).String()
	case 2:
		x.PoolFeesAddress = sim.Addr(sim.AccContr).String()
	case 3:
		x.PoolFeesPercentOver10000 = []int{x.PoolFeesPercentOver10000 + 1, 500, 0}[c.X]
		n := s.N()
		past := n.FeeSlot != 0 && x.LatestProcessedSlot >= n.FeeSlot
		switch {
		case past && x.PoolFeesPercentOver10000 == n.FeeValue:
			accept = true
		case x.PoolFeesPercentOver10000 == s.Fee:
			accept, skip = true, past
		}
	case 4:
		x.CollateralInWei = new(big.Int).Add(x.CollateralInWei, big.NewInt(int64(one)))
	case 5:
		x.CheckPointSizeInSlots += one
	case 6:
		x.DeployedBlock += one
	case 7:
		x.DeployedSlot -= one
	case 8:
		accept = true
	}
	if skip {
		return nil
	}
	st.Class("kind:%d accept:%v", c.Kind, accept)
	if !accept {
		st.NT()
	}
	h.Must(saver.SaveToJson(true))
	want := sim.PlainJSON(saver)
	before, cfgBefore := sim.PlainJSON(or), fmt.Sprintf("%+v", *cfg)
	slot := saver.State().LatestProcessedSlot
	for i, f := range []func() (bool, error){
		or.LoadFromJson,
		func() (bool, error) { return or.LoadGivenState(slot) },
		func() (bool, error) {
			b, err := os.ReadFile(filepath.Join(oracle.StateFolder, oracle.StateJsonName))
			h.Must(err)
			return or.LoadFromBytes(b)
		},
	} {
		found, err := f()
		if accept {
			if err != nil || !found {
				return fmt.Errorf("a state of the same configuration is refused (%d): %v %v", i, found, err)
			}
			if !bytes.Equal(want, sim.PlainJSON(or)) {
				return fmt.Errorf("the loaded state is not the saved one (%d)", i)
			}
			if cfg.PoolFeesPercentOver10000 != x.PoolFeesPercentOver10000 {
				return fmt.Errorf("configured fee %d after loading a state with %d", cfg.PoolFeesPercentOver10000, x.PoolFeesPercentOver10000)
			}
			continue
		}
		if err == nil || found {
			return fmt.Errorf("a state of another configuration (kind %d) is accepted (%d): %v %v", c.Kind, i, found, err)
		}
		if !bytes.Equal(before, sim.PlainJSON(or)) {
			return fmt.Errorf("a refused load (%v) changed the state", err)
		}
		if g := fmt.Sprintf("%+v", *cfg); g != cfgBefore {
			return fmt.Errorf("a refused load (%v) changed the configuration: %s to %s", err, cfgBefore, g)
		}
	}
	return nil
}
