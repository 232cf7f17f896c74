package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/dappnode/mev-sp-oracle/api"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"

	"pgregory.net/rapid"
	"verifharness/fakes"
	"verifharness/h"
	"verifharness/sim"
)

// The oracle's own HTTP server, one per process; what it serves is replaced for every case.
type server struct {
	svc  *api.ApiService
	cfg  *oracle.Config
	cli  *config.CliConfig
	or   *oracle.Oracle
	addr string

	fatals, panics int64
}

var theServer *server
var client = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConns: 4, DisableCompression: true},
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}

// freeAddr is a local address nobody else uses.
func freeAddr() string {
	pid := os.Getpid()
	for i := 0; i < 50; i++ {
		a := fmt.Sprintf("127.%d.%d.%d:%d", 1+(pid>>16)%200, (pid>>8)&255, 1+pid&255%254, 21000+i)
		if i >= 25 {
			a = fmt.Sprintf("127.0.0.1:%d", 15000+(pid*7+i*131)%15000)
		}
		if l, err := net.Listen("tcp", a); err == nil {
			l.Close()
			return a
		}
	}
	panic(h.Infra{Err: fmt.Errorf("no free local address")})
}

// serve makes the server serve the scenario's initial state, connected to the nodes of w.
func serve(s *sim.Scn, w *fakes.World) *server {
	o := onchain(w)
	if theServer == nil {
		v := &server{cfg: s.Cfg(), cli: &config.CliConfig{}, addr: freeAddr()}
		v.or = oracle.NewOracle(v.cfg)
		v.svc = api.NewApiService(v.cfg, v.cli, v.or, o)
		v.svc.ApiListenAddr = v.addr
		failed := make(chan any, 1)
		go func() {
			defer func() { failed <- recover() }()
			v.svc.StartHTTPServer()
		}()
		for i := 0; ; i++ {
			c, err := net.Dial("tcp", v.addr)
			if err == nil {
				c.Close()
				break
			}
			select {
			case r := <-failed:
				panic(h.Infra{Err: fmt.Errorf("the server did not start: %v", r)})
			case <-time.After(5 * time.Millisecond):
			}
			if i > 2000 {
				panic(h.Infra{Err: fmt.Errorf("the server does not listen: %v", err)})
			}
		}
		theServer = v
	}
	v := theServer
	v.svc.Onchain = o
	*v.cfg = *s.Cfg()
	fresh, _ := s.NewOracleCfg(v.cfg)
	reflect.ValueOf(v.or).Elem().Set(reflect.ValueOf(fresh).Elem())
	v.cli.RelayersEndpoints = nil
	v.fatals, v.panics = h.Fatals(), serverLog.panics.Load()
	return v
}

// healthy says whether any request since the case began would have ended the process or a handler.
func (v *server) healthy() error {
	if h.Fatals() != v.fatals {
		return fmt.Errorf("a request ended the process (log.Fatal)")
	}
	if serverLog.panics.Load() != v.panics {
		return fmt.Errorf("a request made its handler panic")
	}
	return nil
}

// serverLog sees what the HTTP server logs about handlers that panic.
var serverLog panicLog

type panicLog struct{ panics atomic.Int64 }

func (l *panicLog) Write(b []byte) (int, error) {
	if bytes.Contains(b, []byte("panic")) {
		l.panics.Add(1)
	}
	return len(b), nil
}

func init() { log.SetOutput(&serverLog) }

type reply struct {
	code int
	body []byte
}

func (r *reply) isErr() bool { return r.code >= 400 }

// get asks the server; an error means that no answer came.
func (v *server) get(path string) (*reply, error) {
	resp, err := client.Get("http://" + v.addr + path)
	if err != nil {
		return nil, fmt.Errorf("GET %s: the request failed: %v", path, err)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, fmt.Errorf("GET %s: %v", path, err)
	}
	return &reply{resp.StatusCode, b}, nil
}

func (v *server) getJSON(path string) (*reply, any, error) {
	r, err := v.get(path)
	if err != nil {
		return nil, nil, err
	}
	x, err := parse(r.body)
	if err != nil {
		return nil, nil, fmt.Errorf("GET %s: %d %q: %v", path, r.code, cut(r.body), err)
	}
	return r, x, nil
}

func cut(b []byte) string {
	if len(b) > 600 {
		return string(b[:600]) + "..."
	}
	return string(b)
}

func parse(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x any
	err := d.Decode(&x)
	return x, err
}

func norm(v any) any {
	x, err := parse([]byte(asJSON(v)))
	h.Must(err)
	return x
}

type J = map[string]any

// covers: got says everything want says (addresses and keys in any letter case, null for an empty list).
func covers(want, got any) string {
	switch x := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			return fmt.Sprintf("%v, expected an object", got)
		}
		for k, y := range x {
			z, ok := g[k]
			if !ok {
				return fmt.Sprintf("no %q", k)
			}
			if why := covers(y, z); why != "" {
				return k + ": " + why
			}
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok && got != nil {
			return fmt.Sprintf("%v, expected a list", got)
		}
		if len(g) != len(x) {
			return fmt.Sprintf("%d items, expected %d", len(g), len(x))
		}
		for i := range x {
			if why := covers(x[i], g[i]); why != "" {
				return fmt.Sprintf("item %d: %s", i, why)
			}
		}
		return ""
	case string:
		g, ok := got.(string)
		if ok && (g == x || strings.HasPrefix(x, "0x") && strings.EqualFold(g, x)) {
			return ""
		}
	case json.Number:
		g, ok := got.(json.Number)
		if ok && g == x {
			return ""
		}
	default:
		if reflect.DeepEqual(want, got) {
			return ""
		}
	}
	return fmt.Sprintf("%v, expected %v", got, want)
}

var statusName = map[int]string{sim.Active: "active", sim.Yellow: "yellowcard", sim.Red: "redcard", sim.NotSubscribed: "notsubscribed", sim.Banned: "banned"}
var subName = map[int]string{0: "manual", 1: "auto"}
var typeName = map[int]string{sim.TMissed: "missedproposal", sim.TWrong: "wrongfeerecipient", sim.TOk: "okpoolproposal", sim.TOkBls: "okpoolproposalblskeys", 0: "unknownblocktype"}
var rtypeName = map[int]string{sim.RNone: "unknownrewardtype", sim.RVanilla: "vanila", sim.RMev: "mev"}

func infoOf(w *fakes.World, v *sim.MV) (J, bool) {
	b := w.Snap(v.Idx)
	if b == nil {
		return nil, false
	}
	return J{"status": statusName[v.Status], "beacon_status": b.Status.String(), "beacon_balance_gwei": fmt.Sprint(uint64(b.Balance)),
		"beacon_effective_balance_gwei": fmt.Sprint(uint64(b.Validator.EffectiveBalance)), "accumulated_rewards_wei": v.Acc.String(),
		"pending_rewards_wei": v.Pend.String(), "collateral_wei": v.Col.String(), "withdrawal_address": v.Wd, "validator_index": v.Idx,
		"validator_key": v.Key, "subscription_type": subName[v.Sub]}, true
}

func blockOf(r sim.Rec) J {
	rw := "0"
	if r.Reward != nil {
		rw = r.Reward.String()
	}
	return J{"slot": r.Slot, "block": r.Block, "validator_index": r.Idx, "validator_key": r.Key, "block_type": typeName[r.Type], "reward_wei": rw,
		"reward_type": rtypeName[r.RType], "withdrawal_address": r.Wd}
}

func sorted(m map[uint64]*sim.MV) []*sim.MV {
	var l []*sim.MV
	for _, v := range m {
		l = append(l, v)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Idx < l[j].Idx })
	return l
}

// Old is history from before the scenario.
type Old struct {
	Ago    uint64 // slots (or blocks) before the first one
	Type   int
	Amt    string
	RType  int
	V      int
	Miss   bool
	Donate bool
}

type MemCase struct {
	S     *sim.Scn
	Snap  int
	Old   []Old
	Lag   uint64
	Head  uint64 // blocks of the head beyond the processed ones: not used by these endpoints
	Every int    // ask after every n-th step
	Idxs  [][]uint64
	Fault []fakes.Fault
	Last  uint64 // slots from the last consolidated one to the finalized one
	Sync  bool
	Dist  uint64
}

const month = 216000

func genMem(t *rapid.T) *MemCase {
	c := &MemCase{S: sim.Gen(t, with(func(p *sim.Profile) {
		p.MaxSteps = 8
		p.MaxGap = 3
		if sim.Pct(t, 15, "clean") {
			p.Cleanup = true
			p.MaxSteps = 4
		}
	}))}
	c.Snap = sim.Of(t, "snap", 100, 100, 70, 30, 12, 1)
	for i := sim.U(t, 5, "nold"); i > 0; i-- {
		c.Old = append(c.Old, Old{Ago: sim.Of(t, "ago", uint64(month), month-1, month+1, month-3, month-2, month-4, 2*month, 1, 40000), Type: sim.Of(t, "otype", sim.TOk, sim.TOk, sim.TOk, sim.TOkBls, sim.TWrong),
			Amt: sim.Wei(t, "oamt", 0), RType: 1 + sim.U(t, 2, "ort"), V: sim.U(t, len(c.S.Vals), "ov"), Donate: sim.Pct(t, 40, "odon")})
	}
	c.Lag = sim.Of(t, "lag", uint64(0), 0, 1, 31, 63, 64, 65, 100, 5000)
	c.Every = 1 + sim.U(t, 5, "every")
	for i := 1 + sim.U(t, 3, "nreq"); i > 0; i-- {
		var l []uint64
		for j := 1 + sim.U(t, 6, "nidx"); j > 0; j-- {
			l = append(l, genIdx(t, c.S))
		}
		c.Idxs = append(c.Idxs, l)
	}
	c.Last = uint64(sim.U(t, 10000, "last"))
	c.Sync = sim.Pct(t, 20, "execsync")
	c.Dist = sim.Of(t, "dist", uint64(0), 0, 1, 2, 50)
	return c
}

func genIdx(t *rapid.T, s *sim.Scn) uint64 {
	if sim.Pct(t, 70, "known") {
		return s.Vals[sim.U(t, len(s.Vals), "iv")].Idx
	}
	return sim.Of(t, "iraw", uint64(0), 5, 200, 1<<33, 1<<64-1, 1<<63)
}

// age adds the history from before the scenario.
func (c *MemCase) age(or *oracle.Oracle) {
	st := or.State()
	for _, o := range c.Old {
		v := &c.S.Vals[o.V]
		slot := sub(c.S.FirstSlot(), o.Ago)
		blk := sub(c.S.Block0, o.Ago)
		if o.Donate {
			e := &contract.ContractEtherReceived{Sender: sim.Addr(sim.AccOther), DonationAmount: sim.B(o.Amt), Raw: types.Log{Address: sim.Addr(sim.AccPool), BlockNumber: blk, Data: []byte{}, Topics: []common.Hash{{1}}}}
			st.Donations = append(st.Donations, e)
			st.EtherReceivedEvents = append(st.EtherReceivedEvents, e)
			continue
		}
		b := oracle.SummarizedBlock{Slot: slot, Block: blk, ValidatorIndex: v.Idx, ValidatorKey: sim.PubKeyHex(v.Idx), BlockType: oracle.BlockType(o.Type),
			Reward: sim.B(o.Amt), RewardType: oracle.RewardType(o.RType), WithdrawalAddress: sim.Low(v.Addr)}
		if o.Type == sim.TWrong {
			st.WrongFeeBlocks = append(st.WrongFeeBlocks, b)
		} else {
			st.ProposedBlocks = append(st.ProposedBlocks, b)
		}
	}
}

func sub(a, b uint64) uint64 {
	if a < b {
		return 0
	}
	return a - b
}

// ask compares all answers about the state with the state.
func (c *MemCase) ask(v *server, w *fakes.World, s *sim.Scn, st *h.Stats) error {
	m := sim.Extract(v.or.State())
	before := sim.PlainJSON(v.or)
	cfg := *v.cfg
	w.Lock()
	w.Finalized = m.Slot + c.Lag
	w.Contract.LastSlot = sub(w.Finalized, c.Last)
	w.Unlock()
	ready := c.Lag <= 64
	same := func(path string, want any) error {
		r, got, err := v.getJSON(path)
		if err != nil {
			return err
		}
		st.Eval(1)
		if r.code != 200 {
			return fmt.Errorf("GET %s: %d %s", path, r.code, cut(r.body))
		}
		if why := covers(norm(want), got); why != "" {
			return fmt.Errorf("GET %s: %s\nanswer %s", path, why, cut(r.body))
		}
		return nil
	}
	when := func(ok bool, path string, want any) error {
		if ok {
			return same(path, want)
		}
		r, err := v.get(path)
		if err == nil && !r.isErr() {
			err = fmt.Errorf("GET %s: %d %s, expected an error (%d slots behind)", path, r.code, cut(r.body), c.Lag)
		}
		return err
	}
	var all []J
	for _, x := range sorted(m.Vals) {
		if i, ok := infoOf(w, x); ok {
			all = append(all, i)
		}
	}
	errs := []error{when(ready, "/memory/validators", list(all))}
	for _, l := range c.Idxs {
		for _, i := range l {
			x := m.Vals[i]
			var want J
			if x != nil {
				want = J{"status": statusName[x.Status], "accumulated_rewards_wei": num(x.Acc), "pending_rewards_wei": num(x.Pend), "collateral_wei": num(x.Col),
					"withdrawal_address": x.Wd, "validator_index": x.Idx, "validator_key": x.Key, "subscription_type": subName[x.Sub]}
			}
			errs = append(errs, when(ready && x != nil, fmt.Sprintf("/memory/validator/%d", i), want))
		}
		var found []J
		var not []uint64
		var ss []string
		for _, i := range l {
			ss = append(ss, fmt.Sprint(i))
			x := m.Vals[i]
			if x == nil {
				not = append(not, i)
			} else if y, ok := infoOf(w, x); ok {
				found = append(found, y)
			}
		}
		errs = append(errs, same("/memory/validatorsbyindex/"+strings.Join(ss, ","), J{"found_validators": list(found), "not_found_validators": list(not)}))
	}
	blocks := func(rs []sim.Rec) []J {
		var l []J
		for _, r := range rs {
			l = append(l, blockOf(r))
		}
		return l
	}
	var dons []J
	for _, d := range m.Don {
		dons = append(dons, J{"amount_wei": d.Amt, "block_number": d.Block, "tx_hash": d.Tx, "sender": d.Sender})
	}
	pr, mi, wr := blocks(m.Proposed), blocks(m.Missed), blocks(m.Wrong)
	errs = append(errs,
		same("/memory/feesinfo", J{"pool_fee_percent": m.FeePct, "pool_fee_address": v.or.State().PoolFeesAddress, "pool_accumulated_fees": m.Fees.String()}),
		same("/memory/proposedblocks", list(pr)), same("/memory/missedblocks", list(mi)), same("/memory/wrongfeeblocks", list(wr)),
		same("/memory/donations", list(dons)),
		multiset(v, "/memory/allblocks", append(append(append([]J{}, pr...), mi...), wr...)),
		same("/config", J{"network": s.Net, "pool_address": cfg.PoolAddress, "deployed_slot": cfg.DeployedSlot, "checkpoint_size": cfg.CheckPointSizeInSlots,
			"pool_fees_percent": cfg.PoolFeesPercentOver10000, "pool_fees_address": cfg.PoolFeesAddress, "dry_run": cfg.DryRun, "collateral_in_wei": cfg.CollateralInWei.String()}),
		when(ready && m.Slot >= month && m.Block >= month, "/memory/statistics", c.statistics(m, w, v)),
		c.state(v, before), c.status(v, w, m))
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	if after := sim.PlainJSON(v.or); !bytes.Equal(before, after) {
		return fmt.Errorf("the requests changed the state:\nbefore %s\nafter  %s", before, after)
	}
	if fmt.Sprintf("%+v", cfg) != fmt.Sprintf("%+v", *v.cfg) {
		return fmt.Errorf("the requests changed the configuration: %+v to %+v", cfg, *v.cfg)
	}
	if ready && len(all) > 0 && len(pr)+len(mi)+len(wr) > 0 && m.Slot >= month && m.Block >= month {
		st.NT()
	}
	if len(all) < len(m.Vals) {
		st.Class("validator not in the snapshot")
	}
	return nil
}

func num(x *big.Int) json.Number { return json.Number(x.String()) }

func list[T any](l []T) []T {
	if l == nil {
		return []T{}
	}
	return l
}

func multiset(v *server, path string, want []J) error {
	r, got, err := v.getJSON(path)
	if err != nil {
		return err
	}
	l, ok := got.([]any)
	if r.code != 200 || !ok || len(l) != len(want) {
		return fmt.Errorf("GET %s: %d %s, expected %d blocks", path, r.code, cut(r.body), len(want))
	}
	used := make([]bool, len(l))
next:
	for _, x := range want {
		n := norm(x)
		for i := range l {
			if !used[i] && covers(n, l[i]) == "" {
				used[i] = true
				continue next
			}
		}
		return fmt.Errorf("GET %s: no %s in %s", path, asJSON(x), cut(r.body))
	}
	return nil
}

func (c *MemCase) statistics(m *sim.MS, w *fakes.World, v *server) J {
	n := map[int]int{}
	acc, pend, eff := new(big.Int), new(big.Int), uint64(0)
	for _, x := range m.Vals {
		n[x.Status]++
		acc.Add(acc, x.Acc)
		pend.Add(pend, x.Pend)
		if x.Status == sim.Active || x.Status == sim.Yellow || x.Status == sim.Red {
			if b := w.Snap(x.Idx); b != nil {
				eff += uint64(b.Validator.EffectiveBalance)
			}
		}
	}
	sent, recent, don := new(big.Int), new(big.Int), new(big.Int)
	ok := int64(0)
	for _, r := range m.Proposed {
		if r.Type != sim.TOk {
			continue
		}
		ok++
		sent.Add(sent, r.Reward)
		if r.Slot+month > m.Slot {
			recent.Add(recent, r.Reward)
		}
	}
	for _, d := range m.Don {
		a := sim.B(d.Amt)
		don.Add(don, a)
		sent.Add(sent, a)
		if d.Block+month > m.Block {
			recent.Add(recent, a)
		}
	}
	div := func(a *big.Int, k int64) string {
		if k == 0 {
			return "0"
		}
		return new(big.Int).Div(a, big.NewInt(k)).String()
	}
	subs := n[sim.Active] + n[sim.Yellow] + n[sim.Red]
	return J{"total_subscribed_validators": subs, "total_active_validators": n[sim.Active], "total_yellowcard_validators": n[sim.Yellow],
		"total_redcard_validators": n[sim.Red], "total_banned_validators": n[sim.Banned], "total_notsubscribed_validators": n[sim.NotSubscribed],
		"latest_checkpoint_slot": m.Slot, "next_checkpoint_slot": m.Slot + v.cfg.CheckPointSizeInSlots,
		"total_accumulated_rewards_wei": acc.String(), "total_pending_rewards_wei": pend.String(), "total_rewards_sent_wei": sent.String(),
		"total_rewards_sent_30days_wei": recent.String(), "rewards_per_validator_per_30days_wei": div(recent, int64(n[sim.Active]+n[sim.Yellow])),
		"total_donations_wei": don.String(), "avg_block_reward_wei": div(sent, ok), "total_proposed_blocks": len(m.Proposed),
		"total_missed_blocks": len(m.Missed), "total_wrongfee_blocks": len(m.Wrong), "total_effective_balance_gwei": fmt.Sprint(eff),
		"avg_effective_balance_gwei": div(new(big.Int).SetUint64(eff), int64(subs))}
}

func (c *MemCase) state(v *server, plain []byte) error {
	r, got, err := v.getJSON("/state")
	if err != nil {
		return err
	}
	want, err := parse(plain)
	h.Must(err)
	wm, gm := want.(J), got
	g, ok := gm.(J)
	if r.code != 200 || !ok {
		return fmt.Errorf("GET /state: %d %s", r.code, cut(r.body))
	}
	hash := ""
	for k, x := range wm {
		if x == "" && strings.Contains(strings.ToLower(k), "hash") {
			hash, _ = g[k].(string)
			delete(g, k)
			delete(wm, k)
		}
	}
	if hash != sim.HashOf(plain) {
		return fmt.Errorf("GET /state: hash %q, expected %s", hash, sim.HashOf(plain))
	}
	if !reflect.DeepEqual(wm, g) {
		return fmt.Errorf("GET /state: %s, expected %s", cut(r.body), cut(plain))
	}
	return nil
}

func (c *MemCase) status(v *server, w *fakes.World, m *sim.MS) error {
	n := w.S.N()
	last := w.Contract.LastSlot
	rem := sub(last+v.cfg.CheckPointSizeInSlots, w.Finalized)
	want := J{"is_consensus_in_sync": c.Dist < 2, "is_execution_in_sync": !c.Sync, "is_oracle_in_sync": c.Lag == 0, "latest_processed_slot": m.Slot,
		"latest_processed_block": m.Block, "latest_finalized_epoch": w.Finalized / 32, "latest_finalized_slot": w.Finalized, "oracle_sync_distance_slots": c.Lag,
		"next_checkpoint_slot": last + v.cfg.CheckPointSizeInSlots, "next_checkpoint_remaining_unix": rem * 12, "previous_checkpoint_slot": last,
		"previous_checkpoint_age_unix": (w.Finalized - last) * 12, "consensus_chainid": fmt.Sprint(n.ChainId), "execution_chainid": fmt.Sprint(n.ChainId),
		"depositcontract": "0x00000000219ab540356cbb839cbe05303d7705fa"}
	r, got, err := v.getJSON("/status")
	if err != nil {
		return err
	}
	if r.code != 200 {
		return fmt.Errorf("GET /status: %d %s", r.code, cut(r.body))
	}
	if why := covers(norm(want), got); why != "" {
		return fmt.Errorf("GET /status: %s\nanswer %s", why, cut(r.body))
	}
	return nil
}

// apiWorld is a node that knows the validators of the scenario.
func apiWorld(s *sim.Scn, snap int, snapSlot uint64) *fakes.World {
	w := fakes.NewWorld(s)
	w.Snapshot, w.SnapSlot = snap, snapSlot
	return w
}

func init() {
	h.Add("C21", "memory", "an oracle that is ready, more than a month old, with validators in the beacon snapshot and recorded blocks", 2600, 150000, genMem,
		func(c *MemCase, st *h.Stats) error {
			s := c.S
			w := apiWorld(s, c.Snap, s.FirstSlot())
			w.Distance, w.ExecSyncing = c.Dist, c.Sync
			v := serve(s, w)
			v.svc.Onchain.RefreshBeaconValidators()
			c.age(v.or)
			p := s.PlayOn(v.or, v.cfg)
			p.I = 0
			n := 0
			if s.Start != 0 {
				if err := c.ask(v, w, s, st); err != nil {
					return err
				}
			}
			for p.More() {
				for i := 0; i < s.Steps[p.I].Gap; i++ {
					if err := p.Skip(); err != nil {
						return nil // not this property
					}
				}
				if _, err := p.Step(); err != nil {
					return nil
				}
				if n++; n%c.Every == 0 || !p.More() {
					if err := c.ask(v, w, s, st); err != nil {
						return err
					}
				}
			}
			return nil
		})
	h.Add("C21", "node-fails", "an endpoint whose answer needs the node, while it fails", 1500, 50000,
		func(t *rapid.T) *MemCase {
			c := genMem(t)
			k := sim.Of(t, "class", "finalized", "eth_chainId", "config", "eth_syncing", "syncing", "call:lastConsolidatedSlot", "call:rewardsRoot")
			c.Fault = []fakes.Fault{{Class: k, Times: -1, Mode: genMode(t, k, false)}}
			c.Lag = uint64(sim.U(t, 64, "lag2"))
			return c
		},
		func(c *MemCase, st *h.Stats) error {
			s := c.S
			w := apiWorld(s, c.Snap, s.FirstSlot())
			v := serve(s, w)
			v.svc.Onchain.RefreshBeaconValidators()
			c.age(v.or)
			m := sim.Extract(v.or.State())
			w.Finalized = m.Slot + c.Lag
			before := sim.PlainJSON(v.or)
			for _, path := range []string{"/status", "/memory/validators", "/memory/statistics", "/memory/validator/" + strconv.FormatUint(s.Vals[0].Idx, 10),
				"/memory/validators/" + sim.Low(s.Vals[0].Addr), "/onchain/proof/" + sim.Low(s.Vals[0].Addr)} {
				w.Lock()
				w.Hit = 0
				w.Faults = append([]fakes.Fault(nil), c.Fault...)
				w.Unlock()
				r, err := v.get(path)
				if err != nil {
					return err
				}
				w.Lock()
				hit := w.Hit
				w.Unlock()
				if hit > 0 {
					st.Class("%s %s mode %d", path[:7], c.Fault[0].Class, c.Fault[0].Mode)
					st.NT()
					if !r.isErr() {
						return fmt.Errorf("GET %s while %s fails (mode %d): %d %s, expected an error", path, c.Fault[0].Class, c.Fault[0].Mode, r.code, cut(r.body))
					}
				}
			}
			for _, path := range []string{"/memory/feesinfo", "/memory/allblocks", "/memory/proposedblocks", "/memory/missedblocks", "/memory/wrongfeeblocks", "/memory/donations", "/config", "/state",
				"/memory/validatorsbyindex/1"} {
				if r, err := v.get(path); err != nil || r.code != 200 {
					return fmt.Errorf("GET %s: %v %v", path, r, err)
				}
			}
			if after := sim.PlainJSON(v.or); !bytes.Equal(before, after) {
				return fmt.Errorf("the requests changed the state")
			}
			return nil
		})
}

// ProofCase: checkpoints frozen after some steps, then the contract's root and the requests.
type ProofCase struct {
	S      *sim.Scn
	Freeze int // freeze after every n-th step
	Snap   int
	Asks   []ProofAsk
}

type ProofAsk struct {
	Which   int    // checkpoint (modulo)
	Root    string // own, other, zero, flipped, unknown-slot, shifted
	Addr    int    // index in the leaves (modulo), or beyond: other accounts
	Foreign string // an address nobody knows
	Case    int
	Claimed string
	Exact   bool // everything was claimed
	Lag     uint64
	Fault   []fakes.Fault
	More    int // steps processed before this request
}

func init() {
	h.Add("C20", "proofs", "a proof served for a non-zero balance from a tree with three or more leaves, or from a checkpoint that is not the latest state", 6000, 250000,
		func(t *rapid.T) *ProofCase {
			c := &ProofCase{S: sim.Gen(t, with(func(p *sim.Profile) {
				p.MaxSteps = 8
				p.MaxVals = 8
				p.Ckpt = []uint64{1, 1, 2, 3}
				p.WOk = 10
				p.MaxGap = 3
			})), Freeze: 1 + sim.U(t, 3, "freeze"), Snap: sim.Of(t, "snap", 100, 30)}
			for i := 1 + sim.U(t, 6, "nasks"); i > 0; i-- {
				a := ProofAsk{Which: sim.U(t, 8, "which"), Root: sim.Of(t, "root", "own", "own", "own", "own", "own", "other", "zero", "flipped", "unknown-slot", "shifted"),
					Addr: sim.U(t, 12, "addr"), Case: sim.U(t, 3, "case"), Claimed: sim.Wei(t, "claimed", 0), Exact: sim.Pct(t, 20, "exact"), Lag: sim.Of(t, "lag", uint64(0), 0, 5, 63, 64, 65, 200, 1<<40),
					More: sim.U(t, 4, "more")}
				if sim.Pct(t, 15, "foreign") {
					a.Foreign = "0x" + sim.GenAddr(t, "faddr")
				}
				if sim.Pct(t, 15, "fault") {
					k := sim.Of(t, "class", "finalized", "call:lastConsolidatedSlot", "call:rewardsRoot", "call:claimedBalance")
					a.Fault = []fakes.Fault{{Class: k, Times: -1, Mode: genMode(t, k, false)}}
				}
				c.Asks = append(c.Asks, a)
			}
			return c
		},
		func(c *ProofCase, st *h.Stats) error {
			s := c.S
			w := apiWorld(s, c.Snap, s.FirstSlot())
			v := serve(s, w)
			p := s.PlayOn(v.or, v.cfg)
			var cks []frozen
			n := 0
			freeze := func() error {
				if v.or.State().LatestProcessedSlot < s.Slot0 {
					return nil
				}
				m := sim.Extract(v.or.State())
				fee := v.or.State().PoolFeesAddress
				if is, err := v.or.IsCheckpoint(); err != nil || !is {
					return nil
				}
				if !v.or.FreezeCheckpoint() {
					return nil
				}
				ls := sim.Leaves(m, fee)
				cks = append(cks, frozen{m, ls, sim.Root(ls)})
				return nil
			}
			step := func() bool {
				if !p.More() {
					return false
				}
				for i := 0; i < s.Steps[p.I].Gap; i++ {
					if p.Skip() != nil {
						return false
					}
				}
				if _, err := p.Step(); err != nil {
					p.I = len(s.Steps)
					return false
				}
				if n++; n%c.Freeze == 0 {
					return freeze() == nil
				}
				return true
			}
			for len(cks) == 0 && step() {
			}
			if len(cks) == 0 {
				return nil
			}
			for _, a := range c.Asks {
				for i := 0; i < a.More; i++ {
					step()
				}
				if err := a.ask(v, w, cks, st); err != nil {
					return err
				}
			}
			return nil
		})
}

type frozen struct {
	m    *sim.MS
	ls   []sim.Leaf
	root string
}

func (a *ProofAsk) ask(v *server, w *fakes.World, cks []frozen, st *h.Stats) error {
	k := cks[a.Which%len(cks)]
	addr := a.Foreign
	var leaf *sim.Leaf
	if addr == "" {
		if a.Addr < len(k.ls)+2 {
			i := a.Addr % (len(k.ls) + 2)
			if i < len(k.ls) {
				addr = k.ls[i].Addr
			} else {
				addr = sim.Low(sim.AccWd0 + i - len(k.ls))
			}
		} else {
			addr = k.ls[a.Addr%len(k.ls)].Addr
		}
	}
	addr = strings.ToLower(addr)
	for i := range k.ls {
		if k.ls[i].Addr == addr {
			leaf = &k.ls[i]
		}
	}
	asked := "0x" + addr[2:]
	switch a.Case {
	case 1:
		asked = "0x" + strings.ToUpper(addr[2:])
	case 2:
		asked = common.HexToAddress(addr).String()
	}
	claimed := sim.B(a.Claimed)
	if a.Exact && leaf != nil {
		claimed = leaf.Bal
	}
	root := common.HexToHash(k.root)
	slot := k.m.Slot
	good := true
	switch a.Root {
	case "other":
		root = common.HexToHash(cks[(a.Which+1)%len(cks)].root)
		good = root == common.HexToHash(k.root)
	case "zero":
		root = common.Hash{}
		good = false
	case "flipped":
		root[a.Addr*2%32] ^= 1
		good = false
	case "unknown-slot", "shifted":
		slot += uint64(1 + a.Addr)
		if a.Root == "shifted" {
			slot = sub(k.m.Slot, uint64(1+a.Addr))
		}
		good = false
		for _, o := range cks {
			if o.m.Slot == slot {
				if common.HexToHash(o.root) == root {
					k, good = o, true
					leaf = nil
					for i := range k.ls {
						if k.ls[i].Addr == addr {
							leaf = &k.ls[i]
						}
					}
				}
			}
		}
	}
	now := v.or.State().LatestProcessedSlot
	w.Lock()
	w.Contract.Root, w.Contract.LastSlot = root, slot
	w.Contract.Claimed = map[common.Address]*big.Int{common.HexToAddress(addr): claimed, sim.Addr(sim.AccContr): big.NewInt(99)}
	w.Finalized = now + a.Lag
	w.Faults = append([]fakes.Fault(nil), a.Fault...)
	w.Hit = 0
	w.Unlock()
	before := sim.PlainJSON(v.or)
	r, got, err := v.getJSON("/onchain/proof/" + asked)
	if err != nil {
		return err
	}
	st.Eval(1)
	w.Lock()
	hit := w.Hit
	w.Unlock()
	if after := sim.PlainJSON(v.or); !bytes.Equal(before, after) {
		return fmt.Errorf("the request changed the state")
	}
	if !good || a.Lag > 64 || hit > 0 || leaf == nil {
		st.Class("refused: root %v lag %v node %v unknown %v", good, a.Lag > 64, hit > 0, leaf == nil)
		if !r.isErr() {
			return fmt.Errorf("%s for %s, contract root %s (%s) slot %d, %d behind, fault %v: %d %s, expected an error", "a proof", asked, root, a.Root, slot, a.Lag, a.Fault, r.code, cut(r.body))
		}
		return nil
	}
	if r.code != 200 {
		return fmt.Errorf("no proof for %s at slot %d: %d %s", asked, slot, r.code, cut(r.body))
	}
	pend := new(big.Int)
	var regs []uint64
	for _, x := range sorted(k.m.Vals) {
		if x.Wd == addr {
			pend.Add(pend, x.Pend)
			regs = append(regs, x.Idx)
		}
	}
	g, ok := got.(J)
	if !ok {
		return fmt.Errorf("answer %s", cut(r.body))
	}
	if l, ok := g["registered_validators"].([]any); ok {
		sort.Slice(l, func(i, j int) bool {
			x, y := sim.B(fmt.Sprint(l[i])), sim.B(fmt.Sprint(l[j]))
			return x.Cmp(y) < 0
		})
	}
	want := J{"leaf_withdrawal_address": addr, "leaf_accumulated_balance": leaf.Bal.String(), "merkleroot": k.root, "checkpoint_slot": k.m.Slot,
		"registered_validators": list(regs), "total_accumulated_rewards_wei": leaf.Bal.String(), "already_claimed_rewards_wei": claimed.String(),
		"claimable_rewards_wei": new(big.Int).Sub(leaf.Bal, claimed).String(), "pending_rewards_wei": pend.String()}
	if why := covers(norm(want), got); why != "" {
		return fmt.Errorf("proof for %s: %s\nanswer %s", asked, why, cut(r.body))
	}
	var proof []string
	l, _ := g["merkle_proofs"].([]any)
	for _, x := range l {
		proof = append(proof, fmt.Sprint(x))
	}
	if !sim.Verifies(root.String(), proof, *leaf) {
		return fmt.Errorf("the proof of %s does not verify against the contract's root %s: %s", asked, root, cut(r.body))
	}
	st.Class("served")
	if k.m.Slot != now {
		st.Class("served for an earlier slot")
	}
	if leaf.Bal.Sign() > 0 && (len(k.ls) > 2 || k.m.Slot != now) {
		st.NT()
	}
	return nil
}

// PreCase: the steps from Cut on are not finalized; the nodes' head is after step Head.
type PreCase struct {
	S         *sim.Scn
	Cut, Head int
	Snap      int
	Lag       uint64
	Fault     []fakes.Fault
	Case      int
	Again     bool
}

func init() {
	h.Add("C23", "preview", "a not yet finalized event that changes a validator of the address asked for", 6000, 250000,
		func(t *rapid.T) *PreCase {
			s := sim.Gen(t, with(func(p *sim.Profile) {
				p.MaxSteps = 10
				p.Sub = 70
				p.Unsub = 50
				p.MaxGap = 3
				p.MaxVals = 5
			}))
			c := &PreCase{S: s, Snap: sim.Of(t, "snap", 100, 100, 100, 30, 2), Case: sim.U(t, 3, "case"), Again: sim.Pct(t, 20, "again")}
			c.Cut = sim.U(t, len(s.Steps), "cut")
			if c.Cut == 0 && s.Start == 0 {
				c.Cut = 1
			}
			c.Head = c.Cut + sim.U(t, len(s.Steps)-c.Cut+1, "head")
			if sim.Pct(t, 60, "all") {
				c.Head = len(s.Steps)
			}
			if sim.Pct(t, 10, "quiet") { // the chain takes long to finalize, most blocks have nothing for the pool
				for k := 1 + sim.U(t, 2, "nquiet"); k > 0; k-- {
					at := c.Cut + sim.U(t, c.Head-c.Cut+1, "quietat")
					n := sim.Of(t, "quietn", 1, 30, 33, 64, 65, 100, 130)
					q := make([]sim.Step, n)
					for i := range q {
						q[i] = sim.Step{Prop: -1, Fork: 3, FeeRec: sim.AccOther}
					}
					s.Steps = append(s.Steps[:at:at], append(q, s.Steps[at:]...)...)
					c.Head += n
				}
			}
			c.Lag = sim.Of(t, "lag", uint64(0), 0, 0, 0, 1, 1, 2, 63, 64, 64, 64, 65)
			for i := range s.Vals {
				for k := range s.Vals[i].Status {
					if x := &s.Vals[i].Status[k]; x.St == 0 {
						x.St = 3 // a state has no validators of unknown status
					}
				}
			}
			slot := s.FirstSlot()
			for i := range s.Steps {
				st := &s.Steps[i]
				if i == c.Cut {
					// from here on the beacon snapshot is right about the validators
					for j := range s.Vals {
						v := &s.Vals[j]
						if v.CredAt >= slot {
							v.CredAt = 0
						}
						for k := range v.Status {
							if v.Status[k].From >= slot {
								v.Status = v.Status[:k]
								break
							}
						}
					}
				}
				slot += uint64(st.Gap)
				if i >= c.Cut {
					st.Prop, st.Txs, st.FeeRec, st.ViaCtr, st.SlotOff = -1, nil, sim.AccOther, false, 0
					var evs []sim.Ev
					for _, e := range st.Evs {
						if e.Kind == "sub" || e.Kind == "unsub" {
							evs = append(evs, e)
						}
					}
					st.Evs = evs
				}
				slot++
			}
			if sim.Pct(t, 10, "fault") {
				k := sim.Of(t, "class", "finalized", "eth_getLogs")
				c.Fault = []fakes.Fault{{Class: k, Times: -1, Mode: genMode(t, k, false)}}
				if k == "eth_getLogs" && sim.Pct(t, 50, "second") {
					c.Fault[0].Skip = 1
				}
			}
			return c
		},
		func(c *PreCase, st *h.Stats) error {
			s := c.S
			w := rawWorld(s)
			v := serve(s, w)
			p := s.PlayOn(v.or, v.cfg)
			advance := func(end int, f func(*sim.StepCtx)) bool {
				for p.I < end {
					for i := 0; i < s.Steps[p.I].Gap; i++ {
						if p.Skip() != nil {
							return false
						}
					}
					x, err := p.Step()
					if err != nil {
						return false
					}
					f(x)
				}
				return true
			}
			if !advance(c.Cut, func(*sim.StepCtx) {}) || v.or.State().LatestProcessedBlock == 0 {
				return nil
			}
			now := v.or.State().LatestProcessedSlot
			w.Snapshot, w.SnapSlot = c.Snap, now+1
			w.Finalized = now + c.Lag
			w.Head = p.Block
			slot := now + 1
			for i := c.Cut; i < c.Head; i++ {
				if !s.Steps[i].Missed {
					w.Head++
				}
				slot += uint64(s.Steps[i].Gap) + 1
			}
			if (slot-1)/sim.CleanupEvery != now/sim.CleanupEvery {
				return nil // exits are settled at a cleanup
			}
			v.svc.Onchain.RefreshBeaconValidators()
			before := sim.PlainJSON(v.or)
			type ans struct {
				r   *reply
				got any
				hit int
			}
			got := map[string]ans{}
			for round := 0; round < 2; round++ {
				for i := 0; i < 6; i++ {
					addr := sim.Cased(sim.AccWd0+i, c.Case)
					w.Lock()
					w.Faults = append([]fakes.Fault(nil), c.Fault...)
					w.Hit = 0
					w.Unlock()
					r, x, err := v.getJSON("/memory/validators/" + addr)
					if err != nil {
						return err
					}
					st.Eval(1)
					w.Lock()
					got[sim.Low(sim.AccWd0+i)] = ans{r, x, w.Hit}
					w.Unlock()
				}
				if !c.Again {
					break
				}
			}
			w.Lock()
			w.Faults = nil
			w.Unlock()
			if after := sim.PlainJSON(v.or); !bytes.Equal(before, after) {
				return fmt.Errorf("the requests changed the state:\nbefore %s\nafter  %s", before, after)
			}
			// now the same blocks are finalized
			pre := sim.Extract(v.or.State())
			own := map[uint64]*big.Int{}
			for i, x := range pre.Vals {
				own[i] = x.Pend
			}
			if !advance(c.Head, func(x *sim.StepCtx) {
				for i, y := range x.Got.Vals {
					o := x.Pre.Vals[i]
					was := o != nil && (o.Status == sim.Active || o.Status == sim.Yellow || o.Status == sim.Red)
					if own[i] == nil {
						own[i] = new(big.Int)
					}
					is := y.Status == sim.Active || y.Status == sim.Yellow || y.Status == sim.Red
					if is && !was {
						// the subscription that did it is the first valid one
						for _, e := range x.Step.AllEvs() {
							if e.Kind == "sub" && e.Idx == i && sim.Low(e.Sender) == y.Wd && sim.B(e.Amt).Cmp(sim.B(s.Coll)) >= 0 {
								own[i] = new(big.Int).Add(own[i], sim.B(e.Amt))
								break
							}
						}
					} else if !is && (was || o == nil) || !is && o != nil && y.Pend.Sign() == 0 && o.Pend.Sign() > 0 {
						own[i] = new(big.Int)
					}
				}
			}) {
				return nil
			}
			post := sim.Extract(v.or.State())
			for i := 0; i < 6; i++ {
				addr := sim.Low(sim.AccWd0 + i)
				a := got[addr]
				if c.Lag > 64 || a.hit > 0 {
					st.Class("refused: behind %v node %v", c.Lag > 64, a.hit > 0)
					if !a.r.isErr() {
						return fmt.Errorf("%s: %d behind, failing %v: %d %s, expected an error", addr, c.Lag, c.Fault, a.r.code, cut(a.r.body))
					}
					continue
				}
				if a.r.code != 200 {
					return fmt.Errorf("%s: %d %s", addr, a.r.code, cut(a.r.body))
				}
				want := map[uint64]J{}
				for j := uint64(0); j < uint64(c.Snap); j++ {
					x := w.S.ValByIdx(j)
					if x == nil {
						continue
					}
					if wd, ok := x.Wd(w.SnapSlot); ok && wd == addr {
						b := w.Snap(j)
						want[j] = J{"status": "untracked", "beacon_status": b.Status.String(), "pending_rewards_wei": "0", "accumulated_rewards_wei": "0",
							"withdrawal_address": addr, "validator_index": j, "validator_key": sim.PubKeyHex(j)}
					}
				}
				changed := false
				for j, x := range post.Vals {
					if x.Wd != addr {
						continue
					}
					if y, ok := infoOf(w, x); ok {
						y["pending_rewards_wei"] = own[j].String()
						delete(y, "accumulated_rewards_wei") // collateral sent twice comes back there
						if o := pre.Vals[j]; o != nil {
							y["accumulated_rewards_wei"] = o.Acc.String()
						}
						if o := pre.Vals[j]; o == nil || o.Status != x.Status {
							changed = true
							st.Class("becomes %s", statusName[x.Status])
							delete(y, "subscription_type")
							delete(y, "collateral_wei")
						}
						delete(y, "collateral_wei")
						delete(y, "subscription_type")
						want[j] = y
					}
				}
				if changed {
					st.NT()
				}
				var l []J
				var ks []uint64
				for j := range want {
					ks = append(ks, j)
				}
				sort.Slice(ks, func(a, b int) bool { return ks[a] < ks[b] })
				for _, j := range ks {
					l = append(l, want[j])
				}
				if why := covers(norm(list(l)), a.got); why != "" {
					return fmt.Errorf("validators of %s before finalization: %s\nanswer %s\nafter finalization %s", addr, why, cut(a.r.body), asJSON(l))
				}
			}
			return nil
		})
}
