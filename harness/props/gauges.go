package props

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/dappnode/mev-sp-oracle/metrics"

	"pgregory.net/rapid"
	"verifharness/fakes"
	"verifharness/h"
	"verifharness/sim"
)

// ---- C33

// sample reads the values of the oracle's own metrics: name{labels} -> value.
func sample(addr string) (map[string]float64, error) {
	var resp *http.Response
	var err error
	for i := 0; i < 200; i++ { // it may just be starting
		if resp, err = client.Get("http://" + addr + "/metrics"); err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil || resp.StatusCode != 200 {
		return nil, fmt.Errorf("metrics: %s %v", resp.Status, err)
	}
	out := map[string]float64{}
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.LastIndexByte(l, ' '); i > 0 && strings.HasPrefix(l, "oracle_") {
			v, err := strconv.ParseFloat(l[i+1:], 64)
			if err != nil {
				return nil, fmt.Errorf("metrics: %q", l)
			}
			out[l[:i]] = v
		}
	}
	return out, nil
}

// gauges is called when the block after slot k.req is asked for: what the program says about itself.
func (k *ctl) gauges() {
	if k.gaugeErr != nil || k.req == 0 || k.dying {
		return // a program that has been told to stop, or killed, may not answer any more
	}
	got, err := sample(fmt.Sprintf("127.0.0.1:%d", k.metrics))
	if err != nil {
		k.noGauges = err
		k.kill()
		return
	}
	k.sampled++
	roots := map[string]float64{}
	for n, v := range got {
		if strings.HasPrefix(n, "oracle_known_root_and_slot{") {
			roots[n] = v
		}
	}
	want := map[string]float64{}
	for slot := k.next; slot <= k.req; slot++ {
		if root, ok := k.e.root[slot]; ok {
			want[fmt.Sprintf("oracle_known_root_and_slot{merkle_root=%q,slot=\"%d\"}", root, slot)] = 1
			k.tags["known root"]++
		}
	}
	i := int(k.req - k.first)
	switch {
	case got["oracle_latest_processed_slot"] != float64(k.req):
		k.gaugeErr = fmt.Errorf("slot %d is processed, the metrics say %v", k.req, got["oracle_latest_processed_slot"])
	case got["oracle_latest_processed_block"] != float64(k.e.blk[i]):
		k.gaugeErr = fmt.Errorf("slot %d is processed, the latest block is %d, the metrics say %v", k.req, k.e.blk[i], got["oracle_latest_processed_block"])
	case got["oracle_distance_from_finalized_slot"] != float64(k.servedAt-k.req):
		k.gaugeErr = fmt.Errorf("slot %d was processed when %d was finalized, the metrics say that the distance is %v", k.req, k.servedAt, got["oracle_distance_from_finalized_slot"])
	case asJSON(roots) != asJSON(want):
		k.gaugeErr = fmt.Errorf("slot %d is processed, the metrics say that the checkpoints of this run are %s, they are %s", k.req, asJSON(roots), asJSON(want))
	}
	if k.gaugeErr != nil {
		k.fail("%v", k.gaugeErr)
	}
}

// Hit is a request.
type Hit struct {
	Kind int
	Seg  Seg
	Lag  uint64
}

var hitPaths = []string{"/", "/status", "/config", "/state", "/memory/validators", "/memory/feesinfo", "/memory/statistics", "/memory/allblocks", "/memory/proposedblocks",
	"/memory/missedblocks", "/memory/wrongfeeblocks", "/memory/donations"}

var kindRoute = map[string]string{"index": "/memory/validator/{valindex}", "list": "/memory/validatorsbyindex/{valindices}", "addr": "/memory/validators/{withdrawalAddress}",
	"proof": "/onchain/proof/{withdrawalAddress}", "key": "/registeredrelays/{valpubkey}"}

type HitCase struct {
	S     *sim.Scn
	Hits  []Hit
	Fault fakes.Fault
}

// what the metrics of this process must be
var counted = map[string]float64{}
var ownMetrics string

func runHits(c *HitCase, st *h.Stats) error {
	s := c.S
	w := apiWorld(s, 12, s.FirstSlot())
	v := serve(s, w)
	if v.svc.Onchain.Validators() == nil {
		v.svc.Onchain.RefreshBeaconValidators()
	}
	if ownMetrics == "" {
		p := freePorts(1)[0]
		metrics.RunMetrics(p)
		ownMetrics = fmt.Sprintf("127.0.0.1:%d", p)
		for i := 0; i < 200; i++ {
			if conn, err := net.Dial("tcp", ownMetrics); err == nil {
				conn.Close()
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		got, err := sample(ownMetrics)
		if err != nil {
			return err
		}
		for k, n := range got { // of cases before this one
			counted[k] = n
		}
	}
	rl := relays()
	rl[0].set(relayWorld{kind: "pool", pool: v.svc.Onchain.PoolAddress})
	v.cli.RelayersEndpoints = []string{rl[0].url}
	if c.Fault.Class != "" {
		w.Lock()
		w.Faults = []fakes.Fault{c.Fault}
		w.Unlock()
	}
	codes := map[int]bool{}
	for _, q := range c.Hits {
		path, route := "", ""
		if q.Kind < len(hitPaths) {
			path = hitPaths[q.Kind]
			route = path
		} else {
			seg := string(q.Seg.Seg)
			if seg == "" || strings.Contains(seg, "/") || seg == "." || seg == ".." {
				continue
			}
			path, route = kindPath[q.Seg.Kind]+escape(q.Seg.Seg, q.Seg.Enc == 1), kindRoute[q.Seg.Kind]
		}
		w.Lock()
		w.Finalized = v.or.State().LatestProcessedSlot + q.Lag
		w.Unlock()
		r, err := rawRequest(v.addr, []byte("GET "+path+" HTTP/1.1\r\nHost: oracle\r\nConnection: close\r\n\r\n"), false)
		if err != nil {
			return nil // not this property
		}
		st.Eval(1)
		codes[r.code] = true
		st.Class("code %d", r.code)
		l := fmt.Sprintf("{code=\"%d\",method=\"get\",path=%q}", r.code, route)
		counted["oracle_http_requests_total"+l]++
		counted["oracle_http_request_duration_seconds_count"+l]++
	}
	if len(codes) > 1 {
		st.NT()
	}
	diff := ""
	for i := 0; i < 500; i++ { // they are counted after the answer
		got, err := sample(ownMetrics)
		if err != nil {
			return err
		}
		diff = ""
		for k := range got {
			if strings.HasPrefix(k, "oracle_http_requests_total{") || strings.HasPrefix(k, "oracle_http_request_duration_seconds_count{") {
				if got[k] != counted[k] {
					diff = fmt.Sprintf("%s is %v, there were %v", k, got[k], counted[k])
				}
			}
		}
		for k := range counted {
			if _, ok := got[k]; !ok {
				diff = fmt.Sprintf("%s is missing, there were %v", k, counted[k])
			}
		}
		if diff == "" {
			return nil
		}
		time.Sleep(10 * time.Millisecond)
	}
	counted = map[string]float64{} // for another case
	got, err := sample(ownMetrics)
	if err == nil {
		counted = got
	}
	return fmt.Errorf("after %v: %s", c.Hits, diff)
}

func init() {
	h.Add("C33", "progress", "checkpoints are known, or three or more samples in a run that was restarted", 120, 8000,
		func(t *rapid.T) *LoopCase {
			c := genLoop(t)
			c.Gauges = true
			return c
		}, runLoop)
	h.Add("C33", "requests", "requests with different answers", 2500, 100000,
		func(t *rapid.T) *HitCase {
			s := sim.Gen(t, with(func(p *sim.Profile) { p.MaxSteps = 1 }))
			c := &HitCase{S: s}
			for i := 1 + sim.U(t, 7, "n"); i > 0; i-- {
				q := Hit{Kind: sim.U(t, 2*len(hitPaths), "path"), Lag: uint64(sim.Of(t, "lag", 0, 0, 0, 10, 300))}
				if q.Kind >= len(hitPaths) {
					q.Seg = genSeg(t, s)
				}
				c.Hits = append(c.Hits, q)
			}
			if sim.Pct(t, 20, "fault") {
				k := sim.Of(t, "class", "finalized", "eth_chainId", "syncing", "call:lastConsolidatedSlot", "call:rewardsRoot")
				c.Fault = fakes.Fault{Class: k, Times: -1, Mode: genMode(t, k, false)}
			}
			return c
		}, runHits)
}
