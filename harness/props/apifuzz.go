package props

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/common"

	"pgregory.net/rapid"
	"verifharness/fakes"
	"verifharness/h"
	"verifharness/sim"
)

// ReqCase: requests with any bytes where an index, list, address or key belongs.
type ReqCase struct {
	S    *sim.Scn
	Reqs []Seg
}

type Seg struct {
	Kind string
	Seg  []byte
	Enc  int // 0: escape what needs it, 1: escape everything
}

var kindPath = map[string]string{"index": "/memory/validator/", "list": "/memory/validatorsbyindex/", "addr": "/memory/validators/", "proof": "/onchain/proof/", "key": "/registeredrelays/"}

func isDigits(s string) bool {
	for i := range len(s) {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

func isHex(s string, n int) bool {
	if len(s) != n+2 || s[:2] != "0x" {
		return false
	}
	for _, c := range []byte(s[2:]) {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return false
		}
	}
	return true
}

// wellFormed says whether the segment has the specified form; ok is false where the specification leaves it open.
func wellFormed(kind, s string) (good, ok bool) {
	switch kind {
	case "index":
		if !isDigits(s) {
			return false, true
		}
		x, _ := new(big.Int).SetString(s, 10)
		return x.IsUint64(), len(s) == 1 || s[0] != '0'
	case "list":
		l := strings.Split(s, ",")
		ok = true
		for _, x := range l {
			g, k := wellFormed("index", x)
			if !g && k {
				return false, true
			}
			ok = ok && k
		}
		return len(l) <= 100, ok || len(l) > 100
	case "addr", "proof":
		if strings.HasPrefix(s, "0X") { // the prefix in upper case is left open
			return isHex("0x"+s[2:], 40), !isHex("0x"+s[2:], 40)
		}
		return isHex(s, 40), true
	}
	return isHex(s, 96), true
}

func escape(b []byte, all bool) string {
	var sb strings.Builder
	for _, c := range b {
		plain := c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || strings.IndexByte("-_.~,:@!$&'()*+;=", c) >= 0
		if plain && !all {
			sb.WriteByte(c)
		} else {
			fmt.Fprintf(&sb, "%%%02X", c)
		}
	}
	return sb.String()
}

// rawRequest sends bytes and reads what comes back.
func rawRequest(addr string, b []byte, half bool) (*reply, error) {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(30 * time.Second))
	if _, err := c.Write(b); err != nil {
		return nil, err
	}
	if half {
		c.(*net.TCPConn).CloseWrite()
	}
	r, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return nil, err
	}
	defer r.Body.Close()
	x, err := io.ReadAll(r.Body)
	if err != nil {
		return nil, err
	}
	return &reply{r.StatusCode, x}, nil
}

func genGood(t *rapid.T, kind string, s *sim.Scn) string {
	hexs := func(n int) string {
		return fmt.Sprintf("%0*x", n, rapid.SliceOfN(rapid.Byte(), n/2, n/2).Draw(t, "hex"))
	}
	switch kind {
	case "index":
		return fmt.Sprint(genIdx(t, s))
	case "list":
		n := sim.Of(t, "n", 1, 2, 3, 7, 99, 100, 101, 102, 500)
		var l []string
		for i := 0; i < n; i++ {
			if i < 7 {
				l = append(l, fmt.Sprint(genIdx(t, s)))
			} else {
				l = append(l, fmt.Sprint(i))
			}
		}
		return strings.Join(l, ",")
	case "addr", "proof":
		if sim.Pct(t, 60, "known") {
			return sim.Cased(sim.AccWd0+sim.U(t, 6, "who"), sim.U(t, 3, "case"))
		}
		return "0x" + hexs(40)
	}
	k := hexs(96)
	if sim.Pct(t, 30, "upper") {
		k = strings.ToUpper(k)
	}
	return "0x" + k
}

func genSeg(t *rapid.T, s *sim.Scn) Seg {
	g := Seg{Kind: sim.Of(t, "kind", "index", "list", "addr", "proof", "key"), Enc: sim.U(t, 2, "enc")}
	b := []byte(genGood(t, g.Kind, s))
	nm := sim.Weighted(t, "nmut", 3, 5, 2, 1)
	for ; nm > 0; nm-- {
		i := sim.U(t, len(b)+1, "at")
		switch sim.U(t, 12, "mut") {
		case 0: // insert a byte
			b = append(b[:i:i], append([]byte{rapid.Byte().Draw(t, "b")}, b[i:]...)...)
		case 1: // drop a byte
			if i < len(b) {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 2: // replace a byte
			if i < len(b) {
				b = append([]byte{}, b...)
				b[i] = rapid.Byte().Draw(t, "b")
			}
		case 3: // something around it
			x := sim.Of(t, "around", " ", "\n", "\r\n", "\x00", "\t", "+", "-", "0x", "0X", ",", "/", "..", "?", "#", "%", "\u00a0", "0", "_", "e3", ".0", "０", "\u0661", "'", "\"", ";", "&x=1", "ß", "\u212a", "\u017f")
			if sim.Pct(t, 50, "front") {
				b = append([]byte(x), b...)
			} else {
				b = append(b[:len(b):len(b)], x...)
			}
		case 4: // inside it
			x := sim.Of(t, "inside", ",", ",,", " ", "\n", "g", "G", "x", "-", "_", "/", "0", "00", "\u212a", "%", ".", ",a", ", ")
			b = append(b[:i:i], append([]byte(x), b[i:]...)...)
		case 5:
			b = []byte(strings.ToUpper(string(b)))
		case 6: // cut
			b = b[:i]
		case 7: // without 0x
			b = bytes.TrimPrefix(b, []byte("0x"))
		case 8: // of another kind
			b = []byte(genGood(t, sim.Of(t, "as", "index", "list", "addr", "key"), s))
		case 9: // anything
			b = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "any")
		case 10: // numbers around the limits
			b = []byte(sim.Of(t, "num", "18446744073709551615", "18446744073709551616", "99999999999999999999", "184467440737095516150", "340282366920938463463374607431768211456", "-1", "-0", "+1", "1e3", "0x1", "1_000", "9223372036854775808", "NaN", "null", "true", "", "1.0", "٣", "１"))
		case 11: // long
			b = bytes.Repeat(b, 1+sim.U(t, 200, "rep"))
			if len(b) > 20000 {
				b = b[:20000]
			}
		}
	}
	g.Seg = b
	return g
}

func init() {
	h.Add("C22", "segments", "a malformed segment that reaches a handler, and a well-formed one", 12000, 500000,
		func(t *rapid.T) *ReqCase {
			s := sim.Gen(t, with(func(p *sim.Profile) { p.MaxSteps = 1 }))
			c := &ReqCase{S: s}
			for i := 2 + sim.U(t, 5, "n"); i > 0; i-- {
				c.Reqs = append(c.Reqs, genSeg(t, s))
			}
			return c
		},
		func(c *ReqCase, st *h.Stats) error {
			s := c.S
			w := apiWorld(s, 12, s.FirstSlot())
			v := serve(s, w)
			if v.svc.Onchain.Validators() == nil { // its content does not matter here
				v.svc.Onchain.RefreshBeaconValidators()
			}
			w.Finalized = v.or.State().LatestProcessedSlot
			rl := relays()
			rl[0].set(relayWorld{kind: "pool", pool: v.svc.Onchain.PoolAddress})
			v.cli.RelayersEndpoints = []string{rl[0].url}
			before := sim.PlainJSON(v.or)
			bad, good := false, false
			for _, q := range c.Reqs {
				w.Lock()
				w.Log = nil
				w.Unlock()
				rl[0].reset()
				path := kindPath[q.Kind] + escape(q.Seg, q.Enc == 1)
				r, err := rawRequest(v.addr, []byte("GET "+path+" HTTP/1.1\r\nHost: oracle\r\nConnection: close\r\n\r\n"), false)
				if err != nil {
					return fmt.Errorf("GET %s: no answer: %v", path, err)
				}
				st.Eval(1)
				seg := string(q.Seg)
				if seg == "" || strings.Contains(seg, "/") || seg == "." || seg == ".." {
					if r.code < 300 {
						return fmt.Errorf("GET %s: %d %s", path, r.code, cut(r.body))
					}
					continue
				}
				w.Lock()
				log := append([]string(nil), w.Log...)
				w.Unlock()
				hits := rl[0].hits()
				ok, sure := wellFormed(q.Kind, seg)
				if !sure {
					continue
				}
				if !ok {
					bad = true
					st.Class("malformed %s", q.Kind)
					if !r.isErr() {
						return fmt.Errorf("GET %s: malformed, answered %d %s", path, r.code, cut(r.body))
					}
					for _, l := range log {
						if strings.HasPrefix(l, "call:") || l == "eth_getLogs" || l == "state" || strings.HasPrefix(l, "unknown") || strings.HasPrefix(l, "bad") {
							return fmt.Errorf("GET %s: malformed, passed on to the node (%v)", path, log)
						}
					}
					if len(hits) > 0 {
						return fmt.Errorf("GET %s: malformed, passed on to a relay (%v)", path, hits)
					}
					continue
				}
				good = true
				st.Class("well-formed %s", q.Kind)
				got, err := parse(r.body)
				if err != nil {
					return fmt.Errorf("GET %s: %d %s", path, r.code, cut(r.body))
				}
				switch q.Kind {
				case "index":
					x, _ := new(big.Int).SetString(seg, 10)
					if (v.or.State().Validators[x.Uint64()] != nil) != (r.code == 200) {
						return fmt.Errorf("GET %s: %d %s", path, r.code, cut(r.body))
					}
					if r.code == 200 && covers(norm(J{"validator_index": x.Uint64()}), got) != "" {
						return fmt.Errorf("GET %s: %s", path, cut(r.body))
					}
				case "list", "addr":
					if r.code != 200 && !(q.Kind == "addr" && v.or.State().LatestProcessedBlock == 0) {
						return fmt.Errorf("GET %s: well-formed, answered %d %s", path, r.code, cut(r.body))
					}
				case "proof":
					// no checkpoint yet: an error, but not about the form
					claim := false
					for _, l := range log {
						claim = claim || l == "call:rewardsRoot"
					}
					if !claim {
						return fmt.Errorf("GET %s: well-formed, not looked up: %d %s", path, r.code, cut(r.body))
					}
				case "key":
					if r.code != 200 || len(hits) != 1 || !strings.EqualFold(hits[0], seg) {
						return fmt.Errorf("GET %s: well-formed, answered %d %s, relay asked for %v", path, r.code, cut(r.body), hits)
					}
				}
			}
			if bad && good {
				st.NT()
			}
			if after := sim.PlainJSON(v.or); !bytes.Equal(before, after) {
				return fmt.Errorf("the requests changed the state")
			}
			if err := v.healthy(); err != nil {
				return err
			}
			_, err := v.get("/memory/feesinfo")
			return err
		})
	h.Add("C22", "bytes", "a request line or header that is not one a client would send", 10000, 500000,
		func(t *rapid.T) *BytesCase {
			c := &BytesCase{Net: sim.Of(t, "net", "mainnet", "hoodi")}
			for i := 1 + sim.U(t, 4, "n"); i > 0; i-- {
				c.Reqs = append(c.Reqs, genBytes(t))
			}
			return c
		},
		func(c *BytesCase, st *h.Stats) error {
			s := &sim.Scn{Net: c.Net, Slot0: 13000000, Block0: 20000000, Fee: 700, Coll: "1000", Ckpt: 7200, Start: 13000100,
				Vals: []sim.Val{{Idx: 3, Cred: sim.Cred01, Addr: sim.AccWd0}}, Inits: []sim.Init{{V: 0, Status: sim.Active, Pend: "5", Acc: "7"}}}
			w := fakes.NewWorld(s)
			v := serve(s, w)
			w.Finalized = v.or.State().LatestProcessedSlot
			before := sim.PlainJSON(v.or)
			for _, q := range c.Reqs {
				st.Eval(1)
				r, err := rawRequest(v.addr, q, true)
				switch {
				case err != nil:
					st.Class("no answer")
				default:
					st.Class("%d", r.code)
				}
				if !bytes.HasPrefix(q, []byte("GET /")) || bytes.IndexByte(q, 0) >= 0 {
					st.NT()
				}
				if err := v.healthy(); err != nil {
					return fmt.Errorf("request %q: %w", q, err)
				}
			}
			if after := sim.PlainJSON(v.or); !bytes.Equal(before, after) {
				return fmt.Errorf("the requests changed the state")
			}
			r, err := v.get("/memory/feesinfo")
			if err == nil && r.code != 200 {
				err = fmt.Errorf("the server no longer answers: %d", r.code)
			}
			return err
		})
}

type BytesCase struct {
	Net  string
	Reqs [][]byte
}

func genBytes(t *rapid.T) []byte {
	path := sim.Of(t, "path", "/", "/status", "/config", "/state", "/memory/validators", "/memory/validator/3", "/memory/validatorsbyindex/3,4", "/memory/validators/"+sim.Low(sim.AccWd0), "/memory/feesinfo",
		"/memory/allblocks", "/memory/statistics", "/memory/donations", "/onchain/proof/"+sim.Low(sim.AccWd0), "/registeredrelays/0x12", "/metrics", "/debug/pprof/", "*", "http://x/state")
	method := sim.Of(t, "method", "GET", "GET", "GET", "POST", "OPTIONS", "HEAD", "PUT", "DELETE", "CONNECT", "TRACE", "PRI", "get", "\x00", "X\xff")
	body := ""
	hd := "Host: o\r\n"
	switch sim.U(t, 8, "hdr") {
	case 0:
		hd = ""
	case 1:
		hd += "Content-Length: 5\r\n"
		body = "hello"
	case 2:
		hd += "Content-Length: -1\r\n"
	case 3:
		hd += "Transfer-Encoding: chunked\r\n"
		body = "5\r\nhello\r\n0\r\n\r\n"
	case 4:
		hd += "Origin: " + strings.Repeat("x", sim.U(t, 3000, "len")) + "\r\nExpect: 100-continue\r\n"
	case 5:
		hd += "X: \xff\x00\r\n"
	case 6:
		hd += "Upgrade: h2c\r\nConnection: Upgrade, HTTP2-Settings\r\nHTTP2-Settings: AAMAAABkAAQAAP__\r\n"
	}
	b := []byte(method + " " + path + sim.Of(t, "q", "", "", "?a=1", "?%zz", "#f", "%", "%00", "/../..", "//", " ") + " HTTP/" + sim.Of(t, "v", "1.1", "1.1", "1.0", "2.0", "9.9", "") + "\r\n" + hd + "Connection: close\r\n\r\n" + body)
	for i := sim.U(t, 4, "nmut"); i > 0 && len(b) > 0; i-- {
		at := sim.U(t, len(b), "at")
		switch sim.U(t, 3, "m") {
		case 0:
			b[at] = rapid.Byte().Draw(t, "b")
		case 1:
			b = append(b[:at:at], b[at+1:]...)
		case 2:
			b = append(b[:at:at], append(rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "ins"), b[at:]...)...)
		}
	}
	if !bytes.Contains(b, []byte("\r\n\r\n")) {
		b = append(b, "\r\n\r\n"...)
	}
	return b
}

// relays

type relayWorld struct {
	kind string
	pool string
	fee  string // of kind other
	ts   uint64
	cas  int
}

type relay struct {
	mu   sync.Mutex
	url  string
	w    relayWorld
	seen []string
}

func (r *relay) set(w relayWorld) {
	r.mu.Lock()
	r.w, r.seen = w, nil
	r.mu.Unlock()
}
func (r *relay) reset() {
	r.mu.Lock()
	r.seen = nil
	r.mu.Unlock()
}
func (r *relay) hits() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]string(nil), r.seen...)
}

var theRelays []*relay

const nRelays = 5

func relays() []*relay {
	if theRelays == nil {
		for i := 0; i < nRelays; i++ {
			r := &relay{}
			r.url = fakes.Serve(r.serve)
			theRelays = append(theRelays, r)
		}
	}
	return theRelays
}

const otherFee = "0x00000000000000000000000000000000000000aB"

func (w relayWorld) body(key string) string {
	fee := w.pool
	if w.kind == "other" {
		fee = w.fee
	}
	switch w.cas {
	case 1:
		fee = "0x" + strings.ToUpper(fee[2:])
	case 2:
		fee = common.HexToAddress(fee).String()
	case 3:
		fee = strings.ToLower(fee)
	}
	return fmt.Sprintf(`{"message":{"fee_recipient":"%s","gas_limit":"30000000","timestamp":"%d","pubkey":"%s"},"signature":"0x%s"}`, fee, w.ts, strings.ToLower(key), strings.Repeat("8a", 96))
}

func (r *relay) serve(rw http.ResponseWriter, q *http.Request) {
	key := q.URL.Query().Get("pubkey")
	r.mu.Lock()
	w := r.w
	if q.URL.Path != "/relay/v1/data/validator_registration" {
		key = "path " + q.URL.Path
	}
	r.seen = append(r.seen, key)
	r.mu.Unlock()
	ok := func(s string) {
		rw.Header().Set("Content-Type", "application/json")
		rw.Write([]byte(s))
	}
	b := w.body(key)
	switch w.kind {
	case "pool", "other":
		ok(b)
	case "404":
		http.Error(rw, `{"code":404,"message":"no registration found"}`, 404)
	case "400":
		http.Error(rw, `{"code":400,"message":"no registration found for validator"}`, 400)
	case "500", "502", "503", "504", "429":
		code := 0
		fmt.Sscan(w.kind, &code)
		http.Error(rw, `{"code":500,"message":"internal error"}`, code)
	case "drop":
		if c, _, err := rw.(http.Hijacker).Hijack(); err == nil {
			if t, ok := c.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
			c.Close()
		}
	case "truncated":
		rw.Header().Set("Content-Length", fmt.Sprint(len(b)))
		rw.Write([]byte(b[:len(b)/2]))
	case "cut":
		ok(b[:len(b)/2])
	case "garbage":
		ok("\x00\x01garbage{")
	case "html":
		ok("<html>hello</html>")
	case "empty":
		ok("")
	case "null":
		ok("null")
	case "{}":
		ok("{}")
	case "[]":
		ok("[" + b + "]")
	case "nomessage":
		ok(`{"signature":"0x` + strings.Repeat("8a", 96) + `"}`)
	case "nullmessage":
		ok(`{"message":null,"signature":"0x` + strings.Repeat("8a", 96) + `"}`)
	case "nofee":
		ok(strings.Replace(b, `"fee_recipient"`, `"recipient"`, 1))
	}
}

type RelayCase struct {
	Net      string
	PoolCase int
	Relays   []RelaySpec
	Key      []byte
	Upper    bool
	Closed   int // -1, or the position of a relay that cannot be reached
}

type RelaySpec struct {
	Kind  string
	Case  int
	Ts    uint64
	Other int // which fee recipient, when it is not the pool
}

func (r *RelaySpec) fee() string {
	pool := sim.Low(sim.AccPool)
	last := func(i int) string {
		b := []byte(pool)
		b[i] = "123456789abcdef0"[strings.IndexByte("0123456789abcdef", b[i])]
		return string(b)
	}
	switch r.Other {
	case 1:
		return "0x0000000000000000000000000000000000000000"
	case 2:
		return last(41)
	case 3:
		return last(2)
	case 4:
		return sim.Low(sim.AccFees)
	case 5:
		return last(21)
	}
	return otherFee
}

var relayErr = []string{"500", "502", "503", "504", "429", "drop", "truncated", "cut", "garbage", "html", "empty", "null", "{}", "[]", "nomessage", "nullmessage", "nofee"}

func init() {
	h.Add("C30", "relays", "two or more relays with different verdicts, or one that fails next to one that answers", 10000, 400000,
		func(t *rapid.T) *RelayCase {
			c := &RelayCase{Net: sim.Of(t, "net", "mainnet", "hoodi"), PoolCase: sim.U(t, 3, "poolcase"), Key: rapid.SliceOfN(rapid.Byte(), 48, 48).Draw(t, "key"), Upper: sim.Pct(t, 30, "upper"), Closed: -1}
			n := sim.Weighted(t, "nrelays", 1, 3, 4, 4, 3, 2)
			bad := sim.Pct(t, 30, "bad")
			for i := 0; i < n; i++ {
				r := RelaySpec{Kind: sim.Of(t, "rkind", "pool", "pool", "other", "404", "400"), Case: sim.U(t, 4, "rcase"), Ts: rapid.Uint64Range(1600000000, 4000000000).Draw(t, "ts"), Other: sim.U(t, 6, "other")}
				if bad && sim.Pct(t, 40, "rbad") {
					r.Kind = sim.Of(t, "rerr", relayErr...)
				}
				c.Relays = append(c.Relays, r)
			}
			if n > 0 && sim.Pct(t, 5, "closed") {
				c.Closed = sim.U(t, n, "which")
			}
			return c
		},
		func(c *RelayCase, st *h.Stats) error {
			s := &sim.Scn{Net: c.Net, Slot0: 13000000, Block0: 20000000, Fee: 700, Coll: "1000", Ckpt: 7200, PoolCase: c.PoolCase}
			w := fakes.NewWorld(s)
			v := serve(s, w)
			rl := relays()
			key := fmt.Sprintf("0x%x", c.Key)
			if c.Upper {
				key = "0x" + strings.ToUpper(key[2:])
			}
			var ok, wrong, none []J
			fails := false
			var urls []string
			kinds := map[string]bool{}
			for i, r := range c.Relays {
				rl[i].set(relayWorld{kind: r.Kind, pool: sim.Low(sim.AccPool), ts: r.Ts, cas: r.Case, fee: r.fee()})
				u := rl[i].url
				if c.Closed == i {
					u = "http://127.0.0.1:1"
					fails = true
				}
				urls = append(urls, u)
				j := J{"relay_address": u, "fee_recipient": sim.Low(sim.AccPool), "timestamp": fmt.Sprintf("%d000000000", r.Ts)}
				switch r.Kind {
				case "pool":
					ok = append(ok, j)
				case "other":
					j["fee_recipient"] = strings.ToLower(r.fee())
					wrong = append(wrong, j)
				case "404", "400":
					none = append(none, J{"relay_address": u})
				default:
					fails = true
				}
				kinds[r.Kind] = true
				st.Class("relay %s", r.Kind)
			}
			v.cli.RelayersEndpoints = urls
			r, got, err := v.getJSON("/registeredrelays/" + key)
			if err != nil {
				return err
			}
			if len(kinds) > 1 {
				st.NT()
			}
			if fails {
				if !r.isErr() {
					return fmt.Errorf("relays %+v (unreachable: %d): %d %s, expected an error", c.Relays, c.Closed, r.code, cut(r.body))
				}
				return v.healthy()
			}
			if r.code != 200 {
				return fmt.Errorf("relays %+v: %d %s", c.Relays, r.code, cut(r.body))
			}
			want := J{"correct_fee_recipients": len(ok) > 0 && len(wrong) == 0, "correct_fee_relayers": list(ok), "wrong_fee_relayers": list(wrong), "unregistered_relayers": list(none)}
			if why := covers(norm(want), got); why != "" {
				return fmt.Errorf("relays %+v: %s\nanswer %s", c.Relays, why, cut(r.body))
			}
			for i := range c.Relays {
				if hs := rl[i].hits(); len(hs) != 1 || !strings.EqualFold(hs[0], key) {
					return fmt.Errorf("relay %d was asked for %v, expected %s", i, hs, key)
				}
			}
			return v.healthy()
		})
}
