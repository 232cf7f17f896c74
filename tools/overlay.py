"""Source overlays for the harness build. Only pauses are shortened: the wait between two attempts of
retry-go (15 s and more in the oracle), the poll interval of go-ethereum's WaitMined and, where asked,
what the oracle's own code calls a second or a minute (whose pauses are also announced to the
harness, if it listens)."""
import json, os, re, subprocess

def mod_dir(repo, e, mod):
    r = subprocess.run(['go', 'list', '-m', '-f', '{{.Dir}}', mod], cwd=repo, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0 or not r.stdout.strip():
        raise RuntimeError('go list -m %s: %s' % (mod, r.stderr))
    return r.stdout.strip()

def sub(src, pairs):
    for a, b in pairs:
        if a not in src:
            raise RuntimeError('overlay: %r not found' % a)
        src = src.replace(a, b)
    return src

# Declarations of package time a file of the oracle may use. Units of a minute and more are shortened.
CLOCK = """package verifclock

import (
	"net/http"
	"os"
	"sync/atomic"
	"time"
)

type (
	Time     = time.Time
	Duration = time.Duration
	Month    = time.Month
	Weekday  = time.Weekday
	Location = time.Location
	Timer    = time.Timer
	Ticker   = time.Ticker
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second%(sec)s
	Minute      = time.Minute%(div)s
	Hour        = time.Hour%(div)s

	ANSIC       = time.ANSIC
	RFC822      = time.RFC822
	RFC1123     = time.RFC1123
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
)

var (
	AfterFunc     = time.AfterFunc
	Tick          = time.Tick
	NewTicker     = time.NewTicker
	Unix          = time.Unix
	UnixMilli     = time.UnixMilli
	Date          = time.Date
	Parse         = time.Parse
	ParseDuration = time.ParseDuration
	FixedZone     = time.FixedZone
	UTC           = time.UTC
	Local         = time.Local
)

// nap tells the harness that a pause begins.
func nap(d time.Duration) {
	if u := os.Getenv("VERIF_NAP"); u != "" && d > 0 {
		if r, err := client.Get(u); err == nil {
			r.Body.Close()
		}
	}
}

var client = &http.Client{Timeout: time.Second}

// passed is what the pauses would have taken.
var passed atomic.Int64

func Now() time.Time                   { return time.Now().Add(time.Duration(passed.Load())) }
func Since(t time.Time) time.Duration  { return Now().Sub(t) }
func Until(t time.Time) time.Duration  { return t.Sub(Now()) }

func Sleep(d time.Duration) { nap(d); time.Sleep(d); passed.Add(int64(d) * %(scale)d) }
func After(d time.Duration) <-chan time.Time   { nap(d); return time.After(d) }
func NewTimer(d time.Duration) *time.Timer     { nap(d); return time.NewTimer(d) }
"""

def make(repo, scratch, e, poll=False, clock=None):
    """clock: package directory -> (divisor of seconds, divisor of minutes)."""
    rep = {}
    def write(path, src):
        dst = os.path.join(scratch, 'ov_%d_%s' % (len(rep), os.path.basename(path)))
        with open(dst, 'w') as f:
            f.write(src)
        rep[path] = dst
    put = lambda path, pairs: write(path, sub(open(path).read(), pairs))
    put(os.path.join(mod_dir(repo, e, 'github.com/avast/retry-go/v4'), 'retry.go'),
        [('time.After(d)', 'time.After(d / 75000)')])
    if poll:
        put(os.path.join(mod_dir(repo, e, 'github.com/ethereum/go-ethereum'), 'accounts/abi/bind/v2/util.go'),
            [('time.NewTicker(time.Second)', 'time.NewTicker(2 * time.Millisecond)')])
    module = re.search(r'^module\s+(\S+)', open(os.path.join(repo, 'go.mod')).read(), re.M).group(1)
    d = lambda n: '' if n == 1 else ' / %d' % n
    for i, (dn, (sec, div)) in enumerate(sorted((clock or {}).items())):
        write(os.path.join(repo, 'verifclock%d/clock.go' % i), CLOCK % {'sec': d(sec), 'div': d(div), 'scale': div - 1 if sec == div else 0})
        p = os.path.join(repo, dn)
        for fn in sorted(os.listdir(p)):
            if fn.endswith('.go') and not fn.endswith('_test.go'):
                src = open(os.path.join(p, fn)).read()
                new = re.sub(r'^(\s*(?:import\s+)?)(?:(\w+)\s+)?"time"\s*$', lambda m: '%s%s "%s/verifclock%d"' % (m.group(1), m.group(2) or 'time', module, i), src, flags=re.M)
                if new != src:
                    write(os.path.join(p, fn), new)
    p = os.path.join(scratch, 'overlay.json')
    with open(p, 'w') as f:
        json.dump({'Replace': rep}, f)
    return p
