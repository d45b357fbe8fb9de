//go:build go1.21

package j8a

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"io/ioutil"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

// Report collects what one shard of one check covered. The driver merges the shards.
type Report struct {
	mu          sync.Mutex
	Check       string
	Evaluations int64
	Steps       int64
	Validated   int64
	Distinct    map[uint64]bool `json:"-"`
	DistinctL   []uint64
	States      map[uint64]bool `json:"-"`
	StatesL     []uint64
	Samples     []string
	Violations  []Violation
	Notes       map[string]interface{}
	Complete    bool
	Rule        string
	ModelStates int64
	Shard0      bool `json:"shard0"`

	shard, shards int
	idx           int64
	replay        string
	tier          string
	deadline      time.Time
	t             *testing.T
	stopped       bool
}

type Violation struct {
	Case   string
	Detail string
	Known  string
}

var R *Report

func thorough() bool { return R.tier == "thorough" }

// pick returns q in the quick tier and th in the thorough tier
func pick(q, th int) int {
	if thorough() {
		return th
	}
	return q
}

// Mine reports whether the case with this key belongs to this shard; keys make cases replayable.
func (r *Report) Mine(key string) bool {
	i := r.idx
	r.idx++
	if r.replay != "" {
		return strings.HasPrefix(r.replay, key) && (len(r.replay) == len(key) || r.replay[len(key)] == '#')
	}
	if r.stopped {
		return false
	}
	if i%int64(r.shards) != int64(r.shard) {
		return false
	}
	if r.Expired() {
		r.Complete = false
		r.stopped = true
		return false
	}
	if len(r.Violations) >= 5 {
		r.Complete = false
		return false
	}
	return true
}

// Expired must be called outside of bubbles, whose clock is virtual
func (r *Report) Expired() bool { return time.Now().After(r.deadline) }

func h64(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// Ran counts one execution. outcome is a canonical rendering of what was observed.
func (r *Report) Ran(key, outcome string, nontrivial bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Evaluations++
	if nontrivial {
		r.Distinct[h64(key)] = true
	}
	r.States[h64(outcome)] = true
	if len(r.Samples) < 3 || (r.Evaluations&(r.Evaluations-1) == 0 && len(r.Samples) < 6) {
		s := key + " => " + outcome
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		r.Samples = append(r.Samples, s)
	}
}

func (r *Report) Violate(key, format string, a ...interface{}) {
	r.mu.Lock()
	d := fmt.Sprintf(format, a...)
	if len(d) > 4000 {
		d = d[:4000] + "..."
	}
	r.Violations = append(r.Violations, Violation{Case: key, Detail: d})
	r.mu.Unlock()
}

func (r *Report) Note(k string, v interface{}) {
	r.mu.Lock()
	r.Notes[k] = v
	r.mu.Unlock()
}

func (r *Report) write() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.DistinctL, r.StatesL = nil, nil
	r.Shard0 = r.shard == 0
	for k := range r.Distinct {
		r.DistinctL = append(r.DistinctL, k)
	}
	for k := range r.States {
		r.StatesL = append(r.StatesL, k)
	}
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Println("cannot marshal report", err)
		os.Exit(3)
	}
	out := os.Getenv("VERIF_OUT")
	ioutil.WriteFile(out+".tmp", b, 0644)
	os.Rename(out+".tmp", out)
}

// Fatal ends the shard at once after writing the report: used when the process state is beyond use
func (r *Report) Exit() {
	r.write()
	os.Exit(0)
}

// before records the case about to run, so that a process crash can be attributed to it
func (r *Report) Before(key string) {
	if f := os.Getenv("VERIF_OUT"); f != "" && curFile == nil {
		curFile, _ = os.Create(f + ".cur")
	}
	if curFile != nil {
		curFile.WriteAt([]byte(fmt.Sprintf("%06d%s", len(key), key)), 0)
	}
}

var curFile *os.File

var checks = map[string]func(){}

func atoi(s string, d int) int {
	if n, err := strconv.Atoi(s); err == nil {
		return n
	}
	return d
}

func TestMain(m *testing.M) {
	if sub := os.Getenv("VERIF_SUB"); sub != "" {
		subs[sub]()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// subs are entry points of helper processes (for boots that are expected to end the process)
var subs = map[string]func(){}

func TestVerif(t *testing.T) {
	id := os.Getenv("VERIF_CHECK")
	R = &Report{Check: id, Distinct: map[uint64]bool{}, States: map[uint64]bool{}, Notes: map[string]interface{}{},
		Complete: true, shard: atoi(os.Getenv("VERIF_SHARD"), 0), shards: atoi(os.Getenv("VERIF_SHARDS"), 1),
		replay: os.Getenv("VERIF_REPLAY"), tier: os.Getenv("VERIF_TIER"), t: t}
	R.deadline = time.Now().Add(time.Duration(atoi(os.Getenv("VERIF_BUDGET"), 600)) * time.Second)
	quiet()
	f := checks[id]
	if f == nil {
		fmt.Println("no such check", id)
		os.Exit(3)
	}
	debug.SetGCPercent(200)
	f()
	if os.Getenv("VERIF_PROF") != "" {
		R.write()
		return
	}
	R.Exit()
}

// ---- log capture ----

type logSink struct {
	mu  sync.Mutex
	on  bool
	buf bytes.Buffer
}

func (l *logSink) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.on {
		l.buf.Write(p)
	}
	return len(p), nil
}

var sink = &logSink{}

// quiet routes the global logger into the sink
func quiet() {
	zerolog.SetGlobalLevel(zerolog.InfoLevel)
	log.Logger = zerolog.New(sink)
}

func logLines() []map[string]interface{} {
	sink.mu.Lock()
	defer sink.mu.Unlock()
	var out []map[string]interface{}
	for _, l := range strings.Split(sink.buf.String(), "\n") {
		if l == "" {
			continue
		}
		m := map[string]interface{}{}
		if err := json.Unmarshal([]byte(l), &m); err != nil {
			m["__invalid"] = l
		}
		out = append(out, m)
	}
	return out
}

func logReset(on bool) {
	sink.mu.Lock()
	sink.buf.Reset()
	sink.on = on
	sink.mu.Unlock()
}

// ---- reference coders, independent of the code under test ----

func refGzip(b []byte) []byte {
	var o bytes.Buffer
	w := gzip.NewWriter(&o)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

func refGunzip(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return ioutil.ReadAll(r)
}

// refDecode removes the codings named by a Content-Encoding header value, the last one first.
// br is not decoded: the harness uses opaque bytes for it and expects them back as they are.
func refDecode(label string, b []byte) ([]byte, []string, error) {
	var rest []string
	parts := strings.Split(label, ",")
	for i := len(parts) - 1; i >= 0; i-- {
		switch c := strings.ToLower(strings.TrimSpace(parts[i])); c {
		case "", "identity":
		case "gzip", "x-gzip":
			if len(rest) > 0 {
				rest = append(rest, c)
				continue
			}
			if len(b) == 0 {
				continue
			}
			d, err := refGunzip(b)
			if err != nil {
				return nil, nil, err
			}
			b = d
		default:
			rest = append(rest, c)
		}
	}
	return b, rest, nil
}

func sorted(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// bootChain runs the configuration pipeline in process
func bootChain(yml string) *Config {
	os.Setenv(J8ACFG_YML, yml)
	ConfigFile = ""
	return new(Config).
		load().
		reApplyResourceSchemes().
		reApplyResourceNames().
		validateJwt().
		validateRoutes().
		compileRoutePaths().
		addDefaultPolicy().
		setDefaultUpstreamParams().
		setDefaultDownstreamParams()
}

// jsonOK checks the body of a generated response, decoded: exactly one JSON object with the documented fields
func jsonOK(dec []byte, code int) string {
	d := json.NewDecoder(bytes.NewReader(dec))
	d.UseNumber()
	var m map[string]interface{}
	if err := d.Decode(&m); err != nil {
		return fmt.Sprintf("body %q is not a JSON object: %v", dec, err)
	}
	if rest, _ := ioutil.ReadAll(d.Buffered()); len(bytes.TrimSpace(rest)) > 0 {
		return fmt.Sprintf("body %q is more than one JSON object", dec)
	}
	for _, k := range []string{"j8a", "ServerID", "Version"} {
		if s, ok := m[k].(string); !ok || s == "" {
			return fmt.Sprintf("body %s lacks field %s", dec, k)
		}
	}
	if code == 0 {
		return ""
	}
	if fmt.Sprint(m["Code"]) != strconv.Itoa(code) {
		return fmt.Sprintf("body %s does not tell status %d", dec, code)
	}
	if s, ok := m["Message"].(string); !ok || strings.TrimSpace(s) == "" {
		return fmt.Sprintf("body %s has no message", dec)
	}
	return ""
}

// bubble runs f in virtual time. Goroutines that never end are none of the callers' concern.
func bubble(f func()) {
	defer func() {
		if e := recover(); e != nil && !strings.Contains(fmt.Sprint(e), "main bubble goroutine has exited") {
			panic(e)
		}
	}()
	synctest.Test(R.t, func(*testing.T) { f() })
}

// setLevel lets everything through to the log sink, and returns what undoes that
func setLevel() func() {
	zerolog.SetGlobalLevel(zerolog.TraceLevel)
	return func() { zerolog.SetGlobalLevel(zerolog.InfoLevel) }
}
