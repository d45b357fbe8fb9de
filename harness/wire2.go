//go:build go1.21

package j8a

// Further tools of the wire engine: cases side by side, HTTP/2, and the server's log.

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"
)

// wireGroup runs cases that mostly wait side by side
type wireGroup struct {
	sem chan bool
	wg  sync.WaitGroup
	mu  sync.Mutex
}

func newGroup(n int) *wireGroup { return &wireGroup{sem: make(chan bool, n)} }

func (g *wireGroup) do(key string, f func() (problem, outcome string)) {
	if !R.Mine(key) {
		return
	}
	R.Before(key)
	curCase = key
	g.sem <- true
	g.wg.Add(1)
	go func() {
		defer func() { <-g.sem; g.wg.Done() }()
		p, o := f()
		if p != "" {
			R.Violate(key, "%s", p)
		}
		R.mu.Lock()
		R.Steps += 2
		R.Validated++
		R.mu.Unlock()
		R.Ran(key, o, true)
	}()
}

func (g *wireGroup) wait() { g.wg.Wait() }

// h2client speaks HTTP/2 over TLS
type h2client struct {
	t    *http.Transport
	addr string
	// nolen sends bodies without declaring their length
	nolen bool
	// patience is how long an answer may take
	patience time.Duration
}

func newH2(addr string) *h2client {
	t := &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, DisableCompression: true, ForceAttemptHTTP2: true}
	return &h2client{t: t, addr: addr, patience: 20 * time.Second}
}

func (h *h2client) do(method, target string, hdr [][2]string, body []byte) *wresp {
	w := &wresp{CL: -1}
	if h.patience == 0 {
		h.patience = 20 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), h.patience)
	defer cancel()
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
		if h.nolen {
			rd = struct{ io.Reader }{rd}
		}
	}
	q, err := http.NewRequestWithContext(ctx, method, "https://"+h.addr+"/", rd)
	if err != nil {
		w.Err = err
		return w
	}
	// the target goes out as it is
	q.URL.Opaque = "//" + h.addr + target
	if i := strings.IndexByte(target, '?'); i >= 0 {
		q.URL.Opaque, q.URL.RawQuery = "//"+h.addr+target[:i], target[i+1:]
		q.URL.ForceQuery = target[i+1:] == ""
	}
	q.Header["User-Agent"] = nil
	for _, x := range hdr {
		if strings.EqualFold(x[0], "host") {
			continue
		}
		q.Header.Add(x[0], x[1])
	}
	r, err := h.t.RoundTrip(q)
	if err != nil {
		w.Err = err
		return w
	}
	defer r.Body.Close()
	if r.ProtoMajor != 2 {
		w.Err = errors.New("not HTTP/2 but " + r.Proto)
		return w
	}
	w.Line, w.Status, w.CL = "HTTP/2 "+r.Status, r.StatusCode, r.ContentLength
	for k, v := range r.Header {
		for _, x := range v {
			w.Hdr = append(w.Hdr, [2]string{k, x})
		}
	}
	w.Body, w.Err = io.ReadAll(r.Body)
	return w
}

// logEntries parses what the server wrote, line by line; bad are the lines that are not JSON objects
func logEntries(out string) (all []map[string]interface{}, bad []string) {
	for _, l := range strings.Split(out, "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		d := json.NewDecoder(strings.NewReader(l))
		d.UseNumber()
		m := map[string]interface{}{}
		if d.Decode(&m) != nil || d.More() {
			bad = append(bad, l)
			continue
		}
		all = append(all, m)
	}
	return
}

func str(v interface{}) string {
	if v == nil {
		return ""
	}
	return fmt.Sprint(v)
}

func sortedKeys(m map[string]string) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// dialFrom connects from a loopback address
func dialFrom(src string, port int) (net.Conn, error) {
	ip := net.ParseIP(src)
	to := "127.0.0.1"
	if ip.To4() == nil {
		to = src
	}
	return (&net.Dialer{Timeout: 5 * time.Second, LocalAddr: &net.TCPAddr{IP: ip}}).Dial("tcp", net.JoinHostPort(to, fmt.Sprint(port)))
}
