package sim

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

// Resp is what the simulated network does with one request.
type Resp struct {
	Status  int
	Body    []byte
	Endless bool // the body never ends
	NoLen   bool // no Content-Length
	LieLen  int64
	// ConnErr: no response at all. CutAt>=0 with Cut: the connection dies after
	// CutAt bytes. Stall: nothing arrives any more (StallAt body bytes did).
	ConnErr bool
	Cut     bool
	CutAt   int
	Stall   bool
	StallAt int
	Trickle bool // one byte every now and then
	Every   time.Duration
	Latency time.Duration
	Loc     string // redirect
	Name    string // for the log
}

func ok(b []byte, name string) *Resp { return &Resp{Status: 200, Body: b, Name: name} }
func (rs *Resp) every() time.Duration {
	if rs.Every == 0 {
		return time.Minute
	}
	return rs.Every
}

func status(c int) *Resp { return &Resp{Status: c, Body: []byte("no"), Name: fmt.Sprint("http ", c)} }

// ReqRec is one request as the server saw it.
type ReqRec struct {
	URL   string
	Resp  *Resp
	Bytes int64         // body bytes handed to the client
	Limit int64         // maximum length asked for (fetcher seam only), -1 unknown
	Hop   bool          // a followed redirect
	Start time.Duration // simulated time, whatever the clocks say
	End   time.Duration
}

type Net struct {
	Serve func(p *Proc, u string) *Resp
	Reqs  []*ReqRec
}

// canonURL is one spelling per request target, whoever built it.
func canonURL(raw string) string {
	u, err := url.Parse(raw)
	if err != nil {
		return raw
	}
	return u.String()
}

const longStall = 300 * time.Hour

var errConn = errors.New("simulated connection reset by peer")

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "simulated timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func (r *Run) installNet() {
	r.Net = &Net{}
	http.VsimRoundTrip = r.roundTrip
}

func (r *Run) request(p *Proc, raw string, limit int64, hop bool) (*ReqRec, *Resp) {
	u := canonURL(raw)
	r.step(p)
	r.yield(p)
	p.reqs++
	if p.reqs > 400 {
		r.violate("too-many-requests", "%s sent more than 400 requests in one session", p.Name)
		r.kill(p)
	}
	resp := r.Net.Serve(p, u)
	if resp == nil {
		resp = status(404)
	}
	rec := &ReqRec{URL: u, Resp: resp, Limit: limit, Start: simTime(), Hop: hop}
	r.Net.Reqs = append(r.Net.Reqs, rec)
	p.reqLog = append(p.reqLog, rec)
	r.ev("%s GET %s -> %s", p.Name, u, resp.Name)
	return rec, resp
}

func (r *Run) roundTrip(req *http.Request) (*http.Response, error) {
	p := r.cur
	if p == nil {
		return nil, errors.New("sim: request without an acting process")
	}
	if p.dead {
		return nil, errConn
	}
	ctx := req.Context()
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if req.Body != nil {
		req.Body.Close()
	}
	rec, resp := r.request(p, req.URL.String(), -1, req.Response != nil)
	if resp.Latency > 0 {
		if err := r.sleep(p, resp.Latency, ctx); err != nil {
			return nil, err
		}
	}
	if resp.ConnErr {
		r.count("fault:net:conn-error")
		p.netFault++
		return nil, errConn
	}
	if resp.Stall && resp.StallAt < 0 {
		r.count("fault:net:stall")
		p.netFault++
		if err := r.sleep(p, longStall, ctx); err != nil {
			return nil, err
		}
		return nil, errConn
	}
	h := http.Header{}
	if resp.Loc != "" {
		h.Set("Location", resp.Loc)
	}
	n := int64(len(resp.Body))
	if resp.LieLen != 0 {
		n = resp.LieLen
	}
	if resp.Endless || resp.NoLen {
		n = -1
	}
	if n >= 0 {
		h.Set("Content-Length", strconv.FormatInt(n, 10))
	}
	return &http.Response{
		Status: strconv.Itoa(resp.Status) + " " + http.StatusText(resp.Status), StatusCode: resp.Status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, ContentLength: n, Request: req,
		Body: &simBody{r: r, p: p, rec: rec, resp: resp, ctx: ctx, want: n},
	}, nil
}

type simBody struct {
	r    *Run
	p    *Proc
	rec  *ReqRec
	resp *Resp
	ctx  context.Context
	pos  int
	want int64
	done bool
}

func (b *simBody) Close() error { b.done = true; return nil }

func (b *simBody) Read(buf []byte) (int, error) {
	p, resp := b.p, b.resp
	if b.done {
		return 0, errors.New("http: read on closed response body")
	}
	if p.dead || b.r.cur != p {
		return 0, errConn
	}
	if err := b.ctx.Err(); err != nil {
		return 0, err
	}
	b.r.step(p)
	b.rec.End = simTime()
	if len(buf) == 0 {
		return 0, nil
	}
	max := len(buf)
	if resp.Trickle {
		b.r.count("fault:net:trickle")
		p.netFault++
		if err := b.r.sleep(p, resp.every(), b.ctx); err != nil {
			return 0, err
		}
		max = 1
	}
	if resp.Endless {
		b.r.count("fault:net:endless")
		p.netFault++
		if max > 4096 {
			max = 4096
		}
		for i := 0; i < max; i++ {
			buf[i] = ' '
			if b.pos+i < len(resp.Body) {
				buf[i] = resp.Body[b.pos+i]
			}
		}
		b.pos += max
		b.rec.Bytes += int64(max)
		b.r.overread(p, b.rec)
		return max, nil
	}
	lim := len(resp.Body)
	if resp.Cut && resp.CutAt < lim {
		lim = resp.CutAt
	}
	if resp.Stall && resp.StallAt < lim {
		lim = resp.StallAt
	}
	if b.want >= 0 && int64(lim) > b.want {
		lim = int(b.want) // the client stops at the announced length
	}
	if b.pos < lim {
		n := copy(buf[:max], resp.Body[b.pos:lim])
		b.pos += n
		b.rec.Bytes += int64(n)
		b.r.overread(p, b.rec)
		return n, nil
	}
	if resp.Cut && resp.CutAt < len(resp.Body) {
		b.r.count("fault:net:cut")
		p.netFault++
		return 0, errConn
	}
	if resp.Stall {
		b.r.count("fault:net:stall-body")
		p.netFault++
		if err := b.r.sleep(p, longStall, b.ctx); err != nil {
			return 0, err
		}
		return 0, errConn
	}
	if b.want >= 0 && int64(b.pos) < b.want {
		b.r.count("fault:net:short-body")
		p.netFault++
		return 0, io.ErrUnexpectedEOF
	}
	return 0, io.EOF
}

// overread: nobody needs more than the largest limit of any configuration plus
// a generous buffer.
func (r *Run) overread(p *Proc, rec *ReqRec) {
	if rec.Bytes > maxAnyLimit+1<<20 {
		r.violate("unbounded-download", "%s read %d bytes of %s", p.Name, rec.Bytes, rec.URL)
		r.kill(p)
	}
}

var maxAnyLimit int64 = 5000000

// stubFetcher is the Fetcher seam with the same network behind it and an exact
// implementation of the documented contract.
type stubFetcher struct{ r *Run }

func (s *stubFetcher) DownloadFile(raw string, maxLength int64, timeout time.Duration) ([]byte, error) {
	r := s.r
	p := r.cur
	if p == nil || p.dead {
		return nil, errConn
	}
	if timeout <= 0 {
		timeout = longStall
	}
	hops := 0
again:
	rec, resp := r.request(p, raw, maxLength, hops > 0)
	defer func() { rec.End = simTime() }()
	lat := resp.Latency
	if resp.Stall || resp.Trickle {
		r.count("fault:net:stall")
		p.netFault++
		lat = longStall
	}
	if lat > timeout {
		r.sleep(p, timeout, nil)
		return nil, timeoutErr{}
	}
	if lat > 0 {
		r.sleep(p, lat, nil)
	}
	if resp.ConnErr {
		r.count("fault:net:conn-error")
		p.netFault++
		return nil, errConn
	}
	if resp.Status >= 300 && resp.Status < 400 && resp.Loc != "" {
		hops++
		if hops > 10 {
			return nil, errors.New("stopped after 10 redirects")
		}
		raw = resp.Loc
		goto again
	}
	if resp.Status != 200 {
		return nil, metadata.ErrDownloadHTTP{StatusCode: resp.Status, URL: raw}
	}
	if resp.Endless {
		r.count("fault:net:endless")
		p.netFault++
		return nil, metadata.ErrDownloadLengthMismatch{Msg: "endless"}
	}
	n := int64(len(resp.Body))
	if resp.LieLen != 0 {
		if resp.LieLen > maxLength {
			return nil, metadata.ErrDownloadLengthMismatch{Msg: "announced length too large"}
		}
		if resp.LieLen > n {
			r.count("fault:net:short-body")
			p.netFault++
			return nil, io.ErrUnexpectedEOF
		}
		n = resp.LieLen
	}
	if !resp.NoLen && n > maxLength {
		return nil, metadata.ErrDownloadLengthMismatch{Msg: "too large"}
	}
	if resp.Cut && int64(resp.CutAt) < n {
		if int64(resp.CutAt) > maxLength {
			return nil, metadata.ErrDownloadLengthMismatch{Msg: "too large"}
		}
		r.count("fault:net:cut")
		p.netFault++
		return nil, errConn
	}
	if n > maxLength {
		return nil, metadata.ErrDownloadLengthMismatch{Msg: "too large"}
	}
	rec.Bytes = n
	return append([]byte(nil), resp.Body[:n]...), nil
}

func escapeRole(s string) string { return url.QueryEscape(s) }

func trimSlash(s string) string { return strings.TrimSuffix(s, "/") }

// slow: latencies above it must run into the request timeout, those below slowOK
// must not.
const slow = 60 * time.Second

func simTime() time.Duration {
	return time.Duration(time.Now().UnixNano() - time.VsimSkew*1e9)
}
