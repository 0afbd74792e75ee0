package rt

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	mrand "math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func itoa(n int) string { return strconv.Itoa(n) }

// ---- output and logging: kept per host, never printed

func print_(s string) {
	if S == nil || S.cur == nil {
		return
	}
	S.op()
	h := S.cur.Host
	if len(h.LogLines) < 2000 {
		h.LogLines = append(h.LogLines, s)
	}
}

func FmtPrint(a ...any) (int, error) { s := fmt.Sprint(a...); print_(s); return len(s), nil }
func FmtPrintln(a ...any) (int, error) {
	s := fmt.Sprintln(a...)
	print_(s)
	return len(s), nil
}
func FmtPrintf(f string, a ...any) (int, error) {
	s := fmt.Sprintf(f, a...)
	print_(s)
	return len(s), nil
}
func FmtScanln(...any) (int, error) { return 0, io.EOF }

func LogPrint(a ...any)            { print_(fmt.Sprint(a...)) }
func LogPrintln(a ...any)          { print_(fmt.Sprintln(a...)) }
func LogPrintf(f string, a ...any) { print_(fmt.Sprintf(f, a...)) }
func LogFatal(a ...any)            { Exit(1, fmt.Sprint(a...)) }
func LogFatalln(a ...any)          { Exit(1, fmt.Sprintln(a...)) }
func LogFatalf(f string, a ...any) { Exit(1, fmt.Sprintf(f, a...)) }
func LogPanic(a ...any)            { panic(fmt.Sprint(a...)) }
func LogPanicln(a ...any)          { panic(fmt.Sprintln(a...)) }
func LogPanicf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
func LogSetFlags(int)              {}
func LogSetPrefix(string)          {}
func LogSetOutput(io.Writer)       {}
func LogFlags() int                { return 0 }
func LogPrefix() string            { return "" }
func LogOutput(int, string) error  { return nil }
func LogWriter() io.Writer         { return Stderr }

// Logger is log.Logger.
type Logger struct{ p string }

func LogNew(_ io.Writer, p string, _ int) *Logger { return &Logger{p} }
func LogDefault() *Logger                         { return &Logger{} }
func (l *Logger) Print(a ...any)                  { print_(l.p + fmt.Sprint(a...)) }
func (l *Logger) Println(a ...any)                { print_(l.p + fmt.Sprintln(a...)) }
func (l *Logger) Printf(f string, a ...any)       { print_(l.p + fmt.Sprintf(f, a...)) }
func (l *Logger) Fatal(a ...any)                  { LogFatal(a...) }
func (l *Logger) Fatalln(a ...any)                { LogFatalln(a...) }
func (l *Logger) Fatalf(f string, a ...any)       { LogFatalf(f, a...) }
func (l *Logger) Panic(a ...any)                  { LogPanic(a...) }
func (l *Logger) Panicf(f string, a ...any)       { LogPanicf(f, a...) }
func (l *Logger) SetFlags(int)                    {}
func (l *Logger) SetPrefix(string)                {}
func (l *Logger) SetOutput(io.Writer)             {}

// ---- flags: one FlagSet per process

type flagState struct{ fs *flag.FlagSet }

func flags() *flag.FlagSet {
	h := S.cur.Host
	if h.flagset == nil {
		fs := flag.NewFlagSet("gotor", flag.ContinueOnError)
		fs.SetOutput(io.Discard)
		h.flagset = &flagState{fs}
	}
	return h.flagset.fs
}

func FlagString(n, v, u string) *string                  { return flags().String(n, v, u) }
func FlagInt(n string, v int, u string) *int             { return flags().Int(n, v, u) }
func FlagInt64(n string, v int64, u string) *int64       { return flags().Int64(n, v, u) }
func FlagUint(n string, v uint, u string) *uint          { return flags().Uint(n, v, u) }
func FlagUint64(n string, v uint64, u string) *uint64    { return flags().Uint64(n, v, u) }
func FlagBool(n string, v bool, u string) *bool          { return flags().Bool(n, v, u) }
func FlagFloat64(n string, v float64, u string) *float64 { return flags().Float64(n, v, u) }
func FlagDuration(n string, v time.Duration, u string) *time.Duration {
	return flags().Duration(n, v, u)
}
func FlagStringVar(p *string, n, v, u string)            { flags().StringVar(p, n, v, u) }
func FlagIntVar(p *int, n string, v int, u string)       { flags().IntVar(p, n, v, u) }
func FlagInt64Var(p *int64, n string, v int64, u string) { flags().Int64Var(p, n, v, u) }
func FlagUintVar(p *uint, n string, v uint, u string)    { flags().UintVar(p, n, v, u) }
func FlagBoolVar(p *bool, n string, v bool, u string)    { flags().BoolVar(p, n, v, u) }
func FlagVar(v flag.Value, n, u string)                  { flags().Var(v, n, u) }
func FlagArgs() []string                                 { return flags().Args() }
func FlagArg(i int) string                               { return flags().Arg(i) }
func FlagNArg() int                                      { return flags().NArg() }
func FlagNFlag() int                                     { return flags().NFlag() }
func FlagParsed() bool                                   { return flags().Parsed() }
func FlagPrintDefaults()                                 {}
func FlagLookup(n string) *flag.Flag                     { return flags().Lookup(n) }
func FlagSet(n, v string) error                          { return flags().Set(n, v) }

var FlagUsage = func() {}

func FlagParse() {
	a := S.cur.Host.Args
	if len(a) > 0 {
		a = a[1:]
	}
	if e := flags().Parse(a); e != nil {
		if errors.Is(e, flag.ErrHelp) {
			Exit(0, "help")
		}
		Exit(2, e.Error())
	}
}

// ---- randomness

type streamSrc struct{ s *Stream }

func (s streamSrc) Int63() int64   { return int64(s.s.U64() >> 1) }
func (s streamSrc) Uint64() uint64 { return s.s.U64() }
func (s streamSrc) Seed(int64)     {}

func grand() *mrand.Rand {
	if S == nil {
		return mrand.New(mrand.NewSource(1))
	}
	return mrand.New(streamSrc{S.Net})
}

func RandInt() int                        { return grand().Int() }
func RandIntn(n int) int                  { return grand().Intn(n) }
func RandInt63() int64                    { return grand().Int63() }
func RandInt63n(n int64) int64            { return grand().Int63n(n) }
func RandInt31() int32                    { return grand().Int31() }
func RandInt31n(n int32) int32            { return grand().Int31n(n) }
func RandUint32() uint32                  { return grand().Uint32() }
func RandUint64() uint64                  { return grand().Uint64() }
func RandFloat64() float64                { return grand().Float64() }
func RandFloat32() float32                { return grand().Float32() }
func RandPerm(n int) []int                { return grand().Perm(n) }
func RandShuffle(n int, f func(i, j int)) { grand().Shuffle(n, f) }
func RandSeed(int64)                      {}
func RandRead(b []byte) (int, error)      { return grand().Read(b) }

type randReader struct{}

func (randReader) Read(b []byte) (int, error) { return RandRead(b) }

var CryptoReader io.Reader = randReader{}

// ---- runtime, signals

func NumGoroutine() int {
	if S == nil || S.cur == nil {
		return 1
	}
	return len(S.cur.Host.gs)
}
func Goexit() {
	panic("runtime.Goexit is not simulated")
}
func SignalNotify(_ *Chan[os.Signal], _ ...os.Signal) {}
func SignalStop(_ *Chan[os.Signal])                   {}
func SignalIgnore(...os.Signal)                       {}

// ---- context

// Context is context.Context with a simulated Done channel.
type Context interface {
	Deadline() (time.Time, bool)
	Done() *Chan[struct{}]
	Err() error
	Value(any) any
}
type CancelFunc func()

type ctx struct {
	parent Context
	done   *Chan[struct{}]
	err    error
	dl     time.Time
	hasDl  bool
	kids   []*ctx
	k, v   any
	ev     *event
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.dl, true
	}
	if c.parent != nil {
		return c.parent.Deadline()
	}
	return time.Time{}, false
}
func (c *ctx) Done() *Chan[struct{}] { return c.done }
func (c *ctx) Err() error            { return c.err }
func (c *ctx) Value(k any) any {
	if c.k != nil && c.k == k {
		return c.v
	}
	if c.parent != nil {
		return c.parent.Value(k)
	}
	return nil
}
func (c *ctx) cancel(e error) {
	if c.err != nil {
		return
	}
	c.err = e
	if S != nil {
		S.cancel(c.ev)
	}
	if c.done != nil {
		c.done.closed = true
		for {
			w := popLive(&c.done.recvq)
			if w == nil {
				break
			}
			w.done = true
			S.ready(w.g)
		}
	}
	for _, k := range c.kids {
		k.cancel(e)
	}
}

func CtxBackground() Context { return &ctx{} }
func newCtx(p Context) *ctx {
	c := &ctx{parent: p, done: MakeChan[struct{}]()}
	if pc, ok := p.(*ctx); ok {
		for x := pc; x != nil; {
			x.kids = append(x.kids, c)
			if x.done != nil {
				break
			}
			x, _ = x.parent.(*ctx)
		}
		if pc.err != nil {
			c.cancel(pc.err)
		}
	}
	return c
}
func CtxWithCancel(p Context) (Context, CancelFunc) {
	c := newCtx(p)
	return c, func() { c.cancel(context.Canceled) }
}
func CtxWithDeadline(p Context, t time.Time) (Context, CancelFunc) {
	c := newCtx(p)
	if pd, ok := p.Deadline(); ok && pd.Before(t) {
		t = pd
	}
	c.dl, c.hasDl = t, true
	c.ev = S.At(untilNs(t), func() { c.cancel(context.DeadlineExceeded) })
	return c, func() { c.cancel(context.Canceled) }
}
func CtxWithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return CtxWithDeadline(p, TimeNow().Add(d))
}
func CtxWithValue(p Context, k, v any) Context {
	c := &ctx{parent: p, k: k, v: v, done: p.Done()}
	return c
}

// ---- HTTP client (a stub of the HTTP stack: requests go to in-process handlers)

// HTTPPlan is a tracker's behaviour for one request.
type HTTPPlan struct {
	Err      error // connection-level failure
	Delay    int64 // before the response header
	Stall    bool  // never answers
	Status   int
	Body     []byte
	Chunk    int   // body arrives in pieces of at most this size
	ChunkGap int64 // delay between pieces
	BreakAt  int   // >0: connection breaks after this many body bytes (error)
	StallAt  int   // >0: body stalls for ever after this many bytes
	Endless  bool  // body never ends
}

type HTTPHandler func(h *Host, req *http.Request) HTTPPlan

// HTTPClient is http.Client.
type HTTPClient struct {
	Transport     any
	CheckRedirect func(req *http.Request, via []*http.Request) error
	Jar           http.CookieJar
	Timeout       time.Duration
}

type HTTPTransport struct {
	DialContext           func(c Context, network, addr string) (net.Conn, error)
	Dial                  func(network, addr string) (net.Conn, error)
	ResponseHeaderTimeout time.Duration
	TLSHandshakeTimeout   time.Duration
	IdleConnTimeout       time.Duration
	DisableKeepAlives     bool
	MaxIdleConns          int
	ExpectContinueTimeout time.Duration
	ForceAttemptHTTP2     bool
}

var HTTPDefaultClient = &HTTPClient{}

type ctxKey struct{}

func HTTPNewRequestWithContext(c Context, m, u string, b io.Reader) (*http.Request, error) {
	r, e := http.NewRequest(m, u, b)
	if e != nil {
		return nil, e
	}
	return r.WithContext(context.WithValue(context.Background(), ctxKey{}, c)), nil
}

func HTTPReqWithContext(r *http.Request, c Context) *http.Request {
	return r.WithContext(context.WithValue(context.Background(), ctxKey{}, c))
}

func HTTPGet(u string) (*http.Response, error) { return HTTPDefaultClient.Get(u) }

func (c *HTTPClient) Get(u string) (*http.Response, error) {
	r, e := http.NewRequest("GET", u, nil)
	if e != nil {
		return nil, e
	}
	return c.Do(r)
}
func (c *HTTPClient) CloseIdleConnections() {}

type httpTimeout struct{}

func (httpTimeout) Error() string   { return "context deadline exceeded (Client.Timeout exceeded)" }
func (httpTimeout) Timeout() bool   { return true }
func (httpTimeout) Temporary() bool { return true }

func (c *HTTPClient) Do(req *http.Request) (*http.Response, error) {
	s := S
	s.progress()
	h := s.cur.Host
	uerr := func(e error) (*http.Response, error) {
		m := req.Method
		return nil, &url.Error{Op: m[:1] + strings.ToLower(m[1:]), URL: req.URL.String(), Err: e}
	}
	if req.URL == nil {
		return nil, errors.New("http: nil Request.URL")
	}
	s.Event("%s http %s %s", h.Name, req.Method, req.URL.String())
	if req.URL.Scheme != "http" && req.URL.Scheme != "https" {
		return uerr(fmt.Errorf("unsupported protocol scheme %q", req.URL.Scheme))
	}
	if req.URL.Host == "" {
		return uerr(errors.New("http: no Host in request URL"))
	}
	var deadline int64
	if c.Timeout > 0 {
		deadline = s.now + int64(c.Timeout)
	}
	hdr := deadline
	if t, ok := c.Transport.(*HTTPTransport); ok && t != nil && t.ResponseHeaderTimeout > 0 {
		if d := s.now + int64(t.ResponseHeaderTimeout); hdr == 0 || d < hdr {
			hdr = d
		}
	}
	if sc, _ := req.Context().Value(ctxKey{}).(Context); sc != nil {
		if t, ok := sc.Deadline(); ok {
			d := s.now + max(untilNs(t), 1)
			if deadline == 0 || d < deadline {
				deadline = d
			}
			if hdr == 0 || d < hdr {
				hdr = d
			}
		}
	}
	wait := func(d, dl int64) error {
		if dl != 0 && s.now+d >= dl {
			if dl > s.now {
				s.sleep(dl-s.now, "http wait")
			}
			return httpTimeout{}
		}
		if d > 0 {
			s.sleep(d, "http wait")
		}
		return nil
	}
	const forever = int64(1) << 60
	hd := s.HTTP[req.URL.Host]
	if hd == nil {
		hd = s.HTTP[req.URL.Hostname()]
	}
	if hd == nil {
		s.Stats["fault.http_unresolved"]++
		if e := wait(1e6, hdr); e != nil {
			return uerr(e)
		}
		return uerr(&net.OpError{Op: "dial", Net: "tcp", Err: &net.DNSError{Err: "no such host", Name: req.URL.Hostname(), IsNotFound: true}})
	}
	p := hd(h, req)
	if p.Stall {
		s.Stats["fault.http_stall"]++
		return uerr(wait(forever, hdr))
	}
	if e := wait(p.Delay, hdr); e != nil {
		return uerr(e)
	}
	if p.Err != nil {
		s.Stats["fault.http_error"]++
		return uerr(p.Err)
	}
	if p.Status == 0 {
		p.Status = 200
	}
	b := &httpBody{s: s, p: p, dl: deadline, wait: wait}
	return &http.Response{Status: fmt.Sprintf("%d %s", p.Status, http.StatusText(p.Status)), StatusCode: p.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: b, ContentLength: -1, Request: req}, nil
}

type httpBody struct {
	s      *Sim
	p      HTTPPlan
	off    int
	dl     int64
	wait   func(d, dl int64) error
	closed bool
}

func (b *httpBody) Read(q []byte) (int, error) {
	b.s.progress()
	if b.closed {
		return 0, http.ErrBodyReadAfterClose
	}
	if b.dl != 0 && b.s.now >= b.dl {
		return 0, httpTimeout{}
	}
	if len(q) == 0 {
		return 0, nil
	}
	end := len(b.p.Body)
	if b.p.BreakAt > 0 && b.p.BreakAt < end {
		end = b.p.BreakAt
	}
	if b.p.StallAt > 0 && b.p.StallAt < end {
		end = b.p.StallAt
	}
	if b.off >= end {
		switch {
		case b.p.StallAt > 0 && b.off >= b.p.StallAt:
			b.s.Stats["fault.http_body_stall"]++
			return 0, b.wait(int64(1)<<60, b.dl)
		case b.p.BreakAt > 0 && b.off >= b.p.BreakAt:
			b.s.Stats["fault.http_body_break"]++
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: &os.SyscallError{Syscall: "read", Err: syscall.ECONNRESET}}
		case b.p.Endless:
			if e := b.wait(1e9, b.dl); e != nil {
				return 0, e
			}
			q[0] = 'x'
			return 1, nil
		}
		return 0, io.EOF
	}
	if b.p.ChunkGap > 0 && b.off > 0 {
		if e := b.wait(b.p.ChunkGap, b.dl); e != nil {
			return 0, e
		}
	}
	n := end - b.off
	if b.p.Chunk > 0 && n > b.p.Chunk {
		n = b.p.Chunk
	}
	n = copy(q, b.p.Body[b.off:b.off+n])
	b.off += n
	return n, nil
}

func (b *httpBody) Close() error { b.closed = true; return nil }
