package main

import "strings"

type symTab struct {
	repl map[string]string
	pass map[string]bool
	open bool // everything not replaced passes
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

// pref builds name -> prefix+name entries.
func pref(p, s string) map[string]string {
	m := map[string]string{}
	for _, x := range strings.Fields(s) {
		m[x] = p + x
	}
	return m
}

func with(m map[string]string, kv ...string) map[string]string {
	for i := 0; i < len(kv); i += 2 {
		m[kv[i]] = kv[i+1]
	}
	return m
}

var purePkgs = set(`bytes strings strconv errors encoding encoding/binary encoding/hex encoding/base64 encoding/json
 crypto/sha1 crypto/sha256 crypto/md5 hash hash/crc32 hash/fnv math math/bits math/big math/cmplx sort unicode unicode/utf8 unicode/utf16
 container/list container/heap container/ring bufio io io/fs path regexp text/template text/tabwriter
 sync/atomic reflect slices maps cmp net/url net/netip unsafe iter html runtime/debug encoding/base32 encoding/csv errors crypto crypto/subtle`)

var symbols = map[string]symTab{
	"time": {open: true, repl: map[string]string{
		"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "TimeSleep", "After": "TimeAfter",
		"AfterFunc": "TimeAfterFunc", "Tick": "TimeTick", "NewTimer": "NewTimer", "NewTicker": "NewTicker", "Timer": "Timer", "Ticker": "Ticker"}},
	"sync": {repl: pref("", "Mutex RWMutex WaitGroup Once Cond NewCond Map Pool Locker OnceFunc OnceValue OnceValues")},
	"net": {repl: with(pref("Net", "Dial DialTimeout Listen DialTCP ListenTCP Pipe ResolveTCPAddr"), "Dialer", "Dialer", "ListenConfig", "ListenConfig",
		"TCPConn", "TCPConn", "TCPListener", "TCPListener"),
		pass: set(`IP IPv4 ParseIP IPNet ParseCIDR CIDRMask IPMask Addr Conn Listener TCPAddr UDPAddr IPAddr JoinHostPort SplitHostPort Error OpError
		 ErrClosed AddrError DNSError ParseError IPv4Mask IPv4zero IPv4bcast IPv4allsys IPv4allrouter IPv6zero IPv6unspecified IPv6loopback Buffers TCPAddrFromAddrPort
		 InvalidAddrError UnknownNetworkError HardwareAddr ParseMAC ErrWriteToConnected`)},
	"os": {repl: with(pref("Os", `Open OpenFile Create MkdirAll Mkdir Rename Link Remove RemoveAll Stat Truncate Getwd Chdir Exit Getenv LookupEnv Setenv Getpid Hostname TempDir
	 MkdirTemp CreateTemp ReadFile WriteFile ReadDir SameFile Chmod Chtimes UserHomeDir`), "Lstat", "OsStat", "File", "File", "Stdout", "Stdout", "Stderr", "Stderr", "Stdin", "Stdin", "Args", "OsArgs()"),
		pass: set(`FileInfo FileMode DirEntry PathError LinkError SyscallError Signal Interrupt Kill IsNotExist IsExist IsPermission IsTimeout IsPathSeparator
		 ErrNotExist ErrExist ErrPermission ErrClosed ErrInvalid ErrDeadlineExceeded ErrNoDeadline ErrProcessDone NewSyscallError Expand`)},
	"io/ioutil": {repl: map[string]string{"ReadFile": "OsReadFile", "WriteFile": "OsWriteFile", "ReadDir": "IoutilReadDir", "TempFile": "OsCreateTemp", "TempDir": "OsMkdirTemp"},
		pass: set("ReadAll Discard NopCloser")},
	"path/filepath": {open: true, repl: map[string]string{"Abs": "FilepathAbs", "EvalSymlinks": "FilepathEvalSymlinks", "Walk": "FilepathWalk", "WalkDir": "FilepathWalkDir"}},
	"log":           {repl: with(pref("Log", `Print Println Printf Fatal Fatalln Fatalf Panic Panicln Panicf SetFlags SetPrefix SetOutput Flags Prefix Output Writer New Default`), "Logger", "Logger")},
	"fmt":           {open: true, repl: pref("Fmt", "Print Println Printf Scanln")},
	"flag": {repl: pref("Flag", `String Int Int64 Uint Uint64 Bool Float64 Duration StringVar IntVar Int64Var UintVar BoolVar Var Parse Args Arg NArg NFlag Parsed PrintDefaults Lookup Set Usage`),
		pass: set("FlagSet NewFlagSet Flag Value ErrHelp ErrorHandling")},
	"math/rand": {repl: pref("Rand", "Int Intn Int63 Int63n Int31 Int31n Uint32 Uint64 Float64 Float32 Perm Shuffle Seed Read"),
		pass: set("Rand New NewSource Source Source64 Zipf NewZipf")},
	"crypto/rand": {repl: map[string]string{"Read": "RandRead", "Reader": "CryptoReader"}},
	"context": {repl: map[string]string{"Context": "Context", "Background": "CtxBackground", "TODO": "CtxBackground", "WithCancel": "CtxWithCancel", "WithTimeout": "CtxWithTimeout",
		"WithDeadline": "CtxWithDeadline", "WithValue": "CtxWithValue", "CancelFunc": "CancelFunc"}, pass: set("Canceled DeadlineExceeded")},
	"net/http": {repl: map[string]string{"Client": "HTTPClient", "Get": "HTTPGet", "DefaultClient": "HTTPDefaultClient", "NewRequestWithContext": "HTTPNewRequestWithContext", "Transport": "HTTPTransport"},
		pass: set("NewRequest Request Response Header StatusText ErrUseLastResponse ErrBodyReadAfterClose ErrHandlerTimeout MaxBytesReader CookieJar")},
	"os/signal": {repl: pref("Signal", "Notify Stop Ignore")},
	"runtime":   {repl: map[string]string{"Gosched": "Gosched", "NumGoroutine": "NumGoroutine"}, pass: set("NumCPU GOMAXPROCS GC MemStats ReadMemStats Caller Callers Stack Version KeepAlive Error")},
	"syscall":   {pass: set("Errno ENOENT EMFILE ENFILE ECONNABORTED ECONNRESET ECONNREFUSED EPIPE ENOSPC EIO EINTR EAGAIN ENOBUFS ENOMEM SIGINT SIGTERM SIGHUP SIGQUIT EEXIST EINVAL ETIMEDOUT")},
}
