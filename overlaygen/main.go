// Command overlaygen writes a `go build -overlay` description that replaces a
// handful of Go standard-library files with copies carrying simulation hooks.
//
// The program under test (/repo) is compiled exactly as it stands in its working
// tree.  What changes is the floor it stands on: the typed system-call wrappers,
// the clock, the HTTP transport, and the source of run-time randomness (map
// iteration order, temporary file names).  Every edit is anchored on the exact
// text it replaces, and a missing anchor is a hard error: a different Go release
// makes the build fail, it never silently drops a seam.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
)

type edit struct{ file, old, new string }

var replaceMap = map[string]string{}
var outDir, src string

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "overlaygen: "+f+"\n", a...)
	os.Exit(3)
}

func put(rel, text string) {
	dst := filepath.Join(outDir, strings.ReplaceAll(rel, "/", "__"))
	if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
		die("%v", err)
	}
	replaceMap[filepath.Join(src, rel)] = dst
}

var loaded = map[string]string{}

func get(rel string) string {
	if t, ok := loaded[rel]; ok {
		return t
	}
	b, err := os.ReadFile(filepath.Join(src, rel))
	if err != nil {
		die("%v", err)
	}
	return string(b)
}

func sub(rel, old, new string) {
	t := get(rel)
	if strings.Count(t, old) != 1 {
		die("anchor occurs %d times in %s: %q", strings.Count(t, old), rel, old)
	}
	loaded[rel] = strings.Replace(t, old, new, 1)
}

// fn inserts a statement as the first line of the function with this signature.
func fn(rel, sig, stmt string) { sub(rel, sig+" {\n", sig+" {\n"+stmt+"\n") }

func main() {
	if len(os.Args) != 3 {
		die("usage: overlaygen GOROOT OUTDIR")
	}
	outDir, _ = filepath.Abs(os.Args[2])
	src = filepath.Join(os.Args[1], "src")
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		die("%v", err)
	}
	_ = runtime.Version

	// --- system calls -----------------------------------------------------
	z := "syscall/zsyscall_linux_amd64.go"
	type h struct{ sig, call string }
	fdHooks := []h{
		{"func Close(fd int) (err error)", "Close(fd)"},
		{"func Fchmod(fd int, mode uint32) (err error)", "Fchmod(fd, mode)"},
		{"func Fdatasync(fd int) (err error)", "Fsync(fd)"},
		{"func Fsync(fd int) (err error)", "Fsync(fd)"},
		{"func Flock(fd int, how int) (err error)", "Flock(fd, how)"},
		{"func Fstat(fd int, stat *Stat_t) (err error)", "Fstat(fd, stat)"},
		{"func Ftruncate(fd int, length int64) (err error)", "Ftruncate(fd, length)"},
		{"func Getdents(fd int, buf []byte) (n int, err error)", "Getdents(fd, buf)"},
		{"func read(fd int, p []byte) (n int, err error)", "Read(fd, p)"},
		{"func write(fd int, p []byte) (n int, err error)", "Write(fd, p)"},
		{"func pread(fd int, p []byte, offset int64) (n int, err error)", "Pread(fd, p, offset)"},
		{"func pwrite(fd int, p []byte, offset int64) (n int, err error)", "Pwrite(fd, p, offset)"},
		{"func Seek(fd int, offset int64, whence int) (off int64, err error)", "Seek(fd, offset, whence)"},
		{"func fcntl(fd int, cmd int, arg int) (val int, err error)", "Fcntl(fd, cmd, arg)"},
		{"func Fallocate(fd int, mode uint32, off int64, len int64) (err error)", "Unsupported(\"fallocate\")"},
		{"func Fchdir(fd int) (err error)", "Unsupported(\"fchdir\")"},
		{"func Fchown(fd int, uid int, gid int) (err error)", "Unsupported(\"fchown\")"},
		{"func Fstatfs(fd int, buf *Statfs_t) (err error)", "Unsupported(\"fstatfs\")"},
	}
	for _, x := range fdHooks {
		fn(z, x.sig, "\tif fd >= VsimFdBase { return Vsim."+x.call+" }")
	}
	pathHooks := []h{
		{"func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error)", "Openat(dirfd, path, flags, mode)"},
		{"func faccessat(dirfd int, path string, mode uint32) (err error)", "Faccessat(dirfd, path, mode)"},
		{"func faccessat2(dirfd int, path string, mode uint32, flags int) (err error)", "Faccessat(dirfd, path, mode)"},
		{"func fchmodat(dirfd int, path string, mode uint32) (err error)", "Fchmodat(dirfd, path, mode)"},
		{"func fchmodat2(dirfd int, path string, mode uint32, flags int) (err error)", "Fchmodat(dirfd, path, mode)"},
		{"func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error)", "Linkat(olddirfd, oldpath, newdirfd, newpath)"},
		{"func readlinkat(dirfd int, path string, buf []byte) (n int, err error)", "Readlinkat(dirfd, path, buf)"},
		{"func symlinkat(oldpath string, newdirfd int, newpath string) (err error)", "Unsupported(\"symlinkat\")"},
		{"func unlinkat(dirfd int, path string, flags int) (err error)", "Unlinkat(dirfd, path, flags)"},
		{"func utimensat(dirfd int, path string, times *[2]Timespec, flag int) (err error)", "Utimensat(dirfd, path)"},
		{"func Getcwd(buf []byte) (n int, err error)", "Getcwd(buf)"},
		{"func Chdir(path string) (err error)", "Unsupported(\"chdir\")"},
		{"func Chroot(path string) (err error)", "Unsupported(\"chroot\")"},
		{"func Mkdirat(dirfd int, path string, mode uint32) (err error)", "Mkdirat(dirfd, path, mode)"},
		{"func Mknodat(dirfd int, path string, mode uint32, dev int) (err error)", "Unsupported(\"mknodat\")"},
		{"func Fchownat(dirfd int, path string, uid int, gid int, flags int) (err error)", "Unsupported(\"fchownat\")"},
		{"func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error)", "Renameat(olddirfd, oldpath, newdirfd, newpath)"},
		{"func Statfs(path string, buf *Statfs_t) (err error)", "Unsupported(\"statfs\")"},
		{"func Truncate(path string, length int64) (err error)", "Truncate(path, length)"},
		{"func fstatat(fd int, path string, stat *Stat_t, flags int) (err error)", "Fstatat(fd, path, stat, flags)"},
	}
	for _, x := range pathHooks {
		fn(z, x.sig, "\tif VsimOn { return Vsim."+x.call+" }")
	}
	put("syscall/vsim_hooks.go", syscallHooks)
	sub("os/exec.go", "func Getpid() int { return", "func Getpid() int {\n\tif syscall.VsimOn {\n\t\treturn syscall.VsimPid\n\t}\n\treturn")

	at := "internal/syscall/unix/at.go"
	fn(at, "func Unlinkat(dirfd int, path string, flags int) error", "\tif syscall.VsimOn { return syscall.Vsim.Unlinkat(dirfd, path, flags) }")
	fn(at, "func Openat(dirfd int, path string, flags int, perm uint32) (int, error)", "\tif syscall.VsimOn { return syscall.Vsim.Openat(dirfd, path, flags, perm) }")
	fn(at, "func Readlinkat(dirfd int, path string, buf []byte) (int, error)", "\tif syscall.VsimOn { return syscall.Vsim.Readlinkat(dirfd, path, buf) }")
	fn(at, "func Mkdirat(dirfd int, path string, mode uint32) error", "\tif syscall.VsimOn { return syscall.Vsim.Mkdirat(dirfd, path, mode) }")
	fn(at, "func Fchownat(dirfd int, path string, uid, gid int, flags int) error", "\tif syscall.VsimOn { return syscall.Vsim.Unsupported(\"fchownat\") }")
	fn(at, "func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) error", "\tif syscall.VsimOn { return syscall.Vsim.Renameat(olddirfd, oldpath, newdirfd, newpath) }")
	fn(at, "func Linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flag int) error", "\tif syscall.VsimOn { return syscall.Vsim.Linkat(olddirfd, oldpath, newdirfd, newpath) }")
	fn(at, "func Symlinkat(oldpath string, newdirfd int, newpath string) error", "\tif syscall.VsimOn { return syscall.Vsim.Unsupported(\"symlinkat\") }")
	fn("internal/syscall/unix/at_fstatat.go", "func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error", "\tif syscall.VsimOn { return syscall.Vsim.Fstatat(dirfd, path, stat, flags) }")
	fn("internal/syscall/unix/fchmodat_linux.go", "func Fchmodat(dirfd int, path string, mode uint32, flags int) error", "\tif syscall.VsimOn { return syscall.Vsim.Fchmodat(dirfd, path, mode) }")
	fn("internal/syscall/unix/eaccess.go", "func Eaccess(path string, mode uint32) error", "\tif syscall.VsimOn { return syscall.Vsim.Faccessat(-100, path, mode) }")
	fn("internal/syscall/unix/copy_file_range_unix.go", "func CopyFileRange(rfd int, roff *int64, wfd int, woff *int64, len int, flags int) (n int, err error)", "\tif rfd >= syscall.VsimFdBase || wfd >= syscall.VsimFdBase { return 0, syscall.ENOSYS }")
	fn("internal/syscall/unix/fcntl_unix.go", "func Fcntl(fd int, cmd int, arg int) (int, error)", "\tif fd >= syscall.VsimFdBase { return syscall.Vsim.Fcntl(fd, cmd, arg) }")

	// --- randomness (map order, temp names, math/rand) ----------------------
	fn("runtime/rand.go", "func rand() uint64", "\tif vsimRandOn { return vsimRandConst }")
	for _, f := range []string{"os/tempfile.go", "math/rand/rand.go", "math/rand/v2/rand.go"} {
		sub(f, "//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.vsimRandNext\n")
	}
	sub("runtime/rand.go", "\tmp.cheaprand = uint32(rand())\n\tmp.cheaprand64 = rand()\n", "\tx, _ := mp.chacha8.Next()\n\ty, _ := mp.chacha8.Next()\n\tmp.cheaprand = uint32(x)\n\tmp.cheaprand64 = y\n")
	put("runtime/vsim_rand.go", runtimeHooks)
	sub("internal/runtime/maps/runtime_alg.go", "\t\tkey[i] = bootstrapRand()\n", "\t\t_ = bootstrapRand()\n\t\tkey[i] = 0x9e3779b97f4a7c15 * (uint64(i) + 1) ^ 0xd1b54a32d192ed03\n")

	// --- clock ---------------------------------------------------------------
	sub("time/time.go", "func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n", "func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n\tsec += VsimSkew\n\tif mono == 0 {\n\t\tmono = runtimeNano() // a wall clock that jumps leaves it alone\n\t}\n")
	put("time/vsim_skew.go", "package time\n\n// VsimSkew (simulation hook) is added, in seconds, to the wall clock Now returns.\nvar VsimSkew int64\n")

	// --- network ---------------------------------------------------------------
	fn("net/http/transport.go", "func (t *Transport) roundTrip(req *Request) (_ *Response, err error)", "\tif VsimRoundTrip != nil { return VsimRoundTrip(req) }")
	put("net/http/vsim_net.go", "package http\n\n// VsimRoundTrip (simulation hook), when set, replaces every Transport's round trip.\nvar VsimRoundTrip func(req *Request) (*Response, error)\n")

	// --- virtual time bubble -----------------------------------------------
	put("testing/synctest/vsim_run.go", "package synctest\n\nimport \"internal/synctest\"\n\n// VsimRun (simulation hook) runs f in a new bubble without a *testing.T.\nfunc VsimRun(f func()) { synctest.Run(f) }\n")

	for rel, t := range loaded {
		put(rel, t)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replaceMap}, "", " ")
	if err := os.WriteFile(filepath.Join(outDir, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
}

const syscallHooks = `package syscall

import _ "unsafe"

// Simulation hooks: see /verif/overlaygen.

// VsimFdBase is the first descriptor number of the simulated kernel.
const VsimFdBase = 1 << 28

// VsimOn routes path based calls to Vsim while it is set.
var VsimOn bool

type VsimHooks struct {
	Openat      func(dirfd int, path string, flags int, mode uint32) (int, error)
	Close       func(fd int) error
	Read        func(fd int, p []byte) (int, error)
	Write       func(fd int, p []byte) (int, error)
	Pread       func(fd int, p []byte, off int64) (int, error)
	Pwrite      func(fd int, p []byte, off int64) (int, error)
	Seek        func(fd int, off int64, whence int) (int64, error)
	Fcntl       func(fd, cmd, arg int) (int, error)
	Fchmod      func(fd int, mode uint32) error
	Fsync       func(fd int) error
	Flock       func(fd int, how int) error
	Fstat       func(fd int, st *Stat_t) error
	Ftruncate   func(fd int, n int64) error
	Getdents    func(fd int, buf []byte) (int, error)
	Faccessat   func(dirfd int, path string, mode uint32) error
	Fchmodat    func(dirfd int, path string, mode uint32) error
	Linkat      func(od int, op string, nd int, np string) error
	Readlinkat  func(dirfd int, path string, buf []byte) (int, error)
	Unlinkat    func(dirfd int, path string, flags int) error
	Utimensat   func(dirfd int, path string) error
	Getcwd      func(buf []byte) (int, error)
	Mkdirat     func(dirfd int, path string, mode uint32) error
	Renameat    func(od int, op string, nd int, np string) error
	Truncate    func(path string, n int64) error
	Fstatat     func(dirfd int, path string, st *Stat_t, flags int) error
	Unsupported func(name string) error
}

var Vsim *VsimHooks

// VsimPid is the process ID os.Getpid reports while VsimOn is set.
var VsimPid int

//go:linkname vsimSetRand runtime.vsimSetRand
func vsimSetRand(on bool, seed uint64)

// VsimSetRand seeds (or releases) the run-time random source.
func VsimSetRand(on bool, seed uint64) { vsimSetRand(on, seed) }
`

const runtimeHooks = `package runtime

import _ "unsafe"

var vsimRandOn bool
var vsimRandState, vsimRandConst uint64

// Map seeds and iteration orders do not change within a turn: code that fills a
// cache once per process must not shift what the others draw. Whoever asks for
// random numbers as such gets a stream.
//
//go:linkname vsimRandNext
func vsimRandNext() uint64 {
	if !vsimRandOn {
		return rand()
	}
	vsimRandState += 0x9e3779b97f4a7c15
	z := vsimRandState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:linkname vsimSetRand
func vsimSetRand(on bool, seed uint64) {
	vsimRandConst = seed*0x9e3779b97f4a7c15 ^ seed>>29 ^ 0xd1b54a32d192ed03
	vsimRandState = seed
	vsimRandOn = on
}
`
