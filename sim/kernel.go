package sim

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// The simulated kernel: one file system per run. It knows what is only in memory
// and what a power failure leaves behind:
//
//   - namespace changes (create, rename, unlink, mkdir) are journalled in order; a
//     power failure keeps a prefix of the journal, and never less than what was
//     there at the last fsync of anything;
//   - the data of a file is durable as of its last fsync; what was written after
//     that may be there, missing, zero-filled or cut short.

type inode struct {
	ino   uint64
	dir   map[string]*inode // nil for files
	data  []byte
	sync  []byte // content at the last fsync
	clean bool   // data == durable content
	mode  uint32
	mtime time.Time
}

type nsOp struct {
	kind     string // link, unlink, rename, mkdir
	from, to string
	node     *inode
}

type FS struct {
	root    *inode
	durable *inode // committed namespace (same file inodes, own directories)
	journal []nsOp
	nextIno uint64
}

func (fs *FS) newNode(dir bool, mode uint32) *inode {
	fs.nextIno++
	n := &inode{ino: fs.nextIno, mode: mode, mtime: time.Now()}
	if dir {
		n.dir = map[string]*inode{}
		n.clean = true
	}
	return n
}

func NewFS() *FS {
	fs := &FS{}
	fs.root = fs.newNode(true, 0o755)
	fs.commit()
	return fs
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func copyDir(n *inode) *inode {
	if n.dir == nil {
		return n
	}
	c := &inode{ino: n.ino, dir: map[string]*inode{}, mode: n.mode, mtime: n.mtime, clean: true}
	for _, k := range sortedKeys(n.dir) {
		c.dir[k] = copyDir(n.dir[k])
	}
	return c
}

func (fs *FS) commit() {
	fs.durable = copyDir(fs.root)
	fs.journal = nil
}

func split(p string) []string {
	var r []string
	for _, x := range strings.Split(p, "/") {
		if x != "" && x != "." {
			r = append(r, x)
		}
	}
	return r
}

// walk resolves an absolute path. It returns the parent directory, the last name
// and the node (nil if it does not exist).
func walk(root *inode, p string) (*inode, string, *inode, error) {
	stack := []*inode{root}
	names := []string{""}
	parts := split(p)
	if len(parts) == 0 {
		return nil, "", root, nil
	}
	for i, x := range parts {
		cur := stack[len(stack)-1]
		if cur.dir == nil {
			return nil, "", nil, syscall.ENOTDIR
		}
		if x == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
				names = names[:len(names)-1]
			}
			if i == len(parts)-1 {
				n := stack[len(stack)-1]
				if len(stack) == 1 {
					return nil, "", n, nil
				}
				return stack[len(stack)-2], names[len(names)-1], n, nil
			}
			continue
		}
		if len(x) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		nx := cur.dir[x]
		if i == len(parts)-1 {
			return cur, x, nx, nil
		}
		if nx == nil {
			return nil, "", nil, syscall.ENOENT
		}
		stack = append(stack, nx)
		names = append(names, x)
	}
	panic("unreachable")
}

func (fs *FS) log(op nsOp) { fs.journal = append(fs.journal, op) }

func applyNS(root *inode, op nsOp) {
	switch op.kind {
	case "link", "mkdir":
		d, b, _, err := walk(root, op.to)
		if err != nil || d == nil || d.dir == nil {
			return
		}
		n := op.node
		if op.kind == "mkdir" {
			n = &inode{ino: op.node.ino, dir: map[string]*inode{}, mode: op.node.mode, clean: true}
		}
		d.dir[b] = n
	case "unlink":
		if d, b, n, err := walk(root, op.to); err == nil && n != nil && d != nil {
			delete(d.dir, b)
		}
	case "rename":
		d, b, n, err := walk(root, op.from)
		if err != nil || n == nil || d == nil {
			return
		}
		d2, b2, _, err := walk(root, op.to)
		if err != nil || d2 == nil {
			return
		}
		delete(d.dir, b)
		d2.dir[b2] = n
	}
}

// PowerLoss replaces the state by one a power failure may leave behind.
func (fs *FS) PowerLoss(s *Src, note func(string)) {
	keep := len(fs.journal)
	if keep > 0 {
		keep -= s.N(keep + 1)
	}
	lost := len(fs.journal) - keep
	ns := copyDir(fs.durable)
	for _, op := range fs.journal[:keep] {
		applyNS(ns, op)
	}
	fs.root = ns
	if lost > 0 {
		note(fmt.Sprintf("power loss drops %d of %d namespace changes", lost, len(fs.journal)))
	}
	var settle func(p string, n *inode)
	settle = func(p string, n *inode) {
		if n.dir != nil {
			for _, k := range sortedKeys(n.dir) {
				settle(p+"/"+k, n.dir[k])
			}
			return
		}
		if n.clean {
			return
		}
		full := n.data
		how := ""
		switch s.W(3, 3, 2, 2, 2) {
		case 0: // it made it in time
		case 1:
			n.data, how = append([]byte(nil), n.sync...), "reverts to the last synced content"
		case 2:
			n.data, how = nil, "is empty"
		case 3:
			n.data, how = make([]byte, len(full)), "is zero-filled"
		case 4:
			n.data, how = append([]byte(nil), full[:s.N(len(full)+1)]...), "is cut short"
		}
		n.clean = true
		n.sync = n.data
		if how != "" {
			note("power loss: " + p + " " + how)
		}
	}
	settle("", fs.root)
	fs.commit()
}

// --- direct access for the harness (no faults, no events) -----------------------

func (fs *FS) MkdirAll(p string) {
	cur := fs.root
	for _, x := range split(p) {
		n := cur.dir[x]
		if n == nil {
			n = fs.newNode(true, 0o755)
			cur.dir[x] = n
		}
		cur = n
	}
	fs.commit()
}

func (fs *FS) Put(p string, data []byte) {
	d, b, n, err := walk(fs.root, p)
	if err != nil || d == nil {
		panic("sim: Put " + p)
	}
	if n == nil || n.dir != nil {
		n = fs.newNode(false, 0o644)
		d.dir[b] = n
	}
	n.data = append([]byte(nil), data...)
	n.sync, n.clean = n.data, true
	n.mtime = time.Now()
	fs.commit()
}

func (fs *FS) Get(p string) ([]byte, bool) {
	_, _, n, err := walk(fs.root, p)
	if err != nil || n == nil || n.dir != nil {
		return nil, false
	}
	return n.data, true
}

func (fs *FS) Del(p string) {
	d, b, n, err := walk(fs.root, p)
	if err == nil && n != nil && d != nil {
		delete(d.dir, b)
		fs.commit()
	}
}

// Files lists every regular file below p.
func (fs *FS) Files(p string) []string {
	_, _, n, err := walk(fs.root, p)
	if err != nil || n == nil {
		return nil
	}
	var out []string
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		if n.dir == nil {
			out = append(out, p)
			return
		}
		for _, k := range sortedKeys(n.dir) {
			rec(path.Join(p, k), n.dir[k])
		}
	}
	rec(path.Clean(p), n)
	return out
}

func (fs *FS) Hash() uint64 {
	h := fnv.New64a()
	for _, f := range fs.Files("/") {
		b, _ := fs.Get(f)
		h.Write([]byte(f))
		h.Write([]byte{0})
		h.Write(b)
		h.Write([]byte{1})
	}
	return h.Sum64()
}

// --- system calls ----------------------------------------------------------------

type openFile struct {
	fd     int
	node   *inode
	path   string
	pos    int64
	flags  int
	owner  *Proc
	names  []string // directory listing position
	closed bool
	wrote  bool
}

const atFdcwd = -100

func (r *Run) abs(p *Proc, dirfd int, name string) (string, error) {
	if name == "" {
		return "", syscall.ENOENT
	}
	if strings.IndexByte(name, 0) >= 0 {
		return "", syscall.EINVAL
	}
	if strings.HasPrefix(name, "/") {
		return name, nil
	}
	if dirfd == atFdcwd {
		return p.Cwd + "/" + name, nil
	}
	f := r.fds[dirfd]
	if f == nil {
		return "", syscall.EBADF
	}
	return f.path + "/" + name, nil
}

// mutating calls are the crash points of interest.
var mutating = map[string]bool{"create": true, "trunc": true, "write": true, "fsync": true, "rename": true, "unlink": true, "mkdir": true, "link": true, "ftruncate": true}

// enter is the gate every simulated call passes: scheduling, crashes, faults.
// It returns the acting process and the injected error, if any. For writes the
// int is the number of bytes to write before the error.
func (r *Run) enter(op, p string, n int) (*Proc, int, error) {
	pr := r.cur
	if pr == nil {
		panic("sim: system call " + op + " without an acting process")
	}
	if pr.dead {
		return pr, 0, syscall.EIO
	}
	r.step(pr)
	r.yield(pr)
	if mutating[op] {
		k := pr.mut
		pr.mut++
		if pl := pr.plan; pl != nil && pl.CrashAt > 0 && k == pl.CrashAt-1 && !pr.crashing {
			if pl.CrashAfter {
				pr.crashing = true // take effect (a write: in part), then stop at the next call
			} else {
				r.crash(pr, op, p)
			}
		}
	}
	if pr.crashing && (!mutating[op] || pr.crashed1) {
		r.crash(pr, op, p)
	}
	if pr.crashing {
		pr.crashed1 = true
		if op == "write" && n > 0 {
			return pr, r.Src.N(n + 1), nil
		}
	}
	if pl := pr.plan; pl != nil {
		for _, f := range pl.IO {
			if f.hit(op, p) {
				r.count("fault:io:" + op + ":" + errName(f.Err))
				pr.ioFaults++
				switch {
				case f.Err == syscall.EINTR:
				case mutating[op] || op == "close" || op == "openw" || op == "chmod":
					pr.wFaults++
				case op == "stat":
					pr.statFaults++
					if pr.statBad == nil {
						pr.statBad = map[string]bool{}
					}
					pr.statBad[path.Clean(p)] = true
				default:
					pr.rFaults++
				}
				if op == "unlink" {
					pr.unlinkFault = true
				}
				r.ev("%s %s %s -> injected %v", pr.Name, op, r.disp(p), f.Err)
				part := 0
				if op == "write" && n > 0 {
					part = f.Part % (n + 1)
					if f.Short && part == 0 {
						part = 1
					}
				}
				return pr, part, f.Err
			}
		}
	}
	return pr, -1, nil
}

func errName(e error) string {
	switch e {
	case syscall.EIO:
		return "EIO"
	case syscall.ENOSPC:
		return "ENOSPC"
	case syscall.EACCES:
		return "EACCES"
	case syscall.EROFS:
		return "EROFS"
	case syscall.EINTR:
		return "EINTR"
	case syscall.EMFILE:
		return "EMFILE"
	case syscall.EDQUOT:
		return "EDQUOT"
	}
	return "ERR"
}

// disp is the name of a path in the event log: temporary names are as random as
// the seed makes them, so they are logged as they are.
func (r *Run) disp(p string) string { return path.Clean(p) }

func (r *Run) install() {
	syscall.Vsim = &syscall.VsimHooks{
		Openat: r.sysOpen, Close: r.sysClose, Read: r.sysRead, Write: r.sysWrite,
		Pread: func(fd int, p []byte, off int64) (int, error) { return r.sysIO("pread", fd, p, off) },
		Pwrite: func(fd int, p []byte, off int64) (int, error) {
			return r.sysIO("pwrite", fd, p, off)
		},
		Seek: r.sysSeek, Fcntl: func(fd, cmd, arg int) (int, error) { return 0, nil },
		Fchmod: r.sysFchmod, Fsync: r.sysFsync, Flock: r.sysFlock, Fstat: r.sysFstat,
		Ftruncate: r.sysFtruncate, Getdents: r.sysGetdents,
		Faccessat: r.sysAccess, Fchmodat: r.sysChmod, Linkat: r.sysLink,
		Readlinkat: func(d int, p string, b []byte) (int, error) { return 0, syscall.EINVAL },
		Unlinkat:   r.sysUnlink, Utimensat: func(d int, p string) error { return nil },
		Getcwd: r.sysGetcwd, Mkdirat: r.sysMkdir, Renameat: r.sysRename, Truncate: r.sysTruncate,
		Fstatat: r.sysStat,
		Unsupported: func(n string) error {
			r.Unsupported = append(r.Unsupported, n)
			return syscall.ENOSYS
		},
	}
}

func (r *Run) sysOpen(dirfd int, name string, flags int, mode uint32) (int, error) {
	pr := r.cur
	p, err := r.abs(pr, dirfd, name)
	if err != nil {
		return -1, err
	}
	wr := flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	op := "open"
	d0, _, n0, e0 := walk(r.FS.root, p)
	if flags&syscall.O_CREAT != 0 && e0 == nil && n0 == nil {
		op = "create"
	} else if flags&syscall.O_TRUNC != 0 && n0 != nil {
		op = "trunc"
	} else if wr {
		op = "openw"
	}
	_ = d0
	pr, _, err = r.enter(op, p, 0)
	if err != nil {
		return -1, err
	}
	d, b, n, err := walk(r.FS.root, p)
	if err != nil {
		return -1, err
	}
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			r.ev("%s open %s -> ENOENT", pr.Name, r.disp(p))
			pr.sawFile(p, nil)
			return -1, syscall.ENOENT
		}
		if d == nil || d.dir == nil {
			return -1, syscall.ENOTDIR
		}
		if r.readOnly(p) {
			r.ev("%s create %s -> EROFS", pr.Name, r.disp(p))
			return -1, syscall.EROFS
		}
		if strings.HasSuffix(p, "/") {
			return -1, syscall.EISDIR
		}
		n = r.FS.newNode(false, mode&0o777)
		d.dir[b] = n
		r.FS.log(nsOp{kind: "link", to: p, node: n})
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return -1, syscall.EEXIST
		}
		if n.dir != nil && wr {
			return -1, syscall.EISDIR
		}
		if n.dir == nil && (flags&syscall.O_DIRECTORY != 0 || strings.HasSuffix(p, "/")) {
			return -1, syscall.ENOTDIR
		}
		if wr && r.readOnly(p) {
			return -1, syscall.EROFS
		}
		if flags&syscall.O_TRUNC != 0 && wr {
			n.data, n.clean = nil, false
			n.mtime = time.Now()
		}
	}
	r.touch(pr, p, wr, op == "create")
	if !wr && n.dir == nil {
		pr.sawFile(p, append([]byte{}, n.data...))
	}
	if pr.opened == nil {
		pr.opened = map[string]bool{}
	}
	pr.opened[path.Clean(p)] = true
	r.nextFd++
	f := &openFile{fd: r.nextFd, node: n, path: path.Clean(p), flags: flags, owner: pr}
	r.fds[f.fd] = f
	r.ev("%s %s %s", pr.Name, op, r.disp(p))
	return f.fd, nil
}

func (p *Proc) sawFile(f string, b []byte) {
	if p.reads == nil {
		p.reads = map[string][][]byte{}
	}
	f = path.Clean(f)
	p.reads[f] = append(p.reads[f], b)
}

func (r *Run) readOnly(p string) bool {
	p = path.Clean(p)
	for _, d := range r.ReadOnly {
		if p == d || strings.HasPrefix(p, d+"/") {
			return true
		}
	}
	return false
}

func (r *Run) fd(fd int) *openFile {
	f := r.fds[fd]
	if f == nil || f.closed {
		return nil
	}
	return f
}

func (r *Run) sysClose(fd int) error {
	f := r.fd(fd)
	if f == nil {
		return syscall.EBADF // of an earlier run, closed by a finalizer
	}
	if r.cur == nil {
		return nil
	}
	op := "close"
	if f.flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		op = "closer"
	}
	pr, _, err := r.enter(op, f.path, 0)
	f.closed = true
	delete(r.fds, fd)
	if err != nil {
		if op == "close" && len(f.node.data) > 0 && !pr.dead { // a delayed write error
			f.node.data = append([]byte(nil), f.node.data[:len(f.node.data)/2]...)
			f.node.clean = false
		}
		return err
	}
	r.ev("%s close %s", pr.Name, r.disp(f.path))
	return nil
}

func (r *Run) sysRead(fd int, p []byte) (int, error) {
	f := r.fd(fd)
	if f == nil {
		return 0, syscall.EBADF
	}
	pr, _, err := r.enter("read", f.path, len(p))
	if err != nil {
		return 0, err
	}
	if f.node.dir != nil {
		return 0, syscall.EISDIR
	}
	if f.pos >= int64(len(f.node.data)) || len(p) == 0 {
		return 0, nil
	}
	max := len(p)
	if pl := pr.plan; pl != nil && pl.ShortReads && max > 1 {
		max = 1 + r.Src.N(64)
		if max > len(p) {
			max = len(p)
		}
		r.count("fault:io:short-read")
	}
	n := copy(p[:max], f.node.data[f.pos:])
	f.pos += int64(n)
	r.ev("%s read %s %d", pr.Name, r.disp(f.path), n)
	return n, nil
}

func (n *inode) writeAt(p []byte, off int64) {
	if need := int(off) + len(p); need > len(n.data) {
		d := make([]byte, need)
		copy(d, n.data)
		n.data = d
	} else {
		n.data = append([]byte(nil), n.data...)
	}
	copy(n.data[off:], p)
	n.clean = false
	n.mtime = time.Now()
}

func (r *Run) sysWrite(fd int, p []byte) (int, error) {
	f := r.fd(fd)
	if f == nil {
		return 0, syscall.EBADF
	}
	if f.flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return 0, syscall.EBADF
	}
	pr, part, err := r.enter("write", f.path, len(p))
	if part >= 0 && part < len(p) {
		p = p[:part]
	}
	if f.flags&syscall.O_APPEND != 0 {
		f.pos = int64(len(f.node.data))
	}
	if err == nil || len(p) > 0 {
		if !pr.dead {
			f.node.writeAt(p, f.pos)
			f.pos += int64(len(p))
		}
	}
	if err != nil {
		if len(p) > 0 {
			return len(p), nil // a short write; the next one reports the error
		}
		return 0, err
	}
	if pr.dead {
		return 0, syscall.EIO
	}
	r.ev("%s write %s %d", pr.Name, r.disp(f.path), len(p))
	return len(p), nil
}

func (r *Run) sysIO(op string, fd int, p []byte, off int64) (int, error) {
	f := r.fd(fd)
	if f == nil {
		return 0, syscall.EBADF
	}
	if op == "pwrite" {
		_, _, err := r.enter("write", f.path, len(p))
		if err != nil {
			return 0, err
		}
		f.node.writeAt(p, off)
		return len(p), nil
	}
	if _, _, err := r.enter("read", f.path, len(p)); err != nil {
		return 0, err
	}
	if off >= int64(len(f.node.data)) {
		return 0, nil
	}
	return copy(p, f.node.data[off:]), nil
}

func (r *Run) sysSeek(fd int, off int64, whence int) (int64, error) {
	f := r.fd(fd)
	if f == nil {
		return 0, syscall.EBADF
	}
	switch whence {
	case 0:
		f.pos = off
	case 1:
		f.pos += off
	case 2:
		f.pos = int64(len(f.node.data)) + off
	}
	if f.pos == 0 {
		f.names = nil
	}
	return f.pos, nil
}

func (r *Run) sysFchmod(fd int, mode uint32) error {
	f := r.fd(fd)
	if f == nil {
		return syscall.EBADF
	}
	if _, _, err := r.enter("chmod", f.path, 0); err != nil {
		return err
	}
	f.node.mode = mode & 0o777
	return nil
}

func (r *Run) sysChmod(d int, name string, mode uint32) error {
	p, err := r.abs(r.cur, d, name)
	if err != nil {
		return err
	}
	if _, _, err := r.enter("chmod", p, 0); err != nil {
		return err
	}
	_, _, n, err := walk(r.FS.root, p)
	if err != nil {
		return err
	}
	if n == nil {
		return syscall.ENOENT
	}
	n.mode = mode & 0o777
	return nil
}

func (r *Run) sysFsync(fd int) error {
	f := r.fd(fd)
	if f == nil {
		return syscall.EBADF
	}
	pr, _, err := r.enter("fsync", f.path, 0)
	if err != nil {
		if err != syscall.EINTR && !pr.dead { // the pages are dropped
			f.node.data = append([]byte(nil), f.node.data[:len(f.node.data)/2]...)
			f.node.clean = false
		}
		return err
	}
	f.node.sync, f.node.clean = f.node.data, true
	r.FS.commit()
	r.ev("%s fsync %s", pr.Name, r.disp(f.path))
	return nil
}

func (r *Run) sysFlock(fd int, how int) error {
	f := r.fd(fd)
	if f == nil {
		return syscall.EBADF
	}
	for {
		pr, _, err := r.enter("flock", f.path, 0)
		if err != nil {
			return err
		}
		if how&syscall.LOCK_UN != 0 {
			delete(r.locks, f.node)
			return nil
		}
		if h := r.locks[f.node]; h == nil || h == pr || h.gone {
			r.locks[f.node] = pr
			return nil
		}
		if how&syscall.LOCK_NB != 0 {
			return syscall.EWOULDBLOCK
		}
		r.sleep(pr, time.Millisecond, nil)
	}
}

func (r *Run) fillStat(n *inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{}
	st.Ino, st.Dev, st.Nlink, st.Blksize = n.ino, 1, 1, 4096
	st.Mode = n.mode | syscall.S_IFREG
	if n.dir != nil {
		st.Mode = n.mode | syscall.S_IFDIR
	}
	st.Size = int64(len(n.data))
	st.Blocks = (st.Size + 511) / 512
	st.Mtim = syscall.NsecToTimespec(n.mtime.UnixNano())
	st.Ctim, st.Atim = st.Mtim, st.Mtim
}

func (r *Run) sysFstat(fd int, st *syscall.Stat_t) error {
	f := r.fd(fd)
	if f == nil {
		return syscall.EBADF
	}
	if _, _, err := r.enter("stat", f.path, 0); err != nil {
		return err
	}
	r.fillStat(f.node, st)
	return nil
}

func (r *Run) sysStat(d int, name string, st *syscall.Stat_t, flags int) error {
	if name == "" && flags&0x1000 != 0 { // AT_EMPTY_PATH
		return r.sysFstat(d, st)
	}
	p, err := r.abs(r.cur, d, name)
	if err != nil {
		return err
	}
	pr, _, err := r.enter("stat", p, 0)
	if err != nil {
		return err
	}
	_, _, n, err := walk(r.FS.root, p)
	if err != nil {
		return err
	}
	if n == nil {
		pr.sawFile(p, nil)
		return syscall.ENOENT
	}
	r.ev("%s stat %s", pr.Name, r.disp(p))
	r.fillStat(n, st)
	return nil
}

func (r *Run) sysAccess(d int, name string, mode uint32) error {
	var st syscall.Stat_t
	return r.sysStat(d, name, &st, 0)
}

func (r *Run) sysFtruncate(fd int, n int64) error {
	f := r.fd(fd)
	if f == nil {
		return syscall.EBADF
	}
	if _, _, err := r.enter("ftruncate", f.path, 0); err != nil {
		return err
	}
	d := make([]byte, n)
	copy(d, f.node.data)
	f.node.data, f.node.clean = d, false
	return nil
}

func (r *Run) sysTruncate(name string, n int64) error {
	p, err := r.abs(r.cur, atFdcwd, name)
	if err != nil {
		return err
	}
	if _, _, err := r.enter("ftruncate", p, 0); err != nil {
		return err
	}
	_, _, nd, err := walk(r.FS.root, p)
	if err != nil || nd == nil {
		return syscall.ENOENT
	}
	d := make([]byte, n)
	copy(d, nd.data)
	nd.data, nd.clean = d, false
	return nil
}

func (r *Run) sysGetdents(fd int, buf []byte) (int, error) {
	f := r.fd(fd)
	if f == nil {
		return 0, syscall.EBADF
	}
	if _, _, err := r.enter("getdents", f.path, 0); err != nil {
		return 0, err
	}
	if f.node.dir == nil {
		return 0, syscall.ENOTDIR
	}
	if f.names == nil {
		f.names = sortedKeys(f.node.dir)
		f.pos = 1
	}
	off := 0
	for int(f.pos)-1 < len(f.names) {
		name := f.names[f.pos-1]
		n := f.node.dir[name]
		f.pos++
		if n == nil {
			continue
		}
		rl := (19 + len(name) + 1 + 7) &^ 7
		if off+rl > len(buf) {
			f.pos--
			break
		}
		b := buf[off : off+rl]
		clear(b)
		binary.LittleEndian.PutUint64(b[0:], n.ino)
		binary.LittleEndian.PutUint64(b[8:], uint64(f.pos))
		binary.LittleEndian.PutUint16(b[16:], uint16(rl))
		b[18] = syscall.DT_REG
		if n.dir != nil {
			b[18] = syscall.DT_DIR
		}
		copy(b[19:], name)
		off += rl
	}
	return off, nil
}

func (r *Run) sysLink(od int, op string, nd int, np string) error {
	a, err := r.abs(r.cur, od, op)
	if err != nil {
		return err
	}
	b, err := r.abs(r.cur, nd, np)
	if err != nil {
		return err
	}
	pr, _, err := r.enter("link", b, 0)
	if err != nil {
		return err
	}
	_, _, n, err := walk(r.FS.root, a)
	if err != nil || n == nil {
		return syscall.ENOENT
	}
	d, base, o, err := walk(r.FS.root, b)
	if err != nil {
		return err
	}
	if o != nil {
		return syscall.EEXIST
	}
	d.dir[base] = n
	r.FS.log(nsOp{kind: "link", to: b, node: n})
	r.touch(pr, b, true, true)
	return nil
}

func (r *Run) sysUnlink(dirfd int, name string, flags int) error {
	p, err := r.abs(r.cur, dirfd, name)
	if err != nil {
		return err
	}
	pr, _, err := r.enter("unlink", p, 0)
	if err != nil {
		return err
	}
	d, b, n, err := walk(r.FS.root, p)
	if err != nil {
		return err
	}
	if n == nil {
		return syscall.ENOENT
	}
	if flags&0x200 != 0 { // AT_REMOVEDIR
		if n.dir == nil {
			return syscall.ENOTDIR
		}
		if len(n.dir) > 0 {
			return syscall.ENOTEMPTY
		}
	} else if n.dir != nil {
		return syscall.EISDIR
	}
	if d == nil {
		return syscall.EBUSY
	}
	if r.readOnly(p) {
		return syscall.EROFS
	}
	r.touch(pr, p, true, false)
	delete(d.dir, b)
	r.FS.log(nsOp{kind: "unlink", to: p})
	r.ev("%s unlink %s", pr.Name, r.disp(p))
	return nil
}

func (r *Run) sysGetcwd(buf []byte) (int, error) {
	pr, _, err := r.enter("getcwd", "", 0)
	if err != nil {
		return 0, err
	}
	n := copy(buf, pr.Cwd+"\x00")
	return n, nil
}

func (r *Run) sysMkdir(dirfd int, name string, mode uint32) error {
	p, err := r.abs(r.cur, dirfd, name)
	if err != nil {
		return err
	}
	pr, _, err := r.enter("mkdir", p, 0)
	if err != nil {
		return err
	}
	d, b, n, err := walk(r.FS.root, p)
	if err != nil {
		return err
	}
	if n != nil {
		return syscall.EEXIST
	}
	if d == nil || d.dir == nil {
		return syscall.ENOTDIR
	}
	if r.readOnly(p) {
		return syscall.EROFS
	}
	n = r.FS.newNode(true, mode&0o777)
	d.dir[b] = n
	r.FS.log(nsOp{kind: "mkdir", to: p, node: n})
	if pr.made == nil {
		pr.made = map[string]bool{}
	}
	pr.made[path.Clean(p)] = true
	r.ev("%s mkdir %s", pr.Name, r.disp(p))
	return nil
}

// mount tells file systems apart: a rename between them fails.
func mount(p string) string {
	x := split(path.Clean(p))
	if len(x) == 0 {
		return ""
	}
	return x[0]
}

func (r *Run) sysRename(od int, op string, nd int, np string) error {
	a, err := r.abs(r.cur, od, op)
	if err != nil {
		return err
	}
	b, err := r.abs(r.cur, nd, np)
	if err != nil {
		return err
	}
	pr, _, err := r.enter("rename", b, 0)
	if err != nil {
		return err
	}
	d, base, n, err := walk(r.FS.root, a)
	if err != nil {
		return err
	}
	if n == nil || d == nil {
		return syscall.ENOENT
	}
	d2, base2, o, err := walk(r.FS.root, b)
	if err != nil {
		return err
	}
	if d2 == nil || d2.dir == nil {
		return syscall.ENOTDIR
	}
	if mount(a) != mount(b) {
		r.count("fault:io:rename:EXDEV")
		return syscall.EXDEV
	}
	if r.readOnly(a) || r.readOnly(b) {
		return syscall.EROFS
	}
	if o != nil && o.dir != nil && n.dir == nil {
		return syscall.EISDIR
	}
	if o != nil && o.dir == nil && n.dir != nil {
		return syscall.ENOTDIR
	}
	r.touch(pr, a, true, false)
	r.touch(pr, b, true, o == nil)
	delete(d.dir, base)
	d2.dir[base2] = n
	r.FS.log(nsOp{kind: "rename", from: a, to: b})
	r.ev("%s rename %s %s", pr.Name, r.disp(a), r.disp(b))
	return nil
}
