package sim

import (
	"encoding/hex"
	"fmt"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
)

// Client is one installation of the client: its cache outlives its processes.
type Client struct {
	r      *Run
	w      *World
	rp     *Repo
	cfg    Cfg
	Cwd    string
	pf     *Profile
	inits  []*Doc
	dests  []string
	others map[string]string // files that are nobody's business
	hist   map[string]map[string]bool

	// what accepted sessions establish (see rollback)
	seen    *accepted
	intact  bool
	misled  map[int]bool // unusable initial roots
	session int
	tag     string
}

type accepted struct {
	root     *Doc
	ts, snap int64
	meta     map[string]MetaC
}

func (w *World) NewClient(rp *Repo, name string) *Client {
	s := w.s
	c := &Client{r: w.r, w: w, rp: rp, pf: w.Pf, Cwd: "/home/" + name, others: map[string]string{}, hist: map[string]map[string]bool{}, intact: true}
	fs := w.r.FS
	for _, d := range []string{"/tmp", "/etc", c.Cwd + "/out", "/data", "/var/" + name} {
		fs.MkdirAll(d)
	}
	switch s.N(5) {
	case 0:
		c.cfg.MetaDir, c.cfg.TgtDir = "/var/"+name+"/meta", "/var/"+name+"/targets"
	case 1:
		c.cfg.MetaDir, c.cfg.TgtDir = "md", "td"
	case 2:
		c.cfg.MetaDir, c.cfg.TgtDir = "/var/"+name+"/a/b/meta/", "/data/"+name+"/tg"
	case 3:
		c.cfg.MetaDir, c.cfg.TgtDir = "./cache/meta data", "../"+name+"/cache/targets"
	case 4: // targets below the metadata
		c.cfg.MetaDir, c.cfg.TgtDir = "/var/"+name+"/repo", "/var/"+name+"/repo/targets"
	}
	c.cfg.MetaAbs, c.cfg.TgtAbs = absPath(c.Cwd, c.cfg.MetaDir), absPath(c.Cwd, c.cfg.TgtDir)
	put := func(p, v string) {
		fs.MkdirAll(path.Dir(p))
		fs.Put(p, []byte(v))
		c.others[p] = v
	}
	put("/etc/passwd", "root")
	put(c.Cwd+"/root.json", "not yours")
	put(c.Cwd+"/timestamp.json", "not yours")
	put("/data/f1", "not yours")
	put(path.Dir(c.cfg.MetaAbs)+"/targets.json", "not yours")
	put(path.Dir(c.cfg.MetaAbs)+"/evil.json", "not yours")
	put(path.Dir(c.cfg.TgtAbs)+"/up", "not yours")
	put("/abs.json", "not yours")
	if s.P(300) {
		put(c.cfg.MetaAbs+"/notes.txt", "mine")
	}
	put(c.Cwd+"/out/keep", "mine")
	c.cfg.MetaURL, c.cfg.TgtURL = rp.Meta, rp.Tgt
	if s.P(300) {
		c.cfg.MetaURL, c.cfg.TgtURL = trimSlash(rp.Meta), trimSlash(rp.Tgt)
	}
	c.inits = append(c.inits, rp.roots...)
	c.cfg.Root = rp.roots[s.N(len(rp.roots))].Bytes
	c.cfg.Prefix = rp.prefixed
	return c
}

// libConfig is the configuration made by the library's own constructor, with
// what this client sets.
func (c *Client) libConfig(x *Cfg) (*config.UpdaterConfig, error) {
	lc, err := config.New(x.MetaURL, x.Root)
	if err != nil {
		return nil, err
	}
	lc.LocalMetadataDir, lc.LocalTargetsDir = x.MetaDir, x.TgtDir
	lc.RemoteTargetsURL = x.TgtURL
	lc.DisableLocalCache = x.NoCache
	lc.PrefixTargetsWithHash = x.Prefix
	lc.UnsafeLocalMode = x.Offline
	set := func(p *int64, v *int64) {
		if *v != 0 {
			*p = *v
		} else {
			*v = *p
		}
	}
	set(&lc.MaxRootRotations, &x.MaxRot)
	set(&lc.RootMaxLength, &x.RootMax)
	set(&lc.TimestampMaxLength, &x.TsMax)
	set(&lc.SnapshotMaxLength, &x.SnapMax)
	set(&lc.TargetsMaxLength, &x.TgMax)
	if x.MaxDeleg != 0 {
		lc.MaxDelegations = x.MaxDeleg
	} else {
		x.MaxDeleg = lc.MaxDelegations
	}
	for _, v := range []int64{x.RootMax, x.TsMax, x.SnapMax, x.TgMax} {
		if v < 1000 || v > 64<<20 {
			c.r.violate("unreasonable-limit", "default length limit %d", v)
		}
	}
	if x.MaxRot < 1 || x.MaxRot > 4096 || x.MaxDeleg < 1 || x.MaxDeleg > 4096 {
		c.r.violate("unreasonable-limit", "default limits: %d rotations, %d delegations", x.MaxRot, x.MaxDeleg)
	}
	if x.Stub {
		lc.Fetcher = &stubFetcher{c.r}
	}
	return lc, nil
}

// op is one step of a session.
type op struct {
	kind string // refresh, lookup, find, download
	path string
	dest string // "" is the default
	base string
}

type opOut struct {
	op   op
	ran  bool
	ok   bool
	err  string
	path string // target info path / file path
	info TargetC
	data []byte
	role string
	none bool // find: no cached copy
	reqs int  // requests before this operation
	reqN int  // requests after it
	fs   map[string]string
}

// rdoc is how a trusted document looks from outside.
type rdoc struct {
	ver int64
	fp  string
}

type realOut struct {
	newOK, newRan  bool
	newErr         string
	ops            []opOut
	root, ts, snap *rdoc
	tg             map[string]*rdoc
	mid            map[string]bool
	proc           *Proc
	now            int64
	trustedOK      bool
}

func hexHashes(h metadata.Hashes) map[string]string {
	o := map[string]string{}
	for k, v := range h {
		o[k] = hex.EncodeToString(v)
	}
	return o
}

func sigFP(sigs []metadata.Signature) string {
	s := ""
	for _, e := range sigs {
		s += "|" + e.KeyID + ":" + hex.EncodeToString(e.Signature)
	}
	return s
}

func mapStr[V any](m map[string]V, f func(V) string) string {
	var o []string
	for k, v := range m {
		o = append(o, k+"="+f(v))
	}
	sort.Strings(o)
	return strings.Join(o, ",")
}

func hashStr(h map[string]string) string {
	return mapStr(h, func(s string) string { return strings.ToLower(s) })
}

func realRoot(m *metadata.Metadata[metadata.RootType]) *rdoc {
	if m == nil {
		return nil
	}
	return &rdoc{m.Signed.Version, fmt.Sprintf("root %d %d %v %s%s", m.Signed.Version, m.Signed.Expires.Unix(), m.Signed.ConsistentSnapshot,
		mapStr(m.Signed.Roles, func(r *metadata.Role) string { return fmt.Sprint(r.KeyIDs, r.Threshold) }), sigFP(m.Signatures))}
}

func metaFP(m map[string]*metadata.MetaFiles) string {
	return mapStr(m, func(f *metadata.MetaFiles) string {
		return fmt.Sprint(f.Version, f.Length, hashStr(hexHashes(f.Hashes)))
	})
}

func realTs(m *metadata.Metadata[metadata.TimestampType]) *rdoc {
	if m == nil {
		return nil
	}
	return &rdoc{m.Signed.Version, fmt.Sprintf("timestamp %d %d %s%s", m.Signed.Version, m.Signed.Expires.Unix(), metaFP(m.Signed.Meta), sigFP(m.Signatures))}
}

func realSnap(m *metadata.Metadata[metadata.SnapshotType]) *rdoc {
	if m == nil {
		return nil
	}
	return &rdoc{m.Signed.Version, fmt.Sprintf("snapshot %d %d %s%s", m.Signed.Version, m.Signed.Expires.Unix(), metaFP(m.Signed.Meta), sigFP(m.Signatures))}
}

func realTg(m *metadata.Metadata[metadata.TargetsType]) *rdoc {
	if m == nil {
		return nil
	}
	n := 0
	if dl := m.Signed.Delegations; dl != nil {
		if n = len(dl.Roles); dl.SuccinctRoles != nil {
			n = -1
		}
	}
	return &rdoc{m.Signed.Version, fmt.Sprintf("targets %d %d %s d%d%s", m.Signed.Version, m.Signed.Expires.Unix(),
		mapStr(m.Signed.Targets, func(f *metadata.TargetFiles) string { return fmt.Sprint(f.Length, hashStr(hexHashes(f.Hashes))) }), n, sigFP(m.Signatures))}
}

func docFP(d *Doc) *rdoc {
	if d == nil {
		return nil
	}
	c := d.C
	sg := ""
	for _, e := range d.Sigs {
		sg += "|" + e.KeyID + ":" + e.Hex
	}
	mfp := func() string {
		return mapStr(c.Meta, func(f MetaC) string { return fmt.Sprint(f.Version, f.Length, hashStr(f.Hashes)) })
	}
	switch c.Type {
	case "root":
		return &rdoc{c.Version, fmt.Sprintf("root %d %d %v %s%s", c.Version, c.Expires, c.Consistent,
			mapStr(c.Roles, func(r RoleC) string { return fmt.Sprint(r.KeyIDs, r.Threshold) }), sg)}
	case "targets":
		n := 0
		if c.Deleg != nil {
			if n = len(c.Deleg.Roles); c.Deleg.Succ != nil {
				n = -1
			}
		}
		return &rdoc{c.Version, fmt.Sprintf("targets %d %d %s d%d%s", c.Version, c.Expires, mapStr(c.Targets, func(f TargetC) string { return fmt.Sprint(f.Length, hashStr(f.Hashes)) }), n, sg)}
	}
	return &rdoc{c.Version, fmt.Sprintf("%s %d %d %s%s", c.Type, c.Version, c.Expires, mfp(), sg)}
}

func (o *realOut) take(t trustedmetadata.TrustedMetadata) {
	o.root, o.ts, o.snap = realRoot(t.Root), realTs(t.Timestamp), realSnap(t.Snapshot)
	o.tg = map[string]*rdoc{}
	for k, v := range t.Targets {
		o.tg[k] = realTg(v)
	}
	o.trustedOK = true
}

func errStr(e error) string {
	if e == nil {
		return ""
	}
	s := e.Error()
	if len(s) > 90 {
		s = s[:90]
	}
	return s
}

// logSeam counts the library's log calls as work, so that a loop without any
// input or output is noticed as well.
type logSeam struct{ r *Run }

func (l logSeam) Info(msg string, kv ...any) {
	if p := l.r.cur; p != nil && !p.dead && !p.actor {
		l.r.step(p)
	}
}
func (l logSeam) Error(err error, msg string, kv ...any) { l.Info(msg) }

// work is what the process does in a session. It runs the real library.
func (c *Client) work(p *Proc, o *realOut, x *Cfg, script []op, stopOnError bool, afterNew func(p *Proc)) {
	o.proc, o.now = p, time.Now().UnixNano()
	o.newRan = true
	lc, err := c.libConfig(x)
	var up *updater.Updater
	if err == nil {
		up, err = updater.New(lc)
	}
	if p.dead {
		runtime.Goexit()
	}
	o.newOK, o.newErr = err == nil, errStr(err)
	c.r.ev("%s New -> %v", p.Name, o.newOK)
	if err != nil {
		return
	}
	if afterNew != nil {
		afterNew(p)
	}
	defer func() {
		if !p.dead {
			o.take(up.GetTrustedMetadataSet())
		}
	}()
	infos := map[string]*metadata.TargetFiles{}
	for _, st := range script {
		e := opOut{op: st, ran: true, reqs: len(p.reqLog)}
		var err error
		switch st.kind {
		case "refresh":
			err = up.Refresh()
		case "lookup":
			var t *metadata.TargetFiles
			t, err = up.GetTargetInfo(st.path)
			if err == nil {
				infos[st.path] = t
				e.path, e.info = t.Path, TargetC{t.Length, hexHashes(t.Hashes)}
			}
		case "find":
			t := infos[st.path]
			if t == nil {
				e.ran = false
				e.reqN = e.reqs
				o.ops = append(o.ops, e)
				continue
			}
			var fp string
			fp, e.data, err = up.FindCachedTarget(t, st.dest)
			e.path, e.none = fp, fp == ""
		case "download":
			t := infos[st.path]
			if t == nil {
				e.ran = false
				e.reqN = e.reqs
				o.ops = append(o.ops, e)
				continue
			}
			e.path, e.data, err = up.DownloadTarget(t, st.dest, st.base)
		}
		if p.dead { // in another goroutine
			runtime.Goexit()
		}
		e.ok, e.err = err == nil, errStr(err)
		e.reqN = len(p.reqLog)
		c.r.ev("%s %s %s -> %v", p.Name, st.kind, st.path, e.ok)
		o.ops = append(o.ops, e)
		if err != nil && stopOnError {
			break
		}
	}
}

// files is the state of everything below a directory.
func (c *Client) files(dirs ...string) map[string][]byte {
	m := map[string][]byte{}
	for _, d := range dirs {
		for _, f := range c.r.FS.Files(d) {
			b, _ := c.r.FS.Get(f)
			m[f] = b
		}
	}
	return m
}

func inside(p string, dirs ...string) bool {
	for _, d := range dirs {
		if strings.HasPrefix(p, d+"/") || p == d {
			return true
		}
	}
	return false
}

// Session is one process run under a plan, with memoized answers.
type Session struct {
	c      *Client
	rp     *Repo
	s      *Src
	mode   int
	states []*State
	memo   map[string]*Resp
	cfg    Cfg
	script []op
	plan   *Plan
	fault  int
	skew   int64
	deny   func(string) bool
	live   func(u string) *Resp       // the repository as it is at that moment
	cand   func(path string) [][]byte // what others may have put in a file
	honest bool                       // served the current state without any disturbance
	quiet  bool                       // no network or target faults
	tpaths map[string]bool
}

func (c *Client) newSession(honest bool) *Session {
	s := c.w.s
	pf := c.pf
	c.session++
	ss := &Session{c: c, rp: c.rp, s: s, memo: map[string]*Resp{}, plan: &Plan{}, cfg: c.cfg, honest: honest, quiet: honest}
	ss.states = []*State{c.rp.Cur}
	if !honest {
		ss.mode = s.W(pf.Serve[0], pf.Serve[1], pf.Serve[2], pf.Serve[3])
		switch ss.mode {
		case 1:
			ss.states = []*State{c.rp.States[s.N(len(c.rp.States))]}
		case 2:
			ss.states = []*State{c.attack()}
		case 3:
			ss.states = append(ss.states, c.rp.States[s.N(len(c.rp.States))])
			if s.P(600) {
				ss.states = append(ss.states, c.rp.States[s.N(len(c.rp.States))])
			}
			if pf.Serve[2] > 0 && s.P(500) {
				ss.states = append(ss.states, c.attack())
			}
		}
		ss.skewPlan()
		ss.faultPlan()
	}
	ss.cfg.Stub = s.P(500)
	if s.P(pf.Offline) && !honest {
		ss.cfg.Offline = true
	}
	if s.P(pf.NoCache) && !honest {
		ss.cfg.NoCache = true
	}
	if s.P(pf.Prefix) && !honest {
		ss.cfg.Prefix = !ss.cfg.Prefix
	}
	// which root the application ships or remembers
	switch s.W(3, 2, 1) {
	case 1:
		if b, ok := c.r.FS.Get(path.Join(c.cfg.MetaAbs, "root.json")); ok {
			if d := c.w.find(b); d != nil && d.C != nil && d.C.Type == "root" && d.V == Good && !c.misled[d.ID] {
				ss.cfg.Root = b
			}
		}
	case 2:
		ss.cfg.Root = c.rp.roots[s.N(len(c.rp.roots))].Bytes
	}
	if s.P(pf.BadRoot) && !honest {
		ss.badRoot()
	}
	if s.P(pf.Limits) && !honest {
		ss.limits()
	}
	ss.writeScript()
	return ss
}

func (ss *Session) limits() {
	s := ss.s
	ss.cfg.MaxRot = int64(1 + s.N(5))
	ss.cfg.MaxDeleg = 1 + s.N(6)
	ss.cfg.RootMax = int64(1200 + s.N(9000))
	ss.cfg.TsMax = int64(1000 + s.N(2000))
	ss.cfg.SnapMax = int64(1000 + s.N(5000))
	ss.cfg.TgMax = int64(1000 + s.N(6000))
	ss.c.r.count("config:tight limits")
}

func (ss *Session) skewPlan() {
	s, pf := ss.s, ss.c.pf
	if s.P(pf.Skew) {
		ss.skew = int64(pick(s, 1, -1, 24, -24, 1000, 5000, -5000, 100000)) * int64(1+s.N(3600))
		ss.c.r.count("fault:clock:skew")
	}
	if s.P(pf.Jump) {
		ss.plan.SkewBy = int64(pick(s, 1, -1)) * int64(1+s.N(10000)) * hour
		ss.plan.SkewAt = -1 - s.N(40) // armed once the client exists
	}
}

var ioErrs = []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EROFS, syscall.EDQUOT, syscall.EMFILE}

// faults: 0 none, 1 read, 2 write, 3 stat, 4 read-only folder, 5 crash
func (ss *Session) faultPlan() {
	s, pf := ss.s, ss.c.pf
	ss.fault = s.W(pf.Fault[0], pf.Fault[1], pf.Fault[2], pf.Fault[3], pf.Fault[4], pf.Fault[5])
	if s.P(150) {
		ss.plan.ShortReads = true
	}
	if s.P(60) && pf.Fault[2]+pf.Fault[1] > 0 {
		ss.plan.IO = append(ss.plan.IO, &IOFault{Op: pick(s, "read", "open", "write", "fsync"), Err: syscall.EINTR, Skip: s.N(6), Count: 1 + s.N(3)})
	}
	switch ss.fault {
	case 1:
		files := ss.c.r.FS.Files(ss.c.cfg.MetaAbs)
		bad := map[string]bool{}
		for _, f := range append(files, ss.c.r.FS.Files(ss.c.cfg.TgtAbs)...) {
			if s.P(400) {
				bad[f] = true
			}
		}
		ss.deny = func(p string) bool { return bad[path.Clean(p)] }
		o := pick(s, "read", "open")
		ss.plan.IO = append(ss.plan.IO, &IOFault{Op: o, Path: ss.deny, Err: pick[error](s, syscall.EIO, syscall.EACCES)})
	case 2:
		n := 1 + s.W(4, 1)
		for i := 0; i < n; i++ {
			f := &IOFault{Op: pick(s, "write", "create", "rename", "fsync", "close", "mkdir", "trunc", "unlink", "chmod"), Err: ioErrs[s.N(len(ioErrs))], Skip: s.N(8), Count: pick(s, 1, 0, 2), Part: s.N(4000), Short: s.P(500)}
			ss.plan.IO = append(ss.plan.IO, f)
		}
	case 3:
		ss.plan.IO = append(ss.plan.IO, &IOFault{Op: "stat", Err: pick[error](s, syscall.EIO, syscall.EACCES), Skip: s.N(3), Count: s.N(3)})
	case 4:
		ss.c.r.count("fault:io:read-only folder")
	case 5:
		ss.plan.CrashAt = 1 + s.N(60)
		ss.plan.CrashAfter = s.P(500)
	}
}

func (c *Client) attack() *State {
	s, pf := c.w.s, c.pf
	a := pf.Attack
	var st *State
	switch s.W(a[0], a[1], a[2], a[3], a[4], a[5], a[6]) {
	case 0:
		st = c.rp.ForgeSig()
	case 1:
		st = c.rp.ForgeRoot()
	case 2:
		st = c.rp.ForgeHolder()
	case 3:
		st = c.rp.ForgeExpired()
	case 4:
		st = c.rp.ForgeSwap()
	case 5:
		st = c.rp.ForgeMalformed()
	default:
		st = c.rp.ForgeTwin()
	}
	c.r.ev("attack: %s", st.Label)
	return st
}

func (ss *Session) writeScript() {
	s, c, pf := ss.s, ss.c, ss.c.pf
	if s.P(850) {
		ss.script = append(ss.script, op{kind: "refresh"})
	}
	n := 0
	if pf.Lookups > 0 {
		n = s.N(pf.Lookups + 1)
		if len(ss.script) == 0 && n == 0 {
			n = 1
		}
	}
	if len(ss.script) == 0 && n == 0 {
		ss.script = append(ss.script, op{kind: "refresh"})
	}
	known := c.rp.targetPaths()
	for i := 0; i < n; i++ {
		p := c.rp.universe[s.N(len(c.rp.universe))]
		if len(known) > 0 && s.P(700) {
			p = known[s.N(len(known))]
		}
		ss.script = append(ss.script, op{kind: "lookup", path: p})
		if s.P(pf.Download) && downloadable(p) {
			dest := ""
			if s.P(300) {
				dest = pick(s, c.Cwd+"/out/file", "out/other", "/data/dl")
			}
			if s.P(400) {
				ss.script = append(ss.script, op{kind: "find", path: p, dest: dest})
			}
			base := ""
			if s.P(200) {
				base = pick(s, c.cfg.TgtURL, trimSlash(c.rp.Tgt), "http://mirror.test/x")
			}
			ss.script = append(ss.script, op{kind: "download", path: p, dest: dest, base: base})
			if s.P(500) {
				ss.script = append(ss.script, op{kind: "find", path: p, dest: dest})
			}
		}
	}
}

// downloadable: the path can be part of a URL as it is.
func downloadable(p string) bool {
	return !strings.ContainsAny(p, "%#?\\") && !strings.Contains(p, ":")
}

// respFor is the answer to one request; drawn at the first request for it.
func (ss *Session) respFor(u string) *Resp {
	if rs, ok := ss.memo[u]; ok {
		return rs
	}
	s, pf := ss.s, ss.c.pf
	st := ss.states[0]
	if len(ss.states) > 1 {
		st = ss.states[s.N(len(ss.states))]
	}
	var rs *Resp
	key := u
	target := strings.HasPrefix(u, canonURL(ss.rp.Tgt))
	if strings.HasPrefix(u, "http://mirror.test/x/") {
		target = true
		key = canonURL(ss.rp.Tgt) + strings.TrimPrefix(u, "http://mirror.test/x/")
	}
	if b, ok := st.Files[key]; ok {
		name := fmt.Sprintf("%d bytes", len(b))
		if d := ss.c.w.find(b); d != nil {
			name = d.Label
		}
		rs = ok200(b, name)
	} else {
		rs = status(404)
		if s.P(300) {
			rs = status(403)
		}
	}
	if !ss.quiet {
		if target && rs.Status == 200 && s.P(pf.TgtBad) {
			rs = ss.badTarget(rs, st)
		} else if s.P(pf.Net) {
			rs = ss.disturb(rs, u)
		}
		if s.P(pf.Pad) && rs.LieLen == 0 && !target && rs.Status == 200 && len(rs.Body) > 0 {
			rs = ss.pad(rs, u)
		}
	}
	ss.memo[u] = rs
	return rs
}

func ok200(b []byte, name string) *Resp { return ok(b, name) }

func (ss *Session) badTarget(rs *Resp, st *State) *Resp {
	s := ss.s
	b := append([]byte(nil), rs.Body...)
	how := ""
	switch s.N(7) {
	case 0:
		how = "flipped bit"
		if len(b) > 0 {
			b[s.N(len(b))] ^= 1 << uint(s.N(8))
		}
	case 1:
		how = "truncated"
		b = b[:s.N(len(b))]
	case 2:
		how = "extended"
		b = append(b, byte(s.N(256)))
	case 3:
		how = "empty"
		b = nil
	case 4:
		how = "another target"
		ps := ss.rp.targetPaths()
		if len(ps) == 0 {
			b = []byte("no other")
			break
		}
		for _, n := range ss.rp.sortedRoles() {
			if x, ok := ss.rp.roles[n].Targets[ps[s.N(len(ps))]]; ok {
				b = append([]byte(nil), x...)
				break
			}
		}
	case 5:
		how = "other bytes of the same length"
		for i := range b {
			b[i] = byte('A' + i%23)
		}
	case 6:
		how = "cut short with a lying length"
		ss.c.r.count("attack:target:" + how)
		n := *rs
		if n.LieLen = int64(len(b) - 1 - s.N(max(1, len(b)-1))); n.LieLen < 1 {
			n.LieLen = int64(len(b) + 1)
		}
		n.Name = "target " + how
		return &n
	}
	ss.c.r.count("attack:target:" + how)
	return ok200(b, "target "+how)
}

// badRoot: the application is shipped with a root that is not one.
func (ss *Session) badRoot() {
	s, rp, w := ss.s, ss.rp, ss.c.w
	b := append([]byte(nil), ss.cfg.Root...)
	how := ""
	switch s.W(4, 2, 1, 1, 1, 2, 3) {
	case 0:
		d := rp.Malformed("root")
		how, b = d.Label, d.Bytes
	case 1:
		how, b = "cut short", b[:s.N(max(1, len(strings.TrimSpace(string(b)))-1))]
	case 2:
		how, b = "empty", nil
	case 3:
		how, b = "zero-filled", make([]byte, len(b))
	case 4:
		how = "garbage"
		b = b[:min(len(b), 1+s.N(200))]
		for i := range b {
			b[i] = byte(s.N(256))
		}
	case 5:
		d := w.byID[s.N(len(w.byID))]
		how, b = "another document", d.Bytes
	case 6:
		c := rp.rootContent()
		sigs, h := rp.badSigs("root", c)
		d := w.sealSigs(rp.Name+" initial root "+h, c, sigs)
		how, b = d.Label, d.Bytes
	}
	if d := w.find(b); d != nil {
		if ss.c.misled == nil {
			ss.c.misled = map[int]bool{}
		}
		ss.c.misled[d.ID] = true
	}
	ss.cfg.Root = b
	ss.c.r.count("attack:initial root")
	ss.c.r.ev("initial root %s", how)
}

func (ss *Session) disturb(rs *Resp, u string) *Resp {
	s := ss.s
	n := *rs
	k := ss.c.pf.NetKinds
	switch s.W(k[0]+1, k[1]+1, k[2]+1, k[3]+1, k[4]+1, k[5]+1, k[6]+1, k[7]+1, k[8]+1, k[9]+1, k[10]+1) {
	case 0:
		ss.c.r.count("fault:net:latency")
		n.Latency = time.Duration(1+s.N(1200)) * time.Millisecond
		n.Name += " (slow)"
	case 1:
		code := pick(s, 500, 404, 403, 503, 502, 429, 401, 204, 206, 301, 304, 410, 400, 416)
		ss.c.r.count(fmt.Sprint("fault:net:http ", code))
		return status(code)
	case 2:
		n.ConnErr, n.Name = true, "connection error"
	case 3:
		n.Stall, n.StallAt, n.Name = true, -1, "stall"
	case 4:
		n.Stall, n.Name = true, "stall in the body"
		if len(n.Body) == 0 || n.Status != 200 {
			n.StallAt = -1
		} else {
			n.StallAt = s.N(len(n.Body))
		}
	case 5:
		if n.Status != 200 || len(n.Body) < 40 {
			n.Stall, n.StallAt, n.Name = true, -1, "stall"
		} else {
			n.Trickle, n.Name, n.Every = true, "trickle", time.Duration(pick(s, 60, 1, 10))*time.Second
		}
	case 6:
		n.Endless, n.Name = true, "endless "+n.Name
		n.Status = 200
	case 7:
		n.Cut, n.Name = true, "cut "+n.Name
		if len(n.Body) > 0 && n.Status == 200 {
			n.CutAt = s.N(len(n.Body))
		} else {
			n.ConnErr = true
		}
	case 8:
		if len(n.Body) > 1 {
			n.LieLen = pick(s, int64(len(n.Body))+1+int64(s.N(1000)), 1+int64(s.N(max(1, len(n.Body)-1))), 1<<40)
			n.Name = fmt.Sprintf("%s announced as %d", n.Name, n.LieLen)
		}
	case 9: // elsewhere
		ss.c.r.count("fault:net:redirect")
		to := pick(s, canonURL(ss.rp.Meta+"moved"), u, canonURL(ss.rp.metaURL(0, "timestamp")), canonURL("http://elsewhere.test/"+hashOf("sha256", []byte(u))[:8]))
		if strings.Contains(to, "elsewhere") {
			ss.memo[to] = rs
		}
		n = Resp{Status: pick(s, 302, 301, 307), Loc: to, Body: []byte("moved"), Name: "redirect to " + to}
	case 10:
		n.NoLen = true
		n.Name += " without length"
	}
	return &n
}

// pad makes a document just as long as allowed, or one byte longer. White space
// around a document does not change it.
func (ss *Session) pad(rs *Resp, u string) *Resp {
	d := ss.c.w.find(rs.Body)
	if d == nil || d.V != Good {
		return rs
	}
	s := ss.s
	var limit int64
	switch d.C.Type {
	case "root":
		limit = ss.cfg.RootMax
	case "timestamp":
		limit = ss.cfg.TsMax
	case "snapshot":
		limit = ss.cfg.SnapMax
	default:
		limit = ss.cfg.TgMax
	}
	if limit == 0 || limit > 20000 || int64(len(d.Bytes)) > limit {
		return rs
	}
	want := limit + int64(pick(s, 0, 1, -1, 2, 300))
	if want <= int64(len(d.Bytes)) {
		return rs
	}
	b := append(append([]byte(nil), d.Bytes...), []byte(strings.Repeat(" ", int(want)-len(d.Bytes)))...)
	n := *d
	n.Bytes = b
	n.Label += fmt.Sprintf(" padded to %d", want)
	ss.c.w.add(&n)
	x := *rs
	x.Body = b
	x.Name = n.Label
	if s.P(500) {
		x.NoLen = true
	}
	ss.c.r.count("fault:net:padded to the limit")
	return &x
}
