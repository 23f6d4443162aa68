package sim

import (
	"fmt"
	"net/url"
	"path"
	"path/filepath"
	"strings"
)

// Cfg is what a client installation is configured with.
type Cfg struct {
	MaxRot                         int64
	MaxDeleg                       int
	RootMax, TsMax, SnapMax, TgMax int64
	MetaDir, TgtDir                string // as given to the library
	MetaAbs, TgtAbs                string // where that is
	MetaURL, TgtURL                string
	NoCache, Prefix, Offline, Stub bool
	Root                           []byte
	MetaSlash                      bool
}

type netKind int

const (
	netOK netKind = iota
	netGone
	netErr
)

// netResult is what a correct fetcher returns for a response.
func netResult(get func(u string) *Resp, u string, limit int64) ([]byte, netKind) {
	for hop := 0; hop <= 10; hop++ {
		rs := get(u)
		if rs == nil {
			return nil, netGone
		}
		if rs.ConnErr || rs.Stall || rs.Trickle || rs.Endless || rs.Latency > slow {
			return nil, netErr
		}
		if rs.Loc != "" && (rs.Status == 301 || rs.Status == 302 || rs.Status == 303 || rs.Status == 307 || rs.Status == 308) {
			u = canonURL(rs.Loc)
			continue
		}
		if rs.Status == 404 || rs.Status == 403 {
			return nil, netGone
		}
		if rs.Status != 200 {
			return nil, netErr
		}
		n := int64(len(rs.Body))
		if rs.LieLen != 0 {
			if rs.LieLen > n || rs.LieLen > limit {
				return nil, netErr
			}
			n = rs.LieLen
		}
		if rs.Cut && int64(rs.CutAt) < n {
			return nil, netErr
		}
		if n > limit {
			return nil, netErr
		}
		return rs.Body[:n], netOK
	}
	return nil, netErr
}

// Ref is a small, independent client. It knows documents only by how they were
// made and never looks into their bytes.
type Ref struct {
	w     *World
	cfg   *Cfg
	now   int64 // nanoseconds
	get   func(u string) *Resp
	deny  func(p string) bool // files that can not be read
	cache map[string][]byte   // by absolute path
	Root  *Doc
	Ts    *Doc
	Snap  *Doc
	Tg    map[string]*Doc

	broken    bool // a refresh failed; what a lookup does then is its own attempt
	loose     bool
	assign    map[int]bool
	cand      func(path string) [][]byte
	statBad   map[string]bool // asking for its attributes failed
	statPhase int
	reads     int
	Writes    []FileWrite // URL is a path here
	Reqs      []string
	Limits    []int64
	Visit     int
	Why       string
}

type needBranch struct{ id int }

func NewRef(w *World, cfg *Cfg, now int64, get func(string) *Resp, deny func(string) bool, cache map[string][]byte, assign map[int]bool) *Ref {
	f := &Ref{w: w, cfg: cfg, now: now, get: get, deny: deny, cache: map[string][]byte{}, Tg: map[string]*Doc{}, assign: assign}
	for k, v := range cache {
		f.cache[k] = v
	}
	return f
}

func (f *Ref) fail(s string, a ...any) bool {
	f.Why = fmt.Sprintf(s, a...)
	return false
}

func (f *Ref) expired(d *Doc) bool { return f.now > d.C.Expires*1e9 }

// wellFormed decides about the form; a document of doubtful form is branched on.
func (f *Ref) wellFormed(d *Doc, typ string) bool {
	return d != nil && d.V != Bad && d.C != nil && d.C.Type == typ
}

func (f *Ref) settle(d *Doc) bool {
	if d.V != Either {
		return true
	}
	v, ok := f.assign[d.ID]
	if !ok {
		panic(needBranch{d.ID})
	}
	return v
}

// signed: at least the threshold of different keys signed exactly this content.
func signed(d *Doc, r RoleC, keys map[string]*Key) bool {
	got := map[*Key]bool{}
	for _, id := range r.KeyIDs {
		k := keys[id]
		if k == nil {
			return false
		}
		for _, s := range d.Sigs {
			if s.KeyID == id && s.Key == k {
				got[k] = true
			}
		}
	}
	return r.Threshold >= 1 && len(got) >= r.Threshold && len(r.KeyIDs) > 0
}

func (f *Ref) byRoot(d *Doc, role string) bool {
	return signed(d, f.Root.C.Roles[role], f.Root.C.Keys)
}

func (f *Ref) file(role string) string {
	return path.Join(f.cfg.MetaAbs, url.QueryEscape(role)+".json")
}

func (f *Ref) read(p string) ([]byte, bool) {
	if f.cand != nil && (f.deny == nil || !f.deny(p)) {
		return f.choose(p)
	}
	b, ok := f.cache[p]
	if !ok || (f.deny != nil && f.deny(p)) || f.unread(p) {
		return nil, false
	}
	return b, true
}

// unread: whether the file could not be read because asking for its attributes
// failed, which happened during one stretch of time. Whether a client asks for
// them before it reads is its own business.
func (f *Ref) unread(p string) bool {
	if !f.statBad[p] || f.statPhase == 2 {
		return false
	}
	f.reads++
	id := 1<<20 + f.reads*64 + 63
	v, ok := f.assign[id]
	if !ok {
		panic(needBranch{id})
	}
	if v {
		f.statPhase = 1
	} else if f.statPhase == 1 {
		f.statPhase = 2
	}
	return v
}

// choose takes one of the contents a shared file had meanwhile.
func (f *Ref) choose(p string) ([]byte, bool) {
	all := f.cand(p)
	if len(all) == 0 {
		return nil, false
	}
	f.reads++
	i := 0
	for ; i < len(all)-1; i++ {
		id := 1<<20 + f.reads*64 + i
		next, ok := f.assign[id]
		if !ok {
			panic(needBranch{id})
		}
		if !next {
			break
		}
	}
	return all[i], all[i] != nil
}

func (f *Ref) store(role string, b []byte) {
	if f.cfg.NoCache {
		return
	}
	p := f.file(role)
	f.cache[p] = b
	f.Writes = append(f.Writes, FileWrite{p, b})
}

func (f *Ref) fetch(u string, limit int64) ([]byte, netKind) {
	u = canonURL(u)
	f.Reqs = append(f.Reqs, u)
	f.Limits = append(f.Limits, limit)
	return netResult(f.get, u, limit)
}

func (f *Ref) metaURL(role string, ver int64) string {
	b := f.cfg.MetaURL
	if !strings.HasSuffix(b, "/") {
		b += "/"
	}
	if ver >= 0 {
		return fmt.Sprintf("%s%d.%s.json", b, ver, url.QueryEscape(role))
	}
	return b + url.QueryEscape(role) + ".json"
}

func (f *Ref) New() bool {
	d := f.w.find(f.cfg.Root)
	if !f.wellFormed(d, "root") || !signed(d, d.C.Roles["root"], d.C.Keys) || !f.settle(d) {
		return f.fail("initial root unusable")
	}
	f.Root = d
	f.store("root", f.cfg.Root)
	return true
}

func okLenHash(m MetaC, b []byte) bool {
	if m.Length != 0 && m.Length != int64(len(b)) {
		return false
	}
	return okHashes(m.Hashes, b)
}

func okHashes(h map[string]string, b []byte) bool {
	for a, v := range h {
		if (a != "sha256" && a != "sha512") || hashOf(a, b) != v {
			return false
		}
	}
	return true
}

func (f *Ref) Refresh() bool {
	r := f.refresh()
	if !r {
		f.broken = true
	}
	return r
}

func (f *Ref) refresh() bool {
	if f.cfg.Offline {
		return f.offline()
	}
	first := f.Root.C.Version + 1
	for n := first; n < first+f.cfg.MaxRot; n++ {
		b, k := f.fetch(f.metaURL("root", n), f.cfg.RootMax)
		if k == netGone {
			break
		}
		if k == netErr {
			return f.fail("root %d not available", n)
		}
		d := f.w.find(b)
		if !f.wellFormed(d, "root") || d.C.Version != f.Root.C.Version+1 || !f.byRoot(d, "root") || !signed(d, d.C.Roles["root"], d.C.Keys) || !f.settle(d) {
			return f.fail("root %d refused", n)
		}
		f.Root = d
		f.store("root", b)
	}
	if !f.timestamp() || !f.snapshot() {
		return false
	}
	return f.load("targets", "root") != nil
}

func (f *Ref) timestamp() bool {
	if b, ok := f.read(f.file("timestamp")); ok && !f.expired(f.Root) {
		if d := f.w.find(b); f.wellFormed(d, "timestamp") && f.byRoot(d, "timestamp") && f.settle(d) {
			f.Ts = d
		}
	}
	b, k := f.fetch(f.metaURL("timestamp", -1), f.cfg.TsMax)
	if k != netOK {
		return f.fail("timestamp not available")
	}
	if f.expired(f.Root) {
		return f.fail("root expired")
	}
	d := f.w.find(b)
	if !f.wellFormed(d, "timestamp") || !f.byRoot(d, "timestamp") || !f.settle(d) {
		return f.fail("timestamp refused")
	}
	if f.Ts != nil {
		if d.C.Version == f.Ts.C.Version {
			return true
		}
		if d.C.Version < f.Ts.C.Version {
			return f.fail("timestamp rollback")
		}
		if d.C.Meta["snapshot.json"].Version < f.Ts.C.Meta["snapshot.json"].Version {
			return f.fail("timestamp rolls snapshot back")
		}
	}
	f.Ts = d
	if f.expired(d) {
		return f.fail("timestamp expired")
	}
	f.store("timestamp", b)
	return true
}

func (f *Ref) snapFinal() bool {
	return !f.expired(f.Snap) && f.Snap.C.Version == f.Ts.C.Meta["snapshot.json"].Version
}

func (f *Ref) snapshot() bool {
	m := f.Ts.C.Meta["snapshot.json"]
	if b, ok := f.read(f.file("snapshot")); ok && !f.expired(f.Ts) {
		if d := f.w.find(b); f.wellFormed(d, "snapshot") && f.byRoot(d, "snapshot") && f.settle(d) {
			f.Snap = d
			if f.snapFinal() {
				return true
			}
		}
	}
	limit := m.Length
	if limit == 0 {
		limit = f.cfg.SnapMax
	}
	ver := int64(-1)
	if f.Root.C.Consistent {
		ver = m.Version
	}
	b, k := f.fetch(f.metaURL("snapshot", ver), limit)
	if k != netOK {
		return f.fail("snapshot not available")
	}
	if f.expired(f.Ts) {
		return f.fail("timestamp expired")
	}
	d := f.w.find(b)
	if !okLenHash(m, b) || !f.wellFormed(d, "snapshot") || !f.byRoot(d, "snapshot") || !f.settle(d) {
		return f.fail("snapshot refused")
	}
	if f.Snap != nil {
		for n, o := range f.Snap.C.Meta {
			x, ok := d.C.Meta[n]
			if !ok || x.Version < o.Version {
				return f.fail("snapshot rolls %s back", n)
			}
		}
	}
	f.Snap = d
	if !f.snapFinal() {
		return f.fail("snapshot expired or of another version")
	}
	f.store("snapshot", b)
	return true
}

// entry is what a delegator says about a role.
func (f *Ref) entry(parent, role string) (RoleC, map[string]*Key, bool) {
	if parent == "root" {
		r, ok := f.Root.C.Roles[role]
		return r, f.Root.C.Keys, ok
	}
	p := f.Tg[parent]
	if p == nil || p.C.Deleg == nil {
		return RoleC{}, nil, false
	}
	if s := p.C.Deleg.Succ; s != nil {
		return s.RoleC, p.C.Deleg.Keys, true
	}
	for _, r := range p.C.Deleg.Roles {
		if r.Name == role {
			return r.RoleC, p.C.Deleg.Keys, true
		}
	}
	return RoleC{}, nil, false
}

func (f *Ref) delegated(d *Doc, role, parent string) bool {
	r, keys, ok := f.entry(parent, role)
	return ok && signed(d, r, keys)
}

func (f *Ref) okRole(b []byte, m MetaC, role, parent string) *Doc {
	d := f.w.find(b)
	if !okLenHash(m, b) || !f.wellFormed(d, "targets") || !f.delegated(d, role, parent) || d.C.Version != m.Version || f.expired(d) || !f.settle(d) {
		return nil
	}
	return d
}

func (f *Ref) load(role, parent string) *Doc {
	if d := f.Tg[role]; d != nil {
		if parent != "root" && !f.delegated(d, role, parent) {
			f.fail("%s does not satisfy %s", role, parent)
			return nil
		}
		return d
	}
	if f.Snap == nil || f.Ts == nil || !f.snapFinal() {
		f.fail("no snapshot")
		return nil
	}
	m, listed := f.Snap.C.Meta[role+".json"]
	if b, ok := f.read(f.file(role)); ok && listed {
		if d := f.okRole(b, m, role, parent); d != nil {
			f.Tg[role] = d
			return d
		}
	}
	if f.cfg.Offline {
		f.fail("%s not in the cache", role)
		return nil
	}
	if !listed {
		f.fail("%s not in the snapshot", role)
		return nil
	}
	limit := m.Length
	if limit == 0 {
		limit = f.cfg.TgMax
	}
	ver := int64(-1)
	if f.Root.C.Consistent {
		ver = m.Version
	}
	b, k := f.fetch(f.metaURL(role, ver), limit)
	if k != netOK {
		f.fail("%s not available", role)
		return nil
	}
	d := f.okRole(b, m, role, parent)
	if d == nil {
		f.fail("%s refused", role)
		return nil
	}
	f.Tg[role] = d
	f.store(role, b)
	return d
}

func (f *Ref) offline() bool {
	b, ok := f.read(f.file("timestamp"))
	d := f.w.find(b)
	if !ok || f.expired(f.Root) || !f.wellFormed(d, "timestamp") || !f.byRoot(d, "timestamp") || f.expired(d) || !f.settle(d) {
		return f.fail("no usable timestamp")
	}
	f.Ts = d
	b, ok = f.read(f.file("snapshot"))
	d = f.w.find(b)
	if !ok || !okLenHash(f.Ts.C.Meta["snapshot.json"], b) || !f.wellFormed(d, "snapshot") || !f.byRoot(d, "snapshot") || !f.settle(d) {
		return f.fail("no usable snapshot")
	}
	f.Snap = d
	if !f.snapFinal() {
		return f.fail("snapshot expired or of another version")
	}
	return f.load("targets", "root") != nil
}

// glob matches one path pattern component by component.
func glob(pat, p string) bool {
	a, b := strings.Split(pat, "/"), strings.Split(p, "/")
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !glob1(a[i], b[i]) {
			return false
		}
	}
	return true
}

func glob1(pat, s string) bool {
	pr, sr := []rune(pat), []rune(s)
	var m func(i, j int) bool
	m = func(i, j int) bool {
		if i == len(pr) {
			return j == len(sr)
		}
		switch pr[i] {
		case '*':
			for k := j; k <= len(sr); k++ {
				if m(i+1, k) {
					return true
				}
			}
			return false
		case '?':
			return j < len(sr) && m(i+1, j+1)
		case '[':
			e := i + 1
			for pr[e] != ']' {
				e++
			}
			if j >= len(sr) {
				return false
			}
			for _, c := range pr[i+1 : e] {
				if c == sr[j] {
					return m(e+1, j+1)
				}
			}
			return false
		}
		return j < len(sr) && sr[j] == pr[i] && m(i+1, j+1)
	}
	return m(0, 0)
}

func (r DRole) covers(p string) bool {
	for _, x := range r.Paths {
		if glob(x, p) {
			return true
		}
	}
	if len(r.Paths) == 0 {
		h := hashOf("sha256", []byte(p))
		for _, x := range r.Prefixes {
			if strings.HasPrefix(h, x) {
				return true
			}
		}
	}
	return false
}

// Lookup returns the target information for a path.
func (f *Ref) Lookup(p string) (TargetC, string, bool) {
	f.loose = f.loose || f.broken
	if f.Tg["targets"] == nil {
		if f.broken {
			n := *f
			n.broken, n.loose, n.Ts, n.Snap, n.Tg = false, false, nil, nil, map[string]*Doc{}
			t, r, ok := n.Lookup(p)
			f.Reqs, f.Limits, f.Writes, f.cache, f.Why = n.Reqs, n.Limits, n.Writes, n.cache, n.Why
			f.Root, f.reads = n.Root, n.reads
			if n.Tg["targets"] != nil {
				f.Ts, f.Snap, f.Tg = n.Ts, n.Snap, n.Tg
			}
			return t, r, ok
		}
		if !f.Refresh() {
			return TargetC{}, "", false
		}
	}
	visited := map[string]bool{}
	type edge struct{ role, parent string }
	todo := []edge{{"targets", "root"}}
	for len(todo) > 0 {
		if len(visited) > f.cfg.MaxDeleg {
			f.fail("too many delegations")
			return TargetC{}, "", false
		}
		e := todo[0]
		todo = todo[1:]
		if visited[e.role] {
			continue
		}
		d := f.load(e.role, e.parent)
		if d == nil {
			return TargetC{}, "", false
		}
		if t, ok := d.C.Targets[p]; ok {
			return t, e.role, true
		}
		visited[e.role] = true
		f.Visit++
		dl := d.C.Deleg
		if dl == nil {
			continue
		}
		var next []edge
		cut := false
		if dl.Succ != nil {
			next = append(next, edge{binName(dl.Succ.Prefix, dl.Succ.Bits, p), e.role})
			cut = true // succinct delegations are terminating
		} else {
			for _, r := range dl.Roles {
				if r.covers(p) {
					next = append(next, edge{r.Name, e.role})
					if r.Terminating {
						cut = true
						break
					}
				}
			}
		}
		if cut {
			todo = next
		} else {
			todo = append(next, todo...)
		}
	}
	f.fail("not listed")
	return TargetC{}, "", false
}

// dest is where a target goes by default.
func (f *Ref) dest(p string) string { return path.Join(f.cfg.TgtAbs, url.QueryEscape(p)) }

func okTarget(t TargetC, b []byte) bool {
	return int64(len(b)) == t.Length && len(t.Hashes) > 0 && okHashes(t.Hashes, b)
}

// targetURLs are the names a target may be downloaded under.
func (f *Ref) targetURLs(p string, t TargetC, base string) []string {
	if base == "" {
		base = f.cfg.TgtURL
	}
	if !strings.HasSuffix(base, "/") {
		base += "/"
	}
	if f.Root.C.Consistent && f.cfg.Prefix {
		var o []string
		d, b := path.Split(p)
		for _, a := range sortedKeys(t.Hashes) {
			o = append(o, canonURL(base+d+t.Hashes[a]+"."+b))
		}
		return o
	}
	return []string{canonURL(base + p)}
}

func absPath(cwd, p string) string {
	if !filepath.IsAbs(p) {
		p = cwd + "/" + p
	}
	return path.Clean(p)
}
