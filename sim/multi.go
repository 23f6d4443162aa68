package sim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"runtime"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
)

// sharedTarget gives a path one of a few contents, the same ones in every repository.
func (w *World) sharedTarget(t *TRole, p string) {
	s := w.s
	v := s.W(5, 2, 1)
	body := []byte(fmt.Sprintf("variant %d of %s", min(v, 1), p))
	if len(p)%4 == 3 {
		body = append(body, []byte(strings.Repeat("+", min(v, 1)))...)
	}
	if len(p)%5 == 0 && v == 0 {
		body = []byte{}
	}
	h := w.hashes(body, len(p)%3)
	if len(p)%3 != 2 && s.P(60) {
		h = w.hashes(body, 1-len(p)%3) // nothing in common with what the others say
	}
	if v == 2 { // the same content to one algorithm, another one to the other
		h = map[string]string{}
		for a, x := range w.hashes(body, len(p)%3) {
			if a == "sha512" {
				x = hashOf(a, []byte("something else"))
			}
			h[a] = x
		}
	}
	t.Targets[p] = body
	t.TMeta[p] = TargetC{int64(len(body)), h}
	t.dirty = true
}

type mapping struct {
	Paths        []string `json:"paths"`
	Repositories []string `json:"repositories"`
	Threshold    int      `json:"threshold"`
	Terminating  bool     `json:"terminating"`
}

type multiClient struct {
	r       *Run
	w       *World
	pf      *Profile
	names   []string // as in the map file
	repos   []*Repo
	cl      []*Client
	rootOf  []*Repo // whose root the application ships for it
	urls    []string
	maps    []mapping
	MetaDir string
	TgtDir  string // "" is a folder per repository
	MetaAbs string
	TgtAbs  string
	Cwd     string
	hostile bool
	n       int
}

type mop struct {
	kind string // refresh, lookup, download, top
	path string
	dest string
}

type mopOut struct {
	op    mop
	ran   bool
	ok    bool
	err   string
	path  string
	info  TargetC
	repos []string
	data  []byte
	all   map[string]TargetC
	reqs  int
	reqN  int
}

var goodRepoNames = []string{"alpha", "beta", "r 1", "üñ", "x.y", "a%2Fb", "root.json", "..x", "targets", "timestamp.json", "A"}
var badRepoNames = []string{"..", ".", "", "a/b", "../alpha", "/abs", "alpha/../beta", "a\\b", "alpha/", "../../etc"}

func (w *World) newMulti() *multiClient {
	s := w.s
	m := &multiClient{r: w.r, w: w, pf: w.Pf, Cwd: "/home/m"}
	fs := w.r.FS
	for _, d := range []string{m.Cwd + "/out", "/etc", "/data", "/var/m"} {
		fs.MkdirAll(d)
	}
	for _, f := range []string{"/etc/root.json", m.Cwd + "/root.json", "/var/m/root.json", "/var/root.json", "/data/root.json"} {
		fs.Put(f, []byte("not yours"))
	}
	m.MetaDir = pick(s, "/var/m/meta", "md", "./a/b/")
	m.TgtDir = pick(s, "/var/m/tg", "", "td")
	m.MetaAbs = absPath(m.Cwd, m.MetaDir)
	if m.TgtDir != "" {
		m.TgtAbs = absPath(m.Cwd, m.TgtDir)
	}
	n := 1 + s.W(1, 4, 4, 2)
	names := append([]string(nil), goodRepoNames...)
	if s.P(500) {
		Shuffle(s, names)
	}
	for i := 0; i < n; i++ {
		rp := w.NewRepo(string(rune('a'+i)), false)
		name := names[i]
		if s.P(w.Pf.Hostile) && s.P(400) {
			name = badRepoNames[s.N(len(badRepoNames))]
			m.hostile = true
		}
		dup := false
		for _, x := range m.names {
			dup = dup || x == name
		}
		if dup {
			continue
		}
		m.addRepo(name, rp, rp)
	}
	if len(m.names) > 0 && s.P(150) { // one more name for a location, with the same or with another root
		name := names[n]
		rp := m.repos[s.N(len(m.repos))]
		m.addRepo(name, rp, m.repos[s.N(len(m.repos))])
	}
	for i := 0; i <= s.N(3); i++ {
		mp := mapping{Threshold: 1, Paths: []string{}, Repositories: []string{}}
		for j := 0; j <= s.N(2); j++ {
			mp.Paths = append(mp.Paths, pick(s, "*", "f?", "dir/*", "f1", "dir/sub/*", "[fg]*", "dir/f1", "*/*/*", "nothing"))
		}
		for _, x := range m.names {
			if !s.P(200) {
				mp.Repositories = append(mp.Repositories, x)
			}
		}
		if s.P(400) {
			Shuffle(s, mp.Repositories)
		}
		if len(mp.Repositories) > 0 && s.P(150) { // listed twice
			mp.Repositories = append(mp.Repositories, mp.Repositories[s.N(len(mp.Repositories))])
		}
		mp.Threshold = 1 + s.N(len(mp.Repositories)+1)
		if s.P(500) {
			mp.Threshold = 1 + s.N(2)
		}
		mp.Terminating = s.P(300)
		m.maps = append(m.maps, mp)
	}
	return m
}

func (m *multiClient) addRepo(name string, rp, rootOf *Repo) {
	c := m.w.NewClient(rp, "m")
	c.cfg = Cfg{MaxRot: 0, MetaDir: "", Prefix: true, Root: c.cfg.Root}
	c.cfg.MetaURL = rp.Meta
	if m.w.s.P(400) {
		c.cfg.MetaURL = trimSlash(rp.Meta)
	}
	c.cfg.TgtURL = rp.Tgt
	c.cfg.MetaAbs = path.Join(m.MetaAbs, name)
	c.cfg.TgtAbs = m.TgtAbs
	if m.TgtAbs == "" {
		c.cfg.TgtAbs = path.Join(c.cfg.MetaAbs, "targets")
	}
	c.cfg.MetaDir, c.cfg.TgtDir = c.cfg.MetaAbs, c.cfg.TgtAbs
	m.names = append(m.names, name)
	m.repos = append(m.repos, rp)
	m.rootOf = append(m.rootOf, rootOf)
	m.cl = append(m.cl, c)
	m.urls = append(m.urls, c.cfg.MetaURL)
}

func (m *multiClient) mapFile() []byte {
	rs := map[string][]string{}
	for i, n := range m.names {
		rs[n] = []string{m.urls[i]}
	}
	b, err := json.Marshal(map[string]any{"repositories": rs, "mapping": m.maps})
	if err != nil {
		panic(err)
	}
	return b
}

func (m *multiClient) script() []mop {
	s := m.w.s
	var o []mop
	var known []string
	for _, rp := range m.repos {
		known = append(known, rp.targetPaths()...)
	}
	if s.P(400) {
		o = append(o, mop{kind: "refresh"})
		if s.P(300) {
			o = append(o, mop{kind: "top"})
		}
	}
	for i := 0; i <= s.N(m.pf.Lookups+1); i++ {
		p := plainPaths[s.N(len(plainPaths))]
		if len(known) > 0 && s.P(800) {
			p = known[s.N(len(known))]
		}
		o = append(o, mop{kind: "lookup", path: p})
		if s.P(m.pf.Download) {
			d := ""
			if s.P(250) {
				d = pick(s, m.Cwd+"/out/file", "out/other", "/data/dl")
			}
			o = append(o, mop{kind: "download", path: p, dest: d})
			if s.P(300) {
				o = append(o, mop{kind: "download", path: p, dest: d})
			}
		}
	}
	return o
}

// session runs one process of the multi-repository client.
func (m *multiClient) session(honest bool) {
	r, s := m.r, m.w.s
	m.n++
	var sss []*Session
	byHost := map[string]*Session{}
	nocache := !honest && s.P(m.pf.NoCache)
	for i, c := range m.cl {
		ss := c.newSession(honest || s.P(350))
		ss.fault, ss.skew, ss.deny = 0, 0, nil
		root := ss.cfg.Root
		if o := m.rootOf[i]; o != m.repos[i] {
			root = o.roots[s.N(len(o.roots))].Bytes
		}
		ss.cfg = c.cfg
		ss.cfg.Root = root
		ss.cfg.NoCache = nocache
		ss.plan = &Plan{}
		sss = append(sss, ss)
		byHost[m.repos[i].Name] = ss
	}
	down := map[string]*Resp{}
	if !honest {
		for _, rp := range m.repos {
			if s.P(m.pf.Down) {
				down[rp.Name] = pick(s, &Resp{ConnErr: true, Name: "down"}, status(503), status(404), &Resp{Stall: true, StallAt: -1, Name: "down, stalls"})
				r.count("fault:net:repository down")
			}
		}
	}
	cross := map[string]string{}
	if !honest && len(m.repos) > 1 && s.P(m.pf.Cross) {
		a, b := m.repos[s.N(len(m.repos))].Name, m.repos[s.N(len(m.repos))].Name
		if a != b {
			cross[a] = b
			r.count("attack:answers of another repository")
			r.ev("%s answers as %s", a, b)
		}
	}
	answer := func(u string) *Resp {
		h := hostOf(u)
		if d := down[h]; d != nil {
			return d
		}
		if b, ok := cross[h]; ok {
			u = strings.Replace(u, "//"+h+".test", "//"+b+".test", 1)
			h = b
		}
		if ss := byHost[h]; ss != nil {
			return ss.respFor(u)
		}
		return sss[0].respFor(u)
	}
	roots := map[string][]byte{}
	for i, n := range m.names {
		roots[n] = sss[i].cfg.Root
	}
	mapBytes := m.mapFile()
	script := m.script()
	plan := &Plan{}
	if !honest && s.P(150) {
		plan.ShortReads = true
	}
	if !honest && s.P(m.pf.Fault[5]) {
		plan.CrashAt = 1 + s.N(60)
		plan.CrashAfter = s.P(500)
	}
	all0 := m.cl[0].files("/")
	r.Net.Serve = func(p *Proc, u string) *Resp { return answer(u) }
	metadata.SetLogger(logSeam{r})
	r.ev("multi session %d map %s nocache=%v", m.n, mapBytes, nocache)
	var outs []mopOut
	newOK, cfgOK := false, false
	newErr := ""
	nowNs := int64(0)
	var proc *Proc
	r.Spawn(fmt.Sprintf("multi%d", m.n), m.Cwd, 0, plan, func(p *Proc) {
		proc = p
		nowNs = time.Now().UnixNano()
		cfg, err := multirepo.NewConfig(mapBytes, roots)
		if err != nil {
			newErr = errStr(err)
			return
		}
		cfgOK = true
		cfg.LocalMetadataDir, cfg.LocalTargetsDir, cfg.DisableLocalCache = m.MetaDir, m.TgtDir, nocache
		cl, err := multirepo.New(cfg)
		newOK, newErr = err == nil, errStr(err)
		r.ev("%s New -> %v", p.Name, newOK)
		if err != nil {
			return
		}
		infos := map[string]*metadata.TargetFiles{}
		reps := map[string][]string{}
		refreshed := false
		for _, st := range script {
			e := mopOut{op: st, ran: true, reqs: len(p.reqLog)}
			var err error
			switch st.kind {
			case "refresh":
				err = cl.Refresh()
				refreshed = err == nil
			case "top":
				if !refreshed {
					e.ran = false
					break
				}
				var t map[string]*metadata.TargetFiles
				t, err = cl.GetTopLevelTargets()
				e.all = map[string]TargetC{}
				for k, v := range t {
					e.all[k] = TargetC{v.Length, hexHashes(v.Hashes)}
				}
			case "lookup":
				var t *metadata.TargetFiles
				t, e.repos, err = cl.GetTargetInfo(st.path)
				if err == nil {
					infos[st.path], reps[st.path] = t, e.repos
					e.path, e.info = t.Path, TargetC{t.Length, hexHashes(t.Hashes)}
				}
			case "download":
				if infos[st.path] == nil {
					e.ran = false
					break
				}
				e.repos = reps[st.path]
				e.path, e.data, err = cl.DownloadTarget(reps[st.path], infos[st.path], st.dest, "")
			}
			if p.dead { // in another goroutine
				runtime.Goexit()
			}
			e.ok, e.err = err == nil, errStr(err)
			e.reqN = len(p.reqLog)
			r.ev("%s %s %s -> %v %v", p.Name, st.kind, st.path, e.ok, e.repos)
			outs = append(outs, e)
		}
	})
	r.Wait()
	if r.stop() || proc == nil || proc.panicked != "" {
		return
	}
	dests := []string{m.MetaAbs}
	if m.TgtAbs != "" {
		dests = append(dests, m.TgtAbs)
	}
	for _, o := range script {
		if o.dest != "" {
			dests = append(dests, absPath(m.Cwd, o.dest))
		}
	}
	r.confined(proc, dests, nocache)
	all1 := m.cl[0].files("/")
	r.untouched(proc, dests, all0, all1)
	r.requestTimes(proc)
	outcome := "ok"
	defer func() {
		r.count("session:" + outcome)
		r.state(fmt.Sprintf("multi %d %s %d %v %s", len(m.names), outcome, len(outs), nocache, summary(outs)))
	}()
	if proc.dead {
		outcome = "crash"
	} else if !newOK {
		outcome = "fail"
	}
	if m.hostile {
		bad := false
		for _, n := range m.names {
			for _, b := range badRepoNames {
				bad = bad || n == b
			}
		}
		if bad && !newOK {
			return // refused, and nothing outside was touched
		}
		for i, n := range m.names {
			if d := m.cl[i].cfg.MetaAbs; d == m.MetaAbs || !inside(d, m.MetaAbs) {
				r.violate("shared-folder", "a repository called %q keeps its metadata in %s", n, d)
			}
			for j := range m.names {
				if i != j && inside(m.cl[i].cfg.MetaAbs, m.cl[j].cfg.MetaAbs) {
					r.violate("shared-folder", "the repositories %q and %q share a folder", n, m.names[j])
				}
			}
		}
	}
	if !cfgOK {
		r.violate("refused-map", "the map file is refused: %s", newErr)
		return
	}
	before, after := map[string][]byte{}, map[string][]byte{}
	for k, v := range all0 {
		if inside(k, dests...) {
			before[k] = v
		}
	}
	for k, v := range all1 {
		if inside(k, dests...) {
			after[k] = v
		}
	}
	var first *mismatch
	queue := []map[int]bool{{}}
	for n := 0; len(queue) > 0 && n < 400; n++ {
		a := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		e := &multiEval{m: m, sss: sss, answer: answer, now: nowNs, before: before, after: after, script: script, outs: outs, newOK: newOK, newErr: newErr, proc: proc, nocache: nocache}
		mm, br := e.judge(a)
		if br >= 0 {
			for _, v := range []bool{true, false} {
				b := map[int]bool{br: v}
				for k, x := range a {
					b[k] = x
				}
				queue = append(queue, b)
			}
			continue
		}
		if mm == nil {
			return
		}
		if first == nil {
			first = mm
		} else if first.msg != mm.msg {
			first.msg += "; or: " + mm.msg
		}
	}
	if len(queue) > 0 {
		r.count("check:undecided")
		return
	}
	r.violate(first.tag, "%s: %s", proc.Name, first.msg)
}

func summary(outs []mopOut) string {
	x := ""
	for _, o := range outs {
		x += o.op.kind[:1]
		if o.ok {
			x += fmt.Sprint(len(o.repos))
		}
	}
	return x
}

func hostOf(u string) string {
	i := strings.Index(u, "//")
	j := strings.Index(u, ".test")
	if i < 0 || j < i {
		return ""
	}
	return u[i+2 : j]
}

type multiEval struct {
	m             *multiClient
	sss           []*Session
	answer        func(string) *Resp
	now           int64
	before, after map[string][]byte
	script        []mop
	outs          []mopOut
	newOK         bool
	newErr        string
	proc          *Proc
	nocache       bool
}

func (e *multiEval) judge(assign map[int]bool) (mm *mismatch, branch int) {
	branch = -1
	defer func() {
		if x := recover(); x != nil {
			if b, ok := x.(needBranch); ok {
				branch = b.id
				return
			}
			panic(x)
		}
	}()
	m := e.m
	shared := map[string][]byte{}
	for k, v := range e.before {
		shared[k] = v
	}
	refs := map[string]*Ref{}
	okay := true
	for i, n := range m.names {
		cfg := e.sss[i].cfg
		cfg.MaxRot, cfg.MaxDeleg, cfg.RootMax, cfg.TsMax, cfg.SnapMax, cfg.TgMax = 32, 32, 512000, 16384, 2000000, 5000000
		f := NewRef(m.w, &cfg, e.now, e.answer, nil, nil, assign)
		f.cache = shared
		refs[n] = f
		okay = f.New() && okay
	}
	crashed := e.proc.dead
	if !crashed && e.newOK != okay {
		return &mismatch{"new", fmt.Sprintf("New succeeded=%v (%s), expected %v", e.newOK, e.newErr, okay)}, -1
	}
	exact := !crashed && okay
	if okay {
		n := len(e.outs)
		if crashed {
			n++
		}
		results := map[string]*matched{}
		for i, st := range e.script[:min(n, len(e.script))] {
			var o *mopOut
			if i < len(e.outs) {
				o = &e.outs[i]
			}
			switch st.kind {
			case "refresh":
				ok := true
				for _, x := range m.names {
					ok = refs[x].Refresh() && ok
				}
				if o != nil && o.ok != ok {
					return &mismatch{"refresh", fmt.Sprintf("Refresh succeeded=%v (%s), expected %v", o.ok, o.err, ok)}, -1
				}
				exact = exact && ok
			case "top":
				if o != nil && !o.ran {
					continue
				}
				want := map[string]TargetC{}
				ok := true
				for _, x := range m.names {
					if refs[x].Tg["targets"] == nil { // crashed and not refreshed
						continue
					}
					for _, p := range sortedKeys(refs[x].Tg["targets"].C.Targets) {
						if r := e.lookup(refs, p); r.err != "" {
							ok = false
						} else {
							want[p] = r.info
						}
					}
				}
				exact = exact && ok
				if o == nil {
					continue
				}
				if ok != o.ok {
					return &mismatch{"top-level", fmt.Sprintf("GetTopLevelTargets succeeded=%v (%s), expected %v", o.ok, o.err, ok)}, -1
				}
				for _, p := range sortedKeys(want) {
					if x, have := o.all[p]; ok && (!have || !sameInfo(x, want[p])) {
						return &mismatch{"top-level", fmt.Sprintf("GetTopLevelTargets gives %v for %s, expected %v", x, p, want[p])}, -1
					}
				}
				for _, p := range sortedKeys(o.all) {
					if _, have := want[p]; ok && !have {
						return &mismatch{"top-level", fmt.Sprintf("GetTopLevelTargets gives %s, which no repository lists", p)}, -1
					}
				}
			case "lookup":
				r := e.lookup(refs, st.path)
				if r.err == "" {
					results[st.path] = r
				}
				if o == nil {
					continue
				}
				if o.ok != (r.err == "") {
					return &mismatch{map[bool]string{true: "accepted-lookup", false: "refused-lookup"}[o.ok], fmt.Sprintf("lookup of %s succeeded=%v (%s) %v, expected %v by %v (%s)", st.path, o.ok, o.err, o.info, r.info, r.repos, r.err)}, -1
				}
				if !o.ok {
					continue
				}
				if o.path != st.path || !sameInfo(o.info, r.info) {
					return &mismatch{"lookup", fmt.Sprintf("lookup of %s returned %s %v, expected %v agreed by %v", st.path, o.path, o.info, r.info, r.repos)}, -1
				}
				seen := map[string]bool{}
				for _, x := range o.repos {
					in := false
					for _, y := range r.repos {
						in = in || x == y
					}
					if !in || seen[x] {
						return &mismatch{"lookup-repos", fmt.Sprintf("lookup of %s names %v, but %v provide it", st.path, o.repos, r.repos)}, -1
					}
					seen[x] = true
				}
				if len(o.repos) < max(1, r.thr) {
					return &mismatch{"lookup-repos", fmt.Sprintf("lookup of %s names %v, the threshold is %d", st.path, o.repos, r.thr)}, -1
				}
			case "download":
				r := results[st.path]
				if r == nil {
					continue
				}
				repos := r.repos
				if o != nil {
					repos = o.repos
				}
				var ran *mopOut
				if o != nil && o.ran {
					ran = o
				}
				ok, data, dest := e.download(refs, repos, st, r.info, ran)
				if o == nil || !o.ran {
					continue
				}
				if o.ok != ok {
					return &mismatch{map[bool]string{true: "accepted-download", false: "refused-download"}[o.ok], fmt.Sprintf("download of %s from %v succeeded=%v (%s), expected %v", st.path, o.repos, o.ok, o.err, ok)}, -1
				}
				if ok && (!bytes.Equal(data, o.data) || (!e.nocache && absPath(m.Cwd, o.path) != dest)) {
					return &mismatch{"download", fmt.Sprintf("download of %s gave %d bytes at %s, expected %d at %s", st.path, len(o.data), o.path, len(data), dest)}, -1
				}
			}
		}
	}
	for i, n := range m.names {
		c := m.cl[i]
		for k, v := range e.before {
			c.remember(k, v)
		}
		for _, w := range refs[n].Writes {
			c.remember(w.URL, w.Bytes)
		}
	}
	if exact {
		if d := diffFiles(shared, e.after); d != "" {
			return &mismatch{"cache", d}, -1
		}
		return nil, -1
	}
	// each file is what it was, or what one of them had to store
	okb := map[string]map[string]bool{}
	add := func(k string, b []byte) {
		if okb[k] == nil {
			okb[k] = map[string]bool{}
		}
		okb[k][string(b)] = true
	}
	for k, v := range e.before {
		add(k, v)
	}
	for _, n := range m.names {
		for _, w := range refs[n].Writes {
			add(w.URL, w.Bytes)
		}
	}
	inPlace := map[string]bool{}
	if crashed {
		for _, st := range e.script {
			if st.kind != "download" {
				continue
			}
			if st.dest != "" {
				inPlace[absPath(m.Cwd, st.dest)] = true
			}
			for _, n := range m.names {
				inPlace[refs[n].dest(st.path)] = true
			}
		}
	}
	for _, k := range sortedKeys(e.after) {
		if inPlace[k] {
			continue
		}
		if okb[k] == nil {
			if dir := path.Dir(k); (crashed || e.proc.unlinkFault) && path.Dir(dir) == m.MetaAbs && slices.Contains(m.names, path.Base(dir)) {
				continue // what it was working on
			}
			return &mismatch{"stray", k + " was left behind"}, -1
		}
		if !okb[k][string(e.after[k])] {
			return &mismatch{"damaged", fmt.Sprintf("%s is neither what it was nor what was to be stored", k)}, -1
		}
	}
	for _, k := range sortedKeys(e.before) {
		if _, ok := e.after[k]; !ok && !inPlace[k] {
			return &mismatch{"damaged", k + " has vanished"}, -1
		}
	}
	return nil, -1
}

type matched struct {
	info  TargetC
	repos []string
	thr   int
	err   string
}

// lookup is the search the TAP 4 map file describes.
func (e *multiEval) lookup(refs map[string]*Ref, p string) *matched {
	for _, mp := range e.m.maps {
		hit := false
		for _, pat := range mp.Paths {
			hit = hit || glob(pat, p)
		}
		if !hit {
			continue
		}
		var groups []*matched
		asked := map[string]bool{}
		for _, n := range mp.Repositories {
			if asked[n] {
				continue
			}
			asked[n] = true
			t, _, ok := refs[n].Lookup(p)
			if !ok {
				continue
			}
			g := (*matched)(nil)
			for _, x := range groups {
				if sameInfo(x.info, t) {
					g = x
				}
			}
			if g == nil {
				g = &matched{info: t, thr: mp.Threshold}
				groups = append(groups, g)
			}
			g.repos = append(g.repos, n)
		}
		var won *matched
		for _, g := range groups {
			if len(g.repos) >= mp.Threshold {
				if won != nil {
					return &matched{err: "conflict"}
				}
				won = g
			}
		}
		if won != nil {
			return won
		}
		if mp.Terminating {
			return &matched{err: "terminated"}
		}
	}
	return &matched{err: "no mapping"}
}

func (e *multiEval) download(refs map[string]*Ref, repos []string, st mop, t TargetC, ran *mopOut) (bool, []byte, string) {
	log := e.proc.reqLog
	if ran != nil {
		log = log[ran.reqs:ran.reqN]
	}
	for _, n := range repos {
		f := refs[n]
		if f == nil {
			continue
		}
		d := f.dest(st.path)
		if st.dest != "" {
			d = absPath(e.m.Cwd, st.dest)
		}
		if b, ok := f.cache[d]; ok && !e.nocache && okTarget(t, b) {
			return true, b, d
		}
		urls := f.targetURLs(st.path, t, "")
		if ran != nil && !ran.ok && len(urls) > 0 {
			// was there anything left to try?
			tried, all := false, true
			for _, u := range urls {
				for _, q := range log {
					tried = tried || q.URL == u
				}
				b, k := f.fetch(u, t.Length)
				all = all && k == netOK && okTarget(t, b)
			}
			if !tried && all {
				return true, nil, d
			}
		}
		for _, u := range urls {
			// which of the hashes is used is left open
			asked := false
			for _, q := range log {
				asked = asked || q.URL == u
			}
			if !asked {
				continue
			}
			b, k := f.fetch(u, t.Length)
			if k == netOK && okTarget(t, b) {
				if !e.nocache {
					f.cache[d] = b
					f.Writes = append(f.Writes, FileWrite{d, b})
				}
				return true, b, d
			}
		}
	}
	return false, nil, ""
}

// badMap: map files which are not of the documented form, or do not fit.
func (m *multiClient) badMap() {
	r, s := m.r, m.w.s
	good := m.mapFile()
	roots := map[string][]byte{}
	for i, n := range m.names {
		roots[n] = m.cl[i].cfg.Root
	}
	how := ""
	var b []byte
	switch s.N(15) {
	case 0:
		how, b = "null", []byte("null")
	case 1:
		how, b = "not JSON", good[:s.N(len(good))]
	case 2:
		how, b = "an array", []byte("[]")
	case 3:
		how, b = "mapping is an object", []byte(`{"repositories":{},"mapping":{}}`)
	case 4:
		how, b = "a null mapping", bytes.Replace(good, []byte(`"mapping":[`), []byte(`"mapping":[null,`), 1)
	case 5:
		how, b = "an unknown repository", bytes.Replace(good, []byte(`"mapping":[`), []byte(`"mapping":[{"paths":["*"],"repositories":["nobody"],"threshold":1,"terminating":false},`), 1)
	case 6:
		how, b = "no URL", bytes.Replace(good, []byte(`"repositories":{`), []byte(`"repositories":{"zzz":[],`), 1)
		roots["zzz"] = m.cl[0].cfg.Root
	case 7:
		how, b = "no trusted root", good
		delete(roots, m.names[s.N(len(m.names))])
	case 8:
		how, b = "a threshold that is a string", bytes.Replace(good, []byte(`"threshold":`), []byte(`"threshold":"1","x":`), 1)
	case 9:
		how, b = "URLs are no list", bytes.Replace(good, []byte(`"repositories":{`), []byte(`"repositories":{"zzz":"http://a.test/",`), 1)
		roots["zzz"] = m.cl[0].cfg.Root
	case 10:
		how, b = "empty", nil
	case 11:
		how, b, roots = "no roots at all", good, nil
	case 12:
		how, b = "a URL that is none", bytes.Replace(good, []byte(`"repositories":{`), []byte(`"repositories":{"zzz":["`+pick(s, "http://%zz/", ":/%", "http://[::1/", "http://a b%/")+`"],`), 1)
		roots["zzz"] = m.cl[0].cfg.Root
	case 13:
		how, b = "an unusable trusted root", good
		roots[m.names[s.N(len(m.names))]] = pick(s, []byte(""), []byte("{}"), []byte("null"), m.repos[0].Cur.Ts.Bytes, m.cl[0].cfg.Root[:s.N(len(m.cl[0].cfg.Root))])
	case 14:
		how = "a repository name that is no folder name"
		n, _ := json.Marshal(pick(s, "", ".", "..", "../zzz", "zzz/", "/zzz", "a/../zzz", "..\\zzz"))
		b = bytes.Replace(good, []byte(`"repositories":{`), []byte(`"repositories":{`+string(n)+`:["http://a.test/"],`), 1)
		var x string
		json.Unmarshal(n, &x)
		roots[x] = m.cl[0].cfg.Root
	}
	if len(m.maps) == 0 || len(m.names) == 0 || (how == "not JSON" && json.Valid(b)) {
		return
	}
	r.count("attack:map:" + how)
	r.ev("map file: %s", how)
	all0 := m.cl[0].files("/")
	var proc *Proc
	accepted := false
	metadata.SetLogger(logSeam{r})
	r.Net.Serve = func(p *Proc, u string) *Resp { return nil }
	r.Spawn("badmap", m.Cwd, 0, &Plan{}, func(p *Proc) {
		proc = p
		cfg, err := multirepo.NewConfig(b, roots)
		if err != nil {
			return
		}
		cfg.LocalMetadataDir, cfg.LocalTargetsDir = m.MetaDir, m.TgtDir
		cl, err := multirepo.New(cfg)
		if err != nil {
			return
		}
		accepted = true
		cl.GetTargetInfo("f1")
	})
	r.Wait()
	if r.stop() || proc == nil {
		return
	}
	if accepted {
		r.violate("accepted-map", "a map file with %s is accepted", how)
	}
	r.confined(proc, []string{m.MetaAbs, m.TgtAbs + "/"}, false)
	r.untouched(proc, []string{m.MetaAbs, m.TgtAbs + "/"}, all0, m.cl[0].files("/"))
}

// damage spoils or mixes up the caches.
func (m *multiClient) damage() {
	s, fs := m.w.s, m.r.FS
	if len(m.cl) > 1 && s.P(m.pf.Cross) {
		a, b := m.cl[s.N(len(m.cl))], m.cl[s.N(len(m.cl))]
		if a != b {
			m.r.count("fault:cache:of another repository")
			m.r.ev("%s gets the cache of %s", a.cfg.MetaAbs, b.cfg.MetaAbs)
			for _, f := range fs.Files(b.cfg.MetaAbs) {
				if path.Dir(f) == b.cfg.MetaAbs {
					x, _ := fs.Get(f)
					fs.MkdirAll(a.cfg.MetaAbs)
					fs.Put(path.Join(a.cfg.MetaAbs, path.Base(f)), x)
				}
			}
		}
		return
	}
	m.cl[s.N(len(m.cl))].damage()
}

func scenMulti(r *Run, pf *Profile) {
	time.Sleep(123456789)
	w := NewWorld(r, pf)
	w.multi = true
	s := r.Src
	m := w.newMulti()
	if s.P(700) {
		m.session(true)
	}
	rounds := 1 + s.N(pf.Rounds)
	for i := 0; i < rounds && !r.stop(); i++ {
		for _, rp := range m.repos {
			if s.P(pf.Evolve) {
				rp.Evolve()
			}
			if s.P(pf.Rotate) {
				rp.Rotate(1 + s.N(pf.MaxRot))
			}
		}
		if s.P(pf.Advance) {
			m.cl[0].advance()
			if s.P(700) {
				for _, rp := range m.repos {
					rp.Publish("routine")
				}
			}
		}
		if s.P(pf.Damage) {
			m.damage()
		}
		if s.P(pf.CacheSet) {
			m.cl[s.N(len(m.cl))].prepareTargets()
		}
		if s.P(pf.Hostile) && s.P(300) {
			m.badMap()
			if r.stop() {
				return
			}
		}
		m.session(s.P(150))
	}
}

var _ = sort.Strings
