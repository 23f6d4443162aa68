package sim

import (
	"bytes"
	"fmt"
	"path"
	"strings"
	"time"
)

// server holds the files of a repository as they are at this moment.
type server struct {
	rp       *Repo
	files    map[string][]byte
	done     []*State // completed, in order
	leftover []FileWrite
	ordered  bool // the timestamp is put in place last
	harsh    bool // old files vanish, or keys are withdrawn
	aborted  int
}

func newServer(rp *Repo) *server {
	v := &server{rp: rp, files: map[string][]byte{}, ordered: true}
	for k, b := range rp.Cur.Files {
		v.files[k] = b
	}
	v.done = append(v.done, rp.Cur)
	return v
}

func (v *server) answer(u string) *Resp {
	w := v.rp.w
	u = strings.Replace(u, "http://mirror.test/x/", canonURL(v.rp.Tgt), 1)
	if b, ok := v.files[u]; ok {
		name := fmt.Sprintf("%d bytes", len(b))
		if d := w.find(b); d != nil {
			name = d.Label
		}
		return ok200(b, name)
	}
	if w.s.P(300) {
		return status(403)
	}
	return status(404)
}

// sync makes everything visible at once, as it is between two rounds.
func (v *server) sync() {
	if v.done[len(v.done)-1] == v.rp.Cur && len(v.leftover) == 0 {
		return
	}
	v.leftover = nil
	for k, b := range v.rp.Cur.Files {
		v.files[k] = b
	}
	v.done = append(v.done, v.rp.Cur)
}

// publish is the life of the publisher's process during one round.
func (v *server) publish(p *Proc, pf *Profile) {
	rp, w, r := v.rp, v.rp.w, v.rp.w.r
	s := w.s
	pause := func() {
		for i := s.W(4, 3, 2, 1, 1); i > 0; i-- {
			r.yield(p)
		}
	}
	for i := 0; i <= s.N(pf.Pubs); i++ {
		pause()
		switch s.W(5, 2, 2) {
		case 0:
			rp.Evolve()
		case 1:
			rp.Rotate(1)
		default:
			rp.Publish("routine")
		}
		st := rp.Cur
		todo := append([]FileWrite(nil), v.leftover...)
		v.leftover = nil
		for _, x := range st.Writes {
			for j, y := range todo {
				if y.URL == x.URL {
					todo = append(todo[:j:j], todo[j+1:]...)
					break
				}
			}
		}
		todo = append(todo, st.Writes...)
		if !v.ordered {
			Shuffle(s, todo)
		}
		cut := -1
		if s.P(pf.Abort) {
			cut = s.N(len(todo))
		}
		for j, x := range todo {
			if j == cut {
				break
			}
			pause()
			v.files[x.URL] = x.Bytes
			r.ev("publisher puts %s", x.URL)
			r.count("step:file published")
		}
		if cut >= 0 {
			r.ev("publisher stops half-way")
			r.count("fault:publisher stops half-way")
			v.leftover = todo[cut:]
			v.aborted++
			continue
		}
		v.done = append(v.done, st)
		r.ev("publisher completed state %d", st.N)
		if !rp.keepOld {
			for _, u := range sortedKeys(v.files) {
				if _, ok := st.Files[u]; !ok {
					pause()
					delete(v.files, u)
					r.ev("publisher removes %s", u)
				}
			}
		}
	}
}

// observer notes every content files have during a round.
type observer struct {
	r     *Run
	dirs  []string
	hist  map[string][][]byte // nil: not there
	last  map[string]*inode
	names map[string]bool
	check func(p string, b []byte)
}

func (o *observer) look() {
	now := map[string]bool{}
	for _, d := range o.dirs {
		for _, f := range o.r.FS.Files(d) {
			now[f] = true
			b, _ := o.r.FS.Get(f)
			o.add(f, b)
		}
	}
	for f := range o.names {
		if !now[f] {
			o.add(f, nil)
		}
	}
	for f := range now {
		o.names[f] = true
	}
}

func (o *observer) add(f string, b []byte) {
	h := o.hist[f]
	if n := len(h); n > 0 && string(h[n-1]) == string(b) && (h[n-1] == nil) == (b == nil) {
		return
	}
	if len(h) == 0 && b != nil && len(o.hist) > 0 && o.started() {
		h = append(h, nil)
	}
	if b != nil {
		b = append([]byte{}, b...)
		o.check(f, b)
	}
	o.hist[f] = append(h, b)
}

func (o *observer) started() bool { return o.last != nil }

// cands are the contents f may have been read with by p, those p did read first.
func (o *observer) cands(p *Proc, f string) [][]byte {
	f = path.Clean(f)
	var out [][]byte
	seen := map[string]bool{}
	put := func(b []byte) {
		k := "-"
		if b != nil {
			k = "+" + string(b)
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, b)
		}
	}
	for _, b := range p.reads[f] {
		put(b)
	}
	for _, b := range o.hist[f] {
		put(b)
	}
	return out
}

type concProc struct {
	ss    *Session
	out   *realOut
	since int // states completed when it began
	began bool
	ok    bool
	ro    *refOut
}

// concRound lets several client processes, and maybe the publisher, run at once.
func concRound(r *Run, pf *Profile, v *server, cl []*Client, live bool) []*concProc {
	s := r.Src
	var ps []*concProc
	byProc := map[int]*concProc{}
	all0 := cl[0].files("/")
	shared := len(cl) > 1 && cl[0].cfg.MetaAbs == cl[1].cfg.MetaAbs
	var obs *observer
	if shared {
		cfg := &cl[0].cfg
		okay := map[string]bool{}
		for _, b := range all0 {
			okay[string(b)] = true
		}
		metaNames := func() map[string]bool {
			m := map[string]bool{}
			for _, n := range append([]string{"root", "timestamp", "snapshot"}, v.rp.sortedRoles()...) {
				m[path.Join(cfg.MetaAbs, escapeRole(n)+".json")] = true
			}
			return m
		}
		names := metaNames()
		obs = &observer{r: r, dirs: []string{cfg.MetaAbs, cfg.TgtAbs, cl[0].Cwd + "/out", "/data"}, hist: map[string][][]byte{}, names: map[string]bool{}}
		obs.check = func(f string, b []byte) {
			if live {
				names = metaNames()
			}
			if names[f] && !okay[string(b)] && v.rp.w.find(b) == nil {
				r.violate("damaged", "while several clients run, %s holds %d bytes which are no complete document", f, len(b))
			}
		}
		obs.look()
		obs.last = map[string]*inode{}
		r.onGate = func(p *Proc) { obs.look() }
	}
	for _, c := range cl {
		ss := c.newSession(true)
		if !live && s.P(pf.Offline) {
			ss.cfg.Offline = true
		}
		if s.P(pf.Crash) {
			ss.plan.CrashAt = 1 + s.N(40)
			ss.plan.CrashAfter = s.P(500)
			ss.fault = 5
		}
		if !shared {
			for i := range ss.script {
				if strings.HasPrefix(ss.script[i].dest, "/") {
					ss.script[i].dest += c.tag
				}
			}
		}
		cp := &concProc{ss: ss}
		ss.live = func(u string) *Resp {
			if !cp.began {
				cp.began, cp.since = true, len(v.done)
			}
			return v.answer(u)
		}
		cp.out = ss.begin()
		if obs != nil {
			ss.cand = func(f string) [][]byte { return obs.cands(cp.out.proc, f) }
		}
		byProc[cp.out.proc.ID] = cp
		ps = append(ps, cp)
	}
	r.Net.Serve = func(p *Proc, u string) *Resp { return byProc[p.ID].ss.live(u) }
	if live {
		p := r.Spawn("publisher", "/", 0, nil, func(p *Proc) { v.publish(p, pf) })
		p.actor = true
	}
	r.Wait()
	if obs != nil {
		obs.look()
		r.onGate = nil
	}
	for _, cp := range ps {
		if !cp.ss.ended(cp.out) {
			return ps
		}
	}
	all1 := cl[0].files("/")
	for _, cp := range ps {
		// what others did is not this one's doing
		before, after := all0, all1
		if !shared {
			before, after = map[string][]byte{}, map[string][]byte{}
			for k, b := range all0 {
				if !foreign(k, cp, ps) {
					before[k] = b
				}
			}
			for k, b := range all1 {
				if !foreign(k, cp, ps) {
					after[k] = b
				}
			}
		} else {
			before, after = all0, map[string][]byte{}
			for k, b := range all1 {
				if !destOf(k, cp, ps) {
					after[k] = b
				} else if b0, ok := all0[k]; ok {
					after[k] = b0
				}
			}
			for k := range all0 {
				if _, ok := after[k]; !ok && destOf(k, cp, ps) {
					after[k] = all0[k]
				}
			}
		}
		cp.ok, cp.ro = cp.ss.judge(cp.out, before, after)
		if r.stop() {
			return ps
		}
	}
	if shared {
		sharedEnd(r, v, ps, all0, all1)
	}
	return ps
}

// foreign: a file in the care of another client.
func foreign(k string, cp *concProc, ps []*concProc) bool {
	for _, o := range ps {
		if o != cp && (inside(k, o.ss.cfg.MetaAbs, o.ss.cfg.TgtAbs) || destOf(k, cp, ps)) {
			return true
		}
	}
	return false
}

// destOf: a file another process was told to download to, and this one was not.
func destOf(k string, cp *concProc, ps []*concProc) bool {
	for _, st := range cp.ss.script {
		if st.dest != "" && absPath(cp.ss.c.Cwd, st.dest) == k {
			return false
		}
	}
	for _, o := range ps {
		if o == cp {
			continue
		}
		for _, st := range o.ss.script {
			if st.dest != "" && absPath(o.ss.c.Cwd, st.dest) == k {
				return true
			}
		}
	}
	return false
}

// sharedEnd looks at what a round left in a shared cache.
func sharedEnd(r *Run, v *server, ps []*concProc, all0, all1 map[string][]byte) {
	cfg := &ps[0].ss.cfg
	okay := map[string]map[string]bool{}
	add := func(k string, b []byte) {
		if okay[k] == nil {
			okay[k] = map[string]bool{}
		}
		okay[k][string(b)] = true
	}
	for k, b := range all0 {
		add(k, b)
	}
	crashed, loose := false, false
	for _, cp := range ps {
		crashed = crashed || cp.out.proc.dead
		if cp.ro == nil {
			return
		}
		loose = loose || cp.ro.f.loose
		for _, w := range cp.ro.f.Writes {
			add(w.URL, w.Bytes)
		}
	}
	writers := map[string]int{}
	for _, cp := range ps {
		seen := map[string]bool{}
		for i, st := range cp.ss.script {
			if st.kind == "download" {
				d := cp.ro.ops2dest(i, cp.ss)
				if !seen[d] {
					seen[d] = true
					writers[d]++
				}
			}
		}
	}
	for _, k := range sortedKeys(all1) {
		if !inside(k, cfg.MetaAbs, cfg.TgtAbs) || okay[k][string(all1[k])] {
			continue
		}
		if n := writers[k]; n > 0 && (crashed || (n > 1 && len(okay[k]) > 1)) {
			continue // written in place; it is verified whenever it is used
		}
		if loose && path.Dir(k) == cfg.MetaAbs && isDocOf(v.rp, k, all1[k]) {
			continue
		}
		if okay[k] == nil {
			if crashed && path.Dir(k) == cfg.MetaAbs {
				continue
			}
			r.violate("stray", "%s was left behind", k)
			return
		}
		r.violate("damaged", "%s is neither what it was nor what one of them stored (%d bytes)", k, len(all1[k]))
		return
	}
	for _, k := range sortedKeys(all0) {
		if _, ok := all1[k]; !ok && inside(k, cfg.MetaAbs, cfg.TgtAbs) && writers[k] == 0 {
			r.violate("damaged", "%s has vanished", k)
			return
		}
	}
}

// isDocOf: the bytes are a document the repository published under that role's name.
func isDocOf(rp *Repo, k string, b []byte) bool {
	for _, st := range rp.States {
		for _, n := range sortedKeys(st.Tg) {
			if escapeRole(n)+".json" == path.Base(k) && bytes.Equal(st.Tg[n].Bytes, b) {
				return true
			}
		}
	}
	return false
}

// alone: what a process could do if it were alone, it can do now.
func (cp *concProc) alone(all0 map[string][]byte) {
	ss := *cp.ss
	ss.cand, ss.live = nil, nil
	out := cp.out
	if out.proc.dead || ss.cfg.Offline { // offline it may find a cache that is being updated
		return
	}
	before := map[string][]byte{}
	for k, b := range all0 {
		before[k] = b
	}
	ro, br := ss.runRef(out, before, map[int]bool{})
	r := ss.c.r
	if br >= 0 || !ro.newOK {
		return
	}
	r.count("check:as if alone")
	if !out.newOK {
		r.violate("disturbed", "%s: New fails because of another process: %s", out.proc.Name, out.newErr)
		return
	}
	for i := range out.ops {
		k := out.ops[i].op.kind
		if k == "find" || !ro.ops[i].ran || ro.ops[i].loose || ro.f.loose {
			continue
		}
		if ro.ops[i].ok && out.ops[i].ran && !out.ops[i].ok {
			r.violate("disturbed", "%s: %s %s fails (%s), alone it would have succeeded", out.proc.Name, k, out.ops[i].op.path, out.ops[i].err)
			return
		}
	}
}

// oneState: a refresh that succeeded shows one state the publisher completed.
func (cp *concProc) oneState(v *server) {
	r, out := cp.ss.c.r, cp.out
	refreshed := false
	for _, e := range out.ops {
		refreshed = refreshed || (e.op.kind == "refresh" && e.ok)
	}
	if out.proc.dead || !out.newOK || !out.trustedOK {
		return
	}
	safe := v.ordered && !v.harsh && v.rp.keepOld && v.rp.consistent && cp.ss.cand == nil
	if len(out.ops) > 0 && out.ops[0].op.kind == "refresh" && safe {
		r.count("check:progress while publishing")
		if !refreshed {
			r.violate("refused", "%s: refresh fails while the publisher adds versions: %s", out.proc.Name, firstErr(out))
			return
		}
		if v.rp.prefixed && cp.ss.cfg.Prefix {
			for _, e := range out.ops {
				if e.op.kind == "download" && e.ran && !e.ok && e.op.base == "" {
					r.violate("refused", "%s: download of %s fails while the publisher adds versions: %s", out.proc.Name, e.op.path, e.err)
					return
				}
			}
		}
	}
	if out.tg["targets"] == nil || out.ts == nil || out.snap == nil {
		return
	}
	cand := v.done
	if !v.ordered || v.aborted > 0 {
		cand = v.rp.States
	}
	least := 0
	if cp.since > 0 {
		least = v.done[cp.since-1].N
	}
	r.count("check:one state")
	for _, st := range cand {
		if fpOf(out.ts) != fpOf(docFP(st.Ts)) {
			continue
		}
		bad := ""
		if fpOf(out.snap) != fpOf(docFP(st.Snap)) {
			bad = "snapshot"
		}
		for _, n := range sortedKeys(out.tg) {
			if st.Tg[n] == nil || fpOf(out.tg[n]) != fpOf(docFP(st.Tg[n])) {
				bad = n
			}
		}
		if bad != "" {
			r.violate("torn", "%s: the timestamp is that of state %d, %s is not", out.proc.Name, st.N, bad)
			return
		}
		if st.N < least && v.ordered {
			r.violate("stale", "%s: ends on state %d, state %d was complete when it began", out.proc.Name, st.N, least)
			return
		}
		for i := range out.ops {
			e := &out.ops[i]
			if e.op.kind == "lookup" && e.ok {
				t, _, _ := lookupState(cp, e.op.path)
				if t != nil && !sameInfo(*t, e.info) {
					r.violate("torn", "%s: %s is not the one of state %d", out.proc.Name, e.op.path, st.N)
				}
			}
		}
		return
	}
	r.violate("torn", "%s: timestamp %s belongs to no completed state", out.proc.Name, verOf(out.ts))
}

func lookupState(cp *concProc, p string) (*TargetC, string, bool) {
	if cp.ro == nil || cp.ro.f.Tg["targets"] == nil || cp.ro.f.loose {
		return nil, "", false
	}
	for i := range cp.ro.ops {
		if i < len(cp.out.ops) && cp.out.ops[i].op.kind == "lookup" && cp.out.ops[i].op.path == p && cp.ro.ops[i].ok {
			t := cp.ro.ops[i].info
			return &t, cp.ro.ops[i].role, true
		}
	}
	return nil, "", false
}

func (v *server) last(r *Run, c *Client) {
	// nobody else is at work any more
	if v.rp.stuck || v.rp.splitRoot {
		return
	}
	v.sync()
	r.count("check:recovery")
	ss := c.newSession(true)
	if ss.script[0].kind != "refresh" {
		ss.script = append([]op{{kind: "refresh"}}, ss.script...)
	}
	for _, p := range v.rp.targetPaths() {
		ss.script = append(ss.script, op{kind: "lookup", path: p})
	}
	_, ro, out := ss.run()
	if r.stop() {
		return
	}
	if !out.newOK || len(out.ops) == 0 || !out.ops[0].ok {
		why := ""
		if ro != nil {
			why = ro.f.Why
		}
		r.violate("no-recovery", "a session after the others have ended fails: %s %s (%s)", out.newErr, firstErr(out), why)
		return
	}
	st := v.rp.Cur
	if fpOf(out.root) != fpOf(docFP(st.Root)) || fpOf(out.ts) != fpOf(docFP(st.Ts)) || fpOf(out.snap) != fpOf(docFP(st.Snap)) || fpOf(out.tg["targets"]) != fpOf(docFP(st.Tg["targets"])) {
		r.violate("no-recovery", "the session after the others ends on root %s timestamp %s snapshot %s targets %s, not on the current state", verOf(out.root), verOf(out.ts), verOf(out.snap), verOf(out.tg["targets"]))
	}
}

// scenPublish: clients of their own caches while the publisher works.
func scenPublish(r *Run, pf *Profile) {
	time.Sleep(123456789)
	w := NewWorld(r, pf)
	s := r.Src
	harsh := s.P(pf.Harsh)
	w.gentle = !harsh
	rp := w.NewRepo("a", s.P(pf.Odd))
	rp.gentle = !harsh
	if harsh {
		rp.keepOld = s.P(500)
	}
	v := newServer(rp)
	v.harsh = harsh
	v.ordered = !s.P(pf.Unordered)
	var cl []*Client
	for i := 0; i <= s.N(pf.Procs); i++ {
		c := w.NewClient(rp, "u"+fmt.Sprint(i))
		c.tag = string(rune('A' + i))
		cl = append(cl, c)
	}
	rounds := 1 + s.N(pf.Rounds)
	for i := 0; i < rounds && !r.stop(); i++ {
		ps := concRound(r, pf, v, cl, true)
		if r.stop() {
			return
		}
		for _, cp := range ps {
			cp.oneState(v)
		}
		r.state(fmt.Sprintf("published %d of %d, ordered %v", len(v.done), len(rp.States), v.ordered))
		if s.P(400) {
			v.sync()
		}
	}
	if r.stop() {
		return
	}
	for _, c := range cl {
		v.last(r, c)
		if r.stop() {
			return
		}
	}
}

// scenShared: several processes on one cache.
func scenShared(r *Run, pf *Profile) {
	time.Sleep(123456789)
	w := NewWorld(r, pf)
	s := r.Src
	w.gentle = true
	rp := w.NewRepo("a", s.P(pf.Odd))
	rp.gentle = true
	v := newServer(rp)
	n := 2 + s.N(pf.Procs-1)
	var cl []*Client
	for i := 0; i < n; i++ {
		var c *Client
		if i == 0 {
			c = w.NewClient(rp, "u")
		} else {
			x := *cl[0]
			c = &x
			c.cfg.Root = rp.roots[s.N(len(rp.roots))].Bytes
		}
		c.tag = string(rune('A' + i))
		cl = append(cl, c)
	}
	if s.P(600) {
		ok, _, _, _ := cl[0].honest()
		if r.stop() {
			return
		}
		_ = ok
	}
	rounds := 1 + s.N(pf.Rounds)
	for i := 0; i < rounds && !r.stop(); i++ {
		if s.P(pf.Evolve) {
			rp.Evolve()
		}
		if s.P(pf.Rotate) {
			rp.Rotate(1 + s.N(pf.MaxRot))
		}
		if s.P(pf.Damage) {
			cl[0].damage()
		}
		v.sync()
		live := s.P(pf.Publish)
		all0 := cl[0].files("/")
		ps := concRound(r, pf, v, cl, live)
		if r.stop() {
			return
		}
		ndead := 0
		for _, cp := range ps {
			if cp.out.proc.dead {
				ndead++
			}
			if !live {
				cp.alone(all0)
			} else {
				cp.oneState(v)
			}
			if r.stop() {
				return
			}
		}
		r.state(fmt.Sprintf("%d procs, %d dead", len(ps), ndead))
		v.sync()
		if s.P(pf.PowerOff) {
			cl[0].powerLoss()
			if r.stop() {
				return
			}
		}
		if s.P(400) {
			v.last(r, cl[s.N(n)])
		}
	}
	if !r.stop() {
		v.last(r, cl[s.N(n)])
	}
}
