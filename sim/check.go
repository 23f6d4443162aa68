package sim

import (
	"bytes"
	"fmt"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

type refOp struct {
	ran, ok bool
	loose   bool // after a failed refresh: may fail as well
	info    TargetC
	role    string
	why     string
	data    []byte
	none    bool
	dest    string
	reqs    []string
	limits  []int64
}

type refOut struct {
	f     *Ref
	newOK bool
	newW  string
	ops   []refOp
}

// runRef lets the reference client do what the real one was asked to do.
func (ss *Session) runRef(out *realOut, before map[string][]byte, assign map[int]bool) (ro *refOut, branch int) {
	branch = -1
	c := ss.c
	get := ss.respFor
	if ss.live != nil {
		get = out.replay()
	}
	f := NewRef(c.w, &ss.cfg, out.now, get, ss.deny, before, assign)
	f.cand = ss.cand
	f.statBad = out.proc.statBad
	ro = &refOut{f: f}
	defer func() {
		if x := recover(); x != nil {
			if b, ok := x.(needBranch); ok {
				branch = b.id
				return
			}
			panic(x)
		}
	}()
	ro.newOK = f.New()
	ro.newW = f.Why
	if !ro.newOK {
		return
	}
	infos := map[string]TargetC{}
	n := len(out.ops)
	if out.proc.dead {
		n++
	}
	for i, st := range ss.script[:min(n, len(ss.script))] {
		e := refOp{}
		f.Why = ""
		n0 := len(f.Reqs)
		switch st.kind {
		case "refresh":
			e.ran, e.ok = true, f.Refresh()
		case "lookup":
			e.ran = true
			e.info, e.role, e.ok = f.Lookup(st.path)
			e.loose = f.broken
			if e.ok {
				infos[st.path] = e.info
			}
		case "find":
			t, ok := infos[st.path]
			ok = ok && (!f.loose || i >= len(out.ops) || out.ops[i].ran)
			if ok {
				e.ran, e.ok = true, true
				e.dest = f.dest(st.path)
				if st.dest != "" {
					e.dest = absPath(c.Cwd, st.dest)
				}
				b, have := f.read(e.dest)
				e.none = ss.cfg.NoCache || !have || !okTarget(t, b)
				if !e.none {
					e.data = b
				}
			}
		case "download":
			t, ok := infos[st.path]
			ok = ok && (!f.loose || i >= len(out.ops) || out.ops[i].ran)
			if ok {
				e.ran = true
				e.dest = f.dest(st.path)
				if st.dest != "" {
					e.dest = absPath(c.Cwd, st.dest)
				}
				urls := f.targetURLs(st.path, t, st.base)
				use := urls[0]
				// any of the stated hashes may be part of the name
				if i < len(out.ops) {
					for _, q := range out.ops[i].urls(out.proc) {
						for _, u := range urls {
							if q == u {
								use = u
							}
						}
						break
					}
				}
				b, k := f.fetch(use, t.Length)
				e.ok = k == netOK && okTarget(t, b)
				if e.ok {
					e.data = b
					if !ss.cfg.NoCache {
						f.cache[e.dest] = b
						f.Writes = append(f.Writes, FileWrite{e.dest, b})
					}
				}
			}
		}
		e.why = f.Why
		e.reqs = f.Reqs[n0:]
		e.limits = f.Limits[n0:]
		ro.ops = append(ro.ops, e)
	}
	return
}

// replay gives the answers the process really got, in their order.
func (o *realOut) replay() func(string) *Resp {
	n := map[string]int{}
	return func(u string) *Resp {
		k := n[u]
		n[u]++
		for _, q := range o.proc.reqLog {
			if q.URL == u && !q.Hop {
				if k == 0 {
					return q.Resp
				}
				k--
			}
		}
		return &Resp{ConnErr: true, Name: "never asked for"}
	}
}

// urls are the requests of one operation, redirects not counted.
func (e *opOut) urls(p *Proc) []string {
	var o []string
	for _, q := range p.reqLog[e.reqs:min(e.reqN, len(p.reqLog))] {
		if !q.Hop {
			o = append(o, q.URL)
		}
	}
	return o
}

func sameInfo(a, b TargetC) bool {
	return a.Length == b.Length && hashStr(a.Hashes) == hashStr(b.Hashes)
}

func fpOf(r *rdoc) string {
	if r == nil {
		return "none"
	}
	return r.fp
}

func verOf(r *rdoc) string {
	if r == nil {
		return "none"
	}
	return fmt.Sprint("v", r.ver)
}

type mismatch struct{ tag, msg string }

// run executes the session and checks everything that can be said about it.
// It returns whether the process ended by itself and succeeded in everything.
func (ss *Session) run() (allOK bool, ro *refOut, out *realOut) {
	r, cfg := ss.c.r, &ss.cfg
	all0 := ss.c.files("/")
	if ss.fault == 4 {
		switch ss.s.N(3) {
		case 0:
			r.ReadOnly = []string{cfg.MetaAbs}
		case 1:
			r.ReadOnly = []string{cfg.TgtAbs}
		default:
			r.ReadOnly = []string{cfg.MetaAbs, cfg.TgtAbs}
		}
	}
	r.Net.Serve = func(p *Proc, u string) *Resp { return ss.respFor(u) }
	out = ss.begin()
	r.Wait()
	r.ReadOnly = nil
	if !ss.ended(out) {
		return false, nil, out
	}
	allOK, ro = ss.judge(out, all0, ss.c.files("/"))
	return
}

// begin starts the process.
func (ss *Session) begin() *realOut {
	c, r := ss.c, ss.c.r
	cfg := &ss.cfg
	out := &realOut{}
	metadata.SetLogger(logSeam{r})
	armed := ss.plan.SkewAt
	if armed < 0 {
		ss.plan.SkewAt = 0
	}
	strictStop := ss.fault >= 2
	r.ev("session %d mode %d fault %d stub=%v offline=%v nocache=%v root %s", c.session, ss.mode, ss.fault, cfg.Stub, cfg.Offline, cfg.NoCache, label(c.w.find(cfg.Root)))
	out.proc = r.Spawn(fmt.Sprintf("client%s%d", c.tag, c.session), c.Cwd, ss.skew, ss.plan, func(p *Proc) {
		out.proc = p
		c.work(p, out, cfg, ss.script, strictStop, func(p *Proc) {
			if armed < 0 {
				ss.plan.SkewAt = p.ops - armed
			}
		})
	})
	return out
}

// ended tells whether there is anything to judge.
func (ss *Session) ended(out *realOut) bool {
	r := ss.c.r
	return !r.hung && len(r.Unsupported) == 0 && out.proc.panicked == "" && out.proc.ops <= r.Budget
}

func (ss *Session) judge(out *realOut, all0, all1 map[string][]byte) (allOK bool, ro *refOut) {
	c, r, cfg, p := ss.c, ss.c.r, &ss.cfg, out.proc
	dirs := []string{cfg.MetaAbs, cfg.TgtAbs}
	crashed := p.dead
	dests := append([]string(nil), dirs...)
	for _, o := range ss.script {
		if o.dest != "" {
			dests = append(dests, absPath(c.Cwd, o.dest))
		}
	}
	c.r.confined(p, dests, cfg.NoCache)
	r.untouched(p, dests, all0, all1)
	// time and volume of each request
	r.requestTimes(p)
	if cfg.Offline {
		for _, e := range out.ops {
			if e.op.kind != "download" && e.reqN > e.reqs {
				r.violate("offline", "%s sent %s in offline mode during %s", p.Name, p.reqLog[e.reqs].URL, e.op.kind)
			}
		}
		if len(out.ops) == 0 && len(p.reqLog) > 0 {
			r.violate("offline", "%s sent %s in offline mode", p.Name, p.reqLog[0].URL)
		}
	}
	relaxed := p.wFaults > 0 || p.statFaults > 0 || (ss.fault == 4 && !cfg.NoCache) || crashed
	// compare with the reference client, for some decision about doubtful documents
	before := map[string][]byte{}
	for k, v := range all0 {
		if inside(k, dests...) {
			before[k] = v
		}
	}
	after := map[string][]byte{}
	for k, v := range all1 {
		if inside(k, dests...) {
			after[k] = v
		}
	}
	var first *mismatch
	queue := []map[int]bool{{}}
	matched := false
	for n := 0; len(queue) > 0 && n < 400; n++ {
		a := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		o, br := ss.runRef(out, before, a)
		if br >= 0 {
			for _, v := range []bool{true, false} {
				b := map[int]bool{br: v}
				for k, x := range a {
					b[k] = x
				}
				queue = append(queue, b)
			}
			continue
		}
		var m *mismatch
		if relaxed {
			m = ss.compareRelaxed(out, o, before, after, crashed)
		} else {
			m = ss.compare(out, o, before, after)
		}
		if m == nil {
			matched, ro = true, o
			break
		}
		if first == nil {
			first = m
			ro = o
		} else if first.msg != m.msg {
			first.msg += "; or: " + m.msg
		}
	}
	if !matched && len(queue) > 0 {
		r.count("check:undecided")
	} else if !matched && first != nil {
		r.violate(first.tag, "%s: %s", p.Name, first.msg)
	}
	allOK = !crashed && out.newOK && len(out.ops) == len(ss.script)
	for _, e := range out.ops {
		allOK = allOK && e.ok
	}
	// history of each file, for power losses
	if ro != nil {
		for k, v := range before {
			c.remember(k, v)
		}
		for _, w := range ro.f.Writes {
			c.remember(w.URL, w.Bytes)
		}
		ss.rollback(out, ro, matched)
	}
	outcome := "fail"
	if allOK {
		outcome = "ok"
	} else if crashed {
		outcome = "crash"
	} else if ro != nil && ro.f.Why != "" {
		outcome = "fail:" + strings.Fields(ro.f.Why)[0]
	}
	r.count("session:" + strings.SplitN(outcome, ":", 2)[0])
	names := []string{}
	for _, f := range sortedKeys(after) {
		d := c.w.find(after[f])
		id := "x"
		if d != nil && d.C != nil {
			id = fmt.Sprint(d.C.Type[:2], d.C.Version)
		}
		names = append(names, path.Base(f)[:min(4, len(path.Base(f)))]+id)
	}
	r.state(fmt.Sprintf("%d %d %s %v %s", ss.mode, ss.fault, outcome, cfg.Offline, strings.Join(names, ",")))
	return
}

// confined: what every process has to respect, whatever it was told to do.
func (r *Run) confined(p *Proc, dests []string, noCache bool) {
	if !p.dead {
		for _, fd := range sortedFds(r.fds) {
			if f := r.fds[fd]; f.owner == p {
				r.violate("fd-leak", "%s left %s open", p.Name, f.path)
			}
		}
	}
	for _, fd := range sortedFds(r.fds) {
		if r.fds[fd].owner == p {
			delete(r.fds, fd)
		}
	}
	for _, f := range sortedKeys(p.touched) {
		if !inside(f, dests...) {
			r.violate("outside", "%s wrote outside its folders: %s", p.Name, f)
		}
		if noCache {
			r.violate("cache-disabled", "%s wrote %s although the cache is disabled", p.Name, f)
		}
	}
	for _, f := range sortedKeys(p.made) {
		up := false
		for _, d := range dests {
			up = up || inside(d, f)
		}
		if !up && !inside(f, dests...) {
			r.violate("outside", "%s made a folder outside its own: %s", p.Name, f)
		}
		if noCache {
			r.violate("cache-disabled", "%s made the folder %s although the cache is disabled", p.Name, f)
		}
	}
	for _, f := range sortedKeys(p.opened) {
		if !inside(f, dests...) {
			r.violate("outside", "%s opened a file outside its folders: %s", p.Name, f)
		}
	}
}

func (r *Run) untouched(p *Proc, dests []string, all0, all1 map[string][]byte) {
	for _, f := range sortedKeys(all0) {
		if b, ok := all1[f]; !inside(f, dests...) && (!ok || !bytes.Equal(b, all0[f])) {
			r.violate("outside", "%s changed %s", p.Name, f)
		}
	}
	for _, f := range sortedKeys(all1) {
		if _, ok := all0[f]; !ok && !inside(f, dests...) {
			r.violate("outside", "%s created %s", p.Name, f)
		}
	}
}

func (r *Run) requestTimes(p *Proc) {
	for _, q := range p.reqLog {
		end := q.End
		if end == 0 {
			end = q.Start
		}
		if d := end - q.Start; d > 2*time.Minute {
			r.violate("request-time", "%s waited %v for %s", p.Name, d, q.URL)
		}
	}
}

func label(d *Doc) string {
	if d == nil {
		return "unknown document"
	}
	return d.Label
}

func (c *Client) remember(p string, b []byte) {
	if c.hist[p] == nil {
		c.hist[p] = map[string]bool{}
	}
	c.hist[p][string(b)] = true
}

func (ss *Session) compare(out *realOut, ro *refOut, before, after map[string][]byte) *mismatch {
	f := ro.f
	if out.newOK != ro.newOK {
		return &mismatch{"new", fmt.Sprintf("New succeeded=%v (%s), expected %v (%s)", out.newOK, out.newErr, ro.newOK, ro.newW)}
	}
	allOK := true
	refreshed := ro.newOK
	for i := range out.ops {
		a, b := &out.ops[i], &ro.ops[i]
		if m := ss.compareOp(a, b); m != nil {
			return m
		}
		if a.ok != b.ok && !(b.loose && b.ok) {
			tag := "accepted"
			if b.ok {
				tag = "refused"
			}
			return &mismatch{tag + "-" + a.op.kind, fmt.Sprintf("%s %s succeeded=%v (%s), expected %v (%s)", a.op.kind, a.op.path, a.ok, a.err, b.ok, b.why)}
		}
		allOK = allOK && b.ok
		if a.op.kind == "refresh" && !b.ok {
			refreshed = false
		}
	}
	if out.trustedOK {
		if !f.loose && fpOf(out.root) != fpOf(docFP(f.Root)) {
			return &mismatch{"trusted-root", fmt.Sprintf("trusted root is %s, expected %s", verOf(out.root), label(f.Root))}
		}
		if f.loose {
		} else if refreshed && f.Tg["targets"] != nil {
			if fpOf(out.ts) != fpOf(docFP(f.Ts)) {
				return &mismatch{"trusted-timestamp", fmt.Sprintf("trusted timestamp is %s, expected %s", verOf(out.ts), label(f.Ts))}
			}
			if fpOf(out.snap) != fpOf(docFP(f.Snap)) {
				return &mismatch{"trusted-snapshot", fmt.Sprintf("trusted snapshot is %s, expected %s", verOf(out.snap), label(f.Snap))}
			}
			for _, n := range sortedKeys(f.Tg) {
				if fpOf(out.tg[n]) != fpOf(docFP(f.Tg[n])) {
					return &mismatch{"trusted-targets", fmt.Sprintf("trusted %s is %s, expected %s", n, verOf(out.tg[n]), label(f.Tg[n]))}
				}
			}
			for _, n := range sortedKeys(out.tg) {
				if f.Tg[n] == nil {
					return &mismatch{"trusted-targets", fmt.Sprintf("%s %s is trusted unexpectedly", n, verOf(out.tg[n]))}
				}
			}
		} else if m := ss.authentic(out, f); m != nil {
			return m
		}
	}
	if ss.cand != nil {
		// others write there too
	} else if f.loose {
		if m := ss.oldOrNew(ro, before, after, map[string]bool{}, false); m != nil {
			return m
		}
	} else if m := diffFiles(f.cache, after); m != "" {
		return &mismatch{"cache", m}
	}
	return ss.compareReqs(out, ro, allOK)
}

// authentic: after a failure, whatever is in the trusted set is at least signed
// by the trusted root.
func (ss *Session) authentic(out *realOut, f *Ref) *mismatch {
	chk := func(role string, x *rdoc) *mismatch {
		if x == nil {
			return nil
		}
		for _, d := range ss.c.w.byID {
			if d.C != nil && d.V != Bad && d.C.Version == x.ver && docFP(d).fp == x.fp && f.byRoot(d, role) {
				return nil
			}
		}
		return &mismatch{"trusted-" + role, fmt.Sprintf("after a failure the trusted %s v%d is not one the root's keys signed", role, x.ver)}
	}
	if m := chk("timestamp", out.ts); m != nil {
		return m
	}
	if m := chk("snapshot", out.snap); m != nil {
		return m
	}
	if x := out.tg["targets"]; x != nil {
		return &mismatch{"trusted-targets", "after a failed refresh targets are trusted"}
	}
	return nil
}

func (ss *Session) compareOp(a *opOut, b *refOp) *mismatch {
	c := ss.c
	if !a.ok || !b.ok {
		return nil
	}
	switch a.op.kind {
	case "lookup":
		if a.path != a.op.path || !sameInfo(a.info, b.info) {
			return &mismatch{"lookup", fmt.Sprintf("lookup of %q returned %q %v, expected %v of role %s", a.op.path, a.path, a.info, b.info, b.role)}
		}
	case "find":
		if a.none != b.none {
			return &mismatch{"find", fmt.Sprintf("cached copy of %q found=%v, expected %v", a.op.path, !a.none, !b.none)}
		}
		if !a.none && (!bytes.Equal(a.data, b.data) || absPath(c.Cwd, a.path) != b.dest) {
			return &mismatch{"find", fmt.Sprintf("cached copy of %q is %s (%d bytes), expected %s", a.op.path, a.path, len(a.data), b.dest)}
		}
	case "download":
		if !bytes.Equal(a.data, b.data) {
			return &mismatch{"download", fmt.Sprintf("download of %q returned %d other bytes than expected", a.op.path, len(a.data))}
		}
		if !ss.cfg.NoCache && absPath(c.Cwd, a.path) != b.dest {
			return &mismatch{"download", fmt.Sprintf("download of %q went to %s, expected %s", a.op.path, a.path, b.dest)}
		}
	}
	return nil
}

func diffFiles(want, got map[string][]byte) string {
	for _, k := range sortedKeys(want) {
		b, ok := got[k]
		if !ok {
			return fmt.Sprintf("%s is missing", k)
		}
		if !bytes.Equal(b, want[k]) {
			return fmt.Sprintf("%s has other content than expected (%d bytes, expected %d)", k, len(b), len(want[k]))
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%s is unexpected", k)
		}
	}
	return ""
}

func (ss *Session) compareReqs(out *realOut, ro *refOut, allOK bool) *mismatch {
	p := out.proc
	limits := map[string][]int64{}
	want := map[string]bool{}
	for i := range out.ops {
		a, b := &out.ops[i], &ro.ops[i]
		got := a.urls(p)
		if len(a.urls(p)) > 0 && a.op.kind == "find" {
			return &mismatch{"requests", "looking for a cached copy sent " + got[0]}
		}
		for j, u := range b.reqs {
			want[u] = true
			limits[u] = append(limits[u], b.limits[j])
		}
		if b.ok && !b.loose {
			if strings.Join(got, " ") != strings.Join(b.reqs, " ") {
				return &mismatch{"requests", fmt.Sprintf("%s %s requested [%s], expected [%s]", a.op.kind, a.op.path, strings.Join(got, " "), strings.Join(b.reqs, " "))}
			}
			continue
		}
		// a lookup after a failed refresh may try the refresh again
		for _, u := range got {
			if !want[u] && !(b.loose && strings.HasPrefix(u, canonURL(ss.cfg.MetaURL))) {
				return &mismatch{"requests", fmt.Sprintf("%s %s requested %s unexpectedly", a.op.kind, a.op.path, u)}
			}
		}
	}
	nth := map[string]int{}
	for _, q := range p.reqLog {
		ls := limits[q.URL]
		if len(ls) == 0 {
			continue
		}
		l := ls[min(nth[q.URL], len(ls)-1)]
		if !q.Hop {
			nth[q.URL]++
		}
		if q.Limit >= 0 && !q.Hop && q.Limit != l {
			return &mismatch{"limit", fmt.Sprintf("%s was requested with a maximum of %d bytes, expected %d", q.URL, q.Limit, l)}
		}
		if !q.Hop && q.Resp.Loc == "" && q.Bytes > l+1 {
			return &mismatch{"limit", fmt.Sprintf("%d bytes of %s were read, at most %d are allowed", q.Bytes, q.URL, l)}
		}
	}
	return nil
}

// compareRelaxed: some system call failed or the process died. It may have failed
// because of that, but whatever succeeded must be right and complete.
func (ss *Session) compareRelaxed(out *realOut, ro *refOut, before, after map[string][]byte, crashed bool) *mismatch {
	f := ro.f
	p := out.proc
	if out.newOK && !ro.newOK {
		return &mismatch{"new", fmt.Sprintf("New succeeded, expected a failure (%s)", ro.newW)}
	}
	allOK := out.newOK && len(out.ops) == len(ss.script)
	if !out.newOK && ro.newOK && !crashed && p.wFaults+p.statFaults == 0 && ss.fault != 4 {
		return &mismatch{"new", "New failed without a reason: " + out.newErr}
	}
	for i := range out.ops {
		a, b := &out.ops[i], &ro.ops[i]
		if m := ss.compareOp(a, b); m != nil {
			return m
		}
		if a.ok && !b.ok {
			return &mismatch{"accepted-" + a.op.kind, fmt.Sprintf("%s %s succeeded, expected a failure (%s)", a.op.kind, a.op.path, b.why)}
		}
		allOK = allOK && a.ok
	}
	if out.trustedOK && len(out.ops) > 0 && out.ops[len(out.ops)-1].ok && f.Tg["targets"] != nil {
		if fpOf(out.root) != fpOf(docFP(f.Root)) || fpOf(out.ts) != fpOf(docFP(f.Ts)) || fpOf(out.snap) != fpOf(docFP(f.Snap)) || fpOf(out.tg["targets"]) != fpOf(docFP(f.Tg["targets"])) {
			return &mismatch{"trusted", "the trusted metadata is not what was served"}
		}
	}
	if ss.cand != nil {
		return nil
	}
	if allOK && !crashed {
		if m := diffFiles(f.cache, after); m != "" {
			return &mismatch{"success-in-spite", "everything succeeded in spite of a fault, but " + m}
		}
		return nil
	}
	loose := map[string]bool{} // being written in place when it failed
	for i, st := range ss.script {
		if st.kind != "download" {
			continue
		}
		if i >= len(out.ops) || (i == len(out.ops)-1 && !out.ops[i].ok) {
			loose[ro.ops2dest(i, ss)] = true
			if i >= len(out.ops) {
				break
			}
		}
	}
	return ss.oldOrNew(ro, before, after, loose, crashed || p.unlinkFault)
}

// oldOrNew: each file is what it was, or one of the documents stored in this session.
func (ss *Session) oldOrNew(ro *refOut, before, after map[string][]byte, skip map[string]bool, stray bool) *mismatch {
	okay := map[string]map[string]bool{}
	add := func(k string, b []byte) {
		if okay[k] == nil {
			okay[k] = map[string]bool{}
		}
		okay[k][string(b)] = true
	}
	for k, v := range before {
		add(k, v)
	}
	for _, w := range ro.f.Writes {
		add(w.URL, w.Bytes)
	}
	for _, k := range sortedKeys(after) {
		if skip[k] {
			continue
		}
		if okay[k] == nil {
			if stray && path.Dir(k) == ss.cfg.MetaAbs {
				continue // what it was working on
			}
			return &mismatch{"stray", fmt.Sprintf("%s was left behind", k)}
		}
		if !okay[k][string(after[k])] {
			return &mismatch{"damaged", fmt.Sprintf("%s is neither what it was nor what was to be stored (%d bytes)", k, len(after[k]))}
		}
	}
	for _, k := range sortedKeys(before) {
		if _, ok := after[k]; !ok && !skip[k] {
			return &mismatch{"damaged", fmt.Sprintf("%s has vanished", k)}
		}
	}
	return nil
}

func (ro *refOut) ops2dest(i int, ss *Session) string {
	if d := ss.script[i].dest; d != "" {
		return absPath(ss.c.Cwd, d)
	}
	return ro.f.dest(ss.script[i].path)
}

// rollback compares accepted sessions with each other, without the reference.
func (ss *Session) rollback(out *realOut, ro *refOut, matched bool) {
	c := ss.c
	if ro.f.Root == nil {
		return
	}
	same := func(a, b *Doc) bool {
		for _, r := range []string{"timestamp", "snapshot"} {
			x, y := a.C.Roles[r], b.C.Roles[r]
			if x.Threshold != y.Threshold || strings.Join(x.KeyIDs, ",") != strings.Join(y.KeyIDs, ",") {
				return false
			}
		}
		return true
	}
	if c.seen != nil && !same(c.seen.root, ro.f.Root) {
		c.seen = nil
	}
	if ss.cfg.NoCache || out.root == nil {
		return
	}
	if ss.deny != nil || out.proc.statFaults > 0 || ss.cand != nil || !c.intact {
		c.seen = nil
		c.intact = true
	}
	okRefresh := matched && ro.f.Tg["targets"] != nil && out.tg["targets"] != nil && out.ts != nil && out.snap != nil
	if !okRefresh || ro.f.loose || ss.cand != nil {
		return
	}
	if s := c.seen; s != nil {
		c.r.count("check:rollback")
		if out.ts.ver < s.ts {
			c.r.violate("rollback", "timestamp v%d accepted after v%d", out.ts.ver, s.ts)
		}
		if out.snap.ver < s.snap {
			c.r.violate("rollback", "snapshot v%d accepted after v%d", out.snap.ver, s.snap)
		}
		for _, n := range sortedKeys(s.meta) {
			x, ok := ro.f.Snap.C.Meta[n]
			if !ok || x.Version < s.meta[n].Version {
				c.r.violate("rollback", "%s goes back or vanishes in an accepted snapshot", n)
			}
		}
	}
	if out.proc.dead {
		return
	}
	c.seen = &accepted{root: ro.f.Root, ts: out.ts.ver, snap: out.snap.ver, meta: ro.f.Snap.C.Meta}
}

// powerLoss cuts the power and looks at what is left.
func (c *Client) powerLoss() {
	r := c.r
	r.count("fault:power loss")
	durable := r.FS.durable
	r.FS.PowerLoss(r.Src, func(s string) { r.ev("%s", s) })
	cfg := &c.cfg
	for _, n := range append([]string{"root", "timestamp", "snapshot"}, c.rp.sortedRoles()...) {
		p := path.Join(cfg.MetaAbs, escapeRole(n)+".json")
		b, ok := r.FS.Get(p)
		if !ok {
			if _, _, d, err := walk(durable, p); err == nil && d != nil {
				r.violate("damaged", "%s has vanished in a power loss", p)
			}
			continue
		}
		if !c.hist[p][string(b)] {
			r.violate("damaged", "after a power loss %s is not a complete document that was stored there (%d bytes)", p, len(b))
		}
	}
	c.intact = false
	c.seen = nil
}

var _ = sort.Strings
