package sim

import (
	"bytes"
	"fmt"
	"path"
	"strings"
	"time"
)

// Renew publishes everything afresh, as a publisher does before things expire.
func (rp *Repo) Renew(why string) {
	for _, n := range rp.sortedRoles() {
		rp.roles[n].dirty = true
	}
	if rp.roots[len(rp.roots)-1].C.Expires < rp.w.now()+hour {
		if rp.life["root"] < 10*hour {
			rp.life["root"] = 10 * hour
		}
		rp.rootV++
		rp.newRootDoc(rp.keys["root"], []int{rp.thr["root"]})
	}
	for _, r := range topRoles {
		if rp.life[r] < 10*hour {
			rp.life[r] = 10 * hour
		}
	}
	for _, n := range rp.sortedRoles() {
		if rp.roles[n].Life < 10*hour {
			rp.roles[n].Life = 10 * hour
		}
	}
	rp.Publish(why)
}

// damage spoils files of the cache.
func (c *Client) damage() {
	r, s := c.r, c.w.s
	fs := r.FS
	files := fs.Files(c.cfg.MetaAbs)
	if c.cfg.TgtAbs != "" && !inside(c.cfg.TgtAbs, c.cfg.MetaAbs) {
		files = append(files, fs.Files(c.cfg.TgtAbs)...)
	}
	if len(files) == 0 {
		return
	}
	c.intact = false
	if s.P(c.pf.WipeCache) {
		for _, f := range files {
			fs.Del(f)
		}
		r.count("fault:cache:wiped")
		r.ev("the cache is wiped")
		return
	}
	for i := 0; i <= s.N(3); i++ {
		f := files[s.N(len(files))]
		b, ok := fs.Get(f)
		if !ok {
			continue
		}
		how := ""
		switch s.W(2, 2, 1, 1, 1, 3, 3) {
		case 0:
			how = "deleted"
			fs.Del(f)
		case 1:
			how = "cut short"
			n := len(bytes.TrimSpace(b))
			if n < 2 {
				continue
			}
			b = b[:s.N(n-1)]
			fs.Put(f, b)
		case 2:
			how = "zero-filled"
			fs.Put(f, make([]byte, len(b)))
		case 3:
			how = "empty"
			fs.Put(f, nil)
		case 4:
			how = "garbage"
			g := make([]byte, 1+s.N(200))
			for j := range g {
				g[j] = byte(s.N(256))
			}
			fs.Put(f, g)
		case 5: // some other document
			how = "replaced by another document"
			d := c.w.byID[s.N(len(c.w.byID))]
			fs.Put(f, d.Bytes)
			how += " " + d.Label
		case 6:
			if !inside(f, c.cfg.MetaAbs) || !s.P(c.pf.DamageMal) {
				how = "swapped with another file"
				g := files[s.N(len(files))]
				x, ok := fs.Get(g)
				if !ok {
					continue
				}
				fs.Put(f, x)
				fs.Put(g, b)
				break
			}
			role := "targets"
			for _, n := range append([]string{"timestamp", "snapshot"}, c.rp.sortedRoles()...) {
				if f == path.Join(c.cfg.MetaAbs, escapeRole(n)+".json") {
					role = n
				}
			}
			d := c.rp.Malformed(role)
			fs.Put(f, d.Bytes)
			how = "replaced by " + d.Label
		}
		r.count("fault:cache:" + strings.Join(strings.Fields(how)[:1], " "))
		r.ev("damage: %s %s", f, how)
	}
}

// advance lets time pass.
func (c *Client) advance() {
	r, s := c.r, c.w.s
	d := time.Duration(1+s.N(200)) * time.Hour
	if s.P(c.pf.NearExpiry) {
		st := c.rp.Cur
		docs := []*Doc{st.Root, st.Ts, st.Snap}
		for _, n := range sortedKeys(st.Tg) {
			docs = append(docs, st.Tg[n])
		}
		e := docs[s.N(len(docs))].C.Expires - time.Now().Unix()
		e += int64(pick(s, -1, 0, 1, -2, -60, 60))
		if e <= 0 || e > 4000*hour {
			return
		}
		d = time.Duration(e) * time.Second
		r.count("time:to an expiry")
	}
	r.ev("%v pass", d)
	time.Sleep(d)
}

// prepareTargets puts copies, good and bad, where targets go.
func (c *Client) prepareTargets() {
	s := c.w.s
	ps := c.rp.targetPaths()
	if len(ps) == 0 {
		return
	}
	for i := 0; i <= s.N(3); i++ {
		p := ps[s.N(len(ps))]
		var body []byte
		for _, n := range c.rp.sortedRoles() {
			if b, ok := c.rp.roles[n].Targets[p]; ok {
				body = append([]byte(nil), b...)
			}
		}
		how := s.N(5)
		if len(body) == 0 && how > 1 {
			how = 1
		}
		switch how {
		case 1:
			body = append(body, 'x')
		case 2:
			body[s.N(len(body))] ^= 4
		case 3:
			body = body[:s.N(len(body))]
		case 4:
			body = bytes.Repeat([]byte("z"), len(body))
		}
		f := path.Join(c.cfg.TgtAbs, escapeRole(p))
		if s.P(300) {
			f = pick(s, c.Cwd+"/out/file", c.Cwd+"/out/other")
		}
		c.r.FS.MkdirAll(path.Dir(f))
		c.r.FS.Put(f, body)
		c.r.count("fault:cache:prepared target")
	}
}

func (r *Run) stop() bool { return len(r.Viol) > 0 || r.hung || len(r.Unsupported) > 0 }

// after an honest session: nothing may be in the way of one for long.
func (c *Client) honest() (bool, *Session, *refOut, *realOut) {
	ss := c.newSession(true)
	ok, ro, out := ss.run()
	return ok, ss, ro, out
}

func refreshed(ro *refOut) bool { return ro != nil && ro.newOK && ro.f.Tg["targets"] != nil }

// recover is what the publisher does when nothing else helps.
func (c *Client) recover() {
	c.r.count("world:recovered by rotation")
	if c.rp.splitRoot {
		c.rp.RotateOnline()
		c.rp.splitRoot = false
	}
	c.rp.RotateOnline()
	c.rp.stuck = false
}

// again: the same session once more must not download anything twice.
func (c *Client) again(first *Session, out1 *realOut) {
	r := c.r
	ss := c.newSession(true)
	ss.cfg, ss.script = first.cfg, first.script
	ss.cfg.Stub = c.w.s.P(500)
	for _, d := range c.rp.Cur.Tg {
		if d.C.Expires <= c.w.now() { // in the meantime
			return
		}
	}
	_, ro, out := ss.run()
	if r.stop() || ro == nil || !refreshed(ro) {
		return
	}
	if ss.cfg.Offline || ss.cfg.NoCache {
		return
	}
	r.count("check:reuse")
	n := 0
	for _, q := range out.proc.reqLog {
		if strings.HasPrefix(q.URL, canonURL(c.rp.Meta)) {
			base := q.URL[strings.LastIndex(q.URL, "/")+1:]
			if base == "timestamp.json" {
				n++
				continue
			}
			if strings.HasSuffix(base, ".root.json") {
				continue
			}
			r.violate("not-reused", "%s was downloaded again in an immediately following session", q.URL)
		}
	}
	if n != 1 {
		r.violate("not-reused", "the timestamp was requested %d times in a session", n)
	}
	for i := range out.ops {
		if k := out.ops[i].op.kind; k != "download" && k != "find" && i < len(out1.ops) && out1.ops[i].ok != out.ops[i].ok && !r.stop() {
			r.violate("not-reused", "%s %s gave another result in an immediately following session", out.ops[i].op.kind, out.ops[i].op.path)
		}
	}
}

// scenClient is the life of one client installation against one repository.
func scenClient(r *Run, pf *Profile) {
	time.Sleep(123456789)
	w := NewWorld(r, pf)
	s := r.Src
	rp := w.NewRepo("a", s.P(pf.Odd))
	c := w.NewClient(rp, "u")
	if s.P(800) {
		ok, ss, _, out := c.honest()
		if r.stop() {
			return
		}
		if ok && s.P(pf.Repeat) {
			c.again(ss, out)
		}
	}
	rounds := 1 + s.N(pf.Rounds)
	for i := 0; i < rounds && !r.stop(); i++ {
		if s.P(pf.Evolve) {
			rp.Evolve()
		}
		if s.P(pf.Rotate) {
			rp.Rotate(1 + s.N(pf.MaxRot))
		}
		if s.P(pf.RotOnline) {
			rp.RotateOnline()
		}
		if s.P(pf.Advance) {
			c.advance()
			if s.P(500) {
				rp.Publish("routine")
			}
		}
		if s.P(pf.Damage) {
			c.damage()
		}
		if s.P(pf.CacheSet) {
			c.prepareTargets()
		}
		if pf.Set > 0 && s.P(pf.Set) {
			c.setSession()
			if r.stop() {
				return
			}
			if rp.splitRoot {
				c.recover()
			}
			rp.Publish("after a set session")
			continue
		}
		ss := c.newSession(false)
		ok, _, out := ss.run()
		if r.stop() {
			return
		}
		if out.proc != nil && (out.proc.dead || s.P(300)) && s.P(pf.PowerOff) {
			c.powerLoss()
			if r.stop() {
				return
			}
			ok = false
		}
		if ok && ss.mode == 0 && s.P(pf.Repeat) {
			ss2 := *ss
			c.again(&ss2, out)
			if r.stop() {
				return
			}
		}
		if rp.splitRoot {
			rp.RotateOnline()
			rp.RotateOnline()
			rp.splitRoot = false
		} else if ss.mode >= 2 {
			rp.Publish("after an attack")
		}
		if s.P(350) {
			if s.P(500) {
				rp.Renew("renewed")
			}
			ok, ss, ro, out := c.honest()
			if r.stop() {
				return
			}
			if !refreshed(ro) {
				c.recover()
			} else if ok && s.P(pf.Repeat) {
				c.again(ss, out)
			}
		}
	}
	if !pf.Final || r.stop() {
		return
	}
	// faults have stopped: the next session has to bring the newest state
	if rp.stuck || rp.splitRoot {
		c.recover()
	}
	rp.Renew("final")
	r.ev("final session")
	r.count("check:recovery")
	ss := c.newSession(true)
	if ss.script[0].kind != "refresh" {
		ss.script = append([]op{{kind: "refresh"}}, ss.script...)
	}
	for _, p := range rp.targetPaths() {
		ss.script = append(ss.script, op{kind: "lookup", path: p})
		if downloadable(p) {
			ss.script = append(ss.script, op{kind: "download", path: p})
		}
	}
	_, ro, out := ss.run()
	if r.stop() {
		return
	}
	if !out.newOK || len(out.ops) == 0 || !out.ops[0].ok {
		why := ""
		if ro != nil {
			why = ro.f.Why
		}
		r.violate("no-recovery", "a session without faults on the current repository fails: %s %s (%s)", out.newErr, firstErr(out), why)
		return
	}
	st := rp.Cur
	if fpOf(out.root) != fpOf(docFP(st.Root)) || fpOf(out.ts) != fpOf(docFP(st.Ts)) || fpOf(out.snap) != fpOf(docFP(st.Snap)) || fpOf(out.tg["targets"]) != fpOf(docFP(st.Tg["targets"])) {
		r.violate("no-recovery", "the final session ends on root %s timestamp %s snapshot %s targets %s, not on the current state", verOf(out.root), verOf(out.ts), verOf(out.snap), verOf(out.tg["targets"]))
	}
}

func firstErr(o *realOut) string {
	for _, e := range o.ops {
		if e.err != "" {
			return fmt.Sprintf("%s: %s", e.op.kind, e.err)
		}
	}
	return ""
}
