package sim

import (
	"fmt"
	"path"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
)

// named are the documents a state serves under a role's name, in order of their names.
func (w *World) named(st *State, role string) []*Doc {
	var o []*Doc
	for _, u := range sortedKeys(st.Files) {
		b := path.Base(u)
		if i := strings.IndexByte(b, '.'); i > 0 && strings.Trim(b[:i], "0123456789") == "" && b != escapeRole(role)+".json" {
			b = b[i+1:]
		}
		if b != escapeRole(role)+".json" {
			continue
		}
		if d := w.find(st.Files[u]); d != nil {
			o = append(o, d)
		}
	}
	return o
}

// setSession is a client program of its own that keeps a trusted set and feeds
// it documents in whatever order, with what the caller of the set has to expect.
func (c *Client) setSession() {
	r, w, s := c.r, c.w, c.w.s
	c.session++
	sts := []*State{c.rp.Cur}
	if s.P(600) {
		sts = append(sts, c.rp.States[s.N(len(c.rp.States))])
	}
	if s.P(700) {
		sts = append(sts, c.attack())
	}
	if s.P(200) {
		sts = sts[len(sts)-1:]
	}
	skew := int64(0)
	if s.P(c.pf.Skew) {
		skew = int64(pick(s, 1, -1)) * int64(1+s.N(200)) * hour
	}
	root := c.rp.roots[s.N(len(c.rp.roots))]
	if s.P(500) {
		root = c.rp.roots[len(c.rp.roots)-1]
	}
	main := s.N(len(sts))
	r.ev("set session %d, root %s", c.session, label(root))
	r.Spawn(fmt.Sprintf("set%d", c.session), c.Cwd, skew, &Plan{}, func(p *Proc) {
		now := time.Now().UnixNano()
		f := NewRef(w, &Cfg{Root: root.Bytes, NoCache: true}, now, nil, nil, nil, nil)
		f.assign = map[int]bool{root.ID: true}
		t, err := trustedmetadata.New(root.Bytes)
		if err != nil || !f.New() {
			if err == nil || root.V == Good {
				r.violate("set", "%s: a set with %s: %v", p.Name, label(root), err)
			}
			return
		}
		jump := int64(0)
		for i := 0; i < 4+s.N(20) && !r.stop(); i++ {
			if s.P(c.pf.Jump) {
				jump = int64(pick(s, 1, -1)) * int64(1+s.N(2000)) * hour
				p.Skew += jump
				time.VsimSkew += jump
				r.count("fault:clock:jump")
			}
			st := sts[main]
			if s.P(250) {
				st = sts[s.N(len(sts))]
			}
			c.feed(p, f, t, st)
		}
	})
	r.Wait()
}

// feed gives the set one document and compares what becomes of it.
func (c *Client) feed(p *Proc, f *Ref, t *trustedmetadata.TrustedMetadata, st *State) {
	r, w, s := c.r, c.w, c.w.s
	role, parent := "root", ""
	// what comes next, mostly
	next := 0
	switch {
	case f.Tg["targets"] != nil:
		next = 4
	case f.Snap != nil:
		next = 3
	case f.Ts != nil:
		next = 2
	default:
		next = s.W(4, 3)
	}
	if s.P(300) {
		next = s.N(5)
	}
	switch next {
	case 1:
		role = "timestamp"
	case 2:
		role = "snapshot"
	case 3:
		role, parent = "targets", "root"
	case 4:
		type edge struct{ role, parent string }
		var es []edge
		for _, n := range sortedKeys(f.Tg) {
			dl := f.Tg[n].C.Deleg
			if dl == nil {
				continue
			}
			for _, x := range dl.Roles {
				es = append(es, edge{x.Name, n})
			}
			if dl.Succ != nil {
				es = append(es, edge{binName(dl.Succ.Prefix, dl.Succ.Bits, "f1"), n})
			}
		}
		role, parent = "targets", "root"
		if len(es) > 0 {
			e := es[s.N(len(es))]
			role, parent = e.role, e.parent
		}
		if s.P(60) {
			parent = pick(s, "root", "targets", "nobody", role)
		}
		if s.P(30) {
			role = pick(s, "targets", "nobody", "timestamp")
		}
	}
	var ds []*Doc
	for _, d := range w.named(st, role) {
		if role != "root" || d.C == nil || d.C.Version == f.Root.C.Version+1 || s.P(150) {
			ds = append(ds, d)
		}
	}
	if len(ds) == 0 || s.P(80) {
		ds = w.byID
		if s.P(500) { // another version of it
			ds = nil
			for _, x := range c.rp.States {
				ds = append(ds, w.named(x, role)...)
			}
		}
	}
	if len(ds) == 0 {
		return
	}
	d := ds[s.N(len(ds))]
	if d.V == Either {
		return
	}
	b := append([]byte{}, d.Bytes...)
	trusted := false
	var err error
	var want bool
	var fp, fpWant string
	switch next {
	case 0:
		var m *metadata.Metadata[metadata.RootType]
		m, err = t.UpdateRoot(b)
		want = f.Ts == nil && f.wellFormed(d, "root") && d.C.Version == f.Root.C.Version+1 && f.byRoot(d, "root") && signed(d, d.C.Roles["root"], d.C.Keys)
		if want {
			f.Root = d
		}
		if err == nil {
			fp = fpOf(realRoot(m))
		}
	case 1:
		var m *metadata.Metadata[metadata.TimestampType]
		m, err = t.UpdateTimestamp(b)
		want = f.Snap == nil && !f.expired(f.Root) && f.wellFormed(d, "timestamp") && f.byRoot(d, "timestamp") &&
			(f.Ts == nil || d.C.Version > f.Ts.C.Version && d.C.Meta["snapshot.json"].Version >= f.Ts.C.Meta["snapshot.json"].Version)
		if want {
			f.Ts = d
			want = !f.expired(d)
		}
		if err == nil {
			fp = fpOf(realTs(m))
		}
	case 2:
		trusted = s.P(400)
		var m *metadata.Metadata[metadata.SnapshotType]
		m, err = t.UpdateSnapshot(b, trusted)
		want = f.Ts != nil && f.Tg["targets"] == nil && !f.expired(f.Ts) && (trusted || okLenHash(f.Ts.C.Meta["snapshot.json"], b)) &&
			f.wellFormed(d, "snapshot") && f.byRoot(d, "snapshot")
		if want && f.Snap != nil {
			for n, o := range f.Snap.C.Meta {
				if x, ok := d.C.Meta[n]; !ok || x.Version < o.Version {
					want = false
				}
			}
		}
		if want {
			f.Snap = d
			want = f.snapFinal()
		}
		if err == nil {
			fp = fpOf(realSnap(m))
		}
	default:
		var m *metadata.Metadata[metadata.TargetsType]
		if role == "targets" && parent == "root" && s.P(500) {
			m, err = t.UpdateTargets(b)
		} else {
			m, err = t.UpdateDelegatedTargets(b, role, parent)
		}
		want = f.Snap != nil && f.snapFinal() && (parent == "root" || f.Tg[parent] != nil)
		if want {
			mi, ok := f.Snap.C.Meta[role+".json"]
			want = ok && f.okRole(b, mi, role, parent) != nil
		}
		if want {
			f.Tg[role] = d
		}
		if err == nil {
			fp = fpOf(realTg(m))
		}
	}
	r.ev("%s feeds %s for %s of %s %v -> %v", p.Name, label(d), role, parent, trusted, err == nil)
	r.count("check:set")
	if (err == nil) != want {
		r.violate("set", "%s: %s as %s of %s (trusted %v): %v, expected success %v", p.Name, label(d), role, parent, trusted, err, want)
		return
	}
	if fpWant = fpOf(docFP(d)); want && fp != fpWant {
		r.violate("set", "%s: what is handed out for %s is not it", p.Name, label(d))
		return
	}
	var o realOut
	o.take(*t)
	bad := ""
	if fpOf(o.root) != fpOf(docFP(f.Root)) {
		bad = "root"
	}
	if fpOf(o.ts) != fpOf(docFP(f.Ts)) {
		bad = "timestamp"
	}
	if fpOf(o.snap) != fpOf(docFP(f.Snap)) {
		bad = "snapshot"
	}
	if len(o.tg) != len(f.Tg) {
		bad = "number of targets roles"
	}
	for _, n := range sortedKeys(f.Tg) {
		if fpOf(o.tg[n]) != fpOf(docFP(f.Tg[n])) {
			bad = n
		}
	}
	if bad != "" {
		r.violate("set", "%s: after %s as %s of %s the trusted %s is not what it has to be", p.Name, label(d), role, parent, bad)
	}
}
