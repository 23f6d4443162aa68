package sim

import (
	"encoding/hex"
	"fmt"
	"strings"
)

// Forging: states a repository must never be believed for, and odd ones it must.

// newState starts from what is on the server.
func (rp *Repo) newState(label string) *State {
	st := &State{N: -1, Label: rp.Name + " " + label, Root: rp.roots[len(rp.roots)-1], Roots: rp.roots, Ts: rp.Cur.Ts, Snap: rp.Cur.Snap, Tg: map[string]*Doc{}, Consistent: rp.Cur.Consistent, Files: map[string][]byte{}}
	for k, v := range rp.files {
		st.Files[k] = v
	}
	for k, v := range rp.Cur.Tg {
		st.Tg[k] = v
	}
	return st
}

func (rp *Repo) urlOf(role string, ver int64, cs bool) string {
	if role == "root" {
		return rp.metaURL(ver, "root")
	}
	if role == "timestamp" || !cs {
		return rp.metaURL(0, role)
	}
	return rp.metaURL(ver, role)
}

// keysFor are the keys and the threshold a role's delegators ask for.
func (rp *Repo) keysFor(role string) ([]*Key, int) {
	switch role {
	case "root", "timestamp", "snapshot":
		return rp.keys[role], rp.thr[role]
	}
	t := rp.roles[role]
	var ks []*Key
	for _, p := range sortedKeys(t.Keys) {
		ks = union(ks, t.Keys[p])
	}
	if role == "targets" {
		return ks, rp.thr["targets"]
	}
	thr := len(ks)
	for _, p := range sortedKeys(t.Keys) {
		if pr := rp.roles[p]; pr != nil && pr.Deleg != nil {
			if pr.Deleg.Succ != nil {
				if pr.Deleg.Succ.Threshold < thr {
					thr = pr.Deleg.Succ.Threshold
				}
			}
			for _, r := range pr.Deleg.Roles {
				if r.Name == role && r.Threshold < thr {
					thr = r.Threshold
				}
			}
		}
	}
	return ks, thr
}

func (rp *Repo) revoked(role string) []*Key {
	if t := rp.roles[role]; t != nil && role != "targets" {
		return t.Old
	}
	return rp.oldKeys[role]
}

// badSigs signs content in one of the ways that must not count, and a few that must.
func (rp *Repo) badSigs(role string, c *Content) ([]SigEnt, string) {
	w, s := rp.w, rp.w.s
	w.unknowns(c)
	payload := canon(c.obj())
	ks, thr := rp.keysFor(role)
	thr = min(thr, len(ks))
	ks = append([]*Key(nil), ks...)
	Shuffle(s, ks)
	good := sigsOf(payload, ks[:min(thr, len(ks))])
	under := sigsOf(payload, ks[:max(0, thr-1)])
	other := func(n int) []SigEnt {
		var o []SigEnt
		for i := 0; i < n; i++ {
			r := topRoles[s.N(4)]
			if r == role {
				r = "snapshot"
				if role == "snapshot" {
					r = "timestamp"
				}
			}
			k := rp.keys[r][s.N(len(rp.keys[r]))]
			o = append(o, sigsOf(payload, []*Key{k})...)
		}
		return o
	}
	junkHex := func() string {
		b := make([]byte, pick(s, 64, 0, 1, 71, 256))
		for i := range b {
			b[i] = byte(s.N(256))
		}
		return hex.EncodeToString(b)
	}
	uniq := func(in []SigEnt) []SigEnt {
		var o []SigEnt
		seen := map[string]bool{}
		for _, e := range in {
			if !seen[e.KeyID] {
				seen[e.KeyID] = true
				o = append(o, e)
			}
		}
		return o
	}
	switch s.N(13) {
	case 0:
		return under, "under-signed"
	case 1:
		return nil, "unsigned"
	case 2: // one good signature under everybody's name
		var o []SigEnt
		if len(good) > 0 {
			for _, k := range ks {
				o = append(o, SigEnt{k.ID, good[0].Key, good[0].Hex})
			}
			// the one under its own name still counts
		}
		return o, "one signature under many names"
	case 3:
		o := append([]SigEnt(nil), under...)
		if old := rp.revoked(role); len(old) > 0 {
			o = append(o, sigsOf(payload, old)...)
		} else {
			o = append(o, other(2)...)
		}
		return uniq(o), "signed by revoked keys"
	case 4:
		return uniq(append(append([]SigEnt(nil), under...), other(3)...)), "signed by other roles' keys"
	case 5: // signatures over something else
		c2 := c.copy()
		c2.Version += int64(pick(s, 1, -1, 7))
		o := sigsOf(canon(c2.obj()), ks)
		for i := range o {
			o[i].Key = nil
		}
		return o, "signatures over other content"
	case 6:
		o := append([]SigEnt(nil), under...)
		for _, k := range ks[max(0, thr-1):] {
			o = append(o, SigEnt{k.ID, nil, junkHex()})
		}
		return o, "junk signatures"
	case 7: // repeated key ID
		o := append([]SigEnt(nil), good...)
		if len(o) > 0 {
			e := o[s.N(len(o))]
			if s.P(500) {
				e = SigEnt{e.KeyID, nil, junkHex()}
			}
			o = append(o, e)
		}
		return o, "repeated key ID"
	case 8: // enough, plus unrelated ones: has to be accepted
		o := append(other(2), good...)
		o = append(o, SigEnt{strings.Repeat("ab", 32), nil, junkHex()}, SigEnt{"no such key", nil, ""})
		Shuffle(s, o)
		return uniq(o), "well signed with extra signatures"
	case 9: // the attacker's own key, listed nowhere
		k := w.newKey()
		return uniq(append(append([]SigEnt(nil), under...), sigsOf(payload, []*Key{k})...)), "signed by an unknown key"
	case 10: // unknown key's signature under a listed name
		k := w.newKey()
		o := append([]SigEnt(nil), under...)
		for _, l := range ks[max(0, thr-1):] {
			o = append(o, SigEnt{l.ID, k, hex.EncodeToString(k.Sign(payload))})
		}
		return o, "unknown key under listed names"
	case 11:
		o := append([]SigEnt(nil), good...)
		for i := range o {
			o[i].KeyID = strings.ToUpper(o[i].KeyID)
		}
		return o, "key IDs in upper case"
	}
	o := append([]SigEnt(nil), good...)
	for i := range o {
		if i >= thr-1 {
			h := []byte(o[i].Hex)
			j := s.N(len(h))
			if h[j] == 'a' {
				h[j] = 'b'
			} else {
				h[j] = 'a'
			}
			o[i].Hex, o[i].Key = string(h), nil
		}
	}
	return o, "signature with a flipped digit"
}

// victim picks a role to forge.
func (rp *Repo) victim(withRoot bool) string {
	s := rp.w.s
	switch s.W(2, 2, 2, 4, 2) {
	case 0:
		return "timestamp"
	case 1:
		return "snapshot"
	case 2:
		return "targets"
	case 4:
		if withRoot {
			return "root"
		}
	}
	all := rp.published()
	return all[s.N(len(all))]
}

// freshTargets is new content for a targets role, one version up.
func (rp *Repo) freshTargets(n string) *Content {
	w, s := rp.w, rp.w.s
	t := rp.roles[n]
	c := t.doc.C.copy()
	t.Version++
	c.Version = t.Version
	t.dirty = true
	c.Expires = w.now() + t.Life
	for i := 0; i <= s.N(2); i++ {
		p := rp.universe[s.N(len(rp.universe))]
		w.uniq++
		body := []byte(fmt.Sprintf("evil content %d of %s", w.uniq, p))
		c.Targets[p] = TargetC{int64(len(body)), w.hashes(body, s.N(3))}
	}
	return c
}

// finish puts a document for role in place and, unless told otherwise, makes new
// snapshot and timestamp documents that vouch for it.
func (rp *Repo) finish(st *State, role string, d *Doc, remake bool) *State {
	switch role {
	case "root":
		return st
	case "timestamp":
		st.Ts = d
		st.Files[rp.metaURL(0, "timestamp")] = d.Bytes
		return st
	case "snapshot":
		st.Snap = d
		st.Files[rp.urlOf("snapshot", d.C.Version, st.Consistent)] = d.Bytes
		if remake {
			rp.bump(&rp.tsV)
			st.Ts = rp.tsDoc(d, rp.tsV)
			st.Files[rp.metaURL(0, "timestamp")] = st.Ts.Bytes
		}
		return st
	}
	st.Tg[role] = d
	st.Files[rp.urlOf(role, d.C.Version, st.Consistent)] = d.Bytes
	if remake {
		rp.bump(&rp.snapV)
		return rp.finish(st, "snapshot", rp.snapDoc(st.Tg, rp.snapV), true)
	}
	return st
}

// upstream makes snapshot and timestamp content for st with edits.
func (rp *Repo) upstream(st *State, snapEdit, tsEdit func(*Content)) *State {
	w := rp.w
	rp.bump(&rp.snapV)
	sc := &Content{Type: "snapshot", Version: rp.snapV, Expires: w.now() + rp.life["snapshot"], Meta: map[string]MetaC{}}
	for n, d := range st.Tg {
		sc.Meta[n+".json"] = w.metaOf(d, rp.metaMode["snapshot"])
	}
	if snapEdit != nil {
		snapEdit(sc)
	}
	sd := w.seal(st.Label+" snapshot", sc, rp.keys["snapshot"])
	st.Snap = sd
	st.Files[rp.urlOf("snapshot", sd.C.Version, st.Consistent)] = sd.Bytes
	rp.bump(&rp.tsV)
	tc := &Content{Type: "timestamp", Version: rp.tsV, Expires: w.now() + rp.life["timestamp"], Meta: map[string]MetaC{"snapshot.json": w.metaOf(sd, rp.metaMode["timestamp"])}}
	if tsEdit != nil {
		tsEdit(tc)
	}
	td := w.seal(st.Label+" timestamp", tc, rp.keys["timestamp"])
	st.Ts = td
	st.Files[rp.metaURL(0, "timestamp")] = td.Bytes
	if !st.Consistent {
		return st
	}
	// reachable under the version the timestamp names as well
	if m := tc.Meta["snapshot.json"]; m.Version != sd.C.Version {
		st.Files[rp.urlOf("snapshot", m.Version, true)] = sd.Bytes
	}
	for n, d := range st.Tg {
		if m, ok := sc.Meta[n+".json"]; ok && m.Version != d.C.Version {
			st.Files[rp.urlOf(n, m.Version, true)] = d.Bytes
		}
	}
	return st
}

func (w *World) badHash(m map[string]string) map[string]string {
	h := copyHashes(m)
	if len(h) == 0 {
		h = map[string]string{"sha256": hashOf("sha256", []byte("x"))}
		return h
	}
	ks := sortedKeys(h)
	k := ks[w.s.N(len(ks))] // just one of several may be wrong
	h[k] = hashOf(k, []byte("something else"))
	return h
}

func (w *World) badMeta(m MetaC) MetaC {
	s := w.s
	switch s.N(4) {
	case 0:
		m.Version += int64(pick(s, 1, -1, 2, 100))
	case 1:
		if m.Length == 0 {
			m.Length = 100000
		}
		m.Length += int64(pick(s, 1, -1, 5, -40))
		if m.Length <= 0 {
			m.Length = 1
		}
	case 2:
		m.Hashes = w.badHash(m.Hashes)
	case 3:
		m.Hashes = w.badHash(w.hashes([]byte("y"), 2))
		m.Hashes["sha512"] = strings.Repeat("0", 128)
	}
	return m
}

// ForgeSig: a role's document with signatures that do not suffice (mostly).
func (rp *Repo) ForgeSig() *State {
	w, s := rp.w, rp.w.s
	role := rp.victim(false)
	st := rp.newState("forged " + role)
	var c *Content
	switch role {
	case "timestamp":
		rp.bump(&rp.snapV)
		st.Snap = rp.snapDoc(st.Tg, rp.snapV)
		st.Files[rp.urlOf("snapshot", rp.snapV, st.Consistent)] = st.Snap.Bytes
		rp.bump(&rp.tsV)
		c = &Content{Type: "timestamp", Version: rp.tsV, Expires: w.now() + rp.life["timestamp"], Meta: map[string]MetaC{"snapshot.json": w.metaOf(st.Snap, rp.metaMode["timestamp"])}}
	case "snapshot":
		rp.bump(&rp.snapV)
		c = &Content{Type: "snapshot", Version: rp.snapV, Expires: w.now() + rp.life["snapshot"], Meta: map[string]MetaC{}}
		for n, d := range st.Tg {
			c.Meta[n+".json"] = w.metaOf(d, rp.metaMode["snapshot"])
		}
	default:
		c = rp.freshTargets(role)
	}
	sigs, how := rp.badSigs(role, c)
	d := w.sealSigs(st.Label+" "+how, c, sigs)
	w.r.count("attack:sig:" + how)
	return rp.finish(st, role, d, role == "snapshot" || !s.P(150))
}

// ForgeTwin: one key listed under two IDs by a delegator who wants two keys.
func (rp *Repo) ForgeTwin() *State {
	w, s := rp.w, rp.w.s
	st := rp.newState("twin key")
	w.r.count("attack:sig:twin key")
	rp.stuck = true
	k := rp.w.newKey()
	id2 := hashOf("sha256", []byte("another name for "+k.ID))
	// a delegation from targets to a role with both
	name := "twin"
	tc := rp.freshTargets("targets")
	if tc.Deleg == nil || tc.Deleg.Succ != nil {
		tc.Deleg = &DelegC{Keys: map[string]*Key{}}
	}
	tc.Deleg.Keys[k.ID], tc.Deleg.Keys[id2] = k, k
	tc.Deleg.Roles = append([]DRole{{Name: name, RoleC: RoleC{[]string{k.ID, id2}, 1 + s.W(1, 3)}, Paths: []string{"*", "*/*"}}}, tc.Deleg.Roles...)
	tc.Targets = map[string]TargetC{}
	ks, _ := rp.keysFor("targets")
	td := w.seal(st.Label+" targets", tc, ks)
	c := &Content{Type: "targets", Version: 1, Expires: w.now() + 2000*hour, Targets: map[string]TargetC{}}
	for _, p := range rp.universe {
		c.Targets[p] = TargetC{3, w.hashes([]byte("abc"), 0)}
	}
	payload := canon(c.obj())
	h := hex.EncodeToString(k.Sign(payload))
	d := w.sealSigs(st.Label+" "+name, c, []SigEnt{{k.ID, k, h}, {id2, k, h}})
	st.Tg[name] = d
	st.Files[rp.urlOf(name, 1, st.Consistent)] = d.Bytes
	if rp.roles[name] == nil { // or else no later snapshot could follow this one
		rp.roles[name] = &TRole{Name: name, Targets: map[string][]byte{}, TMeta: map[string]TargetC{}, Keys: map[string][]*Key{}, Life: 2000 * hour, dirty: true, Version: 1}
	}
	return rp.finish(st, "targets", td, true)
}

// ForgeRoot: candidate roots of every wrong kind.
func (rp *Repo) ForgeRoot() *State {
	w, s := rp.w, rp.w.s
	st := rp.newState("forged root")
	cur := rp.roots[len(rp.roots)-1]
	c := rp.rootContent()
	c.Version = rp.rootV + 1
	own, othr := rp.keys["root"], rp.thr["root"]
	newKeys := []*Key{w.newKey(), w.newKey()}
	nthr := 1 + s.N(2)
	setRoot := func(ks []*Key, thr int) {
		for _, k := range ks {
			c.Keys[k.ID] = k
		}
		c.Roles["root"] = RoleC{keyIDs(ks), thr}
	}
	how := ""
	url := rp.metaURL(rp.rootV+1, "root")
	var signers []*Key
	evil := false
	kind := s.N(15)
	switch kind {
	case 0:
		how = "signed by its own new keys only"
		setRoot(newKeys, nthr)
		signers = newKeys
		evil = true
	case 1:
		how = "signed by the old keys only"
		setRoot(newKeys, nthr)
		signers = own
	case 2:
		how = "under-signed by the old keys"
		setRoot(newKeys, nthr)
		signers = union(newKeys, own[:othr-1])
		evil = true
	case 3:
		how = "under-signed by its own keys"
		setRoot(newKeys, 2)
		signers = union(own, newKeys[:1])
	case 4:
		how = "version skipped"
		c.Version = rp.rootV + 2
		signers = own
	case 5:
		how = "same version again"
		c.Version = rp.rootV
		c.Roles["timestamp"] = RoleC{keyIDs(newKeys), nthr}
		c.Keys[newKeys[0].ID], c.Keys[newKeys[1].ID] = newKeys[0], newKeys[1]
		signers = own
	case 6:
		how = "older version"
		c.Version = rp.rootV - 1 - int64(s.N(3))
		signers = own
	case 7:
		how = "signed by revoked keys"
		signers = union(rp.oldKeys["root"], own[:othr-1])
		setRoot(newKeys, nthr)
		signers = union(signers, newKeys)
		evil = true
	case 8:
		how = "signed by the other roles"
		signers = union(union(rp.keys["timestamp"], rp.keys["snapshot"]), rp.keys["targets"])
		var x []*Key
		for _, k := range signers {
			mine := false
			for _, o := range own {
				mine = mine || o.ID == k.ID
			}
			if !mine {
				x = append(x, k)
			}
		}
		signers = union(x, own[:othr-1])
	case 9: // a link of an older chain again
		how = "an older root in its place"
		d := rp.roots[s.N(len(rp.roots))]
		st.Files[url] = d.Bytes
		w.r.count("attack:root:" + how)
		return st
	case 10: // the current root itself under the next name
		how = "the current root again"
		st.Files[url] = cur.Bytes
		w.r.count("attack:root:" + how)
		return st
	case 11: // another role's document
		how = "another role's document"
		st.Files[url] = pick(s, st.Ts, st.Snap, st.Tg["targets"]).Bytes
		w.r.count("attack:root:" + how)
		return st
	case 13:
		how = "other keys under the old key IDs"
		kept := 0 // not enough of them
		for i, k := range own {
			if i == 0 || s.P(700) || kept == othr-1 {
				c.Keys[k.ID] = newKeys[i%2]
			} else {
				kept++
			}
		}
		signers = own
	case 14:
		how = "a higher threshold than it meets"
		c.Roles["root"] = RoleC{keyIDs(own), othr + 1}
		if s.P(500) && len(own) > othr {
			c.Roles["root"] = RoleC{keyIDs(own), len(own)}
		}
		signers = own[:othr]
	case 12: // the first link is forged, the next ones fit
		how = "old link replaced"
		if len(rp.roots) > 1 {
			i := 1 + s.N(len(rp.roots)-1)
			prev := rp.roots[i].C
			c = prev.copy()
			c.Roles["timestamp"] = RoleC{keyIDs(newKeys), nthr}
			c.Keys[newKeys[0].ID], c.Keys[newKeys[1].ID] = newKeys[0], newKeys[1]
			url = rp.metaURL(prev.Version, "root")
		}
		signers = newKeys
	}
	if c.Version < 1 {
		c.Version = 1
	}
	if evil { // everything else is the attacker's as well
		for _, r := range topRoles[1:] {
			c.Roles[r] = RoleC{keyIDs(newKeys[:1]), 1}
		}
	}
	d := w.seal(st.Label+" "+how, c, signers)
	st.Files[url] = d.Bytes
	w.r.count("attack:root:" + how)
	if cr := cur.C; c.Version == cr.Version+1 && signed(d, cr.Roles["root"], cr.Keys) && signed(d, c.Roles["root"], c.Keys) {
		rp.splitRoot, rp.frozen = true, true // enough of the holders signed it after all
	}
	if evil {
		sk, tk, gk := rp.keys["snapshot"], rp.keys["timestamp"], rp.roles["targets"].Keys["root"]
		st1, st2, st3 := rp.thr["snapshot"], rp.thr["timestamp"], rp.thr["targets"]
		ek := newKeys[:1]
		rp.keys["snapshot"], rp.keys["timestamp"], rp.roles["targets"].Keys["root"] = ek, ek, ek
		rp.thr["snapshot"], rp.thr["timestamp"], rp.thr["targets"] = 1, 1, 1
		tc := rp.freshTargets("targets")
		td := w.seal(st.Label+" targets", tc, ek)
		rp.finish(st, "targets", td, true)
		rp.keys["snapshot"], rp.keys["timestamp"], rp.roles["targets"].Keys["root"] = sk, tk, gk
		rp.thr["snapshot"], rp.thr["timestamp"], rp.thr["targets"] = st1, st2, st3
	}
	return st
}

// ForgeHolder: what somebody with the online keys may try: everything is
// well signed, but goes back in time or contradicts itself.
func (rp *Repo) ForgeHolder() *State {
	w, s := rp.w, rp.w.s
	st := rp.newState("holder")
	how := ""
	olderSnap := func() *Doc { return rp.States[s.N(len(rp.States))].Snap }
	switch s.N(9) {
	case 0:
		how = "new timestamp for an older snapshot"
		o := olderSnap()
		st.Snap = o
		st.Files[rp.urlOf("snapshot", o.C.Version, st.Consistent)] = o.Bytes
		rp.bump(&rp.tsV)
		st.Ts = rp.tsDoc(o, rp.tsV)
		st.Files[rp.metaURL(0, "timestamp")] = st.Ts.Bytes
	case 1:
		how = "lower timestamp version"
		v := rp.Cur.Ts.C.Version - int64(s.N(3))
		if v < 1 {
			v = 1
		}
		st.Ts = rp.tsDoc(st.Snap, v)
		st.Files[rp.metaURL(0, "timestamp")] = st.Ts.Bytes
	case 2:
		how = "new snapshot with an older targets role"
		o := rp.States[s.N(len(rp.States))]
		all := rp.published()
		n := all[s.N(len(all))]
		if d := o.Tg[n]; d != nil {
			st.Tg[n] = d
			st.Files[rp.urlOf(n, d.C.Version, st.Consistent)] = d.Bytes
		}
		rp.upstream(st, nil, nil)
	case 3:
		how = "snapshot without a role"
		all := rp.published()
		n := all[s.N(len(all))]
		rp.upstream(st, func(c *Content) { delete(c.Meta, n+".json") }, nil)
	case 4:
		how = "snapshot states something wrong about a role"
		all := rp.published()
		n := all[s.N(len(all))]
		rp.upstream(st, func(c *Content) { c.Meta[n+".json"] = w.badMeta(c.Meta[n+".json"]) }, nil)
	case 5:
		how = "timestamp states something wrong about the snapshot"
		rp.upstream(st, nil, func(c *Content) { c.Meta["snapshot.json"] = w.badMeta(c.Meta["snapshot.json"]) })
	case 6:
		how = "snapshot and timestamp with extra entries"
		rp.upstream(st, func(c *Content) {
			if !s.P(300) {
				return
			}
			c.Meta["ghost.json"] = MetaC{Version: 3}
			c.Meta["root.json"] = MetaC{Version: 1}
		}, func(c *Content) { c.Meta["targets.json"] = MetaC{Version: 99, Length: 1} })
	case 7: // same version, other content
		how = "another document of the same version"
		n := pick(s, "snapshot", "timestamp", "targets")
		var c *Content
		switch n {
		case "snapshot":
			c = st.Snap.C.copy()
		case "timestamp":
			c = st.Ts.C.copy()
		default:
			c = st.Tg["targets"].C.copy()
			c.Targets["f1"] = TargetC{3, w.hashes([]byte("abc"), 0)}
		}
		w.uniq++
		c.Extra = obj{"x-note": fmt.Sprint("again ", w.uniq)}
		ks, _ := rp.keysFor(n)
		d := w.seal(st.Label+" "+n, c, ks)
		switch n {
		case "snapshot":
			st.Snap = d
			st.Files[rp.urlOf(n, d.C.Version, st.Consistent)] = d.Bytes
			if s.P(700) {
				rp.bump(&rp.tsV)
				st.Ts = rp.tsDoc(d, rp.tsV)
				st.Files[rp.metaURL(0, "timestamp")] = st.Ts.Bytes
			}
		case "timestamp":
			st.Ts = d
			st.Files[rp.metaURL(0, n)] = d.Bytes
		default:
			rp.finish(st, n, d, s.P(700))
		}
	case 8: // a role that now lies about everything it may and may not
		how = "delegated role lists everything"
		all := rp.published()
		n := all[s.N(len(all))]
		c := rp.freshTargets(n)
		for _, p := range rp.universe {
			w.uniq++
			body := []byte(fmt.Sprintf("grab %d %s", w.uniq, p))
			c.Targets[p] = TargetC{int64(len(body)), w.hashes(body, 0)}
		}
		ks, _ := rp.keysFor(n)
		rp.finish(st, n, w.seal(st.Label+" "+n, c, ks), true)
	}
	rp.stuck = true
	w.r.count("attack:holder:" + how)
	st.Label += ": " + how
	return st
}

// ForgeExpired: one well-signed document is expired.
func (rp *Repo) ForgeExpired() *State {
	w, s := rp.w, rp.w.s
	role := rp.victim(false)
	st := rp.newState("expired " + role)
	w.r.count("attack:expired:" + map[bool]string{true: "delegated", false: role}[rp.roles[role] != nil && role != "targets"])
	past := -int64(1+s.N(100)) * hour
	if s.P(300) {
		past = -int64(1 + s.N(5))
	}
	old := rp.life[role]
	if t := rp.roles[role]; t != nil {
		c := rp.freshTargets(role)
		c.Expires = w.now() + past
		ks, _ := rp.keysFor(role)
		return rp.finish(st, role, w.seal(st.Label, c, ks), true)
	}
	rp.life[role] = past
	rp.upstream(st, nil, nil)
	rp.life[role] = old
	return st
}

// ForgeSwap: documents under each other's names.
func (rp *Repo) ForgeSwap() *State {
	w, s := rp.w, rp.w.s
	st := rp.newState("swapped documents")
	w.r.count("attack:swap")
	var urls []string
	for _, n := range sortedKeys(st.Tg) {
		urls = append(urls, rp.urlOf(n, st.Tg[n].C.Version, st.Consistent))
	}
	urls = append(urls, rp.urlOf("snapshot", st.Snap.C.Version, st.Consistent), rp.metaURL(0, "timestamp"), rp.metaURL(rp.rootV+1, "root"))
	for i := 0; i <= s.N(3); i++ {
		a, b := urls[s.N(len(urls))], urls[s.N(len(urls))]
		x, y := st.Files[a], st.Files[b]
		if y != nil {
			st.Files[a] = y
		}
		if x != nil && s.P(500) {
			st.Files[b] = x
		}
	}
	return st
}

// ForgeMalformed: a document signed by its keys, but not of the required form.
func (rp *Repo) ForgeMalformed() *State {
	w := rp.w
	role := rp.victim(true)
	st := rp.newState("malformed " + role)
	d := rp.Malformed(role)
	w.r.count("attack:malformed:" + map[Verdict]string{Good: "odd", Bad: "bad", Either: "unsure"}[d.V])
	st.Label += ": " + d.Label
	if role == "root" {
		st.Files[rp.metaURL(rp.rootV+1, "root")] = d.Bytes
		if d.V != Bad {
			rp.splitRoot, rp.frozen = true, true
		}
		return st
	}
	if d.C == nil {
		panic("sim: malformed without content")
	}
	if t := rp.roles[role]; t != nil || role == "snapshot" {
		return rp.finish(st, role, d, true)
	}
	return rp.finish(st, role, d, true)
}

// Malformed makes one such document; its Content says what it would say if it
// were taken for valid.
func (rp *Repo) Malformed(role string) *Doc {
	w, s := rp.w, rp.w.s
	var c *Content
	typ := role
	switch role {
	case "root":
		c = rp.rootContent()
		c.Version = rp.rootV + 1
	case "timestamp":
		rp.bump(&rp.tsV)
		c = rp.Cur.Ts.C.copy()
		c.Version = rp.tsV
		c.Expires = w.now() + 2000*hour
	case "snapshot":
		rp.bump(&rp.snapV)
		c = rp.Cur.Snap.C.copy()
		c.Version = rp.snapV
		c.Expires = w.now() + 2000*hour
	default:
		typ = "targets"
		c = rp.freshTargets(role)
	}
	c.Extra = nil
	ks, _ := rp.keysFor(role)
	if role == "root" {
		ks = rp.keys["root"]
	}
	if len(ks) == 0 { // nobody may sign for it any more
		ks = []*Key{w.newKey()}
	}
	o := c.obj()
	env := func(signed any, sigs any) []byte { return plainJSON(obj{"signed": signed, "signatures": sigs}, -1) }
	reg := func(label string, b []byte, v Verdict, sigs []SigEnt) *Doc {
		return w.add(&Doc{Label: "malformed " + role + ": " + label, C: c, Sigs: sigs, Bytes: b, V: v})
	}
	signed := func(label string, v Verdict, m any) *Doc {
		sigs := sigsOf(canon(m), ks)
		return reg(label, env(m, sigArr(sigs)), v, sigs)
	}
	raw := func(label string, v Verdict, text string) *Doc { return reg(label, []byte(text), v, nil) }
	set := func(label string, key string, v any) *Doc {
		m := clone(o).(obj)
		m[key] = v
		return signed(label, Bad, m)
	}
	del := func(label string, key string) *Doc {
		m := clone(o).(obj)
		delete(m, key)
		return signed(label, Bad, m)
	}
	common := []func() *Doc{
		func() *Doc { return raw("signed null", Bad, `{"signed":null,"signatures":[]}`) },
		func() *Doc { return raw("signed array", Bad, `{"signed":[],"signatures":[]}`) },
		func() *Doc { return raw("signed string", Bad, `{"signed":"x","signatures":[]}`) },
		func() *Doc { return raw("no signed", Bad, `{"signatures":[]}`) },
		func() *Doc { return raw("empty object", Bad, `{}`) },
		func() *Doc { return raw("null", Bad, `null`) },
		func() *Doc { return raw("number", Bad, `12`) },
		func() *Doc { return raw("string", Bad, `"`+typ+`"`) },
		func() *Doc { return raw("array", Bad, `[{}]`) },
		func() *Doc { return raw("empty", Bad, ``) },
		func() *Doc { return raw("white space", Bad, "  \n") },
		func() *Doc { return raw("zeros", Bad, string(make([]byte, 1+s.N(600)))) },
		func() *Doc { return raw("html", Bad, "<html><body>captive portal</body></html>") },
		func() *Doc { return raw("deep nesting", Bad, strings.Repeat("[", 20000)) },
		func() *Doc {
			return raw("deep objects", Bad, `{"signed":`+strings.Repeat(`{"signed":`, 12000)+`1`+strings.Repeat(`}`, 12000)+`}`)
		},
		func() *Doc { return set("type null", "_type", nil) },
		func() *Doc { return set("type number", "_type", 7) },
		func() *Doc { return set("type empty", "_type", "") },
		func() *Doc {
			return set("type of another role", "_type", pick(s, "root0", "mirrors", "Targets", "delegated"))
		},
		func() *Doc { return del("no type", "_type") },
		func() *Doc { return set("version string", "version", "1") },
		func() *Doc { return set("version object", "version", obj{}) },
		func() *Doc { return set("expires number", "expires", 1) },
		func() *Doc {
			return set("expires garbage", "expires", pick(s, "tomorrow", "", "2999-13-45T99:99:99Z", "2999"))
		},
		func() *Doc { return set("expires null in array", "expires", arr{nil}) },
		func() *Doc {
			m := clone(o).(obj)
			m["version"] = rawJSON(pick(s, "1.5", "99999999999999999999999", "1e400", "-"))
			return reg("version odd number", env(m, sigArr(sigsOf([]byte("x"), ks))), Bad, nil)
		},
		func() *Doc {
			sigs := sigsOf(canon(o), ks)
			return reg("trailing garbage", append(env(o, sigArr(sigs)), []byte(pick(s, "x", "{}", "]", "\x00"))...), Bad, sigs)
		},
		func() *Doc {
			sigs := sigsOf(canon(o), ks)
			return reg("byte order mark", append([]byte("\xef\xbb\xbf"), env(o, sigArr(sigs))...), Bad, sigs)
		},
		func() *Doc {
			sigs := sigsOf(canon(o), ks)
			b := env(o, sigArr(sigs))
			return reg("cut short", b[:s.N(len(b)-1)], Bad, sigs)
		},
		func() *Doc { return reg("signatures null", env(o, nil), Bad, nil) },
		func() *Doc { return reg("signatures object", env(o, obj{}), Bad, nil) },
		func() *Doc { return reg("signatures string", env(o, "abc"), Bad, nil) },
		func() *Doc { return reg("no signatures", plainJSON(obj{"signed": o}, -1), Bad, nil) },
		func() *Doc {
			a := sigArr(sigsOf(canon(o), ks))
			a[0].(obj)["sig"] = pick[any](s, "zz", "abc", 7, nil, obj{})
			if v := a[0].(obj)["sig"]; v == nil {
				sigs := sigsOf(canon(o), ks)
				sigs[0].Key, sigs[0].Hex = nil, ""
				return reg("signature null", env(o, a), Either, sigs)
			}
			return reg("signature not hexadecimal", env(o, a), Bad, nil)
		},
		func() *Doc {
			a := sigArr(sigsOf(canon(o), ks))
			a[0].(obj)["keyid"] = pick[any](s, 7, obj{}, arr{})
			return reg("key ID not a string", env(o, a), Bad, nil)
		},
		func() *Doc {
			sigs := sigsOf(canon(o), ks)
			a := append(sigArr(sigs), nil)
			sigs = append(sigs, SigEnt{})
			return reg("null signature entry", env(o, a), Either, sigs)
		},
		func() *Doc { // odd but fine
			sigs := sigsOf(canon(o), ks)
			return reg("unusual formatting", []byte("\t"+string(plainJSON(obj{"signed": o, "signatures": sigArr(sigs), "zz": arr{nil, true}}, 7))+"\n\n"), Good, sigs)
		},
		func() *Doc { // unknown members everywhere
			m := clone(o).(obj)
			c.Extra = obj{"x-a": obj{"b": arr{1, "2", nil, false}}, "x-b": "z"}
			for k, v := range c.Extra {
				m[k] = v
			}
			sigs := sigsOf(canon(m), ks)
			a := sigArr(sigs)
			for _, e := range a {
				e.(obj)["x-sig"] = arr{1}
			}
			return reg("unknown members", plainJSON(obj{"signed": m, "signatures": a, "x": nil}, -1), Good, sigs)
		},
		func() *Doc {
			m := clone(o).(obj)
			c.Extra = obj{"x-deep": rawJSON(strings.Repeat("[", 5000) + strings.Repeat("]", 5000))}
			m["x-deep"] = c.Extra["x-deep"]
			sigs := sigsOf(canon(m), ks)
			return reg("nested extra member", env(m, sigArr(sigs)), Either, sigs)
		},
	}
	switch typ {
	case "root":
		common = append(common,
			func() *Doc { return set("keys array", "keys", arr{}) },
			func() *Doc { return set("roles array", "roles", arr{}) },
			func() *Doc { return set("roles empty", "roles", obj{}) },
			func() *Doc { return set("roles null", "roles", nil) },
			func() *Doc { return set("keys null", "keys", nil) },
			func() *Doc { return del("no keys", "keys") },
			func() *Doc { return del("no roles", "roles") },
			func() *Doc {
				m := clone(o).(obj)
				m["roles"].(obj)[topRoles[s.N(4)]] = nil
				return signed("null role", Bad, m)
			},
			func() *Doc {
				m := clone(o).(obj)
				m["keys"].(obj)[rp.keys["root"][0].ID] = nil
				return signed("null key", Bad, m)
			},
			func() *Doc {
				m := clone(o).(obj)
				m["keys"].(obj)[rp.keys["root"][0].ID] = pick[any](s, obj{}, "x", arr{}, obj{"keytype": "ed25519", "scheme": "ed25519", "keyval": nil},
					obj{"keytype": "ed25519", "scheme": "ed25519", "keyval": obj{"public": "00"}}, obj{"keytype": "rsa", "scheme": "rsassa-pss-sha256", "keyval": obj{"public": "nonsense"}},
					obj{"keytype": "ecdsa", "scheme": "x", "keyval": obj{"public": rp.keys["root"][0].ID}}, obj{"keytype": "rsa", "scheme": "x", "keyval": obj{"public": "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n"}})
				c.Roles["root"] = RoleC{nil, 1 << 20} // it can not be verified with that key
				if rp.thr["root"] < len(rp.keys["root"]) {
					c.Roles["root"] = RoleC{keyIDs(rp.keys["root"]), rp.thr["root"]}
					return signed("unusable key", Either, m)
				}
				return signed("unusable key", Bad, m)
			},
			func() *Doc {
				m := clone(o).(obj)
				m["roles"].(obj)[topRoles[s.N(4)]].(obj)["threshold"] = pick[any](s, 0, -1, "1", nil, obj{})
				return signed("bad threshold", Bad, m)
			},
			func() *Doc {
				m := clone(o).(obj)
				m["roles"].(obj)["root"].(obj)["keyids"] = pick[any](s, nil, "x", obj{}, arr{}, arr{1})
				return signed("bad key ID list", Bad, m)
			},
			func() *Doc { return set("consistent_snapshot string", "consistent_snapshot", "true") },
			func() *Doc {
				m := clone(o).(obj)
				delete(m["roles"].(obj), "root")
				return signed("no root role", Bad, m)
			},
		)
	case "timestamp":
		common = append(common,
			func() *Doc { return set("meta null", "meta", nil) },
			func() *Doc { return set("meta empty", "meta", obj{}) },
			func() *Doc { return set("meta array", "meta", arr{}) },
			func() *Doc { return del("no meta", "meta") },
			func() *Doc { return set("meta entry null", "meta", obj{"snapshot.json": nil}) },
			func() *Doc { return set("other meta entry only", "meta", obj{"targets.json": obj{"version": 1}}) },
			func() *Doc { return set("meta entry string", "meta", obj{"snapshot.json": "1"}) },
			func() *Doc { return set("meta version string", "meta", obj{"snapshot.json": obj{"version": "1"}}) },
			func() *Doc {
				return set("meta length string", "meta", obj{"snapshot.json": obj{"version": 1, "length": "9"}})
			},
			func() *Doc {
				return set("meta hashes array", "meta", obj{"snapshot.json": obj{"version": 1, "hashes": arr{"a"}}})
			},
			func() *Doc {
				return set("meta hash not hexadecimal", "meta", obj{"snapshot.json": obj{"version": 1, "hashes": obj{"sha256": pick[any](s, "xyz", "abc", 7, nil)}}})
			},
		)
	case "snapshot":
		common = append(common,
			func() *Doc { return set("meta array", "meta", arr{}) },
			func() *Doc { return set("meta string", "meta", "x") },
			func() *Doc {
				m := clone(o).(obj)
				m["meta"].(obj)[pick(s, "targets.json", "other.json")] = nil
				return signed("meta entry null", Bad, m)
			},
			func() *Doc {
				m := clone(o).(obj)
				m["meta"].(obj)["targets.json"] = pick[any](s, "1", arr{}, obj{"version": "1"}, obj{"version": 1, "length": "2"}, obj{"version": 1, "hashes": "x"}, obj{"version": 1, "hashes": obj{"sha256": "q"}})
				return signed("meta entry mistyped", Bad, m)
			},
		)
	default:
		common = append(common,
			func() *Doc { return set("targets array", "targets", arr{}) },
			func() *Doc { return set("targets string", "targets", "f1") },
			func() *Doc {
				m := clone(o).(obj)
				m["targets"].(obj)["f1"] = pick[any](s, nil, "x", arr{}, obj{}, obj{"length": 3}, obj{"length": 3, "hashes": obj{}}, obj{"length": 3, "hashes": nil},
					obj{"length": "3", "hashes": obj{"sha256": hashOf("sha256", []byte("abc"))}}, obj{"length": 3, "hashes": obj{"sha256": "not hex"}}, obj{"length": 3, "hashes": arr{}})
				return signed("target entry malformed", Bad, m)
			},
			func() *Doc { return set("delegations array", "delegations", arr{}) },
			func() *Doc { // nothing says which of the two forms it has
				k := rp.keys["targets"][0]
				m := clone(o).(obj)
				m["delegations"] = pick[any](s, obj{"keys": obj{k.ID: clone(k.Pub)}}, obj{}, nil, obj{"keys": obj{}, "x": 1})
				c.Deleg = nil
				return signed("delegations of no roles", Either, m)
			},
			func() *Doc { return set("delegations string", "delegations", "x") },
			func() *Doc {
				k := rp.keys["targets"][0]
				role := obj{"name": "extra", "keyids": arr{k.ID}, "threshold": 1, "terminating": true, "paths": arr{"*"}}
				dl := obj{"keys": obj{k.ID: clone(k.Pub)}, "roles": arr{role}}
				switch s.N(9) {
				case 0:
					role["name"] = pick[any](s, "", "root", "timestamp", "snapshot", "targets", 7, nil, arr{})
				case 1:
					role["threshold"] = pick[any](s, 0, -5, "1", nil)
				case 2:
					role["keyids"] = pick[any](s, "x", obj{}, arr{7})
				case 3:
					role["paths"] = pick[any](s, "x", obj{}, arr{7})
				case 4:
					role["terminating"] = pick[any](s, "yes", 1, arr{})
				case 5:
					dl["keys"] = pick[any](s, obj{k.ID: nil}, arr{}, "x", obj{k.ID: "y"})
				case 6:
					dl["roles"] = pick[any](s, "x", obj{}, arr{"r"}, arr{arr{}}, arr{nil})
				case 7:
					delete(dl, "roles")
					dl["succinct_roles"] = obj{"keyids": arr{k.ID}, "threshold": pick[any](s, 0, -1, "1"), "bit_length": 4, "name_prefix": "b"}
				case 8:
					delete(dl, "roles")
					dl["succinct_roles"] = obj{"keyids": arr{k.ID}, "threshold": 1, "bit_length": pick[any](s, 0, 40, -1, 33, "4"), "name_prefix": "b"}
				}
				return set("delegation malformed", "delegations", dl)
			},
		)
	}
	return common[s.N(len(common))]()
}

// published are the roles there is a document of.
func (rp *Repo) published() []string {
	var o []string
	for _, n := range rp.sortedRoles() {
		if rp.roles[n].doc != nil {
			o = append(o, n)
		}
	}
	return o
}
