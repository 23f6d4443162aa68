package sim

import (
	"bytes"
	"crypto"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"maps"
	"path"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/repository"
	"github.com/sigstore/sigstore/pkg/signature"
)

// The publisher's side: the library's own metadata API keeps a repository, over
// restarts and disk faults. What every document has to contain is kept next to it
// as plain trees, which the library never sees.

type psig struct {
	id, hex string
	key     *Key
	over    string // what it was made over
	extra   obj
}

// pdoc is one document as it has to be.
type pdoc struct {
	name, typ string
	tree      obj
	exp       int64
	env       obj
	sigs      []psig
}

func (d *pdoc) clone() *pdoc {
	n := *d
	n.tree = clone(d.tree).(obj)
	n.env = clone(d.env).(obj)
	n.sigs = append([]psig(nil), d.sigs...)
	return &n
}

func (d *pdoc) full() obj {
	a := arr{}
	for _, s := range d.sigs {
		o := obj{"keyid": s.id, "sig": s.hex}
		for k, v := range s.extra {
			o[k] = v
		}
		a = append(a, o)
	}
	o := obj{"signed": d.tree, "signatures": a}
	for k, v := range d.env {
		o[k] = v
	}
	return o
}

func (d *pdoc) repeated() bool {
	seen := map[string]bool{}
	for _, s := range d.sigs {
		if seen[s.id] {
			return true
		}
		seen[s.id] = true
	}
	return false
}

func (d *pdoc) version() int64 { return d.tree["version"].(int64) }

// rmeta is what the documents of all roles have in common.
type rmeta interface {
	ToFile(string, bool) error
	ToBytes(bool) ([]byte, error)
	Sign(signature.Signer) (*metadata.Signature, error)
	VerifyDelegate(string, any) error
	ClearSignatures()
}

type (
	mRoot = metadata.Metadata[metadata.RootType]
	mTs   = metadata.Metadata[metadata.TimestampType]
	mSnap = metadata.Metadata[metadata.SnapshotType]
	mTg   = metadata.Metadata[metadata.TargetsType]
)

// simSigner signs with a key of the world, or fails like hardware does.
type simSigner struct {
	k    *Key
	fail int
	got  []byte
}

var errHSM = errors.New("simulated signer failure")

func (g *simSigner) PublicKey(opts ...signature.PublicKeyOption) (crypto.PublicKey, error) {
	switch g.fail {
	case 2:
		return nil, errHSM
	case 3:
		return "no key", nil
	}
	return g.k.Priv.Public(), nil
}

func (g *simSigner) SignMessage(m io.Reader, opts ...signature.SignOption) ([]byte, error) {
	b, err := io.ReadAll(m)
	if err != nil {
		return nil, err
	}
	g.got = b
	if g.fail == 1 {
		return nil, errHSM
	}
	return g.k.Sign(b), nil
}

type pub struct {
	r    *Run
	w    *World
	s    *Src
	p    *Proc
	dir  string
	repo interface {
		Root() *mRoot
		SetRoot(*mRoot)
		Timestamp() *mTs
		SetTimestamp(*mTs)
		Snapshot() *mSnap
		SetSnapshot(*mSnap)
		Targets(string) *mTg
		SetTargets(string, *mTg)
	}
	mem    map[string]*pdoc // in the process
	disk   map[string]*pdoc // saved with success, or being saved
	trial  map[string]*pdoc
	backup map[string]*pdoc // last saved that can be loaded
	bakB   map[string][]byte
	dirty  map[string]bool
	keyOf  map[string]*Key
	old    map[string][]*Key // withdrawn keys
	bodies map[string][]byte
	files  map[string]string // path of the target on the publisher's disk
	dels   []string          // delegated role names
	parent map[string]string
	bins   *SuccC
	binsOf string
	roots  []*Doc
	rp     *Repo
	uniq   int
	proper bool
	torn   []string
}

func (b *pub) bad(tag, f string, a ...any) { b.r.violate(tag, b.p.Name+": "+f, a...) }

func (b *pub) real(n string) rmeta {
	switch n {
	case "root":
		return b.repo.Root()
	case "timestamp":
		return b.repo.Timestamp()
	case "snapshot":
		return b.repo.Snapshot()
	}
	return b.repo.Targets(n)
}

func (b *pub) file(n string) string { return b.dir + "/" + escapeRole(n) + ".json" }

// names lists the documents the process holds.
func (b *pub) names() []string { return sortedKeys(b.mem) }

// generic reads JSON with the standard library into plain trees.
func generic(data []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, errors.New("trailing data")
	}
	return plain(v)
}

func plain(v any) (any, error) {
	switch x := v.(type) {
	case json.Number:
		n, err := x.Int64()
		return n, err
	case map[string]any:
		for k, e := range x {
			p, err := plain(e)
			if err != nil {
				return nil, err
			}
			x[k] = p
		}
	case []any:
		for i, e := range x {
			p, err := plain(e)
			if err != nil {
				return nil, err
			}
			x[i] = p
		}
	}
	return v, nil
}

// differs describes the first difference between JSON text and what it has to be.
func differs(data []byte, want obj) string {
	v, err := generic(data)
	if err != nil {
		return "it is not JSON: " + err.Error()
	}
	a, b := string(canon(v)), string(canon(want))
	if a == b {
		return ""
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-40)
	return fmt.Sprintf("...%s, not ...%s", a[lo:min(len(a), i+40)], b[lo:min(len(b), i+40)])
}

// same checks the document in memory against what it has to be.
func (b *pub) same(n, when string) bool {
	if b.p.dead { // in another goroutine
		runtime.Goexit()
	}
	d, m := b.mem[n], b.real(n)
	data, err := m.ToBytes(b.s.P(300))
	if err != nil {
		b.bad("lost", "%s cannot be written out after %s: %v", n, when, err)
		return false
	}
	if x := differs(data, d.full()); x != "" {
		b.bad("lost", "%s after %s: %s", n, when, x)
		return false
	}
	var got *rdoc
	switch m := m.(type) {
	case *mRoot:
		got = realRoot(m)
	case *mTs:
		got = realTs(m)
	case *mSnap:
		got = realSnap(m)
	case *mTg:
		got = realTg(m)
	}
	want := docFP(b.docOf(d, nil))
	if fpOf(got) != fpOf(want) {
		b.bad("lost", "%s after %s: the fields say %s, not %s", n, when, fpOf(got), fpOf(want))
		return false
	}
	b.r.count("check:document")
	return true
}

// docOf is the document as clients have to judge it.
func (b *pub) docOf(d *pdoc, data []byte) *Doc {
	c := &Content{Type: d.typ, Version: d.version(), Expires: d.exp}
	keys := func(o obj) map[string]*Key {
		m := map[string]*Key{}
		for id := range o {
			m[id] = b.keyOf[id]
		}
		return m
	}
	role := func(o obj) RoleC {
		return RoleC{append([]string(nil), o["keyids"].([]string)...), o["threshold"].(int)}
	}
	hashes := func(v any) map[string]string {
		m := map[string]string{}
		if v != nil {
			for k, h := range v.(obj) {
				m[k] = h.(string)
			}
		}
		return m
	}
	t := d.tree
	switch d.typ {
	case "root":
		c.Consistent = t["consistent_snapshot"].(bool)
		c.Keys = keys(t["keys"].(obj))
		c.Roles = map[string]RoleC{}
		for n, v := range t["roles"].(obj) {
			c.Roles[n] = role(v.(obj))
		}
	case "timestamp", "snapshot":
		c.Meta = map[string]MetaC{}
		for n, v := range t["meta"].(obj) {
			o := v.(obj)
			m := MetaC{Version: o["version"].(int64), Hashes: hashes(o["hashes"])}
			if l, ok := o["length"]; ok {
				m.Length = l.(int64)
			}
			c.Meta[n] = m
		}
	case "targets":
		c.Targets = map[string]TargetC{}
		for n, v := range t["targets"].(obj) {
			o := v.(obj)
			c.Targets[n] = TargetC{o["length"].(int64), hashes(o["hashes"])}
		}
		if v, ok := t["delegations"]; ok {
			o := v.(obj)
			c.Deleg = &DelegC{Keys: keys(o["keys"].(obj))}
			if x, ok := o["succinct_roles"]; ok {
				y := x.(obj)
				c.Deleg.Succ = &SuccC{role(y), y["bit_length"].(int), y["name_prefix"].(string)}
			} else {
				for _, x := range o["roles"].(arr) {
					y := x.(obj)
					dr := DRole{Name: y["name"].(string), RoleC: role(y), Terminating: y["terminating"].(bool), Paths: append([]string{}, y["paths"].([]string)...)}
					c.Deleg.Roles = append(c.Deleg.Roles, dr)
				}
			}
		}
	}
	payload := canon(t)
	x := &Doc{Label: fmt.Sprintf("pub %s v%d", d.name, c.Version), C: c, V: Good, Bytes: data, Payload: payload}
	if d.repeated() {
		x.V = Bad
	}
	for _, s := range d.sigs {
		e := SigEnt{KeyID: s.id, Hex: s.hex}
		if s.over == string(payload) {
			e.Key = s.key
		}
		x.Sigs = append(x.Sigs, e)
	}
	return x
}

func (b *pub) expiry() (time.Time, string, int64) {
	s := b.s
	t := time.Unix(b.w.now()+int64(1+s.N(30000))*hour, 0).UTC()
	if s.P(100) {
		t = t.In(time.FixedZone("", pick(s, 3600, -7200, 19800)))
	}
	if s.P(150) {
		t = t.Add(time.Duration(pick(s, 50, 1, 7)) * time.Millisecond)
	}
	return t, t.Format(time.RFC3339Nano), t.Unix()
}

// create makes a new document with the library's constructor.
func (b *pub) create(n string) {
	t, str, exp := b.expiry()
	d := &pdoc{name: n, exp: exp, env: obj{}}
	d.tree = obj{"spec_version": metadata.SPECIFICATION_VERSION, "version": int64(1), "expires": str}
	switch n {
	case "root":
		b.repo.SetRoot(metadata.Root(t))
		d.typ = "root"
		rs := obj{}
		for _, x := range topRoles {
			rs[x] = obj{"keyids": []string{}, "threshold": 1}
		}
		d.tree["keys"], d.tree["roles"], d.tree["consistent_snapshot"] = obj{}, rs, true
	case "timestamp":
		b.repo.SetTimestamp(metadata.Timestamp(t))
		d.typ = n
		d.tree["meta"] = obj{"snapshot.json": obj{"version": int64(1)}}
	case "snapshot":
		b.repo.SetSnapshot(metadata.Snapshot(t))
		d.typ = n
		d.tree["meta"] = obj{"targets.json": obj{"version": int64(1)}}
	default:
		b.repo.SetTargets(n, metadata.Targets(t))
		d.typ = "targets"
		d.tree["targets"] = obj{}
	}
	d.tree["_type"] = d.typ
	b.mem[n] = d
	b.dirty[n] = true
	b.same(n, "creation")
}

// usable keys are those whose identifier the library derives from the public key.
func (b *pub) newKey() *Key {
	for {
		k := b.w.newKey()
		if k.Type != "ecdsa-sha2-nistp256" {
			return k
		}
	}
}

// libKey is the library's form of a key, and its tree.
func (b *pub) libKey(k *Key) (*metadata.Key, string, obj) {
	m, err := metadata.KeyFromPublicKey(k.Priv.Public())
	if err != nil {
		b.bad("key", "no key from a %s public key: %v", k.Type, err)
		return nil, "", nil
	}
	tree := clone(k.Pub).(obj)
	x := k
	if b.s.P(120) { // somebody else's tool adds members
		e := b.w.someExtras()
		if b.s.P(500) {
			m.UnrecognizedFields = e
			for n, v := range e {
				tree[n] = v
			}
		} else {
			m.Value.UnrecognizedFields = e
			for n, v := range e {
				tree["keyval"].(obj)[n] = v
			}
		}
		y := *k
		y.ID, y.Pub = keyID(tree), tree
		x = &y
	}
	if m.ID() != x.ID {
		b.bad("key", "the identifier of a %s key is %s, not %s", k.Type, m.ID(), x.ID)
		return nil, "", nil
	}
	if b.keyOf[x.ID] == nil {
		b.keyOf[x.ID] = x
	}
	return m, x.ID, tree
}

func (w *World) someExtras() obj {
	for i := 0; i < 50; i++ {
		if e := w.extras(); e != nil {
			return e
		}
	}
	return obj{"x-note": "extra"}
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func without(l []string, x string) []string {
	o := []string{}
	for _, y := range l {
		if x != y {
			o = append(o, y)
		}
	}
	return o
}

// place finds the keys and the role's entry: by whom is the role delegated?
func (b *pub) place(delegator, role string) (keys, entry obj) {
	t := b.mem[delegator].tree
	if delegator == "root" {
		if e, ok := t["roles"].(obj)[role]; ok {
			return t["keys"].(obj), e.(obj)
		}
		return t["keys"].(obj), nil
	}
	dl, ok := t["delegations"].(obj)
	if !ok {
		return nil, nil
	}
	keys = dl["keys"].(obj)
	if x, ok := dl["succinct_roles"]; ok {
		return keys, x.(obj)
	}
	for _, x := range dl["roles"].(arr) {
		if x.(obj)["name"] == role {
			return keys, x.(obj)
		}
	}
	return keys, nil
}

func (b *pub) users(delegator, id string) int {
	n := 0
	t := b.mem[delegator].tree
	if delegator == "root" {
		for _, x := range t["roles"].(obj) {
			if has(x.(obj)["keyids"].([]string), id) {
				n++
			}
		}
		return n
	}
	dl := t["delegations"].(obj)
	if x, ok := dl["succinct_roles"]; ok {
		if has(x.(obj)["keyids"].([]string), id) {
			n++
		}
		return n
	}
	for _, x := range dl["roles"].(arr) {
		if has(x.(obj)["keyids"].([]string), id) {
			n++
		}
	}
	return n
}

func (b *pub) addKey(delegator, role string, k *Key) {
	m, id, tree := b.libKey(k)
	if m == nil {
		return
	}
	var err error
	if delegator == "root" {
		err = b.repo.Root().Signed.AddKey(m, role)
	} else {
		err = b.repo.Targets(delegator).Signed.AddKey(m, role)
	}
	keys, e := b.place(delegator, role)
	b.r.ev("%s AddKey %s %s %.8s -> %v", b.p.Name, delegator, role, id, err == nil)
	if e == nil {
		if err == nil {
			b.bad("keys", "AddKey for the role %s, which %s does not have, succeeds", role, delegator)
		}
		b.same(delegator, "a refused AddKey")
		return
	}
	if err != nil {
		b.bad("keys", "AddKey to %s of %s fails: %v", role, delegator, err)
		return
	}
	if !has(e["keyids"].([]string), id) {
		e["keyids"] = append(e["keyids"].([]string), id)
	}
	keys[id] = tree
	b.dirty[delegator] = true
	b.same(delegator, "AddKey")
}

func (b *pub) revoke(delegator, role, id string) {
	var err error
	if delegator == "root" {
		err = b.repo.Root().Signed.RevokeKey(id, role)
	} else {
		err = b.repo.Targets(delegator).Signed.RevokeKey(id, role)
	}
	keys, e := b.place(delegator, role)
	b.r.ev("%s RevokeKey %s %s %.8s -> %v", b.p.Name, delegator, role, id, err == nil)
	if e == nil || !has(e["keyids"].([]string), id) {
		if err == nil {
			b.bad("keys", "RevokeKey of a key %s of %s does not have succeeds", role, delegator)
		}
		b.same(delegator, "a refused RevokeKey")
		return
	}
	if err != nil {
		b.bad("keys", "RevokeKey from %s of %s fails: %v", role, delegator, err)
		return
	}
	e["keyids"] = without(e["keyids"].([]string), id)
	if b.users(delegator, id) == 0 {
		delete(keys, id)
	}
	if k := b.keyOf[id]; k != nil {
		b.old[role] = append(b.old[role], k)
	}
	b.dirty[delegator] = true
	b.same(delegator, "RevokeKey")
}

// roles lists what has keys: delegator and role.
func (b *pub) delegations() [][2]string {
	var o [][2]string
	for _, n := range topRoles {
		o = append(o, [2]string{"root", n})
	}
	for _, n := range b.dels {
		o = append(o, [2]string{b.parent[n], n})
	}
	return o
}

func (b *pub) delegator(n string) string {
	if p, ok := b.parent[n]; ok {
		return p
	}
	return "root"
}

// keysOf are the keys that may sign for a role now.
func (b *pub) keysOf(n string) ([]*Key, int) {
	_, e := b.place(b.delegator(n), n)
	if e == nil {
		return nil, 1
	}
	var ks []*Key
	for _, id := range e["keyids"].([]string) {
		if k := b.keyOf[id]; k != nil && k.ID == id {
			ks = append(ks, k)
		}
	}
	return ks, e["threshold"].(int)
}

func (b *pub) keyStep() {
	s := b.s
	all := b.delegations()
	x := all[s.N(len(all))]
	dg, role := x[0], x[1]
	_, e := b.place(dg, role)
	switch s.W(4, 4, 3, 1, 1, 1) {
	case 0: // a key more
		k := b.newKey()
		if s.P(350) { // of somebody else
			y := all[s.N(len(all))]
			var same [][2]string
			for _, z := range all {
				if z[0] == dg && z[1] != role {
					same = append(same, z)
				}
			}
			if len(same) > 0 && s.P(700) {
				y = same[s.N(len(same))]
			}
			if ks, _ := b.keysOf(y[1]); len(ks) > 0 {
				k = ks[s.N(len(ks))]
			}
		}
		b.addKey(dg, role, b.pool(k))
	case 1: // a key less, replaced now and then
		ids := e["keyids"].([]string)
		if len(ids) == 0 {
			return
		}
		id := ids[s.N(len(ids))]
		if s.P(400) { // one that others use as well
			for _, x := range ids {
				if b.users(dg, x) > 1 {
					id = x
				}
			}
		}
		if len(ids) <= e["threshold"].(int) && !s.P(50) {
			b.addKey(dg, role, b.newKey())
		}
		b.revoke(dg, role, id)
	case 2:
		thr := 1 + s.N(len(e["keyids"].([]string))+1)
		if thr > len(e["keyids"].([]string)) && !s.P(50) {
			thr = max(1, len(e["keyids"].([]string)))
		}
		e["threshold"] = thr
		if dg == "root" {
			b.repo.Root().Signed.Roles[role].Threshold = thr
		} else if dl := b.repo.Targets(dg).Signed.Delegations; dl.SuccinctRoles != nil {
			dl.SuccinctRoles.Threshold = thr
		} else {
			for i := range dl.Roles {
				if dl.Roles[i].Name == role {
					dl.Roles[i].Threshold = thr
				}
			}
		}
		b.dirty[dg] = true
		b.r.ev("%s threshold of %s: %d", b.p.Name, role, thr)
	case 3: // what cannot be done
		if dg != "root" && b.bins != nil && dg == b.binsOf {
			return // with hash bins the role is ignored
		}
		b.addKey(dg, "nobody", b.newKey())
	case 4:
		b.revoke(dg, role, strings.Repeat("0", 64))
	case 5:
		if ks := b.old[role]; len(ks) > 0 {
			b.revoke(dg, role, ks[s.N(len(ks))].ID)
		}
	}
}

// pool is the key as such, without the members somebody added to its description.
func (b *pub) pool(k *Key) *Key { return keyPool[k.N] }

// unknown sets or removes an unknown member somewhere.
func (b *pub) unknown() {
	s := b.s
	ns := b.names()
	n := ns[s.N(len(ns))]
	d := b.mem[n]
	var to obj
	var set func(map[string]any)
	type spot struct {
		o   obj
		set func(map[string]any)
	}
	// the place of the members, and the library's one
	pickSpot := func(l []spot) { x := l[s.N(len(l))]; to, set = x.o, x.set }
	t := d.tree
	var l []spot
	one := func(o any, f *map[string]any) { l = append(l, spot{o.(obj), func(m map[string]any) { *f = m }}) }
	switch m := b.real(n).(type) {
	case *mRoot:
		one(t, &m.Signed.UnrecognizedFields)
		one(d.env, &m.UnrecognizedFields)
		for _, r := range topRoles {
			one(t["roles"].(obj)[r], &m.Signed.Roles[r].UnrecognizedFields)
		}
	case *mTs:
		one(t, &m.Signed.UnrecognizedFields)
		one(d.env, &m.UnrecognizedFields)
		for _, r := range sortedKeys(t["meta"].(obj)) {
			one(t["meta"].(obj)[r], &m.Signed.Meta[r].UnrecognizedFields)
		}
	case *mSnap:
		one(t, &m.Signed.UnrecognizedFields)
		one(d.env, &m.UnrecognizedFields)
		for _, r := range sortedKeys(t["meta"].(obj)) {
			one(t["meta"].(obj)[r], &m.Signed.Meta[r].UnrecognizedFields)
		}
	case *mTg:
		one(t, &m.Signed.UnrecognizedFields)
		one(d.env, &m.UnrecognizedFields)
		for _, r := range sortedKeys(t["targets"].(obj)) {
			one(t["targets"].(obj)[r], &m.Signed.Targets[r].UnrecognizedFields)
		}
		if x, ok := t["delegations"]; ok {
			o := x.(obj)
			one(o, &m.Signed.Delegations.UnrecognizedFields)
			if y, ok := o["succinct_roles"]; ok {
				one(y, &m.Signed.Delegations.SuccinctRoles.UnrecognizedFields)
			} else {
				for i := range o["roles"].(arr) {
					one(o["roles"].(arr)[i], &m.Signed.Delegations.Roles[i].UnrecognizedFields)
				}
			}
		}
	}
	pickSpot(l)
	for k := range to {
		if has(extraNames, k) && !(k == "custom" && to["hashes"] != nil && d.typ == "targets") {
			delete(to, k)
		}
	}
	e := b.w.someExtras()
	if to["hashes"] != nil && d.typ == "targets" {
		delete(e, "custom") // has a meaning there
	}
	for k, v := range e {
		to[k] = v
	}
	set(clone(e).(obj))
	b.dirty[n] = true
	b.r.ev("%s unknown members in %s: %s", b.p.Name, n, canon(e))
	b.same(n, "an edit")
}

// strip takes optional members away where they are.
func (b *pub) strip() {
	s := b.s
	n := pick(s, b.names()...)
	t := b.mem[n].tree
	var name, what string
	some := func(o obj) string { return pick(s, sortedKeys(o)...) }
	switch m := b.real(n).(type) {
	case *mTs, *mSnap:
		e := t["meta"].(obj)
		if len(e) == 0 {
			return
		}
		name = some(e)
		var x *metadata.MetaFiles
		switch m := m.(type) {
		case *mTs:
			x = m.Signed.Meta[name]
		case *mSnap:
			x = m.Signed.Meta[name]
		}
		what = pick(s, "length", "hashes")
		if what == "length" {
			x.Length = 0
		} else {
			x.Hashes = nil
		}
		delete(e[name].(obj), what)
	case *mTg:
		e := t["targets"].(obj)
		if len(e) == 0 {
			return
		}
		name, what = some(e), "custom"
		m.Signed.Targets[name].Custom = nil
		delete(e[name].(obj), what)
	default:
		return
	}
	b.dirty[n] = true
	b.r.ev("%s takes %s of %s away from %s", b.p.Name, what, name, n)
	b.same(n, "an edit")
}

// extraNames mean nothing anywhere (custom does in a target).
var extraNames = []string{"x-note", "custom", "zzz", "a b", "_meta", "Ünïcode", "private", "keyid_hash_algorithms"}

// libHashes is the library's form of hashes.
func libHashes(o obj) metadata.Hashes {
	h := metadata.Hashes{}
	for k, v := range o {
		x, err := hex.DecodeString(v.(string))
		if err != nil {
			panic(err)
		}
		h[k] = x
	}
	return h
}

// target adds, changes or removes a target.
func (b *pub) target() {
	s := b.s
	var tns []string
	for _, n := range b.names() {
		if b.mem[n].typ == "targets" {
			tns = append(tns, n)
		}
	}
	n := tns[s.N(len(tns))]
	d, m := b.mem[n], b.repo.Targets(n)
	tt := d.tree["targets"].(obj)
	if len(tt) > 0 && s.P(200) {
		ks := sortedKeys(tt)
		k := ks[s.N(len(ks))]
		delete(tt, k)
		delete(m.Signed.Targets, k)
		b.dirty[n] = true
		b.r.ev("%s removes %s from %s", b.p.Name, k, n)
		return
	}
	p := plainPaths[s.N(len(plainPaths))]
	if b.bins != nil && b.parent[n] == b.binsOf && s.P(800) {
		for i := 0; i < 40 && binName(b.bins.Prefix, b.bins.Bits, p) != n; i++ {
			p = fmt.Sprintf("h%d", s.N(100))
		}
	}
	b.uniq++
	body := []byte(fmt.Sprintf("target %d %s", b.uniq, p))
	if s.P(100) {
		body = append(body, bytes.Repeat([]byte{'.'}, 1+s.N(2000))...)
	}
	if s.P(30) {
		body = nil
	}
	algs := [][]string{nil, {"sha256"}, {"sha512"}, {"sha512", "sha256"}, {"md5"}}[s.W(4, 2, 2, 2, 1)]
	var tf *metadata.TargetFiles
	var err error
	before := b.p.rFaults
	if s.P(600) {
		f := fmt.Sprintf("%s/targets/%d", b.dir, b.uniq)
		if s.P(900) {
			b.r.FS.Put(f, body)
		} else {
			body = nil
			algs = []string{"none"}
		}
		tf, err = metadata.TargetFile().FromFile(f, algs...)
	} else {
		tf, err = metadata.TargetFile().FromBytes(p, body, algs...)
		if err == nil && tf.Path != p {
			b.bad("partial", "target information of %s is about %q", p, tf.Path)
			return
		}
	}
	b.r.ev("%s target %s of %s: %v", b.p.Name, p, n, err == nil)
	fault := b.p.rFaults > before
	if len(algs) > 0 && (algs[0] == "md5" || algs[0] == "none") || fault {
		if err == nil {
			b.bad("partial", "target information of %s is given out although it cannot be known", p)
		}
		return
	}
	if err != nil {
		b.bad("partial", "no target information of %s: %v", p, err)
		return
	}
	if len(algs) == 0 {
		algs = []string{"sha256"}
	}
	o := obj{"length": int64(len(body))}
	hs := obj{}
	for _, a := range algs {
		hs[a] = hashOf(a, body)
	}
	o["hashes"] = hs
	if s.P(150) {
		c := pick[any](s, "x", int64(7), obj{"a": arr{int64(1), "<&>", nil}}, arr{}, obj{})
		raw := json.RawMessage(plainJSON(c, pick(s, -1, 2)))
		tf.Custom = &raw
		o["custom"] = c
	}
	if old := m.Signed.Targets[p]; old != nil {
		same := string(canon(tt[p].(obj)["hashes"])) == string(canon(hs)) && tt[p].(obj)["length"] == o["length"]
		if same && !old.Equal(*tf) {
			b.bad("equal", "%s is not equal to itself", p)
		}
		common := false
		for a := range hs {
			if tt[p].(obj)["hashes"].(obj)[a] != nil {
				common = true
			}
		}
		if !same && common && string(b.bodies[p]) != string(body) && old.Equal(*tf) && string(b.body(n, p)) != string(body) {
			b.bad("equal", "%s is equal to another content", p)
		}
	}
	m.Signed.Targets[p] = tf
	tt[p] = o
	b.bodies[n+"\x00"+p] = body
	b.dirty[n] = true
	b.same(n, "adding a target")
}

func (b *pub) body(n, p string) []byte { return b.bodies[n+"\x00"+p] }

// delegate makes a new delegation.
func (b *pub) delegate() {
	s := b.s
	var ps []string
	for _, n := range b.names() {
		if b.mem[n].typ == "targets" && (b.bins == nil || b.parent[n] != b.binsOf) {
			ps = append(ps, n)
		}
	}
	dg := ps[s.N(len(ps))]
	d, m := b.mem[dg], b.repo.Targets(dg)
	dl, have := d.tree["delegations"].(obj)
	if have && dl["succinct_roles"] != nil {
		return
	}
	if !have && b.bins == nil && s.P(250) {
		bits := 1 + s.N(3)
		b.bins, b.binsOf = &SuccC{Bits: bits, Prefix: pick(s, "bin", "b-x", "h/b")}, dg
		d.tree["delegations"] = obj{"keys": obj{}, "succinct_roles": obj{"keyids": []string{}, "threshold": 1, "bit_length": bits, "name_prefix": b.bins.Prefix}}
		sr := &metadata.SuccinctRoles{KeyIDs: []string{}, Threshold: 1, BitLength: bits, NamePrefix: b.bins.Prefix}
		m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, SuccinctRoles: sr}
		got := sr.GetRoles()
		digits := len(fmt.Sprintf("%x", 1<<bits-1))
		var want []string
		for i := 0; i < 1<<bits; i++ {
			want = append(want, fmt.Sprintf("%s-%0*x", b.bins.Prefix, digits, i))
		}
		if strings.Join(got, ",") != strings.Join(want, ",") {
			b.bad("bins", "the bins are %v, not %v", got, want)
			return
		}
		b.r.ev("%s bins of %s: %s %d", b.p.Name, dg, b.bins.Prefix, bits)
		for _, n := range want {
			b.dels = append(b.dels, n)
			b.parent[n] = dg
			b.create(n)
		}
		b.addKey(dg, "", b.newKey())
		b.dirty[dg] = true
		return
	}
	var name string
	for _, x := range append(append([]string{}, plainNames...), "a/b", "role 1", "..", "Root") {
		if b.mem[x] == nil && (name == "" || s.P(400)) {
			name = x
		}
	}
	if name == "" {
		return
	}
	pt := []string{pick(s, "*", "dir/*", "f?", "dir/*/*", "g.txt", "nope")}
	if s.P(300) {
		pt = append(pt, pick(s, "f1", "dir/x+y", "a b"))
	}
	term := s.P(250)
	o := obj{"name": name, "keyids": []string{}, "threshold": 1, "terminating": term, "paths": pt}
	lr := metadata.DelegatedRole{Name: name, KeyIDs: []string{}, Threshold: 1, Terminating: term, Paths: append([]string{}, pt...)}
	if !have {
		d.tree["delegations"] = obj{"keys": obj{}, "roles": arr{o}}
		m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, Roles: []metadata.DelegatedRole{lr}}
	} else {
		dl["roles"] = append(dl["roles"].(arr), o)
		m.Signed.Delegations.Roles = append(m.Signed.Delegations.Roles, lr)
	}
	b.r.ev("%s delegates %v to %s", b.p.Name, pt, name)
	b.dels = append(b.dels, name)
	b.parent[name] = dg
	b.create(name)
	for i := 0; i <= s.N(2); i++ {
		b.addKey(dg, name, b.newKey())
	}
	b.dirty[dg] = true
}

// header changes what every document has.
func (b *pub) header() {
	s := b.s
	ns := b.names()
	n := ns[s.N(len(ns))]
	d := b.mem[n]
	if n == "root" && s.P(400) {
		d.tree["consistent_snapshot"] = !d.tree["consistent_snapshot"].(bool)
		b.repo.Root().Signed.ConsistentSnapshot = d.tree["consistent_snapshot"].(bool)
	} else {
		t, str, exp := b.expiry()
		d.tree["expires"], d.exp = str, exp
		switch m := b.real(n).(type) {
		case *mRoot:
			m.Signed.Expires = t
		case *mTs:
			m.Signed.Expires = t
		case *mSnap:
			m.Signed.Expires = t
		case *mTg:
			m.Signed.Expires = t
		}
	}
	b.dirty[n] = true
	b.r.ev("%s header of %s", b.p.Name, n)
	b.same(n, "an edit")
}

func (b *pub) setVersion(n string, v int64) {
	b.mem[n].tree["version"] = v
	switch m := b.real(n).(type) {
	case *mRoot:
		m.Signed.Version = v
	case *mTs:
		m.Signed.Version = v
	case *mSnap:
		m.Signed.Version = v
	case *mTg:
		m.Signed.Version = v
	}
}

// sign signs one document with one key.
func (b *pub) sign(n string, k *Key) bool {
	d, m := b.mem[n], b.real(n)
	g := &simSigner{k: k}
	if b.s.P(30) {
		g.fail = 1 + b.s.N(3)
		b.r.count("fault:signer")
	}
	sg, err := m.Sign(g)
	b.r.ev("%s signs %s with %.8s -> %v", b.p.Name, n, k.ID, err == nil)
	payload := canon(d.tree)
	if g.got != nil && string(g.got) != string(payload) {
		b.bad("payload", "%s: %s", n, "what is signed is not the canonical form of its content: "+differsText(g.got, payload))
		return false
	}
	if g.fail != 0 {
		if err == nil {
			b.bad("sign", "%s counts as signed although the signer failed", n)
		}
		b.same(n, "a failed signature")
		return b.sign(n, k)
	}
	if err != nil {
		b.bad("sign", "%s cannot be signed: %v", n, err)
		return false
	}
	e := psig{id: k.ID, key: k, hex: hex.EncodeToString(k.Sign(payload)), over: string(payload)}
	if sg.KeyID != e.id || sg.Signature.String() != e.hex {
		b.bad("sign", "the signature of %s is not the one that was made", n)
		return false
	}
	if b.s.P(40) {
		x := b.w.someExtras()
		l := *sigsIn(m)
		if len(l) == len(d.sigs)+1 {
			l[len(l)-1].UnrecognizedFields = clone(x).(obj)
			e.extra = x
		}
	}
	d.sigs = append(d.sigs, e)
	return b.same(n, "signing")
}

func differsText(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-40)
	return fmt.Sprintf("...%s, not ...%s", a[lo:min(len(a), i+40)], b[lo:min(len(b), i+40)])
}

func sigsIn(m rmeta) *[]metadata.Signature {
	switch m := m.(type) {
	case *mRoot:
		return &m.Signatures
	case *mTs:
		return &m.Signatures
	case *mSnap:
		return &m.Signatures
	}
	return &m.(*mTg).Signatures
}

func (b *pub) clear(n string) {
	b.real(n).ClearSignatures()
	b.mem[n].sigs = nil
	b.same(n, "ClearSignatures")
}

// renew makes one of the signatures anew and puts those of the others back, as
// publishers do who share a role.
func (b *pub) renew(n string, k *Key) {
	d, l := b.mem[n], sigsIn(b.real(n))
	held, heldm := *l, d.sigs
	b.clear(n)
	if b.r.stop() || !b.sign(n, k) || len(held) != len(heldm) {
		return
	}
	b.r.count("step:put signatures back")
	id := d.sigs[0].id
	for i, s := range held {
		// the held ones are as they were, whatever was made since
		if heldm[i].id != id {
			*l = append(*l, s)
			d.sigs = append(d.sigs, heldm[i])
		}
	}
	b.same(n, "putting signatures back")
}

// signAll signs a document as its publisher should, or not quite.
func (b *pub) signAll(n string) {
	s := b.s
	ks, thr := b.keysOf(n)
	if n == "root" && len(b.roots) > 0 {
		c := b.roots[len(b.roots)-1].C
		for _, id := range c.Roles["root"].KeyIDs {
			ks = union(ks, []*Key{c.Keys[id]})
		}
	}
	how := 0
	if !b.proper {
		how = s.W(60, 6, 4, 4, 3, 2)
		if n == "root" && !s.P(150) {
			how = 0
		}
	}
	if how != 4 {
		b.clear(n)
	}
	switch how {
	case 0:
		if n != "root" && s.P(300) && thr <= len(ks) { // just enough
			ks = append([]*Key(nil), ks...)
			Shuffle(s, ks)
			ks = ks[:thr]
		}
	case 1: // too few
		if len(ks) > 0 {
			ks = ks[:min(len(ks), max(0, thr-1))]
		}
	case 2: // withdrawn keys
		if o := b.old[n]; len(o) > 0 {
			ks = append(append([]*Key(nil), ks[:min(len(ks), thr-1)]...), o[s.N(len(o))])
		}
	case 3: // a stranger
		ks = append(append([]*Key(nil), ks[:min(len(ks), max(0, thr-1))]...), b.newKey())
	}
	for _, k := range ks {
		if b.r.stop() || !b.sign(n, b.pool(k)) {
			return
		}
	}
	if how == 5 && len(ks) > 0 && b.mem[n].typ != "timestamp" { // changed after it was signed
		x := b.w.someExtras()
		if old := b.mem[n].tree; true {
			for k := range old {
				if has(extraNames, k) {
					delete(old, k)
				}
			}
			for k, v := range x {
				old[k] = v
			}
		}
		switch m := b.real(n).(type) {
		case *mRoot:
			m.Signed.UnrecognizedFields = clone(x).(obj)
		case *mSnap:
			m.Signed.UnrecognizedFields = clone(x).(obj)
		case *mTg:
			m.Signed.UnrecognizedFields = clone(x).(obj)
		}
	}
	b.r.count(fmt.Sprintf("signing:%d", how))
}

// save writes a document to disk. It tells whether that is known to have worked.
func (b *pub) save(n string) bool {
	d := b.mem[n]
	f := b.file(n)
	if t := b.trial[n]; t != nil { // the failed save before may have been complete
		if data, ok := b.r.FS.Get(f); ok && differs(data, t.full()) == "" {
			b.saved(n, data)
		}
	}
	b.trial[n] = d.clone()
	before := b.p.wFaults
	err := b.real(n).ToFile(f, b.s.P(500))
	fault := b.p.wFaults > before
	b.r.ev("%s saves %s v%d -> %v", b.p.Name, n, d.version(), err == nil)
	if err != nil {
		if !fault {
			b.bad("save", "%s cannot be saved: %v", n, err)
		}
		b.dirty[n] = true
		return false
	}
	data, _ := b.r.FS.Get(f)
	if x := differs(data, d.full()); x != "" {
		tag := "save"
		if fault {
			tag = "partial"
		}
		b.bad(tag, "%s was saved with success, but the file differs: %s", n, x)
		return false
	}
	b.saved(n, data)
	return b.same(n, "saving")
}

func (b *pub) saved(n string, data []byte) {
	d := b.trial[n]
	if d == nil {
		d = b.mem[n].clone()
	}
	b.disk[n] = d
	delete(b.trial, n)
	if !d.repeated() {
		b.backup[n], b.bakB[n] = d.clone(), append([]byte(nil), data...)
	}
	b.w.add(b.docOf(d, append([]byte(nil), data...)))
	b.r.count("check:saved")
}

// loadOne reads a document. err tells that the library refused.
func (b *pub) loadOne(n, typ string) (rmeta, error) {
	f := b.file(n)
	var data []byte
	bytesForm := b.s.P(300)
	if bytesForm {
		data, _ = b.r.FS.Get(f)
	}
	old := time.Unix(b.w.now()+99, 0).UTC()
	switch typ {
	case "root":
		return load(b, f, data, bytesForm, metadata.Root(old))
	case "timestamp":
		return load(b, f, data, bytesForm, metadata.Timestamp(old))
	case "snapshot":
		return load(b, f, data, bytesForm, metadata.Snapshot(old))
	}
	return load(b, f, data, bytesForm, metadata.Targets(old))
}

func load[T metadata.Roles](b *pub, f string, data []byte, bytesForm bool, into *metadata.Metadata[T]) (rmeta, error) {
	was, _ := into.ToBytes(false)
	before := b.p.rFaults
	var m *metadata.Metadata[T]
	var err error
	if bytesForm {
		m, err = into.FromBytes(data)
	} else {
		m, err = into.FromFile(f)
	}
	if err == nil && b.p.rFaults > before {
		b.bad("partial", "%s was loaded with success in spite of a read error", f)
	}
	if err != nil {
		if m != nil {
			b.bad("partial", "a failed load of %s hands something out", f)
		}
		now, _ := into.ToBytes(false)
		if string(now) != string(was) {
			b.bad("partial", "a failed load of %s changes the document", f)
		}
		return nil, err
	}
	return any(m).(rmeta), nil
}

func (b *pub) put(n string, m rmeta) {
	switch m := m.(type) {
	case *mRoot:
		b.repo.SetRoot(m)
		if b.repo.Root() != m {
			b.bad("lost", "the repository has another root")
		}
	case *mTs:
		b.repo.SetTimestamp(m)
		if b.repo.Timestamp() != m {
			b.bad("lost", "the repository has another timestamp")
		}
	case *mSnap:
		b.repo.SetSnapshot(m)
		if b.repo.Snapshot() != m {
			b.bad("lost", "the repository has another snapshot")
		}
	case *mTg:
		b.repo.SetTargets(n, m)
		if b.repo.Targets(n) != m {
			b.bad("lost", "the repository has another %s", n)
		}
	}
}

// load reads a document that was saved. It tells whether the process has it now.
func (b *pub) load(n string) bool {
	d := b.disk[n]
	for try := 0; try < 6 && !b.r.stop(); try++ {
		before := b.p.rFaults
		m, err := b.loadOne(n, d.typ)
		fault := b.p.rFaults > before
		b.r.ev("%s loads %s -> %v", b.p.Name, n, err == nil)
		if fault && err != nil {
			continue
		}
		if d.repeated() {
			if err == nil {
				b.bad("repeated", "%s has repeated signatures and is loaded", n)
				return false
			}
			b.restore(n)
			d = b.disk[n]
			if d == nil {
				return false
			}
			continue
		}
		if err != nil {
			b.bad("load", "%s cannot be loaded: %v", n, err)
			return false
		}
		b.put(n, m)
		b.mem[n] = d.clone()
		return b.same(n, "loading")
	}
	return false
}

// wrong loads a document as what it is not.
func (b *pub) wrong(n string) {
	typ := topRoles[b.s.N(4)]
	if typ == b.disk[n].typ {
		return
	}
	_, err := b.loadOne(n, typ)
	b.r.count("check:wrong role")
	if err == nil {
		b.bad("wrong-role", "%s is loaded as %s", n, typ)
	}
}

// restore puts the last good copy back.
func (b *pub) restore(n string) {
	d := b.backup[n]
	delete(b.trial, n)
	if d == nil {
		delete(b.disk, n)
		b.r.FS.Del(b.file(n))
		return
	}
	b.disk[n] = d.clone()
	b.r.FS.Put(b.file(n), b.bakB[n])
	b.r.ev("backup of %s v%d is put back", n, d.version())
}

// verify compares the library's verification with what was signed.
func (b *pub) verify() {
	all := b.delegations()
	x := all[b.s.N(len(all))]
	dg, role := x[0], x[1]
	what := role
	if b.s.P(150) {
		ns := b.names()
		what = ns[b.s.N(len(ns))]
	}
	if b.mem[dg] == nil || b.mem[what] == nil || b.mem[what].repeated() {
		return
	}
	b.checkVerify(dg, role, what)
}

// responsible asks the library who is responsible for a target, which has to
// be where clients look for it.
func (b *pub) responsible(n string) {
	m := b.repo.Targets(n)
	d := b.docOf(b.mem[n], nil)
	if m == nil || m.Signed.Delegations == nil || d.C.Deleg == nil {
		return
	}
	p := pick(b.s, plainPaths...)
	if b.s.P(300) {
		p = fmt.Sprintf("dir/h%d", b.s.N(1000))
	}
	want := map[string]bool{}
	sc := d.C.Deleg.Succ
	if sc != nil {
		want[binName(sc.Prefix, sc.Bits, p)] = true
	} else {
		for i := range d.C.Deleg.Roles {
			if l := &d.C.Deleg.Roles[i]; l.covers(p) {
				want[l.Name] = l.Terminating
			}
			ok, err := m.Signed.Delegations.Roles[i].IsDelegatedPath(p)
			if err != nil || ok != d.C.Deleg.Roles[i].covers(p) {
				b.bad("roles", "whether %s of %s may provide %s: %v (%v)", d.C.Deleg.Roles[i].Name, n, p, ok, err)
				return
			}
		}
	}
	got := m.Signed.Delegations.GetRolesForTarget(p)
	b.r.ev("%s asks who provides %s in %s: %v", b.p.Name, p, n, got)
	b.r.count("check:roles")
	if !maps.Equal(got, want) {
		b.bad("roles", "the roles of %s for %s are %v, not %v", n, p, got, want)
		return
	}
	sr := m.Signed.Delegations.SuccinctRoles
	if sc == nil { // then of some bins that are not delegated to
		sc = &SuccC{Bits: 1 + b.s.N(12), Prefix: pick(b.s, "bin", "b-x", "h/b", "x-0", "")}
		sr = &metadata.SuccinctRoles{KeyIDs: []string{}, Threshold: 1, BitLength: sc.Bits, NamePrefix: sc.Prefix}
		n = fmt.Sprintf("%q with %d bits", sc.Prefix, sc.Bits)
		if got := sr.GetRolesForTarget(p); !maps.Equal(got, map[string]bool{binName(sc.Prefix, sc.Bits, p): true}) {
			b.bad("roles", "the bin of %s for %s is %v, not %s", n, p, got, binName(sc.Prefix, sc.Bits, p))
			return
		}
	}
	all := sr.GetRoles()
	if len(all) != 1<<sc.Bits || !has(all, binName(sc.Prefix, sc.Bits, p)) {
		b.bad("roles", "the %d bins of %s are %v", 1<<sc.Bits, n, all)
		return
	}
	last := all[len(all)-1]
	x := pick(b.s, append(all[:1:1], last, all[b.s.N(len(all))], binName(sc.Prefix, sc.Bits, p), sc.Prefix, sc.Prefix+"-", sc.Prefix+"-g", sc.Prefix+"-0x0", sc.Prefix+"-+0", sc.Prefix+"--1",
		sc.Prefix+"-0+1", sc.Prefix+"-+01", sc.Prefix+"--01", sc.Prefix+"-0_0", sc.Prefix+"-\u0661", strings.ToUpper(last), last[:len(last)-1], strings.Replace(last, "-", "_", 1), "-"+last,
		fmt.Sprintf("%s-%x", sc.Prefix, 1<<sc.Bits), fmt.Sprintf("%s-%02x", sc.Prefix, 0), fmt.Sprintf("%s-%X", sc.Prefix, 10), "x"+all[0], all[0]+"0", "targets")...)
	if got := sr.IsDelegatedRole(x); got != has(all, x) {
		b.bad("roles", "whether %q is a bin of %s: %v", x, n, got)
	}
}

func (b *pub) checkVerify(dg, role, what string) {
	err := b.real(dg).VerifyDelegate(role, b.real(what))
	d := b.docOf(b.mem[dg], nil)
	var rc RoleC
	keys := d.C.Keys
	if dg == "root" {
		rc = d.C.Roles[role]
	} else if keys = d.C.Deleg.Keys; d.C.Deleg.Succ != nil {
		rc = d.C.Deleg.Succ.RoleC
	} else {
		for _, r := range d.C.Deleg.Roles {
			if r.Name == role {
				rc = r.RoleC
			}
		}
	}
	want := signed(b.docOf(b.mem[what], nil), rc, keys)
	b.r.ev("%s verifies %s for %s of %s -> %v", b.p.Name, what, role, dg, err == nil)
	b.r.count("check:verify")
	if want != (err == nil) {
		b.bad("verify", "%s as %s of %s: verification says %v, the truth is %v", what, role, dg, err, want)
	}
}

// boot starts a repository from nothing.
func (b *pub) boot() {
	s := b.s
	for _, n := range []string{"root", "targets", "snapshot", "timestamp"} {
		b.create(n)
	}
	for _, n := range topRoles {
		k := 1 + s.W(4, 2, 1)
		for i := 0; i < k; i++ {
			b.addKey("root", n, b.newKey())
			if b.r.stop() {
				return
			}
		}
	}
}

// entry sets what snapshot or timestamp say about a document.
func (b *pub) entry(in, n string) {
	s := b.s
	d := b.mem[n]
	o := obj{"version": d.version()}
	x := metadata.MetaFile(d.version())
	if data, ok := b.r.FS.Get(b.file(n)); ok && b.disk[n] != nil && s.P(600) {
		how := s.N(4)
		if how&1 != 0 {
			o["length"] = int64(len(data))
			x.Length = int64(len(data))
		}
		if how&2 != 0 {
			o["hashes"] = hashesObj(b.w.hashes(data, s.N(3)))
			x.Hashes = libHashes(o["hashes"].(obj))
		}
		if err := x.VerifyLengthHashes(data); err != nil {
			b.bad("entry", "the description of %s does not match it: %v", n, err)
		}
		if how != 0 {
			if err := x.VerifyLengthHashes(append([]byte(" "), data...)); err == nil {
				b.bad("entry", "the description of %s matches something else", n)
			}
		}
	}
	b.mem[in].tree["meta"].(obj)[n+".json"] = o
	switch m := b.real(in).(type) {
	case *mTs:
		m.Signed.Meta[n+".json"] = x
	case *mSnap:
		m.Signed.Meta[n+".json"] = x
	}
	b.dirty[in] = true
}

// release makes the repository's changes public.
func (b *pub) release() {
	step := func(n string) bool {
		v := b.mem[n].version()
		top := v
		if st := b.rp.Cur; st != nil {
			switch {
			case n == "root":
				top = st.Root.C.Version
			case n == "timestamp":
				top = st.Ts.C.Version
			case n == "snapshot":
				top = st.Snap.C.Version
			case st.Tg[n] != nil:
				top = st.Tg[n].C.Version
			default:
				top = 0
			}
		} else {
			top = 0
		}
		if n == "root" {
			v = int64(len(b.roots)) + 1
		} else if v <= top {
			v = top + 1
		}
		b.setVersion(n, v)
		b.signAll(n)
		if b.r.stop() {
			return false
		}
		ok := b.save(n)
		if ok {
			b.dirty[n] = false
		}
		return ok
	}
	ns := []string{}
	for _, n := range b.names() {
		if b.mem[n].typ == "targets" {
			ns = append(ns, n)
		}
	}
	if b.dirty["root"] && !step("root") {
		return
	}
	for _, n := range ns {
		// what is loaded was signed, unless the keys have changed
		if !b.dirty[n] && b.s.P(700) {
			continue
		}
		if !step(n) {
			return
		}
	}
	for _, n := range ns {
		b.entry("snapshot", n)
	}
	if !step("snapshot") {
		return
	}
	b.entry("timestamp", "snapshot")
	if !step("timestamp") || b.r.stop() {
		return
	}
	b.public(ns)
}

// public puts the saved files on the server.
func (b *pub) public(ns []string) {
	doc := func(n string) *Doc {
		data, _ := b.r.FS.Get(b.file(n))
		return b.w.find(data)
	}
	rd := doc("root")
	if rd == nil {
		return
	}
	if len(b.roots) == 0 || b.roots[len(b.roots)-1] != rd {
		if rd.C.Version != int64(len(b.roots))+1 {
			return
		}
		b.roots = append(b.roots, rd)
	}
	rp := b.rp
	st := &State{N: len(rp.States), Label: fmt.Sprintf("published %d", len(rp.States)), Root: rd, Roots: append([]*Doc(nil), b.roots...), Tg: map[string]*Doc{}, Consistent: rd.C.Consistent, Honest: true}
	f := map[string][]byte{}
	for k, v := range rp.files {
		f[k] = v
	}
	for _, d := range b.roots {
		f[rp.metaURL(d.C.Version, "root")] = d.Bytes
	}
	rp.roles = map[string]*TRole{}
	lay := func(n string) *Doc {
		d := doc(n)
		if d == nil {
			panic("sim: " + n + " was saved and is unknown")
		}
		v := d.C.Version
		if !st.Consistent || n == "timestamp" {
			v = 0
		}
		f[rp.metaURL(v, n)] = d.Bytes
		return d
	}
	for _, n := range ns {
		d := lay(n)
		st.Tg[n] = d
		rp.roles[n] = &TRole{Name: n, Targets: map[string][]byte{}}
		for _, p := range sortedKeys(d.C.Targets) {
			body := b.body(n, p)
			rp.roles[n].Targets[p] = body
			if st.Consistent {
				for _, h := range sortedKeys(d.C.Targets[p].Hashes) {
					f[rp.targetURL(d.C.Targets[p].Hashes[h], p)] = body
				}
			} else {
				f[rp.targetURL("", p)] = body
			}
		}
	}
	st.Snap, st.Ts = lay("snapshot"), lay("timestamp")
	st.Files, rp.files = f, f
	rp.States, rp.Cur, rp.roots = append(rp.States, st), st, b.roots
	b.r.count("published")
	b.r.ev("%s: root v%d timestamp v%d snapshot v%d %s cs=%v", st.Label, rd.C.Version, st.Ts.C.Version, st.Snap.C.Version, roleVers(st.Tg), st.Consistent)
}

// life is one process of the publisher.
func (b *pub) life(p *Proc, n int) {
	s := b.s
	b.p = p
	b.repo = repository.New()
	b.mem, b.trial = map[string]*pdoc{}, map[string]*pdoc{}
	if b.disk["timestamp"] == nil || b.disk["root"] == nil || b.disk["targets"] == nil || b.disk["snapshot"] == nil {
		b.reset()
		for _, f := range b.r.FS.Files(b.dir) {
			if strings.HasSuffix(f, ".json") {
				b.r.FS.Del(f) // it starts over in an empty folder
			}
		}
		b.boot()
	} else {
		for _, x := range sortedKeys(b.disk) {
			if s.P(150) {
				b.wrong(x)
			}
			if b.r.stop() || !b.load(x) {
				return
			}
			b.dirty[x] = true
		}
		// a delegation that was never saved on either side
		b.prune()
	}
	for i := 0; i < n && !b.r.stop(); i++ {
		switch s.W(8, 4, 6, 3, 2, 3, 3, 4, 2, 4, 2) {
		case 0:
			b.keyStep()
		case 1:
			b.unknown()
		case 2:
			b.target()
		case 3:
			b.delegate()
		case 4:
			b.header()
		case 10:
			b.strip()
		case 5:
			ns := b.names()
			x := ns[s.N(len(ns))]
			if ks, _ := b.keysOf(x); len(ks) > 0 {
				k := b.pool(ks[s.N(len(ks))])
				switch s.W(4, 3, 3) {
				case 0:
					b.sign(x, k)
				case 1:
					b.clear(x)
					b.sign(x, k)
				case 2:
					b.renew(x, k)
				}
				b.dirty[x] = true
			}
		case 6:
			ns := b.names()
			b.save(ns[s.N(len(ns))])
		case 7:
			b.verify()
			for _, n := range b.names() {
				if b.mem[n].typ == "targets" && s.P(400) && !b.r.stop() {
					b.responsible(n)
				}
			}
		case 8: // read back what was saved
			ns := b.names()
			x := ns[s.N(len(ns))]
			if b.disk[x] != nil && b.trial[x] == nil {
				b.load(x)
				b.dirty[x] = true
				b.prune()
			}
		case 9:
			b.release()
		}
	}
	if !b.r.stop() {
		b.release()
	}
}

func (b *pub) reset() {
	b.disk, b.backup, b.bakB = map[string]*pdoc{}, map[string]*pdoc{}, map[string][]byte{}
	b.dirty, b.old = map[string]bool{}, map[string][]*Key{}
	b.dels, b.parent, b.bins, b.binsOf = nil, map[string]string{}, nil, ""
	b.roots = nil
	b.mem = map[string]*pdoc{}
}

// prune forgets delegated roles that only one side knows about: the delegation or
// the role itself was lost before it was saved.
func (b *pub) prune() {
	for again := true; again; {
		again = false
		for _, n := range append([]string(nil), b.dels...) {
			dg := b.parent[n]
			var e obj
			if b.mem[dg] != nil {
				_, e = b.place(dg, n)
			}
			if e != nil && b.mem[n] != nil {
				continue
			}
			again = true
			if e != nil && b.mem[n] == nil { // delegated, but lost: start it again
				b.create(n)
				continue
			}
			b.dels = without(b.dels, n)
			delete(b.parent, n)
			delete(b.mem, n)
			delete(b.disk, n)
			b.r.FS.Del(b.file(n))
			delete(b.backup, n)
			b.repo.SetTargets(n, nil)
			if b.mem["snapshot"] != nil {
				delete(b.mem["snapshot"].tree["meta"].(obj), n+".json")
				delete(b.repo.Snapshot().Signed.Meta, n+".json")
			}
		}
	}
	if b.bins != nil {
		found := false
		for _, n := range b.dels {
			found = found || b.parent[n] == b.binsOf
		}
		if !found {
			b.bins, b.binsOf = nil, ""
		}
	}
}

// settle looks at the disk after a process has ended.
func (b *pub) settle() {
	for _, n := range sortedKeys(b.trial) {
		// its last save failed or was cut off
		data, ok := b.r.FS.Get(b.file(n))
		if ok && differs(data, b.trial[n].full()) == "" {
			b.saved(n, data)
			continue
		}
		if d := b.disk[n]; ok && d != nil && differs(data, d.full()) == "" {
			delete(b.trial, n)
			continue
		}
		b.r.count("torn file")
		b.torn = append(b.torn, n)
	}
}

func scenAPI(r *Run, pf *Profile) {
	time.Sleep(123456789)
	w := NewWorld(r, pf)
	s := r.Src
	b := &pub{r: r, w: w, s: s, dir: "/home/pub/repo", keyOf: map[string]*Key{}, bodies: map[string][]byte{}}
	r.FS.MkdirAll(b.dir + "/targets")
	b.rp = &Repo{w: w, Name: "p", Meta: "http://p.test/meta/", Tgt: "http://p.test/files/", files: map[string][]byte{}, keepOld: true, prefixed: true, universe: plainPaths, roles: map[string]*TRole{}, keys: map[string][]*Key{}, thr: map[string]int{}}
	b.reset()
	for _, k := range keyPool {
		b.keyOf[k.ID] = k
	}
	metadata.SetLogger(logSeam{r})
	var c *Client
	rounds := 2 + s.N(pf.Rounds)
	for i := 0; i < rounds && !r.stop(); i++ {
		b.proper = i == rounds-1 || s.P(500)
		plan := &Plan{ShortReads: s.P(200)}
		if i < rounds-1 && s.P(pf.Fault[2]) {
			for j := 0; j <= s.W(3, 1); j++ {
				f := &IOFault{Op: pick(s, "write", "create", "trunc", "close", "read", "open", "write", "read"), Err: ioErrs[s.N(len(ioErrs))], Skip: s.N(14), Count: 1 + s.W(4, 1), Part: s.N(4000), Short: s.P(500)}
				plan.IO = append(plan.IO, f)
			}
		}
		if s.P(60) {
			plan.IO = append(plan.IO, &IOFault{Op: pick(s, "read", "open", "write"), Err: syscall.EINTR, Skip: s.N(6), Count: 1 + s.N(3)})
		}
		if i < rounds-1 && s.P(pf.Crash) {
			plan.CrashAt, plan.CrashAfter = 1+s.N(40), s.P(600)
		}
		n := s.N(pf.Pubs)
		states := len(b.rp.States)
		p := r.Spawn(fmt.Sprintf("publisher%d", i+1), "/home/pub", 0, plan, func(p *Proc) { b.life(p, n) })
		r.Wait()
		if r.stop() || p.panicked != "" {
			return
		}
		b.settle()
		b.checkTorn()
		if r.stop() {
			return
		}
		if len(b.roots) > 0 && s.P(300) {
			time.Sleep(time.Duration(s.N(200)) * time.Hour)
		}
		r.state(fmt.Sprintf("%d docs, dead %v, states %d", len(b.disk), p.dead, len(b.rp.States)))
		if b.rp.Cur == nil || len(b.roots) == 0 || (len(b.rp.States) == states && !s.P(200)) {
			continue
		}
		if c == nil {
			c = w.NewClient(b.rp, "u")
		}
		c.rp.roots = b.roots
		ss := c.newSession(true)
		ss.run()
	}
}

// checkTorn loads what an interrupted save has left, then puts the backup there.
func (b *pub) checkTorn() {
	if len(b.torn) == 0 {
		return
	}
	l := b.torn
	b.torn = nil
	p := b.r.Spawn("reader", "/home/pub", 0, &Plan{}, func(p *Proc) {
		b.p = p
		for _, n := range l {
			typ := "targets"
			if d := b.trial[n]; d != nil {
				typ = d.typ
			}
			if _, err := b.loadOne(n, typ); err == nil {
				b.bad("partial", "a part of %s is loaded with success", n)
			}
			b.r.count("check:torn file")
		}
	})
	b.r.Wait()
	_ = p
	for _, n := range l {
		b.restore(n)
	}
}

var _ = path.Base
