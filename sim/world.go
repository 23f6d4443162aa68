package sim

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"net/url"
	"path"
	"sort"
	"strings"
	"time"
)

// Verdict says how a document is formed; it is known from how it was made, the
// simulator never parses documents.
type Verdict int8

const (
	Good   Verdict = iota // must be accepted if everything else is in order
	Bad                   // must be refused
	Either                // may be refused, or taken for what Content says
)

type MetaC struct {
	Version, Length int64
	Hashes          map[string]string
}

type TargetC struct {
	Length int64
	Hashes map[string]string
}

type RoleC struct {
	KeyIDs    []string
	Threshold int
}

type DRole struct {
	Name string
	RoleC
	Terminating bool
	Paths       []string
	Prefixes    []string
}

type SuccC struct {
	RoleC
	Bits   int
	Prefix string
}

type DelegC struct {
	Keys  map[string]*Key
	Roles []DRole
	Succ  *SuccC
}

// Content is the signed part of a document.
type Content struct {
	Type       string
	Version    int64
	Expires    int64 // unix seconds
	Keys       map[string]*Key
	Roles      map[string]RoleC
	Consistent bool
	Meta       map[string]MetaC
	Targets    map[string]TargetC
	Deleg      *DelegC
	Extra      obj
	Nest       map[string]obj // unknown members further down, by place
}

// SigEnt is one signature: Key is the key that really made it over the content,
// nil if it is not a valid signature of anybody over it.
type SigEnt struct {
	KeyID string
	Key   *Key
	Hex   string
}

// Doc is a document the world knows, by its bytes.
type Doc struct {
	ID      int
	Label   string
	C       *Content
	Sigs    []SigEnt
	Bytes   []byte
	V       Verdict
	Payload []byte
}

// fp tells documents apart by what the client can observe of them.
func (d *Doc) fp() string {
	s := fmt.Sprintf("v%d", d.C.Version)
	for _, e := range d.Sigs {
		s += "|" + e.KeyID + ":" + e.Hex
	}
	return s
}

func hashOf(alg string, b []byte) string {
	switch alg {
	case "sha256":
		h := sha256.Sum256(b)
		return hex.EncodeToString(h[:])
	case "sha512":
		h := sha512.Sum512(b)
		return hex.EncodeToString(h[:])
	}
	return strings.Repeat("ab", 16)
}

func timeStr(t int64) string { return time.Unix(t, 0).UTC().Format("2006-01-02T15:04:05Z") }

func hashesObj(h map[string]string) obj {
	o := obj{}
	for k, v := range h {
		o[k] = v
	}
	return o
}

func roleObj(r RoleC) obj {
	return obj{"keyids": append([]string{}, r.KeyIDs...), "threshold": r.Threshold}
}

func keysObj(m map[string]*Key) obj {
	o := obj{}
	for id, k := range m {
		o[id] = clone(k.Pub)
	}
	return o
}

func (c *Content) obj() obj {
	o := obj{"_type": c.Type, "spec_version": "1.0.31", "version": c.Version, "expires": timeStr(c.Expires)}
	for k, v := range c.Extra {
		o[k] = clone(v)
	}
	more := func(place string, x obj) obj {
		for k, v := range c.Nest[place] {
			x[k] = clone(v)
		}
		return x
	}
	switch c.Type {
	case "root":
		o["consistent_snapshot"] = c.Consistent
		o["keys"] = keysObj(c.Keys)
		rs := obj{}
		for n, r := range c.Roles {
			rs[n] = more("roles/"+n, roleObj(r))
		}
		o["roles"] = rs
	case "timestamp", "snapshot":
		m := obj{}
		for n, e := range c.Meta {
			x := obj{"version": e.Version}
			if e.Length != 0 {
				x["length"] = e.Length
			}
			if len(e.Hashes) > 0 {
				x["hashes"] = hashesObj(e.Hashes)
			}
			m[n] = more("meta/"+n, x)
		}
		o["meta"] = m
	case "targets":
		t := obj{}
		for n, e := range c.Targets {
			t[n] = more("targets/"+n, obj{"length": e.Length, "hashes": hashesObj(e.Hashes)})
		}
		o["targets"] = t
		if d := c.Deleg; d != nil {
			x := obj{"keys": keysObj(d.Keys)}
			if d.Succ != nil {
				y := roleObj(d.Succ.RoleC)
				y["bit_length"] = d.Succ.Bits
				y["name_prefix"] = d.Succ.Prefix
				x["succinct_roles"] = more("bins", y)
			} else {
				a := arr{}
				for _, r := range d.Roles {
					y := roleObj(r.RoleC)
					y["name"] = r.Name
					y["terminating"] = r.Terminating
					if r.Prefixes != nil {
						y["path_hash_prefixes"] = append([]string{}, r.Prefixes...)
					} else {
						y["paths"] = append([]string{}, r.Paths...)
					}
					a = append(a, more("roles/"+r.Name, y))
				}
				x["roles"] = a
			}
			o["delegations"] = more("delegations", x)
		}
	}
	return o
}

func copyHashes(h map[string]string) map[string]string {
	if h == nil {
		return nil
	}
	c := map[string]string{}
	for k, v := range h {
		c[k] = v
	}
	return c
}

func (c *Content) copy() *Content {
	n := *c
	if c.Keys != nil {
		n.Keys = map[string]*Key{}
		for k, v := range c.Keys {
			n.Keys[k] = v
		}
	}
	if c.Roles != nil {
		n.Roles = map[string]RoleC{}
		for k, v := range c.Roles {
			n.Roles[k] = RoleC{append([]string(nil), v.KeyIDs...), v.Threshold}
		}
	}
	if c.Meta != nil {
		n.Meta = map[string]MetaC{}
		for k, v := range c.Meta {
			v.Hashes = copyHashes(v.Hashes)
			n.Meta[k] = v
		}
	}
	if c.Targets != nil {
		n.Targets = map[string]TargetC{}
		for k, v := range c.Targets {
			v.Hashes = copyHashes(v.Hashes)
			n.Targets[k] = v
		}
	}
	n.Deleg = c.Deleg.copy()
	n.Extra = clone(obj(c.Extra)).(obj)
	n.Nest = map[string]obj{}
	for k, v := range c.Nest {
		n.Nest[k] = v
	}
	return &n
}

func (d *DelegC) copy() *DelegC {
	if d == nil {
		return nil
	}
	n := &DelegC{Keys: map[string]*Key{}}
	for k, v := range d.Keys {
		n.Keys[k] = v
	}
	for _, r := range d.Roles {
		r.KeyIDs = append([]string(nil), r.KeyIDs...)
		n.Roles = append(n.Roles, r)
	}
	if d.Succ != nil {
		s := *d.Succ
		s.KeyIDs = append([]string(nil), s.KeyIDs...)
		n.Succ = &s
	}
	return n
}

// World holds every document ever made in a run.
type World struct {
	r       *Run
	s       *Src
	docs    map[string]*Doc
	byID    []*Doc
	nextKey int
	order   []int
	special int
	uniq    int
	gentle  bool // every key signs, none is withdrawn
	multi   bool // repositories agree on contents now and then
	Pf      *Profile
}

func NewWorld(r *Run, pf *Profile) *World {
	w := &World{r: r, s: r.Src, docs: map[string]*Doc{}, Pf: pf}
	w.special = nEd
	return w
}

func (w *World) now() int64 { return time.Now().Unix() }

func (w *World) newKey() *Key {
	if w.special < len(keyPool) && w.s.P(60) {
		k := keyPool[w.special]
		w.special++
		return k
	}
	if w.nextKey >= nEd {
		w.nextKey = 0
	}
	k := keyPool[w.nextKey]
	w.nextKey++
	return k
}

func keyIDs(ks []*Key) []string {
	var o []string
	for _, k := range ks {
		o = append(o, k.ID)
	}
	return o
}

func (w *World) add(d *Doc) *Doc {
	if x, ok := w.docs[string(d.Bytes)]; ok {
		return x
	}
	d.ID = len(w.byID)
	w.byID = append(w.byID, d)
	w.docs[string(d.Bytes)] = d
	return d
}

func (w *World) find(b []byte) *Doc { return w.docs[string(b)] }

func sigsOf(payload []byte, signers []*Key) []SigEnt {
	var s []SigEnt
	for _, k := range signers {
		s = append(s, SigEnt{k.ID, k, hex.EncodeToString(k.Sign(payload))})
	}
	return s
}

func sigArr(sigs []SigEnt) arr {
	a := arr{}
	for _, s := range sigs {
		a = append(a, obj{"keyid": s.KeyID, "sig": s.Hex})
	}
	return a
}

// envelope writes a document out; formatting is drawn, content is not.
func (w *World) envelope(signed any, sigs arr, extra obj) []byte {
	o := obj{"signed": signed, "signatures": sigs}
	for k, v := range extra {
		o[k] = v
	}
	if len(sigs) > 0 && w.s.P(25) {
		if x, ok := sigs[w.s.N(len(sigs))].(obj); ok {
			x[extraNames[w.s.N(len(extraNames))]] = w.extraVal()
		}
	}
	switch w.s.W(6, 2, 1) {
	case 1:
		return plainJSON(o, 1)
	case 2:
		return append([]byte("\n \t"), append(plainJSON(o, 3), '\n')...)
	}
	return plainJSON(o, -1)
}

// extras are unknown members, which every implementation has to tolerate.
func (w *World) extras() obj {
	if !w.s.P(120) {
		return nil
	}
	o := obj{}
	for i := 0; i <= w.s.N(2); i++ {
		o[extraNames[w.s.N(len(extraNames))]] = w.extraVal()
	}
	return o
}

// unknowns gives content unknown members in all sorts of places.
func (w *World) unknowns(c *Content) {
	if c.Extra == nil {
		c.Extra = w.extras()
	}
	if !w.s.P(60) {
		return
	}
	var ps []string
	for _, n := range sortedKeys(c.Roles) {
		ps = append(ps, "roles/"+n)
	}
	for _, n := range sortedKeys(c.Meta) {
		ps = append(ps, "meta/"+n)
	}
	for _, n := range sortedKeys(c.Targets) {
		ps = append(ps, "targets/"+n)
	}
	if d := c.Deleg; d != nil {
		ps = append(ps, "delegations")
		if d.Succ != nil {
			ps = append(ps, "bins")
		}
		for _, r := range d.Roles {
			ps = append(ps, "roles/"+r.Name)
		}
	}
	if len(ps) == 0 {
		return
	}
	n := map[string]obj{}
	for k, v := range c.Nest {
		n[k] = v
	}
	for i := 0; i <= w.s.N(2); i++ {
		p := ps[w.s.N(len(ps))]
		o := obj{}
		for j := 0; j <= w.s.N(2); j++ {
			o[extraNames[w.s.N(len(extraNames))]] = w.extraVal()
		}
		if strings.HasPrefix(p, "targets/") {
			delete(o, "custom") // has a meaning there
		}
		n[p] = o
	}
	c.Nest = n
}

func (w *World) extraVal() any {
	return pick[any](w.s, "x", 7, true, nil, arr{"a", 1, obj{"b": "c"}}, obj{"deep": obj{"er": arr{}}}, "quote\" back\\ <tag> & \u00e9\u4e16", -3, "")
}

// seal signs content with the given keys and registers the document.
func (w *World) seal(label string, c *Content, signers []*Key) *Doc {
	w.unknowns(c)
	payload := canon(c.obj())
	sigs := sigsOf(payload, signers)
	return w.sealSigs(label, c, sigs)
}

func (w *World) sealSigs(label string, c *Content, sigs []SigEnt) *Doc {
	o := c.obj()
	d := &Doc{Label: label, C: c, Sigs: sigs, V: Good, Payload: canon(o)}
	seen := map[string]bool{}
	for _, s := range sigs {
		if seen[s.KeyID] {
			d.V = Bad // repeated key IDs are forbidden
		}
		seen[s.KeyID] = true
	}
	d.Bytes = w.envelope(o, sigArr(sigs), w.extras())
	return w.add(d)
}

// --- publisher ---------------------------------------------------------------------

// TRole is a targets role as its publisher keeps it.
type TRole struct {
	Name    string
	Version int64
	Targets map[string][]byte
	TMeta   map[string]TargetC
	Deleg   *DelegC
	Keys    map[string][]*Key // per delegator
	Old     []*Key
	Life    int64 // seconds a document stays valid
	doc     *Doc
	dirty   bool
}

// State is one complete, published (or attacker-made) repository state.
type State struct {
	N          int
	Label      string
	Root       *Doc
	Roots      []*Doc
	Ts, Snap   *Doc
	Tg         map[string]*Doc
	Files      map[string][]byte // by canonical URL
	Consistent bool
	Honest     bool
	// writes in the order the publisher makes them (file, bytes)
	Writes []FileWrite
}

type FileWrite struct {
	URL   string
	Bytes []byte
}

type Repo struct {
	w          *World
	Name       string
	Meta, Tgt  string
	keys       map[string][]*Key
	thr        map[string]int
	oldKeys    map[string][]*Key
	consistent bool
	prefixed   bool
	rootV      int64
	tsV, snapV int64
	roles      map[string]*TRole
	metaMode   map[string]int
	life       map[string]int64
	roots      []*Doc
	files      map[string][]byte
	States     []*State
	Cur        *State
	keepOld    bool
	paths      []string
	jump       bool // versions may skip
	maxDeleg   int
	universe   []string
	names      []string
	gentle     bool // never withdraws a key or a target
	stuck      bool // somebody with online keys may have fast-forwarded clients
	splitRoot  bool // clients may have another successor of the current root
	frozen     bool // root keys do not change any more
}

const hour = 3600

var topRoles = []string{"root", "timestamp", "snapshot", "targets"}

var plainPaths = []string{"f1", "f2", "dir/f1", "dir/f2", "dir/sub/f3", "g.txt", "a b", "dir/x+y"}
var oddPaths = []string{"f1", "dir/f1", "dir//f1", "a/../b", "../up", "..x", ".hid", "a b", "a+b", "üñ/f", "dir.json", "timestamp.json", "a\\b", "x:y", "a&b=c", "dir/f1.json", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "./f1", "a%2Fb", "a/b", "F1", "f1 ", "é/f", "e\u0301/f", longName + "1", longName + "2"}

var longName = strings.Repeat("long-", 40)

var plainNames = []string{"role1", "role2", "team", "r-3", "unclaimed", "zed"}
var oddNames = []string{"role1", "a/b", "a%2Fb", "../evil", "..", ".", "role 1", "role+1", "Root", "ROLE1", "üñ", "a\\b", "root.json", "timestamp.json", "x.y", "tuf_tmp1", "a:b", "targets/", "/abs", "root/../x", "a&b", "%2e%2e", "role1 ", "é", "e\u0301", longName + "1", longName + "2"}

func (w *World) NewRepo(name string, odd bool) *Repo {
	s := w.s
	rp := &Repo{w: w, Name: name, Meta: "http://" + name + ".test/meta/", Tgt: "http://" + name + ".test/files/",
		keys: map[string][]*Key{}, thr: map[string]int{}, oldKeys: map[string][]*Key{}, roles: map[string]*TRole{},
		metaMode: map[string]int{}, life: map[string]int64{}, files: map[string][]byte{}, keepOld: true}
	if w.multi {
		rp.Tgt = rp.Meta + "targets/"
	}
	rp.universe, rp.names = plainPaths, plainNames
	if odd {
		rp.universe, rp.names = oddPaths, oddNames
	}
	rp.consistent = !s.P(300)
	rp.prefixed = !s.P(200) || w.multi
	rp.jump = s.P(200)
	rp.maxDeleg = s.N(w.Pf.Deleg + 1)
	for _, r := range topRoles {
		n := 1 + s.W(5, 2, 1)
		for i := 0; i < n; i++ {
			rp.keys[r] = append(rp.keys[r], w.newKey())
		}
		rp.thr[r] = 1 + s.N(n)
		rp.life[r] = 2000 * hour
		if s.P(w.Pf.ShortLife) {
			rp.life[r] = int64(1+s.N(100)) * hour
		}
	}
	if s.P(60) { // one key for two roles
		rp.keys["snapshot"] = append([]*Key(nil), rp.keys["timestamp"]...)
		rp.thr["snapshot"] = rp.thr["timestamp"]
	}
	rp.metaMode["timestamp"] = s.N(6)
	rp.metaMode["snapshot"] = s.N(6)
	t := &TRole{Name: "targets", Targets: map[string][]byte{}, TMeta: map[string]TargetC{}, Life: rp.life["targets"], dirty: true, Keys: map[string][]*Key{"root": rp.keys["targets"]}}
	rp.roles["targets"] = t
	n := 1 + s.N(3)
	for i := 0; i < n; i++ {
		rp.setTarget(t, rp.universe[s.N(len(rp.universe))])
	}
	for i := 0; i < rp.maxDeleg; i++ {
		rp.delegate()
	}
	rp.rootV = 1
	if s.P(150) {
		rp.rootV = int64(1 + s.N(20))
	}
	rp.tsV, rp.snapV = int64(s.N(3)), int64(s.N(3))
	rp.newRootDoc(nil, nil)
	rp.Publish("initial")
	return rp
}

func (rp *Repo) metaURL(ver int64, role string) string {
	if ver > 0 {
		return canonURL(fmt.Sprintf("%s%d.%s.json", rp.Meta, ver, url.QueryEscape(role)))
	}
	return canonURL(rp.Meta + url.QueryEscape(role) + ".json")
}

func (rp *Repo) targetURL(prefix, p string) string {
	if prefix == "" {
		return canonURL(rp.Tgt + p)
	}
	d, b := path.Split(p)
	return canonURL(rp.Tgt + d + prefix + "." + b)
}

func (rp *Repo) setTarget(t *TRole, p string) {
	w := rp.w
	if w.multi {
		w.sharedTarget(t, p)
		return
	}
	w.uniq++
	body := []byte(fmt.Sprintf("content %d of %s by %s", w.uniq, p, t.Name))
	if w.s.P(60) {
		body = append(body, []byte(strings.Repeat(".", 1+w.s.N(3000)))...)
	}
	if w.s.P(30) {
		body = []byte{}
	}
	t.Targets[p] = body
	t.TMeta[p] = TargetC{int64(len(body)), w.hashes(body, w.s.W(5, 2, 2))}
	t.dirty = true
}

func (w *World) hashes(b []byte, mode int) map[string]string {
	switch mode {
	case 1:
		return map[string]string{"sha512": hashOf("sha512", b)}
	case 2:
		return map[string]string{"sha256": hashOf("sha256", b), "sha512": hashOf("sha512", b)}
	}
	return map[string]string{"sha256": hashOf("sha256", b)}
}

func (w *World) metaOf(d *Doc, mode int) MetaC {
	m := MetaC{Version: d.C.Version}
	switch mode {
	case 1:
		m.Length = int64(len(d.Bytes))
	case 2:
		m.Hashes = w.hashes(d.Bytes, 0)
	case 3:
		m.Length, m.Hashes = int64(len(d.Bytes)), w.hashes(d.Bytes, 0)
	case 4:
		m.Length, m.Hashes = int64(len(d.Bytes)), w.hashes(d.Bytes, 2)
	case 5:
		m.Hashes = w.hashes(d.Bytes, 1)
	}
	return m
}

// sortedRoles lists the targets roles, parents as they were made.
func (rp *Repo) sortedRoles() []string { return sortedKeys(rp.roles) }

func (rp *Repo) b64prefix(p string, n int) string {
	h := sha256.Sum256([]byte(p))
	return base64.URLEncoding.EncodeToString(h[:])[:n]
}

func (rp *Repo) hexprefix(p string, n int) string { return hashOf("sha256", []byte(p))[:n] }

var patterns = []string{"*", "dir/*", "dir/sub/*", "f1", "f?", "dir/f[12]", "*/f1", "dir/f1", "g.*", "a b", "*/*", "../*", "a/*/*"}

// delegate adds one delegation edge somewhere.
func (rp *Repo) delegate() bool {
	w, s := rp.w, rp.w.s
	all := rp.sortedRoles()
	parent := rp.roles[all[s.N(len(all))]]
	if parent.Deleg != nil && parent.Deleg.Succ != nil {
		return false
	}
	if parent.Deleg == nil && s.P(120) {
		return rp.delegateBins(parent)
	}
	// an existing role (diamond, cycle) or a new one
	name := rp.names[s.N(len(rp.names))]
	child := rp.roles[name]
	if child == nil {
		child = &TRole{Name: name, Targets: map[string][]byte{}, TMeta: map[string]TargetC{}, Keys: map[string][]*Key{}, Life: 2000 * hour, dirty: true}
		if s.P(w.Pf.ShortLife) {
			child.Life = int64(1+s.N(100)) * hour
		}
		rp.roles[name] = child
		for i := 0; i <= s.N(3); i++ {
			rp.setTarget(child, rp.universe[s.N(len(rp.universe))])
		}
	}
	if child.Keys[parent.Name] != nil {
		return false
	}
	n := 1 + s.W(5, 2, 1)
	var ks []*Key
	shared := s.P(500)
	for _, pn := range sortedKeys(child.Keys) {
		if shared {
			ks = append(ks, child.Keys[pn]...)
			break
		}
	}
	if ks == nil {
		for i := 0; i < n; i++ {
			ks = append(ks, w.newKey())
		}
	}
	child.Keys[parent.Name] = ks
	child.dirty = true
	if parent.Deleg == nil {
		parent.Deleg = &DelegC{Keys: map[string]*Key{}}
	} else {
		parent.Deleg = parent.Deleg.copy()
	}
	dr := DRole{Name: name, RoleC: RoleC{keyIDs(ks), 1 + s.N(len(ks))}, Terminating: s.P(250)}
	if !rp.gentle && s.P(w.Pf.Tall/2) {
		dr.Threshold = len(ks) + 1 + s.N(12)
	}
	if s.P(150) {
		dr.Prefixes = []string{}
		for i := 0; i <= s.N(3); i++ {
			p := rp.universe[s.N(len(rp.universe))]
			// covered under either way of writing the hash, others under none
			dr.Prefixes = append(dr.Prefixes, rp.hexprefix(p, 12), rp.b64prefix(p, 12))
		}
	} else {
		dr.Paths = []string{}
		for i := 0; i <= s.N(2); i++ {
			if p := rp.universe[s.N(len(rp.universe))]; s.P(300) && !strings.Contains(p, "\\") {
				dr.Paths = append(dr.Paths, p)
			} else {
				dr.Paths = append(dr.Paths, patterns[s.N(len(patterns))])
			}
		}
	}
	for _, k := range ks {
		parent.Deleg.Keys[k.ID] = k
	}
	at := s.N(len(parent.Deleg.Roles) + 1)
	at = len(parent.Deleg.Roles) - at
	parent.Deleg.Roles = append(parent.Deleg.Roles[:at:at], append([]DRole{dr}, parent.Deleg.Roles[at:]...)...)
	parent.dirty = true
	return true
}

func binName(prefix string, bits int, p string) string {
	h := sha256.Sum256([]byte(p))
	v := uint64(h[0])<<24 | uint64(h[1])<<16 | uint64(h[2])<<8 | uint64(h[3])
	v >>= 32 - uint(bits)
	last := (uint64(1) << uint(bits)) - 1
	digits := len(fmt.Sprintf("%x", last))
	return fmt.Sprintf("%s-%0*x", prefix, digits, v)
}

func (rp *Repo) delegateBins(parent *TRole) bool {
	w, s := rp.w, rp.w.s
	prefix := pick(s, "bin", "b/in", "bin-x")
	for _, n := range rp.sortedRoles() {
		if strings.HasPrefix(n, prefix+"-") {
			return false
		}
	}
	bits := 1 + s.N(5)
	sparse := s.P(250) // too many to publish them all
	if sparse {
		bits = pick(s, 8, 6, 7, 9, 12, 16, 17, 24, 31, 32)
	}
	ks := []*Key{w.newKey()}
	if s.P(300) {
		ks = append(ks, w.newKey())
	}
	parent.Deleg = &DelegC{Keys: map[string]*Key{}, Succ: &SuccC{RoleC{keyIDs(ks), 1 + s.N(len(ks))}, bits, prefix}}
	for _, k := range ks {
		parent.Deleg.Keys[k.ID] = k
	}
	parent.dirty = true
	var names []string
	if sparse {
		for _, p := range rp.universe {
			if n := binName(prefix, bits, p); !has(names, n) && !s.P(150) {
				names = append(names, n)
			}
		}
	} else {
		digits := len(fmt.Sprintf("%x", (1<<uint(bits))-1))
		for v := 0; v < 1<<uint(bits); v++ {
			names = append(names, fmt.Sprintf("%s-%0*x", prefix, digits, v))
		}
	}
	for _, n := range names {
		rp.roles[n] = &TRole{Name: n, Targets: map[string][]byte{}, TMeta: map[string]TargetC{}, Keys: map[string][]*Key{parent.Name: ks}, Life: 2000 * hour, dirty: true}
	}
	for i := 0; i <= s.N(4) && len(names) > 0; i++ {
		p := rp.universe[s.N(len(rp.universe))]
		n := binName(prefix, bits, p)
		if s.P(200) || rp.roles[n] == nil { // in the wrong bin
			n = names[s.N(len(names))]
		}
		rp.setTarget(rp.roles[n], p)
	}
	return true
}

func (rp *Repo) rootContent() *Content {
	c := &Content{Type: "root", Version: rp.rootV, Expires: rp.w.now() + rp.life["root"], Consistent: rp.consistent, Keys: map[string]*Key{}, Roles: map[string]RoleC{}}
	for _, r := range topRoles {
		for _, k := range rp.keys[r] {
			c.Keys[k.ID] = k
		}
		c.Roles[r] = RoleC{keyIDs(rp.keys[r]), rp.thr[r]}
	}
	return c
}

// signers picks at least a threshold of the keys.
func (w *World) signers(ks []*Key, thr int) []*Key {
	n := len(ks)
	if thr < n && !w.gentle && w.s.P(500) {
		n = thr + w.s.N(n-thr+1)
	}
	x := append([]*Key(nil), ks...)
	if w.s.P(300) {
		Shuffle(w.s, x)
	}
	return x[:n]
}

func union(a, b []*Key) []*Key {
	o := append([]*Key(nil), a...)
	for _, k := range b {
		dup := false
		for _, e := range o {
			dup = dup || e.ID == k.ID
		}
		if !dup {
			o = append(o, k)
		}
	}
	return o
}

func (rp *Repo) newRootDoc(prevKeys []*Key, prevThr []int) {
	sg := rp.w.signers(rp.keys["root"], rp.thr["root"])
	if prevKeys != nil {
		sg = union(sg, rp.w.signers(prevKeys, prevThr[0]))
	}
	d := rp.w.seal(fmt.Sprintf("%s root v%d", rp.Name, rp.rootV), rp.rootContent(), sg)
	rp.roots = append(rp.roots, d)
}

// Rotate publishes a new root version with changed keys, thresholds or settings.
func (rp *Repo) Rotate(n int) {
	w, s := rp.w, rp.w.s
	for i := 0; i < n; i++ {
		for _, r := range topRoles {
			rp.thr[r] = min(rp.thr[r], len(rp.keys[r]))
		}
		prev, pthr := rp.keys["root"], rp.thr["root"]
		what := s.W(3, 3, 2, 1, 1)
		if rp.gentle && what == 1 {
			what = 0
		}
		r := topRoles[s.N(4)]
		if rp.frozen && r == "root" {
			r = "targets"
		}
		switch what {
		case 0: // nothing but the version, or root keys
			if !rp.gentle && !rp.frozen && s.P(300) {
				r = "root"
				rp.oldKeys[r] = union(rp.oldKeys[r], rp.keys[r])
				rp.keys[r] = []*Key{w.newKey(), w.newKey()}
				rp.thr[r] = 1 + s.N(2)
			}
		case 1: // exchange one key
			j := s.N(len(rp.keys[r]))
			k := append([]*Key(nil), rp.keys[r]...)
			rp.oldKeys[r] = union(rp.oldKeys[r], []*Key{k[j]})
			k[j] = w.newKey()
			for _, o := range k {
				if o != k[j] && o.ID == k[j].ID {
					k = []*Key{k[j]}
					rp.thr[r] = 1
					break
				}
			}
			rp.keys[r] = k
		case 2: // add a key, maybe raise the threshold
			k := union(rp.keys[r], []*Key{w.newKey()})
			rp.keys[r] = k
			if !rp.gentle {
				rp.thr[r] = 1 + s.N(len(k))
				if r != "root" && s.P(w.Pf.Tall) { // more than there are keys: out of order until the next rotation
					rp.thr[r] = pick(s, len(k)+1, 12, 30)
				}
			}
		case 3: // lower the threshold
			if rp.thr[r] > 1 {
				rp.thr[r]--
			}
		case 4:
			if !rp.gentle && w.Pf.ToggleCS {
				rp.consistent = !rp.consistent
			}
		}
		rp.roles["targets"].Keys["root"] = rp.keys["targets"]
		rp.rootV++
		life := rp.life["root"]
		if i < n-1 && s.P(200) {
			rp.life["root"] = -int64(s.N(50)) * hour // an expired intermediate
		}
		rp.newRootDoc(prev, []int{pthr})
		rp.life["root"] = life
	}
	rp.roles["targets"].dirty = true
	rp.Publish("rotate")
}

// RotateOnline exchanges the timestamp and snapshot keys, the way to recover from
// a compromise of them.
func (rp *Repo) RotateOnline() {
	prev, pthr := rp.keys["root"], rp.thr["root"]
	for _, r := range []string{"timestamp", "snapshot"} {
		rp.oldKeys[r] = union(rp.oldKeys[r], rp.keys[r])
		rp.keys[r] = []*Key{rp.w.newKey()}
		rp.thr[r] = 1
	}
	rp.rootV++
	rp.newRootDoc(prev, []int{pthr})
	rp.Publish("recover")
}

func (rp *Repo) bump(v *int64) {
	*v++
	if rp.jump {
		*v += int64(rp.w.s.N(3))
	}
}

func (rp *Repo) targetsDoc(t *TRole) *Doc {
	w := rp.w
	c := &Content{Type: "targets", Version: t.Version, Expires: w.now() + t.Life, Targets: map[string]TargetC{}, Deleg: t.Deleg.copy()}
	for p, m := range t.TMeta {
		c.Targets[p] = TargetC{m.Length, copyHashes(m.Hashes)}
	}
	var sg []*Key
	for _, pn := range sortedKeys(t.Keys) {
		thr := len(t.Keys[pn])
		if pn == "root" {
			thr = rp.thr["targets"]
		}
		sg = union(sg, w.signers(t.Keys[pn], thr))
	}
	return w.seal(fmt.Sprintf("%s %s v%d", rp.Name, t.Name, t.Version), c, sg)
}

// snapDoc and tsDoc describe the given documents.
func (rp *Repo) snapDoc(tg map[string]*Doc, ver int64) *Doc {
	w := rp.w
	c := &Content{Type: "snapshot", Version: ver, Expires: w.now() + rp.life["snapshot"], Meta: map[string]MetaC{}}
	for n, d := range tg {
		c.Meta[n+".json"] = w.metaOf(d, rp.metaMode["snapshot"])
	}
	return w.seal(fmt.Sprintf("%s snapshot v%d", rp.Name, ver), c, w.signers(rp.keys["snapshot"], rp.thr["snapshot"]))
}

func (rp *Repo) tsDoc(snap *Doc, ver int64) *Doc {
	w := rp.w
	c := &Content{Type: "timestamp", Version: ver, Expires: w.now() + rp.life["timestamp"], Meta: map[string]MetaC{"snapshot.json": w.metaOf(snap, rp.metaMode["timestamp"])}}
	return w.seal(fmt.Sprintf("%s timestamp v%d", rp.Name, ver), c, w.signers(rp.keys["timestamp"], rp.thr["timestamp"]))
}

// Publish makes a new state of what changed.
func (rp *Repo) Publish(why string) *State {
	w := rp.w
	tg := map[string]*Doc{}
	for _, n := range rp.sortedRoles() {
		t := rp.roles[n]
		if t.dirty || t.doc == nil {
			rp.bump(&t.Version)
			t.doc = rp.targetsDoc(t)
			t.dirty = false
		}
		tg[n] = t.doc
	}
	rp.bump(&rp.snapV)
	rp.bump(&rp.tsV)
	snap := rp.snapDoc(tg, rp.snapV)
	ts := rp.tsDoc(snap, rp.tsV)
	st := &State{N: len(rp.States), Label: fmt.Sprintf("%s state %d (%s)", rp.Name, len(rp.States), why), Root: rp.roots[len(rp.roots)-1], Roots: append([]*Doc(nil), rp.roots...), Ts: ts, Snap: snap, Tg: tg, Consistent: rp.consistent, Honest: true}
	rp.lay(st)
	rp.States = append(rp.States, st)
	rp.Cur = st
	w.r.ev("publish %s: root v%d timestamp v%d snapshot v%d %s cs=%v", st.Label, st.Root.C.Version, ts.C.Version, snap.C.Version, roleVers(tg), rp.consistent)
	return st
}

func roleVers(tg map[string]*Doc) string {
	var o []string
	for _, n := range sortedKeys(tg) {
		o = append(o, fmt.Sprintf("%s:v%d", n, tg[n].C.Version))
	}
	return strings.Join(o, " ")
}

// lay puts a state's files on the server.
func (rp *Repo) lay(st *State) {
	f := map[string][]byte{}
	if rp.keepOld {
		for k, v := range rp.files {
			f[k] = v
		}
	}
	put := func(u string, b []byte) {
		if old, ok := f[u]; !ok || string(old) != string(b) {
			st.Writes = append(st.Writes, FileWrite{u, b})
		}
		f[u] = b
	}
	for _, n := range rp.sortedRoles() {
		t := rp.roles[n]
		for _, p := range sortedKeys(t.Targets) {
			if st.Consistent && rp.prefixed {
				for _, h := range sortedKeys(t.TMeta[p].Hashes) {
					put(rp.targetURL(t.TMeta[p].Hashes[h], p), t.Targets[p])
				}
			} else {
				put(rp.targetURL("", p), t.Targets[p])
			}
		}
	}
	for _, d := range st.Roots {
		put(rp.metaURL(d.C.Version, "root"), d.Bytes)
	}
	for _, n := range sortedKeys(st.Tg) {
		d := st.Tg[n]
		if st.Consistent {
			put(rp.metaURL(d.C.Version, n), d.Bytes)
		} else {
			put(rp.metaURL(0, n), d.Bytes)
		}
	}
	if st.Consistent {
		put(rp.metaURL(st.Snap.C.Version, "snapshot"), st.Snap.Bytes)
	} else {
		put(rp.metaURL(0, "snapshot"), st.Snap.Bytes)
	}
	put(rp.metaURL(0, "timestamp"), st.Ts.Bytes)
	st.Files = f
	rp.files = f
}

// Evolve performs one ordinary publisher step.
func (rp *Repo) Evolve() {
	s := rp.w.s
	if s.P(rp.w.Pf.ShortLife) { // from now on shorter or longer than before
		r := topRoles[s.N(4)]
		rp.life[r] = 2000 * hour
		if s.P(500) {
			rp.life[r] = int64(1+s.N(100)) * hour
		}
	}
	all := rp.sortedRoles()
	t := rp.roles[all[s.N(len(all))]]
	switch s.W(4, 3, 2, 3, 1) {
	case 0:
		rp.setTarget(t, rp.universe[s.N(len(rp.universe))])
	case 1: // change one
		ps := sortedKeys(t.Targets)
		if len(ps) > 0 {
			rp.setTarget(t, ps[s.N(len(ps))])
		}
	case 2:
		ps := sortedKeys(t.Targets)
		if len(ps) > 0 && !rp.gentle {
			p := ps[s.N(len(ps))]
			delete(t.Targets, p)
			delete(t.TMeta, p)
			t.dirty = true
		}
	case 3:
		if len(rp.roles) < 2+rp.w.Pf.Deleg {
			rp.delegate()
		}
	case 4: // delegated key exchange
		if d := t.Deleg; d != nil && d.Succ == nil && len(d.Roles) > 0 && !rp.gentle {
			i := s.N(len(d.Roles))
			child := rp.roles[d.Roles[i].Name]
			child.Old = union(child.Old, child.Keys[t.Name])
			k := []*Key{rp.w.newKey()}
			child.Keys[t.Name] = k
			child.dirty = true
			nd := d.copy()
			nd.Roles[i].KeyIDs, nd.Roles[i].Threshold = keyIDs(k), 1
			for _, kk := range k {
				nd.Keys[kk.ID] = kk
			}
			if s.P(2 * rp.w.Pf.Tall) { // more than the keys it has, or all keys there are
				nd.Roles[i].Threshold = pick(s, 2, len(nd.Keys)+1, len(nd.Keys))
			}
			t.Deleg = nd
			t.dirty = true
		}
	}
	for i := 0; i < s.N(3); i++ {
		rp.roles[all[s.N(len(all))]].dirty = true
	}
	rp.Publish("evolve")
}

func (rp *Repo) targetPaths() []string {
	m := map[string]bool{}
	for _, t := range rp.roles {
		for p := range t.Targets {
			m[p] = true
		}
	}
	var o []string
	for p := range m {
		o = append(o, p)
	}
	sort.Strings(o)
	return o
}
