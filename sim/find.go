package sim

import (
	"errors"
	"strings"
	"time"
)

func init() {
	findings["hex-path-hash-prefix"] = hexPrefixes
}

// hexPrefixes: a role is delegated by hash prefixes written in hexadecimal, as the
// specification says, and lists the target.
func hexPrefixes() (bool, error) {
	pf := base("P07")
	pf.Deleg = 0
	res := Execute(ReplaySrc(nil), false, func(r *Run) {
		time.Sleep(123456789)
		w := NewWorld(r, pf)
		rp := w.NewRepo("a", false)
		top := rp.roles["targets"]
		ks := []*Key{w.newKey()}
		child := &TRole{Name: "zed", Targets: map[string][]byte{}, TMeta: map[string]TargetC{}, Keys: map[string][]*Key{"targets": ks}, Life: 2000 * hour, dirty: true}
		rp.roles["zed"] = child
		rp.setTarget(child, "dir/sub/f3")
		top.Deleg = &DelegC{Keys: map[string]*Key{ks[0].ID: ks[0]}, Roles: []DRole{{Name: "zed", RoleC: RoleC{keyIDs(ks), 1}, Prefixes: []string{rp.hexprefix("dir/sub/f3", 12)}}}}
		top.dirty = true
		rp.Publish("delegated by hash prefix")
		c := w.NewClient(rp, "u")
		ss := c.newSession(true)
		ss.script = []op{{kind: "refresh"}, {kind: "lookup", path: "dir/sub/f3"}}
		ss.run()
	})
	if res.Broken != "" {
		return false, errors.New(res.Broken)
	}
	for _, v := range res.Viol {
		if v.Tag == "refused-lookup" && strings.Contains(v.Msg, "dir/sub/f3") {
			return true, nil
		}
		return false, errors.New("another failure: " + v.Msg)
	}
	return false, nil
}
