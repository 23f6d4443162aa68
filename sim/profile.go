package sim

// Profile tunes a scenario for one property. All rates are per mille.
type Profile struct {
	Prop, Name string
	Scen       func(r *Run, pf *Profile)

	// world
	Deleg     int // delegations at most
	ShortLife int
	ToggleCS  bool
	Odd       int // odd role and target names

	// history
	Rounds     int // rounds at most
	Evolve     int
	Rotate     int
	MaxRot     int // rotations at once at most
	RotOnline  int
	BadRoot    int // an unusable initial root
	Tall       int // thresholds nobody can reach
	Set        int // a program that uses the trusted set itself
	Advance    int // time passes
	NearExpiry int // ... to just before or after an expiry
	Damage     int // cache files are damaged
	DamageMal  int // ... by malformed but well-signed documents
	WipeCache  int
	Final      bool // recovery session at the end
	Repeat     int  // an immediate second session

	// sessions
	Serve    [4]int // honest, one older state, attack, mixture
	Attack   [8]int // signature, root, holder, expired, swap, malformed, twin, cut
	Net      int    // per request
	NetKinds [12]int
	TgtBad   int    // per target request
	Fault    [6]int // none, read, write, stat, read-only, crash
	PowerOff int    // power loss after a crash (else at the end of a session)
	Skew     int
	Jump     int
	Offline  int
	NoCache  int
	Limits   int // tight limits
	Pad      int // documents padded to just around the limit
	Lookups  int // at most
	Download int // per successful lookup
	Prefix   int // prefixing disabled
	CacheSet int // target destinations prepared with (damaged) copies
	Relaxed  bool

	// several processes
	Procs     int // at most
	Pubs      int // publications at most
	Publish   int // the repository changes while they run
	Abort     int // the publisher dies half-way
	Unordered int // files are put in place in any order
	Harsh     int // old files vanish, keys are withdrawn
	Crash     int

	// several repositories
	Hostile int // names and map files
	Down    int // a repository is unreachable
	Cross   int // answers or caches of other repositories
}

var Profiles = map[string][]*Profile{}

func reg(p *Profile) {
	if p.Name == "" {
		p.Name = p.Prop
	}
	Profiles[p.Prop] = append(Profiles[p.Prop], p)
}
