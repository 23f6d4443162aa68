package sim

// base is a mild history: everything the profiles build on.
func base(prop string) *Profile {
	return &Profile{Prop: prop, Scen: scenClient, Deleg: 3, ShortLife: 60, ToggleCS: true, Odd: 80,
		Rounds: 4, Evolve: 600, Rotate: 220, MaxRot: 3, RotOnline: 40, Advance: 120, NearExpiry: 300,
		Damage: 60, WipeCache: 80, Repeat: 100,
		Serve: [4]int{6, 1, 1, 1}, Attack: [8]int{2, 1, 1, 1, 1, 1, 0},
		Net: 20, TgtBad: 60, Fault: [6]int{12, 1, 1, 0, 0, 1}, PowerOff: 300, Skew: 30, Jump: 30,
		Offline: 40, NoCache: 40, Limits: 40, Pad: 10, Lookups: 3, Download: 350, Prefix: 30, CacheSet: 30}
}

func with(prop, name string, f func(p *Profile)) {
	p := base(prop)
	p.Name = name
	f(p)
	reg(p)
}

func init() {
	with("P01", "signatures", func(p *Profile) {
		p.Set = 200
		p.Serve, p.Attack = [4]int{2, 1, 6, 2}, [8]int{8, 1, 1, 0, 2, 0, 1}
		p.Rotate, p.Damage, p.Deleg, p.Tall, p.BadRoot = 300, 150, 4, 150, 50
	})
	with("P01", "forged cache", func(p *Profile) {
		p.Serve, p.Attack = [4]int{3, 1, 4, 3}, [8]int{8, 1, 1, 0, 1, 0, 0}
		p.Rotate, p.RotOnline, p.Damage, p.Offline, p.Tall = 300, 200, 600, 150, 100
	})
	with("P02", "root chain", func(p *Profile) {
		p.Set = 200
		p.Serve, p.Attack = [4]int{3, 1, 6, 1}, [8]int{0, 8, 0, 0, 0, 0, 0}
		p.Rotate, p.MaxRot, p.Net, p.ShortLife, p.Deleg, p.Lookups, p.BadRoot = 700, 5, 60, 250, 1, 1, 60
	})
	with("P02", "root chain and faults", func(p *Profile) {
		p.Serve, p.Attack = [4]int{4, 1, 3, 1}, [8]int{0, 8, 0, 0, 0, 1, 0}
		p.Rotate, p.MaxRot, p.Net, p.Limits, p.Deleg, p.Lookups, p.Damage = 700, 6, 150, 400, 1, 1, 200
		p.Fault = [6]int{5, 2, 2, 0, 1, 3}
	})
	with("P03", "replay", func(p *Profile) {
		p.Set = 200
		p.Serve, p.Attack = [4]int{2, 5, 3, 4}, [8]int{0, 0, 8, 0, 1, 0, 0}
		p.Rounds, p.Evolve, p.Rotate, p.RotOnline, p.Damage, p.Advance = 6, 800, 120, 120, 0, 350
		p.ShortLife, p.NearExpiry = 250, 500
	})
	with("P03", "replay and crashes", func(p *Profile) {
		p.Serve, p.Attack = [4]int{3, 5, 2, 3}, [8]int{0, 0, 8, 1, 1, 0, 0}
		p.Rounds, p.Evolve, p.Rotate, p.RotOnline, p.Damage, p.PowerOff, p.Net = 6, 800, 80, 80, 0, 100, 60
		p.Fault = [6]int{5, 1, 3, 0, 1, 4}
	})
	with("P04", "expiry", func(p *Profile) {
		p.Set = 200
		p.Serve, p.Attack = [4]int{6, 2, 3, 2}, [8]int{0, 0, 0, 8, 0, 0, 0}
		p.ShortLife, p.Advance, p.NearExpiry, p.Skew, p.Jump, p.Offline, p.Net = 700, 700, 700, 200, 300, 200, 60
	})
	with("P05", "mix and match", func(p *Profile) {
		p.Set = 200
		p.Serve, p.Attack = [4]int{2, 2, 5, 6}, [8]int{1, 0, 8, 0, 5, 0, 0}
		p.Rounds, p.Evolve, p.Damage, p.Offline = 5, 800, 250, 100
	})
	with("P06", "targets", func(p *Profile) {
		p.TgtBad, p.Download, p.CacheSet, p.Lookups, p.Prefix, p.Net, p.Odd = 350, 1000, 500, 4, 200, 40, 200
	})
	with("P06", "targets and faults", func(p *Profile) {
		p.TgtBad, p.Download, p.CacheSet, p.Lookups, p.Prefix, p.Net, p.NoCache = 200, 1000, 500, 4, 200, 120, 200
		p.Fault = [6]int{4, 2, 6, 1, 1, 1}
	})
	with("P07", "delegations", func(p *Profile) {
		p.Deleg, p.Lookups, p.Evolve, p.Download, p.Odd, p.Tall = 8, 7, 850, 80, 150, 40
		p.Serve, p.Attack = [4]int{5, 1, 3, 1}, [8]int{1, 0, 5, 1, 1, 0, 1}
	})
	with("P07", "delegations and limits", func(p *Profile) {
		p.Deleg, p.Lookups, p.Evolve, p.Download, p.Limits, p.Net = 9, 7, 850, 80, 300, 60
	})
	with("P08", "crash", func(p *Profile) {
		p.Fault, p.PowerOff, p.Rotate, p.Evolve, p.Download = [6]int{1, 0, 1, 0, 0, 10}, 700, 400, 800, 150
		p.Serve, p.Damage, p.Offline, p.NoCache = [4]int{8, 1, 1, 1}, 0, 0, 0
	})
	with("P08", "torn writes", func(p *Profile) {
		p.Fault, p.PowerOff, p.Rotate, p.Evolve, p.Download = [6]int{2, 0, 10, 1, 1, 3}, 500, 400, 800, 150
		p.Serve, p.Damage, p.Offline, p.NoCache, p.Net = [4]int{8, 1, 1, 1}, 30, 0, 0, 60
	})
	with("P09", "recovery", func(p *Profile) {
		p.Final = true
		p.Serve, p.Attack = [4]int{5, 2, 3, 2}, [8]int{2, 2, 1, 2, 2, 2, 1}
		p.Fault, p.PowerOff, p.Damage, p.DamageMal, p.Net, p.Advance, p.Skew = [6]int{5, 1, 3, 1, 1, 4}, 500, 300, 300, 120, 300, 100
	})
	with("P09", "recovery from damage", func(p *Profile) {
		p.Final = true
		p.Rounds = 2
		p.Fault, p.PowerOff, p.Damage, p.DamageMal, p.Net, p.Advance = [6]int{3, 1, 3, 1, 1, 5}, 600, 800, 300, 200, 300
	})
	with("P10", "disk", func(p *Profile) {
		p.Fault, p.Download, p.Net, p.Rotate, p.Evolve = [6]int{1, 3, 10, 3, 3, 0}, 600, 20, 400, 800
		p.Serve, p.Damage = [4]int{8, 1, 1, 1}, 30
	})
	with("P10", "network", func(p *Profile) {
		p.Fault, p.Download, p.Net, p.Rotate, p.Evolve = [6]int{8, 1, 1, 0, 0, 0}, 600, 250, 400, 800
		p.NetKinds = [12]int{0, 12, 3, 0, 0, 0, 0, 6, 4, 2, 2}
		p.Serve, p.Damage = [4]int{8, 1, 1, 1}, 60
	})
	with("P11", "malformed", func(p *Profile) {
		p.Serve, p.Attack = [4]int{1, 1, 9, 1}, [8]int{0, 0, 1, 0, 1, 12, 0}
		p.Damage, p.DamageMal, p.Deleg, p.Odd, p.BadRoot = 150, 800, 3, 60, 120
	})
	with("P11", "malformed cache", func(p *Profile) {
		p.Serve, p.Attack = [4]int{3, 1, 4, 1}, [8]int{0, 0, 1, 0, 1, 12, 0}
		p.Damage, p.DamageMal, p.WipeCache, p.Offline, p.CacheSet = 850, 900, 0, 150, 150
	})
	with("P12", "limits", func(p *Profile) {
		p.Limits, p.Pad, p.Deleg, p.Lookups, p.Rotate, p.MaxRot, p.TgtBad, p.Download = 700, 250, 7, 4, 400, 6, 250, 500
		p.Serve = [4]int{8, 1, 1, 1}
	})
	with("P12", "slow and endless servers", func(p *Profile) {
		p.Net, p.NetKinds = 200, [12]int{2, 0, 0, 8, 8, 8, 8, 1, 3, 3, 1}
		p.Limits, p.Pad, p.Deleg, p.TgtBad, p.Download, p.Rotate, p.MaxRot = 300, 100, 4, 100, 500, 300, 4
		p.Serve = [4]int{8, 1, 1, 1}
	})
	with("P13", "names", func(p *Profile) {
		p.Odd, p.Deleg, p.Lookups, p.Download, p.Evolve, p.CacheSet, p.Repeat = 1000, 7, 5, 700, 800, 200, 300
		p.Serve, p.Attack = [4]int{7, 1, 1, 1}, [8]int{1, 0, 1, 0, 1, 1, 0}
	})
	with("P14", "offline", func(p *Profile) {
		p.Offline, p.Damage, p.Deleg, p.Lookups, p.Advance, p.ShortLife = 600, 200, 4, 4, 300, 200
		p.Serve = [4]int{8, 1, 1, 1}
	})
	with("P14", "no cache", func(p *Profile) {
		p.NoCache, p.Damage, p.CacheSet, p.Lookups, p.Download = 700, 100, 200, 4, 600
		p.Serve, p.Fault = [4]int{8, 1, 1, 1}, [6]int{6, 1, 1, 0, 2, 1}
	})
	with("P19", "reuse", func(p *Profile) {
		p.Repeat, p.Deleg, p.Lookups, p.Download, p.Rounds = 1000, 5, 4, 500, 5
		p.Serve, p.Net, p.Fault, p.Damage = [4]int{10, 1, 1, 1}, 10, [6]int{12, 1, 1, 0, 0, 1}, 100
	})
}

func init() {
	multi := func(prop, name string, f func(p *Profile)) {
		with(prop, name, func(p *Profile) {
			p.Scen = scenMulti
			p.Deleg, p.Odd, p.Offline, p.Limits, p.Prefix, p.Skew, p.Jump = 2, 0, 0, 0, 0, 0, 0
			p.Net, p.Pad, p.TgtBad, p.Lookups, p.Down = 15, 0, 60, 4, 80
			p.Fault, p.Cross = [6]int{0, 0, 0, 0, 0, 30}, 40
			f(p)
		})
	}
	multi("P15", "map", func(p *Profile) { p.Download = 150 })
	multi("P15", "map, attacked repositories", func(p *Profile) {
		p.Download, p.Down = 150, 250
		p.Serve, p.Attack = [4]int{4, 2, 4, 2}, [8]int{3, 1, 4, 2, 2, 1, 1}
	})
	multi("P11", "map files", func(p *Profile) {
		p.Hostile, p.Damage, p.DamageMal, p.Down = 900, 500, 700, 150
		p.Serve, p.Attack = [4]int{1, 1, 9, 1}, [8]int{0, 0, 1, 0, 1, 12, 0}
	})
	multi("P16", "isolation", func(p *Profile) {
		p.Hostile, p.Download, p.Cross, p.Damage, p.CacheSet = 500, 400, 300, 300, 100
		p.Serve, p.Attack = [4]int{4, 2, 4, 2}, [8]int{3, 1, 4, 2, 2, 1, 1}
	})
	multi("P16", "failover", func(p *Profile) {
		p.Download, p.Down, p.TgtBad, p.CacheSet, p.NoCache = 900, 200, 350, 250, 100
		p.Serve = [4]int{8, 1, 1, 1}
	})

	conc := func(prop, name string, scen func(*Run, *Profile), f func(p *Profile)) {
		p := &Profile{Prop: prop, Name: name, Scen: scen, Deleg: 4, Rounds: 2, Lookups: 3, Download: 700, MaxRot: 2, Pubs: 3, Procs: 2}
		f(p)
		reg(p)
	}
	conc("P17", "publishing", scenPublish, func(p *Profile) { p.Abort = 150 })
	conc("P17", "careless publishing", scenPublish, func(p *Profile) {
		p.Harsh, p.Unordered, p.Abort, p.ToggleCS, p.Odd = 700, 300, 200, true, 200
	})
	conc("P18", "shared cache", scenShared, func(p *Profile) {
		p.Procs, p.Evolve, p.Rotate, p.Crash, p.Damage, p.Odd = 3, 700, 400, 0, 150, 150
	})
	conc("P18", "shared cache, crashes", scenShared, func(p *Profile) {
		p.Procs, p.Evolve, p.Rotate, p.Crash, p.PowerOff, p.Offline = 3, 700, 400, 400, 300, 150
	})
	conc("P18", "shared cache while publishing", scenShared, func(p *Profile) {
		p.Procs, p.Evolve, p.Rotate, p.Publish, p.Crash, p.Abort = 3, 500, 300, 1000, 100, 100
	})
	conc("P20", "publisher", scenAPI, func(p *Profile) { p.Rounds, p.Pubs, p.Fault = 4, 14, [6]int{0, 0, 150} })
	conc("P20", "publisher, faults and crashes", scenAPI, func(p *Profile) {
		p.Rounds, p.Pubs, p.Fault, p.Crash = 5, 12, [6]int{0, 0, 600}, 350
	})
}
