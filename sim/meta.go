package sim

import "fmt"

// Mix derives one run's seed.
func Mix(a, b, c uint64) uint64 { return mix(a, b, c) }

var RealParts = []string{
	"metadata/updater, metadata/trustedmetadata, metadata, metadata/config, metadata/fetcher, metadata/multirepo of /repo, unmodified",
	"securesystemslib canonical JSON, sigstore signature verification, the Go standard library's crypto, encoding/json, os, net/http client logic (redirects, timeouts, body handling)",
}

var StubParts = []string{
	"the kernel's file system calls (package syscall's entry points are redirected to an in-memory file system with faults, crashes and power loss)",
	"the network below http.Transport.RoundTrip (answers, delays, cuts, stalls are drawn by the simulator); in half of the sessions also the Fetcher interface",
	"the clock (testing/synctest bubble plus a per-process skew), crypto/rand and math/rand (seeded), goroutine scheduling between processes (one baton, seeded)",
	"repository servers, publishers and attackers are harness code, as is the reference client the results are compared with",
}

var Assumptions = []string{
	"signatures of the crypto libraries are unforgeable; the harness never finds collisions",
	"rename within one file system is atomic; fsync makes a file's data and all earlier directory changes durable; a power loss keeps a prefix of the directory changes and any of several partial states of unsynced data",
	"one simulated process runs at a time; context switches happen at system calls and requests",
}

// KnownFails runs the scenario of a recorded finding and tells whether it still fails.
func KnownFails(id string) (bool, error) {
	f := findings[id]
	if f == nil {
		return false, fmt.Errorf("no such scenario")
	}
	return f()
}

var findings = map[string]func() (bool, error){}
