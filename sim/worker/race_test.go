//go:build race

package worker

import (
	"os"
	"regexp"
	"runtime"
	"strings"

	"verif.local/sim/runner"
	"verif.local/sim/simrt"
	"verif.local/sim/world"
)

var raceSeen int
var raceOff int64

func init() { runner.MarkRaces = markRaces }

var frameRE = regexp.MustCompile(`(?m)^  (\S+)\(`)
var accessRE = regexp.MustCompile(`(?m)^(?:Read|Write|Previous read|Previous write|Atomic read|Atomic write|Previous atomic \w+|Asynchronous .*) at .*$`)

// ours says whether both accesses of a report were made by the code under test.
func ours(rep string) bool {
	acc := accessRE.FindAllStringIndex(rep, -1)
	if len(acc) < 2 {
		return false
	}
	for _, a := range acc {
		end := len(rep)
		if k := strings.Index(rep[a[1]:], "\n\n"); k >= 0 {
			end = a[1] + k
		}
		in := false
		for _, m := range frameRE.FindAllStringSubmatch(rep[a[1]:end], -1) {
			if strings.HasPrefix(m[1], "github.com/mindstand/go-bolt") || strings.HasPrefix(m[1], "github.com/jolestar/go-commons-pool") {
				in = true
			}
		}
		if !in {
			return false
		}
	}
	return true
}

// markRaces reads the reports the detector has printed since the last call.
func markRaces() []world.Violation {
	n := runtime.RaceErrors()
	if n == raceSeen {
		return nil
	}
	raceSeen = n
	f, err := os.Open("/proc/self/fd/2")
	if err != nil {
		return []world.Violation{{Class: "harness", Msg: "cannot read the race reports: " + err.Error()}}
	}
	defer f.Close()
	st, _ := f.Stat()
	if st.Size() <= raceOff {
		return nil
	}
	b := make([]byte, st.Size()-raceOff)
	f.ReadAt(b, raceOff)
	raceOff = st.Size()
	var vs []world.Violation
	for _, rep := range strings.Split(string(b), "==================\n") {
		if !strings.HasPrefix(rep, "WARNING: DATA RACE\n") {
			continue
		}
		if !ours(rep) {
			simrt.Current().Probe("harness-race-report")
			if os.Getenv("SIM_RACEDEBUG") != "" {
				vs = append(vs, world.Violation{Class: "harness", Msg: rep})
			}
			continue
		}
		vs = append(vs, world.Violation{Class: "race", Msg: "data race:\n" + strings.TrimPrefix(rep, "WARNING: DATA RACE\n")})
	}
	return vs
}
