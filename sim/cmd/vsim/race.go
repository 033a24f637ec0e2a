//go:build race

package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"

	"verifsim/harness"
)

const raceEnabled = true

func init() { harness.RaceCheck = raceCheck }

var (
	raceSeen int
	raceOff  int64
)

func raceEnv() []string {
	return []string{"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=2 log_path=" + raceLog()}
}

func raceLog() string {
	if d := os.Getenv("VSIM_RACE_LOG"); d != "" {
		return d
	}
	return fmt.Sprintf("%s/vsim-race", os.TempDir())
}

// raceCheck returns the first new race report whose two accesses are both
// made by code of the repository.
func raceCheck() string {
	n := runtime.RaceErrors()
	if n == raceSeen {
		return ""
	}
	raceSeen = n
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", raceLog(), os.Getpid()))
	if err != nil || int64(len(b)) <= raceOff {
		return ""
	}
	s := string(b[raceOff:])
	raceOff = int64(len(b))
	for _, rep := range strings.Split(s, "WARNING: DATA RACE")[1:] {
		if strings.Contains(rep, "==================") {
			rep = strings.SplitN(rep, "==================", 2)[0]
		}
		parts := strings.SplitN(rep, "\nPrevious ", 2)
		if len(parts) != 2 {
			continue
		}
		second := strings.SplitN(parts[1], "\n\n", 2)[0]
		if inRepo(parts[0]) && inRepo(second) {
			return strings.TrimSpace(rep)
		}
	}
	return ""
}

// inRepo: the innermost frame that belongs neither to the Go distribution nor
// to another module is in the repository.
func inRepo(stack string) bool {
	for _, l := range strings.Split(stack, "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "/") {
			continue
		}
		if strings.Contains(l, "/go1.") && strings.Contains(l, "/src/") || strings.Contains(l, "/pkg/mod/") {
			continue
		}
		return strings.HasPrefix(l, "/repo/")
	}
	return false
}
