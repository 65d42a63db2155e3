package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

// The race build: the same simulator and schedules, with Go's race detector watching the code under test. The
// simulator's own hand-overs are invisible to it, so two accesses by different threads are ordered only by
// synchronisation of the code itself, whatever the schedule happened to be.

func raceBin() string {
	self, err := os.Executable()
	if err != nil {
		return ""
	}
	f := filepath.Join(filepath.Dir(self), "mksim-race")
	if _, err := os.Stat(f); err != nil {
		return ""
	}
	return f
}

// raceEnv is the environment of a process of the race build that logs to files starting with pre.
func raceEnv(pre string) []string {
	return append(os.Environ(), "GORACE=log_path="+pre+" history_size=5 atexit_sleep_ms=0 exitcode=0", "MKSIM_RACELOG="+pre)
}

var raceSeen int

// newRaces reads the reports written since the last call.
func newRaces() (out []Viol) {
	pre := os.Getenv("MKSIM_RACELOG")
	if pre == "" {
		return nil
	}
	b, err := os.ReadFile(pre + "." + strconv.Itoa(os.Getpid()))
	if err != nil || len(b) <= raceSeen {
		return nil
	}
	txt := string(b[raceSeen:])
	raceSeen = len(b)
	seen := map[string]bool{}
	for _, rep := range strings.Split(txt, "WARNING: DATA RACE")[1:] {
		var at []string
		ok := true
		for _, sec := range strings.Split(rep, "\n\n") {
			sec = strings.TrimLeft(sec, "\n")
			i := strings.IndexByte(sec, '\n')
			if i < 0 || !strings.Contains(sec[:i], " at 0x") {
				continue
			}
			f := libFrame(sec[i+1:])
			if f == "" {
				ok = false
			}
			at = append(at, f)
		}
		if !ok || len(at) != 2 {
			continue
		}
		if at[1] < at[0] {
			at[0], at[1] = at[1], at[0]
		}
		k := at[0] + " / " + at[1]
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, Viol{Class: "race", Op: k, Msg: "two threads access the same memory without synchronisation, at least one writing: " + k})
	}
	return out
}

// libFrame names the function of the code under test (or of lattigo) an access happened in; "" if it is the simulator's.
func libFrame(sec string) string {
	for _, l := range strings.Split(sec, "\n") {
		if !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "   ") {
			continue
		}
		f := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(f, "mksim/simhook.Keys"), strings.HasPrefix(f, "mksim/simhook.Live"), strings.HasPrefix(f, "mksim/simhook.Pairs"):
			continue
		case strings.HasPrefix(f, "mksim/"), strings.HasPrefix(f, "main."):
			return ""
		case strings.HasPrefix(f, "mk-lattigo/"), strings.HasPrefix(f, "github.com/ldsec/lattigo/"):
			f = strings.TrimSuffix(f, "()")
			if i := strings.Index(f, "["); i >= 0 {
				f = f[:i]
			}
			return f[strings.LastIndexByte(f, '/')+1:]
		}
	}
	return ""
}

// raceReplay performs a scenario in a process of the race build.
func raceReplay(file, result string) (string, int) {
	bin := raceBin()
	if bin == "" {
		return "there is no race build of the simulator\n", 2
	}
	d, err := os.MkdirTemp("", "mksim-race")
	if err != nil {
		return err.Error(), 2
	}
	defer os.RemoveAll(d)
	cmd := exec.Command(bin, "replay", file)
	cmd.Env = append(raceEnv(filepath.Join(d, "log")), "MKSIM_CHILD=1")
	if result != "" {
		cmd.Env = append(cmd.Env, "MKSIM_RESULT="+result)
	}
	o, err := cmd.CombinedOutput()
	if ee, ok := err.(*exec.ExitError); ok {
		return string(o), ee.ExitCode()
	}
	return string(o), 0
}
