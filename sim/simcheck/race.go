package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"verifsim/simrt"
)

// The race detector writes its reports to a file of ours.

func raceLogBase() string { return os.Getenv("SIMRACE_LOG") }

// raceSetup runs the program again with the options of the race detector.
func raceSetup() (cleanup func()) {
	if !simrt.RaceEnabled || raceLogBase() != "" {
		return func() {}
	}
	dir, err := os.MkdirTemp("", "simrace")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	base := filepath.Join(dir, "log")
	env := append(os.Environ(), "SIMRACE_LOG="+base,
		"GORACE=log_path="+base+" exitcode=0 halt_on_error=0 history_size=4 suppress_equal_stacks=0 suppress_equal_addresses=0 strip_path_prefix=")
	exe, err := os.Executable()
	if err == nil {
		pid, e := syscall.ForkExec(exe, os.Args, &syscall.ProcAttr{Env: env, Files: []uintptr{0, 1, 2}})
		err = e
		if err == nil {
			var ws syscall.WaitStatus
			for {
				if _, err = syscall.Wait4(pid, &ws, 0, nil); err != syscall.EINTR {
					break
				}
			}
			os.RemoveAll(dir)
			if err == nil && ws.Exited() {
				os.Exit(ws.ExitStatus())
			}
			fmt.Fprintln(os.Stderr, "the race checker died", ws.Signal())
			os.Exit(2)
		}
	}
	fmt.Fprintln(os.Stderr, err)
	os.Exit(3)
	return nil
}

var raceOff int64

// newRaces returns the races reported since the last call.
func newRaces(procs int) (races []string, raw string) {
	f := fmt.Sprintf("%s.%d", raceLogBase(), os.Getpid())
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, ""
	}
	if int64(len(b)) < raceOff {
		raceOff = 0
	}
	raw = string(b[raceOff:])
	raceOff = int64(len(b))
	if raceOff > 4<<20 {
		os.Truncate(f, 0) // the log is opened for appending or holes do no harm
	}
	seen := map[string]bool{}
	for _, r := range strings.Split(raw, "WARNING: DATA RACE")[1:] {
		v := raceOf(r, procs)
		if v != "" && !seen[v] {
			seen[v] = true
			races = append(races, v)
		}
	}
	sort.Strings(races)
	return
}

// raceOf names the two accesses of a report; "" if one of them is not by code
// under test (or the application).
func raceOf(rep string, procs int) string {
	var acc []string
	on := ""
	lines := strings.Split(rep, "\n")
	for i := 0; i < len(lines); i++ {
		l := strings.ToLower(lines[i])
		if strings.HasPrefix(l, "  ") || !strings.Contains(l, " by ") {
			continue
		}
		kind := ""
		switch {
		case strings.Contains(l, "write at"):
			kind = "write"
		case strings.Contains(l, "read at"):
			kind = "read"
		default:
			continue
		}
		if on == "" {
			var a uint64
			fmt.Sscanf(l[strings.Index(l, " at 0x")+4:], "0x%x", &a)
			if on = simrt.GlobalAt(a); on != "" {
				if procs > 1 {
					return "" // every process has its own, at the same address
				}
				on = " on " + on
			}
		}
		where := ""
		for i++; i < len(lines) && strings.HasPrefix(lines[i], "  "); i++ {
			fn := strings.TrimSuffix(strings.TrimSpace(lines[i]), "()")
			if strings.HasPrefix(lines[i], "      ") {
				continue
			}
			if w, ok := frame(fn); ok {
				where = w
				break
			}
		}
		if where == "" {
			return ""
		}
		acc = append(acc, kind+" in "+where)
	}
	if len(acc) != 2 {
		return ""
	}
	sort.Strings(acc)
	return "data race: " + acc[0] + " and " + acc[1] + on
}

// frame tells who makes an access, from the innermost frame outwards: ok when
// the frame decides, "" when the access is the harness's own.
func frame(fn string) (string, bool) {
	const mod = "github.com/teonet-go/tru"
	switch {
	case strings.HasPrefix(fn, mod+".simInit") || strings.HasPrefix(fn, mod+".simUserInit") || strings.HasPrefix(fn, mod+".init"):
		return "", true
	case strings.HasPrefix(fn, mod+".simMapKeys"):
		return "", false
	case strings.HasPrefix(fn, mod):
		return strings.TrimPrefix(fn, "github.com/teonet-go/"), true
	case strings.HasPrefix(fn, "verifsim/simrt.App"):
		return "application (buffer passed to or got from the library)", true
	case strings.HasPrefix(fn, "verifsim/simrt.raceReadRange"), strings.HasPrefix(fn, "verifsim/simrt.raceWriteRange"):
		return "", false
	case strings.HasPrefix(fn, "verifsim/"), strings.HasPrefix(fn, "main."):
		return "", true
	}
	return "", false // standard library and dependencies: look at the caller
}
