package main

import (
	"bufio"
	"os"
	"regexp"
	"strings"
)

// Known findings file, one per line:
//
//	KNOWN-FINDING: property=<id> match=/<regexp>/ <text>
//	fixed: property=<id> <commit> <text>
type knownFinding struct {
	fixed bool
	re    *regexp.Regexp
	text  string
}

func (k knownFinding) match(v string) bool { return k.re != nil && k.re.MatchString(v) }

func loadKnown(f, prop string) (r []knownFinding) {
	fh, err := os.Open(f)
	if err != nil {
		return nil
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "KNOWN-FINDING: property="+prop+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "KNOWN-FINDING: property="+prop+" ")
		k := knownFinding{text: l}
		if strings.HasPrefix(l, "match=/") {
			if i := strings.Index(l[7:], "/ "); i >= 0 {
				k.re = regexp.MustCompile(l[7 : 7+i])
				k.text = l[7+i+2:]
			}
		}
		r = append(r, k)
	}
	return
}
