package main

import (
	"fmt"
	"io/ioutil"
	"sort"
	"strings"
)

// knownFindings reads the committed list of findings: id -> what fails.
func knownFindings(verif, prop string) map[string]string {
	out := map[string]string{}
	b, err := ioutil.ReadFile(verif + "/KNOWN_FINDINGS.txt")
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "finding:" || prop != "" && f[1] != "property="+prop || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		out[strings.TrimPrefix(f[2], "id=")] = strings.Join(f[3:], " ")
	}
	return out
}

// knownLines are the lines for the listed findings that this run met again.
func knownLines(verif, prop string, results []*workerResult) (lines []string) {
	hits := map[string]int{}
	for _, r := range results {
		if r != nil {
			for k, n := range r.Known {
				hits[k] += n
			}
		}
	}
	for id, text := range knownFindings(verif, prop) {
		if hits[id] > 0 {
			lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", prop, id, text))
		}
	}
	sort.Strings(lines)
	return
}
