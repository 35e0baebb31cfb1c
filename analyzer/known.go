package main

import (
	"bufio"
	"os"
	"strings"
)

// Known is a finding that is listed in known-findings.txt and still present.
type Known struct {
	Property  string `json:"property"`
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	What      string `json:"what"`
}

type knownList []Known

// loadKnown reads lines "finding: property=<id> rule=<rule> construct=<construct> :: <what fails>".
// Lines starting with "fixed:" are history and suppress nothing.
func loadKnown(path string) knownList {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out knownList
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(l, "finding: "), " :: ", 4)
		if len(parts) != 4 {
			continue
		}
		out = append(out, Known{strings.TrimPrefix(parts[0], "property="), parts[1], parts[2], parts[3]})
	}
	return out
}

func (k knownList) match(id string, v Violation) *Known {
	for i := range k {
		if k[i].Property == id && k[i].Rule == v.Rule && k[i].Construct == v.Construct {
			return &k[i]
		}
	}
	return nil
}
