package eng

import (
	"encoding/json"
	"io/ioutil"
	"path/filepath"
	"strings"
)

// Known findings: lines "known: property=<id> sig=<signature> replay=<file under /verif> <what fails>" of
// /verif/known_findings.txt. Lines "fixed: ..." suppress nothing.
type Known struct {
	Property, Sig, Replay, Text string
}
type KnownSet []Known

func LoadKnown() KnownSet {
	bz, err := ioutil.ReadFile(filepath.Join(Root(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var ks KnownSet
	for _, l := range strings.Split(string(bz), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 4)
		if len(f) < 4 {
			continue
		}
		ks = append(ks, Known{
			strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "sig="),
			strings.TrimPrefix(f[2], "replay="), f[3],
		})
	}
	return ks
}

func (ks KnownSet) Match(id, sig string) bool {
	for _, k := range ks {
		if k.Property == id && k.Sig == sig {
			return true
		}
	}
	return false
}

func (ks KnownSet) For(id string) (r []Known) {
	for _, k := range ks {
		if k.Property == id {
			r = append(r, k)
		}
	}
	return
}

func (k Known) Reproduce(p *Property) *Violation {
	bz, err := ioutil.ReadFile(filepath.Join(Root(), k.Replay))
	if err != nil {
		return nil
	}
	var c Case
	if json.Unmarshal(bz, &c) != nil || p.Suite(c.Suite) == nil {
		return nil
	}
	v, herr := Exec(p.Suite(c.Suite), &c, &Stats{})
	if herr != nil || v == nil || v.Sig != k.Sig {
		return nil
	}
	return v
}
