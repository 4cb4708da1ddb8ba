package main

import (
	"bytes"
	"encoding/json"
	"strings"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/linter"
	"github.com/drone/drone-yaml/yaml/pretty"
	"github.com/drone/drone-yaml/yaml/signer"
	"verif.local/sim/simkit"
)

// result of a command on some content, according to the library.
type result struct {
	ok   bool
	outs [3]string
	text string // what --save stores
}

type memoKey struct{ op, args, text string }

var memo = map[memoKey]result{}

func extra(p *Proc, name string) (string, bool) {
	for _, a := range p.Extra {
		if a == name {
			return "", true
		}
		if strings.HasPrefix(a, name+"=") {
			return a[len(name)+1:], true
		}
	}
	return "", false
}

// expect computes what a command does with a content. Compile is not
// covered: its identifiers are random.
func expect(p *Proc, text string) (r result) {
	k := memoKey{p.Op, strings.Join(p.args(), "\x00"), text}
	if m, ok := memo[k]; ok {
		return m
	}
	if len(memo) > 4000 {
		memo = map[memoKey]result{}
	}
	defer func() {
		if recover() != nil {
			r = result{}
		}
		memo[k] = r
	}()
	switch p.Op {
	case "fmt":
		m, err := yaml.Parse(strings.NewReader(text))
		if err != nil {
			return
		}
		var b bytes.Buffer
		pretty.Print(&b, m)
		r.ok, r.text = true, b.String()
		if !p.Save {
			r.outs[2] = r.text
		}
	case "convert":
		m := converter.Metadata{Filename: p.Path}
		if p.Path == "" {
			m.Filename = ".drone.yml"
		}
		m.URL, _ = extra(p, "--addr")
		b, err := converter.Convert([]byte(text), m)
		if err != nil {
			return
		}
		r.ok, r.text = true, string(b)
		if !p.Save {
			r.outs[2] = r.text
		}
	case "lint":
		m, err := yaml.Parse(strings.NewReader(text))
		if err != nil {
			return
		}
		_, priv := extra(p, "--privileged")
		for _, x := range m.Resources {
			if linter.Lint(x, priv) != nil {
				return
			}
		}
		r.ok = true
	case "sign":
		if p.Save {
			b, err := signer.SignUpdate([]byte(text), signer.KeyString(p.Key))
			if err != nil {
				return
			}
			r.ok, r.text = true, string(b)
			return
		}
		h, err := signer.Sign([]byte(text), signer.KeyString(p.Key))
		if err != nil {
			return
		}
		r.ok = true
		r.outs[1] = h + "\n"
	case "verify":
		ok, err := signer.Verify([]byte(text), signer.KeyString(p.Key))
		if err != nil || !ok {
			return
		}
		r.ok = true
		r.outs[1] = "success: yaml signature verified\n"
	}
	return
}

// undisturbed runs one command of a scenario alone, without faults.
func undisturbed(sc *Scen, i int, files []File) (*sproc, *disk, string) {
	b, _ := json.Marshal(sc)
	var c Scen
	json.Unmarshal(b, &c)
	c.Files = files
	c.Faults = nil
	for j := range c.Procs {
		c.Procs[j].Phase, c.Procs[j].Free = 0, 0
		if j != i {
			c.Procs[j].Phase = -1
		}
	}
	var o simkit.Outcome
	d := c.disk()
	s := newSim(&c, d, &o)
	s.run()
	if o.Fail != nil {
		return s.procs[i], d, o.Fail.Class + ": " + o.Fail.Detail
	}
	return s.procs[i], d, o.Err
}
