package simkit

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

// minimise shrinks the scenario in a helper process (which is restarted when
// a candidate kills it) while the violation class persists.
func minimise(p *Prop, raw json.RawMessage, class string, secs int) json.RawMessage {
	if p.NoShrink || bytes.Contains(raw, []byte(`"_hist"`)) {
		return raw
	}
	if strings.HasPrefix(class, "process-crash") {
		deadline := time.Now().Add(time.Duration(secs) * time.Second)
		return shrink(raw, deadline, func(c json.RawMessage) bool {
			o, err := runOne(p, c)
			return err == nil && o.Fail != nil && o.Fail.Class == class
		})
	}
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	// slow but always faithful when the quick in-process shrink fails
	for tries := 0; tries < 4 && time.Now().Before(deadline); tries++ {
		in, _ := json.Marshal(map[string]interface{}{"class": class, "scenario": raw})
		left := int(time.Until(deadline).Seconds()) + 1
		c := selfCmd("shrink", "-prop", p.ID, "-secs", fmt.Sprint(left))
		c.Stdin = bytes.NewReader(in)
		var out bytes.Buffer
		c.Stdout = &out
		c.Stderr = nil
		if err := c.Start(); err != nil {
			return raw
		}
		t := time.AfterFunc(time.Duration(left+15)*time.Second, func() { c.Process.Kill() })
		err := c.Wait()
		t.Stop()
		best := raw
		for _, l := range bytes.Split(out.Bytes(), []byte("\n")) {
			if len(l) == 0 {
				continue
			}
			var v json.RawMessage
			if json.Unmarshal(l, &v) == nil {
				best = v
			}
		}
		raw = best
		if err == nil {
			break
		}
	}
	return raw
}

func shrinkMain(p *Prop, in []byte, secs int) {
	var req struct {
		Class    string          `json:"class"`
		Scenario json.RawMessage `json:"scenario"`
	}
	if err := json.Unmarshal(in, &req); err != nil {
		dieErr("%v", err)
	}
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	best := req.Scenario
	shrink(best, deadline, func(c json.RawMessage) bool {
		o := execute(p, c)
		ok := o.Err == "" && o.Fail != nil && o.Fail.Class == req.Class
		if ok {
			emit(c)
		}
		if o.Poison {
			os.Exit(3)
		}
		return ok
	})
}

// shrink is a generic JSON minimiser: it deletes array elements, zeroes and
// halves numbers, clears and cuts strings, until nothing helps.
func shrink(raw json.RawMessage, deadline time.Time, test func(json.RawMessage) bool) json.RawMessage {
	dec := json.NewDecoder(bytes.NewReader(raw))
	dec.UseNumber()
	var root interface{}
	if err := dec.Decode(&root); err != nil {
		return raw
	}
	best := raw
	tried := map[uint64]bool{}
	try := func() bool {
		if time.Now().After(deadline) {
			return false
		}
		b, err := json.Marshal(root)
		if err != nil {
			return false
		}
		h := HashStr(0, string(b))
		if tried[h] || bytes.Equal(b, best) {
			return false
		}
		tried[h] = true
		if test(b) {
			best = b
			return true
		}
		return false
	}
	var visit func(get func() interface{}, set func(interface{})) bool
	visit = func(get func() interface{}, set func(interface{})) bool {
		changed := false
		switch v := get().(type) {
		case []interface{}:
			cur := v
			for size := len(cur); size >= 1; size /= 2 {
				for i := 0; i+size <= len(cur); {
					cand := append(append([]interface{}{}, cur[:i]...), cur[i+size:]...)
					set(cand)
					if try() {
						cur = cand
						changed = true
					} else {
						set(cur)
						i += size
					}
					if time.Now().After(deadline) {
						return changed
					}
				}
			}
			for i := range cur {
				i := i
				if visit(func() interface{} { return cur[i] }, func(x interface{}) { cur[i] = x }) {
					changed = true
				}
			}
		case map[string]interface{}:
			keys := make([]string, 0, len(v))
			for k := range v {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				k := k
				old := v[k]
				if strings.HasPrefix(k, "_") {
					continue
				}
				delete(v, k)
				if try() {
					changed = true
					continue
				}
				v[k] = old
				if visit(func() interface{} { return v[k] }, func(x interface{}) { v[k] = x }) {
					changed = true
				}
			}
		case string:
			cur := v
			if cur == "" {
				return false
			}
			cut := func(cand string) bool {
				set(cand)
				if try() {
					cur = cand
					changed = true
					return true
				}
				set(cur)
				return false
			}
			if cut("") {
				return true
			}
			if strings.Contains(cur, "\n") {
				for size := strings.Count(cur, "\n") + 1; size >= 1; size /= 2 {
					for i := 0; ; {
						lines := strings.SplitAfter(cur, "\n")
						if i+size > len(lines) {
							break
						}
						cand := strings.Join(lines[:i], "") + strings.Join(lines[i+size:], "")
						if !cut(cand) {
							i += size
						}
						if time.Now().After(deadline) {
							return changed
						}
					}
				}
			}
			for size := len(cur) / 2; size >= 1; size /= 2 {
				for i := 0; i+size <= len(cur); {
					if !cut(cur[:i] + cur[i+size:]) {
						i += size
					}
					if time.Now().After(deadline) {
						return changed
					}
				}
				if len(cur) > 300 && size < len(cur)/16 {
					break
				}
			}
		case json.Number:
			f, err := v.Float64()
			if err != nil || f == 0 {
				return false
			}
			cur := v
			cands := []string{"0", "1"}
			if n, err := v.Int64(); err == nil {
				cands = append(cands, fmt.Sprint(n/2), fmt.Sprint(n-1))
			}
			for _, c := range cands {
				if json.Number(c) == cur {
					continue
				}
				set(json.Number(c))
				if try() {
					cur = json.Number(c)
					changed = true
					if c == "0" {
						return true
					}
				} else {
					set(cur)
				}
			}
		case bool:
			if v {
				set(false)
				if try() {
					return true
				}
				set(true)
			}
		}
		return changed
	}
	for round := 0; round < 6; round++ {
		if !visit(func() interface{} { return root }, func(x interface{}) { root = x }) || time.Now().After(deadline) {
			break
		}
	}
	return best
}
