package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"

	goyaml "github.com/buildkite/yaml"
	"github.com/drone/drone-yaml/yaml/signer"

	"verif.local/sim/simkit"
	"verif.local/sim/yamlgen"
)

// Corr is one storage fault.
type Corr struct {
	K string `json:"k"` // flip, drop, tear, lostline, dupline, swaplines, stale, insert, swapdocs, movesep, dropsep, addsep, wrongkey, edithmac
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	S Text   `json:"s,omitempty"`
}

// Tamper is a scenario of C12.
type Tamper struct {
	Parts []Part `json:"parts"`
	Old   Text   `json:"old"` // an earlier version signed with the same key
	Key   string `json:"key"`
	How   string `json:"how"` // signupdate or sign+writeto
	Corr  []Corr `json:"corr,omitempty"`
	VKey  string `json:"vkey,omitempty"` // key used for verification if not Key
	Seed  uint64 `json:"seed"`
}

func genC12(r *simkit.Rng, thorough bool) interface{} {
	g := &yamlgen.G{R: r}
	s := &Tamper{Seed: r.U64(), How: r.Pick("signupdate", "signupdate", "writeto")}
	s.Parts = []Part{{Text(g.Manifest()), 1}}
	if r.P(0.12) {
		n := []int{4096, 65530, 65536, 65540, 70000, 140000}[r.Intn(6)]
		s.Parts = append([]Part{{"---\nkind: secret\nname: a\ndata: ", 1}, {"y", n}, {"\n", 1}}, s.Parts...)
		if !strings.HasPrefix(string(s.Parts[3].Text), "---") {
			s.Parts[3].Text = "---\n" + s.Parts[3].Text
		}
	}
	s.Old = Text(g.Manifest())
	s.Key = strings.Repeat("k", 31) + fmt.Sprint(r.Range(1, 9)) + strings.Repeat("Z", r.Intn(40))
	switch r.Intn(12) {
	case 0:
		s.Key += strings.Repeat("Y", r.Intn(200))
	case 1:
		s.Key += r.Pick(" ", "\n", "\t", "\r\n", "=", "==", "'", "\"")
	case 2:
		s.Key = r.Pick(" ", "\n", "0x", "'", "\"", "base64:") + s.Key
	}
	n := r.Range(1, 2)
	if r.P(0.06) {
		n = 0
	}
	kinds := []string{"flip", "flip", "drop", "tear", "tear", "lostline", "dupline", "swaplines", "stale", "insert", "swapdocs", "edithmac", "edithmac", "flipline", "movesep", "dropsep", "addsep", "dropsig", "zeros", "blank", "blank", "case", "quote", "trail", "indent", "tabs", "crlf", "comment", "squeeze", "nul"}
	for i := 0; i < n; i++ {
		s.Corr = append(s.Corr, Corr{K: kinds[r.Intn(len(kinds))], A: r.Intn(1 << 20), B: r.Intn(1 << 20), S: Text(g.Word())})
	}
	if r.P(0.12) {
		s.Corr = nil
		b := []byte(s.Key)
		switch r.Intn(9) {
		case 4:
			b = bytes.TrimSpace(append([]byte(" \n"), append(b, " \n"...)...))
		case 5:
			b = append(b, r.Pick(" ", "\n", "\t", "=", "\r\n")...)
		case 6:
			b[r.Intn(len(b))] ^= 32
		case 7:
			b = bytes.ToLower(b)
		case 8:
			if len(b) > 40 {
				b[r.Range(32, len(b)-1)] ^= 1
			}
			if len(b) > 70 {
				b[r.Range(64, len(b)-1)] ^= 2
			}
		case 0:
			b[r.Intn(len(b))] ^= 1
		case 1:
			b = b[:len(b)-1]
		case 2:
			b = append(b, 'x')
		default:
			b = append([]byte("x"), b...)
		}
		s.VKey = string(b)
	}
	return s
}

func applyCorr(b, old []byte, c Corr) []byte {
	if len(b) == 0 {
		return b
	}
	lines := bytes.SplitAfter(b, []byte("\n"))
	if len(lines) > 1 && len(lines[len(lines)-1]) == 0 {
		lines = lines[:len(lines)-1]
	}
	join := func(l [][]byte) []byte { return bytes.Join(l, nil) }
	cl := func(l [][]byte) [][]byte { return append([][]byte{}, l...) }
	p := c.A % len(b)
	li, lj := c.A%len(lines), c.B%len(lines)
	var seps []int
	for i, l := range lines {
		if bytes.HasPrefix(l, []byte("---")) {
			seps = append(seps, i)
		}
	}
	switch c.K {
	case "flip":
		n := append([]byte{}, b...)
		n[p] ^= 1 << uint(c.B%8)
		return n
	case "flipline":
		// in the second half, where the last document and the signature are
		n := append([]byte{}, b...)
		p = len(b)/2 + c.A%(len(b)-len(b)/2)
		n[p] ^= 1 << uint(c.B%7)
		return n
	case "drop":
		q := p + 1 + c.B%20
		if q > len(b) {
			q = len(b)
		}
		return append(append([]byte{}, b[:p]...), b[q:]...)
	case "tear":
		return append([]byte{}, b[:p]...)
	case "zeros":
		n := append([]byte{}, b...)
		for i := p; i < len(n) && i < p+1+c.B%64; i++ {
			n[i] = 0
		}
		return n
	case "insert":
		return append(append(append([]byte{}, b[:p]...), c.S...), b[p:]...)
	case "blank":
		// blanks appear or vanish at a boundary of lines or documents, where
		// a parser would not see them
		at := [][]byte{[]byte("\n"), []byte("\n---"), []byte("---\n"), []byte("---\nkind: signature"), nil}[c.A%5]
		pos := len(b)
		if at != nil {
			n := bytes.Count(b, at)
			if n == 0 {
				return b
			}
			pos = 0
			for i := 0; i <= c.B%n; i++ {
				pos += bytes.Index(b[pos:], at) + 1
			}
			pos--
			if c.B%2 == 1 {
				pos += len(at)
			}
			if c.A%5 == 3 {
				pos = bytes.LastIndex(b, at)
			}
		}
		if (c.A/5)%3 == 0 {
			// remove
			q := pos
			for q > 0 && bytes.IndexByte([]byte(" \t\r\n"), b[q-1]) >= 0 {
				q--
			}
			if q < pos {
				return append(append([]byte{}, b[:q+c.B%(pos-q)]...), b[pos:]...)
			}
		}
		ins := []string{" ", "\n", "  ", "\t", "\n\n", " \n", "\r"}[(c.A/15)%7]
		return append(append(append([]byte{}, b[:pos]...), ins...), b[pos:]...)
	case "trail", "indent", "comment", "crlf":
		n := cl(lines)
		l := n[li]
		body := bytes.TrimRight(l, "\r\n")
		switch c.K {
		case "trail":
			n[li] = append(append(append([]byte{}, body...), " \t"[c.B%2]), l[len(body):]...)
		case "indent":
			n[li] = append([]byte{' '}, l...)
		case "comment":
			n[li] = append(append(append([]byte{}, body...), " # x"...), l[len(body):]...)
		default:
			n[li] = append(append([]byte{}, body...), "\r\n"...)
		}
		return join(n)
	case "tabs":
		return bytes.Replace(b, []byte("  "), []byte("\t"), 1+c.A%2)
	case "squeeze":
		return bytes.Replace(b, []byte("  "), []byte(" "), 1+c.A%3)
	case "nul":
		return append(append([]byte{}, b...), make([]byte, 1+c.B%512)...)
	case "case", "quote":
		from := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
		if c.K == "quote" {
			from = "'\""
		}
		n := append([]byte{}, b...)
		for i := 0; i < len(n); i++ {
			q := (p + i) % len(n)
			if strings.IndexByte(from, n[q]) >= 0 {
				if c.K == "case" {
					n[q] ^= 0x20
				} else {
					n[q] ^= '\'' ^ '"'
				}
				break
			}
		}
		return n
	case "lostline":
		n := cl(lines)
		return join(append(n[:li], n[li+1:]...))
	case "dupline":
		n := cl(lines[:li+1])
		return join(append(append(n, lines[li]), lines[li+1:]...))
	case "swaplines":
		n := cl(lines)
		n[li], n[lj] = n[lj], n[li]
		return join(n)
	case "stale":
		// a block of the old version survived in place of the new one
		q := p + 1 + c.B%512
		n := append([]byte{}, b...)
		for i := p; i < q && i < len(n) && i < len(old); i++ {
			n[i] = old[i]
		}
		return n
	case "swapdocs":
		if len(seps) < 3 {
			return b
		}
		i := c.A % (len(seps) - 2)
		a0, b0, c0 := seps[i], seps[i+1], seps[i+2]
		n := cl(lines[:a0])
		n = append(n, lines[b0:c0]...)
		n = append(n, lines[a0:b0]...)
		n = append(n, lines[c0:]...)
		return join(n)
	case "movesep", "dropsep", "addsep":
		n := cl(lines)
		if c.K != "addsep" && len(seps) > 1 {
			i := seps[1+c.A%(len(seps)-1)]
			n = append(n[:i], n[i+1:]...)
		}
		if c.K != "dropsep" {
			i := c.B % (len(n) + 1)
			n = append(n[:i], append([][]byte{[]byte("---\n")}, n[i:]...)...)
		}
		return join(n)
	case "dropsig":
		i := bytes.LastIndex(b, []byte("hmac:"))
		if i < 0 {
			return b
		}
		return append(append([]byte{}, b[:i]...), []byte("hmac: \n")...)
	case "edithmac":
		i := bytes.LastIndex(b, []byte("hmac: "))
		if i < 0 {
			return b
		}
		i += 6 + c.A%64
		if i >= len(b) {
			return b
		}
		n := append([]byte{}, b...)
		n[i] = "0123456789abcdefABCDEFg"[c.B%23]
		return n
	}
	return b
}

// protected is what a signature covers, computed independently of the code
// under test.
type protected struct {
	docs [][]byte
	sig  []byte
	has  bool
	bad  bool
}

func protect(b []byte) (p protected) {
	docs, _ := refSplit(b)
	for _, d := range docs {
		var k struct{ Kind, Hmac string }
		var kind struct{ Kind string }
		if err := goyaml.Unmarshal(d, &kind); err != nil {
			p.bad = true
			return
		}
		if kind.Kind == "signature" {
			if !p.has {
				p.has = true
				goyaml.Unmarshal(d, &k)
				p.sig, _ = hex.DecodeString(k.Hmac)
			}
			continue
		}
		p.docs = append(p.docs, d)
	}
	return
}

func (p protected) same(q protected) bool {
	if len(p.docs) != len(q.docs) || !bytes.Equal(p.sig, q.sig) || !p.has || !q.has {
		return false
	}
	for i := range p.docs {
		if !bytes.Equal(p.docs[i], q.docs[i]) {
			return false
		}
	}
	return true
}

func signIt(s *Tamper, text []byte) ([]byte, error) {
	k := signer.KeyString(s.Key)
	if s.How == "writeto" {
		h, err := signer.Sign(text, k)
		if err != nil {
			return nil, err
		}
		return signer.WriteTo(text, h)
	}
	return signer.SignUpdate(text, k)
}

func runC12(raw json.RawMessage, proc int) (o simkit.Outcome) {
	s := new(Tamper)
	if err := json.Unmarshal(raw, s); err != nil {
		o.Err = err.Error()
		return
	}
	text := (&Stream{Parts: s.Parts}).text()
	if len(s.Key) < 32 || strings.ContainsRune(s.Key, 0) || strings.ContainsRune(s.VKey, 0) {
		o.Triv = true
		return
	}
	rr := simulate([]func(){func() {
		signed, err := signIt(s, text)
		if err != nil {
			o.Triv = true
			return
		}
		old, olderr := signIt(s, []byte(s.Old))
		ok, err := signer.Verify(signed, signer.KeyString(s.Key))
		if !ok || err != nil {
			o.Failf("intact-rejected", "a signed and unchanged file does not verify: %v %v", ok, err)
			return
		}
		stored := signed
		if len(s.Corr) == 0 && s.VKey == "" {
			o.Probe("intact")
			o.Digest = simkit.HashStr(0, string(stored))
			return
		}
		for _, c := range s.Corr {
			n := applyCorr(stored, old, c)
			if !bytes.Equal(n, stored) {
				o.Fault("storage:"+c.K, 1)
			}
			stored = n
		}
		key := s.Key
		if s.VKey != "" && s.VKey != s.Key {
			key = s.VKey
			o.Fault("wrong-key", 1)
		}
		ok, err = signer.Verify(stored, signer.KeyString(key))
		o.Digest = simkit.Mix(simkit.HashStr(0, string(stored)), b2u(ok))
		o.State = o.Digest
		if key == s.Key && bytes.Equal(stored, signed) {
			o.Triv = true
			if !ok {
				o.Failf("intact-rejected", "an unchanged file does not verify")
			}
			return
		}
		if !ok || err != nil {
			if ok {
				o.Failf("true-with-error", "Verify returned true together with an error: %v", err)
			}
			o.Probe("rejected")
			return
		}
		if key != s.Key {
			o.Failf("wrong-key-accepted", "verified with key %q although it was signed with %q", key, s.Key)
			return
		}
		got, want := protect(stored), protect(signed)
		if got.same(want) {
			o.Probe("harmless-change-accepted")
			return
		}
		if olderr == nil && got.same(protect(old)) {
			o.Probe("old-version-whole")
			return
		}
		if bytes.Equal(got.sig, want.sig) && bytes.Equal(joined(got.docs), joined(want.docs)) {
			o.Failf("boundary-moved", "the file verifies although its %d documents became %d with other boundaries (the text between the separators is unchanged as a whole)", len(want.docs), len(got.docs))
			return
		}
		o.Failf("tampered-accepted", "the file verifies although its signed content changed: %d documents, %d bytes became %d documents, %d bytes\n%s", len(want.docs), len(joined(want.docs)), len(got.docs), len(joined(got.docs)), diffAt(string(joined(want.docs)), string(joined(got.docs))))
	}}, Sched{Mode: "serial"}, s.Seed, 0, 60_000_000)
	if o.Fail == nil {
		progress(&o, rr, "")
	}
	return
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
