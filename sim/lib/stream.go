package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"
	"syscall"

	"github.com/drone/drone-yaml/yaml"

	"verif.local/sim/simkit"
	"verif.local/sim/yamlgen"
)

// Part is a piece of the stream, repeated.
type Part struct {
	Text Text `json:"text"`
	N    int  `json:"n"`
}

// Stream is a scenario of C01 to C03.
type Stream struct {
	Parts  []Part `json:"parts"`
	Chunks []int  `json:"chunks,omitempty"` // sizes of successive reads; 0 is an empty read; the last one repeats
	EOF    bool   `json:"eof_with_data,omitempty"`
	FailAt int    `json:"fail_at,omitempty"` // 1+offset of the failure; 0: none
	Err    string `json:"err,omitempty"`
	With   bool   `json:"err_with_data,omitempty"`
	Stall  int    `json:"stall_at,omitempty"` // 1+offset after which reads are empty for ever
	Heal   bool   `json:"heal,omitempty"`     // reading again after the failure would deliver the rest
	Raw    bool   `json:"raw,omitempty"`      // ParseRaw instead of Parse
	Seed   uint64 `json:"seed"`
}

func (s *Stream) text() []byte {
	var b bytes.Buffer
	for _, p := range s.Parts {
		n := p.N
		if n < 0 {
			n = 0
		}
		if b.Len()+n*len(p.Text) > 6<<20 {
			break
		}
		b.WriteString(strings.Repeat(string(p.Text), n))
	}
	return b.Bytes()
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func errOf(k string) error {
	switch k {
	case "unexpected-eof":
		return io.ErrUnexpectedEOF
	case "eio":
		return syscall.EIO
	case "eintr":
		return syscall.EINTR
	case "eagain":
		return syscall.EAGAIN
	case "timeout":
		return timeoutErr{}
	case "closed":
		return io.ErrClosedPipe
	case "wrapped-eof":
		return fmt.Errorf("stream: %w", io.EOF)
	default:
		return errors.New("simulated read error")
	}
}

var errKinds = []string{"other", "unexpected-eof", "eio", "eintr", "eagain", "timeout", "closed", "wrapped-eof"}

type tooManyReads struct{ n int }

// simReader delivers the stream as the scenario says and watches its caller.
type simReader struct {
	s      *Stream
	data   []byte
	pos    int
	k      int
	reads  int
	empty  int // consecutive empty reads
	maxE   int
	ended  bool // the end or a permanent error was reported
	failed bool
	after  int // reads after the end or error
	frag   int
	stall  bool
}

func (r *simReader) Read(p []byte) (int, error) {
	r.reads++
	if r.ended {
		r.after++
		if r.after > 3000 {
			panic(tooManyReads{r.reads})
		}
		if r.failed && r.s.Heal {
			n := copy(p, r.data[r.pos:])
			r.pos += n
			if n == 0 {
				return 0, io.EOF
			}
			return n, nil
		}
		if r.failed {
			return 0, errOf(r.s.Err)
		}
		return 0, io.EOF
	}
	if r.reads > len(r.data)*200+100000 {
		panic(tooManyReads{r.reads})
	}
	limit := len(r.data)
	if r.s.Stall > 0 && r.s.Stall-1 < limit {
		limit = r.s.Stall - 1
	}
	failAt := -1
	if r.s.FailAt > 0 {
		failAt = r.s.FailAt - 1
		if failAt > len(r.data) {
			failAt = len(r.data)
		}
		if failAt < limit {
			limit = failAt
		}
	}
	if len(p) == 0 {
		return 0, nil
	}
	size := len(p)
	if n := len(r.s.Chunks); n > 0 {
		size = r.s.Chunks[r.k%n]
		r.k++
	}
	if size > len(p) {
		size = len(p)
	}
	if size < 0 {
		size = 0
	}
	if size > limit-r.pos {
		size = limit - r.pos
	}
	copy(p, r.data[r.pos:r.pos+size])
	r.pos += size
	if size > 0 {
		r.empty = 0
		if r.pos < len(r.data) {
			r.frag++
		}
	}
	switch {
	case failAt >= 0 && r.pos == failAt:
		if size == 0 || r.s.With {
			r.ended, r.failed = true, true
			return size, errOf(r.s.Err)
		}
	case r.s.Stall > 0 && r.pos == r.s.Stall-1:
		r.stall = true
	case r.pos == len(r.data):
		if size == 0 || r.s.EOF {
			r.ended = true
			return size, io.EOF
		}
	}
	if size == 0 {
		r.empty++
		if r.empty > r.maxE {
			r.maxE = r.empty
		}
		if r.empty > 5000 {
			panic(tooManyReads{r.reads})
		}
	}
	return size, nil
}

type parsed struct {
	text string
	err  error
	ok   bool
	note string
	many bool
	n    int
}

func parseStream(r io.Reader, raw bool) (p parsed) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(tooManyReads); ok {
				p.many = true
				return
			}
			if isStep(x) {
				panic(x)
			}
			p.note = "panic: " + panicText(x)
			p.text = p.note
		}
	}()
	if raw {
		v, err := yaml.ParseRaw(r)
		p.err, p.n = err, len(v)
		if err == nil {
			p.text = Dump(v)
		}
	} else {
		v, err := yaml.Parse(r)
		p.err = err
		if v != nil {
			p.n = len(v.Resources)
		}
		if err == nil {
			p.text = Dump(v)
		}
	}
	p.ok = p.err == nil
	return
}

// refSplit is the reference: documents of a stream, line by line.
func refSplit(b []byte) (docs [][]byte, term bool) {
	var cur *bytes.Buffer
	flush := func() {
		if cur != nil {
			docs = append(docs, cur.Bytes())
		}
	}
	for len(b) > 0 {
		var l []byte
		if i := bytes.IndexByte(b, '\n'); i >= 0 {
			l, b = b[:i], b[i+1:]
		} else {
			l, b = b, nil
		}
		l = bytes.TrimRight(l, "\r")
		switch {
		case bytes.HasPrefix(l, []byte("---")):
			flush()
			cur = new(bytes.Buffer)
		case bytes.HasPrefix(l, []byte("...")):
			if cur == nil {
				cur = new(bytes.Buffer)
			}
			flush()
			return docs, true
		default:
			if cur == nil {
				cur = new(bytes.Buffer)
			}
			cur.Write(l)
			cur.WriteByte('\n')
		}
	}
	flush()
	return docs, false
}

func genStream(r *simkit.Rng) *Stream {
	g := &yamlgen.G{R: r}
	s := &Stream{Seed: r.U64(), Raw: r.P(0.5)}
	text := g.Manifest()
	if r.P(0.15) {
		text = g.Broken(text)
	}
	if r.P(0.02) {
		text = r.Pick("", "\n", "---", "---\n", "...", "---\n---\n", "\r\n", "kind: secret", "--- \n...\n", "-", "--", "..")
	}
	s.Parts = []Part{{Text(text), 1}}
	switch r.Intn(12) {
	case 0: // many documents
		s.Parts = []Part{{Text("---\nkind: secret\nname: a\ndata: b\n"), r.Range(2, 3000)}, {Text(text), 1}}
	case 1, 2: // one line around a buffer boundary
		n := []int{4096, 8192, 16384, 32768, 65536, 65536, 65536, 131072, 200000}[r.Intn(9)]
		d := r.Range(-4, 4)
		head := "---\nkind: secret\nname: big\n"
		pre := "data: "
		nl := r.Pick("\n", "\n", "\r\n", "")
		fill := n + d - len(pre) - len(nl)
		s.Parts = []Part{{Text(head + pre), 1}, {"x", fill}, {Text(nl), 1}}
		if nl != "" && r.P(0.7) {
			s.Parts = append(s.Parts, Part{Text("---\nkind: secret\nname: after\ndata: y\n"), 1})
		}
		if r.P(0.3) {
			// shift the boundary against the start of the stream
			s.Parts = append([]Part{{"# pad\n", r.Intn(2000)}}, s.Parts...)
		}
	case 3: // long document
		s.Parts = []Part{{Text(strings.TrimSuffix(text, "...\n")), 1}, {"# commentary " + Text(g.Word()) + "\n", r.Range(10, 8000)}}
		if r.P(0.5) {
			s.Parts = append(s.Parts, Part{Text("---\nkind: cron\nname: n\nspec:\n  schedule: x\n  branch: y\n"), 1})
		}
	}
	if r.P(0.003) {
		// one huge line, first in its document or further inside, with
		// documents after it
		size := 1 << 16 << uint(r.Intn(6))
		size += r.Intn(size)
		s.Parts = nil
		if r.P(0.6) {
			s.Parts = append(s.Parts, Part{Text("---\nkind: secret\nname: first\ndata: y\n"), r.Range(1, 3)})
		}
		switch r.Intn(3) {
		case 0:
			s.Parts = append(s.Parts, Part{"---\n# ", 1}, Part{"0123456789abcdef", size / 16}, Part{"\nkind: secret\nname: big\ndata: y\n", 1})
		case 1:
			s.Parts = append(s.Parts, Part{"---\nkind: secret\nname: big\ndata: ", 1}, Part{"0123456789abcdef", size / 16}, Part{"\n", 1})
		default:
			s.Parts = append(s.Parts, Part{"---\nkind: secret\nname: big\ndata: y\n# ", 1}, Part{"0123456789abcdef", size / 16}, Part{"\n# end\n", 1})
		}
		if r.P(0.8) {
			s.Parts = append(s.Parts, Part{Text("---\nkind: secret\nname: after\ndata: y\n"), r.Range(1, 3)})
		}
		s.Chunks = []int{[]int{4096, 65536, 1 << 20, 5000, 1 << 24}[r.Intn(5)]}
		s.EOF = r.P(0.4)
		return s
	}
	if r.P(0.004) {
		// a very long stream of few lines, with documents at its end
		line := r.Range(20000, 300000)
		s.Parts = []Part{{Text("---\nkind: secret\nname: big\ndata: y\n"), 1}}
		for size := r.Range(1<<19, 4<<20); size > 0; size -= line {
			s.Parts = append(s.Parts, Part{"#", 1}, Part{" long line", line / 10}, Part{"\n", 1})
		}
		s.Parts = append(s.Parts, Part{Text("---\nkind: secret\nname: after\ndata: y\n"), r.Range(1, 3)})
		s.Chunks = []int{[]int{4096, 65536, 1 << 20, 5000}[r.Intn(4)]}
		s.EOF = r.P(0.4)
		return s
	}
	n := len(s.text())
	switch r.Intn(8) {
	case 0:
		s.Chunks = []int{1}
	case 1:
		s.Chunks = []int{1, 0}
	case 2:
		s.Chunks = []int{r.Range(1, 7), r.Range(1, 80), 0}
	case 3:
		s.Chunks = []int{4096}
	case 4:
		for i := 0; i < 40; i++ {
			s.Chunks = append(s.Chunks, r.Intn(30))
		}
	case 5:
		s.Chunks = []int{r.Range(1, n+1), 1, 1, 1}
	case 6:
		// cut at an interesting place: newline, separator, CR, multi-byte
		t := string(s.text())
		p := -1
		for _, m := range []string{"---", "\r\n", "ü", "\n", "...", "über"} {
			if r.P(0.4) {
				if i := strings.LastIndex(t, m); i >= 0 {
					p = i + 1
				}
			}
		}
		if p > 0 {
			s.Chunks = []int{p, 1, r.Range(0, 3), 1, 1 << 20}
		}
	default:
		for i := 0; i < 12; i++ {
			s.Chunks = append(s.Chunks, r.Intn(5000))
		}
		s.Chunks = append(s.Chunks, 1)
	}
	sum := 0
	for _, c := range s.Chunks {
		sum += c
	}
	if len(s.Chunks) > 0 && sum == 0 {
		s.Chunks = append(s.Chunks, 1)
	}
	s.EOF = r.P(0.4)
	return s
}

func genC01(r *simkit.Rng, thorough bool) interface{} { return genStream(r) }

func genC02(r *simkit.Rng, thorough bool) interface{} {
	s := genStream(r)
	n := len(s.text())
	if r.P(0.9) {
		s.FailAt = 1 + r.Intn(n+1)
		switch r.Intn(5) {
		case 0:
			s.FailAt = 1 + n // at the very end, instead of EOF
		case 1, 2:
			// right after a line or a separator
			t := s.text()
			p := r.Intn(n + 1)
			if i := bytes.IndexByte(t[min(p, len(t)):], '\n'); i >= 0 {
				s.FailAt = 1 + p + i + 1
			}
			if i := bytes.LastIndex(t[:min(p, len(t))], []byte("\n---")); i >= 0 && r.P(0.5) {
				s.FailAt = 1 + i + r.Range(1, 6)
			}
		}
		s.Err = errKinds[r.Intn(len(errKinds))]
		s.With = r.P(0.5)
		s.Heal = r.P(0.3)
	}
	return s
}

func genC03(r *simkit.Rng, thorough bool) interface{} {
	s := genStream(r)
	n := len(s.text())
	switch r.Intn(4) {
	case 0, 1:
		s.Stall = 1 + r.Intn(n+1)
	case 2:
		s.FailAt = 1 + r.Intn(n+1)
		s.Err = errKinds[r.Intn(len(errKinds))]
		s.With = r.P(0.5)
		s.Heal = r.P(0.6)
	default:
		// bursts of empty reads, short of giving up
		s.Chunks = nil
		for i := 0; i < r.Range(1, 6); i++ {
			s.Chunks = append(s.Chunks, r.Range(1, 2000))
			for k := r.Intn(60); k > 0; k-- {
				s.Chunks = append(s.Chunks, 0)
			}
		}
	}
	return s
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func runStream(prop string) func(raw json.RawMessage, proc int) simkit.Outcome {
	return func(raw json.RawMessage, proc int) (o simkit.Outcome) {
		s := new(Stream)
		if err := json.Unmarshal(raw, s); err != nil {
			o.Err = err.Error()
			return
		}
		data := s.text()
		sum := 0
		for _, c := range s.Chunks {
			sum += c
		}
		if len(s.Chunks) > 0 && sum == 0 {
			o.Triv = true // an all-empty pattern is a stall by another name
			return
		}
		rd := &simReader{s: s, data: data}
		var p, whole parsed
		rr := simulate([]func(){func() {
			p = parseStream(rd, s.Raw)
			if prop == "C01" {
				whole = parseStream(bytes.NewReader(data), s.Raw)
			}
		}}, Sched{Mode: "serial"}, s.Seed, 0, 60_000_000)
		if !progress(&o, rr, "") {
			return
		}
		o.Fault("fragmented-read", rd.frag)
		o.Fault("empty-read", rd.maxE)
		if rd.failed {
			o.Fault("read-error:"+s.Err, 1)
		}
		if rd.stall {
			o.Fault("stalled-reader", 1)
		}
		o.Triv = rd.frag == 0 && !rd.failed && !rd.stall
		o.Digest = simkit.Mix(simkit.HashStr(0, p.text), uint64(rd.reads), uint64(rd.pos))
		o.State = o.Digest
		if p.many {
			o.Failf("no-progress", "the reader was called %d times (%d empty reads in a row, %d calls after its end or error) for %d bytes", rd.reads, rd.maxE, rd.after, len(data))
			return
		}
		_, term := refSplit(data[:rd.pos])
		// a terminator that arrived complete ends the configuration
		switch prop {
		case "C01":
			if p.note != whole.note || p.ok != whole.ok || p.text != whole.text {
				o.Failf("fragmentation", "reading in pieces gives %s, in one piece %s\n%s", verdict(p), verdict(whole), diffAt(whole.text, p.text))
			}
			if p.ok {
				o.Probe("parsed")
			}
		case "C02":
			if rd.failed && !term && (p.ok || p.note == "" && p.err == nil) {
				o.Failf("success-on-read-error", "the reader failed (%v) after %d of %d bytes, yet parsing succeeded with %d resources", errOf(s.Err), rd.pos, len(data), p.n)
				return
			}
			if rd.failed && p.err != nil && p.n > 0 {
				o.Failf("resources-with-error", "parsing returned %d resources together with error %v", p.n, p.err)
				return
			}
			if p.ok && !rd.failed {
				// complete?
				docs, _ := refSplit(data)
				if s.Raw && p.n != len(docs) {
					o.Failf("prefix-parsed", "parsing succeeded with %d of %d documents (%d bytes)", p.n, len(docs), len(data))
					return
				}
				if got, want := rawData(data, s), joined(docs); got != nil && !bytes.Equal(noBreaks(got), noBreaks(want)) {
					o.Failf("prefix-parsed", "parsing succeeded but took in %d of %d bytes of document text", len(got), len(want))
					return
				}
				o.Probe("complete")
			}
		case "C03":
			if rd.stall && !term && p.ok {
				o.Failf("success-on-stall", "the reader stalled after %d of %d bytes, yet parsing succeeded", rd.pos, len(data))
				return
			}
			if rd.maxE > 1000 {
				o.Failf("spinning", "%d consecutive empty reads before giving up", rd.maxE)
				return
			}
			if rd.after > 0 {
				o.Failf("read-after-end", "the reader was called %d more time(s) after it reported its end or error", rd.after)
				return
			}
		}
		return
	}
}

// rawData re-parses with ParseRaw and joins the data of the documents.
func rawData(data []byte, s *Stream) []byte {
	v, err := yaml.ParseRaw(&simReader{s: &Stream{Chunks: s.Chunks, EOF: s.EOF}, data: data})
	if err != nil {
		return nil
	}
	out := []byte{}
	for _, r := range v {
		out = append(out, r.Data...)
	}
	return out
}

// noBreaks drops line ends: whether the last one is kept is not the point.
func noBreaks(b []byte) []byte {
	return bytes.ReplaceAll(bytes.ReplaceAll(b, []byte("\n"), nil), []byte("\r"), nil)
}

func joined(docs [][]byte) []byte {
	out := []byte{}
	for _, d := range docs {
		out = append(out, d...)
	}
	return out
}

func verdict(p parsed) string {
	switch {
	case p.note != "":
		return p.note
	case p.err != nil:
		return "error " + p.err.Error()
	}
	return fmt.Sprintf("%d documents", p.n)
}
