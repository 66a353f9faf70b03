// Command verifharness executes scenarios (sequences of calls of the library) and reports what
// happened at each call. It judges nothing: the results are checked against the specification in
// /verif/spec.
//
// Input: one scenario per line (JSON) on stdin; output: one result per line on stdout. With -par N
// scenarios run N at a time in separate goroutines.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/internal/strutils"
)

type fault struct {
	Chunk  int   `json:"chunk"`  // max bytes per Read (0: unlimited)
	Chunks []int `json:"chunks"` // cycle of max bytes per Read (0 allowed: an empty read)
	EOF    bool  `json:"eof"`    // deliver io.EOF together with the last bytes
	Read   int   `json:"read"`   // fail the k-th Read (1-based)
	At     int   `json:"at"`     // fail the Reads that reach byte offset At (k > 0)
	Seek   int   `json:"seek"`   // fail the k-th Seek
	Once   bool  `json:"once"`   // fail only once
	Data   bool  `json:"data"`   // deliver the data before the failure point along with the error
	Soft   bool  `json:"soft"`   // the error is io.ErrUnexpectedEOF rather than a custom one

	// From the Start-th Read on, answer as planned: [bytes (-1: all), 0 or what comes with them
	// (1: an error, 2: an error, and only errors from then on, 3: io.EOF if at the end)].
	Plan  [][2]int `json:"plan"`
	Start int      `json:"start"`
}

type step struct {
	Op     string   `json:"op"`
	H      int      `json:"h"`
	Dst    int      `json:"dst"`
	Blob   int      `json:"blob"` // 1-based index of an input blob
	From   int      `json:"from"` // or: 1-based index of the step of this scenario that produced the bytes
	Via    string   `json:"via"`
	N      int64    `json:"n"`
	Gids   []int    `json:"gids"`
	Runes  []int    `json:"runes"`
	Tables []string `json:"tables"`
	Pairs  [][2]int `json:"pairs"`
	IDs    []int    `json:"ids"`
	Locs   []int    `json:"locs"`
	Recs   bool     `json:"recs"`
	Fault  *fault   `json:"fault"`
	Limit  int      `json:"limit"`
	Bytes  []int    `json:"bytes"`
	Pre    string   `json:"pre"` // writefile: what is there before
	Flip   [][2]int `json:"flip"`
	Gates  []int    `json:"gates"` // hold the call at these I/O operations; steps "go" and "end" let it run on
	Of     int      `json:"of"`    // go, end: 1-based index of the step that began the call
	Path   string   `json:"path"`  // f*: a name in the scenario's directory
}

type scenario struct {
	ID    int    `json:"id"`
	Steps []step `json:"steps"`
}

type m map[string]interface{}

var (
	blobDir = flag.String("blobs", "", "directory with the input blobs")
	par     = flag.Int("par", 0, "number of goroutines")
	limit   = flag.Duration("timeout", 30*time.Second, "time limit per scenario")
	scratch = flag.String("scratch", "", "scratch directory")
	digest  = flag.Bool("digest", false, "report a digest of each result rather than the result (for tools/mutate.py)")
)

var (
	blobMu    sync.Mutex
	blobCache = map[int][]byte{}
)

func blob(i int) []byte {
	blobMu.Lock()
	defer blobMu.Unlock()
	if b, ok := blobCache[i]; ok {
		return b
	}
	b, err := ioutil.ReadFile(filepath.Join(*blobDir, fmt.Sprintf("%d.bin", i)))
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(70)
	}
	if len(b) > 100000 {
		blobCache[i] = b
	}
	return b
}

var errInjected = errors.New("injected fault")

// faultReader is an io.ReadSeeker with adjustable read sizes and failures.
type faultReader struct {
	b                   []byte
	pos                 int64
	f                   fault
	reads, seeks, cycle int
	fired               int
	dead                bool
}

func (r *faultReader) err() error {
	r.fired++
	if r.f.Soft {
		return io.ErrUnexpectedEOF
	}
	return errInjected
}

func (r *faultReader) Read(p []byte) (int, error) {
	r.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if r.dead {
		return 0, r.err()
	}
	if k := r.reads - r.f.Start; r.f.Plan != nil && k >= 0 && k < len(r.f.Plan) {
		return r.planned(p, r.f.Plan[k][0], r.f.Plan[k][1])
	}
	n := len(p)
	if r.f.Chunk > 0 && n > r.f.Chunk {
		n = r.f.Chunk
	}
	if len(r.f.Chunks) > 0 {
		c := r.f.Chunks[r.cycle%len(r.f.Chunks)]
		r.cycle++
		if c < n {
			n = c
		}
		if n == 0 {
			return 0, nil
		}
	}
	armed := !(r.f.Once && r.fired > 0)
	if armed && r.f.Read > 0 && (r.reads == r.f.Read || (!r.f.Once && r.reads > r.f.Read)) {
		return 0, r.err()
	}
	if r.pos >= int64(len(r.b)) {
		return 0, io.EOF
	}
	if int64(n) > int64(len(r.b))-r.pos {
		n = int(int64(len(r.b)) - r.pos)
	}
	if armed && r.f.At > 0 && r.pos+int64(n) > int64(r.f.At) {
		k := int64(r.f.At) - r.pos
		if k < 0 {
			k = 0
		}
		if !r.f.Data {
			if k > 0 {
				copy(p, r.b[r.pos:r.pos+k])
				r.pos += k
				return int(k), nil
			}
			return 0, r.err()
		}
		copy(p, r.b[r.pos:r.pos+k])
		r.pos += k
		return int(k), r.err()
	}
	copy(p, r.b[r.pos:r.pos+int64(n)])
	r.pos += int64(n)
	if r.f.EOF && r.pos == int64(len(r.b)) {
		return n, io.EOF
	}
	return n, nil
}

func (r *faultReader) planned(p []byte, n, with int) (int, error) {
	if n < 0 || n > len(p) {
		n = len(p)
	}
	if left := len(r.b) - int(r.pos); left <= 0 {
		n = 0
		if with == 0 || with == 3 {
			return 0, io.EOF
		}
	} else if n > left {
		n = left
	}
	copy(p, r.b[r.pos:r.pos+int64(n)])
	r.pos += int64(n)
	switch {
	case with == 2:
		r.dead = true
		return n, r.err()
	case with == 1:
		return n, r.err()
	case with == 3 && int(r.pos) >= len(r.b):
		return n, io.EOF
	}
	return n, nil
}

func (r *faultReader) Seek(offset int64, whence int) (int64, error) {
	r.seeks++
	armed := !(r.f.Once && r.fired > 0)
	if armed && r.f.Seek > 0 && (r.seeks == r.f.Seek || (!r.f.Once && r.seeks > r.f.Seek)) {
		return 0, r.err()
	}
	switch whence {
	case io.SeekCurrent:
		offset += r.pos
	case io.SeekEnd:
		offset += int64(len(r.b))
	}
	if offset < 0 {
		return 0, errors.New("negative position")
	}
	r.pos = offset
	return offset, nil
}

// limitWriter accepts `limit` bytes (split as they come) and fails afterwards.
type limitWriter struct {
	buf   bytes.Buffer
	limit int
	late  bool
	once  bool // fails only once
	fired bool
	calls int
}

func (w *limitWriter) Write(p []byte) (int, error) {
	w.calls++
	room := w.limit - w.buf.Len()
	if room < 0 {
		room = 0
	}
	if len(p) > room {
		w.buf.Write(p[:room])
		w.fired = true
		if w.late {
			// everything was taken and yet something went wrong
			w.buf.Write(p[room:])
			w.limit = 0
			if w.once {
				w.limit = 1 << 40
			}
			return len(p), errInjected
		}
		if w.once {
			w.limit = 1 << 40
		}
		return room, errInjected
	}
	return w.buf.Write(p)
}

func cps(s string) []int {
	out := []int{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, v := range b {
		out[i] = int(v)
	}
	return out
}

func toBytes(v []int) []byte {
	// Spare capacity filled with a pattern so that writes past the end are noticed.
	b := make([]byte, len(v), len(v)+8)
	for i, x := range v {
		b[i] = byte(x)
	}
	full := b[:cap(b)]
	for i := len(v); i < len(full); i++ {
		full[i] = 0xA5
	}
	return b
}

func intact(b []byte, v []int) bool {
	for i, x := range v {
		if b[i] != byte(x) {
			return false
		}
	}
	full := b[:cap(b)]
	for i := len(v); i < len(full); i++ {
		if full[i] != 0xA5 {
			return false
		}
	}
	return true
}

// gate holds a call at chosen I/O operations.
type gate struct {
	at   []int
	n    int
	hit  chan struct{}
	cont chan struct{}
	free chan struct{} // closed: hold no more
}

func (g *gate) pass() {
	g.n++
	for _, k := range g.at {
		if k == g.n {
			select {
			case g.hit <- struct{}{}:
			case <-g.free:
				return
			}
			select {
			case <-g.cont:
			case <-g.free:
			}
			return
		}
	}
}

type gatedReader struct {
	r io.ReadSeeker
	g *gate
}

func (r *gatedReader) Read(p []byte) (int, error) {
	r.g.pass()
	return r.r.Read(p)
}

func (r *gatedReader) Seek(offset int64, whence int) (int64, error) {
	return r.r.Seek(offset, whence)
}

type gatedWriter struct {
	w io.Writer
	g *gate
}

func (w *gatedWriter) Write(p []byte) (int, error) {
	w.g.pass()
	return w.w.Write(p)
}

// pending is a call that has begun and not ended.
type pending struct {
	s    *state
	st   step
	g    *gate
	held bool
	res  m
	done chan struct{}
}

// patience is how long the others wait for a call that is neither held nor ends (a library may
// take a lock for all of its calls) before every call is let go; after too many of these none is
// held any more.
const patience = 300 * time.Millisecond

var impatient int32

func (s *state) begin(st step) m {
	c := &state{fonts: map[int]*unitype.Font{}, outputs: map[int][]byte{}, id: s.id, step: s.step}
	for h, f := range s.fonts {
		c.fonts[h] = f
	}
	for k, b := range s.outputs {
		c.outputs[k] = b
	}
	c.gate = &gate{at: st.Gates, hit: make(chan struct{}), cont: make(chan struct{}), free: make(chan struct{})}
	if atomic.LoadInt32(&impatient) > 20 {
		close(c.gate.free)
	}
	p := &pending{s: c, st: st, g: c.gate, done: make(chan struct{})}
	s.calls[s.step] = p
	go func() {
		p.res = c.run(st)
		close(p.done)
	}()
	s.await(p)
	return m{"out": "begun", "held": p.held}
}

// await waits until p is held or has ended.
func (s *state) await(p *pending) {
	select {
	case <-p.done:
	case <-p.g.hit:
		p.held = true
	case <-time.After(patience):
		atomic.AddInt32(&impatient, 1)
		for _, q := range s.calls {
			select {
			case <-q.g.free:
			default:
				close(q.g.free)
			}
		}
	}
}

func (s *state) release(p *pending) {
	if p.held {
		p.held = false
		select {
		case p.g.cont <- struct{}{}:
		case <-p.g.free:
		}
	}
	s.await(p)
}

// end lets a call run to its end and returns its result.
func (s *state) end(of int) m {
	p := s.calls[of]
	if p == nil {
		return m{"out": "skip"}
	}
	for {
		s.release(p)
		select {
		case <-p.done:
			delete(s.calls, of)
			if f := p.s.fonts[p.st.Dst]; f != nil && p.st.Dst > 0 {
				s.fonts[p.st.Dst] = f
			}
			if b, ok := p.s.outputs[of]; ok {
				s.outputs[of], s.outputs[s.step] = b, b
			}
			return p.res
		default:
		}
	}
}

type state struct {
	fonts   map[int]*unitype.Font
	outputs map[int][]byte // by step
	calls   map[int]*pending
	gate    *gate
	hasDir  bool
	id      int
	step    int
}

func (s *state) src(st step) ([]byte, bool) {
	var b []byte
	if st.Via == "nofile" {
		return nil, true
	}
	if st.From > 0 {
		var ok bool
		b, ok = s.outputs[st.From]
		if !ok {
			return nil, false
		}
	} else {
		b = blob(st.Blob)
	}
	if len(st.Flip) > 0 {
		b = append([]byte(nil), b...)
		for _, fl := range st.Flip {
			if fl[0] < 0 {
				fl[0] += len(b)
			}
			if fl[0] >= 0 && fl[0] < len(b) {
				b[fl[0]] ^= byte(fl[1])
			}
		}
	}
	return b, true
}

func outcome(res m, err error) {
	if err != nil {
		res["out"] = "err"
		res["msg"] = err.Error()
	} else {
		res["out"] = "ok"
	}
}

func (s *state) path(name string) string {
	return filepath.Join(*scratch, fmt.Sprintf("%d-%d-%s", s.id, s.step, name))
}

func (s *state) run(st step) (res m) {
	res = m{}
	defer func() {
		if r := recover(); r != nil {
			res["out"] = "panic"
			res["msg"] = fmt.Sprint(r)
			res["stack"] = string(debug.Stack())
		}
	}()

	var f *unitype.Font
	if st.H > 0 {
		f = s.fonts[st.H]
		if f == nil {
			res["out"] = "skip"
			return res
		}
	}

	switch st.Op {
	case "parse":
		b, ok := s.src(st)
		if !ok {
			res["out"] = "skip"
			return res
		}
		if st.From > 0 || len(st.Flip) > 0 {
			res["src"] = base64.StdEncoding.EncodeToString(b)
		}
		var fnt *unitype.Font
		var err error
		switch st.Via {
		case "file":
			p := s.path("in.ttf")
			if err := ioutil.WriteFile(p, b, 0644); err != nil {
				panic(err)
			}
			defer os.Remove(p)
			fnt, err = unitype.ParseFile(p)
		case "fault":
			r := &faultReader{b: b, f: *st.Fault}
			fnt, err = unitype.Parse(r)
			res["fired"] = r.fired > 0
			res["reads"] = r.reads
			res["seeks"] = r.seeks
		case "nofile":
			fnt, err = unitype.ParseFile(s.path("does-not-exist.ttf"))
		default:
			in := append([]byte(nil), b...)
			var r io.ReadSeeker = bytes.NewReader(in)
			if s.gate != nil {
				r = &gatedReader{r: r, g: s.gate}
			}
			fnt, err = unitype.Parse(r)
			if !bytes.Equal(in, b) {
				res["mut"] = true
			}
		}
		outcome(res, err)
		if err == nil {
			if fnt == nil {
				res["out"] = "nil"
			} else {
				s.fonts[st.Dst] = fnt
			}
		}

	case "validate":
		b, ok := s.src(st)
		if !ok {
			res["out"] = "skip"
			return res
		}
		if st.From > 0 || len(st.Flip) > 0 {
			res["src"] = base64.StdEncoding.EncodeToString(b)
		}
		if st.Via == "file" {
			p := s.path("val.ttf")
			if err := ioutil.WriteFile(p, b, 0644); err != nil {
				panic(err)
			}
			defer os.Remove(p)
			outcome(res, unitype.ValidateFile(p))
			after, _ := ioutil.ReadFile(p)
			res["mut"] = !bytes.Equal(after, b)
			return res
		}
		all := append(append(make([]byte, 0, len(b)+8), b...), "\xA5\xA5\xA5\xA5\xA5\xA5\xA5\xA5"...)
		outcome(res, unitype.ValidateBytes(all[:len(b)]))
		res["mut"] = !bytes.Equal(all[:len(b)], b) || string(all[len(b):]) != "\xA5\xA5\xA5\xA5\xA5\xA5\xA5\xA5"

	case "first":
		fnt, err := f.SubsetFirst(int(st.N))
		outcome(res, err)
		res["same"] = fnt == f
		if err == nil && fnt == nil {
			res["out"] = "nil"
		}
		if err == nil && fnt != nil {
			s.fonts[st.Dst] = fnt
		}

	case "keep":
		all := make([]unitype.GlyphIndex, len(st.Gids)+spareLen)
		for i := range all {
			all[i] = spareValue
			if i < len(st.Gids) {
				all[i] = unitype.GlyphIndex(st.Gids[i])
			}
		}
		gids := all[:len(st.Gids)]
		if len(gids) == 0 && st.Via == "nil" {
			gids = nil
		}
		fnt, err := f.SubsetKeepIndices(gids)
		outcome(res, err)
		res["same"] = fnt == f
		for i := range all {
			if i < len(st.Gids) && all[i] != unitype.GlyphIndex(st.Gids[i]) || i >= len(st.Gids) && all[i] != spareValue {
				res["mut"] = true
			}
			all[i] = 1 // the caller's, who may use it for something else
		}
		if err == nil && fnt == nil {
			res["out"] = "nil"
		}
		if err == nil && fnt != nil {
			s.fonts[st.Dst] = fnt
		}

	case "keepr":
		runes := toRunes(st.Runes)
		fnt, err := f.SubsetKeepRunes(runes)
		outcome(res, err)
		res["same"] = fnt == f
		if !sameRunes(runes, st.Runes) {
			res["mut"] = true
		}
		if err == nil && fnt == nil {
			res["out"] = "nil"
		}
		if err == nil && fnt != nil {
			s.fonts[st.Dst] = fnt
		}

	case "subset":
		gids := make([]unitype.GlyphIndex, len(st.Gids))
		for i, g := range st.Gids {
			gids[i] = unitype.GlyphIndex(g)
		}
		fnt, _, err := f.Subset(gids)
		outcome(res, err)
		if err == nil && fnt != nil {
			s.fonts[st.Dst] = fnt
		}

	case "prune":
		all := append(append([]string(nil), st.Tables...), "post", "name", "cmap")
		outcome(res, f.PruneTables(all[:len(st.Tables)]...))
		for i, t := range append(append([]string(nil), st.Tables...), "post", "name", "cmap") {
			if all[i] != t {
				res["mut"] = true
			}
			all[i] = "cmap"
		}

	case "opt":
		outcome(res, f.Optimize())

	case "write":
		var buf bytes.Buffer
		var w io.Writer = &buf
		if s.gate != nil {
			w = &gatedWriter{w: w, g: s.gate}
		}
		err := f.Write(w)
		outcome(res, err)
		if err == nil {
			b := append([]byte(nil), buf.Bytes()...)
			s.outputs[s.step] = b
			res["data"] = base64.StdEncoding.EncodeToString(b)
		}

	case "writef":
		w := &limitWriter{limit: st.Limit, late: st.Via == "late" || st.Via == "lateonce",
			once: st.Via == "once" || st.Via == "lateonce"}
		err := f.Write(w)
		outcome(res, err)
		res["fired"] = w.fired
		res["calls"] = w.calls
		res["data"] = base64.StdEncoding.EncodeToString(w.buf.Bytes())

	case "writefile":
		p := s.path("out.ttf")
		switch st.Pre {
		case "longer":
			_ = ioutil.WriteFile(p, bytes.Repeat([]byte{0xC3}, 300000), 0644)
		case "shorter":
			_ = ioutil.WriteFile(p, []byte("short"), 0644)
		case "nodir":
			p = filepath.Join(p, "x", "out.ttf")
		}
		err := f.WriteFile(p)
		outcome(res, err)
		b, rerr := ioutil.ReadFile(p)
		res["exists"] = rerr == nil
		if rerr == nil {
			res["data"] = base64.StdEncoding.EncodeToString(b)
		}
		if err == nil && rerr == nil {
			s.outputs[s.step] = b
		}
		_ = os.Remove(p)

	case "fput":
		// what other programs do with the files
		p := filepath.Join(s.dir(), st.Path)
		if st.Blob == 0 && st.From == 0 {
			_ = os.Remove(p)
		} else if b, ok := s.src(st); !ok {
			res["out"] = "skip"
			return res
		} else if err := ioutil.WriteFile(p, b, 0644); err != nil {
			panic(err)
		}
		res["out"] = "ok"
		s.files(res)

	case "fparse":
		fnt, err := unitype.ParseFile(filepath.Join(s.dir(), st.Path))
		outcome(res, err)
		s.files(res)
		if err == nil {
			if fnt == nil {
				res["out"] = "nil"
			} else {
				s.fonts[st.Dst] = fnt
			}
		}

	case "fvalidate":
		outcome(res, unitype.ValidateFile(filepath.Join(s.dir(), st.Path)))
		s.files(res)

	case "fwrite":
		p := filepath.Join(s.dir(), st.Path)
		outcome(res, f.WriteFile(p))
		s.files(res)
		if b, ok := regular(p); ok {
			res["data"] = base64.StdEncoding.EncodeToString(b)
			if res["out"] == "ok" {
				s.outputs[s.step] = b
			}
		}

	case "query":
		s.query(f, st, res)
		res["out"] = "ok"

	case "info":
		s.info(f, res)
		res["out"] = "ok"

	case "strutils":
		s.strutils(st, res)
		res["out"] = "ok"

	default:
		panic("harness: unknown op " + st.Op)
	}
	return res
}

// dir is the directory of the scenario's files: with a directory "sub", "link" to the file "a", and
// "full", which cannot be written to.
func (s *state) dir() string {
	d := filepath.Join(*scratch, fmt.Sprintf("d%d", s.id))
	if !s.hasDir {
		s.hasDir = true
		err := os.Mkdir(d, 0755)
		if err == nil {
			err = os.Mkdir(filepath.Join(d, "sub"), 0755)
		}
		if err == nil {
			err = os.Symlink("a", filepath.Join(d, "link"))
		}
		if err == nil {
			err = os.Symlink("/dev/full", filepath.Join(d, "full"))
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(70)
		}
	}
	return d
}

func regular(p string) ([]byte, bool) {
	st, err := os.Stat(p)
	if err != nil || !st.Mode().IsRegular() {
		return nil, false
	}
	b, err := ioutil.ReadFile(p)
	return b, err == nil
}

// files reports the regular files of the scenario's directory and how many descriptors are open on it.
func (s *state) files(res m) {
	d := s.dir()
	open := 0
	fds, _ := ioutil.ReadDir("/proc/self/fd")
	for _, e := range fds {
		t, err := os.Readlink(filepath.Join("/proc/self/fd", e.Name()))
		if err == nil && (strings.HasPrefix(t, d+"/") || t == "/dev/full") {
			open++
		}
	}
	res["open"] = open
	disk := [][2]string{}
	_ = filepath.Walk(d, func(p string, st os.FileInfo, err error) error {
		if err == nil && st.Mode().IsRegular() {
			b, _ := ioutil.ReadFile(p)
			disk = append(disk, [2]string{p[len(d)+1:], base64.StdEncoding.EncodeToString(b)})
		}
		return nil
	})
	res["disk"] = disk
}

// Lists are passed with more behind them in the same array, which is not the library's either.
const (
	spareLen   = 5
	spareValue = 2
)

func toRunes(v []int) []rune {
	runes := make([]rune, len(v)+spareLen)
	for i := range runes {
		runes[i] = spareValue
		if i < len(v) {
			runes[i] = rune(v[i])
		}
	}
	return runes[:len(v)]
}

// sameRunes tells whether `runes` (of toRunes) is still `v`, and makes it something else.
func sameRunes(runes []rune, v []int) bool {
	same := true
	all := runes[:len(v)+spareLen]
	for i := range all {
		if i < len(v) && all[i] != rune(v[i]) || i >= len(v) && all[i] != spareValue {
			same = false
		}
		all[i] = 65
	}
	return same
}

func (s *state) query(f *unitype.Font, st step, res m) {
	cmaps := []interface{}{}
	for _, p := range st.Pairs {
		cm := f.GetCmap(p[0], p[1])
		pairs := [][2]int{}
		for r, g := range cm {
			pairs = append(pairs, [2]int{int(r), int(g)})
		}
		sort.Slice(pairs, func(i, j int) bool { return pairs[i][0] < pairs[j][0] })
		cmaps = append(cmaps, m{"pid": p[0], "eid": p[1], "nil": cm == nil, "pairs": pairs})
	}
	res["cmaps"] = cmaps

	runes := toRunes(st.Runes)
	looked := []int{}
	for _, g := range f.LookupRunes(runes) {
		looked = append(looked, int(g))
	}
	res["looked"] = looked
	if !sameRunes(runes, st.Runes) {
		res["mut"] = true
	}

	names := []interface{}{}
	for _, id := range st.IDs {
		names = append(names, m{"id": id, "text": cps(f.GetNameByID(id))})
	}
	res["names"] = names

	recs := []interface{}{}
	res["hasrecs"] = st.Recs
	if st.Recs {
		for lang, byID := range f.GetNameRecords() {
			for id, text := range byID {
				recs = append(recs, m{"lang": int(lang), "id": int(id), "text": cps(text)})
			}
		}
		sort.Slice(recs, func(i, j int) bool {
			a, b := recs[i].(m), recs[j].(m)
			if a["lang"].(int) != b["lang"].(int) {
				return a["lang"].(int) < b["lang"].(int)
			}
			return a["id"].(int) < b["id"].(int)
		})
	}
	res["recs"] = recs

	locs := []interface{}{}
	for _, g := range st.Locs {
		off, ln, err := f.GetGlyphDataOffset(unitype.GlyphIndex(g))
		if err != nil {
			locs = append(locs, m{"gid": g, "ok": false, "hi": 0, "lo": 0, "lhi": 0, "llo": 0})
		} else {
			locs = append(locs, m{"gid": g, "ok": true, "hi": off >> 16, "lo": off & 0xFFFF, "lhi": ln >> 16, "llo": ln & 0xFFFF})
		}
	}
	res["locs"] = locs
}

var (
	reTrec   = regexp.MustCompile(`(?m)^trec: present with (\d+) table records$`)
	reSize   = regexp.MustCompile(`(?s)^(.*): ([0-9.]+) (B|kB|MB)$`)
	reHhea   = regexp.MustCompile(`numHMetrics: (\d+)`)
	reHmtx   = regexp.MustCompile(`hmetrics: (\d+), leftSideBearings: (\d+)`)
	reShort  = regexp.MustCompile(`Short offsets: (\d+)`)
	reLong   = regexp.MustCompile(`Long offsets: (\d+)`)
	reGlyf   = regexp.MustCompile(`glyf table present: (\d+) descriptions \(([0-9.]+) kB\)`)
	reVer    = regexp.MustCompile(`cmap version: (\d+)`)
	reEnc    = regexp.MustCompile(`encoding records: (\d+) subtables: (\d+)`)
	reSub    = regexp.MustCompile(`cmap subtable: (\d+),(\d+),(\d+)\S*: runes: (\d+)`)
	reEntry  = regexp.MustCompile(`^\t(\d+) - Charcode (\d+) \(0x[0-9A-F]+\) - rune ([0-9A-F -]+)$`)
	rePostNG = regexp.MustCompile(`post table present: (\d+) numGlyphs`)
	rePostNI = regexp.MustCompile(`post glyphNameIndex: (\d+)`)
	rePostGN = regexp.MustCompile(`post glyphNames: (\d+)`)
	rePostN  = regexp.MustCompile(`^- post: (\d+): (.*)$`)
	rePostL  = regexp.MustCompile(`glyphNames:\[\]unitype\.GlyphName\{((?:"(?:[^"\\]|\\.)*"(?:, )?)*)\}`)
	rePtr    = regexp.MustCompile(`\)\(0x[0-9a-f]+\)`)
	reQuoted = regexp.MustCompile(`"(?:[^"\\]|\\.)*"`)
)

func num(re *regexp.Regexp, s string, k int) int {
	g := re.FindStringSubmatch(s)
	if g == nil {
		return -1
	}
	v, err := strconv.Atoi(g[k])
	if err != nil {
		return -1
	}
	return v
}

func centi(s string) int {
	v, err := strconv.Atoi(strings.Replace(s, ".", "", 1))
	if err != nil {
		return -1
	}
	return v
}

// info reads the reports of f into numbers.
func (s *state) info(f *unitype.Font, res m) {
	missing := []string{}
	text := map[string]string{}
	for _, t := range []string{"trec", "head", "os2", "hhea", "hmtx", "cmap", "loca", "name", "glyf", "post"} {
		text[t] = f.TableInfo(t)
		if text[t] == t+": missing\n" {
			missing = append(missing, t)
		}
	}
	res["missing"] = missing
	res["unsupported"] = f.TableInfo("nonsense")
	res["string"] = f.String() == text["trec"]

	trec := []interface{}{}
	for _, line := range strings.Split(text["trec"], "\n") {
		if g := reSize.FindStringSubmatch(line); g != nil {
			v := -1
			if g[3] == "B" {
				v, _ = strconv.Atoi(g[2])
			} else {
				v = centi(g[2])
			}
			trec = append(trec, m{"tag": ints([]byte(g[1])), "unit": g[3], "v": v})
		}
	}
	res["trec"] = trec
	res["ntrec"] = num(reTrec, text["trec"], 1)
	res["nhm"] = num(reHhea, text["hhea"], 1)
	res["hm"] = num(reHmtx, text["hmtx"], 1)
	res["lsb"] = num(reHmtx, text["hmtx"], 2)
	res["locshort"] = num(reShort, text["loca"], 1)
	res["loclong"] = num(reLong, text["loca"], 1)
	res["ndesc"] = num(reGlyf, text["glyf"], 1)
	res["glyfkb"] = -1
	if g := reGlyf.FindStringSubmatch(text["glyf"]); g != nil {
		res["glyfkb"] = centi(g[2])
	}
	res["cver"] = num(reVer, text["cmap"], 1)
	res["cenc"] = num(reEnc, text["cmap"], 1)
	res["csub"] = num(reEnc, text["cmap"], 2)
	subs := []interface{}{}
	var entries [][3]int
	flush := func() {
		if len(subs) > 0 {
			last := subs[len(subs)-1].(m)
			if entries == nil {
				entries = [][3]int{}
			}
			last["entries"] = entries
		}
		entries = nil
	}
	for _, line := range strings.Split(text["cmap"], "\n") {
		if g := reSub.FindStringSubmatch(line); g != nil {
			flush()
			v := [5]int{}
			for i := 1; i <= 4; i++ {
				v[i], _ = strconv.Atoi(g[i])
			}
			subs = append(subs, m{"fmt": v[1], "pid": v[2], "eid": v[3], "runes": v[4]})
		} else if g := reEntry.FindStringSubmatch(line); g != nil {
			i, _ := strconv.Atoi(g[1])
			cc, _ := strconv.Atoi(g[2])
			r, err := strconv.ParseInt(strings.TrimSpace(g[3]), 16, 64)
			if err != nil {
				r = -1
			}
			if cc > 1000000000 {
				cc = 1000000000
			}
			entries = append(entries, [3]int{i, cc, int(r)})
		}
	}
	flush()
	res["subs"] = subs
	res["png"] = num(rePostNG, text["post"], 1)
	res["pni"] = num(rePostNI, text["post"], 1)
	res["pgn"] = num(rePostGN, text["post"], 1)
	res["pfirst"], res["pall"] = postNames(text["post"])
	h := m{}
	for _, t := range []string{"trec", "head", "os2", "hhea", "hmtx", "cmap", "loca", "name", "glyf", "post"} {
		h[t] = text[t]
	}
	res["texts"] = h
}

func postNames(text string) (first, all [][]int) {
	first, all = [][]int{}, [][]int{}
	// A name can contain line breaks, so the lines are taken in order of their numbers.
	rest := text
	for i := 1; i <= 11; i++ {
		pre := fmt.Sprintf("- post: %d: ", i)
		k := strings.Index(rest, pre)
		if k < 0 {
			break
		}
		rest = rest[k+len(pre):]
		end := strings.Index(rest, fmt.Sprintf("\n- post: %d: ", i+1))
		if end < 0 || i == 11 {
			end = strings.Index(rest, "\n&unitype.")
			if end < 0 {
				end = strings.Index(rest, "\n")
			}
		}
		if end < 0 {
			break
		}
		first = append(first, ints([]byte(rest[:end])))
		rest = rest[end:]
	}
	if g := rePostL.FindStringSubmatch(text); g != nil {
		for _, q := range reQuoted.FindAllString(g[1], -1) {
			u, err := strconv.Unquote(q)
			if err != nil {
				return first, [][]int{}
			}
			all = append(all, ints([]byte(u)))
		}
	}
	return first, all
}

func (s *state) strutils(st step, res m) {
	b := toBytes(st.Bytes)
	runes := toRunes(st.Runes)
	rint := func(rs []rune) []int {
		out := []int{}
		for _, r := range rs {
			out = append(out, int(r))
		}
		return out
	}
	res["u16runes"] = rint(strutils.UTF16ToRunes(b))
	res["u16str"] = cps(strutils.UTF16ToString(b))
	res["pdfrunes"] = rint(strutils.PDFDocEncodingToRunes(b))
	res["pdfstr"] = cps(strutils.PDFDocEncodingToString(b))
	res["intact"] = intact(b, st.Bytes)
	str := string(runes)
	res["encstr"] = ints([]byte(strutils.StringToUTF16(str)))
	back := []byte(strutils.StringToUTF16(str))
	res["encback"] = cps(strutils.UTF16ToString(back))
	enc := strutils.StringToPDFDocEncoding(str)
	res["pdfenc"] = ints(enc)
	res["pdfenc2"] = ints(strutils.StringToPDFDocEncoding(str))
	res["pdfback"] = rint(strutils.PDFDocEncodingToRunes(enc))
}

func execute(sc scenario) []m {
	s := &state{fonts: map[int]*unitype.Font{}, outputs: map[int][]byte{}, calls: map[int]*pending{}, id: sc.ID}
	out := []m{}
	defer func() {
		if s.hasDir {
			_ = os.RemoveAll(s.dir())
		}
	}()
	for i, st := range sc.Steps {
		s.step = i + 1
		var r m
		switch {
		case len(st.Gates) > 0:
			r = s.begin(st)
		case st.Op == "go":
			r = m{"out": "begun"}
			if p := s.calls[st.Of]; p != nil {
				s.release(p)
				r["held"] = p.held
			}
		case st.Op == "end":
			r = s.end(st.Of)
		default:
			r = s.run(st)
		}
		if st.Op == "keepr" {
			// What the lookup of the same runes says, for the specification to check and use.
			func() {
				defer func() { recover() }()
				looked := []int{}
				if f := s.fonts[st.H]; f != nil {
					for _, g := range f.LookupRunes(toRunes(st.Runes)) {
						looked = append(looked, int(g))
					}
				}
				r["looked"] = looked
			}()
		}
		out = append(out, r)
	}
	return out
}

func main() {
	flag.Parse()
	logrus.SetOutput(ioutil.Discard)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	var mu sync.Mutex
	emit := func(id int, res []m) {
		obj := m{"id": id, "res": res}
		if *digest {
			for _, r := range res {
				delete(r, "msg")
				delete(r, "stack")
				if t, ok := r["texts"].(m); ok {
					for k, v := range t {
						t[k] = rePtr.ReplaceAllString(v.(string), ")(P)")
					}
				}
			}
			all, _ := json.Marshal(res)
			obj = m{"id": id, "h": fmt.Sprintf("%x", sha1.Sum(all))}
		}
		line, err := json.Marshal(obj)
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(70)
		}
		mu.Lock()
		w.Write(line)
		w.WriteByte('\n')
		w.Flush()
		mu.Unlock()
	}

	var jobs chan scenario
	var wg sync.WaitGroup
	if *par > 0 {
		jobs = make(chan scenario)
		for i := 0; i < *par; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for sc := range jobs {
					emit(sc.ID, execute(sc))
				}
			}()
		}
	}
	for {
		line, err := in.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			var sc scenario
			if err := json.Unmarshal(line, &sc); err != nil {
				fmt.Fprintln(os.Stderr, "harness: bad scenario:", err)
				os.Exit(70)
			}
			if *par > 0 {
				jobs <- sc
			} else {
				done := make(chan []m, 1)
				go func() { done <- execute(sc) }()
				select {
				case res := <-done:
					emit(sc.ID, res)
				case <-time.After(*limit):
					fmt.Fprintf(os.Stderr, "harness: timeout in scenario %d\n", sc.ID)
					os.Exit(71)
				}
			}
		}
		if err != nil {
			break
		}
	}
	if *par > 0 {
		close(jobs)
		wg.Wait()
	}
}
