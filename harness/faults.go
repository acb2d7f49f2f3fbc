package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
)

var errFault = errors.New("injected fault")

// What a run did to its environment, in order
type event struct {
	E  string `json:"e"` // read, write, return
	N  int    `json:"n"` // read: which source; write: bytes offered
	T  int    `json:"t"` // write: bytes taken
	OK bool   `json:"ok"`
	V  string `json:"v"` // read, write: the bytes
	F  bool   `json:"f"` // read: the end of the source
}

type journal struct {
	ev   []event
	full bool // record the bytes
}

// a destination that takes so many bytes. late: it takes all of the write
// that reaches the limit, and reports an error all the same
type faultyWriter struct {
	j     *journal
	limit int // -1: none
	late  bool
	took  int
	dead  bool
	keep  *bytes.Buffer
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	e := event{E: "write", N: len(p), T: len(p), OK: true}
	if w.dead {
		e.T, e.OK = 0, false
	} else if w.limit >= 0 && w.took+len(p) > w.limit {
		e.OK = false
		if !w.late {
			e.T = w.limit - w.took
		}
		w.dead = true
	}
	w.took += e.T
	if w.keep != nil {
		w.keep.Write(p[:e.T])
	}
	if w.j.full {
		e.V = enc(string(p))
	}
	w.j.ev = append(w.j.ev, e)
	if !e.OK {
		return e.T, errFault
	}
	return e.T, nil
}

// a reader that delivers in chunks, and fails or ends after so many bytes
type faultyReader struct {
	j      *journal
	n      int // which source
	data   []byte
	limit  int  // fails here; -1: never
	chunk  int  // at most so many bytes at once; 0: as many as asked for
	joined bool // the end comes with the last bytes
	zero   bool // every other read delivers nothing
	odd    bool
	err    error
	at     int
	ended  bool
}

func (r *faultyReader) Read(p []byte) (int, error) {
	end := len(r.data)
	var err error = io.EOF
	if r.limit >= 0 && r.limit < len(r.data) || r.limit == len(r.data) {
		end = r.limit
		err = r.err
	}
	e := event{E: "read", N: r.n, OK: true}
	r.odd = !r.odd
	if r.zero && r.odd {
		r.log(e)
		return 0, nil
	}
	n := end - r.at
	if n > len(p) {
		n = len(p)
	}
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	copy(p, r.data[r.at:r.at+n])
	if r.j.full {
		e.V = enc(string(r.data[r.at : r.at+n]))
	}
	r.at += n
	if r.at == end && (n == 0 || r.joined) {
		e.F = err == io.EOF
		e.OK = err == io.EOF
		r.log(e)
		return n, err
	}
	r.log(e)
	return n, nil
}

func (r *faultyReader) log(e event) {
	if r.j.full || e.F || !e.OK {
		r.j.ev = append(r.j.ev, e)
	}
}

// a source that writes so much, and fails; or succeeds
type ownSource struct {
	j    *journal
	n    int
	data []byte
	fail int // -1: no
}

func (s *ownSource) WriteSchema(dst io.Writer) error {
	d := s.data
	if s.fail >= 0 {
		d = d[:s.fail]
	}
	if _, err := dst.Write(d); err != nil {
		return err
	}
	if s.fail >= 0 {
		s.j.ev = append(s.j.ev, event{E: "read", N: s.n})
		return errFault
	}
	s.j.ev = append(s.j.ev, event{E: "read", N: s.n, OK: true, F: true})
	return nil
}

// a source that reports when it has been read, if that can be told
type watched struct {
	schemalex.SchemaSource
	j    *journal
	good bool
}

func (s watched) WriteSchema(dst io.Writer) error {
	err := s.SchemaSource.WriteSchema(dst)
	if s.good {
		s.j.ev = append(s.j.ev, event{E: "read", N: 1, OK: err == nil, F: err == nil})
	}
	return err
}

type emitRun struct {
	At   int     `json:"at"`
	Mode string  `json:"mode"`
	Ev   []event `json:"ev"`
}

type emitSet struct {
	What  string    `json:"what"`
	Need  int       `json:"need"`  // sources that have to be read
	Total int       `json:"total"` // length of the complete output; -1: there is none
	Runs  []emitRun `json:"runs"`
}

func positions(n, max int) []int {
	var out []int
	step := 1
	if max > 0 && n > max {
		step = (n + max - 1) / max
	}
	for i := 0; i < n; i += step {
		out = append(out, i)
	}
	if n > 0 && (n-1)%step != 0 {
		out = append(out, n-1)
	}
	return out
}

// with runs f against a destination that fails at every byte
func emitAll(what string, need, max int, f func(io.Writer, *journal) error) emitSet {
	set := emitSet{What: what, Need: need, Runs: []emitRun{}}
	one := func(at int, mode string, late bool) (int, bool) {
		j := &journal{ev: []event{}}
		w := &faultyWriter{j: j, limit: at, late: late}
		err := f(w, j)
		j.ev = append(j.ev, event{E: "return", OK: err == nil})
		set.Runs = append(set.Runs, emitRun{At: at, Mode: mode, Ev: j.ev})
		return w.took, err == nil
	}
	n, ok := one(-1, "none", false)
	set.Total = n
	if !ok {
		set.Total = -1
		return set
	}
	for _, at := range positions(n, max) {
		one(at, "dst", false)
	}
	for _, at := range positions(n, max/4) {
		one(at, "late", true)
	}
	return set
}

func init() {
	handlers["emit"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Old, New []byte
			Txn      string
			Max      int
			Indent   []string
		}
		must(raw, &j)
		var sets []emitSet
		opts := txnOptions(j.Txn)
		var fopts []format.Option
		if len(j.Indent) > 0 {
			fopts = append(fopts, format.WithIndent(j.Indent[0], 2))
		}
		a, erra := schemalex.New().Parse(j.Old)
		b, errb := schemalex.New().Parse(j.New)
		if erra == nil && errb == nil {
			sets = append(sets, emitAll("diff.Statements", 0, j.Max, func(w io.Writer, _ *journal) error {
				return diff.Statements(w, a, b, opts...)
			}))
			sets = append(sets, emitAll("format.SQL(stmts)", 0, j.Max, func(w io.Writer, _ *journal) error {
				return format.SQL(w, a, fopts...)
			}))
		}
		sets = append(sets, emitAll("diff.Strings", 0, j.Max, func(w io.Writer, _ *journal) error {
			return diff.Strings(w, string(j.Old), string(j.New), opts...)
		}))
		fa, fb := tempFile(j.Old), tempFile(j.New)
		defer os.Remove(fa)
		defer os.Remove(fb)
		sets = append(sets, emitAll("diff.Files", 0, j.Max/3, func(w io.Writer, _ *journal) error {
			return diff.Files(w, fa, fb, opts...)
		}))
		sets = append(sets, emitAll("diff.Sources", 2, j.Max, func(w io.Writer, jj *journal) error {
			return diff.Sources(w, schemalex.NewReaderSource(&faultyReader{j: jj, n: 1, data: j.Old, limit: -1}),
				schemalex.NewReaderSource(&faultyReader{j: jj, n: 2, data: j.New, limit: -1}), opts...)
		}))
		sets = append(sets, emitAll("lint", 1, j.Max, func(w io.Writer, jj *journal) error {
			return lint.New().Run(context.Background(), schemalex.NewReaderSource(&faultyReader{j: jj, n: 1, data: j.Old, limit: -1}), w, fopts...)
		}))
		if erra == nil {
			// the parts one by one
			for _, s := range a {
				t, ok := s.(model.Table)
				if !ok {
					continue
				}
				part := func(what string, v interface{}) {
					sets = append(sets, emitAll("format.SQL("+what+")", 0, j.Max/4, func(w io.Writer, _ *journal) error {
						return format.SQL(w, v, fopts...)
					}))
				}
				part("table", t)
				for c := range t.Columns() {
					part("column", c)
					part("type", c.Type())
					break
				}
				for x := range t.Indexes() {
					part("index", x)
					if x.Reference() != nil {
						part("reference", x.Reference())
					}
					break
				}
				for o := range t.Options() {
					part("option", o)
					break
				}
				part("database", model.NewDatabase(t.Name()).SetIfNotExists(t.IsTemporary()))
			}
		}
		return sets
	}

	// sources that fail at every position, one of them at a time
	handlers["readfault"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Old, New []byte
			Txn      string
			Max      int
			Seed     int
		}
		must(raw, &j)
		opts := txnOptions(j.Txn)
		var sets []emitSet
		errs := []error{errFault, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, os.ErrNotExist}
		k := j.Seed
		run := func(set *emitSet, at int, mode string, f func(io.Writer, *journal) error) {
			jj := &journal{ev: []event{}}
			w := &faultyWriter{j: jj, limit: -1}
			err := f(w, jj)
			jj.ev = append(jj.ev, event{E: "return", OK: err == nil})
			set.Runs = append(set.Runs, emitRun{At: at, Mode: mode, Ev: jj.ev})
			if set.Total < 0 && err == nil {
				set.Total = w.took
			}
		}
		source := func(jj *journal, n int, data []byte, at int, mode string) schemalex.SchemaSource {
			switch mode {
			case "none":
				return &ownSource{j: jj, n: n, data: data, fail: -1}
			case "own":
				return &ownSource{j: jj, n: n, data: data, fail: at}
			}
			k++
			return schemalex.NewReaderSource(&faultyReader{j: jj, n: n, data: data, limit: at, chunk: []int{0, 1, 7}[k%3],
				joined: k%2 == 0, zero: k%5 == 0, err: errs[k%len(errs)]})
		}
		d := emitSet{What: "diff.Sources", Need: 2, Total: -1, Runs: []emitRun{}}
		run(&d, -1, "none", func(w io.Writer, jj *journal) error {
			return diff.Sources(w, source(jj, 1, j.Old, -1, "none"), source(jj, 2, j.New, -1, "none"), opts...)
		})
		for _, mode := range []string{"src", "own"} {
			for _, at := range positions(len(j.Old)+1, j.Max) {
				run(&d, at, mode+"1", func(w io.Writer, jj *journal) error {
					return diff.Sources(w, source(jj, 1, j.Old, at, mode), source(jj, 2, j.New, -1, "none"), opts...)
				})
			}
			for _, at := range positions(len(j.New)+1, j.Max) {
				run(&d, at, mode+"2", func(w io.Writer, jj *journal) error {
					return diff.Sources(w, source(jj, 1, j.Old, -1, "none"), source(jj, 2, j.New, at, mode), opts...)
				})
			}
		}
		sets = append(sets, d)
		l := emitSet{What: "lint", Need: 1, Total: -1, Runs: []emitRun{}}
		run(&l, -1, "none", func(w io.Writer, jj *journal) error {
			return lint.New().Run(context.Background(), source(jj, 1, j.Old, -1, "none"), w)
		})
		for _, mode := range []string{"src", "own"} {
			for _, at := range positions(len(j.Old)+1, j.Max) {
				run(&l, at, mode+"1", func(w io.Writer, jj *journal) error {
					return lint.New().Run(context.Background(), source(jj, 1, j.Old, at, mode), w)
				})
			}
		}
		sets = append(sets, l)
		// files that are not there
		f := emitSet{What: "diff.Files", Need: 2, Total: -1, Runs: []emitRun{}}
		dir, err := os.MkdirTemp(scratch, "dir")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		defer os.RemoveAll(dir)
		good := tempFile(j.Old)
		defer os.Remove(good)
		for _, bad := range []string{filepath.Join(dir, "missing"), dir, "", filepath.Join(good, "x"), dir + "\x00x"} {
			run(&f, 0, "file1", func(w io.Writer, jj *journal) error { return diff.Files(w, bad, good, opts...) })
			run(&f, 0, "file2", func(w io.Writer, jj *journal) error { return diff.Files(w, good, bad, opts...) })
		}
		sets = append(sets, f)
		return sets
	}

	// definitions that can not be printed, or not be migrated, built with the
	// interface. diff only: it must not write anything
	handlers["badstmts"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Old, New []ptable
			Txn      string
		}
		must(raw, &j)
		build := func(ts []ptable) model.Stmts {
			var s model.Stmts
			for _, t := range ts {
				s = append(s, buildTable(t))
			}
			return s
		}
		var sets []emitSet
		d := emitSet{What: "diff.Statements", Total: -1, Runs: []emitRun{}}
		jj := &journal{ev: []event{}}
		err := diff.Statements(&faultyWriter{j: jj, limit: -1}, build(j.Old), build(j.New), txnOptions(j.Txn)...)
		jj.ev = append(jj.ev, event{E: "return", OK: err == nil})
		d.Runs = append(d.Runs, emitRun{At: -1, Mode: "bad", Ev: jj.ev})
		sets = append(sets, d)
		f := emitSet{What: "format.SQL(stmts)", Total: -1, Runs: []emitRun{}}
		jj = &journal{ev: []event{}}
		err = format.SQL(&faultyWriter{j: jj, limit: -1}, build(j.New))
		jj.ev = append(jj.ev, event{E: "return", OK: err == nil})
		f.Runs = append(f.Runs, emitRun{At: -1, Mode: "bad", Ev: jj.ev})
		return append(sets, f)
	}

	// sources by their names. what is behind them fails, some time or other;
	// with Good set it does not
	handlers["badsrc"] = func(raw json.RawMessage) interface{} {
		var j struct {
			URIs   []string
			Other  []byte
			Txn    string
			Tables []mtable
			Faults []mfault // a run against a server for each
			Good   bool
		}
		must(raw, &j)
		d := emitSet{What: "diff.Sources", Need: 2, Total: -1, Runs: []emitRun{}}
		l := emitSet{What: "lint", Need: 1, Total: -1, Runs: []emitRun{}}
		k := 0
		one := func(set *emitSet, mode string, uri string, f func(io.Writer, *journal, schemalex.SchemaSource) error) {
			src, err := schemalex.NewSchemaSource(uri)
			if err != nil {
				return
			}
			jj := &journal{ev: []event{}}
			w := &faultyWriter{j: jj, limit: -1}
			err = f(w, jj, watched{src, jj, j.Good})
			jj.ev = append(jj.ev, event{E: "return", OK: err == nil})
			set.Runs = append(set.Runs, emitRun{At: k, Mode: mode, Ev: jj.ev})
			if j.Good && set.Total < 0 && err == nil {
				set.Total = w.took
			}
		}
		other := func(jj *journal, n int) schemalex.SchemaSource {
			return &ownSource{j: jj, n: n, data: j.Other, fail: -1}
		}
		all := func(uri, mode string) {
			if !j.Good || k == 0 {
				one(&d, mode+"1", uri, func(w io.Writer, jj *journal, s schemalex.SchemaSource) error {
					return diff.Sources(w, s, other(jj, 2), txnOptions(j.Txn)...)
				})
			}
			if !j.Good {
				one(&d, mode+"2", uri, func(w io.Writer, jj *journal, s schemalex.SchemaSource) error {
					return diff.Sources(w, other(jj, 2), s, txnOptions(j.Txn)...)
				})
			}
			one(&l, mode+"1", uri, func(w io.Writer, jj *journal, s schemalex.SchemaSource) error {
				return lint.New().Run(context.Background(), s, w)
			})
			k++
		}
		for _, u := range j.URIs {
			all(dec(u), "named")
		}
		for i := range j.Faults {
			dir, err := os.MkdirTemp(scratch, "sock")
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			defer os.RemoveAll(dir)
			lis, err := net.Listen("unix", filepath.Join(dir, "s"))
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			s := &mserver{dbs: map[string][]mtable{"db": j.Tables}, fault: &j.Faults[i], ev: []mevent{}}
			if j.Faults[i].Kind == "" {
				s.fault = nil
			}
			go s.serve(lis)
			all("mysql://user@unix("+filepath.Join(dir, "s")+")/db", "mysql")
			lis.Close()
		}
		return []emitSet{d, l}
	}

	// copying from a reader: what is delivered
	handlers["copy"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Data   []byte
			Limit  int // the reader fails here
			Chunk  int
			Joined bool
			Zero   bool
			Dst    int // the destination fails here
			Late   bool
		}
		must(raw, &j)
		jj := &journal{ev: []event{}, full: true}
		r := &faultyReader{j: jj, n: 1, data: j.Data, limit: j.Limit, chunk: j.Chunk, joined: j.Joined, zero: j.Zero, err: errFault}
		w := &faultyWriter{j: jj, limit: j.Dst, late: j.Late}
		err := schemalex.NewReaderSource(r).WriteSchema(w)
		jj.ev = append(jj.ev, event{E: "return", OK: err == nil})
		return jj.ev
	}

	// resolve a source and read it, in the directory given
	handlers["source"] = func(raw json.RawMessage) interface{} {
		var j struct {
			URI   string
			Limit int // the destination fails here; -1: never
		}
		must(raw, &j)
		var res struct {
			Neither bool   `json:"neither"`
			OK      bool   `json:"ok"`
			Out     []byte `json:"out"`
			Text    string `json:"text"`
		}
		s, err := schemalex.NewSchemaSource(dec(j.URI))
		if err != nil {
			res.Text = enc(err.Error())
			return res
		}
		if s == nil {
			res.Neither = true
			return res
		}
		var buf bytes.Buffer
		w := &faultyWriter{j: &journal{}, limit: j.Limit, keep: &buf}
		if err := s.WriteSchema(w); err != nil {
			res.Text = enc(err.Error())
			return res
		}
		res.OK, res.Out = true, buf.Bytes()
		return res
	}
}
