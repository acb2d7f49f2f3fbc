package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
)

// the things that operations share, see spec/Readers.tla
type shared struct {
	texts  [2]string
	stmts  [2]model.Stmts
	parser *schemalex.Parser
	linter *lint.Linter
}

// brief writes up to n bytes, then fails
type brief struct {
	n    int
	seen bytes.Buffer
}

var errBrief = errors.New("no more")

func (w *brief) Write(b []byte) (int, error) {
	if len(b) <= w.n {
		w.n -= len(b)
		return w.seen.Write(b)
	}
	n, _ := w.seen.Write(b[:w.n])
	w.n = 0
	return n, errBrief
}

// lines is a text as far as the order of its lines does not matter
func lines(b []byte) string {
	l := strings.Split(string(b), "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

type rop struct {
	Op string `json:"op"`
	A  int    `json:"a"` // 1 or 2
	B  int    `json:"b"`
}

func (s *shared) run(o rop) string {
	var buf bytes.Buffer
	res := func(err error, v ...interface{}) string {
		if err != nil {
			return "error: " + digest(err.Error())
		}
		return digest(v)
	}
	of := func(i int) model.Stmts { return s.stmts[i-1] }
	switch o.Op {
	case "diff":
		err := diff.Statements(&buf, of(o.A), of(o.B))
		return res(err, lines(buf.Bytes()))
	case "difftxn":
		err := diff.Statements(&buf, of(o.A), of(o.B), diff.WithTransaction(true))
		return res(err, lines(buf.Bytes()))
	case "difftext":
		err := diff.Strings(&buf, s.texts[o.A-1], s.texts[o.B-1], diff.WithParser(s.parser))
		return res(err, lines(buf.Bytes()))
	case "print":
		err := format.SQL(&buf, of(o.A))
		return res(err, buf.String())
	case "each":
		// the statements, one by one
		for _, st := range of(o.A) {
			if err := format.SQL(&buf, st); err != nil {
				return res(err)
			}
		}
		return res(nil, buf.String())
	case "indent":
		err := format.SQL(&buf, of(o.A), format.WithIndent(" ", o.B))
		return res(err, buf.String())
	case "cut":
		// printing, and comparing, until the writer fails
		w := &brief{n: 7 + 31*o.B}
		err := format.SQL(w, of(o.A))
		w2 := &brief{n: 9}
		err2 := diff.Statements(w2, of(o.A), nil)
		return digest([]interface{}{err != nil, w.seen.String(), err2 != nil})
	case "norm":
		var ts []interface{}
		for _, st := range of(o.A) {
			if t, ok := st.(model.Table); ok {
				n, _ := t.Normalize()
				ts = append(ts, projTable(n))
			}
		}
		return res(nil, ts)
	case "lint":
		// with one indent, without, with another
		opts := [][]lint.Option{{lint.WithIndent(" ", 2)}, nil, {lint.WithIndent("\t", 1)}}[o.B-1]
		err := s.linter.Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(s.texts[o.A-1])), &buf, opts...)
		return res(err, buf.String())
	case "cutlint":
		// linting until the writer fails
		w := &brief{n: 7 + 31*o.B}
		err := s.linter.Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(s.texts[o.A-1])), w)
		return digest([]interface{}{err != nil, w.seen.String()})
	case "parse":
		return res(nil, projParse(s.parser.ParseString(s.texts[o.A-1])))
	case "find":
		return res(nil, found(of(o.A)))
	case "discard":
		// a comparison whose output nobody keeps
		return res(diff.Statements(io.Discard, of(o.A), of(o.B)))
	}
	fail("no operation %s", o.Op)
	return ""
}

// found says where each statement is found by its ID
func found(ss model.Stmts) []int {
	at := []int{}
	ids := []string{}
	for _, st := range ss {
		ids = append(ids, st.ID())
	}
	for _, id := range append(ids, "no such ID") {
		st, ok := ss.Lookup(id)
		k := 0
		for i := range ss {
			if st != nil && ss[i] == st && k == 0 {
				k = i + 1
			}
		}
		if ok != (k > 0) {
			k = -1
		}
		at = append(at, k)
	}
	return at
}

func (s *shared) view() string {
	return digest([]interface{}{projStmts(s.stmts[0]), projStmts(s.stmts[1])})
}

func init() {
	// operations on shared schemas, in order and then at the same time
	handlers["readers"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Texts    [2]string
			Path     []rop
			Together int // goroutines, 0: one operation after the other
			Rounds   int
			Cold     bool // nothing has been parsed before
		}
		must(raw, &j)
		s := &shared{parser: schemalex.New(), linter: lint.New()}
		for i := range j.Texts {
			s.texts[i] = dec(j.Texts[i])
			if j.Cold {
				continue
			}
			st, err := schemalex.New().ParseString(s.texts[i])
			if err != nil {
				fail("not a schema: %s", err)
			}
			s.stmts[i] = st
		}
		type event struct {
			rop
			Res  string `json:"res"`
			View string `json:"view"`
		}
		r := struct {
			View string   `json:"view"`
			Ev   []event  `json:"ev"`
			Gone bool     `json:"gone"`
			IDs  [2][]int `json:"first"`
			At   [2][]int `json:"found"`
		}{Ev: []event{}}
		r.View = s.view()
		before := runtime.NumGoroutine()
		if j.Together == 0 {
			for _, o := range j.Path {
				res := s.run(o)
				r.Ev = append(r.Ev, event{o, res, s.view()})
			}
		} else {
			var mu sync.Mutex
			var wg sync.WaitGroup
			seen := map[string]bool{}
			start := make(chan struct{})
			for g := 0; g < j.Together; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					<-start
					for k := 0; k < j.Rounds; k++ {
						for x := range j.Path {
							o := j.Path[(x+g)%len(j.Path)]
							res := s.run(o)
							mu.Lock()
							if id := fmt.Sprint(o, res); !seen[id] {
								seen[id] = true
								r.Ev = append(r.Ev, event{o, res, ""})
							}
							mu.Unlock()
						}
					}
				}(g)
			}
			close(start)
			wg.Wait()
			for i := range r.Ev {
				r.Ev[i].View = s.view()
			}
		}
		for n := 0; n < 600 && !r.Gone; n++ {
			r.Gone = runtime.NumGoroutine() <= before
			if !r.Gone {
				time.Sleep(time.Duration(n) * 10 * time.Microsecond)
			}
		}
		for i, ss := range s.stmts {
			r.At[i] = found(ss)
			first := map[string]int{}
			r.IDs[i] = []int{}
			for k, st := range ss {
				if first[st.ID()] == 0 {
					first[st.ID()] = k + 1
				}
				r.IDs[i] = append(r.IDs[i], first[st.ID()])
			}
			r.IDs[i] = append(r.IDs[i], 0)
		}
		return r
	}
}
