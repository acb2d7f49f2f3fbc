package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
)

func must(raw json.RawMessage, v interface{}) {
	if err := json.Unmarshal(raw, v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// fail ends the harness: what it was asked is not something it knows.
func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

type perr struct {
	Parse bool   `json:"parse"` // it is a ParseError
	Line  int    `json:"line"`
	Col   int    `json:"col"`
	EOF   bool   `json:"eof"`
	Ctx   string `json:"ctx"`
	Quote bool   `json:"quote"` // the text quotes a context
	File  string `json:"file"`
	Text  string `json:"text"`
}

func projErr(err error) []perr {
	if err == nil {
		return []perr{}
	}
	p := perr{Text: enc(err.Error())}
	if pe, ok := err.(schemalex.ParseError); ok {
		p.Parse = true
		p.Line, p.Col, p.EOF, p.File = pe.Line(), pe.Col(), pe.EOF(), enc(pe.File())
		s := pe.Error()
		b, e := strings.Index(s, "\n    \""), strings.LastIndex(s, "\" <---- AROUND HERE")
		if b >= 0 && e >= b+6 {
			p.Quote = true
			p.Ctx = enc(s[b+6 : e])
		}
	}
	return []perr{p}
}

type parseRes struct {
	OK    bool     `json:"ok"`
	Nil   bool     `json:"nil"` // no statements returned
	Stmts []ptable `json:"stmts"`
	Err   []perr   `json:"err"`
}

func projParse(stmts model.Stmts, err error) parseRes {
	return parseRes{OK: err == nil, Nil: len(stmts) == 0, Stmts: projStmts(stmts), Err: projErr(err)}
}

var scratch = func() string {
	d := os.Getenv("VH_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	return d
}()

func tempFile(content []byte) string {
	f, err := ioutil.TempFile(scratch, "vh")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	f.Write(content)
	f.Close()
	return f.Name()
}

func init() {
	handlers["parse"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Text []byte
			Via  string
		}
		must(raw, &j)
		p := schemalex.New()
		switch j.Via {
		case "string":
			return projParse(p.ParseString(string(j.Text)))
		case "file":
			fn := tempFile(j.Text)
			defer os.Remove(fn)
			r := projParse(p.ParseFile(fn))
			if len(r.Err) > 0 && r.Err[0].Parse && r.Err[0].File == enc(fn) {
				r.Err[0].File = "FILE"
			}
			return r
		default:
			return projParse(p.Parse(j.Text))
		}
	}

	// the distinct results of several runs, because the order of statements
	// may vary
	handlers["diff"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Old, New []byte
			Via      string
			Txn      string
			Reps     int
		}
		must(raw, &j)
		type out struct {
			OK   bool   `json:"ok"`
			Out  []byte `json:"out"`
			Text string `json:"text"`
		}
		outs := []out{}
		seen := map[string]bool{}
		if j.Reps < 1 {
			j.Reps = 1
		}
		for i := 0; i < j.Reps; i++ {
			b, err := doDiff(j.Via, j.Txn, j.Old, j.New)
			o := out{OK: err == nil, Out: b}
			if err != nil {
				o.Text = enc(err.Error())
			}
			k := fmt.Sprintf("%v %s", o.OK, b)
			if !seen[k] {
				seen[k] = true
				outs = append(outs, o)
			}
		}
		return outs
	}

	handlers["lint"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Text   []byte
			Indent []string
			N      int
			New    bool // the option goes to lint.New
			Other  bool // lint.New is given another indentation, which the one of the run replaces
		}
		must(raw, &j)
		var opts, nopts []lint.Option
		if len(j.Indent) > 0 {
			opts = append(opts, lint.WithIndent(j.Indent[0], j.N))
		}
		if j.New {
			opts, nopts = nil, opts
		} else if j.Other && len(opts) > 0 {
			nopts = append(nopts, lint.WithIndent("\t ", 3))
		}
		type lintRes struct {
			OK   bool   `json:"ok"`
			Out  []byte `json:"out"`
			OK2  bool   `json:"ok2"`
			Out2 []byte `json:"out2"`
		}
		var r lintRes
		var buf, buf2 bytes.Buffer
		r.OK = lint.New(nopts...).Run(context.Background(), schemalex.NewReaderSource(bytes.NewReader(j.Text)), &buf, opts...) == nil
		r.Out = append([]byte{}, buf.Bytes()...)
		r.OK2 = lint.New(nopts...).Run(context.Background(), schemalex.NewReaderSource(bytes.NewReader(r.Out)), &buf2, opts...) == nil
		r.Out2 = buf2.Bytes()
		return r
	}

	// format every statement, and parse and format the result again
	handlers["format"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Text   []byte
			Indent []string
			N      int
		}
		must(raw, &j)
		type one struct {
			OK    bool     `json:"ok"`
			Out   []byte   `json:"out"`
			Table ptable   `json:"table"`
			Re    parseRes `json:"re"`
			OK2   bool     `json:"ok2"`
			Out2  []byte   `json:"out2"`
			After ptable   `json:"after"` // the model after it has been formatted
		}
		res := struct {
			Parse parseRes `json:"parse"`
			Outs  []one    `json:"outs"`
		}{Outs: []one{}}
		stmts, err := schemalex.New().Parse(j.Text)
		res.Parse = projParse(stmts, err)
		if err != nil {
			return res
		}
		var opts []format.Option
		if len(j.Indent) > 0 {
			opts = append(opts, format.WithIndent(j.Indent[0], j.N))
		}
		for _, s := range stmts {
			var o one
			t, ok := s.(model.Table)
			if !ok {
				continue
			}
			o.Table = projTable(t)
			var buf bytes.Buffer
			o.OK = format.SQL(&buf, s, opts...) == nil
			o.Out = buf.Bytes()
			o.After = projTable(t)
			s2, err := schemalex.New().Parse(o.Out)
			o.Re = projParse(s2, err)
			var buf2 bytes.Buffer
			if err == nil {
				o.OK2 = format.SQL(&buf2, s2, opts...) == nil
			}
			o.Out2 = buf2.Bytes()
			res.Outs = append(res.Outs, o)
		}
		return res
	}
}

func txnOptions(txn string) []diff.Option {
	switch txn {
	case "on":
		return []diff.Option{diff.WithTransaction(true)}
	case "off":
		return []diff.Option{diff.WithTransaction(false)}
	case "parser":
		return []diff.Option{diff.WithParser(schemalex.New())}
	case "parser+on":
		return []diff.Option{diff.WithParser(schemalex.New()), diff.WithTransaction(true)}
	case "on+parser":
		return []diff.Option{diff.WithTransaction(true), diff.WithParser(schemalex.New())}
	}
	return nil
}

func doDiff(via, txn string, old, new []byte) ([]byte, error) {
	var buf bytes.Buffer
	opts := txnOptions(txn)
	switch via {
	case "statements":
		p := schemalex.New()
		a, err := p.Parse(old)
		if err != nil {
			return nil, err
		}
		b, err := p.Parse(new)
		if err != nil {
			return nil, err
		}
		if bytes.Equal(old, new) {
			b = a
		}
		err = diff.Statements(&buf, a, b, opts...)
		return buf.Bytes(), err
	case "files":
		a, b := twoFiles(old, new)
		defer os.Remove(a)
		defer os.Remove(b)
		err := diff.Files(&buf, a, b, opts...)
		return buf.Bytes(), err
	case "sources":
		a := schemalex.NewReaderSource(bytes.NewReader(old))
		b := schemalex.NewReaderSource(bytes.NewReader(new))
		err := diff.Sources(&buf, a, b, opts...)
		return buf.Bytes(), err
	case "sources-file":
		a, b := twoFiles(old, new)
		defer os.Remove(a)
		defer os.Remove(b)
		sa, err := schemalex.NewSchemaSource("file://" + filepath.ToSlash(a))
		if err != nil {
			return nil, err
		}
		sb, err := schemalex.NewSchemaSource(b)
		if err != nil {
			return nil, err
		}
		if a == b {
			sb = sa
		}
		err = diff.Sources(&buf, sa, sb, opts...)
		return buf.Bytes(), err
	default:
		err := diff.Strings(&buf, string(old), string(new), opts...)
		return buf.Bytes(), err
	}
}

// twoFiles is one file if the content is the same
func twoFiles(a, b []byte) (string, string) {
	if bytes.Equal(a, b) {
		f := tempFile(a)
		return f, f
	}
	return tempFile(a), tempFile(b)
}
