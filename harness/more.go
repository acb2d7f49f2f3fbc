package main

import (
	"encoding/json"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/model"
)

func init() {
	// many short inputs, and where each of them is rejected
	handlers["parsemany"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Texts []string
			Via   string
		}
		must(raw, &j)
		type res struct {
			OK    bool `json:"ok"`
			Nil   bool `json:"nil"`
			Parse bool `json:"parse"`
			Line  int  `json:"line"`
			Col   int  `json:"col"`
			EOF   bool `json:"eof"`
		}
		out := []res{}
		p := schemalex.New()
		for _, t := range j.Texts {
			var stmts model.Stmts
			var err error
			if j.Via == "string" {
				stmts, err = p.ParseString(dec(t))
			} else {
				stmts, err = p.Parse([]byte(dec(t)))
			}
			r := res{OK: err == nil, Nil: len(stmts) == 0}
			if pe, ok := err.(schemalex.ParseError); ok {
				r.Parse, r.Line, r.Col, r.EOF = true, pe.Line(), pe.Col(), pe.EOF()
			}
			out = append(out, r)
		}
		return out
	}

	// normalize a table that has been built through the interface, and its
	// columns
	handlers["norm"] = func(raw json.RawMessage) interface{} {
		var j struct{ Raw ptable }
		must(raw, &j)
		type tres struct {
			Before ptable `json:"before"`
			N1     ptable `json:"n1"`
			Mod1   bool   `json:"mod1"`
			After  ptable `json:"after"`
			N2     ptable `json:"n2"`
			Mod2   bool   `json:"mod2"`
		}
		type cres struct {
			Before pcol `json:"before"`
			N1     pcol `json:"n1"`
			Mod1   bool `json:"mod1"`
			After  pcol `json:"after"`
			N2     pcol `json:"n2"`
			Mod2   bool `json:"mod2"`
		}
		var r struct {
			Table   tres     `json:"table"`
			Cols    []cres   `json:"cols"`
			Owners  []string `json:"owners"`
			Owners2 []string `json:"owners2"`
		}
		r.Cols, r.Owners, r.Owners2 = []cres{}, []string{}, []string{}
		for _, p := range j.Raw.Cols {
			c := buildCol(p)
			var x cres
			x.Before = projCol(c)
			n1, m1 := c.Normalize()
			x.N1, x.Mod1, x.After = projCol(n1), m1, projCol(c)
			n2, m2 := n1.Normalize()
			x.N2, x.Mod2 = projCol(n2), m2
			r.Cols = append(r.Cols, x)
		}
		t := buildTable(j.Raw)
		r.Table.Before = projTable(t)
		for c := range t.Columns() {
			r.Owners = append(r.Owners, c.TableID())
		}
		n1, m1 := t.Normalize()
		r.Table.N1, r.Table.Mod1, r.Table.After = projTable(n1), m1, projTable(t)
		for c := range t.Columns() {
			r.Owners2 = append(r.Owners2, c.TableID())
		}
		n2, m2 := n1.Normalize()
		r.Table.N2, r.Table.Mod2 = projTable(n2), m2
		return r
	}
}
