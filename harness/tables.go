package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/schemalex/schemalex/model"
)

type tedit struct {
	E string `json:"e"`
	T int    `json:"t"`
	C int    `json:"c"`
	P int    `json:"p"`
	V string `json:"v"`
}

type tcol struct {
	Name string `json:"name"`
	Com  string `json:"com"`
}

type tlook struct {
	Name   string `json:"name"`
	Found  bool   `json:"found"`
	At     int    `json:"at"`
	Ofound bool   `json:"ofound"`
	Order  int    `json:"order"`
	Bfound bool   `json:"bfound"`
	Before int    `json:"before"`
}

type tseen struct {
	Cols     []tcol   `json:"cols"`
	Defs     []string `json:"defs"`
	Owners   []bool   `json:"owners"`
	Idx      []string `json:"idx"`
	Opts     []string `json:"opts"`
	Idxfound []bool   `json:"idxfound"`
	Idxother bool     `json:"idxother"`
	Lookups  []tlook  `json:"lookups"`
}

// position of a column in a listing, from 1
func colAt(cols []model.TableColumn, c model.TableColumn) int {
	for i, x := range cols {
		if x == c {
			return i + 1
		}
	}
	return 0
}

func lookAt(t model.Table, cols []model.TableColumn, id string) (l tlook) {
	c, ok := t.LookupColumn(id)
	l.Found = ok
	if ok {
		l.At = colAt(cols, c)
	}
	l.Order, l.Ofound = t.LookupColumnOrder(id)
	b, ok := t.LookupColumnBefore(id)
	l.Bfound = ok
	if ok {
		l.Before = colAt(cols, b)
	}
	return l
}

// the definition of a column, but for its comment
func restOfCol(c model.TableColumn) string {
	p := projCol(c)
	p.Com = nil
	return digest(p)
}

func seeTable(t model.Table, names []string) tseen {
	s := tseen{Cols: []tcol{}, Defs: []string{}, Owners: []bool{}, Idx: []string{}, Opts: []string{}, Idxfound: []bool{}, Lookups: []tlook{}}
	var cols []model.TableColumn
	for c := range t.Columns() {
		cols = append(cols, c)
		s.Cols = append(s.Cols, tcol{enc(c.Name()), enc(c.Comment())})
		s.Defs = append(s.Defs, restOfCol(c))
		s.Owners = append(s.Owners, c.TableID() == t.ID())
	}
	for x := range t.Indexes() {
		s.Idx = append(s.Idx, enc(x.Name()))
		f, ok := t.LookupIndex(x.ID())
		s.Idxfound = append(s.Idxfound, ok && f.ID() == x.ID())
	}
	other := model.NewIndex(model.IndexKindNormal, t.ID())
	other.SetName("not there")
	_, s.Idxother = t.LookupIndex(other.ID())
	for o := range t.Options() {
		s.Opts = append(s.Opts, enc(o.Key()))
	}
	for _, n := range names {
		l := lookAt(t, cols, model.NewTableColumn(n).ID())
		l.Name = enc(n)
		s.Lookups = append(s.Lookups, l)
	}
	return s
}

func init() {
	// a sequence of edits of tables, and what is seen of each table
	handlers["history"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Tables []string
			Names  []string // of the column objects
			Cols   []pcol   // their definitions
			Ask    []string // names to look up as well
			Path   []tedit
			Every  bool // look after every edit
		}
		must(raw, &j)
		var tables []model.Table
		for _, n := range j.Tables {
			tables = append(tables, model.NewTable(dec(n)))
		}
		var objs []model.TableColumn
		ask := map[string]bool{}
		var r struct {
			Defs []string  `json:"defs"`
			Seen [][]tseen `json:"seen"`
		}
		for i, n := range j.Names {
			o := model.NewTableColumn(dec(n))
			if i < len(j.Cols) {
				p := j.Cols[i]
				p.Name, p.Com = n, nil
				o = buildCol(p)
			}
			objs = append(objs, o)
			r.Defs = append(r.Defs, restOfCol(o))
			ask[dec(n)] = true
		}
		for _, n := range j.Ask {
			ask[dec(n)] = true
		}
		names := []string{}
		for n := range ask {
			names = append(names, n)
		}
		sort.Strings(names)
		r.Seen = [][]tseen{}
		look := func() {
			l := []tseen{}
			for _, t := range tables {
				l = append(l, seeTable(t, names))
			}
			r.Seen = append(r.Seen, l)
		}
		for _, e := range j.Path {
			switch e.E {
			case "col":
				tables[e.T-1].AddColumn(objs[e.C-1])
			case "set":
				objs[e.C-1].SetComment(dec(e.V))
			case "setin":
				k := 0
				for col := range tables[e.T-1].Columns() {
					if k++; k == e.P {
						col.SetComment(dec(e.V))
					}
				}
			case "idx":
				x := model.NewIndex(model.IndexKindNormal, tables[e.T-1].ID())
				x.SetName(dec(e.V))
				tables[e.T-1].AddIndex(x)
			case "opt":
				tables[e.T-1].AddOption(model.NewTableOption(dec(e.V), "x", false))
			}
			if j.Every {
				look()
			}
		}
		if !j.Every {
			look()
		}
		return r
	}

	// the IDs of indexes (all of one table) and columns
	handlers["ids"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Table string
			Idx   []pidx
			Cols  []string
		}
		must(raw, &j)
		var r struct {
			Idx  []string `json:"idx"`
			Cols []string `json:"cols"`
		}
		t := model.NewTable(dec(j.Table))
		for _, x := range j.Idx {
			a, b := buildIdx(x, t.ID()), buildIdx(x, t.ID())
			id := enc(a.ID())
			if a.ID() != a.ID() || b.ID() != a.ID() || a.Clone().ID() != a.ID() {
				id = "(varies)"
			}
			r.Idx = append(r.Idx, id)
		}
		for _, n := range j.Cols {
			r.Cols = append(r.Cols, enc(model.NewTableColumn(dec(n)).ID()))
		}
		return r
	}

	// additions and lookups of columns at the same time
	handlers["together"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Adders, Each, Lookers, Looks int
			Shared                       bool // the columns have another owner already
			Pause                        int  // µs, sometimes
		}
		must(raw, &j)
		type op struct {
			K    string `json:"k"`
			Pos  int    `json:"pos"`
			Inv  int64  `json:"inv"`
			Ret  int64  `json:"ret"`
			Call string `json:"call"`
			name string
			col  model.TableColumn
			n    int
			ok   bool
		}
		t := model.NewTable("t")
		other := model.NewTable("other")
		nth := func(a, i int) string { return fmt.Sprintf("c%d_%d", a, i) }
		cols := make([][]model.TableColumn, j.Adders)
		for a := range cols {
			for i := 0; i < j.Each; i++ {
				c := model.NewTableColumn(nth(a, i))
				if j.Shared {
					other.AddColumn(c)
				}
				cols[a] = append(cols[a], c)
			}
		}
		var clock int64
		tick := func() int64 { return atomic.AddInt64(&clock, 1) }
		logs := make([][]op, j.Adders+j.Lookers)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for a := 0; a < j.Adders; a++ {
			wg.Add(1)
			go func(a int) {
				defer wg.Done()
				<-start
				for i, c := range cols[a] {
					o := op{K: "add", Call: "AddColumn", name: nth(a, i)}
					o.Inv = tick()
					t.AddColumn(c)
					o.Ret = tick()
					logs[a] = append(logs[a], o)
					if j.Pause > 0 && i%3 == a%3 {
						time.Sleep(time.Duration(j.Pause) * time.Microsecond)
					}
				}
			}(a)
		}
		for l := 0; l < j.Lookers; l++ {
			wg.Add(1)
			go func(l int) {
				defer wg.Done()
				<-start
				for k := 0; k < j.Looks; k++ {
					n := nth((k+l)%j.Adders, (k/j.Adders)%j.Each)
					id := model.NewTableColumn(n).ID()
					o := op{name: n}
					o.Inv = tick()
					switch (k + l) % 3 {
					case 0:
						o.Call = "LookupColumn"
						o.col, o.ok = t.LookupColumn(id)
					case 1:
						o.Call = "LookupColumnOrder"
						o.n, o.ok = t.LookupColumnOrder(id)
					default:
						o.Call = "LookupColumnBefore"
						o.col, o.ok = t.LookupColumnBefore(id)
					}
					o.Ret = tick()
					logs[j.Adders+l] = append(logs[j.Adders+l], o)
					if j.Pause > 0 && k%4 == l%4 {
						time.Sleep(time.Duration(j.Pause) * time.Microsecond)
					}
				}
			}(l)
		}
		close(start)
		wg.Wait()
		var r struct {
			Added []string `json:"added"`
			Cols  []string `json:"cols"`
			Other []string `json:"other"`
			Wrong []string `json:"wrong"`
			Ops   []op     `json:"ops"`
		}
		r.Added, r.Cols, r.Other, r.Wrong, r.Ops = []string{}, []string{}, []string{}, []string{}, []op{}
		var list []model.TableColumn
		for c := range t.Columns() {
			list = append(list, c)
			r.Cols = append(r.Cols, c.Name())
		}
		for c := range other.Columns() {
			r.Other = append(r.Other, c.Name())
		}
		where := map[string]int{}
		for i, n := range r.Cols {
			where[n] = i + 1
		}
		for a := range cols {
			for i := range cols[a] {
				r.Added = append(r.Added, nth(a, i))
			}
		}
		for _, l := range logs {
			for _, o := range l {
				o.Pos = where[o.name]
				if o.K == "" {
					o.K = "miss"
					at := 0
					switch {
					case !o.ok && o.Call == "LookupColumnBefore" && o.Pos == 1:
						// says nothing: there is none before the first
						continue
					case !o.ok:
					case o.Call == "LookupColumnOrder":
						o.K, at = "hit", o.n+1
					case o.Call == "LookupColumn":
						o.K, at = "hit", colAt(list, o.col)
					default:
						o.K, at = "hit", colAt(list, o.col)+1
					}
					if o.K == "hit" && at != o.Pos && len(r.Wrong) < 5 {
						r.Wrong = append(r.Wrong, fmt.Sprintf("%s(%s): %d, not %d", o.Call, o.name, at, o.Pos))
					}
				}
				r.Ops = append(r.Ops, o)
			}
		}
		return r
	}
}
