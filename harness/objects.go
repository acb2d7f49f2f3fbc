package main

import (
	"bytes"
	"encoding/json"

	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/model"
)

// a call on an object, as in spec/Objects.tla
type ocall struct {
	Op string          `json:"op"`
	O  int             `json:"o"`
	A  string          `json:"a"`
	V  json.RawMessage `json:"v"`
}

type oview map[string]interface{}

func viewCol(c model.TableColumn) oview {
	p := projCol(c)
	if c.Type() == model.ColumnTypeInvalid {
		p.Typ = ""
	}
	v := oview{"kind": "col", "name": p.Name, "typ": p.Typ, "len": []interface{}{}, "uns": p.Uns, "zf": p.Zf, "bin": p.Bin, "cs": p.Cs, "co": p.Co, "upd": p.Upd,
		"nul": p.Nul, "def": p.Def, "ai": p.Ai, "uniq": p.Uniq, "prim": p.Prim, "key": p.Key, "com": p.Com, "tid": enc(c.TableID())}
	if c.HasLength() {
		v["len"] = []interface{}{viewLen(c.Length())}
	}
	enum, set := []string{}, []string{}
	for x := range c.EnumValues() {
		enum = append(enum, enc(x))
	}
	for x := range c.SetValues() {
		set = append(set, enc(x))
	}
	if c.HasEnumValues() != (len(enum) > 0) || c.HasSetValues() != (len(set) > 0) {
		enum = append(enum, "? Has...Values is wrong")
	}
	v["enum"], v["set"] = enum, set
	return v
}

func viewLen(l model.Length) map[string]interface{} {
	return map[string]interface{}{"len": enc(l.Length()), "dec": opt(l.HasDecimal(), l.Decimal())}
}

func viewObject(o interface{}) oview {
	switch o := o.(type) {
	case model.TableColumn:
		return viewCol(o)
	case model.Length:
		v := oview(viewLen(o))
		v["kind"] = "len"
		return v
	case model.Table:
		return oview{"kind": "tab", "name": enc(o.Name()), "temp": o.IsTemporary(), "ine": o.IsIfNotExists(), "like": opt(o.HasLikeTable(), o.LikeTable())}
	case model.Database:
		return oview{"kind": "db", "name": enc(o.Name()), "ine": o.IsIfNotExists()}
	case model.Index:
		p := projIdx(o)
		opts := []ptopt{}
		for x := range o.Options() {
			opts = append(opts, ptopt{K: enc(x.Key()), V: enc(x.Value()), Q: x.NeedQuotes()})
		}
		if o.HasType() != (o.IsBtree() || o.IsHash()) || o.IsBtree() && o.IsHash() {
			p.Typ = "? HasType is wrong"
		}
		return oview{"kind": "idx", "ikind": p.Kind, "sym": p.Sym, "name": p.Name, "typ": p.Typ, "cols": p.Cols, "opts": opts, "ref": p.Ref}
	case model.Reference:
		p := projRef(o)
		return oview{"kind": "ref", "t": p.T, "cols": p.Cols, "match": p.Match, "del": p.Del, "upd": p.Upd}
	case model.IndexColumn:
		n := 0
		for _, b := range []bool{o.IsAscending(), o.IsDescending()} {
			if b {
				n++
			}
		}
		v := oview{"kind": "ixcol", "n": enc(o.Name()), "len": opt(o.HasLength(), o.Length()), "dir": "none"}
		switch {
		case o.HasSortDirection() != (n == 1):
			v["dir"] = "? HasSortDirection is wrong"
		case o.IsAscending():
			v["dir"] = "asc"
		case o.IsDescending():
			v["dir"] = "desc"
		}
		return v
	}
	return oview{"kind": "?"}
}

// newObject makes an object of its initial record in spec/Objects.tla
func newObject(kind, name, ikind, length string) interface{} {
	switch kind {
	case "col":
		return model.NewTableColumn(name)
	case "len":
		return model.NewLength(length)
	case "ixcol":
		return model.NewIndexColumn(name)
	case "ref":
		return model.NewReference()
	case "idx":
		return buildIdx(pidx{Kind: ikind}, "table#t")
	case "tab":
		return model.NewTable(name)
	case "db":
		return model.NewDatabase(name)
	}
	fail("no object of kind %s", kind)
	return nil
}

func init() {
	// a history of calls, and what all the objects show afterwards
	handlers["objects"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Heap []struct {
				Kind, N, Ikind string
				Name, Len      json.RawMessage // of an index, the name is a list
			}
			Path []ocall
		}
		must(raw, &j)
		var heap []interface{}
		for _, h := range j.Heap {
			var l, name string
			json.Unmarshal(h.Len, &l)
			json.Unmarshal(h.Name, &name)
			heap = append(heap, newObject(h.Kind, dec(name+h.N), h.Ikind, dec(l)))
		}
		fluent := true
		same := func(a, b interface{}) {
			if a != b {
				fluent = false
			}
		}
		for _, e := range j.Path {
			var s string
			var ss []string
			var b bool
			var n int
			json.Unmarshal(e.V, &s)
			json.Unmarshal(e.V, &ss)
			json.Unmarshal(e.V, &b)
			json.Unmarshal(e.V, &n)
			for i := range ss {
				ss[i] = dec(ss[i])
			}
			s = dec(s)
			first := func() string {
				if len(ss) != 1 {
					fail("no value: %s", e.V)
				}
				return ss[0]
			}
			o := heap[e.O-1]
			if e.Op == "clone" {
				switch o := o.(type) {
				case model.TableColumn:
					heap = append(heap, o.Clone())
				case model.Index:
					heap = append(heap, o.Clone())
				}
				continue
			}
			switch o := o.(type) {
			case model.TableColumn:
				switch e.A {
				case "typ":
					same(o, o.SetType(colTypes[s]))
				case "len":
					same(o, o.SetLength(heap[n-1].(model.Length)))
				case "uns":
					same(o, o.SetUnsigned(b))
				case "zf":
					same(o, o.SetZeroFill(b))
				case "bin":
					same(o, o.SetBinary(b))
				case "ai":
					same(o, o.SetAutoIncrement(b))
				case "uniq":
					same(o, o.SetUnique(b))
				case "prim":
					same(o, o.SetPrimary(b))
				case "key":
					same(o, o.SetKey(b))
				case "cs":
					same(o, o.SetCharacterSet(first()))
				case "co":
					same(o, o.SetCollation(first()))
				case "upd":
					same(o, o.SetAutoUpdate(first()))
				case "com":
					same(o, o.SetComment(first()))
				case "nul":
					same(o, o.SetNullState(map[string]model.NullState{"none": model.NullStateNone, "null": model.NullStateNull, "notnull": model.NullStateNotNull}[s]))
				case "def":
					var d []pdef
					must(e.V, &d)
					same(o, o.SetDefault(dec(d[0].V), d[0].Q))
				case "enum":
					same(o, o.SetEnumValues(ss))
				case "set":
					same(o, o.SetSetValues(ss))
				case "tid":
					same(o, o.SetTableID(s))
				default:
					fail("no attribute %s", e.A)
				}
			case model.Length:
				same(o, o.SetDecimal(first()))
			case model.Table:
				switch e.A {
				case "temp":
					same(o, o.SetTemporary(b))
				case "ine":
					same(o, o.SetIfNotExists(b))
				case "like":
					same(o, o.SetLikeTable(first()))
				}
			case model.Database:
				same(o, o.SetIfNotExists(b))
			case model.Index:
				switch e.A {
				case "sym":
					same(o, o.SetSymbol(first()))
				case "name":
					same(o, o.SetName(first()))
				case "typ":
					same(o, o.SetType(map[string]model.IndexType{"none": model.IndexTypeNone, "btree": model.IndexTypeBtree, "hash": model.IndexTypeHash}[s]))
				case "cols":
					o.AddColumns(heap[n-1].(model.IndexColumn))
				case "opts":
					var d ptopt
					must(e.V, &d)
					same(o, o.AddOption(model.NewIndexOption(dec(d.K), dec(d.V), d.Q)))
				case "ref":
					same(o, o.SetReference(heap[n-1].(model.Reference)))
				default:
					fail("no attribute %s", e.A)
				}
			case model.Reference:
				switch e.A {
				case "t":
					same(o, o.SetTableName(s))
				case "cols":
					o.AddColumns(heap[n-1].(model.IndexColumn))
				case "match":
					same(o, o.SetMatch(map[string]model.ReferenceMatch{"none": model.ReferenceMatchNone, "full": model.ReferenceMatchFull,
						"partial": model.ReferenceMatchPartial, "simple": model.ReferenceMatchSimple}[s]))
				case "del":
					same(o, o.SetOnDelete(buildRefOpt(s)))
				case "upd":
					same(o, o.SetOnUpdate(buildRefOpt(s)))
				default:
					fail("no attribute %s", e.A)
				}
			case model.IndexColumn:
				switch e.A {
				case "len":
					same(o, o.SetLength(first()))
				case "dir":
					o.SetSortDirection(map[string]model.IndexColumnSortDirection{"none": model.SortDirectionNone, "asc": model.SortDirectionAscending,
						"desc": model.SortDirectionDescending}[s])
				default:
					fail("no attribute %s", e.A)
				}
			}
		}
		views := []oview{}
		for _, o := range heap {
			views = append(views, viewObject(o))
		}
		return map[string]interface{}{"views": views, "fluent": fluent}
	}

	// what is printed of parts of a table that was never parsed
	handlers["pieces"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Table ptable
			Ine   bool
		}
		must(raw, &j)
		t := buildTable(j.Table)
		type piece struct {
			OK  bool   `json:"ok"`
			Out []byte `json:"out"`
		}
		sql := func(v interface{}) piece {
			var b bytes.Buffer
			err := format.SQL(&b, v)
			return piece{err == nil, b.Bytes()}
		}
		r := struct {
			Table  piece   `json:"table"`
			Cols   []piece `json:"cols"`
			Idx    []piece `json:"idx"`
			Refs   []piece `json:"refs"`
			Strs   []piece `json:"strs"` // the references as strings
			Opts   []piece `json:"opts"`
			DB     piece   `json:"db"`
			Before ptable  `json:"before"`
			After  ptable  `json:"after"`
		}{Cols: []piece{}, Idx: []piece{}, Refs: []piece{}, Strs: []piece{}, Opts: []piece{}}
		r.Before = projTable(t)
		r.Table = sql(t)
		for c := range t.Columns() {
			r.Cols = append(r.Cols, sql(c))
		}
		for x := range t.Indexes() {
			r.Idx = append(r.Idx, sql(x))
			if x.Reference() != nil {
				r.Refs = append(r.Refs, sql(x.Reference()))
				r.Strs = append(r.Strs, piece{true, []byte(x.Reference().String())})
			} else {
				r.Refs = append(r.Refs, piece{})
				r.Strs = append(r.Strs, piece{})
			}
		}
		for o := range t.Options() {
			r.Opts = append(r.Opts, sql(o))
		}
		d := model.NewDatabase(dec(j.Table.Name))
		d.SetIfNotExists(j.Ine)
		r.DB = sql(d)
		r.After = projTable(t)
		return r
	}
}
