package main

import (
	"strings"

	"github.com/schemalex/schemalex/model"
)

// enc represents a string of bytes: printable ASCII, \n, \t and \r are
// themselves, any other byte b is the character U+E000+b
func enc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 0x20 && c < 0x7f || c == '\n' || c == '\t' || c == '\r' {
			b.WriteByte(c)
		} else {
			b.WriteRune(0xE000 + rune(c))
		}
	}
	return b.String()
}

// dec is the inverse of enc
func dec(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 0xE000 && r <= 0xE0FF {
			b.WriteByte(byte(r - 0xE000))
		} else {
			b.WriteByte(byte(r))
		}
	}
	return b.String()
}

type pdef struct {
	V string `json:"v"`
	Q bool   `json:"q"`
}

type pcol struct {
	Name string   `json:"name"`
	Typ  string   `json:"typ"`
	Len  []string `json:"len"`
	Dec  []string `json:"dec"`
	Uns  bool     `json:"uns"`
	Zf   bool     `json:"zf"`
	Bin  bool     `json:"bin"`
	Cs   []string `json:"cs"`
	Co   []string `json:"co"`
	Upd  []string `json:"upd"`
	Nul  string   `json:"nul"`
	Def  []pdef   `json:"def"`
	Ai   bool     `json:"ai"`
	Uniq bool     `json:"uniq"`
	Prim bool     `json:"prim"`
	Key  bool     `json:"key"`
	Com  []string `json:"com"`
	Vals []string `json:"vals"`
}

type pixcol struct {
	N   string   `json:"n"`
	Len []string `json:"len"`
	Dir string   `json:"dir"`
}

type pref struct {
	T     string   `json:"t"`
	Cols  []pixcol `json:"cols"`
	Match string   `json:"match"`
	Del   string   `json:"del"`
	Upd   string   `json:"upd"`
}

type popt struct {
	K string `json:"k"`
	V string `json:"v"`
}

type pidx struct {
	Kind string   `json:"kind"`
	Sym  []string `json:"sym"`
	Name []string `json:"name"`
	Typ  string   `json:"typ"`
	Cols []pixcol `json:"cols"`
	Opts []popt   `json:"opts"`
	Ref  []pref   `json:"ref"`
}

type ptopt struct {
	K string `json:"k"`
	V string `json:"v"`
	Q bool   `json:"q"`
}

type ptable struct {
	Name string   `json:"name"`
	Temp bool     `json:"temp"`
	Ine  bool     `json:"ine"`
	Like []string `json:"like"`
	Cols []pcol   `json:"cols"`
	Idx  []pidx   `json:"idx"`
	Opts []ptopt  `json:"opts"`
}

func opt(has bool, s string) []string {
	if !has {
		return []string{}
	}
	return []string{enc(s)}
}

func projCol(c model.TableColumn) pcol {
	p := pcol{
		Name: enc(c.Name()), Typ: enc(c.Type().String()), Len: []string{}, Dec: []string{},
		Uns: c.IsUnsigned(), Zf: c.IsZeroFill(), Bin: c.IsBinary(),
		Cs: opt(c.HasCharacterSet(), c.CharacterSet()), Co: opt(c.HasCollation(), c.Collation()),
		Upd: opt(c.HasAutoUpdate(), c.AutoUpdate()), Def: []pdef{},
		Ai: c.IsAutoIncrement(), Uniq: c.IsUnique(), Prim: c.IsPrimary(), Key: c.IsKey(),
		Com: opt(c.HasComment(), c.Comment()), Vals: []string{},
	}
	if c.HasLength() {
		l := c.Length()
		p.Len = opt(true, l.Length())
		p.Dec = opt(l.HasDecimal(), l.Decimal())
	}
	switch c.NullState() {
	case model.NullStateNone:
		p.Nul = "none"
	case model.NullStateNull:
		p.Nul = "null"
	case model.NullStateNotNull:
		p.Nul = "notnull"
	default:
		p.Nul = "?"
	}
	if c.HasDefault() {
		p.Def = append(p.Def, pdef{V: enc(c.Default()), Q: c.IsQuotedDefault()})
	}
	if c.HasEnumValues() {
		for v := range c.EnumValues() {
			p.Vals = append(p.Vals, enc(v))
		}
	}
	if c.HasSetValues() {
		for v := range c.SetValues() {
			p.Vals = append(p.Vals, enc(v))
		}
	}
	return p
}

func projIdxCols(ch chan model.IndexColumn) []pixcol {
	out := []pixcol{}
	for c := range ch {
		p := pixcol{N: enc(c.Name()), Len: opt(c.HasLength(), c.Length()), Dir: "none"}
		switch {
		case c.HasSortDirection() && c.IsAscending() && !c.IsDescending():
			p.Dir = "asc"
		case c.HasSortDirection() && c.IsDescending() && !c.IsAscending():
			p.Dir = "desc"
		case c.HasSortDirection():
			p.Dir = "?"
		}
		out = append(out, p)
	}
	return out
}

func refOpt(o model.ReferenceOption) string {
	switch o {
	case model.ReferenceOptionNone:
		return "none"
	case model.ReferenceOptionRestrict:
		return "restrict"
	case model.ReferenceOptionCascade:
		return "cascade"
	case model.ReferenceOptionSetNull:
		return "setnull"
	case model.ReferenceOptionNoAction:
		return "noaction"
	}
	return "?"
}

func projRef(r model.Reference) pref {
	p := pref{T: enc(r.TableName()), Cols: projIdxCols(r.Columns()), Match: "none", Del: refOpt(r.OnDelete()), Upd: refOpt(r.OnUpdate())}
	switch {
	case r.MatchFull():
		p.Match = "full"
	case r.MatchPartial():
		p.Match = "partial"
	case r.MatchSimple():
		p.Match = "simple"
	}
	return p
}

func idxKind(i model.Index) string {
	var ks []string
	add := func(b bool, k string) {
		if b {
			ks = append(ks, k)
		}
	}
	add(i.IsPrimaryKey(), "PRIMARY")
	add(i.IsNormal(), "NORMAL")
	add(i.IsUnique(), "UNIQUE")
	add(i.IsFullText(), "FULLTEXT")
	add(i.IsSpatial(), "SPATIAL")
	add(i.IsForeignKey(), "FOREIGN")
	return strings.Join(ks, "+")
}

func projIdx(i model.Index) pidx {
	p := pidx{Kind: idxKind(i), Sym: opt(i.HasSymbol(), i.Symbol()), Name: opt(i.HasName(), i.Name()), Typ: "none",
		Cols: projIdxCols(i.Columns()), Opts: []popt{}, Ref: []pref{}}
	switch {
	case i.IsBtree() && i.HasType():
		p.Typ = "btree"
	case i.IsHash() && i.HasType():
		p.Typ = "hash"
	}
	for o := range i.Options() {
		p.Opts = append(p.Opts, popt{K: enc(o.Key()), V: enc(o.Value())})
	}
	if r := i.Reference(); r != nil {
		p.Ref = append(p.Ref, projRef(r))
	}
	return p
}

func projTable(t model.Table) ptable {
	p := ptable{Name: enc(t.Name()), Temp: t.IsTemporary(), Ine: t.IsIfNotExists(), Like: opt(t.HasLikeTable(), t.LikeTable()),
		Cols: []pcol{}, Idx: []pidx{}, Opts: []ptopt{}}
	for c := range t.Columns() {
		p.Cols = append(p.Cols, projCol(c))
	}
	for i := range t.Indexes() {
		p.Idx = append(p.Idx, projIdx(i))
	}
	for o := range t.Options() {
		p.Opts = append(p.Opts, ptopt{K: enc(o.Key()), V: enc(o.Value()), Q: o.NeedQuotes()})
	}
	return p
}

func projStmts(s model.Stmts) []ptable {
	out := []ptable{}
	for _, st := range s {
		if t, ok := st.(model.Table); ok {
			out = append(out, projTable(t))
		} else {
			out = append(out, ptable{Name: "? not a table", Like: []string{}, Cols: []pcol{}, Idx: []pidx{}, Opts: []ptopt{}})
		}
	}
	return out
}

// the inverse: build model objects with the public interface

var colTypes = map[string]model.ColumnType{}

func init() {
	for t := model.ColumnTypeInvalid + 1; t < model.ColumnTypeMax; t++ {
		colTypes[t.String()] = t
	}
	// and what is no type
	colTypes["?max"] = model.ColumnTypeMax
	colTypes["?beyond"] = model.ColumnTypeMax + 1000
	colTypes["?negative"] = -1
}

func buildCol(p pcol) model.TableColumn {
	c := model.NewTableColumn(dec(p.Name))
	c.SetType(colTypes[p.Typ])
	if len(p.Len) > 0 {
		l := model.NewLength(dec(p.Len[0]))
		if len(p.Dec) > 0 {
			l.SetDecimal(dec(p.Dec[0]))
		}
		c.SetLength(l)
	}
	c.SetUnsigned(p.Uns)
	c.SetZeroFill(p.Zf)
	c.SetBinary(p.Bin)
	if len(p.Cs) > 0 {
		c.SetCharacterSet(dec(p.Cs[0]))
	}
	if len(p.Co) > 0 {
		c.SetCollation(dec(p.Co[0]))
	}
	if len(p.Upd) > 0 {
		c.SetAutoUpdate(dec(p.Upd[0]))
	}
	switch p.Nul {
	case "null":
		c.SetNullState(model.NullStateNull)
	case "notnull":
		c.SetNullState(model.NullStateNotNull)
	}
	if len(p.Def) > 0 {
		c.SetDefault(dec(p.Def[0].V), p.Def[0].Q)
	}
	c.SetAutoIncrement(p.Ai)
	c.SetUnique(p.Uniq)
	c.SetPrimary(p.Prim)
	c.SetKey(p.Key)
	if len(p.Com) > 0 {
		c.SetComment(dec(p.Com[0]))
	}
	var vals []string
	for _, v := range p.Vals {
		vals = append(vals, dec(v))
	}
	switch p.Typ {
	case "ENUM":
		c.SetEnumValues(vals)
	case "SET":
		c.SetSetValues(vals)
	}
	return c
}

func buildIdxCols(ps []pixcol) []model.IndexColumn {
	var out []model.IndexColumn
	for _, p := range ps {
		c := model.NewIndexColumn(dec(p.N))
		if len(p.Len) > 0 {
			c.SetLength(dec(p.Len[0]))
		}
		switch p.Dir {
		case "asc":
			c.SetSortDirection(model.SortDirectionAscending)
		case "desc":
			c.SetSortDirection(model.SortDirectionDescending)
		}
		out = append(out, c)
	}
	return out
}

func buildRefOpt(s string) model.ReferenceOption {
	switch s {
	case "restrict":
		return model.ReferenceOptionRestrict
	case "cascade":
		return model.ReferenceOptionCascade
	case "setnull":
		return model.ReferenceOptionSetNull
	case "noaction":
		return model.ReferenceOptionNoAction
	case "none":
		return model.ReferenceOptionNone
	}
	return model.ReferenceOption(99)
}

func buildIdx(p pidx, tableID string) model.Index {
	kinds := map[string]model.IndexKind{"PRIMARY": model.IndexKindPrimaryKey, "NORMAL": model.IndexKindNormal,
		"UNIQUE": model.IndexKindUnique, "FULLTEXT": model.IndexKindFullText, "SPATIAL": model.IndexKindSpatial,
		"FOREIGN": model.IndexKindForeignKey}
	i := model.NewIndex(kinds[p.Kind], tableID)
	if len(p.Sym) > 0 {
		i.SetSymbol(dec(p.Sym[0]))
	}
	if len(p.Name) > 0 {
		i.SetName(dec(p.Name[0]))
	}
	switch p.Typ {
	case "btree":
		i.SetType(model.IndexTypeBtree)
	case "hash":
		i.SetType(model.IndexTypeHash)
	}
	i.AddColumns(buildIdxCols(p.Cols)...)
	for _, o := range p.Opts {
		i.AddOption(model.NewIndexOption(dec(o.K), dec(o.V), true))
	}
	for _, pr := range p.Ref {
		r := model.NewReference()
		r.SetTableName(dec(pr.T))
		r.AddColumns(buildIdxCols(pr.Cols)...)
		switch pr.Match {
		case "full":
			r.SetMatch(model.ReferenceMatchFull)
		case "partial":
			r.SetMatch(model.ReferenceMatchPartial)
		case "simple":
			r.SetMatch(model.ReferenceMatchSimple)
		}
		r.SetOnDelete(buildRefOpt(pr.Del))
		r.SetOnUpdate(buildRefOpt(pr.Upd))
		i.SetReference(r)
	}
	return i
}

func buildTable(p ptable) model.Table {
	t := model.NewTable(dec(p.Name))
	t.SetTemporary(p.Temp)
	t.SetIfNotExists(p.Ine)
	if len(p.Like) > 0 {
		t.SetLikeTable(dec(p.Like[0]))
	}
	for _, c := range p.Cols {
		t.AddColumn(buildCol(c))
	}
	for _, i := range p.Idx {
		t.AddIndex(buildIdx(i, t.ID()))
	}
	for _, o := range p.Opts {
		t.AddOption(model.NewTableOption(dec(o.K), dec(o.V), o.Q))
	}
	return t
}
