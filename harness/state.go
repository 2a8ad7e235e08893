package main

import (
	"encoding/json"
)

// The schema state as produced by the TLA+ engine (module Engine).

type SDef struct {
	K string `json:"k"`
	V string `json:"v"`
}

type SCol struct {
	N       string   `json:"n"`
	Id      int      `json:"id"`
	Base    string   `json:"base"`
	Args    []string `json:"args"`
	Arr     bool     `json:"arr"`
	Null    bool     `json:"null"`
	Def     SDef     `json:"def"`
	DefName string   `json:"defname"`
	DefAuto bool     `json:"defauto"`
	HasDef  bool     `json:"hasdef"`
	Auto    bool     `json:"auto"`
	OnUpd   string   `json:"onupd"`
	Charset string   `json:"charset"`
	Collate string   `json:"collate"`
	Comment string   `json:"comment"`
	Ident   Ident    `json:"ident"`
	Gen     string   `json:"gen"`
}

type SKey struct {
	Name     string   `json:"name"`
	Kind     string   `json:"kind"`
	Cols     []KeyCol `json:"cols"`
	Where    string   `json:"where"`
	Wcols    []string `json:"wcols"`
	Incl     []string `json:"incl"`
	Opts     []Opt    `json:"opts"`
	Clus     string   `json:"clus"`
	Part     string   `json:"part"`
	Con      bool     `json:"con"`
	Auto     bool     `json:"auto"`
	Implicit bool     `json:"implicit"`
	Id       int      `json:"id"`
}

type SFk struct {
	Name  string   `json:"name"`
	Cols  []string `json:"cols"`
	Ref   Tbl      `json:"ref"`
	Rcols []string `json:"rcols"`
	Del   string   `json:"del"`
	Upd   string   `json:"upd"`
	Nfr   bool     `json:"nfr"`
	Auto  bool     `json:"auto"`
	Idx   string   `json:"idx"`
	Id    int      `json:"id"`
}

type SCheck struct {
	Name  string   `json:"name"`
	Col   string   `json:"col"`
	Expr  string   `json:"expr"`
	Cols  []string `json:"cols"`
	Noinh bool     `json:"noinh"`
	Nfr   bool     `json:"nfr"`
	Auto  bool     `json:"auto"`
	Id    int      `json:"id"`
}

type SPol struct {
	N     string   `json:"n"`
	Perm  string   `json:"perm"`
	Cmd   string   `json:"cmd"`
	Roles []string `json:"roles"`
	Using string   `json:"using"`
	Check string   `json:"check"`
	Ucols []string `json:"ucols"`
	Id    int      `json:"id"`
}

type STable struct {
	S       string   `json:"s"`
	N       string   `json:"n"`
	Id      int      `json:"id"`
	Cols    []SCol   `json:"cols"`
	Keys    []SKey   `json:"keys"`
	Fks     []SFk    `json:"fks"`
	Checks  []SCheck `json:"checks"`
	Pols    []SPol   `json:"pols"`
	Charset string   `json:"charset"`
	Collate string   `json:"collate"`
}

type SView struct {
	S     string   `json:"s"`
	N     string   `json:"n"`
	Id    int      `json:"id"`
	Def   string   `json:"def"`
	Cols  []string `json:"cols"`
	Names []string `json:"names"`
	Refs  []Tbl    `json:"refs"`
	Rcols []string `json:"rcols"`
	Text  string   `json:"text"`
}

type STrig struct {
	N     string `json:"n"`
	T     Tbl    `json:"t"`
	Id    int    `json:"id"`
	Time  string `json:"time"`
	Event string `json:"event"`
	Each  string `json:"each"`
	Body  string `json:"body"`
	Text  string `json:"text"`
}

type DB struct {
	Tables []STable `json:"tables"`
	Views  []SView  `json:"views"`
	Trigs  []STrig  `json:"trigs"`
	Nid    int      `json:"nid"`
}

func newDB() DB {
	return DB{Tables: []STable{}, Views: []SView{}, Trigs: []STrig{}, Nid: 1}
}

func toDB(v interface{}) DB {
	b, err := json.Marshal(v)
	if err != nil {
		die("state: %v", err)
	}
	var d DB
	if err := json.Unmarshal(b, &d); err != nil {
		die("state: %v: %s", err, b)
	}
	return d
}

func (t *STable) col(n string) *SCol {
	for i := range t.Cols {
		if t.Cols[i].N == n {
			return &t.Cols[i]
		}
	}
	return nil
}

func (t *STable) primary() *SKey {
	for i := range t.Keys {
		if t.Keys[i].Kind == "primary" {
			return &t.Keys[i]
		}
	}
	return nil
}

func (d *DB) table(s, n string) *STable {
	for i := range d.Tables {
		if d.Tables[i].S == s && d.Tables[i].N == n {
			return &d.Tables[i]
		}
	}
	return nil
}
