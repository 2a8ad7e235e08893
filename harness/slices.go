package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// Slices: for one feature, a file template and its variants; every ordered
// pair of variants is a transition.

type slot struct {
	D, Name string
	Tmpl    string
	Vars    []string
	files   []string
	gen     bool
}

func (s *slot) file(i int) string {
	v := strings.ReplaceAll(s.Vars[i], "\\n", "\n")
	var t string
	if v == "-" {
		var ls []string
		for _, l := range strings.Split(s.Tmpl, "\n") {
			if !strings.Contains(l, "$V") {
				ls = append(ls, l)
			}
		}
		t = strings.Join(ls, "\n")
	} else {
		t = strings.ReplaceAll(s.Tmpl, "$V", v)
	}
	t = strings.ReplaceAll(t, "$T", "t_"+s.Name)
	return strings.TrimRight(t, "; \n") + ";\n"
}

func loadSlices(d string) []*slot {
	b, err := os.ReadFile(filepath.Join(verifDir(), "slices", d+".txt"))
	if err != nil {
		die("slices: %v", err)
	}
	var out []*slot
	var cur *slot
	mode := ""
	var tmpl []string
	for _, l := range strings.Split(string(b), "\n") {
		switch {
		case strings.HasPrefix(l, "@slot "):
			cur = &slot{D: d, Name: strings.TrimSpace(l[6:])}
			tmpl = nil
			mode = "t"
		case l == "@vars":
			cur.Tmpl = strings.Join(tmpl, "\n")
			mode = "v"
		case l == "@end":
			out = append(out, cur)
			mode = ""
		case mode == "t":
			tmpl = append(tmpl, l)
		case mode == "v":
			cur.Vars = append(cur.Vars, l)
		}
	}
	for _, s := range out {
		for i := range s.Vars {
			s.files = append(s.files, s.file(i))
		}
	}
	return out
}

// A trans is one transition to be exercised: from one file's schema to another file.
type trans struct {
	ID   string
	D    string
	From string // file whose schema is the current state ("" = empty database)
	To   string
}

func sliceTrans(d, only string) []*trans {
	var out []*trans
	for _, s := range loadSlices(d) {
		if only != "" && s.Name != only {
			continue
		}
		for j := range s.files {
			out = append(out, &trans{fmt.Sprintf("%s/%s/_>%d", d, s.Name, j), d, "", s.files[j]})
		}
		for i := range s.files {
			for j := range s.files {
				if s.files[i] != s.files[j] {
					out = append(out, &trans{fmt.Sprintf("%s/%s/%d>%d", d, s.Name, i, j), d, s.files[i], s.files[j]})
				}
			}
		}
	}
	return out
}
