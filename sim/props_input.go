package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
)

// ------------------------------------------------------------------ C05
// Inputs that a crash, a torn write or an operator left unusable.

// tear returns the damaged content (nil with ok: the file is absent).
func tear(kind string, b []byte, arg int64, tail []byte) (out []byte, ok bool) {
	n := int64(len(b))
	switch kind {
	case "truncated":
		if arg >= n {
			return nil, false
		}
		return b[:arg:arg], true
	case "zero-tail":
		if arg >= n {
			return nil, false
		}
		o := append([]byte{}, b...)
		for i := arg; i < n; i++ {
			o[i] = 0
		}
		return o, true
	case "zero-sector":
		o := append([]byte{}, b...)
		lo := arg
		hi := lo + 512
		if hi > n {
			hi = n
		}
		if lo >= hi {
			return nil, false
		}
		for i := lo; i < hi; i++ {
			o[i] = 0
		}
		return o, true
	case "old-tail": // a shorter new version written over a longer old one
		return append(append([]byte{}, b...), tail...), true
	case "empty":
		return []byte{}, true
	case "missing", "directory":
		return nil, true
	}
	return nil, false
}

// unusable decides independently of the tool whether the damaged content can
// still be a complete input.
func unusable(in, kind string, good, bad []byte) bool {
	if kind == "missing" || kind == "directory" {
		return true
	}
	switch {
	case strings.HasSuffix(in, ".sql"):
		return false
	case strings.HasSuffix(in, ".xlsx"):
		return len(bad) < len(good) || kind != "truncated"
	default:
		return !json.Valid(bad)
	}
}

func judgeC05(env *Env, c *Case) Verdict {
	b := c.baseline(env)
	res := env.run(c.World)
	v := Verdict{Res: res}
	if b.Procs[0].Exit != 0 {
		v.Trivial = true
		return v
	}
	p := res.Procs[0]
	if m := crashMsg(p); m != "" {
		v.Msg = m
		v.Key = "crash in " + crashKey(p)
		return v
	}
	in := c.Arg["input"]
	what := c.Arg["kind"] + " input " + in
	if p.Exit == 0 {
		if strings.HasSuffix(in, ".sql") && c.Arg["kind"] != "missing" && c.Arg["kind"] != "directory" {
			// accepting the complete statements before the tear is sound
			if m := sqlPrefix(c, b, res); m != "" {
				v.Msg = what + ": " + m
			}
			return v
		}
		v.Msg = what + " was accepted (exit 0)"
		return v
	}
	if strings.TrimSpace(normErr(p.Stderr)) == "" {
		v.Msg = what + ": the command failed without saying why on standard error"
		return v
	}
	if d := diffTree(res.Before, res.Final); d != "" {
		v.Msg = what + " was rejected, but the run changed the disk: " + d
	}
	return v
}

type imported struct {
	Tables []map[string]interface{} `json:"tables"`
}

// sqlPrefix: every table that was imported must be complete.
func sqlPrefix(c *Case, b, res *Result) string {
	var full, part imported
	fo, po := c.Scen.outTree(b.Final), c.Scen.outTree(res.Final)
	for _, q := range fo.keys() {
		if json.Unmarshal([]byte(fo[q]), &full) != nil {
			return "the undisturbed output is not JSON"
		}
		if _, ok := po[q]; !ok {
			return "exit 0 without an output file"
		}
		if json.Unmarshal([]byte(po[q]), &part) != nil {
			return "the output is not JSON"
		}
	}
	byName := map[string]string{}
	enc := func(t map[string]interface{}) string {
		delete(t, "desc")
		x, _ := json.Marshal(t)
		return string(x)
	}
	for _, t := range full.Tables {
		byName[fmt.Sprint(t["name"])] = enc(t)
	}
	for _, t := range part.Tables {
		n := fmt.Sprint(t["name"])
		if byName[n] == "" {
			return "the torn input produced a table " + n + " that the whole input does not have"
		}
		if byName[n] != enc(t) {
			return "the torn input was accepted with an incomplete table " + n
		}
	}
	return ""
}

func withInput(sc *Scen, seed uint64, in, kind string, bad []byte) *World {
	w := sc.run1(seed)
	delete(w.Files, in)
	switch kind {
	case "missing":
	case "directory":
		w.Dirs = append(w.Dirs, in)
	default:
		w.Files[in] = bad
	}
	return w
}

func init() {
	p := &Property{ID: "C05", Level: "fault_enumeration", Quick: 2000, Deep: 12000, Judge: judgeC05,
		Rule: "per scenario every input is replaced by what a crash or a torn write leaves: truncated at sampled offsets (dense at both ends), empty, zero-filled tail or sector, followed by the tail of a longer older version, missing, or a directory; the tool must reject it, say why and change nothing; distinct: different system-call trace and final disk"}
	p.Run = func(env *Env, i int, r *rng) []*Case {
		kind := allKinds[1+i%(len(allKinds)-1)]
		sc, b := env.prepared(r, kind, scenOpt{old: true, big: r.p(1, 10)})
		if sc == nil {
			return nil
		}
		var out []*Case
		try := func(in, k string, arg int64, tail []byte) bool {
			good := sc.Files[in]
			bad, ok := tear(k, good, arg, tail)
			if !ok || bytes.Equal(bad, good) {
				return false
			}
			if !strings.HasSuffix(in, ".sql") && !unusable(in, k, good, bad) {
				return false
			}
			w := withInput(sc, r.seed(), in, k, bad)
			if r.p(1, 6) {
				w.MaxRead = int64(1 + r.n(700))
			}
			verdict(env, p, &Case{Prop: "C05", Sub: k, Seed: env.seed, Index: i, Scen: sc, World: w, base: b,
				Arg: map[string]string{"input": in, "kind": k}}, &out)
			return stopEarly(out)
		}
		max := 16
		if env.tier == "thorough" {
			max = 120
		}
		for _, in := range sc.Inputs {
			good := sc.Files[in]
			n := int64(len(good))
			for k := 0; k < max; k++ {
				at := int64(r.n(int(n)))
				if k < 4 {
					at = n - 1 - int64(k)
				} else if k < 6 {
					at = int64(k - 3)
				} else if k < 8 && n > 512 {
					at = int64(512 * (1 + r.n(int(n/512))))
				}
				if at < 0 || at >= n {
					continue
				}
				if try(in, "truncated", at, nil) {
					return out
				}
			}
			for _, k := range []string{"empty", "missing", "directory"} {
				if try(in, k, 0, nil) {
					return out
				}
			}
			if strings.HasSuffix(in, ".sql") {
				continue
			}
			for k := 0; k < 3; k++ {
				if strings.HasSuffix(in, ".xlsx") {
					// the directory of the archive is at its end
					if try(in, "zero-tail", n-int64(1+r.n(int(n/2))), nil) {
						return out
					}
					continue
				}
				if try(in, "zero-tail", int64(r.n(int(n))), nil) || try(in, "zero-sector", int64(512*r.n(int(n/512)+1)), nil) {
					return out
				}
				cut := r.n(int(n))
				if try(in, "old-tail", 0, good[cut:]) {
					return out
				}
			}
		}
		return out
	}
	register(p)
}

// ------------------------------------------------------------------ C14
// Stored inputs with flipped bits, misdirected or lost sectors.

func rot(r *rng, b []byte) []byte {
	o := append([]byte{}, b...)
	n := len(o)
	if n == 0 {
		return o
	}
	switch r.n(10) {
	case 0: // a sector of the file appears somewhere else
		s, d := r.n(n), r.n(n)
		copy(o[d:], o[s:min(n, s+[]int{16, 64, 512}[r.n(3)])])
	case 1: // a piece is missing
		s := r.n(n)
		e := min(n, s+1+r.n(80))
		o = append(o[:s:s], o[e:]...)
	case 2: // a piece is written twice
		s := r.n(n)
		e := min(n, s+1+r.n(80))
		o = append(append(append([]byte{}, o[:e]...), o[s:e]...), o[e:]...)
	default:
		for k := 1 + r.n(4); k > 0; k-- {
			i := r.n(n)
			if r.p(1, 3) {
				// flips inside a word keep more of the structure alive
				for t := 0; t < 40 && !(o[i] >= 'a' && o[i] <= 'z' || o[i] >= '0' && o[i] <= '9'); t++ {
					i = r.n(n)
				}
				o[i] ^= 1 << uint(r.n(3))
			} else {
				o[i] ^= 1 << uint(r.n(8))
			}
		}
	}
	return o
}

// rotJSON loses or replaces whole values, as a damaged or half-merged document
// does that is still well formed.
func rotJSON(r *rng, b []byte) []byte {
	var doc interface{}
	if json.Unmarshal(b, &doc) != nil {
		return nil
	}
	type slot struct {
		set func(v interface{})
		del func()
		cur interface{}
	}
	var slots []slot
	byKey := map[string][]int{}
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch t := v.(type) {
		case map[string]interface{}:
			for _, k := range keysOf(t) {
				k := k
				byKey[k] = append(byKey[k], len(slots))
				slots = append(slots, slot{func(v interface{}) { t[k] = v }, func() { delete(t, k) }, t[k]})
				walk(t[k])
			}
		case []interface{}:
			for i := range t {
				i := i
				byKey["[]"] = append(byKey["[]"], len(slots))
				slots = append(slots, slot{func(v interface{}) { t[i] = v }, nil, t[i]})
				walk(t[i])
			}
		}
	}
	walk(doc)
	if len(slots) == 0 {
		return nil
	}
	keys := sortedKeys(byKey)
	for k := 1 + r.n(3); k > 0; k-- {
		s := slots[r.n(len(slots))]
		if r.p(1, 2) {
			// rare values as often as others
			l := byKey[r.pick(keys)]
			s = slots[l[r.n(len(l))]]
		}
		switch r.n(6) {
		case 0, 1:
			if s.del != nil {
				s.del()
				continue
			}
			s.set(nil)
		case 2:
			s.set(nil)
		case 3:
			switch x := s.cur.(type) {
			case string:
				s.set(r.rotText(x))
			case float64:
				s.set(-x)
			case []interface{}:
				s.set([]interface{}{})
			case map[string]interface{}:
				s.set(map[string]interface{}{})
			}
		case 4:
			switch s.cur.(type) {
			case string:
				s.set("")
			case float64:
				s.set(0)
			}
		case 5:
			o := slots[r.n(len(slots))]
			switch o.cur.(type) {
			case string, float64, bool:
				s.set(o.cur)
			}
		}
	}
	o, _ := json.MarshalIndent(doc, "", "  ")
	return o
}

// rotText loses a part of a text.
func (r *rng) rotText(s string) string {
	if s == "" || r.p(1, 5) {
		return s + "x"
	}
	switch r.n(6) {
	case 5: // up to what is between two words, or from there on
		if w := regexp.MustCompile("[^A-Za-z0-9_]+").FindAllStringIndex(s, -1); len(w) > 0 {
			x := w[r.n(len(w))]
			return r.pick([]string{s[:x[0]], s[:x[1]], s[x[0]:], s[x[1]:], s[x[1]-1:]})
		}
		return ""
	case 0: // the begin
		return s[r.n(len(s)):]
	case 1: // the end
		return s[:r.n(len(s))]
	case 2: // a piece
		a, b := r.n(len(s)), r.n(len(s))
		return s[:min(a, b)] + s[max(a, b):]
	case 3: // the words, what is between them stays
		return regexp.MustCompile("[A-Za-z0-9_]+").ReplaceAllString(s, "")
	}
	w := regexp.MustCompile("[A-Za-z0-9_]+").FindAllStringIndex(s, -1)
	if len(w) == 0 {
		return ""
	}
	x := w[r.n(len(w))]
	return s[:x[0]] + s[x[1]:]
}

// rotXlsx loses or replaces values of a spreadsheet.
func rotXlsx(r *rng, b []byte) []byte {
	sheets, err := readXlsx(b)
	if err != nil || len(sheets) == 0 {
		return nil
	}
	for k := 1 + r.n(4); k > 0; k-- {
		x := &sheets[r.n(len(sheets))]
		if len(x.rows) == 0 {
			continue
		}
		i := r.n(len(x.rows))
		row := x.rows[i]
		if len(row) == 0 {
			continue
		}
		j := r.n(len(row))
		// a value of the column, rare ones as often as others
		for t := 0; t < 50 && (j >= len(row) || row[j] == "" || j == 0 && r.p(2, 3) && !strings.Contains(row[0], ".")); t++ {
			i = r.n(len(x.rows))
			row = x.rows[i]
		}
		if j >= len(row) {
			continue
		}
		switch r.n(8) {
		case 0:
			x.rows = append(x.rows[:i:i], x.rows[i+1:]...)
		case 1:
			x.rows[i] = row[:j]
		case 2:
			row[j] = ""
		case 3:
			row[j] = row[r.n(len(row))]
		case 4:
			o := x.rows[r.n(len(x.rows))]
			if j < len(o) {
				row[j] = o[j]
			}
		default:
			row[j] = r.rotText(row[j])
		}
	}
	return writeXlsx(sheets, r)
}

var sqlToken = regexp.MustCompile("(?s)'(?:[^'\\\\]|\\\\.|'')*'|`[^`]*`|\"[^\"]*\"|[A-Za-z0-9_.]+|[^\\s]")

// rotSQL loses, doubles or replaces words of a script.
func rotSQL(r *rng, b []byte) []byte {
	w := sqlToken.FindAllIndex(b, -1)
	if len(w) == 0 {
		return nil
	}
	o := b
	for k := 1 + r.n(2); k > 0; k-- {
		x := w[r.n(len(w))]
		var n []byte
		switch y := w[r.n(len(w))]; r.n(4) {
		case 0:
		case 1:
			n = b[y[0]:y[1]]
		case 2:
			n = append(append(append(n, b[x[0]:x[1]]...), ' '), b[x[0]:x[1]]...)
		case 3:
			n = []byte(r.rotText(string(b[x[0]:x[1]])))
		}
		o = append(append(append([]byte{}, b[:x[0]]...), n...), b[x[1]:]...)
		b, w = o, sqlToken.FindAllIndex(o, -1)
		if len(w) == 0 {
			break
		}
	}
	return o
}

func judgeC14(env *Env, c *Case) Verdict {
	res := env.run(c.World)
	v := Verdict{Res: res}
	p := res.Procs[0]
	if m := crashMsg(p); m != "" {
		v.Msg = m
		v.Key = "crash in " + crashKey(p)
		return v
	}
	if p.Exit != 0 && strings.TrimSpace(normErr(p.Stderr)) == "" {
		v.Msg = fmt.Sprintf("the command failed (exit %d) without saying why on standard error", p.Exit)
		return v
	}
	for _, in := range c.Scen.Inputs {
		if string(c.World.Files[in]) != res.Final[in] {
			v.Msg = "the run changed its input " + in
		}
	}
	return v
}

func init() {
	p := &Property{ID: "C14", Level: "exploration", Quick: 3000, Deep: 20000, Judge: judgeC14,
		Rule: "per scenario an input file is damaged in storage: flipped bits, misdirected, lost or doubled pieces, and lost, cut or replaced values, words and cells in a still well-formed document, script or spreadsheet; every run must end by itself with success or with a reported error; distinct: different system-call trace and final disk"}
	p.Run = func(env *Env, i int, r *rng) []*Case {
		kind := allKinds[1+i%(len(allKinds)-1)]
		sc, b := env.prepared(r, kind, scenOpt{})
		if sc == nil {
			return nil
		}
		_ = b
		var out []*Case
		max := 30
		if env.tier == "thorough" {
			max = 200
		}
		for k := 0; k < max; k++ {
			in := sc.Inputs[r.n(len(sc.Inputs))]
			var bad []byte
			sub := "bit-rot"
			if r.p(1, 2) {
				switch {
				case strings.HasSuffix(in, ".sql"):
					bad = rotSQL(r, sc.Files[in])
				case strings.HasSuffix(in, ".xlsx"):
					bad = rotXlsx(r, sc.Files[in])
				default:
					bad = rotJSON(r, sc.Files[in])
				}
				sub = "lost-value"
			}
			if bad == nil {
				bad = rot(r, sc.Files[in])
			}
			w := sc.run1(r.seed())
			w.Files[in] = bad
			verdict(env, p, &Case{Prop: "C14", Sub: sub, Seed: env.seed, Index: i, Scen: sc, World: w}, &out)
			if len(out) >= 12 {
				return out
			}
		}
		return out
	}
	register(p)
}
