package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"
)

// LemmaReport: one theory lemma and its proof.
type LemmaReport struct {
	Name   string `json:"name"`
	Status string `json:"status"`
	Solver string `json:"solver"`
	Ms     int64  `json:"ms"`
}

func sxSubst(x *sx, m map[string]string) *sx {
	if x.list == nil {
		if r, ok := m[x.atom]; ok {
			return &sx{atom: r}
		}
		return x
	}
	n := &sx{list: make([]*sx, len(x.list))}
	for i, a := range x.list {
		n.list[i] = sxSubst(a, m)
	}
	return n
}

// proveLemmas discharges every lemma section that the predicate selects.
func proveLemmas(sel func(*section) bool) []LemmaReport {
	var out []LemmaReport
	for _, sec := range sections {
		if sec.lemma == "" || !sel(sec) {
			continue
		}
		out = append(out, proveLemma(sec))
	}
	return out
}

func theoryText(use map[string]bool, limit int) string {
	incl, _ := closure(use, limit)
	var b bytes.Buffer
	b.WriteString("@OPTIONS@\n")
	for _, s := range userSorts {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	b.WriteString("(declare-fun nilAny () Any)\n(declare-fun tag (Any) Int)\n")
	var ax []string
	for _, sec := range sections {
		if !incl[sec] {
			continue
		}
		xs, _ := parseSx(sexprTokens(sec.text))
		for _, x := range xs {
			if x.list[0].atom == "declare-fun" {
				b.WriteString(x.String() + "\n")
			} else {
				ax = append(ax, x.String())
			}
		}
	}
	for _, a := range ax {
		b.WriteString(a + "\n")
	}
	return b.String()
}

func proveLemma(sec *section) LemmaReport {
	r := LemmaReport{Name: sec.name, Status: "failed"}
	xs, err := parseSx(sexprTokens(sec.text))
	if err != nil {
		return r
	}
	use := map[string]bool{}
	for t := range sec.toks {
		if _, ok := theorySyms[t]; ok {
			use[t] = true
		}
	}
	for _, s := range []string{"SeqInt", "SeqAny", "SeqStr", "SeqB8"} {
		if use["len."+s] || strings.Contains(sec.text, s+")") {
			use["build."+s], use["empty."+s] = true, true
		}
	}
	text := theoryText(use, sec.index)
	var done []string
	for _, a := range xs {
		f := a.list[1] // (forall (binders) (! body :pattern ...))
		body := f.list[2]
		if len(body.list) > 0 && body.list[0].atom == "!" {
			body = body.list[1]
		}
		var b bytes.Buffer
		b.WriteString(text)
		for _, d := range done {
			b.WriteString(d + "\n")
		}
		var others []string
		sub := map[string]string{}
		isort := ""
		for _, v := range f.list[1].list {
			n, so := v.list[0].atom, v.list[1].String()
			if n == sec.lemma {
				isort = so
				continue
			}
			others = append(others, fmt.Sprintf("(%s %s)", n, so))
			fmt.Fprintf(&b, "(declare-fun sk!%s () %s)\n", n, so)
			sub[n] = "sk!" + n
		}
		if len(sec.insts) > 0 && sec.lemma == "-" {
			// ground proof: the named instances follow from the axioms, the goal from the instances
			var g bytes.Buffer
			for _, l := range strings.Split(strings.Replace(b.String(), "@OPTIONS@", "", 1), "\n") {
				if !strings.HasPrefix(l, "(assert") {
					g.WriteString(l + "\n")
				}
			}
			ok := true
			var ground []string
			for _, in := range sec.insts {
				ix, err := parseSx(sexprTokens(in))
				if err != nil || len(ix) != 1 {
					return r
				}
				t := sxSubst(ix[0], sub).String()
				res := proveText(b.String()+"(assert (not "+t+"))\n(check-sat)\n", 10*time.Second, true)
				r.Ms += res.ms
				if res.status != "unsat" {
					dbg("LEMMA INSTANCE FAILS %s: %s", sec.name, t)
					ok = false
				}
				ground = append(ground, t)
			}
			if !ok {
				return r
			}
			// generalise applications to constants
			abs := map[string]string{}
			var gen func(x *sx) *sx
			gen = func(x *sx) *sx {
				if x.list == nil {
					return x
				}
				n := &sx{list: make([]*sx, len(x.list))}
				for i, a := range x.list {
					n.list[i] = gen(a)
				}
				if sg, ok := theorySyms[n.list[0].atom]; ok && len(n.list) > 1 {
					k := n.String()
					if abs[k] == "" {
						abs[k] = fmt.Sprintf("abs!%d", len(abs))
						fmt.Fprintf(&g, "(declare-fun %s () %s)\n", abs[k], sg.ret)
					}
					return &sx{atom: abs[k]}
				}
				return n
			}
			for _, t := range ground {
				ix, _ := parseSx(sexprTokens(t))
				t = gen(ix[0]).String()
				fmt.Fprintf(&g, "(assert %s)\n", t)
			}
			gx, _ := parseSx(sexprTokens(sxSubst(body, sub).String()))
			goal := gen(gx[0]).String()
			res := proveText(g.String()+"(assert (not "+goal+"))\n(check-sat)\n", 10*time.Second, true)
			r.Ms += res.ms
			r.Solver = res.solver
			if res.status != "unsat" {
				dbg("LEMMA FAILS %s: %s\n%s", sec.name, res.status, g.String())
				return r
			}
			done = append(done, a.String())
			continue
		}
		var goals []string
		if isort == "" {
			goals = append(goals, sxSubst(body, sub).String())
		} else if isort == "Int" {
			fmt.Fprintf(&b, "(declare-fun ind () Int)\n(assert (<= 0 ind))\n")
			base := map[string]string{sec.lemma: "0"}
			step := map[string]string{sec.lemma: "(+ ind 1)"}
			hyp := sxSubst(body, map[string]string{sec.lemma: "ind"}).String()
			for k, v := range sub {
				base[k], step[k] = v, v
			}
			if len(others) > 0 {
				pat := ""
				if len(f.list[2].list) > 3 {
					pat = sxSubst(f.list[2].list[3], map[string]string{sec.lemma: "ind"}).String()
				}
				hyp = fmt.Sprintf("(forall (%s) (! %s :pattern %s))", strings.Join(others, " "), hyp, pat)
			}
			goals = append(goals, sxSubst(body, base).String(), fmt.Sprintf("(=> %s %s)", hyp, sxSubst(body, step).String()))
		} else {
			e := seqElemOf(isort)
			fmt.Fprintf(&b, "(declare-fun ind () %s)\n(declare-fun indv () %s)\n", isort, e)
			base := map[string]string{sec.lemma: "empty." + isort}
			step := map[string]string{sec.lemma: "(build." + isort + " ind indv)"}
			for k, v := range sub {
				base[k], step[k] = v, v
			}
			hyp := sxSubst(body, map[string]string{sec.lemma: "ind"}).String()
			if len(others) > 0 {
				pat := ""
				if len(f.list[2].list) > 3 {
					pat = sxSubst(f.list[2].list[3], map[string]string{sec.lemma: "ind"}).String()
				}
				hyp = fmt.Sprintf("(forall (%s) (! %s :pattern %s))", strings.Join(others, " "), hyp, pat)
			}
			goals = append(goals, sxSubst(body, base).String(), fmt.Sprintf("(=> %s %s)", hyp, sxSubst(body, step).String()))
		}
		for _, g := range goals {
			q := b.String() + "(assert (not " + g + "))\n(check-sat)\n"
			res := proveText(q, 10*time.Second, true)
			r.Ms += res.ms
			r.Solver = res.solver
			if res.status != "unsat" {
				dbg("LEMMA FAILS %s: %s\n%s", sec.name, res.status, q)
				return r
			}
		}
		done = append(done, a.String())
	}
	r.Status = "proved"
	return r
}
