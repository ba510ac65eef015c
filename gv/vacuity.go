package main

import (
	"fmt"
	"os"
	"strings"
)

// auditVacuity reports clauses of which no obligation says anything, since their antecedents can be refuted (GV_VACUITY=1, when writing contracts).
func (x *Exec) auditVacuity() {
	if !audit {
		return
	}
	x.auditDead()
	type count struct{ n, vacuous int }
	by := map[string]*count{}
	var order []string
	for _, o := range x.obls {
		if o.ante == nil || o.cover {
			continue
		}
		k := o.Kind + " " + o.Label
		c := by[k]
		if c == nil {
			c = &count{}
			by[k] = c
			order = append(order, k)
		}
		c.n++
		if o.ante == tFalse {
			c.vacuous++
		} else if by, _ := prove(x.assumptions(o), not(o.ante), true); by != "" {
			c.vacuous++
		}
	}
	for _, k := range order {
		if c := by[k]; c.vacuous == c.n {
			fmt.Printf("    VACUOUS %s: %s: %d obligations\n", x.unit, k, c.n)
		}
	}
}

// auditDead reports the places that no feasible path reaches, and returns that are infeasible.
func (x *Exec) auditDead() {
	memo := map[*PC]bool{}
	dead := func(o *Obligation) bool {
		d, ok := memo[o.assume]
		if !ok {
			by, _ := prove(x.assumptions(o), tFalse, true)
			d = by != ""
			memo[o.assume] = d
		}
		return d
	}
	type count struct{ n, dead int }
	at := map[string]*count{}
	var order []string
	for _, o := range x.obls {
		if o.cover {
			continue
		}
		k := o.Pos
		if o.Kind == "ensures" {
			k = "return " + strings.Join(o.Trace, " ")
		} else if o.Kind == "requires" || o.Kind == "token" {
			k += " " + o.Kind + " " + o.Label
		}
		c := at[k]
		if c == nil {
			c = &count{}
			at[k] = c
			order = append(order, k)
		}
		c.n++
		if dead(o) {
			c.dead++
		}
	}
	for _, k := range order {
		if c := at[k]; c.dead == c.n {
			fmt.Printf("    DEAD %s: %s: %d obligations\n", x.unit, k, c.n)
		}
	}
}

var audit = os.Getenv("GV_VACUITY") != ""
