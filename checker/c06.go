package main

import "fmt"

func anyContent(c *Content, op field) bool { return true }

func init() {
	define(&propDef{id: "C06", explain: "abstract interpretation of every operation", run: func(w *World, r *Report) {
		e := w.engine()
		w.valueRuns(r, e, func(c *Content, op field) bool { return isReadName(op.name) }, func(x *opRun) {
			r.ok("reads return normally", x.item())
			rd, isRead := w.readOf(x.op)
			foreign := isRead && !x.t.c.null() && !x.t.c.word && !kindIn(accepts[rd.kind], x.t.c.kind)
			for _, o := range x.outs {
				if o.kind != "ret" {
					w.abnormal(r, "reads return normally", x.item(), o)
					continue
				}
				if !foreign {
					continue
				}
				// unsupported content: an error, not a missing or empty value
				const rule = "content a read does not support is reported as an error"
				r.ok(rule, x.item())
				vals, errs := retErrs(x.op.sig, o)
				if errStatus(o.st, errs) != "none" {
					continue
				}
				if empty, known := w.emptyValue(o.st, vals[0], x.op.sig.Results().At(0).Type()); known && empty {
					s := "violation"
					if !sure(o.st) {
						s = "undecided"
					}
					r.add(rule, x.item(), s, fmt.Sprintf("%s returns %s without an error", x.item(), short(vals[0])), w.opPos(x.t, x.op))
				}
			}
		})
		w.convertRuns(r, e, w.converters(), func(x *funcRun) {
			r.ok("conversions return normally", x.item())
			for _, o := range x.outs {
				if o.kind != "ret" {
					w.abnormal(r, "conversions return normally", x.item(), o)
				}
			}
		})
	}})
}
