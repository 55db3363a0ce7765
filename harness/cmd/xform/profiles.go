package main

var base = Profile{Traces: 600, Calls: 3, Tr: 0.55, TrArr: 0.4, TrObj: 0.2, Def: 0.25, MultiFrom: 0.3, Ops: 0.35, Arrays: 0.4,
	Types: 0.12, Missing: 0.12, Wide: 0.3, Mutate: 3, Repeat: 0.2, Decoy: 0.1, Odd: 0.04, Fail: 0.15, RootArr: 0.08, Depth: 4}

func with(fs ...func(*Profile)) Profile {
	p := base
	for _, f := range fs {
		f(&p)
	}
	return p
}

func xml(p *Profile) { p.XML = true }

// functional profiles reach for shared state: defaults, transformed arrays and objects, last
func functional(p *Profile) {
	p.Functional = true
	p.Def, p.Mutate, p.Fail, p.TrArr, p.TrObj, p.Decoy = 0.5, 4, 0.05, 0.5, 0.35, 0.4
}

var profiles = map[string]Profile{
	"all": base,
	// cases the specification enumerates
	"small":      base,
	"smallxml":   with(xml),
	"smallvalid": with(func(p *Profile) { p.Validate = true }),
	"xml":        with(xml),
	// histories of a transformer: long, with inputs that come again and fields which keep state in reach
	"history": with(functional, func(p *Profile) {
		p.Traces, p.Calls, p.Repeat, p.Odd = 150, 12, 0.4, 0.03
	}),
	"xmlhistory": with(xml, functional, func(p *Profile) {
		p.Traces, p.Calls, p.Repeat, p.Odd, p.Wide, p.Def, p.DefObj, p.Mutate = 60, 12, 0.4, 0.03, 0.6, 0.4, 0.7, 8
	}),
	// callers in parallel
	"xmldefaults": with(xml, functional, func(p *Profile) {
		p.Traces, p.Calls, p.Repeat, p.Odd, p.Wide, p.Def, p.DefObj, p.Mutate, p.Fail, p.Ops, p.MultiFrom, p.Objects = 60, 10, 0.1, 0, 0.8, 0.1, 0.9, 8, 0, 0.05, 0.1, 0.7
	}),
	"conc":    with(functional, func(p *Profile) { p.Traces, p.Calls, p.Conc, p.Odd = 150, 8, 8, 0.02 }),
	"xmlconc": with(xml, functional, func(p *Profile) { p.Traces, p.Calls, p.Conc, p.Odd = 60, 8, 8, 0.02 }),
	// the same schema and inputs, written differently, and again
	"notation": with(functional, func(p *Profile) {
		p.Traces, p.Equivalent, p.Calls, p.MultiFrom, p.Decoy = 250, true, 4, 0.5, 0.05
	}),
	"xmlnotation": with(xml, functional, func(p *Profile) { p.Traces, p.Equivalent, p.Calls = 100, true, 4 }),
	// which source a field takes its value from
	"sources": with(func(p *Profile) {
		p.Traces, p.Ops, p.Tr, p.Def, p.Missing, p.Types, p.MultiFrom, p.Arrays, p.Fail = 700, 0.1, 0.5, 0.5, 0.35, 0.25, 0.3, 0.2, 0.05
	}),
	"methods": with(func(p *Profile) {
		p.Traces, p.Tr, p.MultiFrom, p.Missing, p.Ops, p.Fail, p.Arrays = 700, 0.85, 0.9, 0.3, 0.15, 0.08, 0.2
	}),
	"xmlmethods": with(xml, func(p *Profile) { p.Traces, p.MultiFrom, p.Missing, p.Ops, p.Fail = 300, 0.9, 0.3, 0.1, 0.05 }),
	"chains":     with(func(p *Profile) { p.Traces, p.Tr, p.Ops, p.Chain, p.Arrays, p.Wide = 700, 0.8, 0.9, 0.8, 0.2, 0.15 }),
	"arrays": with(func(p *Profile) {
		p.Traces, p.Arrays, p.TrArr, p.RootArr, p.Wide, p.Def, p.Fail, p.Depth = 600, 1, 0.6, 0.2, 0.45, 0.3, 0.05, 5
	}),
	"objects": with(func(p *Profile) {
		p.Traces, p.TrObj, p.Def, p.Arrays, p.Fail, p.Missing, p.Ops = 600, 0.6, 0.5, 0.2, 0.05, 0.25, 0.1
	}),
	"types": with(func(p *Profile) {
		p.Traces, p.Types, p.Ops, p.Def, p.Missing, p.Fail = 800, 0.7, 0.05, 0.1, 0.05, 0.05
	}),
	"validate": with(func(p *Profile) { p.Traces, p.Validate, p.Types, p.Fail, p.Tr, p.Def = 900, true, 0.04, 0.03, 0.4, 0.3 }),
	"xmlvalidate": with(xml, func(p *Profile) {
		p.Traces, p.Validate, p.Fail, p.Def = 300, true, 0.03, 0.3
	}),
	"decoys": with(func(p *Profile) {
		p.Traces, p.Decoy, p.Def, p.Fail, p.Tr, p.TrArr, p.TrObj = 600, 0.8, 0.35, 0.05, 0.4, 0.3, 0.2
	}),
	"xmldecoys": with(xml, func(p *Profile) { p.Traces, p.Decoy, p.Def, p.Fail = 200, 0.8, 0.35, 0.05 }),
	"bad": with(func(p *Profile) {
		p.Traces, p.Calls, p.Bad, p.Decoy, p.Ops, p.TrArr, p.TrObj, p.Def = 1200, 1, 0.75, 0.35, 0.7, 0.5, 0.3, 0.35
	}),
	"xmlbad": with(xml, func(p *Profile) { p.Traces, p.Calls, p.Bad, p.Decoy, p.Ops, p.Def = 500, 1, 0.75, 0.35, 0.7, 0.35 }),
	"odd":    with(func(p *Profile) { p.Traces, p.Odd, p.Types, p.Mutate, p.Fail, p.Calls = 600, 0.35, 0.3, 10, 0.3, 5 }),
	"xmlodd": with(xml, func(p *Profile) { p.Traces, p.Odd, p.Mutate, p.Fail, p.Calls = 300, 0.3, 10, 0.4, 5 }),
}

func init() {
	for _, o := range []string{"changeCase", "currentTime", "duration", "inverse", "max", "replace", "split", "timeParse", "toCamelCase",
		"removeHTML", "convertToFloat64", "convertToInt64", "convertToBool", "valueExists"} {
		profiles["op-"+o] = with(func(p *Profile) {
			p.Traces, p.Calls, p.Tr, p.TrArr, p.TrObj, p.Ops, p.OneOp, p.Arrays, p.MultiFrom, p.Wide, p.Missing, p.Fail = 100, 2, 0.9, 0.2, 0, 0.95, o, 0.1, 0.05, 0.05, 0.05, 0.25
		})
	}
}
