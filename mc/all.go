package main

// ALL is not a property's check: it runs most explorations with every facet compared, to see quickly
// whether any check notices a change (tools/mutants.py).
func init() {
	js := map[string]func(*Worker, *Case) string{}
	order := []string{"C02", "C17", "C16", "C09", "C08", "C05", "C11", "C12", "C10", "C14", "C04", "C06", "C07", "C23", "C22", "C18", "C13", "C21", "C03", "C24", "C01", "C15"}
	register(&Check{ID: "ALL", Judges: js, Explore: func(e *Explorer) {
		e.force = fAll
		for _, id := range order {
			for k, f := range checks[id].Judges {
				js[k] = f
			}
		}
		late := []string{"coincident", "crowded", "laidOut", "named", "crowdedEdges", "sized"}
		for _, p := range late {
			e.again(p)
		}
		for _, id := range order {
			checks[id].Explore(e)
			if e.Stopped() {
				return
			}
		}
		for _, p := range late {
			delete(e.did, p)
		}
		richDiff(e, fAll)
		checks["C03"].Explore(e)
	}})
}
