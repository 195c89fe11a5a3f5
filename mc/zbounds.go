package main

import "fmt"

// stated bounds of each check, by tier; cases_by_part in the evidence counts what each part contributed.
func init() {
	general := func(t bool) []string {
		k := [NDialect]int{5, 3, 4}
		if t {
			k = [NDialect]int{6, 4, 5}
		}
		return []string{
			fmt.Sprintf("all CREATE TABLE derivations with at most %d (SQLite), %d (PostgreSQL), %d (MySQL) deviations from the default derivation", k[0], k[1], k[2]),
			"every combination of options and alternatives of one table or column constraint; all ordered pairs and triples of short clauses; lists of up to 3 options",
			"every part at every place of tables of 1 to 9 elements and some up to 40; up to 40 statements before and after",
		}
	}
	p := func(t bool, a, b int) int {
		if t {
			return b
		}
		return a
	}
	smaller := func(t bool) string {
		return fmt.Sprintf("all CREATE TABLE derivations with at most %d (SQLite), %d (others) deviations", p(t, 5, 6), p(t, 3, 4))
	}
	bs := map[string]func(t bool) []string{
		"C01": func(t bool) []string {
			return []string{fmt.Sprintf("all strings of up to %d sharp characters alone and up to %d in every context", p(t, 4, 5), p(t, 3, 4)), "every prefix of every document and derivation, by character and by token", "every reachable state of the grammar machine x every vocabulary token", "inputs up to some 100 kB; 10 s per call"}
		},
		"C02": func(t bool) []string {
			return []string{"every reachable state of the grammar machine x every vocabulary token", "every position of a malformed statement among up to 6 others", "untokenisable text at every gap of every document"}
		},
		"C03": func(t bool) []string {
			return []string{fmt.Sprintf("every refused transition of the state graph (lists of up to %d further elements), in several layouts", p(t, 1, 2)), "every single-token edit of documents and dense derivations", "every content of quoted texts and comments of the bounded space before the error"}
		},
		"C04": func(t bool) []string {
			return []string{fmt.Sprintf("all sequences of up to %d gap atoms at every gap of every document", p(t, 3, 4)), "every character up to U+017F and packs of all others inside comments", "all comment contents of up to 3 sharp characters"}
		},
		"C05": func(t bool) []string {
			return []string{fmt.Sprintf("all contents of up to %d sharp characters in every place that takes quoted text", p(t, 3, 4)), "every character of Unicode in packs, every character up to U+017F alone"}
		},
		"C06": func(t bool) []string {
			return append([]string{fmt.Sprintf("all sequences of up to %d statements", p(t, 4, 5)), fmt.Sprintf("bodies nested up to %d deep in all shapes, up to 24 in regular ones", p(t, 9, 10))}, general(t)...)
		},
		"C07": func(t bool) []string {
			return append([]string{"every data type form", fmt.Sprintf("type parameters up to %d and round numbers", p(t, 70, 300))}, general(t)...)
		},
		"C08": func(t bool) []string {
			return append([]string{fmt.Sprintf("all sequences of up to %d column constraints of distinct kinds", p(t, 4, 5))}, general(t)...)
		},
		"C09": func(t bool) []string {
			return append([]string{fmt.Sprintf("all strings of up to %d characters after DEFAULT", p(t, 4, 5)), fmt.Sprintf("all integers up to %d, round numbers and powers of two with their neighbours", p(t, 300, 3000))}, general(t)...)
		},
		"C10": func(t bool) []string {
			return append([]string{fmt.Sprintf("all balanced strings of up to %d tokens", p(t, 6, 7)), fmt.Sprintf("nesting up to %d", p(t, 40, 150))}, general(t)...)
		},
		"C11": func(t bool) []string {
			return append([]string{fmt.Sprintf("all sequences of up to %d table elements", p(t, 4, 5))}, general(t)...)
		},
		"C12": func(t bool) []string {
			return append([]string{fmt.Sprintf("all reference tails of up to %d items", p(t, 3, 4))}, general(t)...)
		},
		"C13": general,
		"C14": general,
		"C15": func(t bool) []string {
			return append([]string{"every refused transition of the state graph, cut and completed", "every single-token edit of derivations, dense derivations and documents", "every foreign word at every state"}, general(t)[1:]...)
		},
		"C16": func(t bool) []string {
			return []string{"every name position of the grammar x every reserved word of any dialect, vocabulary word and sample name, in several cases and quotes", fmt.Sprintf("all names of up to 2 characters over 28, up to %d over 7", p(t, 3, 4))}
		},
		"C17": func(t bool) []string {
			return []string{fmt.Sprintf("every keyword of every derivation in other case; all 2^n case patterns of up to %d letters", p(t, 10, 12))}
		},
		"C18": func(t bool) []string {
			return append([]string{fmt.Sprintf("all sequences of up to %d statements of mixed dialects", p(t, 2, 3)), smaller(t)}, general(t)[1:]...)
		},
		"C21": func(t bool) []string {
			return []string{"all pairs of statements and documents, with 8 layouts between", "up to 40 statements before and after", "derivations after every statement"}
		},
		"C22": func(t bool) []string { return append([]string{smaller(t)}, general(t)[1:]...) },
		"C23": func(t bool) []string {
			return []string{"every text of each dialect read by the others", "every word of other dialects at every state of the machine", "every character after # at every gap"}
		},
		"C24": func(t bool) []string {
			return []string{fmt.Sprintf("every list length up to %d, several up to %d; names, numbers, strings and comments up to %d characters; error lines up to 100000", p(t, 300, 2000), p(t, 2100, 20000), p(t, 4096, 65536))}
		},
	}
	for id, f := range bs {
		f := f
		if ck := checks[id]; ck != nil && ck.Bounds == nil {
			ck.Bounds = func(tier string) []string { return f(tier == "thorough") }
		}
	}
}
