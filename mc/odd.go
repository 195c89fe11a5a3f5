package main

import "strings"

// oddShapes: tokens of shapes that other dialects and products have, or that are nearly names.
var oddShapes = []string{
	"[x]", "[x y]", "[select]", "[]", "{x}", "<x>", "$x", "x$", "x$y", "@x", "@@x", "x@y", "x@", "x#y", "x#", ":x", "x:y", "x::y", "?", "?1", "%x", "x%", "x%y",
	"N'x'", "E'x'", "x'41'", "_x'y'", "U&\"x\"", "0x41", "1x", "1_", "_", "__", "_1", "x-y", "x-", "-x", "x+y", "x*", "x/y", "x!", "!x", "~x", "x^y", "x|y", "x&y", "x=y", "x<y",
	"é", "xé", "éx", "日本", "x\\y", "\\", "\\x", "x'y'", "x\"y\"", "x`y`", "'x'", "\"x\"", "`x`", "''", "\"\"", "``", "'x'y", "\"x\"y", "`x`y", "$$x$$", "$t$x$t$", "x?", "1.x", "x1", "1e", "+", "-", "*", "/", "=", "<>", "||", "::", "[", "]", "{", "}", "\u00a0", "\ufeff", "x\u00a0y", "\x00", "x\x00",
}

// odd: these tokens at every place of a name and at every token of documents.
func odd(e *Explorer, f func(d int, s string)) {
	if e.again("odd") {
		return
	}
	e.Group("tokens of odd shapes at every place")
	for d := 0; d < NDialect; d++ {
		dd, at := namePlaces(d, 4)
		for i := range dd {
			for _, o := range oddShapes {
				r := fill(dd[i], d)
				r[at[i]] = o
				f(d, sp(r))
			}
		}
		for _, doc := range docs(d) {
			ts := lexToks(doc, d)
			for i := 0; i <= len(ts); i++ {
				for _, o := range oddShapes {
					f(d, sp(ts[:i])+" "+o+" "+sp(ts[i:]))
					if i < len(ts) {
						f(d, sp(ts[:i])+" "+o+" "+sp(ts[i+1:]))
						f(d, strings.TrimSpace(sp(ts[:i])+" "+o+sp(ts[i:])))
					}
				}
			}
		}
	}
}
