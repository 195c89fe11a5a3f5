package main

import (
	"strings"
	"unicode/utf8"
)

// Dialects.
const (
	SQLite = iota
	Postgres
	MySQL
	NDialect
)

var dialectName = [...]string{"SQLite", "PostgreSQL", "MySQL"}

// Tok is one token of the character-level model.
type Tok struct {
	S         string
	Line, End int // lines on which it starts and ends
	Quoted    bool
	Sym       bool
}

// LexRes is the verdict of the character-level model on a text.
type LexRes struct {
	Toks    []Tok
	Err     bool
	Near    string
	Line    int // line of the lexical error, or of the end of the text
	Unspec  bool
	QuoteNL bool
}

func isBlank(c rune) bool { return c == ' ' || c == '\t' || c == '\r' }
func isSymRune(c rune) bool {
	return c == '(' || c == ')' || c == ',' || c == '.' || c == ';'
}
func isDigit(c rune) bool { return c >= '0' && c <= '9' }

func allDigits(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if !isDigit(c) {
			return false
		}
	}
	return true
}

// lexModel splits a text into tokens, the way the documentation and the
// dialects' manuals describe it.
func lexModel(text string, d int) *LexRes {
	res := &LexRes{}
	if !utf8.ValidString(text) {
		res.Unspec = true
	}
	r := []rune(text)
	n := len(r)
	line, depth := 1, 0
	word := []rune{}
	wline := 1
	flush := func() {
		if len(word) > 0 {
			res.Toks = append(res.Toks, Tok{S: string(word), Line: wline, End: wline})
			word = word[:0]
		}
	}
	fail := func(near string) *LexRes {
		res.Err, res.Near, res.Line = true, near, line
		return res
	}
	for i := 0; i < n; {
		c := r[i]
		at := func(k int) rune {
			if i+k < n {
				return r[i+k]
			}
			return -1
		}
		switch {
		case c == '-' && at(1) == '-', c == '#' && d == MySQL:
			flush()
			for i < n && r[i] != '\n' {
				if r[i] == '\r' && (i+1 == n || r[i+1] != '\n') {
					res.Unspec = true // may count as line breaks
				}
				i++
			}
		case c == '/' && at(1) == '*':
			flush()
			i += 2
			closed := false
			for i < n {
				if r[i] == '*' && i+1 < n && r[i+1] == '/' {
					i += 2
					closed = true
					break
				}
				if r[i] == '/' && i+1 < n && r[i+1] == '*' {
					res.Unspec = true // nested openers: dialects differ
				}
				if r[i] == '\n' {
					line++
				}
				i++
			}
			if !closed {
				return fail("<EOF>")
			}
		case c == '*' && at(1) == '/':
			return fail("*")
		case c == '`' && d == Postgres:
			return fail("`")
		case c == '\u3000':
			return fail("\u3000")
		case c == '\'' || c == '"' || c == '`':
			flush()
			start, sl := i, line
			i++
			for i < n && r[i] != c {
				if r[i] == '\n' {
					line++
					res.QuoteNL = true
				}
				if r[i] == '\\' && i+1 < n && r[i+1] == c && d == MySQL {
					res.Unspec = true // backslash escapes
				}
				i++
			}
			if i >= n {
				return fail("<EOF>")
			}
			i++
			if i < n && r[i] == c {
				res.Unspec = true // doubled quotes
			}
			res.Toks = append(res.Toks, Tok{S: string(r[start:i]), Line: sl, End: line, Quoted: true})
		case isBlank(c):
			flush()
			i++
		case c == '\n':
			flush()
			line++
			i++
		case c == '.' && isDecimalSoFar(word) && isDigit(at(1)):
			word = append(word, c)
			i++
		case isSymRune(c):
			flush()
			res.Toks = append(res.Toks, Tok{S: string(c), Line: line, End: line, Sym: true})
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
			i++
		case c == '=' && d == MySQL && depth < 2: // option = value; expressions are nested deeper
			flush()
			res.Toks = append(res.Toks, Tok{S: "=", Line: line, End: line})
			i++
		default:
			if strings.ContainsRune("\x00\v\f\u0085\u00a0\ufeff\u2028\u2029", c) {
				res.Unspec = true // other white space
			}
			if len(word) == 0 {
				wline = line
			}
			word = append(word, c)
			i++
		}
	}
	flush()
	res.Line = line
	return res
}

func isDecimalSoFar(w []rune) bool {
	for len(w) > 0 && (w[0] == '+' || w[0] == '-') {
		w = w[1:]
	}
	return allDigits(string(w))
}

func words(s string) []string { return strings.Fields(s) }

func asciiUpper(s string) string {
	b := []byte(s)
	ch := false
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
			ch = true
		}
	}
	if !ch {
		return s
	}
	return string(b)
}

var reservedSet [NDialect]map[string]bool

func init() {
	for d, ws := range [][]string{reservedSQLite, reservedPostgreSQL, reservedMySQL} {
		reservedSet[d] = map[string]bool{}
		for _, w := range ws {
			reservedSet[d][w] = true
		}
	}
}

// identQuote: characters that delimit identifiers; strQuote: those that delimit strings.
var identQuote = [NDialect]string{"\"`", "\"", "`"}
var strQuote = [NDialect]string{"'", "'", "'\""}

func isIdentTok(t *Tok, d int) bool { return t.Quoted && strings.IndexByte(identQuote[d], t.S[0]) >= 0 }
func isStrTok(t *Tok, d int) bool   { return t.Quoted && strings.IndexByte(strQuote[d], t.S[0]) >= 0 }

func isPlainWord(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9' {
			continue
		}
		return false
	}
	return s != ""
}

func isNameTok(t *Tok, d int) bool {
	if t.Quoted {
		return isIdentTok(t, d)
	}
	return isPlainWord(t.S) && !reservedSet[d][asciiUpper(t.S)]
}

func unquoteName(s string, d int) string {
	if len(s) >= 2 && strings.IndexByte(identQuote[d], s[0]) >= 0 {
		return s[1 : len(s)-1]
	}
	return s
}
