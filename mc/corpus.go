package main

import (
	"strings"
)

// Building blocks shared by the explorations.

var intType = [NDialect]string{"INTEGER", "INTEGER", "INT"}
var strType = [NDialect]string{"TEXT", "TEXT", "TEXT"}
var numType = [NDialect]string{"NUMERIC", "NUMERIC ( 8 , 3 )", "DECIMAL ( 8 , 3 )"}

func sp(toks []string) string { return strings.Join(toks, " ") }

// forms lists the distinct derivations (rendered tokens) of all nodes with a tag.
func forms(d int, tag string, k int) [][]string {
	var out [][]string
	seen := map[string]bool{}
	for _, n := range tagged[d][tag] {
		deriveDo(n, d, k, func(ts []string) bool {
			key := strings.Join(ts, " ")
			if !seen[key] {
				seen[key] = true
				out = append(out, append([]string{}, ts...))
			}
			return true
		})
	}
	return out
}

// formsOf is forms without tokens marks and rendered.
func formTexts(d int, tag string, k int) []string {
	var out []string
	for _, f := range forms(d, tag, k) {
		out = append(out, render(f, d))
	}
	return out
}

// colconForms: single column constraints, with k deviations, never empty.
func colconForms(d, k int) [][]string {
	var out [][]string
	for _, f := range forms(d, "colcon", k) {
		if len(f) > 0 {
			out = append(out, f)
		}
	}
	return out
}

// kindsOf: one representative per kind of column constraint (the first form of each alternative).
func colconKinds(d int) [][]string {
	var out [][]string
	n := tagged[d]["colcon"][0]
	alts := n.kids
	for len(alts) > 0 && d == MySQL && alts[0].k == nAlt {
		alts = append(append([]*Node{}, alts[0].kids...), alts[1:]...)
	}
	for _, a := range alts {
		if a.lenient {
			continue
		}
		fs := derive(a, d, 0)
		if len(fs) > 0 {
			out = append(out, fs[0])
		}
	}
	return out
}

// elements: table elements used to build element sequences.
func elements(d int) []string {
	it, st := intType[d], strType[d]
	els := []string{
		"c1 " + it,
		"c2 " + st + " NOT NULL DEFAULT 'x' UNIQUE",
		"c3 " + it + " REFERENCES r3 ( k3 ) ON DELETE CASCADE CHECK ( c3 > 0 )",
		"PRIMARY KEY ( aa , b )",
		"CONSTRAINT pk2 PRIMARY KEY ( p )",
		"UNIQUE ( u1 , u2 )",
		"CONSTRAINT uq2 UNIQUE ( u3 )",
		"CHECK ( q > 1 AND ( r < 2 ) )",
		"CONSTRAINT ck2 CHECK ( s )",
		"FOREIGN KEY ( f1 , f2 ) REFERENCES rt ( g1 , g2 )",
		"CONSTRAINT fk2 FOREIGN KEY ( f3 ) REFERENCES s2 . rt2 ( g3 ) ON DELETE CASCADE ON UPDATE SET NULL",
	}
	switch d {
	case SQLite:
		els = append(els, "FOREIGN KEY ( f4 ) REFERENCES rt4")
	case Postgres:
		els = append(els, "FOREIGN KEY ( f4 ) REFERENCES rt4", "EXCLUDE USING gist ( e WITH = )")
	case MySQL:
		els = append(els, "INDEX ix ( i1 )", "FULLTEXT KEY ( i2 )", "UNIQUE KEY uk ( u5 ( 10 ) DESC , u6 )")
	}
	return els
}

// sequences: all sequences of 1..n indexes below m.
func sequences(m, n int, f func(ix []int)) {
	var rec func(ix []int)
	rec = func(ix []int) {
		if len(ix) > 0 {
			f(ix)
		}
		if len(ix) == n {
			return
		}
		for i := 0; i < m; i++ {
			rec(append(ix[:len(ix):len(ix)], i))
		}
	}
	rec(nil)
}

// strings over an alphabet, up to length n (n >= 0; includes the empty one).
func allStrings(alpha []string, n int, f func(s string)) {
	var rec func(s string, k int)
	rec = func(s string, k int) {
		f(s)
		if k == n {
			return
		}
		for _, a := range alpha {
			rec(s+a, k+1)
		}
	}
	rec("", 0)
}

// docs: documents of a few statements, rich in constructs, as token lists joined by blanks.
func docs(d int) []string {
	switch d {
	case SQLite:
		return []string{
			"CREATE TABLE t ( aa INTEGER ) ;",
			"CREATE TABLE IF NOT EXISTS main . users ( id INTEGER PRIMARY KEY DESC ON CONFLICT ABORT AUTOINCREMENT , name TEXT CONSTRAINT nn NOT NULL UNIQUE COLLATE NOCASE DEFAULT 'x y' , age NUMERIC CHECK ( age > 0 AND ( age < 9 ) ) DEFAULT -1 ) ;",
			"CREATE TABLE p ( aa TEXT REFERENCES q ( b ) ON DELETE SET NULL MATCH FULL NOT DEFERRABLE INITIALLY DEFERRED NOT NULL , b REAL AS ( aa || 'z' ) STORED , cc NONE DEFAULT ( 1 + 2 ) , CONSTRAINT kk PRIMARY KEY ( aa , b ) ON CONFLICT FAIL , UNIQUE ( cc ) , CHECK ( aa <> b ) , FOREIGN KEY ( aa , b ) REFERENCES mm . r ( x , y ) ON UPDATE CASCADE ) WITHOUT ROWID , STRICT ;",
			"CREATE TEMP TABLE `w x` ( \"aa b\" INTEGER DEFAULT CURRENT_TIMESTAMP , `cc` TEXT DEFAULT NULL ) ; CREATE INDEX i ON t ( aa , b ) ; CREATE TRIGGER gg AFTER INSERT ON t BEGIN UPDATE t SET aa = CASE b WHEN 1 THEN 2 END ; SELECT 1 ; END ; CREATE TABLE z ( y REAL DEFAULT -2.5 , x TEXT DEFAULT TRUE ) ;",
		}
	case Postgres:
		return []string{
			"CREATE TABLE t ( aa INTEGER ) ;",
			"CREATE TABLE IF NOT EXISTS pub . users ( id BIGSERIAL PRIMARY KEY , name CHARACTER VARYING ( 20 ) CONSTRAINT nn NOT NULL UNIQUE WITH ( fillfactor = 70 ) DEFAULT 'x y' , age NUMERIC ( 5 , 2 ) CHECK ( age > 0 AND ( age < 9 ) ) NO INHERIT DEFAULT 1.5 , at TIMESTAMP ( 3 ) WITH TIME ZONE DEFAULT CURRENT_TIMESTAMP ) ;",
			"CREATE TABLE p ( aa TEXT REFERENCES q ( b ) MATCH FULL ON DELETE SET NULL NOT NULL , b INTEGER GENERATED ALWAYS AS ( aa || 'z' ) STORED , cc BIT VARYING ( 4 ) DEFAULT ( f ( 1 , 2 ) ) , d DOUBLE PRECISION NULL , CONSTRAINT kk PRIMARY KEY ( aa , b ) INCLUDE ( cc ) , UNIQUE ( cc ) USING INDEX TABLESPACE ts , CHECK ( aa <> b ) , FOREIGN KEY ( aa , b ) REFERENCES mm . r ( x , y ) ON UPDATE CASCADE , EXCLUDE USING gist ( cc WITH = ) WHERE ( cc > 1 ) ) WITH ( f = 1 ) TABLESPACE ts PARTITION BY RANGE ( aa ) ;",
			"CREATE TABLE \"w x\" ( \"aa b\" INT GENERATED BY DEFAULT AS IDENTITY ( START 1 ) , cc TEXT DEFAULT NULL ) ; CREATE INDEX i ON t ( aa , b ) ; CREATE VIEW v AS SELECT 1 ; CREATE TABLE z ( y REAL DEFAULT -2.5 , x TEXT DEFAULT TRUE ) USING heap ;",
		}
	}
	return []string{
		"CREATE TABLE t ( aa INT ) ;",
		"CREATE TABLE IF NOT EXISTS db . users ( id INT ( 11 ) AUTO_INCREMENT PRIMARY KEY , name VARCHAR ( 20 ) NOT NULL UNIQUE KEY COLLATE utf8_bin DEFAULT 'x y' COMMENT 'cc, d' , age DECIMAL ( 5 , 2 ) CONSTRAINT ck CHECK ( age > 0 AND ( age < 9 ) ) NOT ENFORCED DEFAULT 1.5 , at TIMESTAMP DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP ) ENGINE = InnoDB DEFAULT CHARACTER SET = utf8mb4 COMMENT 'x' ;",
		"CREATE TABLE p ( aa TEXT REFERENCES q ( b ) MATCH FULL ON DELETE SET NULL NOT NULL , b INT GENERATED ALWAYS AS ( aa || 'z' ) STORED , cc BINARY ( 4 ) DEFAULT ( f ( 1 , 2 ) ) , d DOUBLE NULL INVISIBLE , CONSTRAINT kk PRIMARY KEY USING BTREE ( aa ( 10 ) DESC , b ) COMMENT 'x' , UNIQUE INDEX ux ( cc ) VISIBLE , INDEX ix ( aa , b ) , FULLTEXT KEY ( cc ) , CHECK ( aa <> b ) , FOREIGN KEY fx ( aa , b ) REFERENCES mm . r ( x , y ) ON UPDATE CASCADE ) UNION = ( u , v . w ) ROW_FORMAT COMPACT ;",
		"CREATE TABLE `w x` ( `aa b` INT DEFAULT \"d q\" , cc TEXT DEFAULT NULL ) ; CREATE INDEX i ON t ( aa , b ) ; CREATE PROCEDURE gg ( ) BEGIN IF aa THEN SELECT 1 ; END IF ; SELECT 2 ; END ; CREATE TABLE z ( y REAL DEFAULT -2.5 , x TEXT DEFAULT TRUE ) AUTO_INCREMENT 5 ;",
	}
}

// stmts: complete statements (with their semicolons) used in sequences.
func stmts(d int) []string {
	it, st := intType[d], strType[d]
	s := []string{
		"CREATE TABLE t1 ( aa " + it + " ) ;",
		"CREATE TABLE IF NOT EXISTS t2 ( aa " + it + " NOT NULL , b " + st + " DEFAULT 'x;y' ) ;",
		"CREATE TABLE s3 . t3 ( aa " + it + " PRIMARY KEY , CONSTRAINT u UNIQUE ( aa ) ) ;",
		"CREATE TABLE IF NOT EXISTS s4 . t4 ( aa " + st + " CHECK ( aa > 'b' ) , FOREIGN KEY ( aa ) REFERENCES r ( kk ) ) ;",
		"CREATE VIEW v AS SELECT aa , b FROM t ;",
		"CREATE INDEX i ON t ( aa , b ) ;",
		"CREATE TRIGGER gg AFTER INSERT ON t BEGIN SELECT 1 ; SELECT CASE aa WHEN 1 THEN 2 END ; END ;",
	}
	switch d {
	case SQLite:
		s = append(s, "CREATE TEMP TABLE \"t 5\" ( \"aa b\" TEXT ) WITHOUT ROWID ;", "CREATE UNIQUE INDEX ui ON t ( aa ) ;", "CREATE VIRTUAL TABLE vt USING fts ( x ) ;")
	case Postgres:
		s = append(s, "CREATE TABLE \"t 5\" ( \"aa b\" TEXT ) TABLESPACE ts ;", "CREATE SEQUENCE sq START 1 ;", "CREATE TYPE ty AS ENUM ( 'aa' , 'b' ) ;")
	case MySQL:
		s = append(s, "CREATE TABLE `t 5` ( `aa b` TEXT , INDEX ( `aa b` ) ) ENGINE = x ;", "CREATE UNIQUE INDEX ui ON t ( aa ) ;", "CREATE PROCEDURE pr ( ) BEGIN IF aa THEN SELECT 1 ; END IF ; WHILE b DO SELECT 2 ; END WHILE ; END ;")
	}
	return s
}

func isTableStmt(s string) bool {
	return strings.Contains(strings.SplitN(s, "(", 2)[0], "TABLE") && !strings.Contains(s, "VIRTUAL")
}

// tableDocs calls f with every CREATE TABLE derivation with at most k deviations.
func tableDocs(d, k int, f func(ts []string) bool) {
	deriveDo(tagged[d]["table"][0], d, k, func(ts []string) bool {
		return f(append([]string{"CREATE"}, ts...))
	})
}

// glue joins tokens without blanks wherever a symbol or a quote separates them.
func glue(ts []string) string {
	var sb strings.Builder
	for i, t := range ts {
		if i > 0 && needBlank(ts[i-1], t) {
			sb.WriteByte(' ')
		}
		sb.WriteString(t)
	}
	return sb.String()
}

// glueD: as glue, and MySQL's option "=" needs no blanks either.
func glueD(ts []string, d int) string {
	if d != MySQL {
		return glue(ts)
	}
	var sb strings.Builder
	depth := 0
	for i, t := range ts {
		if i > 0 && needBlank(ts[i-1], t) && !(depth < 2 && (t == "=" || ts[i-1] == "=")) {
			sb.WriteByte(' ')
		}
		sb.WriteString(t)
		if t == "(" {
			depth++
		} else if t == ")" {
			depth--
		}
	}
	return sb.String()
}

func selfDelim(t string) bool {
	return len(t) == 1 && strings.ContainsAny(t, "(),.;") || t != "" && strings.ContainsAny(t[:1], "'\"`")
}

// needBlank: a blank is needed between two tokens.
func needBlank(a, b string) bool {
	if a == "." && b != "" && b[0] >= '0' && b[0] <= '9' || b == "." && allDigits(strings.TrimLeft(a, "+-")) {
		return true // could be read as a decimal number
	}
	qa, qb := a != "" && strings.ContainsAny(a[:1], "'\"`"), b != "" && strings.ContainsAny(b[:1], "'\"`")
	if qa && qb && a[0] == b[0] {
		return true // doubled quote
	}
	return !selfDelim(a) && !selfDelim(b)
}

// sentence joins tokens with a separator chosen per gap.
func weave(ts []string, gap func(i int) string) string {
	var sb strings.Builder
	sb.WriteString(gap(0))
	for i, t := range ts {
		sb.WriteString(t)
		sb.WriteString(gap(i + 1))
	}
	return sb.String()
}

// lexToks splits a document into its tokens.
func lexToks(text string, d int) []string {
	var out []string
	for _, t := range lexModel(text, d).Toks {
		out = append(out, t.S)
	}
	return out
}
