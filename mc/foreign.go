package main

import "strings"

// Words that stand in no grammar position of a dialect: every state of the grammar must refuse them
// (unless a name may stand there).

var sqlWords = words(`
	ACCESS ACCOUNT ACTIVE ADMIN AGAINST ALGORITHM ALWAYS ASENSITIVE ASSERTION AT AUTO AUTO_INCREMENT AUTOINCREMENT
	AUTOEXTEND_SIZE AVG_ROW_LENGTH BACKUP BIGDECIMAL BIGINT BIGSERIAL BINARY BIT BITMAP BLOB BOOL BOOLEAN BOTH BOX BRIN
	BTREE BUCKETS BULK BYTE BYTEA CACHE CACHED CASCADED CHAIN CHANGED CHANNEL CHAR CHARACTER CHARSET CHECKSUM CIDR CIRCLE
	CLASS CLOB CLONE CLUSTER CLUSTERED COALESCE CODE COLUMNS COMMENT COMMITTED COMPACT COMPLEX COMPRESSED COMPRESSION
	CONCURRENTLY CONNECTION CONSISTENT COPY COST CUBE CURRENT_USER CURSOR CYCLE DATABASES DATE DATETIME DATETIME2 DAY DBCLOB
	DEC DECFLOAT DECIMAL DECLARE DEFINER DELAYED DELAY_KEY_WRITE DELIMITER DIRECTORY DISABLE DISABLED DISK DISTKEY DISTRIBUTED
	DOMAIN DOUBLE DUPLICATE DYNAMIC EDITIONABLE ENABLE ENABLED ENCODE ENCODING ENCRYPTION ENFORCED ENGINE ENGINES ENUM ERROR
	EVENT EXCHANGE EXCLUDE EXCLUDING EXPIRE EXTENDED EXTENSION EXTERNAL FIELDS FILEGROUP FILLFACTOR FIRST FIXED FLOAT FLOAT4
	FLOAT8 FORCE FORMAT FOREIGN FULLTEXT FUNCTION GEOMETRY GIN GIST GLOBAL GRAPHIC GUID HANDLER HASH HEAP HIDDEN HOUR IDENTITY
	IMAGE IMMUTABLE IMPORT INCLUDE INCLUDING INCREMENT INDEXES INET INFINITE INHERIT INHERITS INLINE INNODB INOUT INPUT
	INSENSITIVE INSERT_METHOD INSTANT INT INT2 INT4 INT8 INTEGER INTERVAL INVISIBLE INVOKER ISOLATION JSON JSONB KEYS
	KEY_BLOCK_SIZE LANGUAGE LARGE LAST LEAKPROOF LEVEL LINE LINEAR LIST LOCAL LOCALTIME LOCATION LOCK LOCKED LOGGED LOGIN
	LONG LONGBLOB LONGTEXT LONGVARCHAR LSEG MACADDR MACADDR8 MAIN MANUAL MATERIALIZED MAXVALUE MAX_ROWS MEDIUM MEDIUMBLOB
	MEDIUMINT MEDIUMTEXT MEMORY MIDDLEINT MINUTE MINVALUE MIN_ROWS MODE MONEY MONTH NAME NAMES NATIONAL NATIVE NCHAR NCLOB NEVER
	NEXT NOCACHE NOCASE NOCHECK NOCYCLE NOLOGGING NOMAXVALUE NOMINVALUE NONCLUSTERED NONE NOORDER NORELY NOVALIDATE NOWAIT
	NTEXT NULLS NUMBER NUMERIC NVARCHAR NVARCHAR2 OBJECT OFFLINE OID OIDS ONLINE OPTION OPTIMIZE ORGANIZATION OVERFLOW OWNED
	OWNER PACK_KEYS PARALLEL PARSER PARTIAL PARTITIONED PARTITIONS PASSWORD PATH PCTFREE PERIOD PERMANENT PERSISTED PERSISTENT
	PG_LSN PLAIN PLUGIN POINT POLICY POLYGON PRECISION PREPARE PRESERVE PRIVATE PRIVILEGES PROCEDURE QUICK RANDOM RAW READ REAL
	REBUILD REDUNDANT REFRESH RELY REMOVE REORGANIZE REPAIR REPEAT REPLICA RESET RETURNS REVERSE ROLE ROOT ROWFORMAT ROWGUIDCOL
	ROWID ROWVERSION ROW_FORMAT RTRIM RULE SCHEMA SECOND SECONDARY SECURITY SEED SEQUENCE SERIAL SERIAL2 SERIAL4 SERIAL8
	SERIALIZABLE SERVER SESSION SETOF SHARE SHOW SIGNED SIMPLE SKIP SMALLINT SMALLMONEY SMALLSERIAL SNAPSHOT SORTED SORTKEY
	SPARSE SPATIAL SPGIST STABLE STANDALONE START STATISTICS STATS_AUTO_RECALC STATS_PERSISTENT STATS_SAMPLE_PAGES STORAGE STORED
	STORE STRICT STRING STRUCT SUBPARTITION SUPER SYNONYM SYSDATE SYSTEM TABLES TABLESPACE TEMPLATE TEMPTABLE TEXT TEXTIMAGE_ON
	TIME TIMESTAMP TIMESTAMPTZ TIMETZ TINYBLOB TINYINT TINYTEXT TRANSIENT TRUNCATE TRUSTED TSQUERY TSVECTOR TXID_SNAPSHOT TYPE
	UNCOMMITTED UNDEFINED UNIQUEIDENTIFIER UNLOGGED UNSIGNED UNTIL UPSERT USE UUID VALID VALIDATE VALUE VARBINARY VARBIT VARCHAR
	VARCHAR2 VARIADIC VARIANT VARYING VERSION VERSIONING VISIBLE VOLATILE WAIT WHILE WITHIN WORK WRAPPER WRITE XID XML YEAR
	ZEROFILL ZONE RENAME LIKE SETS ON OFF YES IS PREFIX EXPLICIT DUAL OUT
`)

var oddTokens = []string{"1", "2", "3", "-1", "+1", "0.5", "1e3", "-0", "00", "10", "255", "65536", "1x", "x1", "_", "==", "<", "!=", "+", "-", "/", "%", "[", "]", "{", "}", ":", "::", "?", "@", "$1", "&", "|", "~", "!", "\\", "é", "x.y", "''", "'x y'", "\"\"", "\"x y\"", "``", "`x y`", "'1'", "'0'", "N'x'", "\"NULL\"", "'NULL'", "'ON'"}

func foreignWords(d int) []string {
	own := map[string]bool{}
	for _, t := range vocabulary(d) {
		own[t.S] = true
	}
	var out []string
	add := func(w string) {
		if !own[w] {
			own[w] = true
			out = append(out, w)
		}
	}
	for o := 0; o < NDialect; o++ {
		for _, t := range vocabulary(o) {
			add(t.S)
		}
	}
	for _, w := range oddTokens {
		add(w)
	}
	for _, w := range srcWords {
		add(w)
	}
	for _, w := range sqlWords {
		add(w)
	}
	for _, l := range [][]string{reservedSQLite, reservedMySQL} {
		for _, w := range l {
			add(w)
		}
	}
	return out
}

// foreign: at every state of the grammar, a word from elsewhere, inserted or in place of the next token.
func foreign(e *Explorer, list func(d int) []string, mask uint32) {
	if e.again("foreign") {
		return
	}
	e.Group("words from elsewhere at every state of the grammar")
	for d := 0; d < NDialect; d++ {
		g := getGraph(d, e.Pick(0, 1), 1)
		ws := list(d)
		for i := range g.nodes {
			p := sp(g.path(i))
			var cs []string
			if c, ok := g.completion(i); ok {
				cs = append(cs, sp(c))
			}
			for _, ed := range g.nodes[i].edges {
				if ed.to < 0 {
					continue
				}
				if c, ok := g.completion(ed.to); ok {
					s := sp(c)
					dup := false
					for _, o := range cs {
						dup = dup || o == s
					}
					if !dup {
						cs = append(cs, s)
					}
				}
			}
			for _, w := range ws {
				for _, c := range cs {
					e.Diff(d, p+" "+w+" "+c, mask)
				}
			}
			if e.Stopped() {
				return
			}
		}
	}
}

// openDocs: documents with readings the documentation leaves open; what cannot be read either way is refused.
func openDocs(d int) []string {
	it := intType[d]
	out := []string{"CREATE TABLE t ( x " + it + " CONSTRAINT k1 , y " + it + " ) ;"}
	switch d {
	case Postgres:
		out = append(out, "CREATE TABLE t ( x VARCHAR ( 0 ) , y INTEGER GENERATED AS IDENTITY ( START 1 ) NOT NULL ) WITHOUT OIDS , TABLESPACE ts ;")
	case MySQL:
		out = append(out, "CREATE TABLE t ( x TIME ( 3 ) WITH TIME ZONE NOT NULL , y TIMESTAMP WITHOUT TIME ZONE ) ENGINE = q , CHECKSUM = 1 ;",
			"CREATE TABLE t ( x INT CONSTRAINT k1 UNIQUE , CONSTRAINT k2 INDEX ix ( x ) , CONSTRAINT k3 FULLTEXT KEY ( x ) ) MAX_ROWS = 'q' , DATA DIRECTORY = 5 ;")
	}
	return out
}

func openEdits(e *Explorer, mask uint32) {
	if e.again("openEdits") {
		return
	}
	e.Group("edits of readings left open")
	for d := 0; d < NDialect; d++ {
		ws := append(editVocab(d), foreignWords(d)...)
		for _, doc := range openDocs(d) {
			tokenEdits(lexToks(doc, d), ws, func(x []string, _ int) { e.Diff(d, sp(x), mask) })
		}
	}
}

func otherVocab(d int) []string {
	var out []string
	for _, w := range foreignWords(d) {
		for o := 0; o < NDialect; o++ {
			for _, t := range vocabulary(o) {
				if t.S == w {
					out = append(out, w)
					o = NDialect
					break
				}
			}
		}
	}
	return append(out, oddTokens...)
}

// repetitions: long lists of different column constraints, and then one of them again.
func repetitions(e *Explorer, mask uint32) {
	if e.again("repetitions") {
		return
	}
	e.Group("a repeated column constraint after many others")
	for d := 0; d < NDialect; d++ {
		var kinds [][]string
		used := map[string]bool{}
		for _, f := range colconKinds(d) {
			k := strings.TrimPrefix(f[0], voidMark)
			switch k {
			case "NOT":
				k = "NULL"
			case "KEY":
				k = "PRIMARY"
			case "AS":
				k = "GENERATED"
			case "CONSTRAINT":
				k = ""
			}
			if k == "" || used[k] {
				continue
			}
			used[k] = true
			kinds = append(kinds, f)
		}
		n := len(kinds)
		again := colconForms(d, 1)
		for rot := 0; rot < n; rot++ {
			for l := 3; l <= n; l++ {
				s := "CREATE TABLE t ( x " + intType[d]
				for j := 0; j < l; j++ {
					s += " " + render(kinds[(rot+j)%n], d)
				}
				e.Diff(d, s+" ) ;", mask)
				for _, a := range again {
					e.Diff(d, s+" "+render(a, d)+" ) ;", mask)
				}
				for _, t := range vocabulary(d) {
					e.Diff(d, s+" "+t.S+" ) ;", mask)
					e.Diff(d, s+" "+t.S+" , y "+intType[d]+" ) ;", mask)
					e.Diff(d, s+" CONSTRAINT n1 "+t.S+" ) ;", mask)
				}
				e.Diff(d, s+" CONSTRAINT n1 ) ;", mask)
				e.Diff(d, s+" CONSTRAINT n1 , y "+intType[d]+" ) ;", mask)
				e.Diff(d, s+" CONSTRAINT ) ;", mask)
				e.Diff(d, s+" CONSTRAINT n1 CONSTRAINT n2 CHECK ( x ) ) ;", mask)
				for j := 0; j < l; j++ {
					for at := j + 1; at < l; at++ {
						s := "CREATE TABLE t ( x " + intType[d]
						for k := 0; k < l; k++ {
							if k == at {
								s += " " + render(kinds[(rot+j)%n], d)
							}
							s += " " + render(kinds[(rot+k)%n], d)
						}
						e.Diff(d, s+" , y "+intType[d]+" ) ;", mask)
					}
				}
			}
		}
	}
}
