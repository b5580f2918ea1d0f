%%
parse_toplevel:
			stmtmulti { }
			| MODE_PLPGSQL_EXPR select { }
		;
stmtmulti:	stmtmulti ';' toplevel_stmt { }
			| toplevel_stmt { }
		;
toplevel_stmt: select { } | insert { } | /*EMPTY*/ { } ;
insert: INSERT INTO name opt_columns select opt_returning { }
			| INSERT INTO name DEFAULT VALUES { } ;
opt_columns: '(' names ')' { } | { } ;
opt_returning: RETURNING targets { } | { } ;
names: name { } | names ',' name { } ;
select: simple_select { } | select UNION opt_all select { } | select INTERSECT opt_all select { }
			| select EXCEPT opt_all select { } | '(' select ')' { } ;
opt_all: ALL { } | DISTINCT { } | { } ;
simple_select: SELECT opt_all targets from where group { } | VALUES '(' exprs ')' { } | TABLE name { } ;
targets: target { } | targets ',' target { } ;
target: a_expr AS name { } | a_expr IDENT { } | a_expr { } | '*' { } ;
from: FROM tables { } | { } ;
tables: table { } | tables ',' table { } ;
table: name opt_alias { } | '(' select ')' opt_alias { } | joined { } | LATERAL '(' select ')' { } ;
joined: '(' joined ')' { } | table CROSS JOIN table { } | table LEFT JOIN table ON a_expr { }
			| table JOIN table USING '(' names ')' { } | table NATURAL JOIN table { } ;
opt_alias: AS name { } | IDENT { } | { } ;
where: WHERE a_expr { } | { } ;
group: GROUP_P BY exprs having { } | { } ;
having: HAVING a_expr { } | { } ;
exprs: a_expr { } | exprs ',' a_expr { } ;
a_expr: c_expr { } | a_expr TYPECAST name { } | a_expr COLLATE name { } | '+' a_expr %prec UMINUS { }
			| '-' a_expr %prec UMINUS { } | a_expr '+' a_expr { } | a_expr '-' a_expr { } | a_expr '*' a_expr { }
			| a_expr '/' a_expr { } | a_expr '%' a_expr { } | a_expr '^' a_expr { } | a_expr '<' a_expr { }
			| a_expr '>' a_expr { } | a_expr '=' a_expr { } | a_expr LESS_EQUALS a_expr { }
			| a_expr Op a_expr %prec Op { } | Op a_expr %prec Op { } | a_expr AND a_expr { } | a_expr OR a_expr { }
			| NOT a_expr { } | NOT_LA a_expr %prec NOT { } | a_expr LIKE a_expr %prec LIKE { }
			| a_expr LIKE a_expr ESCAPE a_expr %prec LIKE { } | a_expr NOT_LA LIKE a_expr %prec NOT_LA { }
			| a_expr IS NULL_P %prec IS { } | a_expr IS NOT NULL_P %prec IS { } | a_expr ISNULL { } | a_expr NOTNULL { }
			| a_expr BETWEEN b_expr AND a_expr %prec BETWEEN { } | a_expr IN_P '(' exprs ')' { } | a_expr AT TIME ZONE a_expr %prec AT { } ;
b_expr: c_expr { } | b_expr TYPECAST name { } | '-' b_expr %prec UMINUS { } | b_expr '+' b_expr { } | b_expr '*' b_expr { }
			| b_expr '<' b_expr { } | b_expr Op b_expr %prec Op { } ;
c_expr: ICONST { } | FCONST { } | SCONST { } | BCONST { } | XCONST { } | PARAM { } | columnref { } | '(' a_expr ')' indirection { }
			| func '(' ')' { } | func '(' exprs ')' { } | func '(' '*' ')' { } | CASE opt_expr whens else END_P { }
			| EXISTS '(' select ')' { } | ARRAY '[' exprs ']' { } | ROW '(' exprs ')' { } ;
opt_expr: a_expr { } | { } ;
whens: when { } | whens when { } ;
when: WHEN a_expr THEN a_expr { } ;
else: ELSE a_expr { } | { } ;
columnref: name indirection { } ;
indirection: indirection '.' name { } | indirection '[' a_expr ']' { } | indirection '[' opt_expr ':' opt_expr ']' { } | { } ;
func: IDENT { } | COALESCE { } | GREATEST { } ;
name: IDENT { } | unreserved { } ;
unreserved: ABORT_P { } | ABSOLUTE_P { } | ACCESS { } | ACTION { } | ADD_P { } | ADMIN { } | AFTER { } ;
%%
