-------------------------------- MODULE Types --------------------------------
(* Column types and default values: what each server stores for a declared   *)
(* type, i.e. the equivalence relation on spellings of types and defaults.   *)
EXTENDS Base

Alias(d, b) ==
  CASE d = "mysql" ->
        (CASE b \in {"integer", "int4"} -> "int"
           [] b = "integer unsigned" -> "int unsigned"
           [] b \in {"bool", "boolean"} -> "tinyint"
           [] b \in {"dec", "numeric", "fixed"} -> "decimal"
           [] b \in {"dec unsigned", "numeric unsigned"} -> "decimal unsigned"
           [] b \in {"real", "double precision"} -> "double"
           [] b \in {"character"} -> "char"
           [] b \in {"character varying"} -> "varchar"
           [] OTHER -> b)
    [] d = "pg" ->
        (CASE b \in {"int", "int4"} -> "integer"
           [] b = "int2" -> "smallint"
           [] b = "int8" -> "bigint"
           [] b \in {"varchar"} -> "character varying"
           [] b \in {"char", "bpchar"} -> "character"
           [] b = "bool" -> "boolean"
           [] b = "decimal" -> "numeric"
           [] b = "float4" -> "real"
           [] b \in {"float8", "float", "double"} -> "double precision"
           [] b = "timestamptz" -> "timestamp with time zone"
           [] b = "timetz" -> "time with time zone"
           [] b = "timestamp" -> "timestamp without time zone"
           [] b = "time" -> "time without time zone"
           [] b = "varbit" -> "bit varying"
           [] b = "serial4" -> "serial"
           [] b = "serial8" -> "bigserial"
           [] b = "serial2" -> "smallserial"
           [] OTHER -> b)
    [] d = "mssql" ->
        (CASE b = "integer" -> "int"
           [] b \in {"dec", "decimal"} -> "numeric"
           [] b \in {"character"} -> "char"
           [] b \in {"character varying", "char varying"} -> "varchar"
           [] b = "double precision" -> "float"
           [] OTHER -> b)
    [] OTHER -> b

MySQLIntTypes == {"tinyint", "smallint", "mediumint", "int", "bigint", "tinyint unsigned",
   "smallint unsigned", "mediumint unsigned", "int unsigned", "bigint unsigned"}

DefaultArgs(d, raw, b) ==
  CASE d = "mysql" ->
        (CASE raw \in {"bool", "boolean"} -> <<"1">>
           [] b = "tinyint" -> <<"4">>
           [] b = "tinyint unsigned" -> <<"3">>
           [] b = "smallint" -> <<"6">>
           [] b = "smallint unsigned" -> <<"5">>
           [] b = "mediumint" -> <<"9">>
           [] b = "mediumint unsigned" -> <<"8">>
           [] b = "int" -> <<"11">>
           [] b \in {"int unsigned", "int unsigned zerofill"} -> <<"10">>
           [] b \in {"bigint", "bigint unsigned"} -> <<"20">>
           [] b \in {"char", "binary", "bit"} -> <<"1">>
           [] b \in {"decimal", "decimal unsigned"} -> <<"10", "0">>
           [] OTHER -> << >>)
    [] d = "pg" ->
        (CASE b \in {"character", "bit"} -> <<"1">> [] OTHER -> << >>)
    [] d = "mssql" ->
        (CASE b \in {"char", "varchar", "binary", "varbinary", "nchar", "nvarchar"} -> <<"1">>
           [] b \in {"datetime2", "datetimeoffset", "time"} -> <<"7">>
           [] b = "numeric" -> <<"18", "0">>
           [] OTHER -> << >>)
    [] OTHER -> << >>

FillArgs(d, b, args) ==
  IF d \in {"mysql", "pg", "mssql"} /\ b \in {"decimal", "decimal unsigned", "numeric"} /\ Len(args) = 1
  THEN args \o <<"0">> ELSE args

\* [base, args, arr] as stored by the server
NormType(d, t) ==
  LET b == Alias(d, t.base)
      a == IF t.args = << >> THEN DefaultArgs(d, t.base, b) ELSE FillArgs(d, b, t.args)
  IN [base |-> b, args |-> a, arr |-> t.arr]

NumericBases == MySQLIntTypes \cup {"decimal", "decimal unsigned", "float", "double", "float unsigned", "double unsigned",
   "integer", "numeric", "real", "double precision", "money", "smallmoney", "serial", "bigserial", "smallserial"}

StringBases == {"char", "varchar", "character", "character varying", "text", "tinytext", "mediumtext", "longtext",
   "citext", "nchar", "nvarchar", "ntext", "enum", "set"}

\* canonical stored default: [k, v]; k = "none" when there is none
NormDef(d, base, def) ==
  CASE def.k = "none" \/ (def.k = "null") -> [k |-> "none", v |-> ""]
    [] d = "mysql" /\ def.k = "bool" -> [k |-> "num", v |-> IF def.v = "true" THEN "1" ELSE "0"]
    [] d = "mysql" /\ base \in NumericBases /\ def.k = "str" /\ def.n # "" -> [k |-> "num", v |-> def.n]
    [] d = "mysql" /\ base \in StringBases /\ def.k = "num" -> [k |-> "str", v |-> def.v]
    [] d = "pg" /\ base \in NumericBases /\ def.k = "str" /\ def.n # "" -> [k |-> "num", v |-> def.n]
    [] OTHER -> [k |-> def.k, v |-> def.v]

PGCastFamily(b) ==
  CASE b \in {"smallint", "integer", "bigint", "numeric", "real", "double precision"} -> "num"
    [] b \in {"character", "character varying", "text", "citext"} -> "str"
    [] b \in {"timestamp without time zone", "timestamp with time zone", "date"} -> "ts"
    [] b \in {"time without time zone", "time with time zone"} -> "time"
    [] b \in {"json", "jsonb"} -> "json"
    [] OTHER -> b

\* can ALTER COLUMN .. TYPE convert without a USING clause
PGAutoCast(from, to) ==
  \/ from.base = to.base /\ from.arr = to.arr
  \/ /\ from.arr = to.arr
     /\ \/ PGCastFamily(from.base) = PGCastFamily(to.base)
        \/ PGCastFamily(to.base) = "str"
=============================================================================
