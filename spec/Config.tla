-------------------------------- MODULE Config --------------------------------
(* What an invocation of one of the commands is configured to connect to      *)
(* (C15).  An invocation is                                                   *)
(*   d      the command       args   options in order, [o, v]                 *)
(*   dbs    positional arguments     env    environment variables, [n, v]     *)
(*   extra  "", "help", "version", "unknown" (an unknown option)              *)
(*   srv    [tls, cert]: whether the PostgreSQL server offers TLS, and which  *)
(*          names its certificate is for                                      *)
(* Values are opaque: the harness puts arbitrary text in their place.  Only   *)
(* host "hN", port "portN", socket "sockN" and directory "dirN" name places   *)
(* where something listens; "ca1" is the authority that signed the server's   *)
(* certificate.                                                               *)
(* The module enumerates invocations, says where each has to connect, and     *)
(* checks what was observed.                                                  *)
EXTENDS Base, Json, IOUtils

Server(d) == d \in {"mysql", "pg", "mssql"}

Options(d) == CASE d = "mysql" -> {"user", "password", "host", "port", "socket"}
                [] d = "pg" -> {"user", "password", "host", "port"}
                [] d = "mssql" -> {"user", "password", "host", "port"}
                [] OTHER -> {}

\* documented defaults
Default(d, o) ==
  CASE o = "user" -> CASE d = "mysql" -> "root" [] d = "pg" -> "postgres" [] OTHER -> "sa"
    [] o = "host" -> "h1"       \* 127.0.0.1
    [] o = "port" -> "port0"    \* 3306, 5432, 1433
    [] OTHER -> ""

\* the last occurrence of an option counts
Value(inv, o) ==
  LET is == {i \in DOMAIN inv.args : inv.args[i].o = o}
  IN IF is = {} THEN Default(inv.d, o) ELSE inv.args[CHOOSE i \in is : \A j \in is : j <= i].v

HasEnv(inv, n) == \E i \in DOMAIN inv.env : inv.env[i].n = n
EnvValue(inv, n) == inv.env[CHOOSE i \in DOMAIN inv.env : inv.env[i].n = n].v

PasswordVar(d) == CASE d = "mysql" -> "MYSQL_PWD" [] d = "pg" -> "PGPASSWORD" [] OTHER -> "MSSQL_PWD"

\* typed in, or the variable, or the option
Password(inv) ==
  IF \E i \in DOMAIN inv.args : inv.args[i].o = "password-prompt" THEN "typed"
  ELSE IF HasEnv(inv, PasswordVar(inv.d)) THEN EnvValue(inv, PasswordVar(inv.d))
  ELSE Value(inv, "password")

IsDir(h) == h \in {"dir1", "dir2"}
Unix(inv) == (inv.d = "mysql" /\ Value(inv, "socket") # "") \/ (inv.d = "pg" /\ IsDir(Value(inv, "host")))

\* localhost is 127.0.0.1
Address(h) == IF h = "hname" THEN "h1" ELSE h

Where(inv) ==
  IF inv.d = "mysql" /\ Unix(inv) THEN Value(inv, "socket")
  ELSE Address(Value(inv, "host")) \o ":" \o Value(inv, "port")

----------------------------------------------------------------------------
(* TLS (PostgreSQL).                                                        *)

SslMode(inv) == IF HasEnv(inv, "PGSSLMODE") THEN EnvValue(inv, "PGSSLMODE") ELSE "require"
Root(inv) == IF HasEnv(inv, "PGSSLROOTCERT") THEN EnvValue(inv, "PGSSLROOTCERT") ELSE ""
WantsTls(inv) == inv.d = "pg" /\ ~Unix(inv) /\ SslMode(inv) # "disable"
VerifiesCa(inv) == SslMode(inv) \in {"verify-ca", "verify-full"} \/ (SslMode(inv) = "require" /\ Root(inv) # "")
CertNames(inv, h) == inv.srv.cert = "any" \/ inv.srv.cert = h
\* the settings allow to log in at this server
Trusted(inv) ==
  \/ ~WantsTls(inv)
  \/ /\ inv.srv.tls
     /\ VerifiesCa(inv) => Root(inv) = "ca1"
     /\ SslMode(inv) = "verify-full" => CertNames(inv, Value(inv, "host"))

----------------------------------------------------------------------------
Usage(inv) == inv.extra # "unknown" /\ (inv.extra \in {"help", "version"} \/ Len(inv.dbs) = 1)
Connects(inv) == inv.extra = "" /\ Len(inv.dbs) = 1

\* what every login has to present
Login(inv) == [at |-> Where(inv), user |-> Value(inv, "user"), pass |-> Password(inv), db |-> inv.dbs[1],
               tls |-> IF WantsTls(inv) THEN "yes" ELSE "no"]

Brk(p, w) == [p |-> p, what |-> w]
When(b, w) == IF b THEN {Brk("C15", w)} ELSE {}

(* What was observed: [at: places that were contacted, logins, code, said,   *)
(* made: the SQLite database files that came to hold the tables]             *)
Broken(inv, o) ==
  IF inv.extra # "unknown" /\ inv.extra \in {"help", "version"}
  THEN When(o.at # << >> \/ o.made # << >>, "it connects although it is only asked for " \o inv.extra)
       \cup When(o.code # 0, "exit status " \o ToString(o.code) \o " for " \o inv.extra)
  ELSE IF ~Usage(inv)
  THEN When(o.at # << >> \/ o.made # << >>, "it connects although " \o (IF inv.extra = "unknown" THEN "there is an unknown option" ELSE ToString(Len(inv.dbs)) \o " databases are named"))
       \cup When(o.code = 0, "exit status 0 although " \o (IF inv.extra = "unknown" THEN "there is an unknown option" ELSE ToString(Len(inv.dbs)) \o " databases are named"))
       \cup When(~o.said, "failure without a message")
  ELSE IF ~Server(inv.d)
  THEN When(o.code # 0, "exit status " \o ToString(o.code) \o ": " \o o.msg)
       \cup When(o.made # << inv.dbs[1] >>, "the tables went to " \o ToString(o.made) \o " instead of " \o inv.dbs[1])
  ELSE LET L == Login(inv) IN
       UNION {When(o.at[i] # L.at, "it connects to " \o o.at[i] \o " instead of " \o L.at) : i \in DOMAIN o.at}
       \cup UNION {LET l == o.logins[i] IN
              When(l.user # L.user, "the user is " \o l.user \o " instead of " \o L.user)
              \cup When(l.pass # L.pass, "the password is " \o l.pass \o " instead of " \o L.pass)
              \cup When(l.db # L.db, "the database is " \o l.db \o " instead of " \o L.db)
              \cup When(l.tls # L.tls, "TLS is used: " \o l.tls \o " instead of " \o L.tls)
              \cup When(~Trusted(inv), "it logs in at a server that the SSL settings do not allow") : i \in DOMAIN o.logins}
       \cup (IF Trusted(inv)
             THEN When(o.logins = << >>, "it does not log in: " \o o.msg)
                  \cup When(o.code # 0, "exit status " \o ToString(o.code) \o ": " \o o.msg)
             ELSE When(o.code = 0, "exit status 0 although it could not log in") \cup When(~o.said, "failure without a message"))

----------------------------------------------------------------------------
(* Invocations.                                                             *)

Arg(o, v) == [o |-> o, v |-> v]
Env(n, v) == [n |-> n, v |-> v]
\* how often and with which values an option is given
Given(o, vs) == {<< >>} \cup {<< Arg(o, v) >> : v \in vs}
Twice(o, a, b) == {<< Arg(o, a), Arg(o, b) >>}

Users == Given("user", {"user1"}) \cup Twice("user", "user1", "user2")
Passwords == Given("password", {"pass1"}) \cup Twice("password", "pass1", "pass2") \cup {<< Arg("password-prompt", "") >>, << Arg("password", "pass1"), Arg("password-prompt", "") >>}
PasswordEnvs(d) == {<< >>, << Env(PasswordVar(d), "pass3") >>, << Env(PasswordVar(d), "") >>}
Ports == Given("port", {"port1"}) \cup Twice("port", "port2", "port1")
Hosts(d) == Given("host", {"h2", "h6", "hname"} \cup (IF d = "pg" THEN {"dir1"} ELSE {})) \cup Twice("host", "h1", "h2")
Sockets(d) == IF d = "mysql" THEN Given("socket", {"sock1"}) \cup Twice("socket", "sock2", "sock1") ELSE {<< >>}
Dbs == {<< "db1" >>, << >>, << "db1", "db2" >>}
\* variables that are not documented, or are those of another command
Decoys(d) ==
  LET all == << Env("MYSQL_HOST", "h2"), Env("MYSQL_TCP_PORT", "port2"), Env("MYSQL_UNIX_PORT", "sock2"), Env("PGHOST", "h2"), Env("PGPORT", "port2"), Env("PGUSER", "user2"),
                Env("PGDATABASE", "db2"), Env("USER", "user2"), Env("SQLCMDUSER", "user2"), Env("SQLCMDPASSWORD", "pass2") >>
             \o (IF d = "mysql" THEN << >> ELSE << Env("MYSQL_PWD", "pass4") >>)
             \o (IF d = "pg" THEN << >> ELSE << Env("PGPASSWORD", "pass4"), Env("PGSSLMODE", "verify-full") >>)
             \o (IF d = "mssql" THEN << >> ELSE << Env("MSSQL_PWD", "pass4") >>)
  IN {<< >>, all}

NoTls == [tls |-> FALSE, cert |-> "any"]
Plain(d) == IF d = "pg" THEN << Env("PGSSLMODE", "disable") >> ELSE << >>

Basic(d) ==
  {[d |-> d, args |-> x[1] \o x[2] \o x[3] \o x[4] \o x[5], dbs |-> x[6], env |-> Plain(d) \o x[7] \o x[8], extra |-> "", srv |-> NoTls] :
     x \in Users \X Passwords \X Hosts(d) \X Ports \X Sockets(d) \X Dbs \X PasswordEnvs(d) \X Decoys(d)}

Odd(d) ==
  {[d |-> d, args |-> IF Server(d) THEN a ELSE << >>, dbs |-> x, env |-> Plain(d), extra |-> e, srv |-> NoTls] :
     a \in Given("host", {"h2"}), x \in Dbs, e \in {"help", "version", "unknown"}}

SslModes == {<< >>} \cup {<< Env("PGSSLMODE", m) >> : m \in {"disable", "require", "verify-ca", "verify-full"}}
Roots == {<< >>} \cup {<< Env("PGSSLROOTCERT", r) >> : r \in {"ca1", "ca2"}}
Tls(d) ==
  IF d # "pg" THEN {}
  ELSE {[d |-> d, args |-> x[1] \o x[2], dbs |-> << "db1" >>, env |-> x[3] \o x[4] \o << Env("PGPASSWORD", "pass3") >>, extra |-> "", srv |-> x[5]] :
          x \in Hosts(d) \X Given("port", {"port1"}) \X SslModes \X Roots \X {NoTls, [tls |-> TRUE, cert |-> "any"], [tls |-> TRUE, cert |-> "elsewhere"], [tls |-> TRUE, cert |-> "h2"]}}

Files == {[d |-> "sqlite", args |-> << >>, dbs |-> x, env |-> e, extra |-> "", srv |-> NoTls] : x \in Dbs, e \in Decoys("sqlite")}

Invocations(d) == IF Server(d) THEN Basic(d) \cup Odd(d) \cup Tls(d) ELSE Files \cup Odd(d)

----------------------------------------------------------------------------
Tasks == ndJsonDeserialize(IOEnv.IN)
VARIABLES i, done
Init == i \in 1..Len(Tasks) /\ done = FALSE
Result(t) == IF t.gen THEN [inv |-> SetToSeq(Invocations(t.d))] ELSE [viol |-> SetToSeq(Broken(t.inv, t.obs))]
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ LET t == Tasks[i] IN PrintT("@@" \o ToJson([id |-> t.id, r |-> Result(t)]))
=============================================================================
