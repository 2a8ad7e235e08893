#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
NOTE = ("Every run of the real {who} is recorded and validated by TLC as a behaviour of spec/Sqldef.tla over the database engine of spec/Engine.tla. "
        "Trusted: the engine specification (checked against the real SQLite engine and the repository's own recorded plans), the fake servers and catalogs, the DDL parser of the harness.")
def c(p, tech, level, note, tier=True):
    return dict(property=p, quick_cmd="./check.sh %s quick" % p, thorough_cmd="./check.sh %s thorough" % p,
                technique=tech, level=level, level_note=note)
TV = "TLA+ specification of tool and database; traces of the real commands validated by TLC"
ALL = {
 "C01": (TV + "; final state compared with the meaning of the file", "model_checking", "All supported moves between schema variants per slot, several slots per run, and multi-step histories."),
 "C02": (TV + "; final state compared with the meaning of the file", "model_checking", "As C01, for keys, indexes and foreign keys."),
 "C03": (TV + "; final state compared with the meaning of the file", "model_checking", "As C01, for views, triggers, policies and checks; expressions are compared as syntax trees."),
 "C04": (TV + "; a second run must be empty", "model_checking", "Every variant from its own schema and after every kind of move."),
 "C05": (TV + "; equivalent spellings computed by TLC", "model_checking", "Variants with the same meaning, and lexical rewrites of the files."),
 "C06": (TV + "; object identities survive", "model_checking", "Objects carry identities in the specification; a declared object keeps its own."),
 "C07": (TV + "; every statement must be accepted in the state before it", "model_checking", "Statement by statement along every plan."),
 "C08": (TV + "; runs with --skip-drop against runs without", "model_checking", "Apply and dry run, with and without --skip-drop."),
 "C09": (TV + "; dry run against apply", "model_checking", "Dry run and apply of the same inputs."),
 "C10": (TV + "; the exported text evaluated by TLC", "model_checking", "Export, its re-application, and its application to an empty database."),
 "C11": (TV + " under injected faults", "fault_enumeration", "Errors and lost connections at begin, every statement, and commit."),
 "C12": (TV + " under injected faults", "fault_enumeration", "Errors, lost connections and truncated results at login and every read."),
 "C13": (TV + "; invalid files", "model_checking", "Files made invalid in every documented way, behind valid statements that imply changes."),
 "C14": (TV + "; output interleaved with statements", "model_checking", "Standard output is read at every statement."),
 "C15": ("TLA+ specification of the documented configuration; recorded connections validated by TLC", "model_checking", "Command lines and environments against what the servers were presented with."),
 "C16": (TV + "; repeated runs and permuted catalog rows", "model_checking", "Repetition, standard input, catalog row orders."),
 "C17": (TV + "; runs with and without unrelated objects", "model_checking", "Same-named objects in other databases and schemas."),
 "C18": (TV + "; runs resumed from every intermediate state", "fault_enumeration", "Every prefix of a plan on MySQL, rolled back runs on the others."),
}
import sys
have = set(open(os.path.join(os.path.dirname(__file__), "claimed.txt")).read().split())
na = [dict(property=p, reason="the check is not finished yet") for p in ALL if p not in have]
m = dict(version=1, setup_cmd="./setup.sh", checks=[c(p, *v[:2], v[2] + " " + NOTE.format(who="command")) for p, v in ALL.items() if p in have], not_applicable=na,
         notes="No hooks: the commands are observed from outside (wire protocol, output, exit status, files).")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
