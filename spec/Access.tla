------------------------------- MODULE Access -------------------------------
(***************************************************************************)
(* P18.  What a load may do to the outside: open, for reading, the file it *)
(* is given and the tilesets and templates it comes to know by reference.  *)
(* The state is the set of files known so far; a recorded event conforms   *)
(* when it is the opening for reading of a known file, and makes the files *)
(* that one names known.                                                   *)
(*                                                                         *)
(* obs.events: [k, path, what], k one of                                   *)
(*    "read"    opened for reading only                                    *)
(*    "effect"  opened for writing, or anything else that reaches outside  *)
(*    "output"  something written to the standard streams                  *)
(*    "state"   something of the process changed: the current directory,   *)
(*              the environment, the import path ...                       *)
(***************************************************************************)
EXTENDS Clauses

EntryPath(s) == JoinP(NormalIn(s, s.mapdir \o <<s.file>>))
SetPaths(s) == {JoinP(NormalIn(s, s.mapdir \o r.src)) : r \in {x \in Range(s.map.tsrefs) : x.how # "embedded"}}
InstObjs(s) == {o \in Range(ObjDocs(s.map.layers)) : o.template # <<>>}
TplPath(s, o) == JoinP(NormalIn(s, s.mapdir \o o.template[1].src))
TplSetPaths(s, o) ==
  LET tp == s.templates[o.template[1].tpl]
  IN IF tp.tileset = <<>> THEN {} ELSE {JoinP(NormalIn(s, DirIn(s, s.mapdir \o o.template[1].src) \o tp.tileset[1].src))}

(* the files a file names *)
Names(s, p) ==
  IF s.call # "map" THEN {}
  ELSE (IF p = EntryPath(s) THEN SetPaths(s) \cup {TplPath(s, o) : o \in InstObjs(s)} ELSE {})
       \cup UNION {IF TplPath(s, o) = p THEN TplSetPaths(s, o) ELSE {} : o \in InstObjs(s)}

RECURSIVE AccessFrom(_, _, _, _)
AccessFrom(s, es, i, known) ==
  IF i > Len(es) THEN {}
  ELSE LET e == es[i]
       IN IF e.k = "read"
          THEN (IF e.path \in known THEN {} ELSE {D("access", "read", e.path, "only " \o ToString(known), e.what)})
               \cup AccessFrom(s, es, i + 1, known \cup Names(s, e.path))
          ELSE {D("access", e.k, e.path, "nothing", e.what)} \cup AccessFrom(s, es, i + 1, known)
AccessDiffs(s, obs) == AccessFrom(s, obs.events, 1, {EntryPath(s)})
=============================================================================
