------------------------------- MODULE MC_Gids -------------------------------
(***************************************************************************)
(* P05.  Global tile ids.  A map has its own tileset table; its objects    *)
(* are placed one after the other, at top level or inside a group.  An     *)
(* object is a tile of the map, or an instance of a template that has its  *)
(* own tileset; the loader then looks for that tileset in the table, adds  *)
(* it behind all ids in use when it is not there, and rebases the id.      *)
(*                                                                         *)
(* Tilesets are files of a small pool: two of them have the same name and  *)
(* different content, one is an image collection with a gap in its ids.    *)
(***************************************************************************)
EXTENDS Build
CONSTANTS N,                 \* most objects
          Tables             \* which of the tables below

(* the pool: [name, count, ids: local ids in use, file] *)
Pool == [ A |-> [name |-> "s:same", count |-> 4, ids |-> {0, 3}],
          B |-> [name |-> "s:same", count |-> 2, ids |-> {0, 1}],
          C |-> [name |-> "s:coll", count |-> 2, ids |-> {0, 7}],
          E |-> [name |-> "s:emb", count |-> 3, ids |-> {0, 2}] ]
Ext(k) == IF k = "C" THEN 8 ELSE Pool[k].count
(* the map's own table: sequences of [key, first] *)
Tab(i) ==
  CASE i = 1 -> <<>>
    [] i = 2 -> << [k |-> "A", first |-> 1] >>
    [] i = 3 -> << [k |-> "E", first |-> 1], [k |-> "A", first |-> 10] >>         \* a hole
    [] i = 4 -> << [k |-> "A", first |-> 20], [k |-> "E", first |-> 1] >>         \* out of order
    [] i = 5 -> << [k |-> "C", first |-> 1] >>                                    \* sparse, last
    [] i = 6 -> << [k |-> "B", first |-> 5], [k |-> "C", first |-> 7] >>          \* not from 1
How(k) == IF k = "E" THEN "embedded" ELSE "file"

(* kinds of objects: own id; template with tileset A, B, C; the same with an *)
(* id of the instance's own (only when the map has a tile)                   *)
Tpls == {"A", "B", "C"}
ObjOptions(t) == [kind : {"tpl"}, ts : Tpls]
                 \cup (IF t = 1 THEN {} ELSE [kind : {"own", "override"}, ts : {"A"}])

VARIABLES t,                 \* which table
          table,             \* the loader's table: set of [k, first]
          objs,              \* the document's objects: [kind, ts, nested, flags]
          gids               \* the ids reported
vars == <<t, table, objs, gids>>

Init == t \in Tables /\ table = {Tab(t)[i] : i \in DOMAIN Tab(t)} /\ objs = <<>> /\ gids = <<>>

Free == LET ends == {e.first + Ext(e.k) : e \in table} IN IF ends = {} THEN 1 ELSE Max(ends)
OwnGid == Tab(t)[1].first + Max(Pool[Tab(t)[1].k].ids)
LocalOf(ts) == Max(Pool[ts].ids)
Place(o, nested) ==
  /\ Len(objs) < N
  /\ objs' = Append(objs, [kind |-> o.kind, ts |-> o.ts, nested |-> nested])
  /\ IF o.kind \in {"own", "override"}
     THEN gids' = Append(gids, OwnGid) /\ UNCHANGED table
     ELSE LET known == {e \in table : e.k = o.ts}
              first == IF known = {} THEN Free ELSE Min({e.first : e \in known})
          IN /\ table' = IF known = {} THEN table \cup {[k |-> o.ts, first |-> first]} ELSE table
             /\ gids' = Append(gids, first + LocalOf(o.ts))
  /\ UNCHANGED t
Next == \E o \in ObjOptions(t) : Place(o, objs # <<>> /\ Len(objs) % 2 = 1) \/ Place(o, FALSE)
Spec == Init /\ [][Next]_vars

NoOverlap == \A a, b \in table : a # b => a.first + Ext(a.k) <= b.first \/ b.first + Ext(b.k) <= a.first
AddedOnce == \A a, b \in table : a.k = b.k => a = b
OwnKept == {Tab(t)[i] : i \in DOMAIN Tab(t)} \subseteq table
GrowsOnly == [][table \subseteq table']_vars
IdsKept == [][IsPrefix(gids, gids')]_vars
(* the entry an id belongs to *)
TableOwner(g) == LET below == {e \in table : e.first <= g} IN CHOOSE e \in below : \A f \in below : f.first <= e.first
Designates == \A i \in DOMAIN objs :
  LET e == TableOwner(gids[i])
  IN IF objs[i].kind = "tpl" THEN e.k = objs[i].ts /\ gids[i] - e.first = LocalOf(objs[i].ts)
     ELSE gids[i] = OwnGid
NothingElse == table \subseteq {Tab(t)[i] : i \in DOMAIN Tab(t)}
                              \cup {e \in table : \E i \in DOMAIN objs : objs[i].kind = "tpl" /\ objs[i].ts = e.k}

------------------------------------------------------------------------------
(* the document *)
TsDoc(k) == LET p == Pool[k] IN
  [Ts0 EXCEPT !.attrs = [name |-> p.name, tilewidth |-> "n:16", tileheight |-> "n:16", columns |-> "n:2"],
              !.tilecount = p.count,
              !.image = IF k = "C" THEN <<>> ELSE <<[segs |-> <<k \o ".png">>, w |-> "n:32", h |-> "n:32"]>>,
              !.tiles = IF k # "C" THEN <<>>
                        ELSE << [Tile0 EXCEPT !.id = 7, !.image = <<[segs |-> <<"c7.png">>, w |-> "n:8", h |-> "n:8"]>>],
                                [Tile0 EXCEPT !.id = 0, !.image = <<[segs |-> <<"c0.png">>, w |-> "n:9", h |-> "n:8"]>>] >>]
(* tileset A is stored in the other format than the map *)
TsHow(fmt, k) == IF k = "A" THEN IF fmt = "tmx" THEN "json" ELSE "tmx" ELSE fmt
TsExt(h) == IF h = "tmx" THEN ".tsx" ELSE ".tsj"
TsSrc(fmt, k) == <<"sets", k \o TsExt(TsHow(fmt, k))>>
Ref(fmt, e) == IF How(e.k) = "embedded" THEN Embedded(e.first, e.k)
               ELSE External(e.first, e.k, TsHow(fmt, e.k), TsSrc(fmt, e.k))
TplDoc(fmt, ts) == [ fmt |-> fmt,
  object |-> [Obj0 EXCEPT !.attrs = [id |-> "n:7", name |-> "s:t"], !.kind = "tile", !.gid = << <<2, LocalOf(ts) + 1>> >>],
  tileset |-> << [src |-> <<"..">> \o TsSrc(fmt, ts), how |-> TsHow(fmt, ts), ts |-> ts] >> ]
TplSrc(fmt, ts) == <<"tpl", ts \o (IF fmt = "tmx" THEN ".tx" ELSE ".tj")>>
ObjDoc(fmt, i) ==
  LET o == objs[i]
      base == ObjAt(i)
  IN CASE o.kind = "own" -> [base EXCEPT !.kind = "tile", !.gid = << <<8, OwnGid>> >>]
       [] o.kind = "tpl" -> [base EXCEPT !.kind = "inherit", !.template = << [src |-> TplSrc(fmt, o.ts), tpl |-> o.ts] >>]
       [] o.kind = "override" -> [base EXCEPT !.kind = "inherit", !.gid = << <<4, OwnGid>> >>,
                                              !.template = << [src |-> TplSrc(fmt, o.ts), tpl |-> o.ts] >>]
LayerFor(fmt, i) == LET l == ObjL("s:O" \o ToString(i), <<ObjDoc(fmt, i)>>)
                    IN IF objs[i].nested THEN GrpL("s:G" \o ToString(i), <<GrpL("s:H", <<l>>)>>) ELSE l
DocOf(fmt) ==
  Scenario(fmt,
    [MapOf([i \in DOMAIN objs |-> LayerFor(fmt, i)]) EXCEPT !.tsrefs = [i \in DOMAIN Tab(t) |-> Ref(fmt, Tab(t)[i])]],
    [k \in DOMAIN Pool |-> TsDoc(k)], [k \in Tpls |-> TplDoc(fmt, k)])
Export == (objs # <<>>) => EmitBoth(DocOf)

AllTables == 1..6
=============================================================================
