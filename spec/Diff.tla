-------------------------------- MODULE Diff --------------------------------
(***************************************************************************)
(* Differences between what a scenario denotes (Tiled) and what the real   *)
(* library reported (an observation made by harness/worker.py).  Every     *)
(* operator is total: a difference is a tuple of strings                   *)
(*    <<kind, field, where, expected, observed>>                           *)
(***************************************************************************)
EXTENDS Tiled

D(kind, field, where, want, got) == <<kind, field, where, want, got>>
S(i) == ToString(i)

FieldDiffs(kind, where, want, got) ==
  {D(kind, f, where, want[f], IF f \in DOMAIN got THEN got[f] ELSE "<missing>")
     : f \in {g \in DOMAIN want : g \notin DOMAIN got \/ want[g] # got[g]}}

(* o, g: <<>> or <<map>>; loose: names that may be there or not *)
PropDiffs(kind, where, o, g, loose) ==
  IF o = <<>> /\ g = <<>> THEN {}
  ELSE IF o = <<>> THEN {D(kind, "*", where, "none", ToString(g))}
  ELSE IF g = <<>> THEN {D(kind, "*", where, ToString(o), "none")}
  ELSE LET w == o[1]
           r == g[1]
           names == (DOMAIN w \cup DOMAIN r) \ loose
           W(n) == IF n \in DOMAIN w THEN w[n] ELSE "<absent>"
           R(n) == IF n \in DOMAIN r THEN r[n] ELSE "<absent>"
       IN {D(kind, n, where, W(n), R(n)) : n \in {m \in names : W(m) # R(m)}}

FirstBad(want, got) == CHOOSE i \in DOMAIN want : /\ want[i] # got[i]
                                                  /\ \A j \in 1..(i - 1) : want[j] = got[j]
RowsDiff(kind, where, want, got) ==
  IF want = got THEN {}
  ELSE IF Len(want) # Len(got) THEN {D(kind, "rows", where, S(Len(want)), S(Len(got)))}
  ELSE LET r == FirstBad(want, got) IN {D(kind, "row " \o S(r), where, ToString(want[r]), ToString(got[r]))}

------------------------------------------------------------------------------
TextDiffs(pre, where, want, got) ==
  IF want = <<>> /\ got = <<>> THEN {}
  ELSE IF want = <<>> \/ got = <<>> THEN {D(pre \o "text", "*", where, ToString(want), ToString(got))}
  ELSE FieldDiffs(pre \o "text", where, want[1], got[1])

GidTok(g) == IF g = <<>> THEN "none" ELSE S(g[1][1]) \o ":" \o S(g[1][2])
GidDiffs(s, pre, where, o, want, got) ==
  IF GidFromTemplate(s, o) THEN {}     \* judged against the observed table
  ELSE IF GidTok(want.gid) = GidTok(got.gid) THEN {}
       ELSE {D(pre \o "gid", "gid", where, GidTok(want.gid), GidTok(got.gid))}

ClassesOf(s, o) == ClassNames(Resolve(s, o).props)
ObjDiffs(s, pre, where, o, got) ==
  LET want == ObjRes(s, o) IN
  (IF want.kind # got.kind THEN {D(pre \o "objkind", "kind", where, want.kind, got.kind)} ELSE {})
  \cup FieldDiffs(pre \o "obj", where, want.attrs, got.attrs)
  \cup (IF want.points # got.points
        THEN {D(pre \o "points", "points", where, ToString(want.points), ToString(got.points))} ELSE {})
  \cup TextDiffs(pre, where, want.text, got.text)
  \cup PropDiffs(pre \o "objprops", where, want.props, got.props, ClassesOf(s, o))
  \cup GidDiffs(s, pre, where, o, want, got)

ObjsDiffs(s, pre, where, os, gs) ==
  IF Len(os) # Len(gs) THEN {D(pre \o "objcount", "count", where, S(Len(os)), S(Len(gs)))}
  ELSE UNION {ObjDiffs(s, pre, where \o "/object" \o S(i), os[i], gs[i]) : i \in DOMAIN os}

------------------------------------------------------------------------------
(* an infinite layer without chunks: nothing but an empty layer is asked *)
EmptyData(g) == g = <<>> \/ g = << <<>> >> \/ g = << << <<>> >> >>

ChunkDiffs(pre, where, want, got) ==
  IF Len(want) # Len(got) THEN {D(pre \o "chunks", "count", where, S(Len(want)), S(Len(got)))}
  ELSE UNION {
    LET w == want[i]
        g == got[i]
        at == where \o "/chunk" \o S(i)
    IN (IF <<w.x, w.y, w.w, w.h>> # <<g.x, g.y, g.w, g.h>>
        THEN {D(pre \o "chunks", "place", at, ToString(<<w.x, w.y, w.w, w.h>>), ToString(<<g.x, g.y, g.w, g.h>>))}
        ELSE {})
       \cup RowsDiff(pre \o "chunks", at, w.data, g.data) : i \in DOMAIN want}

DataDiffs(pre, where, l, want, got) ==
  IF l.kind # "tile" THEN {}
  ELSE IF want.data # <<>>
  THEN IF got.data = <<>> \/ got.chunks # <<>>
       THEN {D(pre \o "data", "form", where, "grid", IF got.data = <<>> THEN "no grid" ELSE "chunks")}
       ELSE RowsDiff(pre \o "data", where, want.data[1], got.data[1])
  ELSE IF want.chunks[1] = <<>>
  THEN IF got.chunks = << <<>> >> /\ EmptyData(got.data) THEN {}
       ELSE {D(pre \o "chunks", "form", where, "empty layer", "cells")}
  ELSE IF got.chunks = <<>> \/ got.data # <<>>
       THEN {D(pre \o "chunks", "form", where, "chunks", "other")}
       ELSE ChunkDiffs(pre, where, want.chunks[1], got.chunks[1])

(* the format records the start of an infinite layer only in JSON, and the   *)
(* size of a layer that is no tile layer only in files of old versions       *)
LayerDiffs(s, pre, where, l, got) ==
  LET want == LayerRes(s, l)
      w == [draworder |-> want.draworder, image |-> want.image, trans |-> want.trans]
      g == [draworder |-> got.draworder, image |-> got.image, trans |-> got.trans]
  IN FieldDiffs(pre \o "layer", where, want.attrs, got.attrs)
     \cup FieldDiffs(pre \o "layer", where, w, g)
     \cup PropDiffs(pre \o "layerprops", where, want.props, got.props, ClassNames(l.props))
     \cup DataDiffs(pre, where, l, want, got)
     \cup (IF l.kind = "object" THEN ObjsDiffs(s, pre, where, l.objects, got.objects) ELSE {})

Shape(pre) == [i \in DOMAIN pre |-> <<S(pre[i].depth), pre[i].layer.kind>>]
ForestDiffs(s, pre, where, ls, gs) ==
  LET a == Preorder(ls, 0)
      b == Preorder(gs, 0)
  IN IF Shape(a) # Shape(b)
     THEN {D(pre \o "tree", "shape", where, ToString(Shape(a)), ToString(Shape(b)))}
     ELSE UNION {LayerDiffs(s, pre, where \o "/layer" \o S(i), a[i].layer, b[i].layer) : i \in DOMAIN a}

------------------------------------------------------------------------------
TileDiffs(s, where, t, ext, got) ==
  LET want == TileRes(s, t, ext) IN
  FieldDiffs("tile", where, want.attrs, got.attrs)
  \cup (IF want.id # got.id THEN {D("tile", "id", where, S(want.id), S(got.id))} ELSE {})
  \cup (IF want.image # got.image THEN {D("tileimage", "image", where, want.image, got.image)} ELSE {})
  \cup (IF want.animation # got.animation
        THEN {D("anim", "frames", where, ToString(want.animation), ToString(got.animation))} ELSE {})
  \cup PropDiffs("tileprops", where, want.props, got.props, ClassNames(t.props))
  \cup (IF t.objects = <<>> /\ got.objects = <<>> THEN {}
        ELSE IF t.objects = <<>> \/ got.objects = <<>>
        THEN {D("col-tree", "present", where, S(Len(t.objects)), S(Len(got.objects)))}
        ELSE ForestDiffs(s, "col-", where, t.objects, got.objects))

(* entries by key come in the order of the document *)
OrderDiffs(kind, where, want, got) ==
  IF Len(want) = Len(got) /\ want # got THEN {D(kind, "order", where, ToString(want), ToString(got))} ELSE {}

TilesDiffs(s, where, t, ext, got) ==
  IF t.tiles = <<>>
  THEN IF got = <<>> \/ got = << <<>> >> THEN {}
       ELSE {D("tiles", "ids", where, "none", ToString([i \in DOMAIN got[1] |-> got[1][i].key]))}
  ELSE IF got = <<>> THEN {D("tiles", "ids", where, "some", "none")}
  ELSE LET ids == {t.tiles[i].id : i \in DOMAIN t.tiles}
           keys == {got[1][i].key : i \in DOMAIN got[1]}
       IN (IF ids # keys THEN {D("tiles", "ids", where, ToString(ids), ToString(keys))}
           ELSE OrderDiffs("tileorder", where, [i \in DOMAIN t.tiles |-> t.tiles[i].id], [i \in DOMAIN got[1] |-> got[1][i].key]))
          \cup UNION {UNION {IF t.tiles[i].id = got[1][j].key
                             THEN TileDiffs(s, where \o "/tile" \o S(t.tiles[i].id), t.tiles[i], ext, got[1][j].tile)
                             ELSE {} : j \in DOMAIN got[1]} : i \in DOMAIN t.tiles}

WangDiffs(where, w, got) ==
  LET want == WangSetRes(w)
      tiles == {got.tiles[i] : i \in DOMAIN got.tiles}
  IN FieldDiffs("wang", where, want.attrs, got.attrs)
     \cup PropDiffs("wangprops", where, want.props, got.props, ClassNames(w.props))
     \cup (IF Len(want.colors) # Len(got.colors)
           THEN {D("wangcolor", "count", where, S(Len(want.colors)), S(Len(got.colors)))}
           ELSE UNION {FieldDiffs("wangcolor", where \o "/color" \o S(i), want.colors[i].attrs, got.colors[i].attrs)
                       \cup PropDiffs("wangprops", where \o "/color" \o S(i), want.colors[i].props,
                                      got.colors[i].props, ClassNames(w.colors[i].props))
                       : i \in DOMAIN want.colors})
     \cup (IF want.tiles # tiles THEN {D("wangtiles", "tiles", where, ToString(want.tiles), ToString(tiles))}
           ELSE OrderDiffs("wangorder", where, [i \in DOMAIN w.tiles |-> w.tiles[i].tileid],
                           [i \in DOMAIN got.tiles |-> got.tiles[i].key]))

WangSetsDiffs(where, ws, got) ==
  IF ws = <<>> THEN IF got = <<>> \/ got = << <<>> >> THEN {} ELSE {D("wang", "present", where, "none", "some")}
  ELSE IF got = <<>> THEN {D("wang", "present", where, S(Len(ws[1])), "none")}
  ELSE IF Len(ws[1]) # Len(got[1]) THEN {D("wang", "count", where, S(Len(ws[1])), S(Len(got[1])))}
  ELSE UNION {WangDiffs(where \o "/wangset" \o S(i), ws[1][i], got[1][i]) : i \in DOMAIN ws[1]}

TilesetDiffs(s, where, t, first, ext, got) ==
  LET want == TilesetRes(s, t, first, ext) IN
  FieldDiffs("ts", where, want.attrs, got.attrs)
  \cup (IF want.firstgid # got.firstgid THEN {D("firstgid", "firstgid", where, S(want.firstgid), S(got.firstgid))} ELSE {})
  \cup (IF want.tilecount # got.tilecount
        THEN {D("ts", "tilecount", where, S(want.tilecount), S(got.tilecount))} ELSE {})
  \cup (IF want.image # got.image THEN {D("tsimage", "image", where, want.image, got.image)} ELSE {})
  \cup PropDiffs("tsprops", where, want.props, got.props, ClassNames(t.props))
  \cup TilesDiffs(s, where, t, ext, got.tiles)
  \cup WangSetsDiffs(where, t.wangsets, got.wangsets)

------------------------------------------------------------------------------
(* The tileset table.  The document's own entries keep key and content;      *)
(* every further entry must be a tileset some template of an object of the   *)
(* map names, added once, clear of every other entry.                        *)

Keys(tab) == {tab[i].key : i \in DOMAIN tab}
DocKeys(s) == {r.first : r \in Range(s.map.tsrefs)}
(* indices of the objects (in draw order) whose id comes from a template *)
TplObjs(s) == LET os == ObjDocs(s.map.layers) IN SelectSeq(os, LAMBDA o : GidFromTemplate(s, o))
TplFile(s, o) == LET tr == o.template[1]
                     tp == s.templates[tr.tpl]
                 IN NormalIn(s, DirIn(s, s.mapdir \o tr.src) \o tp.tileset[1].src)
TplTs(s, o) == s.templates[o.template[1].tpl].tileset[1].ts
(* distinct tileset files templates use: [file, ts] *)
TplSets(s) == LET os == TplObjs(s) IN {[file |-> TplFile(s, os[i]), ts |-> TplTs(s, os[i])] : i \in DOMAIN os}
DirOfFile(f) == SubSeq(f, 1, Len(f) - 1)

IsTheSet(s, ts, file, e) ==
  TilesetDiffs(s, "", s.tilesets[ts], e.key, <<DirOfFile(file), Links(s)>>, e.ts) = {}
(* an embedded copy differs in the image path only *)
LooksLikeSet(s, ts, file, e) ==
  \A d \in TilesetDiffs(s, "", s.tilesets[ts], e.key, <<DirOfFile(file), Links(s)>>, e.ts) : d[1] \in {"tsimage", "tileimage"}
MapFiles(s) == {NormalIn(s, s.mapdir \o r.src) : r \in {x \in Range(s.map.tsrefs) : x.how # "embedded"}}

ObsExtent(ts) == LET ks == IF ts.tiles = <<>> THEN {} ELSE {ts.tiles[1][i].key + 1 : i \in DOMAIN ts.tiles[1]} \cup {0}
                     m == IF ks = {} THEN 0 ELSE CHOOSE x \in ks : \A y \in ks : y <= x
                 IN Max2(ts.tilecount, m)
Overlap(a, b) == LET ea == Max2(1, ObsExtent(a.ts))
                     eb == Max2(1, ObsExtent(b.ts))
                 IN a.key < b.key + eb /\ b.key < a.key + ea

(* an added tileset that is none a template names: when it has the name of   *)
(* one, it is that tileset loaded wrongly (the nearest, if there are several)*)
ExtraDiffs(s, sets, e) ==
  LET of(f) == TilesetDiffs(s, "tileset" \o S(e.key), s.tilesets[f.ts], e.key, <<DirOfFile(f.file), Links(s)>>, e.ts)
      same == {f \in sets : s.tilesets[f.ts].attrs.name = e.ts.attrs.name}
  IN IF same = {} THEN {D("extra", "unknown", S(e.key), "a tileset a template names", e.ts.attrs.name)}
     ELSE of(CHOOSE f \in same : \A g \in same : Cardinality(of(f)) <= Cardinality(of(g)))

TableDiffs(s, tab) ==
  LET extra == {e \in Range(tab) : e.key \notin DocKeys(s)}
      sets == TplSets(s)
      own == SelectSeq(tab, LAMBDA e : e.key \in DocKeys(s))
  IN {D("table", "missing", S(k), "present", "absent") : k \in DocKeys(s) \ Keys(tab)}
     \cup OrderDiffs("tableorder", "map", [i \in DOMAIN s.map.tsrefs |-> s.map.tsrefs[i].first], [i \in DOMAIN own |-> own[i].key])
     \cup UNION {UNION {IF e.key = s.map.tsrefs[i].first
                        THEN TilesetDiffs(s, "tileset" \o S(e.key), s.tilesets[s.map.tsrefs[i].ts], e.key,
                                          RefExt(s, s.map.tsrefs[i]), e.ts)
                        ELSE {} : e \in Range(tab)} : i \in DOMAIN s.map.tsrefs}
     \cup UNION {ExtraDiffs(s, sets, e) : e \in {x \in extra : \A f \in sets : ~IsTheSet(s, f.ts, f.file, x)}}
     \cup {D("extra", "firstgid", S(e.key), S(e.key), S(e.ts.firstgid)) : e \in {x \in extra : x.key # x.ts.firstgid}}
     \cup UNION {LET es == {e \in extra : IsTheSet(s, f.ts, f.file, e)}
                     most == IF f.file \in MapFiles(s) THEN 0 ELSE 1
                 IN IF Cardinality(es) > most
                    THEN {D("extra", "added", JoinP(f.file), S(most), S(Cardinality(es)))} ELSE {}
                 : f \in sets}
     \cup {D("extra", "overlap", S(e.key), "disjoint ids", "overlap")
             : e \in {x \in extra : \E y \in Range(tab) : y.key # x.key /\ Overlap(x, y)}}

(* the entry of the table an id belongs to *)
Below(tab, g) == {e \in Range(tab) : e.key <= g}
Owner(tab, g) == CHOOSE e \in Below(tab, g) : \A f \in Below(tab, g) : f.key <= e.key
TplGidDiff(s, tab, o, got, where) ==
  LET want == Resolve(s, o).gid[1]
      f == TplFile(s, o)
      ts == TplTs(s, o)
      flags == got.gid[1][1]
      g == got.gid[1][2]
      local == want[2] - 1
  IN IF got.gid = <<>> THEN {D("tplgid", "gid", where, "a tile", "none")}
     ELSE IF flags # want[1] THEN {D("tplgid", "flags", where, S(want[1]), S(flags))}
     ELSE IF Below(tab, g) = {} THEN {D("tplgid", "tile", where, s.tilesets[ts].attrs.name \o "#" \o S(local), "nothing")}
     ELSE LET e == Owner(tab, g) IN
          IF LooksLikeSet(s, ts, f, e) /\ g - e.key = local THEN {}
          ELSE {D("tplgid", "tile", where, s.tilesets[ts].attrs.name \o "#" \o S(local),
                  e.ts.attrs.name \o "#" \o S(g - e.key))}

RECURSIVE ObjObs(_)
ObjObs(ls) == IF ls = <<>> THEN <<>>
              ELSE (IF Head(ls).kind = "object" THEN Head(ls).objects
                    ELSE IF Head(ls).kind = "group" THEN ObjObs(Head(ls).children) ELSE <<>>)
                   \o ObjObs(Tail(ls))
TplGidDiffs(s, m) ==
  LET os == ObjDocs(s.map.layers)
      gs == ObjObs(m.layers)
  IN IF Len(os) # Len(gs) THEN {}      \* reported as tree or objcount
     ELSE UNION {IF GidFromTemplate(s, os[i]) THEN TplGidDiff(s, m.tilesets, os[i], gs[i], "object" \o S(i)) ELSE {}
                 : i \in DOMAIN os}

------------------------------------------------------------------------------
EntryFile(s) == "p:$ROOT/" \o JoinP(NormalIn(s, s.mapdir \o <<s.file>>))
MapDiffs(s, m) ==
  FieldDiffs("header", "map", MapAttrs(s), m.attrs)
  \cup (IF m.file # EntryFile(s) THEN {D("file", "map_file", "map", EntryFile(s), m.file)} ELSE {})
  \cup PropDiffs("mapprops", "map", Props(s.map.props), m.props, ClassNames(s.map.props))
  \cup ForestDiffs(s, "", "map", s.map.layers, m.layers)
  \cup TableDiffs(s, m.tilesets)
  \cup TplGidDiffs(s, m)

Diffs(s, obs) ==
  LET why == Reasons(s) IN
  IF obs.out = "odd" THEN {D("outcome", "unreadable", "load", "a result", obs.err)}
  ELSE IF obs.out = "raise"
  THEN IF why = {} /\ Doubtful(s) THEN {}
       ELSE IF why = {} THEN {D("outcome", "rejected", "load", "loads", obs.err)}
       ELSE IF obs.err \in why \/ "any" \in why THEN {}
       ELSE {D("outcome", "error", "load", ToString(why), obs.err)}
  ELSE IF why # {} THEN {D("outcome", "accepted", "load", ToString(why), "loaded")}
  ELSE IF s.call = "tileset" THEN TilesetDiffs(s, "tileset", s.tilesets[s.entry], 1, <<>>, obs.tileset)
  ELSE MapDiffs(s, obs.map)
=============================================================================
