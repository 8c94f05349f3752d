------------------------------- MODULE Tiled -------------------------------
(***************************************************************************)
(* Denotation of Tiled documents.                                          *)
(*                                                                         *)
(* A "scenario" s is an abstract document set (a map with its tilesets and *)
(* templates), together with the format it is saved in (s.fmt) and the     *)
(* directories its files are in.  The operators here say what loading it   *)
(* must report.  Scenarios come either from the bounded models (MC_*.tla)  *)
(* or from the seeded generator of the harness; the writer of the harness  *)
(* turns them into real TMX/JSON files.                                    *)
(*                                                                         *)
(* Scalars are tokens, i.e. strings tagged with their type:                *)
(*   "n:12.5" number   "b:true" flag   "s:..." text   "p:..." path         *)
(*   "c:r,g,b,a" color   "none"                                            *)
(* A global tile id is <<flags, id>>: the top 4 bits and the lower 28.     *)
(* An optional part is <<>> (not written) or <<part>>.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == "none"
Opt(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d
Num(i) == "n:" \o ToString(i)
Max2(a, b) == IF a > b THEN a ELSE b

Range(f) == {f[x] : x \in DOMAIN f}

(* Concatenation of a sequence of sequences. *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

------------------------------------------------------------------------------
(* Colors.  A written color is [hex |-> <<digits>>, ...]: 6 digits RRGGBB    *)
(* or 8 digits AARRGGBB.                                                     *)

HexByte(h, i) == 16 * h[i] + h[i + 1]
ColorQuad(h) ==
  IF Len(h) = 6 THEN <<HexByte(h, 1), HexByte(h, 3), HexByte(h, 5), 255>>
                ELSE <<HexByte(h, 3), HexByte(h, 5), HexByte(h, 7), HexByte(h, 1)>>
QuadTok(q) == "c:" \o ToString(q[1]) \o "," \o ToString(q[2]) \o ","
                   \o ToString(q[3]) \o "," \o ToString(q[4])
ColorTok(c) == QuadTok(ColorQuad(c.hex))
OptColor(a, k) == IF k \in DOMAIN a THEN ColorTok(a[k]) ELSE None

------------------------------------------------------------------------------
(* Paths are sequences of segments.  $ROOT stands for the scratch directory. *)
(* A document may stand among links: entries [at, to] of directories, where  *)
(* a walk that arrives at AT goes on from TO.                                *)

Links(s) == IF "links" \in DOMAIN s THEN s.links ELSE <<>>
Land(L, d) == LET k == SelectSeq(L, LAMBDA l : l.at = d) IN IF k = <<>> THEN d ELSE k[1].to
StepIn(L, d, x) == IF x = "." THEN d
                   ELSE IF x = "//" THEN <<>>              \* begins an absolute path
                   ELSE IF x = ".." THEN IF d = <<>> THEN <<>> ELSE SubSeq(d, 1, Len(d) - 1)
                   ELSE Land(L, Append(d, x))
RECURSIVE Norm(_, _, _)
Norm(L, d, segs) == IF segs = <<>> THEN d ELSE Norm(L, StepIn(L, d, Head(segs)), Tail(segs))
NormalIn(s, segs) == Norm(Links(s), <<>>, segs)
Normal(segs) == Norm(<<>>, <<>>, segs)

RECURSIVE JoinP(_)
JoinP(segs) == IF segs = <<>> THEN "" ELSE IF Len(segs) = 1 THEN segs[1]
               ELSE segs[1] \o "/" \o JoinP(Tail(segs))

NotDot(x) == x # "."
RootPath(n) == IF n = <<>> THEN "p:$ROOT" ELSE "p:$ROOT/" \o JoinP(n)
AbsPath(segs) == RootPath(Normal(segs))
RelPath(segs) == LET n == SelectSeq(segs, NotDot) IN IF n = <<>> THEN "p:."
                     ELSE IF Head(n) = "//" THEN RootPath(Tail(n)) ELSE "p:" \o JoinP(n)
DirIn(s, segs) == LET n == NormalIn(s, segs) IN SubSeq(n, 1, Len(n) - 1)

(* How an image path is reported: ext = <<>> embedded / stand-alone, else    *)
(* <<dir, links>> with dir the directory of the external tileset file.       *)
ImagePath(segs, ext) == IF ext = <<>> THEN RelPath(segs) ELSE RootPath(Norm(ext[2], ext[1], segs))

------------------------------------------------------------------------------
(* Custom properties.  A written list denotes a map from names to values.    *)
(* A later entry of the same name wins.  Properties of type class are not    *)
(* supported: they denote nothing (see Props and ObsProps).                  *)

(* a color property without a value: Tiled writes an empty one               *)
Unset(p) == p.type = "color" /\ p.hex = <<>> /\ ~Opt(p, "hash", TRUE)
PropVal(p) == IF Unset(p) THEN None ELSE IF p.type = "color" THEN QuadTok(ColorQuad(p.hex)) ELSE p.val
Supported(p) == p.type # "class"
PropMap(ps) ==
  LET q == SelectSeq(ps, Supported)
      names == {q[i].name : i \in DOMAIN q}
      Last(n) == LET is == {i \in DOMAIN q : q[i].name = n} IN CHOOSE i \in is : \A j \in is : j <= i
  IN [n \in names |-> PropVal(q[Last(n)])]
(* carriers other than objects: none when no list is written *)
Props(o) == IF o = <<>> THEN <<>> ELSE <<PropMap(o[1])>>
(* objects: an empty map when no list is written *)
PropsObj(o) == IF o = <<>> THEN << << >> >> ELSE <<PropMap(o[1])>>
ClassNames(o) == IF o = <<>> THEN {} ELSE {p.name : p \in {x \in Range(o[1]) : ~Supported(x)}}

------------------------------------------------------------------------------
(* Objects *)

TextAttrs(t) ==
  LET a == t.attrs IN
  [ text |-> t.text,
    color |-> IF "color" \in DOMAIN a THEN ColorTok(a.color) ELSE "c:255,255,255,255",
    font_family |-> Opt(a, "fontfamily", "s:sans-serif"),
    font_size |-> Opt(a, "pixelsize", "n:16"),
    bold |-> Opt(a, "bold", "b:false"),
    italic |-> Opt(a, "italic", "b:false"),
    kerning |-> Opt(a, "kerning", "b:true"),
    strike_out |-> Opt(a, "strikeout", "b:false"),
    underline |-> Opt(a, "underline", "b:false"),
    horizontal_align |-> Opt(a, "halign", "s:left"),
    vertical_align |-> Opt(a, "valign", "s:top"),
    wrap |-> Opt(a, "wrap", "b:false") ]

ObjAttrs(o) ==
  LET a == o.attrs IN
  [ id |-> a.id, x |-> a.x, y |-> a.y,
    width |-> Opt(a, "width", "n:0"),
    height |-> Opt(a, "height", "n:0"),
    rotation |-> Opt(a, "rotation", "n:0"),
    visible |-> Opt(a, "visible", "b:true"),
    name |-> Opt(a, "name", "s:"),
    class |-> Opt(a, "class", "s:") ]

KindOf(o) == IF o.gid # <<>> THEN "tile" ELSE o.kind

(* What an instance i of a template object t denotes: an object document.   *)
MergeProps(t, i) ==
  IF t = <<>> THEN i ELSE IF i = <<>> THEN t ELSE <<t[1] \o i[1]>>   \* later wins
Merge(t, i) ==
  [ attrs |-> i.attrs @@ t.attrs,
    kind |-> IF i.kind = "inherit" THEN t.kind ELSE i.kind,
    points |-> IF i.kind = "inherit" THEN t.points ELSE i.points,
    text |-> IF i.text # <<>> THEN i.text ELSE t.text,
    gid |-> IF i.gid # <<>> THEN i.gid ELSE t.gid,
    props |-> MergeProps(t.props, i.props),
    template |-> <<>> ]
Resolve(s, o) == IF o.template = <<>> THEN o
                 ELSE Merge(s.templates[o.template[1].tpl].object, o)
(* does the object's tile id come from its template? *)
GidFromTemplate(s, o) == /\ o.template # <<>> /\ o.gid = <<>>
                         /\ s.templates[o.template[1].tpl].object.gid # <<>>
                         /\ s.templates[o.template[1].tpl].tileset # <<>>

ObjRes(s, o) ==
  LET r == Resolve(s, o) IN
  [ kind |-> KindOf(r),
    attrs |-> ObjAttrs(r),
    points |-> IF KindOf(r) \in {"polygon", "polyline"} THEN r.points ELSE <<>>,
    text |-> IF KindOf(r) = "text" THEN <<TextAttrs(r.text[1])>> ELSE <<>>,
    props |-> PropsObj(r.props),
    gid |-> r.gid ]

------------------------------------------------------------------------------
(* Tile data: a row-major sequence of cells, cut into rows of w cells.       *)

Rows(cells, w, h) == [r \in 1..h |-> [c \in 1..w |-> cells[(r - 1) * w + c]]]

(* 32-bit little-endian words of a byte string *)
Cell(b, k) == LET o == 4 * (k - 1) IN
  << b[o + 4] \div 16,
     b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3] + 16777216 * (b[o + 4] % 16) >>
Words(b) == [k \in 1..(Len(b) \div 4) |-> Cell(b, k)]

Cells(c) == IF Opt(c, "bytes", <<>>) # <<>> THEN Words(c.bytes) ELSE c.cells
ChunkRes(c) == [x |-> c.x, y |-> c.y, w |-> c.w, h |-> c.h, data |-> Rows(Cells(c), c.w, c.h)]

------------------------------------------------------------------------------
(* Layers *)

LayerAttrs(fmt, l) ==
  LET a == l.attrs IN
  [ name |-> Opt(a, "name", "s:"),
    opacity |-> Opt(a, "opacity", "n:1"),
    visible |-> Opt(a, "visible", "b:true"),
    repeat_x |-> Opt(a, "repeatx", "b:false"),
    repeat_y |-> Opt(a, "repeaty", "b:false"),
    coord_x |-> IF fmt = "json" THEN Opt(a, "startx", "n:0") ELSE "n:0",
    coord_y |-> IF fmt = "json" THEN Opt(a, "starty", "n:0") ELSE "n:0",
    par_x |-> Opt(a, "parallaxx", "n:1"),
    par_y |-> Opt(a, "parallaxy", "n:1"),
    off_x |-> Opt(a, "offsetx", "n:0"),
    off_y |-> Opt(a, "offsety", "n:0"),
    id |-> Opt(a, "id", None),
    class |-> Opt(a, "class", None),
    size_w |-> IF l.kind = "tile" THEN Num(l.w) ELSE None,
    size_h |-> IF l.kind = "tile" THEN Num(l.h) ELSE None,
    tint |-> OptColor(a, "tintcolor") ]

RECURSIVE LayerRes(_, _)
LayerRes(s, l) ==
  [ kind |-> l.kind,
    attrs |-> LayerAttrs(s.fmt, l),
    props |-> Props(l.props),
    draworder |-> IF l.kind = "object" THEN Opt(l.attrs, "draworder", "s:topdown") ELSE None,
    image |-> IF l.kind = "image" THEN RelPath(l.image) ELSE None,
    trans |-> IF l.kind = "image" THEN OptColor(l.attrs, "transparentcolor") ELSE None,
    data |-> IF l.kind = "tile" /\ l.chunks = <<>> THEN <<Rows(Cells(l), l.w, l.h)>> ELSE <<>>,
    chunks |-> IF l.kind = "tile" /\ l.chunks # <<>>
               THEN <<[i \in DOMAIN l.chunks[1] |-> ChunkRes(l.chunks[1][i])]>> ELSE <<>>,
    objects |-> IF l.kind = "object" THEN [i \in DOMAIN l.objects |-> ObjRes(s, l.objects[i])] ELSE <<>>,
    children |-> IF l.kind = "group" THEN [i \in DOMAIN l.children |-> LayerRes(s, l.children[i])] ELSE <<>> ]

------------------------------------------------------------------------------
(* Tilesets *)

TileRes(s, t, ext) ==
  LET a == t.attrs
      img == t.image # <<>>
  IN
  [ id |-> t.id,
    attrs |->
      [ class |-> Opt(a, "class", None),
        x |-> Opt(a, "x", "n:0"), y |-> Opt(a, "y", "n:0"),
        width |-> Opt(a, "width", IF img THEN t.image[1].w ELSE "n:0"),
        height |-> Opt(a, "height", IF img THEN t.image[1].h ELSE "n:0"),
        image_width |-> IF img THEN t.image[1].w ELSE None,
        image_height |-> IF img THEN t.image[1].h ELSE None,
        (* no document says these of a tile *)
        opacity |-> "n:1", hflip |-> "b:false", vflip |-> "b:false", dflip |-> "b:false" ],
    image |-> IF img THEN ImagePath(t.image[1].segs, ext) ELSE None,
    animation |-> t.animation,
    objects |-> IF t.objects = <<>> THEN <<>> ELSE <<LayerRes(s, t.objects[1])>>,
    props |-> Props(t.props) ]

WangColorRes(c) ==
  [ attrs |-> [ name |-> c.name, class |-> Opt(c.attrs, "class", None),
                color |-> ColorTok(c.color), probability |-> c.probability, tile |-> c.tile ],
    props |-> Props(c.props) ]
(* a wang tile entry repeated for one tile id: the later one counts *)
WangTileMap(ws) ==
  LET ids == {ws[i].tileid : i \in DOMAIN ws}
      Last(n) == LET is == {i \in DOMAIN ws : ws[i].tileid = n} IN CHOOSE i \in is : \A j \in is : j <= i
  IN {[key |-> n, tile_id |-> n, wang_id |-> ws[Last(n)].wangid] : n \in ids}
WangSetRes(w) ==
  [ attrs |-> [ name |-> w.name, class |-> Opt(w.attrs, "class", None), tile |-> w.tile, type |-> w.type ],
    props |-> Props(w.props),
    colors |-> [i \in DOMAIN w.colors |-> WangColorRes(w.colors[i])],
    tiles |-> WangTileMap(w.tiles) ]

TsAttrs(t) ==
  LET a == t.attrs
      img == t.image # <<>>
  IN
  [ name |-> a.name,
    tile_width |-> a.tilewidth, tile_height |-> a.tileheight,
    columns |-> Opt(a, "columns", "n:1"),
    spacing |-> Opt(a, "spacing", "n:0"), margin |-> Opt(a, "margin", "n:0"),
    type |-> "s:tileset",
    tile_render_size |-> Opt(a, "tilerendersize", "s:tile"),
    fill_mode |-> Opt(a, "fillmode", "s:stretch"),
    tiled_version |-> Opt(a, "tiledversion", None),
    version |-> Opt(a, "version", None),
    class |-> Opt(a, "class", None),
    alignment |-> Opt(a, "objectalignment", None),
    background |-> OptColor(a, "backgroundcolor"),
    transparent |-> OptColor(a, "transparentcolor"),
    image_width |-> IF img THEN t.image[1].w ELSE None,
    image_height |-> IF img THEN t.image[1].h ELSE None,
    offset_x |-> IF t.tileoffset = <<>> THEN None ELSE t.tileoffset[1].x,
    offset_y |-> IF t.tileoffset = <<>> THEN None ELSE t.tileoffset[1].y,
    grid_orientation |-> IF t.grid = <<>> THEN None ELSE t.grid[1].orientation,
    grid_width |-> IF t.grid = <<>> THEN None ELSE t.grid[1].width,
    grid_height |-> IF t.grid = <<>> THEN None ELSE t.grid[1].height,
    hflip |-> IF t.transformations = <<>> THEN None ELSE t.transformations[1].hflip,
    vflip |-> IF t.transformations = <<>> THEN None ELSE t.transformations[1].vflip,
    rotate |-> IF t.transformations = <<>> THEN None ELSE t.transformations[1].rotate,
    prefer |-> IF t.transformations = <<>> THEN None ELSE t.transformations[1].preferuntransformed ]

TilesetRes(s, t, first, ext) ==
  [ firstgid |-> first,
    tilecount |-> t.tilecount,
    attrs |-> TsAttrs(t),
    image |-> IF t.image = <<>> THEN None ELSE ImagePath(t.image[1].segs, ext),
    props |-> Props(t.props),
    tiles |-> IF t.tiles = <<>> THEN <<>>
              ELSE <<{[key |-> t.tiles[i].id, tile |-> TileRes(s, t.tiles[i], ext)] : i \in DOMAIN t.tiles}>>,
    wangsets |-> IF t.wangsets = <<>> THEN <<>>
                 ELSE <<[i \in DOMAIN t.wangsets[1] |-> WangSetRes(t.wangsets[1][i])]>> ]

(* ids a tileset occupies beyond its first: its tile count, or more when an  *)
(* image collection has gaps                                                 *)
RECURSIVE MaxId(_, _)
MaxId(tiles, i) == IF i > Len(tiles) THEN -1 ELSE Max2(tiles[i].id, MaxId(tiles, i + 1))
Extent(t) == Max2(t.tilecount, MaxId(t.tiles, 1) + 1)

RefExt(s, r) == IF r.how = "embedded" THEN <<>> ELSE <<DirIn(s, s.mapdir \o r.src), Links(s)>>
RefRes(s, r) == [key |-> r.first, ts |-> TilesetRes(s, s.tilesets[r.ts], r.first, RefExt(s, r))]

(* the directory of the tileset file a template names *)
TplTsExt(s, o) ==
  LET tr == o.template[1]
      tp == s.templates[tr.tpl]
  IN <<DirIn(s, DirIn(s, s.mapdir \o tr.src) \o tp.tileset[1].src), Links(s)>>

------------------------------------------------------------------------------
(* Map header *)

MapAttrs(s) ==
  LET a == s.map.attrs IN
  [ infinite |-> Opt(a, "infinite", "b:false"),
    width |-> a.width, height |-> a.height,
    tile_width |-> a.tilewidth, tile_height |-> a.tileheight,
    next_layer_id |-> Opt(a, "nextlayerid", None),
    next_object_id |-> a.nextobjectid,
    orientation |-> a.orientation,
    render_order |-> a.renderorder,
    tiled_version |-> Opt(a, "tiledversion", "s:"),
    version |-> a.version,
    background |-> OptColor(a, "backgroundcolor"),
    hex_side_length |-> Opt(a, "hexsidelength", None),
    stagger_axis |-> Opt(a, "staggeraxis", None),
    stagger_index |-> Opt(a, "staggerindex", None),
    class |-> Opt(a, "class", None),
    origin_x |-> Opt(a, "parallaxoriginx", "n:0"),
    origin_y |-> Opt(a, "parallaxoriginy", "n:0") ]

Layers(s) == [i \in DOMAIN s.map.layers |-> LayerRes(s, s.map.layers[i])]
Table(s) == {RefRes(s, s.map.tsrefs[i]) : i \in DOMAIN s.map.tsrefs}

(* every object document of the map's layer tree, in draw order *)
RECURSIVE ObjDocs(_)
ObjDocs(ls) ==
  IF ls = <<>> THEN <<>>
  ELSE (IF Head(ls).kind = "object" THEN Head(ls).objects
        ELSE IF Head(ls).kind = "group" THEN ObjDocs(Head(ls).children) ELSE <<>>)
       \o ObjDocs(Tail(ls))

(* a layer forest in preorder, each layer with its depth *)
RECURSIVE Preorder(_, _)
Preorder(ls, d) == IF ls = <<>> THEN <<>>
                   ELSE <<[depth |-> d, layer |-> Head(ls)]>>
                        \o (IF Head(ls).kind = "group" THEN Preorder(Head(ls).children, d + 1) ELSE <<>>)
                        \o Preorder(Tail(ls), d)

------------------------------------------------------------------------------
(* Which loads are rejected.  Reasons(s) is the set of errors a load may end *)
(* with; a document with no reason to be rejected must load.  "any" stands   *)
(* for any error.                                                            *)

LayerKinds == {"tile", "object", "image", "group"}
Installed(s) == IF "has" \in DOMAIN s THEN Range(s.has) ELSE {}   \* optional modules
Compressions(s) == {"", "zlib", "gzip"} \cup (IF "zstd" \in Installed(s) THEN {"zstd"} ELSE {})
AllLayers(s) == LET p == Preorder(s.map.layers, 0) IN {p[i].layer : i \in DOMAIN p}
IsColor(v) == "hex" \in DOMAIN v
BadColor(c) == Len(c.hex) \notin {6, 8}
AttrColors == {"backgroundcolor", "transparentcolor", "tintcolor", "color"}
ColorsOf(a) == {a[k] : k \in DOMAIN a \cap AttrColors}
PropColors(o) == IF o = <<>> THEN {}
                 ELSE {o[1][i] : i \in {j \in DOMAIN o[1] : /\ o[1][j].type = "color" /\ ~Unset(o[1][j])
                                                           /\ \A k \in j + 1..Len(o[1]) : o[1][k].name # o[1][j].name}}
TextColors(o) == IF o.text = <<>> THEN {} ELSE ColorsOf(o.text[1].attrs)
LayerColors(l) == ColorsOf(l.attrs) \cup PropColors(l.props)
                  \cup UNION {PropColors(o.props) \cup TextColors(o) : o \in Range(l.objects)}
WangColors(t) == IF t.wangsets = <<>> THEN {}
                 ELSE UNION {{w.colors[i].color : i \in DOMAIN w.colors}
                             \cup PropColors(w.props)
                             \cup UNION {PropColors(c.props) : c \in Range(w.colors)} : w \in Range(t.wangsets[1])}
TilesetColors(t) == ColorsOf(t.attrs) \cup PropColors(t.props) \cup WangColors(t)
                    \cup UNION {PropColors(x.props) \cup (IF x.objects = <<>> THEN {} ELSE LayerColors(x.objects[1]))
                                : x \in Range(t.tiles)}

ReasonsTileset(t) == IF \E c \in TilesetColors(t) : BadColor(c) THEN {"any"} ELSE {}
ReasonsLayer(s, l) ==
  (IF l.kind \notin LayerKinds THEN {"RuntimeError"} ELSE {})
  \cup (IF l.kind = "tile" /\ l.enc = "base64" /\ (l.comp \notin Compressions(s) \/ "cut" \in DOMAIN l)
        THEN {"any"} ELSE {})
  \cup (IF \E c \in LayerColors(l) : BadColor(c) THEN {"any"} ELSE {})
  \cup UNION {IF l.objects[i].template # <<>> /\ s.templates[l.objects[i].template[1].tpl].fmt # s.fmt
              THEN {"NotImplementedError"} ELSE {} : i \in DOMAIN l.objects}
UsedTemplates(s) == {s.templates[o.template[1].tpl] : o \in {x \in Range(ObjDocs(s.map.layers)) : x.template # <<>>}}
ObjColors(o) == PropColors(o.props) \cup TextColors(o)
(* a malformed color of a template that its instances replace may or may not be noticed *)
Doubtful(s) == s.call = "map" /\ \E t \in UsedTemplates(s) : \E c \in ObjColors(t.object) : BadColor(c)
Reasons(s) ==
  IF s.call = "tileset" THEN ReasonsTileset(s.tilesets[s.entry])
  ELSE (IF \E c \in ColorsOf(s.map.attrs) \cup PropColors(s.map.props) : BadColor(c) THEN {"any"} ELSE {})
       \cup UNION {ReasonsTileset(s.tilesets[r.ts]) : r \in Range(s.map.tsrefs)}
       \cup UNION {ReasonsLayer(s, l) : l \in AllLayers(s)}
       \cup UNION {IF t.tileset = <<>> THEN {} ELSE ReasonsTileset(s.tilesets[t.tileset[1].ts]) : t \in UsedTemplates(s)}
       \cup (IF \E o \in Range(ObjDocs(s.map.layers)) : \E c \in ObjColors(Resolve(s, o)) : BadColor(c) THEN {"any"} ELSE {})
=============================================================================
