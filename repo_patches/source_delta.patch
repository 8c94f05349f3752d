From ea7e35a6a0e4f6682ea74fe23992665fea04d28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 01/30] fix: only direct children of a TMX map are its layers

The map was searched recursively, so layers nested in a group, and the
collision object groups of tiles of an embedded tileset, were reported again
as layers of the map itself.
---
 pytiled_parser/parsers/tmx/tiled_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 988e5cf..8bcaa5e 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -60,7 +60,7 @@ def parse(file: Path) -> TiledMap:
             )
 
     layers = []
-    for element in raw_map.iter():
+    for element in raw_map:
         if element.tag in ["layer", "objectgroup", "imagelayer", "group"]:
             layers.append(parse_layer(element, parent_dir))
 
-- 
2.43.0


From bb9fb2d144dc04e26fa12569d230878242f8c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 02/30] fix: keep the document order of layers in a TMX group

The children of a group were collected by type, so a group mixing layer types
lost its draw order.
---
 pytiled_parser/parsers/tmx/layer.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index df219bb..03b51f7 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -325,24 +325,11 @@ def _parse_group_layer(
     Returns:
         LayerGroup: The LayerGroup created from raw_layer
     """
-    layers: List[Layer] = []
-    for layer in raw_layer.findall("./layer"):
-        layers.append(_parse_tile_layer(layer))
-
-    for layer in raw_layer.findall("./objectgroup"):
-        layers.append(_parse_object_layer(layer, parent_dir))
-
-    for layer in raw_layer.findall("./imagelayer"):
-        layers.append(_parse_image_layer(layer))
-
-    for layer in raw_layer.findall("./group"):
-        layers.append(_parse_group_layer(layer, parent_dir))
-    # layers = []
-    # layers = [
-    #    parse(child_layer, parent_dir=parent_dir)
-    #    for child_layer in raw_layer.iter()
-    #    if child_layer.tag in ["layer", "objectgroup", "imagelayer", "group"]
-    # ]
+    layers: List[Layer] = [
+        parse(child_layer, parent_dir)
+        for child_layer in raw_layer
+        if child_layer.tag in ["layer", "objectgroup", "imagelayer", "group"]
+    ]
 
     return LayerGroup(layers=layers, **_parse_common(raw_layer).__dict__)
 
-- 
2.43.0


From f3d5e664fdfe64db32da545fc24684a6411d4c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 03/30] fix: the two offsets of a layer are independent

A layer with offsetx only could not be loaded (KeyError), and offsety alone was
ignored.
---
 pytiled_parser/parsers/json/layer.py | 5 +++--
 pytiled_parser/parsers/tmx/layer.py  | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 5f8208e..05db14c 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -228,8 +228,9 @@ def _parse_common(raw_layer: RawLayer) -> Layer:
     if raw_layer.get("width") is not None:
         common.size = Size(raw_layer["width"], raw_layer["height"])
 
-    if raw_layer.get("offsetx") is not None:
-        common.offset = OrderedPair(raw_layer["offsetx"], raw_layer["offsety"])
+    common.offset = OrderedPair(
+        raw_layer.get("offsetx", 0), raw_layer.get("offsety", 0)
+    )
 
     if raw_layer.get("properties") is not None:
         common.properties = parse_properties(raw_layer["properties"])
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 03b51f7..27f0418 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -170,10 +170,10 @@ def _parse_common(raw_layer: etree.Element) -> Layer:
     if raw_layer.attrib.get("id") is not None:
         common.id = int(raw_layer.attrib["id"])
 
-    if raw_layer.attrib.get("offsetx") is not None:
-        common.offset = OrderedPair(
-            float(raw_layer.attrib["offsetx"]), float(raw_layer.attrib["offsety"])
-        )
+    common.offset = OrderedPair(
+        float(raw_layer.attrib.get("offsetx", 0)),
+        float(raw_layer.attrib.get("offsety", 0)),
+    )
 
     properties_element = raw_layer.find("./properties")
     if properties_element is not None:
-- 
2.43.0


From ed8c2430ac8058b8dcf7afba7585339d9518d470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 04/30] fix: width and height of a TMX object are independent

Tiled writes only the one that is not zero. An object with a width alone could
not be loaded (KeyError), and a height alone was ignored.
---
 pytiled_parser/parsers/tmx/tiled_object.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 711664e..0d4da2d 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -34,10 +34,10 @@ def _parse_common(raw_object: etree.Element) -> TiledObject:
         ),
     )
 
-    if raw_object.attrib.get("width") is not None:
-        common.size = Size(
-            float(raw_object.attrib["width"]), float(raw_object.attrib["height"])
-        )
+    common.size = Size(
+        float(raw_object.attrib.get("width", 0)),
+        float(raw_object.attrib.get("height", 0)),
+    )
 
     if raw_object.attrib.get("visible") is not None:
         common.visible = bool(int(raw_object.attrib["visible"]))
-- 
2.43.0


From b08fa98c12aeece7fd7e697fc657ee99e38cac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 05/30] fix: loading a TMX map prints nothing

---
 pytiled_parser/parsers/tmx/tiled_map.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 8bcaa5e..aa246f5 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -107,7 +107,6 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        print("here")
                         highest_firstgid = max(map_.tilesets.keys())
                         last_tileset_count = map_.tilesets[highest_firstgid].tile_count
                         new_firstgid = highest_firstgid + last_tileset_count
-- 
2.43.0


From 27c13c5a8fbe6001e41340f4a21011b0ed63f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 06/30] fix: load multi-line string properties of TMX files

Tiled stores a string property that contains line breaks as the text of its
element. Such properties were dropped.
---
 pytiled_parser/parsers/tmx/properties.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index 1b20e3d..bbc5307 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -12,10 +12,13 @@ def parse(raw_properties: etree.Element) -> Properties:
     for raw_property in raw_properties.findall("property"):
         type_ = raw_property.attrib.get("type")
 
-        if "value" not in raw_property.attrib:
-            continue
+        value_ = raw_property.attrib.get("value")
 
-        value_ = raw_property.attrib["value"]
+        if value_ is None:
+            # A string that spans several lines is stored as the element's text
+            if type_ not in (None, "string") or not raw_property.text:
+                continue
+            value_ = raw_property.text
 
         if type_ == "file":
             value = Path(value_)
-- 
2.43.0


From a00bbc14dc672f106ce533dcd6820fb76a9c7a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 07/30] fix: an object property of a TMX file is a number

The id an object property refers to was reported as a string, unlike in JSON.
---
 pytiled_parser/parsers/tmx/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index bbc5307..2c12288 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -24,7 +24,7 @@ def parse(raw_properties: etree.Element) -> Properties:
             value = Path(value_)
         elif type_ == "color":
             value = parse_color(value_)
-        elif type_ == "int" or type_ == "float":
+        elif type_ in ("int", "float", "object"):
             value = float(value_)
         elif type_ == "bool":
             if value_ == "true":
-- 
2.43.0


From 717e47f1048faaec1fa31f3affd17030ac874ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 08/30] fix: load the class of wang sets and wang colors from
 JSON

---
 pytiled_parser/parsers/json/wang_set.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytiled_parser/parsers/json/wang_set.py b/pytiled_parser/parsers/json/wang_set.py
index f44c4b2..4cb5cd8 100644
--- a/pytiled_parser/parsers/json/wang_set.py
+++ b/pytiled_parser/parsers/json/wang_set.py
@@ -82,6 +82,9 @@ def _parse_wang_color(raw_wang_color: RawWangColor) -> WangColor:
         probability=raw_wang_color["probability"],
     )
 
+    if raw_wang_color.get("class") is not None:
+        wang_color.class_ = raw_wang_color["class"]
+
     if raw_wang_color.get("properties") is not None:
         wang_color.properties = parse_properties(raw_wang_color["properties"])
 
@@ -114,6 +117,9 @@ def parse(raw_wangset: RawWangSet) -> WangSet:
         wang_tiles=tiles,
     )
 
+    if raw_wangset.get("class") is not None:
+        wangset.class_ = raw_wangset["class"]
+
     if raw_wangset.get("properties") is not None:
         wangset.properties = parse_properties(raw_wangset["properties"])
 
-- 
2.43.0


From 7cef335d0e554e0b9ecc7e6baf87d3c20058cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 09/30] fix: reject tile data with an unsupported compression

The docstring promises a ValueError, but data in an unknown compression was
decoded as if it were not compressed, giving a layer of arbitrary tiles.
---
 pytiled_parser/parsers/json/layer.py | 2 ++
 pytiled_parser/parsers/tmx/layer.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 05db14c..56c7bdb 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -144,6 +144,8 @@ def _decode_tile_layer_data(
     # See above note at top of module about zstd tests
     elif compression == "zstd":  # pragma: no cover
         unzipped_data = zstd.decompress(unencoded_data)
+    elif compression:
+        raise ValueError(f"Unsupported compression type: {compression}")
     else:
         unzipped_data = unencoded_data
 
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 27f0418..e1bd54c 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -89,6 +89,8 @@ def _decode_tile_layer_data(
     # See above note at top of module about zstd tests
     elif compression == "zstd":  # pragma: no cover
         unzipped_data = zstd.decompress(unencoded_data)
+    elif compression:
+        raise ValueError(f"Unsupported compression type: {compression}")
     else:
         unzipped_data = unencoded_data
 
-- 
2.43.0


From 08fa37b97945e9369c71b42a3496006e32daac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 10/30] fix: encoding and compression of JSON tile data have
 defaults

"csv" is the documented default of encoding and "" that of compression. A layer
that spelled out the former, or left out the latter, could not be loaded.
---
 pytiled_parser/parsers/json/layer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 56c7bdb..8e7150f 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -276,18 +276,19 @@ def _parse_tile_layer(raw_layer: RawLayer) -> TileLayer:
     if raw_layer.get("chunks") is not None:
         tile_layer.chunks = []
         for chunk in raw_layer["chunks"]:
-            if raw_layer.get("encoding") is not None:
-                tile_layer.chunks.append(
-                    _parse_chunk(chunk, raw_layer["encoding"], raw_layer["compression"])
+            tile_layer.chunks.append(
+                _parse_chunk(
+                    chunk,
+                    raw_layer.get("encoding"),
+                    raw_layer.get("compression", ""),
                 )
-            else:
-                tile_layer.chunks.append(_parse_chunk(chunk))
+            )
 
     if raw_layer.get("data") is not None:
-        if raw_layer.get("encoding") is not None:
+        if raw_layer.get("encoding") == "base64":
             tile_layer.data = _decode_tile_layer_data(
                 data=cast(str, raw_layer["data"]),
-                compression=raw_layer["compression"],
+                compression=raw_layer.get("compression", ""),
                 layer_width=raw_layer["width"],
             )
         else:
-- 
2.43.0


From 0e2794b10afbe49285b97d4320133eeac248d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 11/30] fix: load TMX tile layers without any tile data

An empty tile layer of an infinite map has no chunks, and could not be loaded.
It now loads like its JSON counterpart.
---
 pytiled_parser/parsers/tmx/layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index e1bd54c..0558994 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -233,7 +233,10 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
             compression = data_element.attrib["compression"]
 
         raw_chunks = data_element.findall("chunk")
-        if not raw_chunks:
+        if not raw_chunks and not (data_element.text or "").strip():
+            # A layer of an infinite map without any tile has no chunks
+            tile_layer.chunks = []
+        elif not raw_chunks:
             if encoding and encoding != "csv":
                 tile_layer.data = _decode_tile_layer_data(
                     data=data_element.text,  # type: ignore
-- 
2.43.0


From 82c3b19d2bd5d1d92271ebd25629c7445ea08fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 12/30] fix: default the optional attributes of TMX maps and
 tilesets

The infinite flag, the next layer id, the Tiled version and the column count
are missing from files of older Tiled versions. They have defaults in the JSON
parser, while the TMX parser failed with a KeyError.
---
 pytiled_parser/parsers/tmx/tiled_map.py | 10 +++++++---
 pytiled_parser/parsers/tmx/tileset.py   |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index aa246f5..53b35fb 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -64,16 +64,20 @@ def parse(file: Path) -> TiledMap:
         if element.tag in ["layer", "objectgroup", "imagelayer", "group"]:
             layers.append(parse_layer(element, parent_dir))
 
+    next_layer_id = None
+    if raw_map.attrib.get("nextlayerid") is not None:
+        next_layer_id = int(raw_map.attrib["nextlayerid"])
+
     map_ = TiledMap(
         map_file=file,
-        infinite=bool(int(raw_map.attrib["infinite"])),
+        infinite=bool(int(raw_map.attrib.get("infinite", 0))),
         layers=layers,
         map_size=Size(int(raw_map.attrib["width"]), int(raw_map.attrib["height"])),
-        next_layer_id=int(raw_map.attrib["nextlayerid"]),
+        next_layer_id=next_layer_id,
         next_object_id=int(raw_map.attrib["nextobjectid"]),
         orientation=raw_map.attrib["orientation"],
         render_order=raw_map.attrib["renderorder"],
-        tiled_version=raw_map.attrib["tiledversion"],
+        tiled_version=raw_map.attrib.get("tiledversion", ""),
         tile_size=Size(
             int(raw_map.attrib["tilewidth"]), int(raw_map.attrib["tileheight"])
         ),
diff --git a/pytiled_parser/parsers/tmx/tileset.py b/pytiled_parser/parsers/tmx/tileset.py
index 5d788af..a3bc0f3 100644
--- a/pytiled_parser/parsers/tmx/tileset.py
+++ b/pytiled_parser/parsers/tmx/tileset.py
@@ -136,7 +136,7 @@ def parse(
         tile_count=int(raw_tileset.attrib["tilecount"]),
         tile_width=int(raw_tileset.attrib["tilewidth"]),
         tile_height=int(raw_tileset.attrib["tileheight"]),
-        columns=int(raw_tileset.attrib["columns"]),
+        columns=int(raw_tileset.attrib.get("columns", 1)),
         firstgid=firstgid,
     )
 
-- 
2.43.0


From 88b695812c4914d12809caea95cfb3bf2f871d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 13/30] fix: report an integer JSON format version as text

Old Tiled versions wrote the format version as a number. 1.1 was converted to
text, but 1 was reported as an int.
---
 pytiled_parser/parsers/json/tiled_map.py | 2 +-
 pytiled_parser/parsers/json/tileset.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index a5113f5..fae5b95 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -104,7 +104,7 @@ def parse(file: Path) -> TiledMap:
                 raw_tileset, raw_tileset["firstgid"]
             )
 
-    if isinstance(raw_tiled_map["version"], float):  # pragma: no cover
+    if isinstance(raw_tiled_map["version"], (int, float)):  # pragma: no cover
         version = str(raw_tiled_map["version"])
     else:
         version = raw_tiled_map["version"]
diff --git a/pytiled_parser/parsers/json/tileset.py b/pytiled_parser/parsers/json/tileset.py
index cbbc51d..c15b39e 100644
--- a/pytiled_parser/parsers/json/tileset.py
+++ b/pytiled_parser/parsers/json/tileset.py
@@ -260,7 +260,7 @@ def parse(
         # to keep old versions in the test data and not update them with the
         # rest so I'm excluding this from coverage. In reality it's probably
         # not needed. Tiled hasn't been using floats for the version for a long time
-        if isinstance(raw_tileset["version"], float):  # pragma: no cover
+        if isinstance(raw_tileset["version"], (int, float)):  # pragma: no cover
             tileset.version = str(raw_tileset["version"])
         else:
             tileset.version = raw_tileset["version"]
-- 
2.43.0


From 21eb58283d288a5c817ac98120a0f1752e5d852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 14/30] fix: objects without properties do not share one
 dictionary

The default value was one mutable dictionary, so setting a property of one
object set it for every object of every map.
---
 pytiled_parser/tiled_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/tiled_object.py b/pytiled_parser/tiled_object.py
index edf7495..2be8c6e 100644
--- a/pytiled_parser/tiled_object.py
+++ b/pytiled_parser/tiled_object.py
@@ -39,7 +39,7 @@ class TiledObject:
     name: str = ""
     class_: str = ""
 
-    properties: properties_.Properties = {}
+    properties: properties_.Properties = attr.Factory(dict)
 
 
 @attr.s()
-- 
2.43.0


From eb0c252c4e7573317fb23ba3cfc997f6c6e29066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 15/30] fix: read files as UTF-8 whatever the locale

Tiled writes UTF-8, but files were decoded with the encoding of the process's
locale, so names and texts came out wrong or failed to load under another one.
---
 pytiled_parser/parser.py                 | 4 ++--
 pytiled_parser/parsers/json/tiled_map.py | 4 ++--
 pytiled_parser/parsers/tmx/tiled_map.py  | 4 ++--
 pytiled_parser/util.py                   | 8 ++++----
 pytiled_parser/world.py                  | 2 +-
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pytiled_parser/parser.py b/pytiled_parser/parser.py
index 22918ec..05ffb1d 100644
--- a/pytiled_parser/parser.py
+++ b/pytiled_parser/parser.py
@@ -50,12 +50,12 @@ def parse_tileset(file: Path) -> Tileset:
     parser = check_format(file)
 
     if parser == "tmx":
-        with open(file) as map_file:
+        with open(file, encoding="utf-8") as map_file:
             raw_tileset = etree.parse(map_file).getroot()
         return tmx_tileset_parse(raw_tileset, 1)
     else:
         try:
-            with open(file) as my_file:
+            with open(file, encoding="utf-8") as my_file:
                 raw_tileset = json.load(my_file)
             return json_tileset_parse(raw_tileset, 1)
         except ValueError:
diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index fae5b95..8dbd261 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -64,7 +64,7 @@ def parse(file: Path) -> TiledMap:
     Returns:
         TiledMap: A parsed TiledMap.
     """
-    with open(file) as map_file:
+    with open(file, encoding="utf-8") as map_file:
         raw_tiled_map = json.load(map_file)
 
     parent_dir = file.parent
@@ -77,7 +77,7 @@ def parse(file: Path) -> TiledMap:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset["source"])
             parser = check_format(tileset_path)
-            with open(tileset_path) as raw_tileset_file:
+            with open(tileset_path, encoding="utf-8") as raw_tileset_file:
                 if parser == "tmx":
                     raw_tileset_external = etree.parse(raw_tileset_file).getroot()
                     tilesets[raw_tileset["firstgid"]] = parse_tmx_tileset(
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 53b35fb..69eff9a 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -21,7 +21,7 @@ def parse(file: Path) -> TiledMap:
     Returns:
         TiledMap: A parsed TiledMap.
     """
-    with open(file) as map_file:
+    with open(file, encoding="utf-8") as map_file:
         raw_map = etree.parse(map_file).getroot()
 
     parent_dir = file.parent
@@ -34,7 +34,7 @@ def parse(file: Path) -> TiledMap:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
             parser = check_format(tileset_path)
-            with open(tileset_path) as tileset_file:
+            with open(tileset_path, encoding="utf-8") as tileset_file:
                 if parser == "tmx":
                     raw_tileset_external = etree.parse(tileset_file).getroot()
                     tilesets[int(raw_tileset.attrib["firstgid"])] = parse_tmx_tileset(
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 45de44e..55851ed 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -37,7 +37,7 @@ def parse_color(color: str) -> Color:
 
 
 def check_format(file_path: Path) -> str:
-    with open(file_path) as file:
+    with open(file_path, encoding="utf-8") as file:
         line = file.readline().rstrip().strip()
         if line[0] == "<":
             return "tmx"
@@ -52,7 +52,7 @@ def load_object_template(file_path: Path) -> Any:
     new_tileset_path = None
 
     if template_format == "tmx":
-        with open(file_path) as template_file:
+        with open(file_path, encoding="utf-8") as template_file:
             template = etree.parse(template_file).getroot()
 
             tileset_element = template.find("./tileset")
@@ -61,7 +61,7 @@ def load_object_template(file_path: Path) -> Any:
                 new_tileset = load_object_tileset(tileset_path)
                 new_tileset_path = tileset_path.parent
     else:
-        with open(file_path) as template_file:
+        with open(file_path, encoding="utf-8") as template_file:
             template = json.load(template_file)
             if "tileset" in template:
                 tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
@@ -76,7 +76,7 @@ def load_object_tileset(file_path: Path) -> Any:
 
     new_tileset = None
 
-    with open(file_path) as tileset_file:
+    with open(file_path, encoding="utf-8") as tileset_file:
         if tileset_format == "tmx":
             new_tileset = etree.parse(tileset_file).getroot()
         else:
diff --git a/pytiled_parser/world.py b/pytiled_parser/world.py
index 67214a6..a6ef88d 100644
--- a/pytiled_parser/world.py
+++ b/pytiled_parser/world.py
@@ -110,7 +110,7 @@ def parse_world(file: Path) -> World:
         World: A properly parsed [World][pytiled_parser.world.World]
     """
 
-    with open(file) as world_file:
+    with open(file, encoding="utf-8") as world_file:
         raw_world = json.load(world_file)
 
     parent_dir = file.parent
-- 
2.43.0


From f531bc7acde6fc9961b59d6948310d93960c07a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 16/30] fix: detect the format of a file that is empty or
 starts with a blank line

check_format failed with an IndexError when the first line is blank. Blank
lines are skipped now, and a file without content is an UnknownFormat.
---
 pytiled_parser/util.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 55851ed..bf78923 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -5,6 +5,7 @@ from pathlib import Path
 from typing import Any
 
 from pytiled_parser.common_types import Color
+from pytiled_parser.exception import UnknownFormat
 
 
 def parse_color(color: str) -> Color:
@@ -38,11 +39,12 @@ def parse_color(color: str) -> Color:
 
 def check_format(file_path: Path) -> str:
     with open(file_path, encoding="utf-8") as file:
-        line = file.readline().rstrip().strip()
-        if line[0] == "<":
-            return "tmx"
-        else:
-            return "json"
+        for line in file:
+            line = line.strip()
+            if line:
+                return "tmx" if line[0] == "<" else "json"
+
+    raise UnknownFormat(f"The file {file_path} is empty.")
 
 
 def load_object_template(file_path: Path) -> Any:
-- 
2.43.0


From 4f0b59928969cbb888b27249c8dc72b703189937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 17/30] fix: a file that is not text is an UnknownFormat

Passing an image, say, instead of a map raised a UnicodeDecodeError.
---
 pytiled_parser/util.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index bf78923..63a7b54 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -39,10 +39,13 @@ def parse_color(color: str) -> Color:
 
 def check_format(file_path: Path) -> str:
     with open(file_path, encoding="utf-8") as file:
-        for line in file:
-            line = line.strip()
-            if line:
-                return "tmx" if line[0] == "<" else "json"
+        try:
+            for line in file:
+                line = line.strip()
+                if line:
+                    return "tmx" if line[0] == "<" else "json"
+        except UnicodeDecodeError:
+            raise UnknownFormat(f"The file {file_path} is not a text file.")
 
     raise UnknownFormat(f"The file {file_path} is empty.")
 
-- 
2.43.0


From eb534126dd8a07070736a98b599b0f95a23db5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 18/30] fix: a TMX map with an unknown tileset format raises
 UnknownFormat

The check was unreachable: a tileset that is neither TSX nor JSON raised the
JSON decoder's error, unlike in a JSON map.
---
 pytiled_parser/parsers/tmx/tiled_map.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 69eff9a..3932136 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -42,16 +42,20 @@ def parse(file: Path) -> TiledMap:
                         int(raw_tileset.attrib["firstgid"]),
                         external_path=tileset_path.parent,
                     )
-                elif parser == "json":
-                    tilesets[int(raw_tileset.attrib["firstgid"])] = parse_json_tileset(
-                        json.load(tileset_file),
-                        int(raw_tileset.attrib["firstgid"]),
-                        external_path=tileset_path.parent,
-                    )
                 else:
-                    raise UnknownFormat(
-                        "Unkown Tileset format, please use either the TSX or JSON format."
-                    )
+                    try:
+                        tilesets[
+                            int(raw_tileset.attrib["firstgid"])
+                        ] = parse_json_tileset(
+                            json.load(tileset_file),
+                            int(raw_tileset.attrib["firstgid"]),
+                            external_path=tileset_path.parent,
+                        )
+                    except ValueError:
+                        raise UnknownFormat(
+                            "Unkown Tileset format, please use either the TSX or JSON format. "
+                            "This message could also mean your tileset file is invalid or corrupted."
+                        )
 
         else:
             # Is an embedded Tileset
-- 
2.43.0


From f74659af7740227dfc65900a48d599ae7230ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 19/30] fix: merge the properties of a TMX template and its
 instances

The properties of an instance were ignored when the template has properties.
---
 pytiled_parser/parsers/tmx/tiled_object.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 0d4da2d..766b57d 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -278,7 +278,11 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
                     new_object.attrib[key] = val
 
                 properties_element = raw_object.find("./properties")
-                if properties_element is not None:
+                template_properties = new_object.find("./properties")
+                if properties_element is not None and template_properties is not None:
+                    # Later properties replace earlier ones of the same name
+                    template_properties.extend(properties_element)
+                elif properties_element is not None:
                     new_object.append(properties_element)
 
                 raw_object = new_object
-- 
2.43.0


From 73a08590c8b0a9510654c69e4da8822d0def3efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 20/30] fix: a TMX template instance can replace the shape and
 the text

The shape or text element of an instance was ignored.
---
 pytiled_parser/parsers/tmx/tiled_object.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 766b57d..98afd9d 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -16,6 +16,8 @@ from pytiled_parser.tiled_object import (
 )
 from pytiled_parser.util import load_object_template, parse_color
 
+SHAPE_TAGS = ("ellipse", "point", "polygon", "polyline", "text")
+
 
 def _parse_common(raw_object: etree.Element) -> TiledObject:
     """Create an Object containing all the attributes common to all types of objects.
@@ -285,6 +287,13 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
                 elif properties_element is not None:
                     new_object.append(properties_element)
 
+                shapes = [e for e in raw_object if e.tag in SHAPE_TAGS]
+                if shapes:
+                    for element in list(new_object):
+                        if element.tag in SHAPE_TAGS:
+                            new_object.remove(element)
+                    new_object.extend(shapes)
+
                 raw_object = new_object
         elif isinstance(template, dict):
             # load the JSON object into the XML object
-- 
2.43.0


From 2db53849785328f2156457e455c51dfb9b898ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 21/30] fix: a template instance's own values win over its
 template's

In JSON maps every value of the template replaced the instance's own one, so an
instance could not override anything. Properties are merged by name.
---
 pytiled_parser/parsers/json/tiled_object.py | 36 ++++++++++++++++++++-
 pytiled_parser/parsers/tmx/tiled_object.py  |  5 +++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 33cae00..1f94df9 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -20,6 +20,8 @@ from pytiled_parser.tiled_object import (
 )
 from pytiled_parser.util import load_object_template, parse_color
 
+SHAPE_KEYS = {"ellipse", "point", "polygon", "polyline", "text", "gid"}
+
 RawText = TypedDict(
     "RawText",
     {
@@ -288,6 +290,26 @@ def _get_parser(raw_object: RawObject) -> Callable[[RawObject], TiledObject]:
     return _parse_rectangle
 
 
+def _merge_properties(template: Any, instance: Any) -> Any:
+    """Merge the raw properties of a template and its instance, which wins.
+
+    Args:
+        template: Raw properties of the template's object
+        instance: Raw properties of the instance
+
+    Returns:
+        Any: The merged raw properties
+    """
+    if isinstance(template, dict) and isinstance(instance, dict):
+        return {**template, **instance}
+
+    if isinstance(template, list) and isinstance(instance, list):
+        # Later properties replace earlier ones of the same name
+        return template + instance
+
+    return instance
+
+
 def parse(
     raw_object: RawObject,
     parent_dir: Optional[Path] = None,
@@ -317,8 +339,20 @@ def parse(
 
         if isinstance(template, dict):
             loaded_template = template["object"]
+            overridden = set(raw_object)
+            if overridden & {"class", "type"}:
+                # Either spelling of the instance's class replaces both
+                overridden |= {"class", "type"}
+            if overridden & SHAPE_KEYS:
+                overridden |= SHAPE_KEYS
             for key in loaded_template:
-                if key != "id":
+                if key == "id":
+                    continue
+                if key == "properties" and key in overridden:
+                    raw_object[key] = _merge_properties(
+                        loaded_template[key], raw_object[key]
+                    )
+                elif key not in overridden:
                     raw_object[key] = loaded_template[key]  # type: ignore
         else:
             raise NotImplementedError(
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 98afd9d..d806447 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -274,6 +274,11 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
         if isinstance(template, etree.Element):
             new_object = template.find("./object")
             if new_object is not None:
+                if "class" in raw_object.attrib or "type" in raw_object.attrib:
+                    # Either spelling of the instance's class replaces both
+                    new_object.attrib.pop("class", None)
+                    new_object.attrib.pop("type", None)
+
                 for key, val in raw_object.attrib.items():
                     if key == "template":
                         continue
-- 
2.43.0


From 6759c83a01042fe2a9a61f65d5b68707849f8fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 22/30] fix: resolve the tilesets of templates used inside
 group layers

Only objects of top level layers were looked at, so a template's tile object in
a group kept the template's own global tile id and its tileset was not loaded.
---
 pytiled_parser/parsers/json/tiled_map.py |  4 ++--
 pytiled_parser/parsers/tmx/tiled_map.py  |  4 ++--
 pytiled_parser/util.py                   | 19 ++++++++++++++++++-
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 8dbd261..e20d376 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -15,7 +15,7 @@ from pytiled_parser.parsers.json.tileset import RawTileSet
 from pytiled_parser.parsers.json.tileset import parse as parse_json_tileset
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
-from pytiled_parser.util import check_format, parse_color
+from pytiled_parser.util import check_format, get_object_layers, parse_color
 
 RawTilesetMapping = TypedDict("RawTilesetMapping", {"firstgid": int, "source": str})
 
@@ -125,7 +125,7 @@ def parse(file: Path) -> TiledMap:
         version=version,
     )
 
-    layers = [layer for layer in map_.layers if hasattr(layer, "tiled_objects")]
+    layers = get_object_layers(map_.layers)
 
     for my_layer in layers:
         # Mypy extremely hates what is going on in this whole block
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 3932136..9517021 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -9,7 +9,7 @@ from pytiled_parser.parsers.tmx.layer import parse as parse_layer
 from pytiled_parser.parsers.tmx.properties import parse as parse_properties
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
-from pytiled_parser.util import check_format, parse_color
+from pytiled_parser.util import check_format, get_object_layers, parse_color
 
 
 def parse(file: Path) -> TiledMap:
@@ -89,7 +89,7 @@ def parse(file: Path) -> TiledMap:
         version=raw_map.attrib["version"],
     )
 
-    layers = [layer for layer in map_.layers if hasattr(layer, "tiled_objects")]
+    layers = get_object_layers(map_.layers)
 
     for my_layer in layers:
         # Mypy extremely hates what is going on in this whole block
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 63a7b54..3c95f87 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -2,7 +2,7 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
-from typing import Any
+from typing import Any, List
 
 from pytiled_parser.common_types import Color
 from pytiled_parser.exception import UnknownFormat
@@ -50,6 +50,23 @@ def check_format(file_path: Path) -> str:
     raise UnknownFormat(f"The file {file_path} is empty.")
 
 
+def get_object_layers(layers: List[Any]) -> List[Any]:
+    """Get the layers which have objects, at any depth of groups.
+
+    Args:
+        layers: Layers of a map or a group.
+    Returns:
+        List[Any]: The object layers in document order.
+    """
+    object_layers = []
+    for layer in layers:
+        if hasattr(layer, "tiled_objects"):
+            object_layers.append(layer)
+        object_layers.extend(get_object_layers(getattr(layer, "layers", None) or []))
+
+    return object_layers
+
+
 def load_object_template(file_path: Path) -> Any:
     template_format = check_format(file_path)
 
-- 
2.43.0


From 3f658d9e2fcad83d82a43e44840e939aab663222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 23/30] fix: give a template's tileset global tile ids that are
 free

A map without tilesets of its own failed to load, and the ids of an image
collection with gaps, which go beyond its tile count, were given twice.
---
 pytiled_parser/parsers/json/tiled_map.py | 11 +++++++----
 pytiled_parser/parsers/tmx/tiled_map.py  | 11 +++++++----
 pytiled_parser/util.py                   | 19 ++++++++++++++++++-
 3 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index e20d376..4e5aa08 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -15,7 +15,12 @@ from pytiled_parser.parsers.json.tileset import RawTileSet
 from pytiled_parser.parsers.json.tileset import parse as parse_json_tileset
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
-from pytiled_parser.util import check_format, get_object_layers, parse_color
+from pytiled_parser.util import (
+    check_format,
+    get_free_firstgid,
+    get_object_layers,
+    parse_color,
+)
 
 RawTilesetMapping = TypedDict("RawTilesetMapping", {"firstgid": int, "source": str})
 
@@ -151,9 +156,7 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        highest_firstgid = max(map_.tilesets.keys())
-                        last_tileset_count = map_.tilesets[highest_firstgid].tile_count
-                        new_firstgid = highest_firstgid + last_tileset_count
+                        new_firstgid = get_free_firstgid(map_.tilesets)
                         map_.tilesets[new_firstgid] = parse_json_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 9517021..9200a2b 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -9,7 +9,12 @@ from pytiled_parser.parsers.tmx.layer import parse as parse_layer
 from pytiled_parser.parsers.tmx.properties import parse as parse_properties
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
-from pytiled_parser.util import check_format, get_object_layers, parse_color
+from pytiled_parser.util import (
+    check_format,
+    get_free_firstgid,
+    get_object_layers,
+    parse_color,
+)
 
 
 def parse(file: Path) -> TiledMap:
@@ -115,9 +120,7 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        highest_firstgid = max(map_.tilesets.keys())
-                        last_tileset_count = map_.tilesets[highest_firstgid].tile_count
-                        new_firstgid = highest_firstgid + last_tileset_count
+                        new_firstgid = get_free_firstgid(map_.tilesets)
                         map_.tilesets[new_firstgid] = parse_tmx_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 3c95f87..1abf8fc 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -2,7 +2,7 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
-from typing import Any, List
+from typing import Any, Dict, List
 
 from pytiled_parser.common_types import Color
 from pytiled_parser.exception import UnknownFormat
@@ -67,6 +67,23 @@ def get_object_layers(layers: List[Any]) -> List[Any]:
     return object_layers
 
 
+def get_free_firstgid(tilesets: Dict[int, Any]) -> int:
+    """Get the first global tile id after those all the tilesets use.
+
+    Args:
+        tilesets: The tilesets of a map by their first global tile id.
+    Returns:
+        int: The first free global tile id.
+    """
+    free = 1
+    for firstgid, tileset in tilesets.items():
+        # The ids of an image collection may have gaps
+        highest_id = max(tileset.tiles or {}, default=-1)
+        free = max(free, firstgid + max(tileset.tile_count, highest_id + 1))
+
+    return free
+
+
 def load_object_template(file_path: Path) -> Any:
     template_format = check_format(file_path)
 
-- 
2.43.0


From 959ad641518aa00bfad931f09cde456972b214fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 24/30] fix: a template may use a tileset in the other format

A JSON template with a TSX tileset, and a TMX template with a JSON tileset,
failed to load, although a map may mix them.
---
 pytiled_parser/parsers/json/tiled_map.py | 10 ++++++++--
 pytiled_parser/parsers/tmx/tiled_map.py  | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 4e5aa08..ffb99f8 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -149,15 +149,21 @@ def parse(file: Path) -> TiledMap:
         for tiled_object in my_layer.tiled_objects:  # type: ignore
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
+                    if isinstance(tiled_object.new_tileset, dict):
+                        parse_tileset = parse_json_tileset
+                    else:
+                        parse_tileset = parse_tmx_tileset
+
                     already_loaded = None
+                    tileset_name = tiled_object.new_tileset.get("name")
                     for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset["name"]:
+                        if val.name == tileset_name:
                             already_loaded = val
                             break
 
                     if not already_loaded:
                         new_firstgid = get_free_firstgid(map_.tilesets)
-                        map_.tilesets[new_firstgid] = parse_json_tileset(
+                        map_.tilesets[new_firstgid] = parse_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
                             tiled_object.new_tileset_path,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 9200a2b..a06b902 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -113,15 +113,21 @@ def parse(file: Path) -> TiledMap:
         for tiled_object in my_layer.tiled_objects:  # type: ignore
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
+                    if isinstance(tiled_object.new_tileset, dict):
+                        parse_tileset = parse_json_tileset
+                    else:
+                        parse_tileset = parse_tmx_tileset
+
                     already_loaded = None
+                    tileset_name = tiled_object.new_tileset.get("name")
                     for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset.attrib["name"]:
+                        if val.name == tileset_name:
                             already_loaded = val
                             break
 
                     if not already_loaded:
                         new_firstgid = get_free_firstgid(map_.tilesets)
-                        map_.tilesets[new_firstgid] = parse_tmx_tileset(
+                        map_.tilesets[new_firstgid] = parse_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
                             tiled_object.new_tileset_path,
-- 
2.43.0


From 0a891862a44b0f62e2c06043e28017f8fb81def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 25/30] fix: tell a template's tileset from another one of the
 same name

The map's tilesets were searched by name only, so an object could end up with a
tile of an unrelated tileset.
---
 pytiled_parser/parsers/json/tiled_map.py | 14 +++++++-------
 pytiled_parser/parsers/tmx/tiled_map.py  | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index ffb99f8..14a3d50 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -155,19 +155,19 @@ def parse(file: Path) -> TiledMap:
                         parse_tileset = parse_tmx_tileset
 
                     already_loaded = None
-                    tileset_name = tiled_object.new_tileset.get("name")
+                    tileset = parse_tileset(
+                        tiled_object.new_tileset, 1, tiled_object.new_tileset_path
+                    )
                     for val in map_.tilesets.values():
-                        if val.name == tileset_name:
+                        tileset.firstgid = val.firstgid
+                        if val == tileset:
                             already_loaded = val
                             break
 
                     if not already_loaded:
                         new_firstgid = get_free_firstgid(map_.tilesets)
-                        map_.tilesets[new_firstgid] = parse_tileset(
-                            tiled_object.new_tileset,
-                            new_firstgid,
-                            tiled_object.new_tileset_path,
-                        )
+                        tileset.firstgid = new_firstgid
+                        map_.tilesets[new_firstgid] = tileset
                         tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
                     else:
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index a06b902..9d236cf 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -119,19 +119,19 @@ def parse(file: Path) -> TiledMap:
                         parse_tileset = parse_tmx_tileset
 
                     already_loaded = None
-                    tileset_name = tiled_object.new_tileset.get("name")
+                    tileset = parse_tileset(
+                        tiled_object.new_tileset, 1, tiled_object.new_tileset_path
+                    )
                     for val in map_.tilesets.values():
-                        if val.name == tileset_name:
+                        tileset.firstgid = val.firstgid
+                        if val == tileset:
                             already_loaded = val
                             break
 
                     if not already_loaded:
                         new_firstgid = get_free_firstgid(map_.tilesets)
-                        map_.tilesets[new_firstgid] = parse_tileset(
-                            tiled_object.new_tileset,
-                            new_firstgid,
-                            tiled_object.new_tileset_path,
-                        )
+                        tileset.firstgid = new_firstgid
+                        map_.tilesets[new_firstgid] = tileset
                         tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
                     else:
-- 
2.43.0


From 1b8ea5214fa7514a36dabc1be4494e6f6d602af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 26/30] fix: a template instance's own gid refers to the map's
 tilesets

It was shifted as if it were the id of a tile of the template's tileset.
---
 pytiled_parser/parsers/json/tiled_object.py | 4 ++++
 pytiled_parser/parsers/tmx/tiled_object.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 1f94df9..2b77edc 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -337,6 +337,10 @@ def parse(
         template_path = Path(parent_dir / raw_object["template"])
         template, new_tileset, new_tileset_path = load_object_template(template_path)
 
+        if raw_object.get("gid"):
+            # The instance's own gid refers to the tilesets of the map
+            new_tileset = new_tileset_path = None
+
         if isinstance(template, dict):
             loaded_template = template["object"]
             overridden = set(raw_object)
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index d806447..5401815 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -271,6 +271,10 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
         template_path = Path(parent_dir / raw_object.attrib["template"])
         template, new_tileset, new_tileset_path = load_object_template(template_path)
 
+        if raw_object.attrib.get("gid"):
+            # The instance's own gid refers to the tilesets of the map
+            new_tileset = new_tileset_path = None
+
         if isinstance(template, etree.Element):
             new_object = template.find("./object")
             if new_object is not None:
-- 
2.43.0


From 3add3f8345741a549a5f937083b7623cef5c6d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 27/30] fix: an unknown tileset format in a template raises
 UnknownFormat

---
 pytiled_parser/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 1abf8fc..cb26a5b 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -119,6 +119,12 @@ def load_object_tileset(file_path: Path) -> Any:
         if tileset_format == "tmx":
             new_tileset = etree.parse(tileset_file).getroot()
         else:
-            new_tileset = json.load(tileset_file)
+            try:
+                new_tileset = json.load(tileset_file)
+            except ValueError:
+                raise UnknownFormat(
+                    "Unknown Tileset Format, please use either the TSX or JSON format. "
+                    "This message could also mean your tileset file is invalid or corrupted."
+                )
 
     return new_tileset
-- 
2.43.0


From 650035a7974a1adea4e837cff674e241d7b46dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 28/30] fix: merge a template's properties across older and
 current spellings

---
 pytiled_parser/parsers/json/tiled_object.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 2b77edc..db14f50 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -300,14 +300,15 @@ def _merge_properties(template: Any, instance: Any) -> Any:
     Returns:
         Any: The merged raw properties
     """
-    if isinstance(template, dict) and isinstance(instance, dict):
-        return {**template, **instance}
-
-    if isinstance(template, list) and isinstance(instance, list):
-        # Later properties replace earlier ones of the same name
-        return template + instance
-
-    return instance
+    raw_lists = []
+    for raw in (template, instance):
+        if isinstance(raw, dict):
+            # Older files have an object of names and values
+            raw = [{"name": k, "type": "", "value": v} for k, v in raw.items()]
+        raw_lists.append(raw or [])
+
+    # Later properties replace earlier ones of the same name
+    return raw_lists[0] + raw_lists[1]
 
 
 def parse(
-- 
2.43.0


From 0cbb85b4ebaaf5ab414e2dfd8d0133dda133e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:53 +0000
Subject: [PATCH 29/30] fix: a tileset without tiles kept its place in the
 table when a template brings another

---
 pytiled_parser/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index cb26a5b..c3a52d4 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -77,8 +77,9 @@ def get_free_firstgid(tilesets: Dict[int, Any]) -> int:
     """
     free = 1
     for firstgid, tileset in tilesets.items():
-        # The ids of an image collection may have gaps
-        highest_id = max(tileset.tiles or {}, default=-1)
+        # The ids of an image collection may have gaps, and a tileset without any
+        # tiles still takes the place of its first id
+        highest_id = max(tileset.tiles or {}, default=0)
         free = max(free, firstgid + max(tileset.tile_count, highest_id + 1))
 
     return free
-- 
2.43.0


From 39e5753189bdda71c5375ebc6c0430770c25441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:37 +0000
Subject: [PATCH 30/30] fix: properties of TMX elements do not rely on an
 element's truth value

Testing it warns since Python 3.12 (an error under -W error) and will
always be true, or raise, in future versions.
---
 pytiled_parser/parsers/tmx/tiled_map.py    | 2 +-
 pytiled_parser/parsers/tmx/tiled_object.py | 2 +-
 pytiled_parser/parsers/tmx/wang_set.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 9d236cf..379da44 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -149,7 +149,7 @@ def parse(file: Path) -> TiledMap:
         map_.hex_side_length = int(raw_map.attrib["hexsidelength"])
 
     properties_element = raw_map.find("./properties")
-    if properties_element:
+    if properties_element is not None:
         map_.properties = parse_properties(properties_element)
 
     if raw_map.attrib.get("staggeraxis") is not None:
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 5401815..b912320 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -57,7 +57,7 @@ def _parse_common(raw_object: etree.Element) -> TiledObject:
         common.class_ = raw_object.attrib["class"]
 
     properties_element = raw_object.find("./properties")
-    if properties_element:
+    if properties_element is not None:
         common.properties = parse_properties(properties_element)
 
     return common
diff --git a/pytiled_parser/parsers/tmx/wang_set.py b/pytiled_parser/parsers/tmx/wang_set.py
index 0789cb1..3401311 100644
--- a/pytiled_parser/parsers/tmx/wang_set.py
+++ b/pytiled_parser/parsers/tmx/wang_set.py
@@ -38,7 +38,7 @@ def _parse_wang_color(raw_wang_color: etree.Element) -> WangColor:
         wang_color.class_ = raw_wang_color.attrib["class"]
 
     properties = raw_wang_color.find("./properties")
-    if properties:
+    if properties is not None:
         wang_color.properties = parse_properties(properties)
 
     return wang_color
@@ -74,7 +74,7 @@ def parse(raw_wangset: etree.Element) -> WangSet:
         wangset.class_ = raw_wangset.attrib["class"]
 
     properties = raw_wangset.find("./properties")
-    if properties:
+    if properties is not None:
         wangset.properties = parse_properties(properties)
 
     return wangset
-- 
2.43.0

