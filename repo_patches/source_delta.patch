From 27957476a5f28b966588bde38d016f2dcef544fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 01/28] fix: TMX maps flatten nested layers into the top level

---
 pytiled_parser/parsers/tmx/tiled_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 988e5cf..8bcaa5e 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -60,7 +60,7 @@ def parse(file: Path) -> TiledMap:
             )
 
     layers = []
-    for element in raw_map.iter():
+    for element in raw_map:
         if element.tag in ["layer", "objectgroup", "imagelayer", "group"]:
             layers.append(parse_layer(element, parent_dir))
 
-- 
2.43.0


From 7067248d1e3285dcfea4379a8fd34992c1ef1b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:45 +0000
Subject: [PATCH 02/28] fix: TMX group layers lose the document order of their
 children

---
 pytiled_parser/parsers/tmx/layer.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index df219bb..c5fee21 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -326,23 +326,9 @@ def _parse_group_layer(
         LayerGroup: The LayerGroup created from raw_layer
     """
     layers: List[Layer] = []
-    for layer in raw_layer.findall("./layer"):
-        layers.append(_parse_tile_layer(layer))
-
-    for layer in raw_layer.findall("./objectgroup"):
-        layers.append(_parse_object_layer(layer, parent_dir))
-
-    for layer in raw_layer.findall("./imagelayer"):
-        layers.append(_parse_image_layer(layer))
-
-    for layer in raw_layer.findall("./group"):
-        layers.append(_parse_group_layer(layer, parent_dir))
-    # layers = []
-    # layers = [
-    #    parse(child_layer, parent_dir=parent_dir)
-    #    for child_layer in raw_layer.iter()
-    #    if child_layer.tag in ["layer", "objectgroup", "imagelayer", "group"]
-    # ]
+    for element in raw_layer:
+        if element.tag in ["layer", "objectgroup", "imagelayer", "group"]:
+            layers.append(parse(element, parent_dir))
 
     return LayerGroup(layers=layers, **_parse_common(raw_layer).__dict__)
 
-- 
2.43.0


From efa6b2864271dbc1ff2b19f72871428305c14ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 03/28] fix: objects without properties share one properties
 dict

---
 pytiled_parser/tiled_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/tiled_object.py b/pytiled_parser/tiled_object.py
index edf7495..2be8c6e 100644
--- a/pytiled_parser/tiled_object.py
+++ b/pytiled_parser/tiled_object.py
@@ -39,7 +39,7 @@ class TiledObject:
     name: str = ""
     class_: str = ""
 
-    properties: properties_.Properties = {}
+    properties: properties_.Properties = attr.Factory(dict)
 
 
 @attr.s()
-- 
2.43.0


From 3d5101a9dc08a2108306bbcc3924264281f806da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 04/28] fix: stray debug print while parsing a TMX map

---
 pytiled_parser/parsers/tmx/tiled_map.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 8bcaa5e..aa246f5 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -107,7 +107,6 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        print("here")
                         highest_firstgid = max(map_.tilesets.keys())
                         last_tileset_count = map_.tilesets[highest_firstgid].tile_count
                         new_firstgid = highest_firstgid + last_tileset_count
-- 
2.43.0


From e257a03f0302273ba02bafb61c0e7f7d9c1517db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 05/28] fix: JSON wang sets and wang colors lose their class

---
 pytiled_parser/parsers/json/wang_set.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytiled_parser/parsers/json/wang_set.py b/pytiled_parser/parsers/json/wang_set.py
index f44c4b2..4cb5cd8 100644
--- a/pytiled_parser/parsers/json/wang_set.py
+++ b/pytiled_parser/parsers/json/wang_set.py
@@ -82,6 +82,9 @@ def _parse_wang_color(raw_wang_color: RawWangColor) -> WangColor:
         probability=raw_wang_color["probability"],
     )
 
+    if raw_wang_color.get("class") is not None:
+        wang_color.class_ = raw_wang_color["class"]
+
     if raw_wang_color.get("properties") is not None:
         wang_color.properties = parse_properties(raw_wang_color["properties"])
 
@@ -114,6 +117,9 @@ def parse(raw_wangset: RawWangSet) -> WangSet:
         wang_tiles=tiles,
     )
 
+    if raw_wangset.get("class") is not None:
+        wangset.class_ = raw_wangset["class"]
+
     if raw_wangset.get("properties") is not None:
         wangset.properties = parse_properties(raw_wangset["properties"])
 
-- 
2.43.0


From 39bcc68ebc52a3ecb8bf749824430c780305f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 06/28] fix: JSON object templates override the values of their
 instances

---
 pytiled_parser/parsers/json/tiled_object.py | 669 ++++++++++----------
 1 file changed, 337 insertions(+), 332 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 33cae00..32ed822 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -1,332 +1,337 @@
-"""Object parsing for the JSON Map Format.
-"""
-from pathlib import Path
-from typing import Any, Callable, Dict, List, Optional
-
-from typing_extensions import TypedDict
-
-from pytiled_parser.common_types import OrderedPair, Size
-from pytiled_parser.parsers.json.properties import RawProperty
-from pytiled_parser.parsers.json.properties import parse as parse_properties
-from pytiled_parser.tiled_object import (
-    Ellipse,
-    Point,
-    Polygon,
-    Polyline,
-    Rectangle,
-    Text,
-    Tile,
-    TiledObject,
-)
-from pytiled_parser.util import load_object_template, parse_color
-
-RawText = TypedDict(
-    "RawText",
-    {
-        "text": str,
-        "color": str,
-        "fontfamily": str,
-        "pixelsize": float,  # this is `font_size` in Text
-        "bold": bool,
-        "italic": bool,
-        "strikeout": bool,
-        "underline": bool,
-        "kerning": bool,
-        "halign": str,
-        "valign": str,
-        "wrap": bool,
-    },
-)
-RawText.__doc__ = """
-    The keys and their types that appear in a Tiled JSON Text Object.
-
-    Tiled Doc: https://doc.mapeditor.org/en/stable/reference/json-map-format/#text-example
-"""
-
-
-RawObject = TypedDict(
-    "RawObject",
-    {
-        "id": int,
-        "gid": int,
-        "template": str,
-        "x": float,
-        "y": float,
-        "width": float,
-        "height": float,
-        "rotation": float,
-        "visible": bool,
-        "name": str,
-        "class": str,
-        "type": str,
-        "properties": List[RawProperty],
-        "ellipse": bool,
-        "point": bool,
-        "polygon": List[Dict[str, float]],
-        "polyline": List[Dict[str, float]],
-        "text": RawText,
-    },
-)
-RawObject.__doc__ = """
-    The keys and their types that appear in a Tiled JSON Object.
-
-    Tiled Doc: https://doc.mapeditor.org/en/stable/reference/json-map-format/#object
-"""
-
-
-def _parse_common(raw_object: RawObject) -> TiledObject:
-    """Create an Object containing all the attributes common to all types of objects.
-
-    Args:
-        raw_object: Raw object to get common attributes from
-
-    Returns:
-        Object: The attributes in common of all types of objects
-    """
-
-    common = TiledObject(
-        id=raw_object["id"],
-        coordinates=OrderedPair(raw_object["x"], raw_object["y"]),
-        visible=raw_object["visible"],
-        size=Size(raw_object["width"], raw_object["height"]),
-        rotation=raw_object["rotation"],
-        name=raw_object["name"],
-    )
-
-    if raw_object.get("type") is not None:
-        common.class_ = raw_object["type"]
-
-    if raw_object.get("class") is not None:
-        common.class_ = raw_object["class"]
-
-    if raw_object.get("properties") is not None:
-        common.properties = parse_properties(raw_object["properties"])
-
-    return common
-
-
-def _parse_ellipse(raw_object: RawObject) -> Ellipse:
-    """Parse the raw object into an Ellipse.
-
-    Args:
-        raw_object: Raw object to be parsed to an Ellipse
-
-    Returns:
-        Ellipse: The Ellipse object created from the raw object
-    """
-    return Ellipse(**_parse_common(raw_object).__dict__)
-
-
-def _parse_rectangle(raw_object: RawObject) -> Rectangle:
-    """Parse the raw object into a Rectangle.
-
-    Args:
-        raw_object: Raw object to be parsed to a Rectangle
-
-    Returns:
-        Rectangle: The Rectangle object created from the raw object
-    """
-    return Rectangle(**_parse_common(raw_object).__dict__)
-
-
-def _parse_point(raw_object: RawObject) -> Point:
-    """Parse the raw object into a Point.
-
-    Args:
-        raw_object: Raw object to be parsed to a Point
-
-    Returns:
-        Point: The Point object created from the raw object
-    """
-    return Point(**_parse_common(raw_object).__dict__)
-
-
-def _parse_polygon(raw_object: RawObject) -> Polygon:
-    """Parse the raw object into a Polygon.
-
-    Args:
-        raw_object: Raw object to be parsed to a Polygon
-
-    Returns:
-        Polygon: The Polygon object created from the raw object
-    """
-    polygon = []
-    for point in raw_object["polygon"]:
-        polygon.append(OrderedPair(point["x"], point["y"]))
-
-    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
-
-
-def _parse_polyline(raw_object: RawObject) -> Polyline:
-    """Parse the raw object into a Polyline.
-
-    Args:
-        raw_object: Raw object to be parsed to a Polyline
-
-    Returns:
-        Polyline: The Polyline object created from the raw object
-    """
-    polyline = []
-    for point in raw_object["polyline"]:
-        polyline.append(OrderedPair(point["x"], point["y"]))
-
-    return Polyline(points=polyline, **_parse_common(raw_object).__dict__)
-
-
-def _parse_tile(
-    raw_object: RawObject,
-    new_tileset: Optional[Dict[str, Any]] = None,
-    new_tileset_path: Optional[Path] = None,
-) -> Tile:
-    """Parse the raw object into a Tile.
-
-    Args:
-        raw_object: Raw object to be parsed to a Tile
-
-    Returns:
-        Tile: The Tile object created from the raw object
-    """
-    gid = raw_object["gid"]
-
-    return Tile(
-        gid=gid,
-        new_tileset=new_tileset,
-        new_tileset_path=new_tileset_path,
-        **_parse_common(raw_object).__dict__,
-    )
-
-
-def _parse_text(raw_object: RawObject) -> Text:
-    """Parse the raw object into Text.
-
-    Args:
-        raw_object: Raw object to be parsed to a Text
-
-    Returns:
-        Text: The Text object created from the raw object
-    """
-    # required attributes
-    raw_text: RawText = raw_object["text"]
-    text = raw_text["text"]
-
-    # create base Text object
-    text_object = Text(text=text, **_parse_common(raw_object).__dict__)
-
-    # optional attributes
-    if raw_text.get("color") is not None:
-        text_object.color = parse_color(raw_text["color"])
-
-    if raw_text.get("fontfamily") is not None:
-        text_object.font_family = raw_text["fontfamily"]
-
-    if raw_text.get("pixelsize") is not None:
-        text_object.font_size = raw_text["pixelsize"]
-
-    if raw_text.get("bold") is not None:
-        text_object.bold = raw_text["bold"]
-
-    if raw_text.get("italic") is not None:
-        text_object.italic = raw_text["italic"]
-
-    if raw_text.get("kerning") is not None:
-        text_object.kerning = raw_text["kerning"]
-
-    if raw_text.get("strikeout") is not None:
-        text_object.strike_out = raw_text["strikeout"]
-
-    if raw_text.get("underline") is not None:
-        text_object.underline = raw_text["underline"]
-
-    if raw_text.get("halign") is not None:
-        text_object.horizontal_align = raw_text["halign"]
-
-    if raw_text.get("valign") is not None:
-        text_object.vertical_align = raw_text["valign"]
-
-    if raw_text.get("wrap") is not None:
-        text_object.wrap = raw_text["wrap"]
-
-    return text_object
-
-
-def _get_parser(raw_object: RawObject) -> Callable[[RawObject], TiledObject]:
-    """Get the parser function for a given raw object.
-
-    Only used internally by the JSON parser.
-
-    Args:
-        raw_object: Raw object that is analyzed to determine the parser function.
-
-    Returns:
-        Callable[[RawObject], Object]: The parser function.
-    """
-    if raw_object.get("ellipse"):
-        return _parse_ellipse
-
-    if raw_object.get("point"):
-        return _parse_point
-
-    # This is excluded from tests because the coverage is broken. I promise
-    # there are tests for Tile objects, but for some reason the coverage
-    # isn't picking up this if statement(though it does pickup the _parse_tile)
-    # function so who knows
-    if raw_object.get("gid"):  # pragma: no cover
-        # Only tile objects have the `gid` key
-        return _parse_tile
-
-    if raw_object.get("polygon"):
-        return _parse_polygon
-
-    if raw_object.get("polyline"):
-        return _parse_polyline
-
-    if raw_object.get("text"):
-        return _parse_text
-
-    # If it's none of the above, rectangle is the only one left.
-    # Rectangle is the only object which has no special properties to signify that.
-    return _parse_rectangle
-
-
-def parse(
-    raw_object: RawObject,
-    parent_dir: Optional[Path] = None,
-) -> TiledObject:
-    """Parse the raw object into a pytiled_parser version
-
-    Args:
-        raw_object: Raw object that is to be cast.
-        parent_dir: The parent directory that the map file is in.
-
-    Returns:
-        Object: A parsed Object.
-
-    Raises:
-        RuntimeError: When a parameter that is conditionally required was not sent.
-    """
-    new_tileset = None
-    new_tileset_path = None
-
-    if raw_object.get("template"):
-        if not parent_dir:
-            raise RuntimeError(
-                "A parent directory must be specified when using object templates."
-            )
-        template_path = Path(parent_dir / raw_object["template"])
-        template, new_tileset, new_tileset_path = load_object_template(template_path)
-
-        if isinstance(template, dict):
-            loaded_template = template["object"]
-            for key in loaded_template:
-                if key != "id":
-                    raw_object[key] = loaded_template[key]  # type: ignore
-        else:
-            raise NotImplementedError(
-                "Loading TMX object templates inside a JSON map is currently not supported, "
-                "but will be in a future release."
-            )
-
-    if raw_object.get("gid"):
-        return _parse_tile(raw_object, new_tileset, new_tileset_path)
-
-    return _get_parser(raw_object)(raw_object)
+"""Object parsing for the JSON Map Format.
+"""
+from pathlib import Path
+from typing import Any, Callable, Dict, List, Optional
+
+from typing_extensions import TypedDict
+
+from pytiled_parser.common_types import OrderedPair, Size
+from pytiled_parser.parsers.json.properties import RawProperty
+from pytiled_parser.parsers.json.properties import parse as parse_properties
+from pytiled_parser.tiled_object import (
+    Ellipse,
+    Point,
+    Polygon,
+    Polyline,
+    Rectangle,
+    Text,
+    Tile,
+    TiledObject,
+)
+from pytiled_parser.util import load_object_template, parse_color
+
+RawText = TypedDict(
+    "RawText",
+    {
+        "text": str,
+        "color": str,
+        "fontfamily": str,
+        "pixelsize": float,  # this is `font_size` in Text
+        "bold": bool,
+        "italic": bool,
+        "strikeout": bool,
+        "underline": bool,
+        "kerning": bool,
+        "halign": str,
+        "valign": str,
+        "wrap": bool,
+    },
+)
+RawText.__doc__ = """
+    The keys and their types that appear in a Tiled JSON Text Object.
+
+    Tiled Doc: https://doc.mapeditor.org/en/stable/reference/json-map-format/#text-example
+"""
+
+
+RawObject = TypedDict(
+    "RawObject",
+    {
+        "id": int,
+        "gid": int,
+        "template": str,
+        "x": float,
+        "y": float,
+        "width": float,
+        "height": float,
+        "rotation": float,
+        "visible": bool,
+        "name": str,
+        "class": str,
+        "type": str,
+        "properties": List[RawProperty],
+        "ellipse": bool,
+        "point": bool,
+        "polygon": List[Dict[str, float]],
+        "polyline": List[Dict[str, float]],
+        "text": RawText,
+    },
+)
+RawObject.__doc__ = """
+    The keys and their types that appear in a Tiled JSON Object.
+
+    Tiled Doc: https://doc.mapeditor.org/en/stable/reference/json-map-format/#object
+"""
+
+
+def _parse_common(raw_object: RawObject) -> TiledObject:
+    """Create an Object containing all the attributes common to all types of objects.
+
+    Args:
+        raw_object: Raw object to get common attributes from
+
+    Returns:
+        Object: The attributes in common of all types of objects
+    """
+
+    common = TiledObject(
+        id=raw_object["id"],
+        coordinates=OrderedPair(raw_object["x"], raw_object["y"]),
+        visible=raw_object["visible"],
+        size=Size(raw_object["width"], raw_object["height"]),
+        rotation=raw_object["rotation"],
+        name=raw_object["name"],
+    )
+
+    if raw_object.get("type") is not None:
+        common.class_ = raw_object["type"]
+
+    if raw_object.get("class") is not None:
+        common.class_ = raw_object["class"]
+
+    if raw_object.get("properties") is not None:
+        common.properties = parse_properties(raw_object["properties"])
+
+    return common
+
+
+def _parse_ellipse(raw_object: RawObject) -> Ellipse:
+    """Parse the raw object into an Ellipse.
+
+    Args:
+        raw_object: Raw object to be parsed to an Ellipse
+
+    Returns:
+        Ellipse: The Ellipse object created from the raw object
+    """
+    return Ellipse(**_parse_common(raw_object).__dict__)
+
+
+def _parse_rectangle(raw_object: RawObject) -> Rectangle:
+    """Parse the raw object into a Rectangle.
+
+    Args:
+        raw_object: Raw object to be parsed to a Rectangle
+
+    Returns:
+        Rectangle: The Rectangle object created from the raw object
+    """
+    return Rectangle(**_parse_common(raw_object).__dict__)
+
+
+def _parse_point(raw_object: RawObject) -> Point:
+    """Parse the raw object into a Point.
+
+    Args:
+        raw_object: Raw object to be parsed to a Point
+
+    Returns:
+        Point: The Point object created from the raw object
+    """
+    return Point(**_parse_common(raw_object).__dict__)
+
+
+def _parse_polygon(raw_object: RawObject) -> Polygon:
+    """Parse the raw object into a Polygon.
+
+    Args:
+        raw_object: Raw object to be parsed to a Polygon
+
+    Returns:
+        Polygon: The Polygon object created from the raw object
+    """
+    polygon = []
+    for point in raw_object["polygon"]:
+        polygon.append(OrderedPair(point["x"], point["y"]))
+
+    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
+
+
+def _parse_polyline(raw_object: RawObject) -> Polyline:
+    """Parse the raw object into a Polyline.
+
+    Args:
+        raw_object: Raw object to be parsed to a Polyline
+
+    Returns:
+        Polyline: The Polyline object created from the raw object
+    """
+    polyline = []
+    for point in raw_object["polyline"]:
+        polyline.append(OrderedPair(point["x"], point["y"]))
+
+    return Polyline(points=polyline, **_parse_common(raw_object).__dict__)
+
+
+def _parse_tile(
+    raw_object: RawObject,
+    new_tileset: Optional[Dict[str, Any]] = None,
+    new_tileset_path: Optional[Path] = None,
+) -> Tile:
+    """Parse the raw object into a Tile.
+
+    Args:
+        raw_object: Raw object to be parsed to a Tile
+
+    Returns:
+        Tile: The Tile object created from the raw object
+    """
+    gid = raw_object["gid"]
+
+    return Tile(
+        gid=gid,
+        new_tileset=new_tileset,
+        new_tileset_path=new_tileset_path,
+        **_parse_common(raw_object).__dict__,
+    )
+
+
+def _parse_text(raw_object: RawObject) -> Text:
+    """Parse the raw object into Text.
+
+    Args:
+        raw_object: Raw object to be parsed to a Text
+
+    Returns:
+        Text: The Text object created from the raw object
+    """
+    # required attributes
+    raw_text: RawText = raw_object["text"]
+    text = raw_text["text"]
+
+    # create base Text object
+    text_object = Text(text=text, **_parse_common(raw_object).__dict__)
+
+    # optional attributes
+    if raw_text.get("color") is not None:
+        text_object.color = parse_color(raw_text["color"])
+
+    if raw_text.get("fontfamily") is not None:
+        text_object.font_family = raw_text["fontfamily"]
+
+    if raw_text.get("pixelsize") is not None:
+        text_object.font_size = raw_text["pixelsize"]
+
+    if raw_text.get("bold") is not None:
+        text_object.bold = raw_text["bold"]
+
+    if raw_text.get("italic") is not None:
+        text_object.italic = raw_text["italic"]
+
+    if raw_text.get("kerning") is not None:
+        text_object.kerning = raw_text["kerning"]
+
+    if raw_text.get("strikeout") is not None:
+        text_object.strike_out = raw_text["strikeout"]
+
+    if raw_text.get("underline") is not None:
+        text_object.underline = raw_text["underline"]
+
+    if raw_text.get("halign") is not None:
+        text_object.horizontal_align = raw_text["halign"]
+
+    if raw_text.get("valign") is not None:
+        text_object.vertical_align = raw_text["valign"]
+
+    if raw_text.get("wrap") is not None:
+        text_object.wrap = raw_text["wrap"]
+
+    return text_object
+
+
+def _get_parser(raw_object: RawObject) -> Callable[[RawObject], TiledObject]:
+    """Get the parser function for a given raw object.
+
+    Only used internally by the JSON parser.
+
+    Args:
+        raw_object: Raw object that is analyzed to determine the parser function.
+
+    Returns:
+        Callable[[RawObject], Object]: The parser function.
+    """
+    if raw_object.get("ellipse"):
+        return _parse_ellipse
+
+    if raw_object.get("point"):
+        return _parse_point
+
+    # This is excluded from tests because the coverage is broken. I promise
+    # there are tests for Tile objects, but for some reason the coverage
+    # isn't picking up this if statement(though it does pickup the _parse_tile)
+    # function so who knows
+    if raw_object.get("gid"):  # pragma: no cover
+        # Only tile objects have the `gid` key
+        return _parse_tile
+
+    if raw_object.get("polygon"):
+        return _parse_polygon
+
+    if raw_object.get("polyline"):
+        return _parse_polyline
+
+    if raw_object.get("text"):
+        return _parse_text
+
+    # If it's none of the above, rectangle is the only one left.
+    # Rectangle is the only object which has no special properties to signify that.
+    return _parse_rectangle
+
+
+def parse(
+    raw_object: RawObject,
+    parent_dir: Optional[Path] = None,
+) -> TiledObject:
+    """Parse the raw object into a pytiled_parser version
+
+    Args:
+        raw_object: Raw object that is to be cast.
+        parent_dir: The parent directory that the map file is in.
+
+    Returns:
+        Object: A parsed Object.
+
+    Raises:
+        RuntimeError: When a parameter that is conditionally required was not sent.
+    """
+    new_tileset = None
+    new_tileset_path = None
+
+    if raw_object.get("template"):
+        if not parent_dir:
+            raise RuntimeError(
+                "A parent directory must be specified when using object templates."
+            )
+        template_path = Path(parent_dir / raw_object["template"])
+        template, new_tileset, new_tileset_path = load_object_template(template_path)
+
+        if isinstance(template, dict):
+            loaded_template = template["object"]
+            for key in loaded_template:
+                if key == "id":
+                    continue
+                if key == "properties" and key in raw_object:
+                    # later properties of the same name win
+                    raw_object[key] = loaded_template[key] + raw_object[key]
+                elif key not in raw_object:
+                    raw_object[key] = loaded_template[key]  # type: ignore
+        else:
+            raise NotImplementedError(
+                "Loading TMX object templates inside a JSON map is currently not supported, "
+                "but will be in a future release."
+            )
+
+    if raw_object.get("gid"):
+        return _parse_tile(raw_object, new_tileset, new_tileset_path)
+
+    return _get_parser(raw_object)(raw_object)
-- 
2.43.0


From 392c153c78bff19e9fb3e64edd513972d1f55cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 07/28] fix: TMX template instances cannot override text,
 shapes or properties

---
 pytiled_parser/parsers/tmx/tiled_object.py | 597 +++++++++++----------
 1 file changed, 302 insertions(+), 295 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 711664e..7fd24d0 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -1,295 +1,302 @@
-import xml.etree.ElementTree as etree
-from pathlib import Path
-from typing import Callable, Optional
-
-from pytiled_parser.common_types import OrderedPair, Size
-from pytiled_parser.parsers.tmx.properties import parse as parse_properties
-from pytiled_parser.tiled_object import (
-    Ellipse,
-    Point,
-    Polygon,
-    Polyline,
-    Rectangle,
-    Text,
-    Tile,
-    TiledObject,
-)
-from pytiled_parser.util import load_object_template, parse_color
-
-
-def _parse_common(raw_object: etree.Element) -> TiledObject:
-    """Create an Object containing all the attributes common to all types of objects.
-
-    Args:
-        raw_object: XML Element to get common attributes from
-
-    Returns:
-        Object: The attributes in common of all types of objects
-    """
-
-    common = TiledObject(
-        id=int(raw_object.attrib["id"]),
-        coordinates=OrderedPair(
-            float(raw_object.attrib["x"]), float(raw_object.attrib["y"])
-        ),
-    )
-
-    if raw_object.attrib.get("width") is not None:
-        common.size = Size(
-            float(raw_object.attrib["width"]), float(raw_object.attrib["height"])
-        )
-
-    if raw_object.attrib.get("visible") is not None:
-        common.visible = bool(int(raw_object.attrib["visible"]))
-
-    if raw_object.attrib.get("rotation") is not None:
-        common.rotation = float(raw_object.attrib["rotation"])
-
-    if raw_object.attrib.get("name") is not None:
-        common.name = raw_object.attrib["name"]
-
-    if raw_object.attrib.get("type") is not None:
-        common.class_ = raw_object.attrib["type"]
-
-    if raw_object.attrib.get("class") is not None:
-        common.class_ = raw_object.attrib["class"]
-
-    properties_element = raw_object.find("./properties")
-    if properties_element:
-        common.properties = parse_properties(properties_element)
-
-    return common
-
-
-def _parse_ellipse(raw_object: etree.Element) -> Ellipse:
-    """Parse the raw object into an Ellipse.
-
-    Args:
-        raw_object: XML Element to be parsed to an Ellipse
-
-    Returns:
-        Ellipse: The Ellipse object created from the raw object
-    """
-    return Ellipse(**_parse_common(raw_object).__dict__)
-
-
-def _parse_rectangle(raw_object: etree.Element) -> Rectangle:
-    """Parse the raw object into a Rectangle.
-
-    Args:
-        raw_object: XML Element to be parsed to a Rectangle
-
-    Returns:
-        Rectangle: The Rectangle object created from the raw object
-    """
-    return Rectangle(**_parse_common(raw_object).__dict__)
-
-
-def _parse_point(raw_object: etree.Element) -> Point:
-    """Parse the raw object into a Point.
-
-    Args:
-        raw_object: XML Element to be parsed to a Point
-
-    Returns:
-        Point: The Point object created from the raw object
-    """
-    return Point(**_parse_common(raw_object).__dict__)
-
-
-def _parse_polygon(raw_object: etree.Element) -> Polygon:
-    """Parse the raw object into a Polygon.
-
-    Args:
-        raw_object: XML Element to be parsed to a Polygon
-
-    Returns:
-        Polygon: The Polygon object created from the raw object
-    """
-    polygon = []
-    polygon_element = raw_object.find("./polygon")
-    if polygon_element is not None:
-        for raw_point in polygon_element.attrib["points"].split(" "):
-            point = raw_point.split(",")
-            polygon.append(OrderedPair(float(point[0]), float(point[1])))
-
-    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
-
-
-def _parse_polyline(raw_object: etree.Element) -> Polyline:
-    """Parse the raw object into a Polyline.
-
-    Args:
-        raw_object: Raw object to be parsed to a Polyline
-
-    Returns:
-        Polyline: The Polyline object created from the raw object
-    """
-    polyline = []
-    polyline_element = raw_object.find("./polyline")
-    if polyline_element is not None:
-        for raw_point in polyline_element.attrib["points"].split(" "):
-            point = raw_point.split(",")
-            polyline.append(OrderedPair(float(point[0]), float(point[1])))
-
-    return Polyline(points=polyline, **_parse_common(raw_object).__dict__)
-
-
-def _parse_tile(
-    raw_object: etree.Element,
-    new_tileset: Optional[etree.Element] = None,
-    new_tileset_path: Optional[Path] = None,
-) -> Tile:
-    """Parse the raw object into a Tile.
-
-    Args:
-        raw_object: XML Element to be parsed to a Tile
-
-    Returns:
-        Tile: The Tile object created from the raw object
-    """
-    return Tile(
-        gid=int(raw_object.attrib["gid"]),
-        new_tileset=new_tileset,
-        new_tileset_path=new_tileset_path,
-        **_parse_common(raw_object).__dict__,
-    )
-
-
-def _parse_text(raw_object: etree.Element) -> Text:
-    """Parse the raw object into Text.
-
-    Args:
-        raw_object: XML Element to be parsed to a Text
-
-    Returns:
-        Text: The Text object created from the raw object
-    """
-    # required attributes
-    text_element = raw_object.find("./text")
-
-    if text_element is not None:
-        text = text_element.text
-
-        if not text:
-            text = ""
-        # create base Text object
-        text_object = Text(text=text, **_parse_common(raw_object).__dict__)
-
-        # optional attributes
-
-        if text_element.attrib.get("color") is not None:
-            text_object.color = parse_color(text_element.attrib["color"])
-
-        if text_element.attrib.get("fontfamily") is not None:
-            text_object.font_family = text_element.attrib["fontfamily"]
-
-        if text_element.attrib.get("pixelsize") is not None:
-            text_object.font_size = float(text_element.attrib["pixelsize"])
-
-        if text_element.attrib.get("bold") is not None:
-            text_object.bold = bool(int(text_element.attrib["bold"]))
-
-        if text_element.attrib.get("italic") is not None:
-            text_object.italic = bool(int(text_element.attrib["italic"]))
-
-        if text_element.attrib.get("kerning") is not None:
-            text_object.kerning = bool(int(text_element.attrib["kerning"]))
-
-        if text_element.attrib.get("strikeout") is not None:
-            text_object.strike_out = bool(int(text_element.attrib["strikeout"]))
-
-        if text_element.attrib.get("underline") is not None:
-            text_object.underline = bool(int(text_element.attrib["underline"]))
-
-        if text_element.attrib.get("halign") is not None:
-            text_object.horizontal_align = text_element.attrib["halign"]
-
-        if text_element.attrib.get("valign") is not None:
-            text_object.vertical_align = text_element.attrib["valign"]
-
-        if text_element.attrib.get("wrap") is not None:
-            text_object.wrap = bool(int(text_element.attrib["wrap"]))
-
-    return text_object
-
-
-def _get_parser(raw_object: etree.Element) -> Callable[[etree.Element], TiledObject]:
-    """Get the parser function for a given raw object.
-
-    Only used internally by the TMX parser.
-
-    Args:
-        raw_object: XML Element that is analyzed to determine the parser function.
-
-    Returns:
-        Callable[[Element], Object]: The parser function.
-    """
-    if raw_object.find("./ellipse") is not None:
-        return _parse_ellipse
-
-    if raw_object.find("./point") is not None:
-        return _parse_point
-
-    if raw_object.find("./polygon") is not None:
-        return _parse_polygon
-
-    if raw_object.find("./polyline") is not None:
-        return _parse_polyline
-
-    if raw_object.find("./text") is not None:
-        return _parse_text
-
-    # If it's none of the above, rectangle is the only one left.
-    # Rectangle is the only object which has no properties to signify that.
-    return _parse_rectangle
-
-
-def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> TiledObject:
-    """Parse the raw object into a pytiled_parser version
-
-    Args:
-        raw_object: XML Element that is to be parsed.
-        parent_dir: The parent directory that the map file is in.
-
-    Returns:
-        TiledObject: A parsed Object.
-
-    Raises:
-        RuntimeError: When a parameter that is conditionally required was not sent.
-    """
-    new_tileset = None
-    new_tileset_path = None
-
-    if raw_object.attrib.get("template"):
-        if not parent_dir:
-            raise RuntimeError(
-                "A parent directory must be specified when using object templates."
-            )
-        template_path = Path(parent_dir / raw_object.attrib["template"])
-        template, new_tileset, new_tileset_path = load_object_template(template_path)
-
-        if isinstance(template, etree.Element):
-            new_object = template.find("./object")
-            if new_object is not None:
-                for key, val in raw_object.attrib.items():
-                    if key == "template":
-                        continue
-                    new_object.attrib[key] = val
-
-                properties_element = raw_object.find("./properties")
-                if properties_element is not None:
-                    new_object.append(properties_element)
-
-                raw_object = new_object
-        elif isinstance(template, dict):
-            # load the JSON object into the XML object
-            raise NotImplementedError(
-                "Loading JSON object templates inside a TMX map is currently not supported, "
-                "but will be in a future release."
-            )
-
-    if raw_object.attrib.get("gid"):
-        return _parse_tile(raw_object, new_tileset, new_tileset_path)
-
-    return _get_parser(raw_object)(raw_object)
+import xml.etree.ElementTree as etree
+from pathlib import Path
+from typing import Callable, Optional
+
+from pytiled_parser.common_types import OrderedPair, Size
+from pytiled_parser.parsers.tmx.properties import parse as parse_properties
+from pytiled_parser.tiled_object import (
+    Ellipse,
+    Point,
+    Polygon,
+    Polyline,
+    Rectangle,
+    Text,
+    Tile,
+    TiledObject,
+)
+from pytiled_parser.util import load_object_template, parse_color
+
+
+def _parse_common(raw_object: etree.Element) -> TiledObject:
+    """Create an Object containing all the attributes common to all types of objects.
+
+    Args:
+        raw_object: XML Element to get common attributes from
+
+    Returns:
+        Object: The attributes in common of all types of objects
+    """
+
+    common = TiledObject(
+        id=int(raw_object.attrib["id"]),
+        coordinates=OrderedPair(
+            float(raw_object.attrib["x"]), float(raw_object.attrib["y"])
+        ),
+    )
+
+    if raw_object.attrib.get("width") is not None:
+        common.size = Size(
+            float(raw_object.attrib["width"]), float(raw_object.attrib["height"])
+        )
+
+    if raw_object.attrib.get("visible") is not None:
+        common.visible = bool(int(raw_object.attrib["visible"]))
+
+    if raw_object.attrib.get("rotation") is not None:
+        common.rotation = float(raw_object.attrib["rotation"])
+
+    if raw_object.attrib.get("name") is not None:
+        common.name = raw_object.attrib["name"]
+
+    if raw_object.attrib.get("type") is not None:
+        common.class_ = raw_object.attrib["type"]
+
+    if raw_object.attrib.get("class") is not None:
+        common.class_ = raw_object.attrib["class"]
+
+    properties_element = raw_object.find("./properties")
+    if properties_element:
+        common.properties = parse_properties(properties_element)
+
+    return common
+
+
+def _parse_ellipse(raw_object: etree.Element) -> Ellipse:
+    """Parse the raw object into an Ellipse.
+
+    Args:
+        raw_object: XML Element to be parsed to an Ellipse
+
+    Returns:
+        Ellipse: The Ellipse object created from the raw object
+    """
+    return Ellipse(**_parse_common(raw_object).__dict__)
+
+
+def _parse_rectangle(raw_object: etree.Element) -> Rectangle:
+    """Parse the raw object into a Rectangle.
+
+    Args:
+        raw_object: XML Element to be parsed to a Rectangle
+
+    Returns:
+        Rectangle: The Rectangle object created from the raw object
+    """
+    return Rectangle(**_parse_common(raw_object).__dict__)
+
+
+def _parse_point(raw_object: etree.Element) -> Point:
+    """Parse the raw object into a Point.
+
+    Args:
+        raw_object: XML Element to be parsed to a Point
+
+    Returns:
+        Point: The Point object created from the raw object
+    """
+    return Point(**_parse_common(raw_object).__dict__)
+
+
+def _parse_polygon(raw_object: etree.Element) -> Polygon:
+    """Parse the raw object into a Polygon.
+
+    Args:
+        raw_object: XML Element to be parsed to a Polygon
+
+    Returns:
+        Polygon: The Polygon object created from the raw object
+    """
+    polygon = []
+    polygon_element = raw_object.find("./polygon")
+    if polygon_element is not None:
+        for raw_point in polygon_element.attrib["points"].split(" "):
+            point = raw_point.split(",")
+            polygon.append(OrderedPair(float(point[0]), float(point[1])))
+
+    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
+
+
+def _parse_polyline(raw_object: etree.Element) -> Polyline:
+    """Parse the raw object into a Polyline.
+
+    Args:
+        raw_object: Raw object to be parsed to a Polyline
+
+    Returns:
+        Polyline: The Polyline object created from the raw object
+    """
+    polyline = []
+    polyline_element = raw_object.find("./polyline")
+    if polyline_element is not None:
+        for raw_point in polyline_element.attrib["points"].split(" "):
+            point = raw_point.split(",")
+            polyline.append(OrderedPair(float(point[0]), float(point[1])))
+
+    return Polyline(points=polyline, **_parse_common(raw_object).__dict__)
+
+
+def _parse_tile(
+    raw_object: etree.Element,
+    new_tileset: Optional[etree.Element] = None,
+    new_tileset_path: Optional[Path] = None,
+) -> Tile:
+    """Parse the raw object into a Tile.
+
+    Args:
+        raw_object: XML Element to be parsed to a Tile
+
+    Returns:
+        Tile: The Tile object created from the raw object
+    """
+    return Tile(
+        gid=int(raw_object.attrib["gid"]),
+        new_tileset=new_tileset,
+        new_tileset_path=new_tileset_path,
+        **_parse_common(raw_object).__dict__,
+    )
+
+
+def _parse_text(raw_object: etree.Element) -> Text:
+    """Parse the raw object into Text.
+
+    Args:
+        raw_object: XML Element to be parsed to a Text
+
+    Returns:
+        Text: The Text object created from the raw object
+    """
+    # required attributes
+    text_element = raw_object.find("./text")
+
+    if text_element is not None:
+        text = text_element.text
+
+        if not text:
+            text = ""
+        # create base Text object
+        text_object = Text(text=text, **_parse_common(raw_object).__dict__)
+
+        # optional attributes
+
+        if text_element.attrib.get("color") is not None:
+            text_object.color = parse_color(text_element.attrib["color"])
+
+        if text_element.attrib.get("fontfamily") is not None:
+            text_object.font_family = text_element.attrib["fontfamily"]
+
+        if text_element.attrib.get("pixelsize") is not None:
+            text_object.font_size = float(text_element.attrib["pixelsize"])
+
+        if text_element.attrib.get("bold") is not None:
+            text_object.bold = bool(int(text_element.attrib["bold"]))
+
+        if text_element.attrib.get("italic") is not None:
+            text_object.italic = bool(int(text_element.attrib["italic"]))
+
+        if text_element.attrib.get("kerning") is not None:
+            text_object.kerning = bool(int(text_element.attrib["kerning"]))
+
+        if text_element.attrib.get("strikeout") is not None:
+            text_object.strike_out = bool(int(text_element.attrib["strikeout"]))
+
+        if text_element.attrib.get("underline") is not None:
+            text_object.underline = bool(int(text_element.attrib["underline"]))
+
+        if text_element.attrib.get("halign") is not None:
+            text_object.horizontal_align = text_element.attrib["halign"]
+
+        if text_element.attrib.get("valign") is not None:
+            text_object.vertical_align = text_element.attrib["valign"]
+
+        if text_element.attrib.get("wrap") is not None:
+            text_object.wrap = bool(int(text_element.attrib["wrap"]))
+
+    return text_object
+
+
+def _get_parser(raw_object: etree.Element) -> Callable[[etree.Element], TiledObject]:
+    """Get the parser function for a given raw object.
+
+    Only used internally by the TMX parser.
+
+    Args:
+        raw_object: XML Element that is analyzed to determine the parser function.
+
+    Returns:
+        Callable[[Element], Object]: The parser function.
+    """
+    if raw_object.find("./ellipse") is not None:
+        return _parse_ellipse
+
+    if raw_object.find("./point") is not None:
+        return _parse_point
+
+    if raw_object.find("./polygon") is not None:
+        return _parse_polygon
+
+    if raw_object.find("./polyline") is not None:
+        return _parse_polyline
+
+    if raw_object.find("./text") is not None:
+        return _parse_text
+
+    # If it's none of the above, rectangle is the only one left.
+    # Rectangle is the only object which has no properties to signify that.
+    return _parse_rectangle
+
+
+def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> TiledObject:
+    """Parse the raw object into a pytiled_parser version
+
+    Args:
+        raw_object: XML Element that is to be parsed.
+        parent_dir: The parent directory that the map file is in.
+
+    Returns:
+        TiledObject: A parsed Object.
+
+    Raises:
+        RuntimeError: When a parameter that is conditionally required was not sent.
+    """
+    new_tileset = None
+    new_tileset_path = None
+
+    if raw_object.attrib.get("template"):
+        if not parent_dir:
+            raise RuntimeError(
+                "A parent directory must be specified when using object templates."
+            )
+        template_path = Path(parent_dir / raw_object.attrib["template"])
+        template, new_tileset, new_tileset_path = load_object_template(template_path)
+
+        if isinstance(template, etree.Element):
+            new_object = template.find("./object")
+            if new_object is not None:
+                for key, val in raw_object.attrib.items():
+                    if key == "template":
+                        continue
+                    new_object.attrib[key] = val
+
+                for child in raw_object:
+                    inherited = new_object.find(child.tag)
+                    if inherited is None:
+                        new_object.append(child)
+                    elif child.tag == "properties":
+                        # later properties of the same name win
+                        inherited.extend(child)
+                    else:
+                        new_object.remove(inherited)
+                        new_object.append(child)
+
+                raw_object = new_object
+        elif isinstance(template, dict):
+            # load the JSON object into the XML object
+            raise NotImplementedError(
+                "Loading JSON object templates inside a TMX map is currently not supported, "
+                "but will be in a future release."
+            )
+
+    if raw_object.attrib.get("gid"):
+        return _parse_tile(raw_object, new_tileset, new_tileset_path)
+
+    return _get_parser(raw_object)(raw_object)
-- 
2.43.0


From 1a0ff5d3ae7c4484b085dd28769cf510d0904468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 08/28] fix: template tilesets of objects inside layer groups
 are not resolved

---
 pytiled_parser/parsers/json/tiled_map.py | 24 ++++++++++++++++++++---
 pytiled_parser/parsers/tmx/tiled_map.py  | 25 +++++++++++++++++++++---
 2 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index a5113f5..ad93764 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -7,6 +7,7 @@ from typing_extensions import TypedDict
 
 from pytiled_parser.common_types import OrderedPair, Size
 from pytiled_parser.exception import UnknownFormat
+from pytiled_parser.layer import Layer, LayerGroup, ObjectLayer
 from pytiled_parser.parsers.json.layer import RawLayer
 from pytiled_parser.parsers.json.layer import parse as parse_layer
 from pytiled_parser.parsers.json.properties import RawProperty
@@ -55,6 +56,25 @@ RawTiledMap.__doc__ = """
 """
 
 
+def _find_object_layers(layers: List[Layer]) -> List[ObjectLayer]:
+    """Collect the object layers of a map, including those nested in groups.
+
+    Args:
+        layers: The layers to search.
+
+    Returns:
+        List[ObjectLayer]: All object layers, in document order.
+    """
+    object_layers: List[ObjectLayer] = []
+    for layer in layers:
+        if isinstance(layer, ObjectLayer):
+            object_layers.append(layer)
+        elif isinstance(layer, LayerGroup):
+            object_layers.extend(_find_object_layers(layer.layers or []))
+
+    return object_layers
+
+
 def parse(file: Path) -> TiledMap:
     """Parse the raw Tiled map into a pytiled_parser type.
 
@@ -125,9 +145,7 @@ def parse(file: Path) -> TiledMap:
         version=version,
     )
 
-    layers = [layer for layer in map_.layers if hasattr(layer, "tiled_objects")]
-
-    for my_layer in layers:
+    for my_layer in _find_object_layers(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
         # to just not care about any of the problems in here.
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index aa246f5..293b052 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -1,9 +1,11 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
+from typing import List
 
 from pytiled_parser.common_types import OrderedPair, Size
 from pytiled_parser.exception import UnknownFormat
+from pytiled_parser.layer import Layer, LayerGroup, ObjectLayer
 from pytiled_parser.parsers.json.tileset import parse as parse_json_tileset
 from pytiled_parser.parsers.tmx.layer import parse as parse_layer
 from pytiled_parser.parsers.tmx.properties import parse as parse_properties
@@ -12,6 +14,25 @@ from pytiled_parser.tiled_map import TiledMap, TilesetDict
 from pytiled_parser.util import check_format, parse_color
 
 
+def _find_object_layers(layers: List[Layer]) -> List[ObjectLayer]:
+    """Collect the object layers of a map, including those nested in groups.
+
+    Args:
+        layers: The layers to search.
+
+    Returns:
+        List[ObjectLayer]: All object layers, in document order.
+    """
+    object_layers: List[ObjectLayer] = []
+    for layer in layers:
+        if isinstance(layer, ObjectLayer):
+            object_layers.append(layer)
+        elif isinstance(layer, LayerGroup):
+            object_layers.extend(_find_object_layers(layer.layers or []))
+
+    return object_layers
+
+
 def parse(file: Path) -> TiledMap:
     """Parse the raw Tiled map into a pytiled_parser type.
 
@@ -81,9 +102,7 @@ def parse(file: Path) -> TiledMap:
         version=raw_map.attrib["version"],
     )
 
-    layers = [layer for layer in map_.layers if hasattr(layer, "tiled_objects")]
-
-    for my_layer in layers:
+    for my_layer in _find_object_layers(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
         # to just not care about any of the problems in here.
-- 
2.43.0


From 9db0ea12d304ef89cdd8b0c6a092a9648277c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 09/28] fix: template tilesets of the other format raise a
 TypeError

---
 pytiled_parser/parsers/json/tiled_map.py | 12 ++++++++++--
 pytiled_parser/parsers/tmx/tiled_map.py  | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index ad93764..7442cd7 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -162,9 +162,17 @@ def parse(file: Path) -> TiledMap:
         for tiled_object in my_layer.tiled_objects:  # type: ignore
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
+                    # A template's tileset may be in either format
+                    if isinstance(tiled_object.new_tileset, dict):
+                        parse_new_tileset = parse_json_tileset
+                        new_tileset_name = tiled_object.new_tileset["name"]
+                    else:
+                        parse_new_tileset = parse_tmx_tileset
+                        new_tileset_name = tiled_object.new_tileset.attrib["name"]
+
                     already_loaded = None
                     for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset["name"]:
+                        if val.name == new_tileset_name:
                             already_loaded = val
                             break
 
@@ -172,7 +180,7 @@ def parse(file: Path) -> TiledMap:
                         highest_firstgid = max(map_.tilesets.keys())
                         last_tileset_count = map_.tilesets[highest_firstgid].tile_count
                         new_firstgid = highest_firstgid + last_tileset_count
-                        map_.tilesets[new_firstgid] = parse_json_tileset(
+                        map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
                             tiled_object.new_tileset_path,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 293b052..e3bcfb4 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -119,9 +119,17 @@ def parse(file: Path) -> TiledMap:
         for tiled_object in my_layer.tiled_objects:  # type: ignore
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
+                    # A template's tileset may be in either format
+                    if isinstance(tiled_object.new_tileset, dict):
+                        parse_new_tileset = parse_json_tileset
+                        new_tileset_name = tiled_object.new_tileset["name"]
+                    else:
+                        parse_new_tileset = parse_tmx_tileset
+                        new_tileset_name = tiled_object.new_tileset.attrib["name"]
+
                     already_loaded = None
                     for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset.attrib["name"]:
+                        if val.name == new_tileset_name:
                             already_loaded = val
                             break
 
@@ -129,7 +137,7 @@ def parse(file: Path) -> TiledMap:
                         highest_firstgid = max(map_.tilesets.keys())
                         last_tileset_count = map_.tilesets[highest_firstgid].tile_count
                         new_firstgid = highest_firstgid + last_tileset_count
-                        map_.tilesets[new_firstgid] = parse_tmx_tileset(
+                        map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
                             tiled_object.new_tileset_path,
-- 
2.43.0


From 03b462184c52c035488db02eeb7a8c66e228ac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:46 +0000
Subject: [PATCH 10/28] fix: a template tileset cannot be added to a map
 without tilesets

---
 pytiled_parser/parsers/json/tiled_map.py | 11 ++++++++---
 pytiled_parser/parsers/tmx/tiled_map.py  | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 7442cd7..0900449 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -177,9 +177,14 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        highest_firstgid = max(map_.tilesets.keys())
-                        last_tileset_count = map_.tilesets[highest_firstgid].tile_count
-                        new_firstgid = highest_firstgid + last_tileset_count
+                        if map_.tilesets:
+                            highest_firstgid = max(map_.tilesets.keys())
+                            last_tileset_count = map_.tilesets[
+                                highest_firstgid
+                            ].tile_count
+                            new_firstgid = highest_firstgid + last_tileset_count
+                        else:
+                            new_firstgid = 1
                         map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index e3bcfb4..7c9d0ca 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -134,9 +134,14 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        highest_firstgid = max(map_.tilesets.keys())
-                        last_tileset_count = map_.tilesets[highest_firstgid].tile_count
-                        new_firstgid = highest_firstgid + last_tileset_count
+                        if map_.tilesets:
+                            highest_firstgid = max(map_.tilesets.keys())
+                            last_tileset_count = map_.tilesets[
+                                highest_firstgid
+                            ].tile_count
+                            new_firstgid = highest_firstgid + last_tileset_count
+                        else:
+                            new_firstgid = 1
                         map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
-- 
2.43.0


From c459bbe14d5ddaaf57329632489024ea86e723ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:47 +0000
Subject: [PATCH 11/28] fix: text files are decoded with the locale's encoding

---
 pytiled_parser/parser.py                 | 154 +++++++++++------------
 pytiled_parser/parsers/json/tiled_map.py |   4 +-
 pytiled_parser/parsers/tmx/tiled_map.py  |   4 +-
 pytiled_parser/util.py                   |   8 +-
 pytiled_parser/world.py                  |   2 +-
 5 files changed, 86 insertions(+), 86 deletions(-)

diff --git a/pytiled_parser/parser.py b/pytiled_parser/parser.py
index 22918ec..121b6fb 100644
--- a/pytiled_parser/parser.py
+++ b/pytiled_parser/parser.py
@@ -1,77 +1,77 @@
-import json
-import xml.etree.ElementTree as etree
-from pathlib import Path
-
-from pytiled_parser import UnknownFormat
-from pytiled_parser.parsers.json.tiled_map import parse as json_map_parse
-from pytiled_parser.parsers.json.tileset import parse as json_tileset_parse
-from pytiled_parser.parsers.tmx.tiled_map import parse as tmx_map_parse
-from pytiled_parser.parsers.tmx.tileset import parse as tmx_tileset_parse
-from pytiled_parser.tiled_map import TiledMap
-from pytiled_parser.tileset import Tileset
-from pytiled_parser.util import check_format
-from pytiled_parser.world import World
-from pytiled_parser.world import parse_world as _parse_world
-
-
-def parse_map(file: Path) -> TiledMap:
-    """Parse the raw Tiled map into a pytiled_parser type
-
-    Args:
-        file: Path to the map file
-
-    Returns:
-        TiledMap: A parsed and typed TiledMap
-    """
-    parser = check_format(file)
-
-    # The type ignores are because mypy for some reason thinks those functions return Any
-    if parser == "tmx":
-        return tmx_map_parse(file)  # type: ignore
-    else:
-        try:
-            return json_map_parse(file)  # type: ignore
-        except ValueError:
-            raise UnknownFormat(
-                "Unknown Map Format, please use either the TMX or JSON format. "
-                "This message could also mean your map file is invalid or corrupted."
-            )
-
-
-def parse_tileset(file: Path) -> Tileset:
-    """Parse the raw Tiled Tileset into a pytiled_parser type
-
-    Args:
-        file: Path to the map file
-
-    Returns:
-        Tileset: A parsed and typed Tileset
-    """
-    parser = check_format(file)
-
-    if parser == "tmx":
-        with open(file) as map_file:
-            raw_tileset = etree.parse(map_file).getroot()
-        return tmx_tileset_parse(raw_tileset, 1)
-    else:
-        try:
-            with open(file) as my_file:
-                raw_tileset = json.load(my_file)
-            return json_tileset_parse(raw_tileset, 1)
-        except ValueError:
-            raise UnknownFormat(
-                "Unknowm Tileset Format, please use either the TSX or JSON format. "
-                "This message could also mean your tileset file is invalid or corrupted."
-            )
-
-
-def parse_world(file: Path) -> World:
-    """Parse the raw world file into a pytiled_parser type
-
-    Args:
-        file: Path to the world file
-
-    Returns:
-        World: A parsed and typed World
-    """
-    return _parse_world(file)
+import json
+import xml.etree.ElementTree as etree
+from pathlib import Path
+
+from pytiled_parser import UnknownFormat
+from pytiled_parser.parsers.json.tiled_map import parse as json_map_parse
+from pytiled_parser.parsers.json.tileset import parse as json_tileset_parse
+from pytiled_parser.parsers.tmx.tiled_map import parse as tmx_map_parse
+from pytiled_parser.parsers.tmx.tileset import parse as tmx_tileset_parse
+from pytiled_parser.tiled_map import TiledMap
+from pytiled_parser.tileset import Tileset
+from pytiled_parser.util import check_format
+from pytiled_parser.world import World
+from pytiled_parser.world import parse_world as _parse_world
+
+
+def parse_map(file: Path) -> TiledMap:
+    """Parse the raw Tiled map into a pytiled_parser type
+
+    Args:
+        file: Path to the map file
+
+    Returns:
+        TiledMap: A parsed and typed TiledMap
+    """
+    parser = check_format(file)
+
+    # The type ignores are because mypy for some reason thinks those functions return Any
+    if parser == "tmx":
+        return tmx_map_parse(file)  # type: ignore
+    else:
+        try:
+            return json_map_parse(file)  # type: ignore
+        except ValueError:
+            raise UnknownFormat(
+                "Unknown Map Format, please use either the TMX or JSON format. "
+                "This message could also mean your map file is invalid or corrupted."
+            )
+
+
+def parse_tileset(file: Path) -> Tileset:
+    """Parse the raw Tiled Tileset into a pytiled_parser type
+
+    Args:
+        file: Path to the map file
+
+    Returns:
+        Tileset: A parsed and typed Tileset
+    """
+    parser = check_format(file)
+
+    if parser == "tmx":
+        with open(file, encoding="utf-8") as map_file:
+            raw_tileset = etree.parse(map_file).getroot()
+        return tmx_tileset_parse(raw_tileset, 1)
+    else:
+        try:
+            with open(file, encoding="utf-8") as my_file:
+                raw_tileset = json.load(my_file)
+            return json_tileset_parse(raw_tileset, 1)
+        except ValueError:
+            raise UnknownFormat(
+                "Unknowm Tileset Format, please use either the TSX or JSON format. "
+                "This message could also mean your tileset file is invalid or corrupted."
+            )
+
+
+def parse_world(file: Path) -> World:
+    """Parse the raw world file into a pytiled_parser type
+
+    Args:
+        file: Path to the world file
+
+    Returns:
+        World: A parsed and typed World
+    """
+    return _parse_world(file)
diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 0900449..813c335 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -84,7 +84,7 @@ def parse(file: Path) -> TiledMap:
     Returns:
         TiledMap: A parsed TiledMap.
     """
-    with open(file) as map_file:
+    with open(file, encoding="utf-8") as map_file:
         raw_tiled_map = json.load(map_file)
 
     parent_dir = file.parent
@@ -97,7 +97,7 @@ def parse(file: Path) -> TiledMap:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset["source"])
             parser = check_format(tileset_path)
-            with open(tileset_path) as raw_tileset_file:
+            with open(tileset_path, encoding="utf-8") as raw_tileset_file:
                 if parser == "tmx":
                     raw_tileset_external = etree.parse(raw_tileset_file).getroot()
                     tilesets[raw_tileset["firstgid"]] = parse_tmx_tileset(
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 7c9d0ca..a038a3b 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -42,7 +42,7 @@ def parse(file: Path) -> TiledMap:
     Returns:
         TiledMap: A parsed TiledMap.
     """
-    with open(file) as map_file:
+    with open(file, encoding="utf-8") as map_file:
         raw_map = etree.parse(map_file).getroot()
 
     parent_dir = file.parent
@@ -55,7 +55,7 @@ def parse(file: Path) -> TiledMap:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
             parser = check_format(tileset_path)
-            with open(tileset_path) as tileset_file:
+            with open(tileset_path, encoding="utf-8") as tileset_file:
                 if parser == "tmx":
                     raw_tileset_external = etree.parse(tileset_file).getroot()
                     tilesets[int(raw_tileset.attrib["firstgid"])] = parse_tmx_tileset(
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 45de44e..55851ed 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -37,7 +37,7 @@ def parse_color(color: str) -> Color:
 
 
 def check_format(file_path: Path) -> str:
-    with open(file_path) as file:
+    with open(file_path, encoding="utf-8") as file:
         line = file.readline().rstrip().strip()
         if line[0] == "<":
             return "tmx"
@@ -52,7 +52,7 @@ def load_object_template(file_path: Path) -> Any:
     new_tileset_path = None
 
     if template_format == "tmx":
-        with open(file_path) as template_file:
+        with open(file_path, encoding="utf-8") as template_file:
             template = etree.parse(template_file).getroot()
 
             tileset_element = template.find("./tileset")
@@ -61,7 +61,7 @@ def load_object_template(file_path: Path) -> Any:
                 new_tileset = load_object_tileset(tileset_path)
                 new_tileset_path = tileset_path.parent
     else:
-        with open(file_path) as template_file:
+        with open(file_path, encoding="utf-8") as template_file:
             template = json.load(template_file)
             if "tileset" in template:
                 tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
@@ -76,7 +76,7 @@ def load_object_tileset(file_path: Path) -> Any:
 
     new_tileset = None
 
-    with open(file_path) as tileset_file:
+    with open(file_path, encoding="utf-8") as tileset_file:
         if tileset_format == "tmx":
             new_tileset = etree.parse(tileset_file).getroot()
         else:
diff --git a/pytiled_parser/world.py b/pytiled_parser/world.py
index 67214a6..a6ef88d 100644
--- a/pytiled_parser/world.py
+++ b/pytiled_parser/world.py
@@ -110,7 +110,7 @@ def parse_world(file: Path) -> World:
         World: A properly parsed [World][pytiled_parser.world.World]
     """
 
-    with open(file) as world_file:
+    with open(file, encoding="utf-8") as world_file:
         raw_world = json.load(world_file)
 
     parent_dir = file.parent
-- 
2.43.0


From 16272ea2f9f4dfbd847d32d69f375973e7984953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:48 +0000
Subject: [PATCH 12/28] fix: an XML object with only a width or only a height
 fails to parse

---
 pytiled_parser/parsers/tmx/tiled_object.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 7fd24d0..94f8851 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -34,10 +34,10 @@ def _parse_common(raw_object: etree.Element) -> TiledObject:
         ),
     )
 
-    if raw_object.attrib.get("width") is not None:
-        common.size = Size(
-            float(raw_object.attrib["width"]), float(raw_object.attrib["height"])
-        )
+    common.size = Size(
+        float(raw_object.attrib.get("width", 0)),
+        float(raw_object.attrib.get("height", 0)),
+    )
 
     if raw_object.attrib.get("visible") is not None:
         common.visible = bool(int(raw_object.attrib["visible"]))
-- 
2.43.0


From 7ff16c93af5391a48d9a8651b1241d95a66a7829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 13/28] fix: a layer with only one of offsetx and offsety fails
 to parse or loses it

---
 pytiled_parser/parsers/json/layer.py | 5 +++--
 pytiled_parser/parsers/tmx/layer.py  | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 5f8208e..05db14c 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -228,8 +228,9 @@ def _parse_common(raw_layer: RawLayer) -> Layer:
     if raw_layer.get("width") is not None:
         common.size = Size(raw_layer["width"], raw_layer["height"])
 
-    if raw_layer.get("offsetx") is not None:
-        common.offset = OrderedPair(raw_layer["offsetx"], raw_layer["offsety"])
+    common.offset = OrderedPair(
+        raw_layer.get("offsetx", 0), raw_layer.get("offsety", 0)
+    )
 
     if raw_layer.get("properties") is not None:
         common.properties = parse_properties(raw_layer["properties"])
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index c5fee21..85d30d3 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -170,10 +170,10 @@ def _parse_common(raw_layer: etree.Element) -> Layer:
     if raw_layer.attrib.get("id") is not None:
         common.id = int(raw_layer.attrib["id"])
 
-    if raw_layer.attrib.get("offsetx") is not None:
-        common.offset = OrderedPair(
-            float(raw_layer.attrib["offsetx"]), float(raw_layer.attrib["offsety"])
-        )
+    common.offset = OrderedPair(
+        float(raw_layer.attrib.get("offsetx", 0)),
+        float(raw_layer.attrib.get("offsety", 0)),
+    )
 
     properties_element = raw_layer.find("./properties")
     if properties_element is not None:
-- 
2.43.0


From 54c235d9fea874745135c992207af6a0f440801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:51 +0000
Subject: [PATCH 14/28] fix: multi-line string properties of TMX files are
 dropped

---
 pytiled_parser/parsers/tmx/properties.py | 73 ++++++++++++------------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index 1b20e3d..25f9997 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -1,35 +1,38 @@
-import xml.etree.ElementTree as etree
-from pathlib import Path
-
-from pytiled_parser.properties import Properties, Property
-from pytiled_parser.util import parse_color
-
-
-def parse(raw_properties: etree.Element) -> Properties:
-    final: Properties = {}
-    value: Property
-
-    for raw_property in raw_properties.findall("property"):
-        type_ = raw_property.attrib.get("type")
-
-        if "value" not in raw_property.attrib:
-            continue
-
-        value_ = raw_property.attrib["value"]
-
-        if type_ == "file":
-            value = Path(value_)
-        elif type_ == "color":
-            value = parse_color(value_)
-        elif type_ == "int" or type_ == "float":
-            value = float(value_)
-        elif type_ == "bool":
-            if value_ == "true":
-                value = True
-            else:
-                value = False
-        else:
-            value = value_
-        final[raw_property.attrib["name"]] = value
-
-    return final
+import xml.etree.ElementTree as etree
+from pathlib import Path
+
+from pytiled_parser.properties import Properties, Property
+from pytiled_parser.util import parse_color
+
+
+def parse(raw_properties: etree.Element) -> Properties:
+    final: Properties = {}
+    value: Property
+
+    for raw_property in raw_properties.findall("property"):
+        type_ = raw_property.attrib.get("type")
+
+        if "value" in raw_property.attrib:
+            value_ = raw_property.attrib["value"]
+        elif type_ in (None, "string") and raw_property.text is not None:
+            # Strings spanning multiple lines are stored as the element's text
+            value_ = raw_property.text
+        else:
+            continue
+
+        if type_ == "file":
+            value = Path(value_)
+        elif type_ == "color":
+            value = parse_color(value_)
+        elif type_ == "int" or type_ == "float":
+            value = float(value_)
+        elif type_ == "bool":
+            if value_ == "true":
+                value = True
+            else:
+                value = False
+        else:
+            value = value_
+        final[raw_property.attrib["name"]] = value
+
+    return final
-- 
2.43.0


From 67cddc6a7d58d11592596548f5f773f255fdffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:53 +0000
Subject: [PATCH 15/28] fix: object properties of TMX files come back as text

---
 pytiled_parser/parsers/tmx/properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index 25f9997..f974506 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -26,6 +26,8 @@ def parse(raw_properties: etree.Element) -> Properties:
             value = parse_color(value_)
         elif type_ == "int" or type_ == "float":
             value = float(value_)
+        elif type_ == "object":
+            value = int(value_)
         elif type_ == "bool":
             if value_ == "true":
                 value = True
-- 
2.43.0


From 3434392ec272aa796e0beb672e5e7304c8886d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 16/28] fix: a whole-number version in a JSON file comes back
 as a number

---
 pytiled_parser/parsers/json/tiled_map.py | 2 +-
 pytiled_parser/parsers/json/tileset.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 813c335..8e70fc5 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -124,7 +124,7 @@ def parse(file: Path) -> TiledMap:
                 raw_tileset, raw_tileset["firstgid"]
             )
 
-    if isinstance(raw_tiled_map["version"], float):  # pragma: no cover
+    if isinstance(raw_tiled_map["version"], (int, float)):  # pragma: no cover
         version = str(raw_tiled_map["version"])
     else:
         version = raw_tiled_map["version"]
diff --git a/pytiled_parser/parsers/json/tileset.py b/pytiled_parser/parsers/json/tileset.py
index cbbc51d..c15b39e 100644
--- a/pytiled_parser/parsers/json/tileset.py
+++ b/pytiled_parser/parsers/json/tileset.py
@@ -260,7 +260,7 @@ def parse(
         # to keep old versions in the test data and not update them with the
         # rest so I'm excluding this from coverage. In reality it's probably
         # not needed. Tiled hasn't been using floats for the version for a long time
-        if isinstance(raw_tileset["version"], float):  # pragma: no cover
+        if isinstance(raw_tileset["version"], (int, float)):  # pragma: no cover
             tileset.version = str(raw_tileset["version"])
         else:
             tileset.version = raw_tileset["version"]
-- 
2.43.0


From dc2d7bddbfbd6864809645ba59cbc04e0477dee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:56 +0000
Subject: [PATCH 17/28] fix: an empty file fails with an IndexError

---
 pytiled_parser/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 55851ed..3d45554 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -39,7 +39,7 @@ def parse_color(color: str) -> Color:
 def check_format(file_path: Path) -> str:
     with open(file_path, encoding="utf-8") as file:
         line = file.readline().rstrip().strip()
-        if line[0] == "<":
+        if line.startswith("<"):
             return "tmx"
         else:
             return "json"
-- 
2.43.0


From 0152ed7c9f8844e3700bf783fd60215e2e9d7595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 18/28] fix: XML elements are tested for truth instead of
 presence

---
 pytiled_parser/parsers/tmx/tiled_map.py    | 2 +-
 pytiled_parser/parsers/tmx/tiled_object.py | 2 +-
 pytiled_parser/parsers/tmx/wang_set.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index a038a3b..f08e771 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -164,7 +164,7 @@ def parse(file: Path) -> TiledMap:
         map_.hex_side_length = int(raw_map.attrib["hexsidelength"])
 
     properties_element = raw_map.find("./properties")
-    if properties_element:
+    if properties_element is not None:
         map_.properties = parse_properties(properties_element)
 
     if raw_map.attrib.get("staggeraxis") is not None:
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 94f8851..fec8eea 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -55,7 +55,7 @@ def _parse_common(raw_object: etree.Element) -> TiledObject:
         common.class_ = raw_object.attrib["class"]
 
     properties_element = raw_object.find("./properties")
-    if properties_element:
+    if properties_element is not None:
         common.properties = parse_properties(properties_element)
 
     return common
diff --git a/pytiled_parser/parsers/tmx/wang_set.py b/pytiled_parser/parsers/tmx/wang_set.py
index 0789cb1..3401311 100644
--- a/pytiled_parser/parsers/tmx/wang_set.py
+++ b/pytiled_parser/parsers/tmx/wang_set.py
@@ -38,7 +38,7 @@ def _parse_wang_color(raw_wang_color: etree.Element) -> WangColor:
         wang_color.class_ = raw_wang_color.attrib["class"]
 
     properties = raw_wang_color.find("./properties")
-    if properties:
+    if properties is not None:
         wang_color.properties = parse_properties(properties)
 
     return wang_color
@@ -74,7 +74,7 @@ def parse(raw_wangset: etree.Element) -> WangSet:
         wangset.class_ = raw_wangset.attrib["class"]
 
     properties = raw_wangset.find("./properties")
-    if properties:
+    if properties is not None:
         wangset.properties = parse_properties(properties)
 
     return wangset
-- 
2.43.0


From d130c646e4168aba6aa29bca9ee691c68e10309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 19/28] fix: JSON tile layers with an explicit CSV encoding or
 no compression fail to parse

---
 pytiled_parser/parsers/json/layer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 05db14c..ea0beba 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -274,18 +274,22 @@ def _parse_tile_layer(raw_layer: RawLayer) -> TileLayer:
     if raw_layer.get("chunks") is not None:
         tile_layer.chunks = []
         for chunk in raw_layer["chunks"]:
-            if raw_layer.get("encoding") is not None:
+            if raw_layer.get("encoding", "csv") != "csv":
                 tile_layer.chunks.append(
-                    _parse_chunk(chunk, raw_layer["encoding"], raw_layer["compression"])
+                    _parse_chunk(
+                        chunk,
+                        raw_layer["encoding"],
+                        raw_layer.get("compression", ""),
+                    )
                 )
             else:
                 tile_layer.chunks.append(_parse_chunk(chunk))
 
     if raw_layer.get("data") is not None:
-        if raw_layer.get("encoding") is not None:
+        if raw_layer.get("encoding", "csv") != "csv":
             tile_layer.data = _decode_tile_layer_data(
                 data=cast(str, raw_layer["data"]),
-                compression=raw_layer["compression"],
+                compression=raw_layer.get("compression", ""),
                 layer_width=raw_layer["width"],
             )
         else:
-- 
2.43.0


From 29e149abd0c73e62a9fc346cc11c673dba909872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 20/28] fix: TMX images without a width or height fail to parse

---
 pytiled_parser/parsers/tmx/tileset.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tileset.py b/pytiled_parser/parsers/tmx/tileset.py
index 5d788af..e288097 100644
--- a/pytiled_parser/parsers/tmx/tileset.py
+++ b/pytiled_parser/parsers/tmx/tileset.py
@@ -106,10 +106,13 @@ def _parse_tile(raw_tile: etree.Element, external_path: Optional[Path] = None) -
         else:
             tile.image = Path(image_element.attrib["source"])
 
-        tile.image_width = int(image_element.attrib["width"])
-        tile.width = tile.image_width
-        tile.image_height = int(image_element.attrib["height"])
-        tile.height = tile.image_height
+        if image_element.attrib.get("width") is not None:
+            tile.image_width = int(image_element.attrib["width"])
+            tile.width = tile.image_width
+
+        if image_element.attrib.get("height") is not None:
+            tile.image_height = int(image_element.attrib["height"])
+            tile.height = tile.image_height
 
     if raw_tile.attrib.get("x") is not None:
         tile.x = int(raw_tile.attrib["x"])
@@ -178,8 +181,11 @@ def parse(
         else:
             tileset.image = Path(image_element.attrib["source"])
 
-        tileset.image_width = int(image_element.attrib["width"])
-        tileset.image_height = int(image_element.attrib["height"])
+        if image_element.attrib.get("width") is not None:
+            tileset.image_width = int(image_element.attrib["width"])
+
+        if image_element.attrib.get("height") is not None:
+            tileset.image_height = int(image_element.attrib["height"])
 
         if image_element.attrib.get("trans") is not None:
             my_string = image_element.attrib["trans"]
-- 
2.43.0


From 00e452501cd6eb71ef99ceb5a501fd66e95a0f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 21/28] fix: tile data with an unsupported compression is
 silently misread

---
 pytiled_parser/parsers/json/layer.py | 2 ++
 pytiled_parser/parsers/tmx/layer.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index ea0beba..869101d 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -144,6 +144,8 @@ def _decode_tile_layer_data(
     # See above note at top of module about zstd tests
     elif compression == "zstd":  # pragma: no cover
         unzipped_data = zstd.decompress(unencoded_data)
+    elif compression:
+        raise ValueError(f"Unsupported tile layer compression: {compression}")
     else:
         unzipped_data = unencoded_data
 
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 85d30d3..ff04909 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -89,6 +89,8 @@ def _decode_tile_layer_data(
     # See above note at top of module about zstd tests
     elif compression == "zstd":  # pragma: no cover
         unzipped_data = zstd.decompress(unencoded_data)
+    elif compression:
+        raise ValueError(f"Unsupported tile layer compression: {compression}")
     else:
         unzipped_data = unencoded_data
 
-- 
2.43.0


From 8243bff37f80d83a82346b1f6257992c3f7ca514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 22/28] fix: color text with seven or nine digits loses its
 first digit

---
 pytiled_parser/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 3d45554..5810567 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -17,8 +17,7 @@ def parse_color(color: str) -> Color:
     Returns:
         :Color: Color object in the format that PyTiled understands.
     """
-    # the actual part we care about is always an even number
-    if len(color) % 2:
+    if color.startswith("#"):
         # strip initial '#' character
         color = color[1:]
 
-- 
2.43.0


From 0cbb52b83c42316cc2d35ce4f51fb8fab299086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 23/28] fix: class of a template overrides the type of its
 instance

---
 pytiled_parser/parsers/json/tiled_object.py | 3 +++
 pytiled_parser/parsers/tmx/tiled_object.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 32ed822..83f2030 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -317,6 +317,9 @@ def parse(
 
         if isinstance(template, dict):
             loaded_template = template["object"]
+            if "type" in raw_object:
+                # "type" is the older name of "class"
+                loaded_template.pop("class", None)
             for key in loaded_template:
                 if key == "id":
                     continue
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index fec8eea..d6fa1f8 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -275,6 +275,9 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
                 for key, val in raw_object.attrib.items():
                     if key == "template":
                         continue
+                    if key == "type" and "class" not in raw_object.attrib:
+                        # "type" is the older name of "class"
+                        new_object.attrib.pop("class", None)
                     new_object.attrib[key] = val
 
                 for child in raw_object:
-- 
2.43.0


From f37d4a3afd90dfa05f36740f11dbf655791027f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 24/28] fix: infinite TMX map with a tile layer without tiles
 fails to parse

---
 pytiled_parser/parsers/tmx/layer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index ff04909..78129cc 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -233,7 +233,8 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
             compression = data_element.attrib["compression"]
 
         raw_chunks = data_element.findall("chunk")
-        if not raw_chunks:
+        # an infinite map has no data at all for a layer without any tiles
+        if not raw_chunks and (data_element.text or "").strip():
             if encoding and encoding != "csv":
                 tile_layer.data = _decode_tile_layer_data(
                     data=data_element.text,  # type: ignore
@@ -256,8 +257,7 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
                     )
                 )
 
-            if chunks:
-                tile_layer.chunks = chunks
+            tile_layer.chunks = chunks
 
     return tile_layer
 
-- 
2.43.0


From 41737df04203655f63c02de082a1fb53ba0689e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 25/28] fix: gid stated by a template instance is re-based as
 if it were the template's

---
 pytiled_parser/parsers/json/tiled_object.py | 4 ++++
 pytiled_parser/parsers/tmx/tiled_object.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 83f2030..e58d9a9 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -314,6 +314,10 @@ def parse(
             )
         template_path = Path(parent_dir / raw_object["template"])
         template, new_tileset, new_tileset_path = load_object_template(template_path)
+        if raw_object.get("gid"):
+            # a gid of the instance itself refers to the tilesets of the map
+            new_tileset = None
+            new_tileset_path = None
 
         if isinstance(template, dict):
             loaded_template = template["object"]
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index d6fa1f8..dba94b1 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -268,6 +268,10 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
             )
         template_path = Path(parent_dir / raw_object.attrib["template"])
         template, new_tileset, new_tileset_path = load_object_template(template_path)
+        if raw_object.attrib.get("gid"):
+            # a gid of the instance itself refers to the tilesets of the map
+            new_tileset = None
+            new_tileset_path = None
 
         if isinstance(template, etree.Element):
             new_object = template.find("./object")
-- 
2.43.0


From 241bbc0495f16a5486990048efa7c9ce183c56ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 26/28] fix: restore the CRLF line endings that earlier fixes
 of these files converted

---
 pytiled_parser/parser.py                    | 154 ++---
 pytiled_parser/parsers/json/tiled_object.py | 688 ++++++++++----------
 pytiled_parser/parsers/tmx/properties.py    |  80 +--
 pytiled_parser/parsers/tmx/tiled_object.py  | 618 +++++++++---------
 4 files changed, 770 insertions(+), 770 deletions(-)

diff --git a/pytiled_parser/parser.py b/pytiled_parser/parser.py
index 121b6fb..05ffb1d 100644
--- a/pytiled_parser/parser.py
+++ b/pytiled_parser/parser.py
@@ -1,77 +1,77 @@
-import json
-import xml.etree.ElementTree as etree
-from pathlib import Path
-
-from pytiled_parser import UnknownFormat
-from pytiled_parser.parsers.json.tiled_map import parse as json_map_parse
-from pytiled_parser.parsers.json.tileset import parse as json_tileset_parse
-from pytiled_parser.parsers.tmx.tiled_map import parse as tmx_map_parse
-from pytiled_parser.parsers.tmx.tileset import parse as tmx_tileset_parse
-from pytiled_parser.tiled_map import TiledMap
-from pytiled_parser.tileset import Tileset
-from pytiled_parser.util import check_format
-from pytiled_parser.world import World
-from pytiled_parser.world import parse_world as _parse_world
-
-
-def parse_map(file: Path) -> TiledMap:
-    """Parse the raw Tiled map into a pytiled_parser type
-
-    Args:
-        file: Path to the map file
-
-    Returns:
-        TiledMap: A parsed and typed TiledMap
-    """
-    parser = check_format(file)
-
-    # The type ignores are because mypy for some reason thinks those functions return Any
-    if parser == "tmx":
-        return tmx_map_parse(file)  # type: ignore
-    else:
-        try:
-            return json_map_parse(file)  # type: ignore
-        except ValueError:
-            raise UnknownFormat(
-                "Unknown Map Format, please use either the TMX or JSON format. "
-                "This message could also mean your map file is invalid or corrupted."
-            )
-
-
-def parse_tileset(file: Path) -> Tileset:
-    """Parse the raw Tiled Tileset into a pytiled_parser type
-
-    Args:
-        file: Path to the map file
-
-    Returns:
-        Tileset: A parsed and typed Tileset
-    """
-    parser = check_format(file)
-
-    if parser == "tmx":
-        with open(file, encoding="utf-8") as map_file:
-            raw_tileset = etree.parse(map_file).getroot()
-        return tmx_tileset_parse(raw_tileset, 1)
-    else:
-        try:
-            with open(file, encoding="utf-8") as my_file:
-                raw_tileset = json.load(my_file)
-            return json_tileset_parse(raw_tileset, 1)
-        except ValueError:
-            raise UnknownFormat(
-                "Unknowm Tileset Format, please use either the TSX or JSON format. "
-                "This message could also mean your tileset file is invalid or corrupted."
-            )
-
-
-def parse_world(file: Path) -> World:
-    """Parse the raw world file into a pytiled_parser type
-
-    Args:
-        file: Path to the world file
-
-    Returns:
-        World: A parsed and typed World
-    """
-    return _parse_world(file)
+import json
+import xml.etree.ElementTree as etree
+from pathlib import Path
+
+from pytiled_parser import UnknownFormat
+from pytiled_parser.parsers.json.tiled_map import parse as json_map_parse
+from pytiled_parser.parsers.json.tileset import parse as json_tileset_parse
+from pytiled_parser.parsers.tmx.tiled_map import parse as tmx_map_parse
+from pytiled_parser.parsers.tmx.tileset import parse as tmx_tileset_parse
+from pytiled_parser.tiled_map import TiledMap
+from pytiled_parser.tileset import Tileset
+from pytiled_parser.util import check_format
+from pytiled_parser.world import World
+from pytiled_parser.world import parse_world as _parse_world
+
+
+def parse_map(file: Path) -> TiledMap:
+    """Parse the raw Tiled map into a pytiled_parser type
+
+    Args:
+        file: Path to the map file
+
+    Returns:
+        TiledMap: A parsed and typed TiledMap
+    """
+    parser = check_format(file)
+
+    # The type ignores are because mypy for some reason thinks those functions return Any
+    if parser == "tmx":
+        return tmx_map_parse(file)  # type: ignore
+    else:
+        try:
+            return json_map_parse(file)  # type: ignore
+        except ValueError:
+            raise UnknownFormat(
+                "Unknown Map Format, please use either the TMX or JSON format. "
+                "This message could also mean your map file is invalid or corrupted."
+            )
+
+
+def parse_tileset(file: Path) -> Tileset:
+    """Parse the raw Tiled Tileset into a pytiled_parser type
+
+    Args:
+        file: Path to the map file
+
+    Returns:
+        Tileset: A parsed and typed Tileset
+    """
+    parser = check_format(file)
+
+    if parser == "tmx":
+        with open(file, encoding="utf-8") as map_file:
+            raw_tileset = etree.parse(map_file).getroot()
+        return tmx_tileset_parse(raw_tileset, 1)
+    else:
+        try:
+            with open(file, encoding="utf-8") as my_file:
+                raw_tileset = json.load(my_file)
+            return json_tileset_parse(raw_tileset, 1)
+        except ValueError:
+            raise UnknownFormat(
+                "Unknowm Tileset Format, please use either the TSX or JSON format. "
+                "This message could also mean your tileset file is invalid or corrupted."
+            )
+
+
+def parse_world(file: Path) -> World:
+    """Parse the raw world file into a pytiled_parser type
+
+    Args:
+        file: Path to the world file
+
+    Returns:
+        World: A parsed and typed World
+    """
+    return _parse_world(file)
diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index e58d9a9..a279170 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -1,344 +1,344 @@
-"""Object parsing for the JSON Map Format.
-"""
-from pathlib import Path
-from typing import Any, Callable, Dict, List, Optional
-
-from typing_extensions import TypedDict
-
-from pytiled_parser.common_types import OrderedPair, Size
-from pytiled_parser.parsers.json.properties import RawProperty
-from pytiled_parser.parsers.json.properties import parse as parse_properties
-from pytiled_parser.tiled_object import (
-    Ellipse,
-    Point,
-    Polygon,
-    Polyline,
-    Rectangle,
-    Text,
-    Tile,
-    TiledObject,
-)
-from pytiled_parser.util import load_object_template, parse_color
-
-RawText = TypedDict(
-    "RawText",
-    {
-        "text": str,
-        "color": str,
-        "fontfamily": str,
-        "pixelsize": float,  # this is `font_size` in Text
-        "bold": bool,
-        "italic": bool,
-        "strikeout": bool,
-        "underline": bool,
-        "kerning": bool,
-        "halign": str,
-        "valign": str,
-        "wrap": bool,
-    },
-)
-RawText.__doc__ = """
-    The keys and their types that appear in a Tiled JSON Text Object.
-
-    Tiled Doc: https://doc.mapeditor.org/en/stable/reference/json-map-format/#text-example
-"""
-
-
-RawObject = TypedDict(
-    "RawObject",
-    {
-        "id": int,
-        "gid": int,
-        "template": str,
-        "x": float,
-        "y": float,
-        "width": float,
-        "height": float,
-        "rotation": float,
-        "visible": bool,
-        "name": str,
-        "class": str,
-        "type": str,
-        "properties": List[RawProperty],
-        "ellipse": bool,
-        "point": bool,
-        "polygon": List[Dict[str, float]],
-        "polyline": List[Dict[str, float]],
-        "text": RawText,
-    },
-)
-RawObject.__doc__ = """
-    The keys and their types that appear in a Tiled JSON Object.
-
-    Tiled Doc: https://doc.mapeditor.org/en/stable/reference/json-map-format/#object
-"""
-
-
-def _parse_common(raw_object: RawObject) -> TiledObject:
-    """Create an Object containing all the attributes common to all types of objects.
-
-    Args:
-        raw_object: Raw object to get common attributes from
-
-    Returns:
-        Object: The attributes in common of all types of objects
-    """
-
-    common = TiledObject(
-        id=raw_object["id"],
-        coordinates=OrderedPair(raw_object["x"], raw_object["y"]),
-        visible=raw_object["visible"],
-        size=Size(raw_object["width"], raw_object["height"]),
-        rotation=raw_object["rotation"],
-        name=raw_object["name"],
-    )
-
-    if raw_object.get("type") is not None:
-        common.class_ = raw_object["type"]
-
-    if raw_object.get("class") is not None:
-        common.class_ = raw_object["class"]
-
-    if raw_object.get("properties") is not None:
-        common.properties = parse_properties(raw_object["properties"])
-
-    return common
-
-
-def _parse_ellipse(raw_object: RawObject) -> Ellipse:
-    """Parse the raw object into an Ellipse.
-
-    Args:
-        raw_object: Raw object to be parsed to an Ellipse
-
-    Returns:
-        Ellipse: The Ellipse object created from the raw object
-    """
-    return Ellipse(**_parse_common(raw_object).__dict__)
-
-
-def _parse_rectangle(raw_object: RawObject) -> Rectangle:
-    """Parse the raw object into a Rectangle.
-
-    Args:
-        raw_object: Raw object to be parsed to a Rectangle
-
-    Returns:
-        Rectangle: The Rectangle object created from the raw object
-    """
-    return Rectangle(**_parse_common(raw_object).__dict__)
-
-
-def _parse_point(raw_object: RawObject) -> Point:
-    """Parse the raw object into a Point.
-
-    Args:
-        raw_object: Raw object to be parsed to a Point
-
-    Returns:
-        Point: The Point object created from the raw object
-    """
-    return Point(**_parse_common(raw_object).__dict__)
-
-
-def _parse_polygon(raw_object: RawObject) -> Polygon:
-    """Parse the raw object into a Polygon.
-
-    Args:
-        raw_object: Raw object to be parsed to a Polygon
-
-    Returns:
-        Polygon: The Polygon object created from the raw object
-    """
-    polygon = []
-    for point in raw_object["polygon"]:
-        polygon.append(OrderedPair(point["x"], point["y"]))
-
-    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
-
-
-def _parse_polyline(raw_object: RawObject) -> Polyline:
-    """Parse the raw object into a Polyline.
-
-    Args:
-        raw_object: Raw object to be parsed to a Polyline
-
-    Returns:
-        Polyline: The Polyline object created from the raw object
-    """
-    polyline = []
-    for point in raw_object["polyline"]:
-        polyline.append(OrderedPair(point["x"], point["y"]))
-
-    return Polyline(points=polyline, **_parse_common(raw_object).__dict__)
-
-
-def _parse_tile(
-    raw_object: RawObject,
-    new_tileset: Optional[Dict[str, Any]] = None,
-    new_tileset_path: Optional[Path] = None,
-) -> Tile:
-    """Parse the raw object into a Tile.
-
-    Args:
-        raw_object: Raw object to be parsed to a Tile
-
-    Returns:
-        Tile: The Tile object created from the raw object
-    """
-    gid = raw_object["gid"]
-
-    return Tile(
-        gid=gid,
-        new_tileset=new_tileset,
-        new_tileset_path=new_tileset_path,
-        **_parse_common(raw_object).__dict__,
-    )
-
-
-def _parse_text(raw_object: RawObject) -> Text:
-    """Parse the raw object into Text.
-
-    Args:
-        raw_object: Raw object to be parsed to a Text
-
-    Returns:
-        Text: The Text object created from the raw object
-    """
-    # required attributes
-    raw_text: RawText = raw_object["text"]
-    text = raw_text["text"]
-
-    # create base Text object
-    text_object = Text(text=text, **_parse_common(raw_object).__dict__)
-
-    # optional attributes
-    if raw_text.get("color") is not None:
-        text_object.color = parse_color(raw_text["color"])
-
-    if raw_text.get("fontfamily") is not None:
-        text_object.font_family = raw_text["fontfamily"]
-
-    if raw_text.get("pixelsize") is not None:
-        text_object.font_size = raw_text["pixelsize"]
-
-    if raw_text.get("bold") is not None:
-        text_object.bold = raw_text["bold"]
-
-    if raw_text.get("italic") is not None:
-        text_object.italic = raw_text["italic"]
-
-    if raw_text.get("kerning") is not None:
-        text_object.kerning = raw_text["kerning"]
-
-    if raw_text.get("strikeout") is not None:
-        text_object.strike_out = raw_text["strikeout"]
-
-    if raw_text.get("underline") is not None:
-        text_object.underline = raw_text["underline"]
-
-    if raw_text.get("halign") is not None:
-        text_object.horizontal_align = raw_text["halign"]
-
-    if raw_text.get("valign") is not None:
-        text_object.vertical_align = raw_text["valign"]
-
-    if raw_text.get("wrap") is not None:
-        text_object.wrap = raw_text["wrap"]
-
-    return text_object
-
-
-def _get_parser(raw_object: RawObject) -> Callable[[RawObject], TiledObject]:
-    """Get the parser function for a given raw object.
-
-    Only used internally by the JSON parser.
-
-    Args:
-        raw_object: Raw object that is analyzed to determine the parser function.
-
-    Returns:
-        Callable[[RawObject], Object]: The parser function.
-    """
-    if raw_object.get("ellipse"):
-        return _parse_ellipse
-
-    if raw_object.get("point"):
-        return _parse_point
-
-    # This is excluded from tests because the coverage is broken. I promise
-    # there are tests for Tile objects, but for some reason the coverage
-    # isn't picking up this if statement(though it does pickup the _parse_tile)
-    # function so who knows
-    if raw_object.get("gid"):  # pragma: no cover
-        # Only tile objects have the `gid` key
-        return _parse_tile
-
-    if raw_object.get("polygon"):
-        return _parse_polygon
-
-    if raw_object.get("polyline"):
-        return _parse_polyline
-
-    if raw_object.get("text"):
-        return _parse_text
-
-    # If it's none of the above, rectangle is the only one left.
-    # Rectangle is the only object which has no special properties to signify that.
-    return _parse_rectangle
-
-
-def parse(
-    raw_object: RawObject,
-    parent_dir: Optional[Path] = None,
-) -> TiledObject:
-    """Parse the raw object into a pytiled_parser version
-
-    Args:
-        raw_object: Raw object that is to be cast.
-        parent_dir: The parent directory that the map file is in.
-
-    Returns:
-        Object: A parsed Object.
-
-    Raises:
-        RuntimeError: When a parameter that is conditionally required was not sent.
-    """
-    new_tileset = None
-    new_tileset_path = None
-
-    if raw_object.get("template"):
-        if not parent_dir:
-            raise RuntimeError(
-                "A parent directory must be specified when using object templates."
-            )
-        template_path = Path(parent_dir / raw_object["template"])
-        template, new_tileset, new_tileset_path = load_object_template(template_path)
-        if raw_object.get("gid"):
-            # a gid of the instance itself refers to the tilesets of the map
-            new_tileset = None
-            new_tileset_path = None
-
-        if isinstance(template, dict):
-            loaded_template = template["object"]
-            if "type" in raw_object:
-                # "type" is the older name of "class"
-                loaded_template.pop("class", None)
-            for key in loaded_template:
-                if key == "id":
-                    continue
-                if key == "properties" and key in raw_object:
-                    # later properties of the same name win
-                    raw_object[key] = loaded_template[key] + raw_object[key]
-                elif key not in raw_object:
-                    raw_object[key] = loaded_template[key]  # type: ignore
-        else:
-            raise NotImplementedError(
-                "Loading TMX object templates inside a JSON map is currently not supported, "
-                "but will be in a future release."
-            )
-
-    if raw_object.get("gid"):
-        return _parse_tile(raw_object, new_tileset, new_tileset_path)
-
-    return _get_parser(raw_object)(raw_object)
+"""Object parsing for the JSON Map Format.
+"""
+from pathlib import Path
+from typing import Any, Callable, Dict, List, Optional
+
+from typing_extensions import TypedDict
+
+from pytiled_parser.common_types import OrderedPair, Size
+from pytiled_parser.parsers.json.properties import RawProperty
+from pytiled_parser.parsers.json.properties import parse as parse_properties
+from pytiled_parser.tiled_object import (
+    Ellipse,
+    Point,
+    Polygon,
+    Polyline,
+    Rectangle,
+    Text,
+    Tile,
+    TiledObject,
+)
+from pytiled_parser.util import load_object_template, parse_color
+
+RawText = TypedDict(
+    "RawText",
+    {
+        "text": str,
+        "color": str,
+        "fontfamily": str,
+        "pixelsize": float,  # this is `font_size` in Text
+        "bold": bool,
+        "italic": bool,
+        "strikeout": bool,
+        "underline": bool,
+        "kerning": bool,
+        "halign": str,
+        "valign": str,
+        "wrap": bool,
+    },
+)
+RawText.__doc__ = """
+    The keys and their types that appear in a Tiled JSON Text Object.
+
+    Tiled Doc: https://doc.mapeditor.org/en/stable/reference/json-map-format/#text-example
+"""
+
+
+RawObject = TypedDict(
+    "RawObject",
+    {
+        "id": int,
+        "gid": int,
+        "template": str,
+        "x": float,
+        "y": float,
+        "width": float,
+        "height": float,
+        "rotation": float,
+        "visible": bool,
+        "name": str,
+        "class": str,
+        "type": str,
+        "properties": List[RawProperty],
+        "ellipse": bool,
+        "point": bool,
+        "polygon": List[Dict[str, float]],
+        "polyline": List[Dict[str, float]],
+        "text": RawText,
+    },
+)
+RawObject.__doc__ = """
+    The keys and their types that appear in a Tiled JSON Object.
+
+    Tiled Doc: https://doc.mapeditor.org/en/stable/reference/json-map-format/#object
+"""
+
+
+def _parse_common(raw_object: RawObject) -> TiledObject:
+    """Create an Object containing all the attributes common to all types of objects.
+
+    Args:
+        raw_object: Raw object to get common attributes from
+
+    Returns:
+        Object: The attributes in common of all types of objects
+    """
+
+    common = TiledObject(
+        id=raw_object["id"],
+        coordinates=OrderedPair(raw_object["x"], raw_object["y"]),
+        visible=raw_object["visible"],
+        size=Size(raw_object["width"], raw_object["height"]),
+        rotation=raw_object["rotation"],
+        name=raw_object["name"],
+    )
+
+    if raw_object.get("type") is not None:
+        common.class_ = raw_object["type"]
+
+    if raw_object.get("class") is not None:
+        common.class_ = raw_object["class"]
+
+    if raw_object.get("properties") is not None:
+        common.properties = parse_properties(raw_object["properties"])
+
+    return common
+
+
+def _parse_ellipse(raw_object: RawObject) -> Ellipse:
+    """Parse the raw object into an Ellipse.
+
+    Args:
+        raw_object: Raw object to be parsed to an Ellipse
+
+    Returns:
+        Ellipse: The Ellipse object created from the raw object
+    """
+    return Ellipse(**_parse_common(raw_object).__dict__)
+
+
+def _parse_rectangle(raw_object: RawObject) -> Rectangle:
+    """Parse the raw object into a Rectangle.
+
+    Args:
+        raw_object: Raw object to be parsed to a Rectangle
+
+    Returns:
+        Rectangle: The Rectangle object created from the raw object
+    """
+    return Rectangle(**_parse_common(raw_object).__dict__)
+
+
+def _parse_point(raw_object: RawObject) -> Point:
+    """Parse the raw object into a Point.
+
+    Args:
+        raw_object: Raw object to be parsed to a Point
+
+    Returns:
+        Point: The Point object created from the raw object
+    """
+    return Point(**_parse_common(raw_object).__dict__)
+
+
+def _parse_polygon(raw_object: RawObject) -> Polygon:
+    """Parse the raw object into a Polygon.
+
+    Args:
+        raw_object: Raw object to be parsed to a Polygon
+
+    Returns:
+        Polygon: The Polygon object created from the raw object
+    """
+    polygon = []
+    for point in raw_object["polygon"]:
+        polygon.append(OrderedPair(point["x"], point["y"]))
+
+    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
+
+
+def _parse_polyline(raw_object: RawObject) -> Polyline:
+    """Parse the raw object into a Polyline.
+
+    Args:
+        raw_object: Raw object to be parsed to a Polyline
+
+    Returns:
+        Polyline: The Polyline object created from the raw object
+    """
+    polyline = []
+    for point in raw_object["polyline"]:
+        polyline.append(OrderedPair(point["x"], point["y"]))
+
+    return Polyline(points=polyline, **_parse_common(raw_object).__dict__)
+
+
+def _parse_tile(
+    raw_object: RawObject,
+    new_tileset: Optional[Dict[str, Any]] = None,
+    new_tileset_path: Optional[Path] = None,
+) -> Tile:
+    """Parse the raw object into a Tile.
+
+    Args:
+        raw_object: Raw object to be parsed to a Tile
+
+    Returns:
+        Tile: The Tile object created from the raw object
+    """
+    gid = raw_object["gid"]
+
+    return Tile(
+        gid=gid,
+        new_tileset=new_tileset,
+        new_tileset_path=new_tileset_path,
+        **_parse_common(raw_object).__dict__,
+    )
+
+
+def _parse_text(raw_object: RawObject) -> Text:
+    """Parse the raw object into Text.
+
+    Args:
+        raw_object: Raw object to be parsed to a Text
+
+    Returns:
+        Text: The Text object created from the raw object
+    """
+    # required attributes
+    raw_text: RawText = raw_object["text"]
+    text = raw_text["text"]
+
+    # create base Text object
+    text_object = Text(text=text, **_parse_common(raw_object).__dict__)
+
+    # optional attributes
+    if raw_text.get("color") is not None:
+        text_object.color = parse_color(raw_text["color"])
+
+    if raw_text.get("fontfamily") is not None:
+        text_object.font_family = raw_text["fontfamily"]
+
+    if raw_text.get("pixelsize") is not None:
+        text_object.font_size = raw_text["pixelsize"]
+
+    if raw_text.get("bold") is not None:
+        text_object.bold = raw_text["bold"]
+
+    if raw_text.get("italic") is not None:
+        text_object.italic = raw_text["italic"]
+
+    if raw_text.get("kerning") is not None:
+        text_object.kerning = raw_text["kerning"]
+
+    if raw_text.get("strikeout") is not None:
+        text_object.strike_out = raw_text["strikeout"]
+
+    if raw_text.get("underline") is not None:
+        text_object.underline = raw_text["underline"]
+
+    if raw_text.get("halign") is not None:
+        text_object.horizontal_align = raw_text["halign"]
+
+    if raw_text.get("valign") is not None:
+        text_object.vertical_align = raw_text["valign"]
+
+    if raw_text.get("wrap") is not None:
+        text_object.wrap = raw_text["wrap"]
+
+    return text_object
+
+
+def _get_parser(raw_object: RawObject) -> Callable[[RawObject], TiledObject]:
+    """Get the parser function for a given raw object.
+
+    Only used internally by the JSON parser.
+
+    Args:
+        raw_object: Raw object that is analyzed to determine the parser function.
+
+    Returns:
+        Callable[[RawObject], Object]: The parser function.
+    """
+    if raw_object.get("ellipse"):
+        return _parse_ellipse
+
+    if raw_object.get("point"):
+        return _parse_point
+
+    # This is excluded from tests because the coverage is broken. I promise
+    # there are tests for Tile objects, but for some reason the coverage
+    # isn't picking up this if statement(though it does pickup the _parse_tile)
+    # function so who knows
+    if raw_object.get("gid"):  # pragma: no cover
+        # Only tile objects have the `gid` key
+        return _parse_tile
+
+    if raw_object.get("polygon"):
+        return _parse_polygon
+
+    if raw_object.get("polyline"):
+        return _parse_polyline
+
+    if raw_object.get("text"):
+        return _parse_text
+
+    # If it's none of the above, rectangle is the only one left.
+    # Rectangle is the only object which has no special properties to signify that.
+    return _parse_rectangle
+
+
+def parse(
+    raw_object: RawObject,
+    parent_dir: Optional[Path] = None,
+) -> TiledObject:
+    """Parse the raw object into a pytiled_parser version
+
+    Args:
+        raw_object: Raw object that is to be cast.
+        parent_dir: The parent directory that the map file is in.
+
+    Returns:
+        Object: A parsed Object.
+
+    Raises:
+        RuntimeError: When a parameter that is conditionally required was not sent.
+    """
+    new_tileset = None
+    new_tileset_path = None
+
+    if raw_object.get("template"):
+        if not parent_dir:
+            raise RuntimeError(
+                "A parent directory must be specified when using object templates."
+            )
+        template_path = Path(parent_dir / raw_object["template"])
+        template, new_tileset, new_tileset_path = load_object_template(template_path)
+        if raw_object.get("gid"):
+            # a gid of the instance itself refers to the tilesets of the map
+            new_tileset = None
+            new_tileset_path = None
+
+        if isinstance(template, dict):
+            loaded_template = template["object"]
+            if "type" in raw_object:
+                # "type" is the older name of "class"
+                loaded_template.pop("class", None)
+            for key in loaded_template:
+                if key == "id":
+                    continue
+                if key == "properties" and key in raw_object:
+                    # later properties of the same name win
+                    raw_object[key] = loaded_template[key] + raw_object[key]
+                elif key not in raw_object:
+                    raw_object[key] = loaded_template[key]  # type: ignore
+        else:
+            raise NotImplementedError(
+                "Loading TMX object templates inside a JSON map is currently not supported, "
+                "but will be in a future release."
+            )
+
+    if raw_object.get("gid"):
+        return _parse_tile(raw_object, new_tileset, new_tileset_path)
+
+    return _get_parser(raw_object)(raw_object)
diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index f974506..0c97d17 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -1,40 +1,40 @@
-import xml.etree.ElementTree as etree
-from pathlib import Path
-
-from pytiled_parser.properties import Properties, Property
-from pytiled_parser.util import parse_color
-
-
-def parse(raw_properties: etree.Element) -> Properties:
-    final: Properties = {}
-    value: Property
-
-    for raw_property in raw_properties.findall("property"):
-        type_ = raw_property.attrib.get("type")
-
-        if "value" in raw_property.attrib:
-            value_ = raw_property.attrib["value"]
-        elif type_ in (None, "string") and raw_property.text is not None:
-            # Strings spanning multiple lines are stored as the element's text
-            value_ = raw_property.text
-        else:
-            continue
-
-        if type_ == "file":
-            value = Path(value_)
-        elif type_ == "color":
-            value = parse_color(value_)
-        elif type_ == "int" or type_ == "float":
-            value = float(value_)
-        elif type_ == "object":
-            value = int(value_)
-        elif type_ == "bool":
-            if value_ == "true":
-                value = True
-            else:
-                value = False
-        else:
-            value = value_
-        final[raw_property.attrib["name"]] = value
-
-    return final
+import xml.etree.ElementTree as etree
+from pathlib import Path
+
+from pytiled_parser.properties import Properties, Property
+from pytiled_parser.util import parse_color
+
+
+def parse(raw_properties: etree.Element) -> Properties:
+    final: Properties = {}
+    value: Property
+
+    for raw_property in raw_properties.findall("property"):
+        type_ = raw_property.attrib.get("type")
+
+        if "value" in raw_property.attrib:
+            value_ = raw_property.attrib["value"]
+        elif type_ in (None, "string") and raw_property.text is not None:
+            # Strings spanning multiple lines are stored as the element's text
+            value_ = raw_property.text
+        else:
+            continue
+
+        if type_ == "file":
+            value = Path(value_)
+        elif type_ == "color":
+            value = parse_color(value_)
+        elif type_ == "int" or type_ == "float":
+            value = float(value_)
+        elif type_ == "object":
+            value = int(value_)
+        elif type_ == "bool":
+            if value_ == "true":
+                value = True
+            else:
+                value = False
+        else:
+            value = value_
+        final[raw_property.attrib["name"]] = value
+
+    return final
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index dba94b1..b00139e 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -1,309 +1,309 @@
-import xml.etree.ElementTree as etree
-from pathlib import Path
-from typing import Callable, Optional
-
-from pytiled_parser.common_types import OrderedPair, Size
-from pytiled_parser.parsers.tmx.properties import parse as parse_properties
-from pytiled_parser.tiled_object import (
-    Ellipse,
-    Point,
-    Polygon,
-    Polyline,
-    Rectangle,
-    Text,
-    Tile,
-    TiledObject,
-)
-from pytiled_parser.util import load_object_template, parse_color
-
-
-def _parse_common(raw_object: etree.Element) -> TiledObject:
-    """Create an Object containing all the attributes common to all types of objects.
-
-    Args:
-        raw_object: XML Element to get common attributes from
-
-    Returns:
-        Object: The attributes in common of all types of objects
-    """
-
-    common = TiledObject(
-        id=int(raw_object.attrib["id"]),
-        coordinates=OrderedPair(
-            float(raw_object.attrib["x"]), float(raw_object.attrib["y"])
-        ),
-    )
-
-    common.size = Size(
-        float(raw_object.attrib.get("width", 0)),
-        float(raw_object.attrib.get("height", 0)),
-    )
-
-    if raw_object.attrib.get("visible") is not None:
-        common.visible = bool(int(raw_object.attrib["visible"]))
-
-    if raw_object.attrib.get("rotation") is not None:
-        common.rotation = float(raw_object.attrib["rotation"])
-
-    if raw_object.attrib.get("name") is not None:
-        common.name = raw_object.attrib["name"]
-
-    if raw_object.attrib.get("type") is not None:
-        common.class_ = raw_object.attrib["type"]
-
-    if raw_object.attrib.get("class") is not None:
-        common.class_ = raw_object.attrib["class"]
-
-    properties_element = raw_object.find("./properties")
-    if properties_element is not None:
-        common.properties = parse_properties(properties_element)
-
-    return common
-
-
-def _parse_ellipse(raw_object: etree.Element) -> Ellipse:
-    """Parse the raw object into an Ellipse.
-
-    Args:
-        raw_object: XML Element to be parsed to an Ellipse
-
-    Returns:
-        Ellipse: The Ellipse object created from the raw object
-    """
-    return Ellipse(**_parse_common(raw_object).__dict__)
-
-
-def _parse_rectangle(raw_object: etree.Element) -> Rectangle:
-    """Parse the raw object into a Rectangle.
-
-    Args:
-        raw_object: XML Element to be parsed to a Rectangle
-
-    Returns:
-        Rectangle: The Rectangle object created from the raw object
-    """
-    return Rectangle(**_parse_common(raw_object).__dict__)
-
-
-def _parse_point(raw_object: etree.Element) -> Point:
-    """Parse the raw object into a Point.
-
-    Args:
-        raw_object: XML Element to be parsed to a Point
-
-    Returns:
-        Point: The Point object created from the raw object
-    """
-    return Point(**_parse_common(raw_object).__dict__)
-
-
-def _parse_polygon(raw_object: etree.Element) -> Polygon:
-    """Parse the raw object into a Polygon.
-
-    Args:
-        raw_object: XML Element to be parsed to a Polygon
-
-    Returns:
-        Polygon: The Polygon object created from the raw object
-    """
-    polygon = []
-    polygon_element = raw_object.find("./polygon")
-    if polygon_element is not None:
-        for raw_point in polygon_element.attrib["points"].split(" "):
-            point = raw_point.split(",")
-            polygon.append(OrderedPair(float(point[0]), float(point[1])))
-
-    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
-
-
-def _parse_polyline(raw_object: etree.Element) -> Polyline:
-    """Parse the raw object into a Polyline.
-
-    Args:
-        raw_object: Raw object to be parsed to a Polyline
-
-    Returns:
-        Polyline: The Polyline object created from the raw object
-    """
-    polyline = []
-    polyline_element = raw_object.find("./polyline")
-    if polyline_element is not None:
-        for raw_point in polyline_element.attrib["points"].split(" "):
-            point = raw_point.split(",")
-            polyline.append(OrderedPair(float(point[0]), float(point[1])))
-
-    return Polyline(points=polyline, **_parse_common(raw_object).__dict__)
-
-
-def _parse_tile(
-    raw_object: etree.Element,
-    new_tileset: Optional[etree.Element] = None,
-    new_tileset_path: Optional[Path] = None,
-) -> Tile:
-    """Parse the raw object into a Tile.
-
-    Args:
-        raw_object: XML Element to be parsed to a Tile
-
-    Returns:
-        Tile: The Tile object created from the raw object
-    """
-    return Tile(
-        gid=int(raw_object.attrib["gid"]),
-        new_tileset=new_tileset,
-        new_tileset_path=new_tileset_path,
-        **_parse_common(raw_object).__dict__,
-    )
-
-
-def _parse_text(raw_object: etree.Element) -> Text:
-    """Parse the raw object into Text.
-
-    Args:
-        raw_object: XML Element to be parsed to a Text
-
-    Returns:
-        Text: The Text object created from the raw object
-    """
-    # required attributes
-    text_element = raw_object.find("./text")
-
-    if text_element is not None:
-        text = text_element.text
-
-        if not text:
-            text = ""
-        # create base Text object
-        text_object = Text(text=text, **_parse_common(raw_object).__dict__)
-
-        # optional attributes
-
-        if text_element.attrib.get("color") is not None:
-            text_object.color = parse_color(text_element.attrib["color"])
-
-        if text_element.attrib.get("fontfamily") is not None:
-            text_object.font_family = text_element.attrib["fontfamily"]
-
-        if text_element.attrib.get("pixelsize") is not None:
-            text_object.font_size = float(text_element.attrib["pixelsize"])
-
-        if text_element.attrib.get("bold") is not None:
-            text_object.bold = bool(int(text_element.attrib["bold"]))
-
-        if text_element.attrib.get("italic") is not None:
-            text_object.italic = bool(int(text_element.attrib["italic"]))
-
-        if text_element.attrib.get("kerning") is not None:
-            text_object.kerning = bool(int(text_element.attrib["kerning"]))
-
-        if text_element.attrib.get("strikeout") is not None:
-            text_object.strike_out = bool(int(text_element.attrib["strikeout"]))
-
-        if text_element.attrib.get("underline") is not None:
-            text_object.underline = bool(int(text_element.attrib["underline"]))
-
-        if text_element.attrib.get("halign") is not None:
-            text_object.horizontal_align = text_element.attrib["halign"]
-
-        if text_element.attrib.get("valign") is not None:
-            text_object.vertical_align = text_element.attrib["valign"]
-
-        if text_element.attrib.get("wrap") is not None:
-            text_object.wrap = bool(int(text_element.attrib["wrap"]))
-
-    return text_object
-
-
-def _get_parser(raw_object: etree.Element) -> Callable[[etree.Element], TiledObject]:
-    """Get the parser function for a given raw object.
-
-    Only used internally by the TMX parser.
-
-    Args:
-        raw_object: XML Element that is analyzed to determine the parser function.
-
-    Returns:
-        Callable[[Element], Object]: The parser function.
-    """
-    if raw_object.find("./ellipse") is not None:
-        return _parse_ellipse
-
-    if raw_object.find("./point") is not None:
-        return _parse_point
-
-    if raw_object.find("./polygon") is not None:
-        return _parse_polygon
-
-    if raw_object.find("./polyline") is not None:
-        return _parse_polyline
-
-    if raw_object.find("./text") is not None:
-        return _parse_text
-
-    # If it's none of the above, rectangle is the only one left.
-    # Rectangle is the only object which has no properties to signify that.
-    return _parse_rectangle
-
-
-def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> TiledObject:
-    """Parse the raw object into a pytiled_parser version
-
-    Args:
-        raw_object: XML Element that is to be parsed.
-        parent_dir: The parent directory that the map file is in.
-
-    Returns:
-        TiledObject: A parsed Object.
-
-    Raises:
-        RuntimeError: When a parameter that is conditionally required was not sent.
-    """
-    new_tileset = None
-    new_tileset_path = None
-
-    if raw_object.attrib.get("template"):
-        if not parent_dir:
-            raise RuntimeError(
-                "A parent directory must be specified when using object templates."
-            )
-        template_path = Path(parent_dir / raw_object.attrib["template"])
-        template, new_tileset, new_tileset_path = load_object_template(template_path)
-        if raw_object.attrib.get("gid"):
-            # a gid of the instance itself refers to the tilesets of the map
-            new_tileset = None
-            new_tileset_path = None
-
-        if isinstance(template, etree.Element):
-            new_object = template.find("./object")
-            if new_object is not None:
-                for key, val in raw_object.attrib.items():
-                    if key == "template":
-                        continue
-                    if key == "type" and "class" not in raw_object.attrib:
-                        # "type" is the older name of "class"
-                        new_object.attrib.pop("class", None)
-                    new_object.attrib[key] = val
-
-                for child in raw_object:
-                    inherited = new_object.find(child.tag)
-                    if inherited is None:
-                        new_object.append(child)
-                    elif child.tag == "properties":
-                        # later properties of the same name win
-                        inherited.extend(child)
-                    else:
-                        new_object.remove(inherited)
-                        new_object.append(child)
-
-                raw_object = new_object
-        elif isinstance(template, dict):
-            # load the JSON object into the XML object
-            raise NotImplementedError(
-                "Loading JSON object templates inside a TMX map is currently not supported, "
-                "but will be in a future release."
-            )
-
-    if raw_object.attrib.get("gid"):
-        return _parse_tile(raw_object, new_tileset, new_tileset_path)
-
-    return _get_parser(raw_object)(raw_object)
+import xml.etree.ElementTree as etree
+from pathlib import Path
+from typing import Callable, Optional
+
+from pytiled_parser.common_types import OrderedPair, Size
+from pytiled_parser.parsers.tmx.properties import parse as parse_properties
+from pytiled_parser.tiled_object import (
+    Ellipse,
+    Point,
+    Polygon,
+    Polyline,
+    Rectangle,
+    Text,
+    Tile,
+    TiledObject,
+)
+from pytiled_parser.util import load_object_template, parse_color
+
+
+def _parse_common(raw_object: etree.Element) -> TiledObject:
+    """Create an Object containing all the attributes common to all types of objects.
+
+    Args:
+        raw_object: XML Element to get common attributes from
+
+    Returns:
+        Object: The attributes in common of all types of objects
+    """
+
+    common = TiledObject(
+        id=int(raw_object.attrib["id"]),
+        coordinates=OrderedPair(
+            float(raw_object.attrib["x"]), float(raw_object.attrib["y"])
+        ),
+    )
+
+    common.size = Size(
+        float(raw_object.attrib.get("width", 0)),
+        float(raw_object.attrib.get("height", 0)),
+    )
+
+    if raw_object.attrib.get("visible") is not None:
+        common.visible = bool(int(raw_object.attrib["visible"]))
+
+    if raw_object.attrib.get("rotation") is not None:
+        common.rotation = float(raw_object.attrib["rotation"])
+
+    if raw_object.attrib.get("name") is not None:
+        common.name = raw_object.attrib["name"]
+
+    if raw_object.attrib.get("type") is not None:
+        common.class_ = raw_object.attrib["type"]
+
+    if raw_object.attrib.get("class") is not None:
+        common.class_ = raw_object.attrib["class"]
+
+    properties_element = raw_object.find("./properties")
+    if properties_element is not None:
+        common.properties = parse_properties(properties_element)
+
+    return common
+
+
+def _parse_ellipse(raw_object: etree.Element) -> Ellipse:
+    """Parse the raw object into an Ellipse.
+
+    Args:
+        raw_object: XML Element to be parsed to an Ellipse
+
+    Returns:
+        Ellipse: The Ellipse object created from the raw object
+    """
+    return Ellipse(**_parse_common(raw_object).__dict__)
+
+
+def _parse_rectangle(raw_object: etree.Element) -> Rectangle:
+    """Parse the raw object into a Rectangle.
+
+    Args:
+        raw_object: XML Element to be parsed to a Rectangle
+
+    Returns:
+        Rectangle: The Rectangle object created from the raw object
+    """
+    return Rectangle(**_parse_common(raw_object).__dict__)
+
+
+def _parse_point(raw_object: etree.Element) -> Point:
+    """Parse the raw object into a Point.
+
+    Args:
+        raw_object: XML Element to be parsed to a Point
+
+    Returns:
+        Point: The Point object created from the raw object
+    """
+    return Point(**_parse_common(raw_object).__dict__)
+
+
+def _parse_polygon(raw_object: etree.Element) -> Polygon:
+    """Parse the raw object into a Polygon.
+
+    Args:
+        raw_object: XML Element to be parsed to a Polygon
+
+    Returns:
+        Polygon: The Polygon object created from the raw object
+    """
+    polygon = []
+    polygon_element = raw_object.find("./polygon")
+    if polygon_element is not None:
+        for raw_point in polygon_element.attrib["points"].split(" "):
+            point = raw_point.split(",")
+            polygon.append(OrderedPair(float(point[0]), float(point[1])))
+
+    return Polygon(points=polygon, **_parse_common(raw_object).__dict__)
+
+
+def _parse_polyline(raw_object: etree.Element) -> Polyline:
+    """Parse the raw object into a Polyline.
+
+    Args:
+        raw_object: Raw object to be parsed to a Polyline
+
+    Returns:
+        Polyline: The Polyline object created from the raw object
+    """
+    polyline = []
+    polyline_element = raw_object.find("./polyline")
+    if polyline_element is not None:
+        for raw_point in polyline_element.attrib["points"].split(" "):
+            point = raw_point.split(",")
+            polyline.append(OrderedPair(float(point[0]), float(point[1])))
+
+    return Polyline(points=polyline, **_parse_common(raw_object).__dict__)
+
+
+def _parse_tile(
+    raw_object: etree.Element,
+    new_tileset: Optional[etree.Element] = None,
+    new_tileset_path: Optional[Path] = None,
+) -> Tile:
+    """Parse the raw object into a Tile.
+
+    Args:
+        raw_object: XML Element to be parsed to a Tile
+
+    Returns:
+        Tile: The Tile object created from the raw object
+    """
+    return Tile(
+        gid=int(raw_object.attrib["gid"]),
+        new_tileset=new_tileset,
+        new_tileset_path=new_tileset_path,
+        **_parse_common(raw_object).__dict__,
+    )
+
+
+def _parse_text(raw_object: etree.Element) -> Text:
+    """Parse the raw object into Text.
+
+    Args:
+        raw_object: XML Element to be parsed to a Text
+
+    Returns:
+        Text: The Text object created from the raw object
+    """
+    # required attributes
+    text_element = raw_object.find("./text")
+
+    if text_element is not None:
+        text = text_element.text
+
+        if not text:
+            text = ""
+        # create base Text object
+        text_object = Text(text=text, **_parse_common(raw_object).__dict__)
+
+        # optional attributes
+
+        if text_element.attrib.get("color") is not None:
+            text_object.color = parse_color(text_element.attrib["color"])
+
+        if text_element.attrib.get("fontfamily") is not None:
+            text_object.font_family = text_element.attrib["fontfamily"]
+
+        if text_element.attrib.get("pixelsize") is not None:
+            text_object.font_size = float(text_element.attrib["pixelsize"])
+
+        if text_element.attrib.get("bold") is not None:
+            text_object.bold = bool(int(text_element.attrib["bold"]))
+
+        if text_element.attrib.get("italic") is not None:
+            text_object.italic = bool(int(text_element.attrib["italic"]))
+
+        if text_element.attrib.get("kerning") is not None:
+            text_object.kerning = bool(int(text_element.attrib["kerning"]))
+
+        if text_element.attrib.get("strikeout") is not None:
+            text_object.strike_out = bool(int(text_element.attrib["strikeout"]))
+
+        if text_element.attrib.get("underline") is not None:
+            text_object.underline = bool(int(text_element.attrib["underline"]))
+
+        if text_element.attrib.get("halign") is not None:
+            text_object.horizontal_align = text_element.attrib["halign"]
+
+        if text_element.attrib.get("valign") is not None:
+            text_object.vertical_align = text_element.attrib["valign"]
+
+        if text_element.attrib.get("wrap") is not None:
+            text_object.wrap = bool(int(text_element.attrib["wrap"]))
+
+    return text_object
+
+
+def _get_parser(raw_object: etree.Element) -> Callable[[etree.Element], TiledObject]:
+    """Get the parser function for a given raw object.
+
+    Only used internally by the TMX parser.
+
+    Args:
+        raw_object: XML Element that is analyzed to determine the parser function.
+
+    Returns:
+        Callable[[Element], Object]: The parser function.
+    """
+    if raw_object.find("./ellipse") is not None:
+        return _parse_ellipse
+
+    if raw_object.find("./point") is not None:
+        return _parse_point
+
+    if raw_object.find("./polygon") is not None:
+        return _parse_polygon
+
+    if raw_object.find("./polyline") is not None:
+        return _parse_polyline
+
+    if raw_object.find("./text") is not None:
+        return _parse_text
+
+    # If it's none of the above, rectangle is the only one left.
+    # Rectangle is the only object which has no properties to signify that.
+    return _parse_rectangle
+
+
+def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> TiledObject:
+    """Parse the raw object into a pytiled_parser version
+
+    Args:
+        raw_object: XML Element that is to be parsed.
+        parent_dir: The parent directory that the map file is in.
+
+    Returns:
+        TiledObject: A parsed Object.
+
+    Raises:
+        RuntimeError: When a parameter that is conditionally required was not sent.
+    """
+    new_tileset = None
+    new_tileset_path = None
+
+    if raw_object.attrib.get("template"):
+        if not parent_dir:
+            raise RuntimeError(
+                "A parent directory must be specified when using object templates."
+            )
+        template_path = Path(parent_dir / raw_object.attrib["template"])
+        template, new_tileset, new_tileset_path = load_object_template(template_path)
+        if raw_object.attrib.get("gid"):
+            # a gid of the instance itself refers to the tilesets of the map
+            new_tileset = None
+            new_tileset_path = None
+
+        if isinstance(template, etree.Element):
+            new_object = template.find("./object")
+            if new_object is not None:
+                for key, val in raw_object.attrib.items():
+                    if key == "template":
+                        continue
+                    if key == "type" and "class" not in raw_object.attrib:
+                        # "type" is the older name of "class"
+                        new_object.attrib.pop("class", None)
+                    new_object.attrib[key] = val
+
+                for child in raw_object:
+                    inherited = new_object.find(child.tag)
+                    if inherited is None:
+                        new_object.append(child)
+                    elif child.tag == "properties":
+                        # later properties of the same name win
+                        inherited.extend(child)
+                    else:
+                        new_object.remove(inherited)
+                        new_object.append(child)
+
+                raw_object = new_object
+        elif isinstance(template, dict):
+            # load the JSON object into the XML object
+            raise NotImplementedError(
+                "Loading JSON object templates inside a TMX map is currently not supported, "
+                "but will be in a future release."
+            )
+
+    if raw_object.attrib.get("gid"):
+        return _parse_tile(raw_object, new_tileset, new_tileset_path)
+
+    return _get_parser(raw_object)(raw_object)
-- 
2.43.0


From 24435fdcf1d0ecbaf9f2e63be69aca1235d580fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 27/28] fix: report a map or tileset that is not text as an
 unknown format

---
 pytiled_parser/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 5810567..72ddc79 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -36,7 +36,8 @@ def parse_color(color: str) -> Color:
 
 
 def check_format(file_path: Path) -> str:
-    with open(file_path, encoding="utf-8") as file:
+    # Bytes that are not text are left to the parser of the format to report
+    with open(file_path, encoding="utf-8", errors="replace") as file:
         line = file.readline().rstrip().strip()
         if line.startswith("<"):
             return "tmx"
-- 
2.43.0


From 7e84d63081ace16b54302924c455b39f301adab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 28/28] fix: TMX tile data given as tile elements is silently
 dropped

A layer whose data holds <tile> elements (Tiled's deprecated XML tile layer
format, which is not supported) was taken for a layer without any tiles.
---
 pytiled_parser/parsers/tmx/layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 78129cc..1f1151e 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -234,7 +234,7 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
 
         raw_chunks = data_element.findall("chunk")
         # an infinite map has no data at all for a layer without any tiles
-        if not raw_chunks and (data_element.text or "").strip():
+        if not raw_chunks and (len(data_element) or (data_element.text or "").strip()):
             if encoding and encoding != "csv":
                 tile_layer.data = _decode_tile_layer_data(
                     data=data_element.text,  # type: ignore
-- 
2.43.0

