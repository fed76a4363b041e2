From 776d2a5268d756f3dca62d6b7d8f993da0fdbcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:16 +0000
Subject: [PATCH 01/21] fix: report malformed integer attributes like other
 malformed values

---
 fastkml/helpers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 2201029..d059c28 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -884,7 +884,17 @@ def attribute_int_kwarg(
 
     """
     attr = element.get(f"{ns}{node_name}")
-    return {kwarg: int(attr)} if attr else {}
+    try:
+        return {kwarg: int(attr)} if attr else {}
+    except ValueError as exc:
+        handle_error(
+            error=exc,
+            strict=strict,
+            element=element,
+            node=element,
+            expected="Integer",
+        )
+    return {}
 
 
 def subelement_float_kwarg(
-- 
2.43.0


From 7ffe3f2d0648379a322daf058bfb05d2cecaf65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:16 +0000
Subject: [PATCH 02/21] fix: ignore blank elements and surrounding whitespace
 in lists of dates

---
 fastkml/helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index d059c28..c05030d 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1153,9 +1153,12 @@ def datetime_subelement_list_kwarg(
     cls = classes[0]
     if subelements := element.findall(f"{ns}{node_name}"):
         for subelement in subelements:
+            node_text = subelement.text.strip() if subelement.text else ""
+            if not node_text:
+                continue
             try:
                 args_list.append(
-                    cls.parse(subelement.text),  # type: ignore[attr-defined]
+                    cls.parse(node_text),  # type: ignore[attr-defined]
                 )
             except ValueError as exc:  # noqa: PERF203
                 handle_error(
-- 
2.43.0


From 617ad7bc9be254c47f814ce99625ea7f70192777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:16 +0000
Subject: [PATCH 03/21] fix: do not modify the name_spaces argument of
 KML.parse

---
 fastkml/kml.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index aee6f9c..d59cfc4 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -237,10 +237,9 @@ class KML(_XMLObject):
             root = config.etree.parse(file).getroot()
         if ns is None:
             ns = root.tag[:-3] if root.tag.endswith("kml") else ""
-        name_spaces = name_spaces or {}
+        name_spaces = {**config.NAME_SPACES, **(name_spaces or {})}
         if ns:
             name_spaces["kml"] = ns
-        name_spaces = {**config.NAME_SPACES, **name_spaces}
         return cls.class_from_element(
             ns=ns,
             name_spaces=name_spaces,
-- 
2.43.0


From fd74789a3d6075795ee5ff414753f22bfc5a6a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:16 +0000
Subject: [PATCH 04/21] fix: write years before 1000 with four digits

---
 fastkml/times.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/times.py b/fastkml/times.py
index 8f7a451..4ae03f2 100644
--- a/fastkml/times.py
+++ b/fastkml/times.py
@@ -183,9 +183,9 @@ class KmlDateTime:
     def __str__(self) -> str:
         """Return the KML DateTime string representation of the object."""
         if self.resolution == DateTimeResolution.year:
-            return self.dt.strftime("%Y")
+            return f"{self.dt.year:04d}"
         if self.resolution == DateTimeResolution.year_month:
-            return self.dt.strftime("%Y-%m")
+            return f"{self.dt.year:04d}-{self.dt.month:02d}"
         if self.resolution == DateTimeResolution.date:
             return (
                 self.dt.date().isoformat()
-- 
2.43.0


From f32b7c5edc8e06700336148f908359136ca07319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:16 +0000
Subject: [PATCH 05/21] fix: look for list members in every registered
 namespace

---
 fastkml/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index c05030d..05dc11a 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1303,4 +1303,4 @@ def xml_subelement_list_kwarg(
                     for subelement in subelements
                 ],
             )
-    return {kwarg: args_list}
+    return {kwarg: args_list} if args_list else {}
-- 
2.43.0


From 4c5a9f38eea11fb41a9075fd464d3170ee2bf1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:52 +0000
Subject: [PATCH 06/21] fix: read a ScreenOverlay that is a direct child of kml

---
 fastkml/kml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index d59cfc4..fa9136c 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -54,6 +54,7 @@ from fastkml.helpers import xml_subelement_list_kwarg
 from fastkml.network_link_control import NetworkLinkControl
 from fastkml.overlays import GroundOverlay
 from fastkml.overlays import PhotoOverlay
+from fastkml.overlays import ScreenOverlay
 from fastkml.registry import RegistryItem
 from fastkml.registry import registry
 from fastkml.types import Element
@@ -66,6 +67,7 @@ kml_children = Union[
     Placemark,
     GroundOverlay,
     PhotoOverlay,
+    ScreenOverlay,
     NetworkLinkControl,
 ]
 
@@ -299,12 +301,13 @@ registry.register(
             Placemark,
             GroundOverlay,
             PhotoOverlay,
+            ScreenOverlay,
             NetworkLink,
             NetworkLinkControl,
         ),
         node_name=(
-            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,NetworkLink,"
-            "NetworkLinkControl"
+            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,ScreenOverlay,"
+            "NetworkLink,NetworkLinkControl"
         ),
         attr_name="features",
         get_kwarg=xml_subelement_list_kwarg,
-- 
2.43.0


From 3f79c577328b263956f35cdb7eab4dd3aafe596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:52 +0000
Subject: [PATCH 07/21] fix: compare the altitude mode of LineString and
 Polygon

---
 fastkml/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index bb14f78..907e8f0 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -639,6 +639,7 @@ class LineString(_Geometry):
                 for attr in (
                     "extrude",
                     "tessellate",
+                    "altitude_mode",
                     "geometry",
                     *xml_attrs,
                     *self._get_splat(),
@@ -1123,6 +1124,7 @@ class Polygon(_Geometry):
                 for attr in (
                     "extrude",
                     "tessellate",
+                    "altitude_mode",
                     "geometry",
                     *xml_attrs,
                     *self._get_splat(),
-- 
2.43.0


From bba007f4b6569046d74d5fdce46d9cffd4af473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:52 +0000
Subject: [PATCH 08/21] fix: accept additional registered attributes on
 overlays

---
 fastkml/overlays.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/overlays.py b/fastkml/overlays.py
index 48bfcdd..dfee519 100644
--- a/fastkml/overlays.py
+++ b/fastkml/overlays.py
@@ -144,6 +144,7 @@ class _Overlay(_Feature):
         color: Optional[str] = None,
         draw_order: Optional[int] = None,
         icon: Optional[Icon] = None,
+        **kwargs: Any,
     ) -> None:
         """
         Initialize an Overlay object.
@@ -220,6 +221,7 @@ class _Overlay(_Feature):
             styles=styles,
             region=region,
             extended_data=extended_data,
+            **kwargs,
         )
         self.icon = icon
         self.color = clean_string(color)
-- 
2.43.0


From f76156650395d6384066ecddae069b8ffdf32a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:07 +0000
Subject: [PATCH 09/21] fix: keep the angles of a track aligned with its
 positions

---
 fastkml/gx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 3611790..31c9553 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -356,7 +356,9 @@ class Track(_Geometry):
             The angles of the track items.
 
         """
-        return tuple(item.angle.coords for item in self.track_items if item.angle)
+        if not any(item.angle for item in self.track_items):
+            return ()
+        return tuple((item.angle or Angle()).coords for item in self.track_items)
 
     def __bool__(self) -> bool:
         """
-- 
2.43.0


From 1b4899e5209d2424e1c8206df7ef0850818797be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:55 +0000
Subject: [PATCH 10/21] fix: a LineString without coordinates does not equal a
 LinearRing

---
 fastkml/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 907e8f0..f054b2d 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -633,7 +633,7 @@ class LineString(_Geometry):
 
     def __eq__(self, other: object) -> bool:
         """Check if the LineString objects is equal."""
-        if isinstance(other, LineString):
+        if isinstance(other, LineString) and type(self) is type(other):
             return all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
-- 
2.43.0


From 607f6df4c2d12ac189f58df84b09cc6522e0f434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:18 +0000
Subject: [PATCH 11/21] fix: write the schemata of a document before its
 features

---
 fastkml/containers.py | 46 ++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/fastkml/containers.py b/fastkml/containers.py
index 1a3e773..07be362 100644
--- a/fastkml/containers.py
+++ b/fastkml/containers.py
@@ -326,28 +326,7 @@ class Document(_Container):
         )
 
 
-registry.register(
-    _Container,
-    RegistryItem(
-        ns_ids=("kml", ""),
-        attr_name="features",
-        node_name=(
-            "Folder,Placemark,Document,GroundOverlay,PhotoOverlay,ScreenOverlay,"
-            "NetworkLink"
-        ),
-        classes=(
-            Document,
-            Folder,
-            Placemark,
-            GroundOverlay,
-            PhotoOverlay,
-            ScreenOverlay,
-            NetworkLink,
-        ),
-        get_kwarg=xml_subelement_list_kwarg,
-        set_element=xml_subelement_list,
-    ),
-)
+# the schema prescribes that the Schema elements of a Document precede its features
 registry.register(
     Document,
     RegistryItem(
@@ -359,3 +338,26 @@ registry.register(
         set_element=xml_subelement_list,
     ),
 )
+for _container in (Folder, Document):
+    registry.register(
+        _container,
+        RegistryItem(
+            ns_ids=("kml", ""),
+            attr_name="features",
+            node_name=(
+                "Folder,Placemark,Document,GroundOverlay,PhotoOverlay,ScreenOverlay,"
+                "NetworkLink"
+            ),
+            classes=(
+                Document,
+                Folder,
+                Placemark,
+                GroundOverlay,
+                PhotoOverlay,
+                ScreenOverlay,
+                NetworkLink,
+            ),
+            get_kwarg=xml_subelement_list_kwarg,
+            set_element=xml_subelement_list,
+        ),
+    )
-- 
2.43.0


From d281f9e1fd1f9077b7944474fbc48acde267274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:08 +0000
Subject: [PATCH 12/21] fix: reject dates with dangling hyphens

---
 fastkml/times.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/times.py b/fastkml/times.py
index 4ae03f2..b440086 100644
--- a/fastkml/times.py
+++ b/fastkml/times.py
@@ -51,7 +51,7 @@ __all__ = [
 # year and month may be separated by an optional dash
 # year is always 4 digits, month, day is always 2 digits
 year_month_day = re.compile(
-    r"^(?P<year>\d{4})(?:-)?(?P<month>\d{2})?(?:-)?(?P<day>\d{2})?$",
+    r"^(?P<year>\d{4})(?:-?(?P<month>\d{2})(?:-?(?P<day>\d{2}))?)?$",
 )
 
 
-- 
2.43.0


From f8f11c540b374a77cf814b95552ff150d023ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:08 +0000
Subject: [PATCH 13/21] fix: date-times past the last day are malformed values,
 not OverflowError

---
 fastkml/times.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fastkml/times.py b/fastkml/times.py
index b440086..bee7ac0 100644
--- a/fastkml/times.py
+++ b/fastkml/times.py
@@ -210,7 +210,11 @@ class KmlDateTime:
             if year_month_day_match.group("month") is None:
                 resolution = DateTimeResolution.year
             return cls(dt, resolution)
-        return cls(arrow.get(datestr).datetime, DateTimeResolution.datetime)
+        try:
+            return cls(arrow.get(datestr).datetime, DateTimeResolution.datetime)
+        except OverflowError as exc:
+            msg = f"Date '{datestr}' is out of range"
+            raise ValueError(msg) from exc
 
     @classmethod
     def get_ns_id(cls) -> str:
-- 
2.43.0


From 0e4264adbefc81312c3ffa8c1cb8e145ab272e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:31 +0000
Subject: [PATCH 14/21] fix: refuse to write any position without two or three
 dimensions

Only the first position of a coordinate list was looked at, later ones
were written whatever their number of dimensions.
---
 fastkml/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index f054b2d..b845f73 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -164,7 +164,7 @@ def coordinates_subelement(
     """
     if getattr(obj, attr_name, None):
         coords = getattr(obj, attr_name)
-        if not coords or len(coords[0]) not in (2, 3):
+        if any(len(coord) not in (2, 3) for coord in coords):
             msg = f"Invalid dimensions in coordinates '{coords}'"
             raise KMLWriteError(msg)
         if precision is None:
-- 
2.43.0


From b80cd9d59fb51d74526b7a18215ea32aa5ae1d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:31 +0000
Subject: [PATCH 15/21] fix: refuse inner boundaries together with a geometry

Polygon dropped the given inner boundaries silently when a geometry was
given too; the outer boundary was already refused.
---
 fastkml/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index b845f73..5356b31 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -1034,7 +1034,7 @@ class Polygon(_Geometry):
         None
 
         """
-        if outer_boundary is not None and geometry is not None:
+        if geometry is not None and (outer_boundary is not None or inner_boundaries):
             raise GeometryError(MsgMutualExclusive)
         if geometry is not None:
             outer_boundary = OuterBoundaryIs(geometry=geometry.exterior)
-- 
2.43.0


From 985814fbae22444b18726eed1b555954a383b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:31 +0000
Subject: [PATCH 16/21] fix: write attributes registered for the KML root

KML.etree_element wrote only the features, attributes registered by an
application were read but never written.
---
 fastkml/kml.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index fa9136c..e5c4cd8 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -187,15 +187,16 @@ class KML(_XMLObject):
             root = config.etree.Element(
                 f"{self.ns}{self.get_tag_name()}",
             )
-        xml_subelement_list(
-            obj=self,
-            element=root,
-            attr_name="features",
-            node_name="",
-            precision=precision,
-            verbosity=verbosity,
-            default=None,
-        )
+        for item in registry.get(self.__class__):
+            item.set_element(
+                obj=self,
+                element=root,
+                attr_name=item.attr_name,
+                node_name=item.node_name,
+                precision=precision,
+                verbosity=verbosity,
+                default=item.default,
+            )
         return cast(Element, root)
 
     def append(
-- 
2.43.0


From e96de4880e8a4f9f98d5a1a8e48933d993821f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:40 +0000
Subject: [PATCH 17/21] fix: the cached schema parser does not outlive a change
 of the XML back end

After validating with lxml, validate() used the cached lxml schema for
elements of a back end without schema support and raised a TypeError
instead of returning None.
---
 fastkml/validator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fastkml/validator.py b/fastkml/validator.py
index 404d625..0c60aac 100644
--- a/fastkml/validator.py
+++ b/fastkml/validator.py
@@ -130,10 +130,9 @@ def validate(
     if element is not None and file_to_validate is not None:
         raise ValueError(MUTUAL_EXCLUSIVE)
 
-    try:
-        schema_parser = get_schema_parser(schema)
-    except AttributeError:
+    if not hasattr(config.etree, "XMLSchema"):
         return None
+    schema_parser = get_schema_parser(schema)
 
     if file_to_validate is not None:
         element = config.etree.parse(file_to_validate)
-- 
2.43.0


From c311bd73976645511f25a1c064831d09c1091d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:54 +0000
Subject: [PATCH 18/21] fix: an invalid element inside a document raises an
 AssertionError

The path of an error is relative to the validated element, looking it up
in the whole document could find nothing and raised an IndexError.
---
 fastkml/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/validator.py b/fastkml/validator.py
index 0c60aac..c3e7c30 100644
--- a/fastkml/validator.py
+++ b/fastkml/validator.py
@@ -85,7 +85,7 @@ def handle_validation_error(
             parent = element.xpath(error_entry.path)[  # type: ignore[attr-defined]
                 0
             ].getparent()
-        except config.etree.XPathEvalError:
+        except (config.etree.XPathEvalError, IndexError):
             parent = element
         if parent is None:
             parent = element
-- 
2.43.0


From 32ac0d96322192784ac1f3a93cd99e3b734f8314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:14 +0000
Subject: [PATCH 19/21] fix: compare additional attributes of geometries
 symmetrically

---
 fastkml/geometry.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 5356b31..1f5cc72 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -467,14 +467,13 @@ class Point(_Geometry):
     def __eq__(self, other: object) -> bool:
         """Check if the Point objects are equal."""
         if isinstance(other, Point):
-            return all(
+            return self._get_splat() == other._get_splat() and all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
                     "extrude",
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
             )
         return super().__eq__(other)
@@ -634,7 +633,7 @@ class LineString(_Geometry):
     def __eq__(self, other: object) -> bool:
         """Check if the LineString objects is equal."""
         if isinstance(other, LineString) and type(self) is type(other):
-            return all(
+            return self._get_splat() == other._get_splat() and all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
                     "extrude",
@@ -642,7 +641,6 @@ class LineString(_Geometry):
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
             )
         return super().__eq__(other)
@@ -1119,7 +1117,7 @@ class Polygon(_Geometry):
     def __eq__(self, other: object) -> bool:
         """Check if the Polygon objects are equal."""
         if isinstance(other, Polygon):
-            return all(
+            return self._get_splat() == other._get_splat() and all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
                     "extrude",
@@ -1127,7 +1125,6 @@ class Polygon(_Geometry):
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
             )
         return super().__eq__(other)
-- 
2.43.0


From 4739a8482af8ebf62c9959be5db6f4596a651658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:14 +0000
Subject: [PATCH 20/21] fix: the order of additional attributes does not affect
 equality

---
 fastkml/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/base.py b/fastkml/base.py
index 8fa9d87..0688238 100644
--- a/fastkml/base.py
+++ b/fastkml/base.py
@@ -85,7 +85,7 @@ class _XMLObject:
         )
         for arg, val in kwargs.items():
             setattr(self, arg, val)
-        self.__kwarg_keys = tuple(kwargs.keys())
+        self.__kwarg_keys = tuple(sorted(kwargs))
 
     def __repr__(self) -> str:
         """
-- 
2.43.0


From 6317519afed9fd1d81be8136e363483f93ccfb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:35 +0000
Subject: [PATCH 21/21] fix: parts made from a geometry are in the namespaces
 of the object

---
 fastkml/geometry.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 1f5cc72..4cdf8ce 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -415,7 +415,11 @@ class Point(_Geometry):
             raise GeometryError(MsgMutualExclusive)
         if kml_coordinates is None and geometry:
             kml_coordinates = (
-                Coordinates(coords=geometry.coords)  # type: ignore[arg-type]
+                Coordinates(
+                    ns=ns,
+                    name_spaces=name_spaces,
+                    coords=geometry.coords,  # type: ignore[arg-type]
+                )
                 if geometry
                 else None
             )
@@ -590,7 +594,11 @@ class LineString(_Geometry):
         if geometry is not None and kml_coordinates is not None:
             raise GeometryError(MsgMutualExclusive)
         if kml_coordinates is None:
-            kml_coordinates = Coordinates(coords=geometry.coords) if geometry else None
+            kml_coordinates = (
+                Coordinates(ns=ns, name_spaces=name_spaces, coords=geometry.coords)
+                if geometry
+                else None
+            )
         self.kml_coordinates = kml_coordinates
         self.extrude = extrude
         self.tessellate = tessellate
@@ -1035,9 +1043,14 @@ class Polygon(_Geometry):
         if geometry is not None and (outer_boundary is not None or inner_boundaries):
             raise GeometryError(MsgMutualExclusive)
         if geometry is not None:
-            outer_boundary = OuterBoundaryIs(geometry=geometry.exterior)
+            outer_boundary = OuterBoundaryIs(
+                ns=ns,
+                name_spaces=name_spaces,
+                geometry=geometry.exterior,
+            )
             inner_boundaries = [
-                InnerBoundaryIs(geometry=interior) for interior in geometry.interiors
+                InnerBoundaryIs(ns=ns, name_spaces=name_spaces, geometry=interior)
+                for interior in geometry.interiors
             ]
         self.outer_boundary = outer_boundary
         self.inner_boundaries = list(inner_boundaries) if inner_boundaries else []
-- 
2.43.0

