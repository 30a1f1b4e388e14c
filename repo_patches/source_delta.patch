From 622668608b219c31d8ced4acc24bd513d8663e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 01/55] fix: stop visiting a geometry whose nodes are exhausted

GeoArrowGeometryVisitNode() recorded an error message when a view had fewer
nodes than its sizes announce, but went on to read the missing node.
---
 src/geoarrow/geometry.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 650b2a5..469159a 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -452,6 +452,7 @@ static GeoArrowErrorCode GeoArrowGeometryVisitNode(
     struct GeoArrowVisitor* v) {
   if ((*n_nodes)-- <= 0) {
     GeoArrowErrorSet(v->error, "Too few nodes provided to GeoArrowGeometryVisit()");
+    return EINVAL;
   }
 
   GEOARROW_RETURN_NOT_OK(v->geom_start(v, (enum GeoArrowGeometryType)node->geometry_type,
-- 
2.43.0


From b38aff7e5aab59b3373e344d145fbf8dc0950ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 02/55] fix: return the error when the box kernel cannot
 allocate its result

box_finish() released the partially built array and then kept using it; it
also leaked the array when a buffer could not be attached.
---
 src/geoarrow/kernel.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index ad8d96b..bd9dc38 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -520,13 +520,17 @@ static ArrowErrorCode box_finish(struct GeoArrowVisitorKernelPrivate* private_da
     if (tmp.release != NULL) {
       tmp.release(&tmp);
     }
+    return result;
   }
 
   int64_t length = private_data->box2d_private.values[0].size_bytes / sizeof(double);
 
   for (int i = 0; i < 4; i++) {
-    NANOARROW_RETURN_NOT_OK(
-        ArrowArraySetBuffer(tmp.children[i], 1, &private_data->box2d_private.values[i]));
+    result = ArrowArraySetBuffer(tmp.children[i], 1, &private_data->box2d_private.values[i]);
+    if (result != GEOARROW_OK) {
+      tmp.release(&tmp);
+      return result;
+    }
     tmp.children[i]->length = length;
   }
 
-- 
2.43.0


From 2d1959abbe5aeef4e8609bf7689397000950aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 03/55] fix: release the schema when GeoArrowSchemaInit or
 GeoArrowSchemaInitExtension fails

---
 src/geoarrow/schema.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/schema.c b/src/geoarrow/schema.c
index 935537f..263084d 100644
--- a/src/geoarrow/schema.c
+++ b/src/geoarrow/schema.c
@@ -109,9 +109,8 @@ static GeoArrowErrorCode GeoArrowSchemaInitListOf(struct ArrowSchema* schema,
 #define CHILD_NAMES_MULTIPOLYGON \
   (const char*[]) { "polygons", "rings", "vertices" }
 
-GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowType type) {
-  schema->release = NULL;
-
+static GeoArrowErrorCode GeoArrowSchemaInitStorage(struct ArrowSchema* schema,
+                                                   enum GeoArrowType type) {
   switch (type) {
     case GEOARROW_TYPE_WKB:
       return ArrowSchemaInitFromType(schema, NANOARROW_TYPE_BINARY);
@@ -205,6 +204,17 @@ GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowTy
   return NANOARROW_OK;
 }
 
+GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowType type) {
+  schema->release = NULL;
+
+  int result = GeoArrowSchemaInitStorage(schema, type);
+  if (result != GEOARROW_OK && schema->release != NULL) {
+    schema->release(schema);
+  }
+
+  return result;
+}
+
 GeoArrowErrorCode GeoArrowSchemaInitExtension(struct ArrowSchema* schema,
                                               enum GeoArrowType type) {
   const char* ext_type = GeoArrowExtensionNameFromType(type);
@@ -236,5 +246,9 @@ GeoArrowErrorCode GeoArrowSchemaInitExtension(struct ArrowSchema* schema,
 
   result = ArrowSchemaSetMetadata(schema, (const char*)metadata.data);
   ArrowBufferReset(&metadata);
+  if (result != NANOARROW_OK) {
+    schema->release(schema);
+  }
+
   return result;
 }
-- 
2.43.0


From 0022842cad14fd0946215d40689ecf178ef66f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 04/55] fix: release the box kernel's output schema when
 setting its metadata fails

---
 src/geoarrow/kernel.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index bd9dc38..2a04c46 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -483,7 +483,12 @@ static ArrowErrorCode schema_box(struct ArrowSchema* schema,
   }
 
   NANOARROW_RETURN_NOT_OK(GeoArrowSchemaInitExtension(schema, GEOARROW_TYPE_BOX));
-  NANOARROW_RETURN_NOT_OK(GeoArrowSchemaSetMetadata(schema, &metadata));
+  int result = GeoArrowSchemaSetMetadata(schema, &metadata);
+  if (result != GEOARROW_OK) {
+    schema->release(schema);
+    return result;
+  }
+
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From 740c32338815853f68348dab809488da9eeb14ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 05/55] fix: release the previous reader when a visitor kernel
 is started again

---
 src/geoarrow/kernel.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index 2a04c46..06964c9 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -239,6 +239,10 @@ static int kernel_visitor_start(struct GeoArrowKernel* kernel, struct ArrowSchem
     case GEOARROW_TYPE_UNINITIALIZED:
       return EINVAL;
     default:
+      if (private_data->reader.private_data != NULL) {
+        GeoArrowArrayReaderReset(&private_data->reader);
+      }
+
       NANOARROW_RETURN_NOT_OK(
           GeoArrowArrayReaderInitFromSchema(&private_data->reader, schema, error));
       if (private_data->visit_by_feature) {
-- 
2.43.0


From 0d3a6d8066bf9f006ddad8f628037937588d9bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 06/55] fix: free the array writer's block when its type is not
 supported

---
 src/geoarrow/array_writer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/array_writer.c b/src/geoarrow/array_writer.c
index 864937d..b5bf59a 100644
--- a/src/geoarrow/array_writer.c
+++ b/src/geoarrow/array_writer.c
@@ -30,7 +30,8 @@ GeoArrowErrorCode GeoArrowArrayWriterInitFromType(struct GeoArrowArrayWriter* wr
     case GEOARROW_TYPE_LARGE_WKB:
     case GEOARROW_TYPE_WKT_VIEW:
     case GEOARROW_TYPE_WKB_VIEW:
-      return ENOTSUP;
+      result = ENOTSUP;
+      break;
     case GEOARROW_TYPE_WKT:
       result = GeoArrowWKTWriterInit(&private_data->wkt_writer);
       break;
-- 
2.43.0


From 28ff20884a2e8f7bb82b8084a55c051c4024b573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 07/55] fix: release the builder's array when its
 initialisation fails

---
 src/geoarrow/builder.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geoarrow/builder.c b/src/geoarrow/builder.c
index 86e548b..5c2c4a2 100644
--- a/src/geoarrow/builder.c
+++ b/src/geoarrow/builder.c
@@ -105,6 +105,9 @@ static GeoArrowErrorCode GeoArrowBuilderInitInternal(struct GeoArrowBuilder* bui
   result = GeoArrowBuilderInitArrayAndCachePointers(builder);
   if (result != GEOARROW_OK) {
     private->schema.release(&private->schema);
+    if (private->array.release != NULL) {
+      private->array.release(&private->array);
+    }
     ArrowFree(private);
     builder->private_data = NULL;
     return result;
-- 
2.43.0


From f183eceef63d9733ac2213bb3b2dc4ce36435b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 08/55] fix: release the void UDF's output when finishing it
 fails

---
 src/geoarrow/scalar_udf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/scalar_udf.c b/src/geoarrow/scalar_udf.c
index b25952d..398b225 100644
--- a/src/geoarrow/scalar_udf.c
+++ b/src/geoarrow/scalar_udf.c
@@ -55,7 +55,11 @@ static GeoArrowErrorCode GeoArrowScalarUdfVoidExecute(struct GeoArrowScalarUdf*
   GEOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(out, NANOARROW_TYPE_NA));
   out->length = n_rows;
   out->null_count = n_rows;
-  GEOARROW_RETURN_NOT_OK(ArrowArrayFinishBuildingDefault(out, NULL));
+  int result = ArrowArrayFinishBuildingDefault(out, NULL);
+  if (result != GEOARROW_OK) {
+    out->release(out);
+    return result;
+  }
 
   return GEOARROW_OK;
 }
-- 
2.43.0


From c6c2b14675407eeee0bcde38a5554cad7034749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 09/55] fix: release the output array when a WKB or WKT writer
 fails to finish

---
 src/geoarrow/wkb_writer.c | 18 +++++++++++++++---
 src/geoarrow/wkt_writer.c | 18 +++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 7ebb701..b1ef349 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -228,13 +228,25 @@ GeoArrowErrorCode GeoArrowWKBWriterFinish(struct GeoArrowWKBWriter* writer,
       ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes));
   NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(array, private->storage_type));
   ArrowArraySetValidityBitmap(array, &private->validity);
-  NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 1, &private->offsets));
-  NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 2, &private->values));
+  int result = ArrowArraySetBuffer(array, 1, &private->offsets);
+  if (result == GEOARROW_OK) {
+    result = ArrowArraySetBuffer(array, 2, &private->values);
+  }
+  if (result != GEOARROW_OK) {
+    array->release(array);
+    return result;
+  }
+
   array->length = private->length;
   array->null_count = private->null_count;
   private->length = 0;
   private->null_count = 0;
-  return ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+  result = ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+  if (result != GEOARROW_OK) {
+    array->release(array);
+  }
+
+  return result;
 }
 
 void GeoArrowWKBWriterReset(struct GeoArrowWKBWriter* writer) {
diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index 40e206c..824326e 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -335,13 +335,25 @@ GeoArrowErrorCode GeoArrowWKTWriterFinish(struct GeoArrowWKTWriter* writer,
       ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes));
   NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(array, private->storage_type));
   ArrowArraySetValidityBitmap(array, &private->validity);
-  NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 1, &private->offsets));
-  NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 2, &private->values));
+  int result = ArrowArraySetBuffer(array, 1, &private->offsets);
+  if (result == GEOARROW_OK) {
+    result = ArrowArraySetBuffer(array, 2, &private->values);
+  }
+  if (result != GEOARROW_OK) {
+    array->release(array);
+    return result;
+  }
+
   array->length = private->length;
   array->null_count = private->null_count;
   private->length = 0;
   private->null_count = 0;
-  return ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+  result = ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+  if (result != GEOARROW_OK) {
+    array->release(array);
+  }
+
+  return result;
 }
 
 void GeoArrowWKTWriterReset(struct GeoArrowWKTWriter* writer) {
-- 
2.43.0


From e3bee7ce2e97ae55120a73cb3b665587de3a3c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 10/55] fix: clear the private data of readers and the native
 writer on reset

---
 src/geoarrow/native_writer.c | 1 +
 src/geoarrow/wkb_reader.c    | 1 +
 src/geoarrow/wkt_reader.c    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 97e84c2..88545fe 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -79,6 +79,7 @@ void GeoArrowNativeWriterReset(struct GeoArrowNativeWriter* writer) {
   GeoArrowBuilderReset(&private_data->builder);
   ArrowBitmapReset(&private_data->validity);
   ArrowFree(private_data);
+  writer->private_data = NULL;
 }
 
 static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
diff --git a/src/geoarrow/wkb_reader.c b/src/geoarrow/wkb_reader.c
index 3fb003a..d7d0511 100644
--- a/src/geoarrow/wkb_reader.c
+++ b/src/geoarrow/wkb_reader.c
@@ -230,6 +230,7 @@ void GeoArrowWKBReaderReset(struct GeoArrowWKBReader* reader) {
   struct WKBReaderPrivate* s = (struct WKBReaderPrivate*)reader->private_data;
   GeoArrowGeometryReset(&s->geom);
   ArrowFree(reader->private_data);
+  reader->private_data = NULL;
 }
 
 GeoArrowErrorCode GeoArrowWKBReaderVisit(struct GeoArrowWKBReader* reader,
diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 18b2918..086db8e 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -511,6 +511,7 @@ GeoArrowErrorCode GeoArrowWKTReaderInit(struct GeoArrowWKTReader* reader) {
 
 void GeoArrowWKTReaderReset(struct GeoArrowWKTReader* reader) {
   ArrowFree(reader->private_data);
+  reader->private_data = NULL;
 }
 
 GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* reader,
-- 
2.43.0


From 5c65e04239cb83f16a95818da5ae26580c9c93ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 11/55] fix: mark the void UDF as released

---
 src/geoarrow/scalar_udf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/scalar_udf.c b/src/geoarrow/scalar_udf.c
index 398b225..5648296 100644
--- a/src/geoarrow/scalar_udf.c
+++ b/src/geoarrow/scalar_udf.c
@@ -70,7 +70,7 @@ static const char* GeoArrowScalarUdfVoidGetLastError(struct GeoArrowScalarUdf* s
 }
 
 static void GeoArrowScalarUdfVoidRelease(struct GeoArrowScalarUdf* self) {
-  GEOARROW_UNUSED(self);
+  self->release = NULL;
 }
 
 static void GeoArrowScalarUdfVoidFactoryInit(struct GeoArrowScalarUdfFactory* self,
-- 
2.43.0


From 71fc819d6cd4ce76391f13b31a230aab0a7cb684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 12/55] fix: apply the stride when indexing a strided dimension
 iterator

---
 src/geoarrow/hpp/array_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index c45c151..dead6b8 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -161,7 +161,7 @@ class StridedIterator {
   bool operator!=(const StridedIterator& other) const { return ptr_ != other.ptr_; }
 
   T operator*() const { return *ptr_; }
-  T operator[](ptrdiff_t i) const { return ptr_[i]; }
+  T operator[](ptrdiff_t i) const { return ptr_[i * stride_]; }
 
   using iterator_category = std::random_access_iterator_tag;
   using difference_type = int64_t;
-- 
2.43.0


From e6a4aa6ecd477bbdf56f725c081943a0bf47c75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 13/55] fix: load the whole value when post-incrementing an
 unaligned iterator

---
 src/geoarrow/hpp/array_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index dead6b8..9d287b3 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -202,7 +202,7 @@ class UnalignedStridedIterator {
     return *this;
   }
   T operator++(int) {
-    T retval = *ptr_;
+    T retval = load_(ptr_);
     ptr_ += stride_;
     return retval;
   }
-- 
2.43.0


From 46a787c8a4ee0e1043e4d0628ea7de787390f016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 14/55] fix: initialise every bound of an empty XYZ or XYM box

---
 src/geoarrow/hpp/array_util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index 9d287b3..d72788a 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -433,7 +433,8 @@ struct BoxXYZ : public std::array<T, 6> {
   bound_type lower_bound() const { return {xmin(), ymin(), zmin()}; }
   bound_type upper_bound() const { return {xmax(), ymax(), zmax()}; }
   static BoxXYZ Empty() {
-    return {std::numeric_limits<T>::infinity(), std::numeric_limits<T>::infinity(),
+    return {std::numeric_limits<T>::infinity(),  std::numeric_limits<T>::infinity(),
+            std::numeric_limits<T>::infinity(),  -std::numeric_limits<T>::infinity(),
             -std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()};
   }
 };
@@ -453,7 +454,8 @@ struct BoxXYM : public std::array<T, 6> {
   bound_type lower_bound() const { return {xmin(), ymin(), mmin()}; }
   bound_type upper_bound() const { return {xmax(), ymax(), mmax()}; }
   static BoxXYM Empty() {
-    return {std::numeric_limits<T>::infinity(), std::numeric_limits<T>::infinity(),
+    return {std::numeric_limits<T>::infinity(),  std::numeric_limits<T>::infinity(),
+            std::numeric_limits<T>::infinity(),  -std::numeric_limits<T>::infinity(),
             -std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()};
   }
 };
-- 
2.43.0


From 73cac644735ea93152a06ecd91b1e855598d65ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 15/55] fix: cast coordinates to the requested type in every
 VisitEdges

---
 src/geoarrow/hpp/array_util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index d72788a..d683b98 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -640,7 +640,7 @@ struct CoordSequence {
     CoordDst start = CoordCast<Coord, CoordDst>(*it);
     ++it;
     while (it != end()) {
-      CoordDst end = *it;
+      CoordDst end = CoordCast<Coord, CoordDst>(*it);
       func(start, end);
       start = end;
       ++it;
@@ -1111,7 +1111,7 @@ struct PointArray : public Array<CoordSequence<Coord>> {
   /// For the purposes of this function, points are considered degenerate edges.
   template <typename CoordDst, typename Func>
   void VisitEdges(Func&& func) const {
-    this->template VisitVertices<CoordDst>([&](Coord coord) { func(coord, coord); });
+    this->template VisitVertices<CoordDst>([&](CoordDst coord) { func(coord, coord); });
   }
 };
 
@@ -1233,7 +1233,7 @@ struct MultipointArray : public Array<ListSequence<CoordSequence<Coord>>> {
   /// For the purposes of this function, points are considered degenerate edges.
   template <typename CoordDst, typename Func>
   void VisitEdges(Func&& func) const {
-    this->template VisitVertices<CoordDst>([&](Coord coord) { func(coord, coord); });
+    this->template VisitVertices<CoordDst>([&](CoordDst coord) { func(coord, coord); });
   }
 };
 
-- 
2.43.0


From 9b449495368bc4261e886c242475b7c2ea6f61c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 16/55] fix: make UnalignedCoordSequence usable from an array
 view and when sliced

---
 src/geoarrow/hpp/array_util.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index d683b98..f25e1f3 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -705,8 +705,8 @@ struct UnalignedCoordSequence {
   }
 
   /// \brief Initialize from a GeoArrowCoordView
-  GeoArrowErrorCode InitFrom(struct GeoArrowCoordView* view) {
-    if (view->n_values < coord_size || !std::is_same<ordinate_type, double>::value) {
+  GeoArrowErrorCode InitFrom(const struct GeoArrowCoordView* view) {
+    if (static_cast<uint32_t>(view->n_values) < coord_size || !std::is_same<ordinate_type, double>::value) {
       return EINVAL;
     }
 
@@ -782,8 +782,8 @@ struct UnalignedCoordSequence {
   ///
   /// Caller is responsible for ensuring that offset + length is within the bounds
   /// of this function.
-  UnalignedCoordSequence<Coord> Slice(int64_t offset, int64_t length) const {
-    UnalignedCoordSequence<Coord> out = *this;
+  UnalignedCoordSequence Slice(int64_t offset, int64_t length) const {
+    UnalignedCoordSequence out = *this;
     out.offset += offset;
     out.length = length;
     return out;
-- 
2.43.0


From 1da1abd8a87e713857c350a231e314d668ed5f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 17/55] fix: pass the builder's address in SetBufferWrapped

---
 src/geoarrow/hpp/array_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index 12ef329..74e6b13 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -36,7 +36,7 @@ class ArrayBuilder {
   void SetBufferWrapped(int64_t i, T obj, GeoArrowBufferView value) {
     T* obj_moved = new T(std::move(obj));
     GeoArrowErrorCode result = GeoArrowBuilderSetOwnedBuffer(
-        builder_, i, value, &internal::FreeWrappedBuffer<T>, obj_moved);
+        &builder_, i, value, &internal::FreeWrappedBuffer<T>, obj_moved);
     if (result != GEOARROW_OK) {
       delete obj_moved;
       throw ::geoarrow::ErrnoException(result, "GeoArrowBuilderSetOwnedBuffer()",
-- 
2.43.0


From b994567e04f61575d93c0acfafcb4dc98cdd5355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 18/55] fix: forward SetFlatMultipoint to the matching writer
 option

---
 src/geoarrow/hpp/array_writer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index 74e6b13..d8c96eb 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -105,8 +105,8 @@ class ArrayWriter {
   }
 
   void SetFlatMultipoint(bool flat_multipoint) {
-    GEOARROW_THROW_NOT_OK(nullptr,
-                          GeoArrowArrayWriterSetPrecision(&writer_, flat_multipoint));
+    GEOARROW_THROW_NOT_OK(
+        nullptr, GeoArrowArrayWriterSetFlatMultipoint(&writer_, flat_multipoint));
   }
 
   struct GeoArrowVisitor* visitor() {
-- 
2.43.0


From 58f6dba9d9a7daf5aaa93abc2b5583f0070908a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 19/55] fix: release the previous array when an ArrayReader is
 given another one

---
 src/geoarrow/hpp/array_reader.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geoarrow/hpp/array_reader.hpp b/src/geoarrow/hpp/array_reader.hpp
index 3f812b0..09b016f 100644
--- a/src/geoarrow/hpp/array_reader.hpp
+++ b/src/geoarrow/hpp/array_reader.hpp
@@ -46,6 +46,10 @@ class ArrayReader {
   }
 
   void SetArray(struct ArrowArray* array) {
+    if (array_.array.release != nullptr) {
+      array_.array.release(&array_.array);
+    }
+
     std::memcpy(&array_.array, array, sizeof(struct ArrowArray));
     array->release = nullptr;
     SetArrayNonOwning(&array_.array);
-- 
2.43.0


From b68b8397518b6cf2d12b10eeef53946ab31ef7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 20/55] fix: report memory exhaustion when serializing metadata
 or unescaping a CRS

---
 src/geoarrow/hpp/geometry_data_type.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/geoarrow/hpp/geometry_data_type.hpp b/src/geoarrow/hpp/geometry_data_type.hpp
index c55e9b1..f70d26d 100644
--- a/src/geoarrow/hpp/geometry_data_type.hpp
+++ b/src/geoarrow/hpp/geometry_data_type.hpp
@@ -232,10 +232,8 @@ class GeometryDataType {
 
   std::string extension_metadata() const {
     int64_t metadata_size = GeoArrowMetadataSerialize(&metadata_view_, nullptr, 0);
-    char* out = reinterpret_cast<char*>(malloc(metadata_size));
-    GeoArrowMetadataSerialize(&metadata_view_, out, metadata_size);
-    std::string metadata(out, metadata_size);
-    free(out);
+    std::string metadata(metadata_size, '\0');
+    GeoArrowMetadataSerialize(&metadata_view_, &metadata[0], metadata_size);
     return metadata;
   }
 
@@ -266,11 +264,9 @@ class GeometryDataType {
 
   std::string crs() const {
     int64_t len = GeoArrowUnescapeCrs(metadata_view_.crs, nullptr, 0);
-    char* out = reinterpret_cast<char*>(malloc(len));
-    GeoArrowUnescapeCrs(metadata_view_.crs, out, len);
-    std::string out_str(out, len);
-    free(out);
-    return out_str;
+    std::string out(len, '\0');
+    GeoArrowUnescapeCrs(metadata_view_.crs, &out[0], len);
+    return out;
   }
 
   std::string ToString(size_t max_crs_size = 40) const {
-- 
2.43.0


From 81895fbec80f19443fcdd74b0a635a5f4f294c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 21/55] fix: keep the whole size of a buffer view given to
 WKBParser

---
 src/geoarrow/hpp/wkb_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index b82c057..d4d9e38 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -286,7 +286,7 @@ class WKBParser {
   /// cursor
   Status Parse(struct GeoArrowBufferView data, WKBGeometry* out,
                const uint8_t** cursor = nullptr) {
-    return Parse(data.data, static_cast<uint32_t>(data.size_bytes), out, cursor);
+    return Parse(data.data, static_cast<size_t>(data.size_bytes), out, cursor);
   }
 
   /// \brief Parse the specified bytes into out, placing the end of the sequence in
-- 
2.43.0


From 56e17cb24f2d430f77ca24b30d37fb35305ac93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 22/55] fix: start a WKBGeometry without sequences or children

---
 src/geoarrow/hpp/wkb_util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index d4d9e38..110c054 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -256,9 +256,9 @@ class WKBGeometry {
   // Vectors managed privately to ensure that all the stack-allocated memory associated
   // with the geometries is not freed when the vector is resized to zero.
   std::vector<WKBSequence> sequences_;
-  uint32_t num_sequences_;
+  uint32_t num_sequences_{};
   std::vector<WKBGeometry> geometries_;
-  uint32_t num_geometries_;
+  uint32_t num_geometries_{};
 };
 
 /// \brief Parse Well-known binary blobs
-- 
2.43.0


From fb7956a09a4d62f36625726c44a829a4f45c9eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 23/55] fix: forbid copying C++ owners of C objects

---
 src/geoarrow/hpp/array_reader.hpp | 3 +++
 src/geoarrow/hpp/array_writer.hpp | 6 ++++++
 src/geoarrow/hpp/internal.hpp     | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/src/geoarrow/hpp/array_reader.hpp b/src/geoarrow/hpp/array_reader.hpp
index 09b016f..2d1c491 100644
--- a/src/geoarrow/hpp/array_reader.hpp
+++ b/src/geoarrow/hpp/array_reader.hpp
@@ -39,6 +39,9 @@ class ArrayReader {
                           GeoArrowArrayReaderInitFromSchema(&reader_, schema, &error));
   }
 
+  ArrayReader(const ArrayReader&) = delete;
+  ArrayReader& operator=(const ArrayReader&) = delete;
+
   ~ArrayReader() {
     if (reader_.private_data != nullptr) {
       GeoArrowArrayReaderReset(&reader_);
diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index d8c96eb..cc98b8c 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -19,6 +19,9 @@ class ArrayBuilder {
                           GeoArrowBuilderInitFromSchema(&builder_, schema, &error));
   }
 
+  ArrayBuilder(const ArrayBuilder&) = delete;
+  ArrayBuilder& operator=(const ArrayBuilder&) = delete;
+
   ~ArrayBuilder() {
     if (builder_.private_data != nullptr) {
       GeoArrowBuilderReset(&builder_);
@@ -94,6 +97,9 @@ class ArrayWriter {
     GEOARROW_THROW_NOT_OK(nullptr, GeoArrowArrayWriterInitFromSchema(&writer_, schema));
   }
 
+  ArrayWriter(const ArrayWriter&) = delete;
+  ArrayWriter& operator=(const ArrayWriter&) = delete;
+
   ~ArrayWriter() {
     if (writer_.private_data != nullptr) {
       GeoArrowArrayWriterReset(&writer_);
diff --git a/src/geoarrow/hpp/internal.hpp b/src/geoarrow/hpp/internal.hpp
index 6a43eef..0834ace 100644
--- a/src/geoarrow/hpp/internal.hpp
+++ b/src/geoarrow/hpp/internal.hpp
@@ -9,6 +9,9 @@ namespace geoarrow {
 namespace internal {
 struct SchemaHolder {
   struct ArrowSchema schema {};
+  SchemaHolder() = default;
+  SchemaHolder(const SchemaHolder&) = delete;
+  SchemaHolder& operator=(const SchemaHolder&) = delete;
   ~SchemaHolder() {
     if (schema.release != nullptr) {
       schema.release(&schema);
@@ -18,6 +21,9 @@ struct SchemaHolder {
 
 struct ArrayHolder {
   struct ArrowArray array {};
+  ArrayHolder() = default;
+  ArrayHolder(const ArrayHolder&) = delete;
+  ArrayHolder& operator=(const ArrayHolder&) = delete;
   ~ArrayHolder() {
     if (array.release != nullptr) {
       array.release(&array);
-- 
2.43.0


From f49fae62238c93799e8cc5360472be800d31c10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 24/55] fix: release the schema when InitSchema fails and
 tolerate self-move

---
 src/geoarrow/hpp/geometry_data_type.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/geometry_data_type.hpp b/src/geoarrow/hpp/geometry_data_type.hpp
index f70d26d..2f0609e 100644
--- a/src/geoarrow/hpp/geometry_data_type.hpp
+++ b/src/geoarrow/hpp/geometry_data_type.hpp
@@ -39,6 +39,10 @@ class GeometryDataType {
   }
 
   void MoveFrom(GeometryDataType* other) {
+    if (this == other) {
+      return;
+    }
+
     schema_view_ = other->schema_view_;
     metadata_view_ = other->metadata_view_;
     crs_ = std::move(other->crs_);
@@ -211,8 +215,11 @@ class GeometryDataType {
   void InitSchema(struct ArrowSchema* schema_out) const {
     GEOARROW_THROW_NOT_OK(nullptr,
                           GeoArrowSchemaInitExtension(schema_out, schema_view_.type));
-    GEOARROW_THROW_NOT_OK(nullptr,
-                          GeoArrowSchemaSetMetadata(schema_out, &metadata_view_));
+    GeoArrowErrorCode result = GeoArrowSchemaSetMetadata(schema_out, &metadata_view_);
+    if (result != GEOARROW_OK) {
+      schema_out->release(schema_out);
+      throw ::geoarrow::ErrnoException(result, "GeoArrowSchemaSetMetadata()", nullptr);
+    }
   }
 
   void InitStorageSchema(struct ArrowSchema* schema_out) const {
-- 
2.43.0


From 87710a0be1873374e70c744f0ab0abc4ed9fecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 25/55] fix: add GEOARROW_TYPE_BOX to the Python type
 enumeration

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index cb24350..a2bc991 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -67,6 +67,7 @@ cdef extern from "geoarrow_type.h":
         GEOARROW_TYPE_LARGE_WKT = 100004
         GEOARROW_TYPE_WKB_VIEW = 100005
         GEOARROW_TYPE_WKT_VIEW = 100006
+        GEOARROW_TYPE_BOX = 990
         GEOARROW_TYPE_BOX_Z = 1990
         GEOARROW_TYPE_BOX_M = 2990
         GEOARROW_TYPE_BOX_ZM = 3990
-- 
2.43.0


From 682adc2d1196b16326a3627e5bfbfb83876f2948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:04 +0000
Subject: [PATCH 26/55] fix: don't byteswap the NaN fill when copying swapped
 coordinates to more dimensions

---
 src/geoarrow/geoarrow_type_inline.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index da11f69..2d1a9fd 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -543,7 +543,8 @@ static inline void GeoArrowGeometryViewCopyCoordsGeneric(
           src_stride_mapped = src_strides[map[i] + 1];
           out_stride = out_strides[i];
 
-          if (node->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) {
+          // The NaN fill for missing dimensions is always in native endian
+          if (map[i] >= 0 && (node->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN)) {
             uint64_t tmp;
             for (uint32_t j = 0; j < node->size; ++j) {
               memcpy(&tmp, src_mapped, sizeof(double));
-- 
2.43.0


From b8dd77ad94b4bea8cd05b7e64b44875c83f8dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:04 +0000
Subject: [PATCH 27/55] fix: refuse to attach C++ coordinate sequences whose
 dimensions would relabel Z and M

---
 src/geoarrow/hpp/array_util.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index f25e1f3..5c719fc 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -402,6 +402,7 @@ CoordDst CoordCast(CoordSrc src) {
 template <typename T>
 struct BoxXY : public std::array<T, 4> {
   using bound_type = XY<T>;
+  static constexpr enum GeoArrowDimensions dimensions = GEOARROW_DIMENSIONS_XY;
   T xmin() const { return this->at(0); }
   T ymin() const { return this->at(1); }
   T zmin() const { return std::numeric_limits<T>::infinity(); }
@@ -422,6 +423,7 @@ struct BoxXY : public std::array<T, 4> {
 template <typename T>
 struct BoxXYZ : public std::array<T, 6> {
   using bound_type = XYZ<T>;
+  static constexpr enum GeoArrowDimensions dimensions = GEOARROW_DIMENSIONS_XYZ;
   T xmin() const { return this->at(0); }
   T ymin() const { return this->at(1); }
   T zmin() const { return this->at(2); }
@@ -443,6 +445,7 @@ struct BoxXYZ : public std::array<T, 6> {
 template <typename T>
 struct BoxXYM : public std::array<T, 6> {
   using bound_type = XYM<T>;
+  static constexpr enum GeoArrowDimensions dimensions = GEOARROW_DIMENSIONS_XYM;
   T xmin() const { return this->at(0); }
   T ymin() const { return this->at(1); }
   T zmin() const { return std::numeric_limits<T>::infinity(); }
@@ -464,6 +467,7 @@ struct BoxXYM : public std::array<T, 6> {
 template <typename T>
 struct BoxXYZM : public std::array<T, 8> {
   using bound_type = XYZM<T>;
+  static constexpr enum GeoArrowDimensions dimensions = GEOARROW_DIMENSIONS_XYZM;
   T xmin() const { return this->at(0); }
   T ymin() const { return this->at(1); }
   T zmin() const { return this->at(2); }
@@ -548,6 +552,15 @@ struct CoordSequence {
       return EINVAL;
     }
 
+    // Dropping trailing dimensions is fine but viewing M as Z (or Z as M) is not
+    bool drops_trailing = coord_size == 2 ||
+                          (coord_size == 3 &&
+                           value_type::dimensions == GEOARROW_DIMENSIONS_XYZ &&
+                           view->schema_view.dimensions == GEOARROW_DIMENSIONS_XYZM);
+    if (view->schema_view.dimensions != value_type::dimensions && !drops_trailing) {
+      return EINVAL;
+    }
+
     GEOARROW_RETURN_NOT_OK(InitFrom(&view->coords));
     this->offset = view->offset[level];
     this->length = view->length[level];
@@ -725,6 +738,15 @@ struct UnalignedCoordSequence {
       return EINVAL;
     }
 
+    // Dropping trailing dimensions is fine but viewing M as Z (or Z as M) is not
+    bool drops_trailing = coord_size == 2 ||
+                          (coord_size == 3 &&
+                           value_type::dimensions == GEOARROW_DIMENSIONS_XYZ &&
+                           view->schema_view.dimensions == GEOARROW_DIMENSIONS_XYZM);
+    if (view->schema_view.dimensions != value_type::dimensions && !drops_trailing) {
+      return EINVAL;
+    }
+
     GEOARROW_RETURN_NOT_OK(InitFrom(&view->coords));
     this->offset = view->offset[level];
     this->length = view->length[level];
-- 
2.43.0


From 5f0a895e062bfadeee49ba11ae7af80b083ce723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 28/55] fix: recognise extension names and CRS types by their
 exact text

'geoarrow.wkb' was matched as a prefix, and the crs_type values were
accepted by length alone because the comparison inspected the key and
ignored its result.
---
 src/geoarrow/metadata.c    | 10 ++++++----
 src/geoarrow/schema_view.c |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index c6c3c47..e28809e 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -255,13 +255,15 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
       }
     } else if (k.size_bytes == 10 && strncmp(k.data, "\"crs_type\"", 10) == 0) {
       if (v.data[0] == '\"') {
-        if (v.size_bytes == 10 && strncmp(k.data, "\"projjson\"", 10)) {
+        if (v.size_bytes == 10 && strncmp(v.data, "\"projjson\"", 10) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_PROJJSON;
-        } else if (v.size_bytes == 11 && strncmp(k.data, "\"wkt2:2019\"", 11)) {
+        } else if (v.size_bytes == 11 &&
+                   strncmp(v.data, "\"wkt2:2019\"", 11) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_WKT2_2019;
-        } else if (v.size_bytes == 16 && strncmp(k.data, "\"authority_code\"", 16)) {
+        } else if (v.size_bytes == 16 &&
+                   strncmp(v.data, "\"authority_code\"", 16) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_AUTHORITY_CODE;
-        } else if (v.size_bytes == 6 && strncmp(k.data, "\"srid\"", 6)) {
+        } else if (v.size_bytes == 6 && strncmp(v.data, "\"srid\"", 6) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_SRID;
         } else {
           // Accept unrecognized string values but ignore them
diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index 85c1a64..b4757f1 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -312,7 +312,7 @@ static GeoArrowErrorCode GeoArrowSchemaViewInitInternal(
     schema_view->geometry_type = GeoArrowGeometryTypeFromType(schema_view->type);
     schema_view->dimensions = GeoArrowDimensionsFromType(schema_view->type);
     schema_view->coord_type = GeoArrowCoordTypeFromType(schema_view->type);
-  } else if (ext_len >= 12 && strncmp(ext_name, "geoarrow.wkb", 12) == 0) {
+  } else if (ext_len == 12 && strncmp(ext_name, "geoarrow.wkb", 12) == 0) {
     switch (na_schema_view->type) {
       case NANOARROW_TYPE_BINARY:
         schema_view->type = GEOARROW_TYPE_WKB;
-- 
2.43.0


From 4657c9f7bd28a198fd725013747db7f141598671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:12 +0000
Subject: [PATCH 29/55] fix: Keep POINT coordinates after a sequence out of the
 next LINESTRING/MULTIPOINT element

---
 src/geoarrow/native_writer.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 88545fe..2caab53 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -611,6 +611,7 @@ static int ring_end_multipoint(struct GeoArrowVisitor* v) {
   int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
   NANOARROW_RETURN_NOT_OK(
       GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_coord32, 1));
+  private_data->size[1] = 0;
 
   return GEOARROW_OK;
 }
@@ -635,6 +636,7 @@ static int geom_end_multipoint(struct GeoArrowVisitor* v) {
     int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
     NANOARROW_RETURN_NOT_OK(
         GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_coord32, 1));
+    private_data->size[1] = 0;
   }
 
   return GEOARROW_OK;
@@ -654,15 +656,19 @@ static int feat_end_multipoint(struct GeoArrowVisitor* v) {
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
   // If we didn't finish any sequences, finish at least one. This is usually an
-  // EMPTY but could also be a single point.
-  if (private_data->size[0] == 0) {
+  // EMPTY but could also be a single point. Coordinates that were not part of a
+  // finished sequence (e.g., a POINT after a LINESTRING) are a sequence of their own.
+  if (private_data->size[0] == 0 || private_data->size[1] > 0) {
     if (private_data->builder.view.coords.size_coords > 2147483647) {
       return EOVERFLOW;
     }
     int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
     NANOARROW_RETURN_NOT_OK(
         GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_coord32, 1));
-  } else if (private_data->size[0] != 1) {
+    private_data->size[0]++;
+  }
+
+  if (private_data->size[0] != 1) {
     GeoArrowErrorSet(v->error, "Can't convert feature with >1 sequence to LINESTRING");
     return EINVAL;
   }
-- 
2.43.0


From ae9b1ad983ed88281bbef5ddf805ac2583415cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:12 +0000
Subject: [PATCH 30/55] fix: Apply the WKT writer's element size limit after a
 null feature too

---
 src/geoarrow/wkt_writer.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index 824326e..b0f0855 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -248,6 +248,13 @@ static int geom_end_wkt(struct GeoArrowVisitor* v) {
 static int feat_end_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
 
+  if (private->max_element_size_bytes >= 0 &&
+      (private->values.size_bytes - private->values_feat_start) >
+          private->max_element_size_bytes) {
+    private->values.size_bytes =
+        private->values_feat_start + private->max_element_size_bytes;
+  }
+
   if (private->feat_is_null) {
     if (private->validity.buffer.data == NULL) {
       NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private->validity, private->length));
@@ -260,13 +267,6 @@ static int feat_end_wkt(struct GeoArrowVisitor* v) {
     return ArrowBitmapAppend(&private->validity, 1, 1);
   }
 
-  if (private->max_element_size_bytes >= 0 &&
-      (private->values.size_bytes - private->values_feat_start) >
-          private->max_element_size_bytes) {
-    private->values.size_bytes =
-        private->values_feat_start + private->max_element_size_bytes;
-  }
-
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From a5a3fafe18f62cfd503b79e5cf04d14bc4bfe107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:12 +0000
Subject: [PATCH 31/55] fix: Check for offset overflow when appending to a
 native writer

---
 src/geoarrow/native_writer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 2caab53..50a9170 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -157,6 +157,11 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendSize(
   }
 
   int32_t* p_last_offset = private_data->last_offset + offset;
+  if (((int64_t)*p_last_offset + size) > INT32_MAX) {
+    GeoArrowErrorSet(error, "Can't append more than INT32_MAX child elements");
+    return EOVERFLOW;
+  }
+
   (*p_last_offset) += size;
 
   GEOARROW_RETURN_NOT_OK(
-- 
2.43.0


From ff44f58ed0886181862df975208c6427c9b55010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:50 +0000
Subject: [PATCH 32/55] fix: Limit the nesting of collections read from WKT

---
 src/geoarrow/wkt_reader.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 086db8e..272870d 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -380,18 +380,26 @@ static inline int ReadMultipolygon(struct WKTReaderPrivate* s, struct GeoArrowVi
   return GeoArrowWKTAssertWordEmpty(s, v->error);
 }
 
+// Matches the maximum level of the WKB reader
+#define MAX_COLLECTION_LEVEL 255
+
 static inline int ReadTaggedGeometry(struct WKTReaderPrivate* s,
-                                     struct GeoArrowVisitor* v);
+                                     struct GeoArrowVisitor* v, int level);
 
 static inline int ReadGeometryCollection(struct WKTReaderPrivate* s,
-                                         struct GeoArrowVisitor* v) {
+                                         struct GeoArrowVisitor* v, int level) {
+  if (level >= MAX_COLLECTION_LEVEL) {
+    GeoArrowErrorSet(v->error, "WKTReader exceeded maximum recursion");
+    return ENOTSUP;
+  }
+
   GeoArrowWKTSkipWhitespace(s);
   if (PeekChar(s) == '(') {
     GeoArrowWKTAdvanceUnsafe(s, 1);
     GeoArrowWKTSkipWhitespace(s);
 
     // Read the first geometry (there must always be one)
-    NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
+    NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v, level + 1));
     GeoArrowWKTSkipWhitespace(s);
 
     // Read the rest of the geometries
@@ -399,7 +407,7 @@ static inline int ReadGeometryCollection(struct WKTReaderPrivate* s,
       GeoArrowWKTSkipWhitespace(s);
       NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ',', v->error));
       GeoArrowWKTSkipWhitespace(s);
-      NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
+      NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v, level + 1));
       GeoArrowWKTSkipWhitespace(s);
     }
 
@@ -411,7 +419,7 @@ static inline int ReadGeometryCollection(struct WKTReaderPrivate* s,
 }
 
 static inline int ReadTaggedGeometry(struct WKTReaderPrivate* s,
-                                     struct GeoArrowVisitor* v) {
+                                     struct GeoArrowVisitor* v, int level) {
   GeoArrowWKTSkipWhitespace(s);
 
   struct ArrowStringView word = GeoArrowWKTPeekUntilSep(s, 19);
@@ -477,7 +485,7 @@ static inline int ReadTaggedGeometry(struct WKTReaderPrivate* s,
       NANOARROW_RETURN_NOT_OK(ReadMultipolygon(s, v, dimensions));
       break;
     case GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION:
-      NANOARROW_RETURN_NOT_OK(ReadGeometryCollection(s, v));
+      NANOARROW_RETURN_NOT_OK(ReadGeometryCollection(s, v, level));
       break;
     default:
       GeoArrowErrorSet(v->error, "Internal error: unrecognized geometry type id");
@@ -523,7 +531,7 @@ GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* reader,
   s->size_bytes = src.size_bytes;
 
   NANOARROW_RETURN_NOT_OK(v->feat_start(v));
-  NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
+  NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v, 0));
   NANOARROW_RETURN_NOT_OK(v->feat_end(v));
   GeoArrowWKTSkipWhitespace(s);
   if (PeekChar(s) != '\0') {
-- 
2.43.0


From ed3e96366e0df5adb94055817bab8607c33cbab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:50 +0000
Subject: [PATCH 33/55] fix: Reject JSON metadata with an embedded NUL or
 excessive nesting

---
 src/geoarrow/metadata.c | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index e28809e..001b85c 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -106,11 +106,18 @@ static GeoArrowErrorCode FindString(struct ArrowStringView* s,
   return EINVAL;
 }
 
+// Nested lists and objects are located recursively, so their nesting must be limited
+#define MAX_JSON_LEVEL 128
+
 static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
-                                    struct ArrowStringView* out);
+                                    struct ArrowStringView* out, int level);
 
 static GeoArrowErrorCode FindList(struct ArrowStringView* s,
-                                  struct ArrowStringView* out) {
+                                  struct ArrowStringView* out, int level) {
+  if (level >= MAX_JSON_LEVEL) {
+    return ENOTSUP;
+  }
+
   out->data = s->data;
   if (s->data[0] != '[') {
     return EINVAL;
@@ -127,10 +134,10 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
           NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
           break;
         case '[':
-          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value, level + 1));
           break;
         case '{':
-          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value, level + 1));
           break;
         case ']':
           s->size_bytes--;
@@ -138,8 +145,10 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
           out->size_bytes = s->data - out->data;
           return GEOARROW_OK;
         default:
-          break;
+          return EINVAL;
       }
+    } else {
+      return EINVAL;
     }
   }
 
@@ -147,7 +156,11 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
 }
 
 static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
-                                    struct ArrowStringView* out) {
+                                    struct ArrowStringView* out, int level) {
+  if (level >= MAX_JSON_LEVEL) {
+    return ENOTSUP;
+  }
+
   out->data = s->data;
   if (s->data[0] != '{') {
     return EINVAL;
@@ -164,10 +177,10 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
           NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
           break;
         case '[':
-          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value, level + 1));
           break;
         case '{':
-          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value, level + 1));
           break;
         case '}':
           s->size_bytes--;
@@ -175,8 +188,10 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
           out->size_bytes = s->data - out->data;
           return GEOARROW_OK;
         default:
-          break;
+          return EINVAL;
       }
+    } else {
+      return EINVAL;
     }
   }
 
@@ -199,10 +214,10 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
 
     switch (s->data[0]) {
       case '[':
-        NANOARROW_RETURN_NOT_OK(FindList(s, &v));
+        NANOARROW_RETURN_NOT_OK(FindList(s, &v, 0));
         break;
       case '{':
-        NANOARROW_RETURN_NOT_OK(FindObject(s, &v));
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &v, 0));
         break;
       case '\"':
         NANOARROW_RETURN_NOT_OK(FindString(s, &v));
-- 
2.43.0


From 0fbc88e0db03f93ebdb2da8342e051b640071597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:50 +0000
Subject: [PATCH 34/55] fix: Limit the nesting of nodes visited by
 GeoArrowGeometryVisit()

---
 src/geoarrow/geometry.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 469159a..08ec016 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -447,9 +447,17 @@ static GeoArrowErrorCode GeoArrowGeometryVisitSequence(
   return GEOARROW_OK;
 }
 
+// Matches the maximum level of a node (stored as a uint8_t)
+#define MAX_NODE_LEVEL 255
+
 static GeoArrowErrorCode GeoArrowGeometryVisitNode(
-    const struct GeoArrowGeometryNode* node, int64_t* n_nodes,
+    const struct GeoArrowGeometryNode* node, int64_t* n_nodes, int level,
     struct GeoArrowVisitor* v) {
+  if (level > MAX_NODE_LEVEL) {
+    GeoArrowErrorSet(v->error, "GeoArrowGeometryVisit() exceeded maximum recursion");
+    return ENOTSUP;
+  }
+
   if ((*n_nodes)-- <= 0) {
     GeoArrowErrorSet(v->error, "Too few nodes provided to GeoArrowGeometryVisit()");
     return EINVAL;
@@ -482,7 +490,7 @@ static GeoArrowErrorCode GeoArrowGeometryVisitNode(
       const struct GeoArrowGeometryNode* child = node + 1;
       for (uint32_t i = 0; i < node->size; i++) {
         int64_t n_nodes_before_child = *n_nodes;
-        GEOARROW_RETURN_NOT_OK(GeoArrowGeometryVisitNode(child, n_nodes, v));
+        GEOARROW_RETURN_NOT_OK(GeoArrowGeometryVisitNode(child, n_nodes, level + 1, v));
         int64_t nodes_consumed = n_nodes_before_child - *n_nodes;
         child += nodes_consumed;
       }
@@ -501,7 +509,7 @@ GeoArrowErrorCode GeoArrowGeometryViewVisit(struct GeoArrowGeometryView geometry
                                             struct GeoArrowVisitor* v) {
   int64_t n_nodes = geometry.size_nodes;
   GEOARROW_RETURN_NOT_OK(v->feat_start(v));
-  GEOARROW_RETURN_NOT_OK(GeoArrowGeometryVisitNode(geometry.root, &n_nodes, v));
+  GEOARROW_RETURN_NOT_OK(GeoArrowGeometryVisitNode(geometry.root, &n_nodes, 0, v));
   if (n_nodes != 0) {
     GeoArrowErrorSet(
         v->error, "Too many nodes provided to GeoArrowGeometryVisit() for root geometry");
@@ -516,7 +524,7 @@ GeoArrowErrorCode GeoArrowGeometryVisit(const struct GeoArrowGeometry* geometry,
                                         struct GeoArrowVisitor* v) {
   int64_t n_nodes = geometry->size_nodes;
   GEOARROW_RETURN_NOT_OK(v->feat_start(v));
-  GEOARROW_RETURN_NOT_OK(GeoArrowGeometryVisitNode(geometry->root, &n_nodes, v));
+  GEOARROW_RETURN_NOT_OK(GeoArrowGeometryVisitNode(geometry->root, &n_nodes, 0, v));
   if (n_nodes != 0) {
     GeoArrowErrorSet(
         v->error, "Too many nodes provided to GeoArrowGeometryVisit() for root geometry");
-- 
2.43.0


From 956fa39ff9c73be18786b3f22441b6e54e80d52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 35/55] fix: Don't read past the end of JSON metadata

---
 src/geoarrow/metadata.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 001b85c..f119d2c 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -74,7 +74,7 @@ static GeoArrowErrorCode FindNull(struct ArrowStringView* s,
 static GeoArrowErrorCode FindString(struct ArrowStringView* s,
                                     struct ArrowStringView* out) {
   out->data = s->data;
-  if (s->data[0] != '\"') {
+  if (s->size_bytes <= 0 || s->data[0] != '\"') {
     return EINVAL;
   }
 
@@ -119,7 +119,7 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
   }
 
   out->data = s->data;
-  if (s->data[0] != '[') {
+  if (s->size_bytes <= 0 || s->data[0] != '[') {
     return EINVAL;
   }
 
@@ -162,7 +162,7 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
   }
 
   out->data = s->data;
-  if (s->data[0] != '{') {
+  if (s->size_bytes <= 0 || s->data[0] != '{') {
     return EINVAL;
   }
 
@@ -212,6 +212,10 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
     NANOARROW_RETURN_NOT_OK(ParseChar(s, ':'));
     SkipWhitespace(s);
 
+    if (s->size_bytes <= 0) {
+      return EINVAL;
+    }
+
     switch (s->data[0]) {
       case '[':
         NANOARROW_RETURN_NOT_OK(FindList(s, &v, 0));
@@ -291,7 +295,7 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
     }
 
     SkipUntil(s, ",}");
-    if (s->data[0] == ',') {
+    if (s->size_bytes > 0 && s->data[0] == ',') {
       s->size_bytes--;
       s->data++;
     }
-- 
2.43.0


From 63ba1e24e5983e6f48c15679fa6d85620347a2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:51 +0000
Subject: [PATCH 36/55] fix: Validate the number of buffers before reading them
 in GeoArrowArrayViewSetArray()

---
 src/geoarrow/array_view.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/array_view.c b/src/geoarrow/array_view.c
index 96afd83..bf4e3b3 100644
--- a/src/geoarrow/array_view.c
+++ b/src/geoarrow/array_view.c
@@ -204,7 +204,15 @@ static int GeoArrowArrayViewSetArrayInternal(struct GeoArrowArrayView* array_vie
 }
 
 static GeoArrowErrorCode GeoArrowArrayViewSetArraySerialized(
-    struct GeoArrowArrayView* array_view, const struct ArrowArray* array) {
+    struct GeoArrowArrayView* array_view, const struct ArrowArray* array,
+    struct GeoArrowError* error) {
+  if (array->n_buffers != 3) {
+    GeoArrowErrorSet(error,
+                     "Unexpected number of buffers in serialized array "
+                     "in GeoArrowArrayViewSetArray()");
+    return EINVAL;
+  }
+
   array_view->length[0] = array->length;
   array_view->offset[0] = array->offset;
 
@@ -250,7 +258,8 @@ GeoArrowErrorCode GeoArrowArrayViewSetArray(struct GeoArrowArrayView* array_view
   switch (array_view->schema_view.type) {
     case GEOARROW_TYPE_WKT:
     case GEOARROW_TYPE_WKB:
-      NANOARROW_RETURN_NOT_OK(GeoArrowArrayViewSetArraySerialized(array_view, array));
+      NANOARROW_RETURN_NOT_OK(
+          GeoArrowArrayViewSetArraySerialized(array_view, array, error));
       break;
     case GEOARROW_TYPE_BOX:
     case GEOARROW_TYPE_BOX_Z:
@@ -264,6 +273,13 @@ GeoArrowErrorCode GeoArrowArrayViewSetArray(struct GeoArrowArrayView* array_view
       break;
   }
 
+  // All supported types have a validity buffer
+  if (array->n_buffers < 1) {
+    GeoArrowErrorSet(error,
+                     "Unexpected number of buffers in GeoArrowArrayViewSetArray()");
+    return EINVAL;
+  }
+
   array_view->validity_bitmap = array->buffers[0];
   return GEOARROW_OK;
 }
-- 
2.43.0


From 06b7dfc2d4254f22332c3ed557c5323b8885de5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:51 +0000
Subject: [PATCH 37/55] fix: Account for all bytes of WKB coordinate sequences
 without overflow

---
 src/geoarrow/wkb_reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/wkb_reader.c b/src/geoarrow/wkb_reader.c
index d7d0511..fdf8778 100644
--- a/src/geoarrow/wkb_reader.c
+++ b/src/geoarrow/wkb_reader.c
@@ -52,7 +52,7 @@ static inline int WKBReaderReadUInt32(struct WKBReaderPrivate* s, uint32_t* out,
 static inline GeoArrowErrorCode WKBReaderReadNodeCoordinates(
     struct WKBReaderPrivate* s, uint32_t n_coords, uint32_t coord_size_elements,
     struct GeoArrowGeometryNode* node, struct GeoArrowError* error) {
-  int64_t bytes_needed = n_coords * coord_size_elements * sizeof(double);
+  int64_t bytes_needed = (int64_t)n_coords * coord_size_elements * sizeof(double);
   if (s->size_bytes < bytes_needed) {
     GeoArrowErrorSet(
         error,
@@ -71,6 +71,7 @@ static inline GeoArrowErrorCode WKBReaderReadNodeCoordinates(
   }
 
   s->data += bytes_needed;
+  s->size_bytes -= bytes_needed;
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From 9de47804582096a447a6cac2265e1453ace27c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:51 +0000
Subject: [PATCH 38/55] fix: Accept whitespace after the opening parenthesis of
 a flat MULTIPOINT

---
 src/geoarrow/wkt_reader.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 272870d..1406b63 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -200,8 +200,6 @@ static inline int ReadEmptyOrCoordinates(struct WKTReaderPrivate* s,
 static inline int ReadMultipointFlat(struct WKTReaderPrivate* s,
                                      struct GeoArrowVisitor* v,
                                      enum GeoArrowDimensions dimensions) {
-  NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, '(', v->error));
-
   // Read the first coordinate (there must always be one)
   NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
   ResetCoordCache(s);
@@ -285,8 +283,6 @@ static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisi
     // Both MULTIPOINT (1 2, 2 3) and MULTIPOINT ((1 2), (2 3)) have to parse here
     // if it doesn't look like the verbose version, try the flat version
     if (PeekChar(s) != '(' && PeekChar(s) != 'E') {
-      s->data--;
-      s->size_bytes++;
       return ReadMultipointFlat(s, v, dimensions);
     }
 
-- 
2.43.0


From 1cb60dc1701d4b05c021c57e151a9d0b230ae4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:33 +0000
Subject: [PATCH 39/55] fix: Reject invalid dimensions when visiting a
 geometry's coordinates

---
 src/geoarrow/geometry.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 08ec016..9142bac 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -411,6 +411,12 @@ void GeoArrowGeometryInitVisitor(struct GeoArrowGeometry* geom,
 
 static GeoArrowErrorCode GeoArrowGeometryVisitSequence(
     const struct GeoArrowGeometryNode* node, struct GeoArrowVisitor* v) {
+  if (node->dimensions < GEOARROW_DIMENSIONS_XY ||
+      node->dimensions > GEOARROW_DIMENSIONS_XYZM) {
+    GeoArrowErrorSet(v->error, "Invalid dimensions: %d", (int)node->dimensions);
+    return EINVAL;
+  }
+
   double coords[COORD_CACHE_SIZE_ELEMENTS];
   struct GeoArrowCoordView coord_view;
   coord_view.n_values = _GeoArrowkNumDimensions[node->dimensions];
-- 
2.43.0


From 095b2ac65ccc6da152a47d1fe142170d8e3d17dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:18 +0000
Subject: [PATCH 40/55] fix: Limit the nesting of collections parsed by the C++
 WKB parser

---
 src/geoarrow/hpp/wkb_util.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index 110c054..a4d53ef 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -277,7 +277,9 @@ class WKBParser {
     INVALID_ENDIAN,
     /// \brief An unexpected geometry type value was encountered (e.g., corrupted data or
     /// curved/complex geometry)
-    INVALID_GEOMETRY_TYPE
+    INVALID_GEOMETRY_TYPE,
+    /// \brief Collections were nested more deeply than supported
+    TOO_MANY_LEVELS
   };
 
   WKBParser() = default;
@@ -295,7 +297,7 @@ class WKBParser {
                const uint8_t** cursor = nullptr) {
     data_ = cursor_ = data;
     remaining_ = size;
-    Status status = ParseGeometry(out);
+    Status status = ParseGeometry(out, 0);
     if (status != OK) {
       return status;
     }
@@ -323,6 +325,8 @@ class WKBParser {
         return "INVALID_ENDIAN";
       case INVALID_GEOMETRY_TYPE:
         return "INVALID_GEOMETRY_TYPE";
+      case TOO_MANY_LEVELS:
+        return "TOO_MANY_LEVELS";
       default:
         return "UNKNOWN";
     }
@@ -342,8 +346,14 @@ class WKBParser {
   static constexpr uint32_t kEWKBM = 0x40000000;
   static constexpr uint32_t kEWKBSrid = 0x20000000;
   static constexpr uint32_t kEWKBMask = 0x00FFFFFF;
+  // Matches the maximum level of the GeoArrowWKBReader
+  static constexpr int kMaxLevel = 255;
+
+  Status ParseGeometry(WKBGeometry* out, int level) {
+    if (level > kMaxLevel) {
+      return TOO_MANY_LEVELS;
+    }
 
-  Status ParseGeometry(WKBGeometry* out) {
     out->Reset();
 
     Status status = CheckRemaining(sizeof(uint8_t) + sizeof(uint32_t));
@@ -411,7 +421,7 @@ class WKBParser {
       case GEOARROW_GEOMETRY_TYPE_MULTIPOLYGON:
       case GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION:
         out->geometry_type = static_cast<enum GeoArrowGeometryType>(geometry_type);
-        return ParseCollection(out);
+        return ParseCollection(out, level);
       default:
         return INVALID_GEOMETRY_TYPE;
     }
@@ -464,7 +474,7 @@ class WKBParser {
     return OK;
   }
 
-  Status ParseCollection(WKBGeometry* out) {
+  Status ParseCollection(WKBGeometry* out, int level) {
     Status status = CheckRemaining(sizeof(uint32_t));
     if (status != OK) {
       return status;
@@ -472,7 +482,7 @@ class WKBParser {
 
     uint32_t size = ReadUInt32Unchecked();
     for (uint32_t i = 0; i < size; ++i) {
-      status = ParseGeometry(out->AppendGeometry());
+      status = ParseGeometry(out->AppendGeometry(), level + 1);
       if (status != OK) {
         return status;
       }
-- 
2.43.0


From 4260684f7de12e9e44503572f97766bbe657ff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 41/55] fix: Include <cstring> where array_util.hpp uses memcpy

---
 src/geoarrow/hpp/array_util.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index 5c719fc..7ce54a3 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -3,6 +3,7 @@
 #define GEOARROW_HPP_ARRAY_UTIL_INCLUDED
 
 #include <array>
+#include <cstring>
 #include <iterator>
 #include <limits>
 #include <type_traits>
-- 
2.43.0


From 8a4c02ea8d1254c6ec48e32e5ab4aaf48b92ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 42/55] fix: Refuse numbers followed by other characters when
 parsing with fast_float

---
 src/geoarrow/double_parse_fast_float.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/double_parse_fast_float.cc b/src/geoarrow/double_parse_fast_float.cc
index db57722..7bd5453 100644
--- a/src/geoarrow/double_parse_fast_float.cc
+++ b/src/geoarrow/double_parse_fast_float.cc
@@ -13,7 +13,7 @@ extern "C" GeoArrowErrorCode GeoArrowFromChars(const char* first, const char* la
   auto answer = fast_float::from_chars(first, last, *out);
 #endif
 
-  if (answer.ec != std::errc()) {
+  if (answer.ec != std::errc() || answer.ptr != last) {
     return EINVAL;
   } else {
     return GEOARROW_OK;
-- 
2.43.0


From 882041c1deb4ddee114dd62ef8e6175216b19517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 43/55] fix: Keep the zeroes of whole numbers printed with
 precision zero without ryu

---
 src/geoarrow/double_print.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geoarrow/double_print.c b/src/geoarrow/double_print.c
index a4f8d3f..bbdafc5 100644
--- a/src/geoarrow/double_print.c
+++ b/src/geoarrow/double_print.c
@@ -32,6 +32,11 @@ int64_t GeoArrowPrintDouble(double f, uint32_t precision, char* result) {
     n_chars = 39;
   }
 
+  // Without decimals there are only significant zeroes
+  if (precision == 0) {
+    return n_chars;
+  }
+
   // Strip trailing zeroes + decimal
   for (int64_t i = n_chars - 1; i >= 0; i--) {
     if (result[i] == '0') {
-- 
2.43.0


From 2a2ded6aa2d77890dbffa70c3e830d66e89115ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 44/55] fix: Raise the C error when CArrayView can't set its
 array

The Error class has no attribute message: the branch raised AttributeError and
the message and code were lost.
---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index a2bc991..ab25dd5 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -558,7 +558,7 @@ cdef class CArrayView:
 
         result = GeoArrowArrayViewSetArray(&self.c_array_view, &array.c_array, &error.c_error)
         if result != GEOARROW_OK:
-            raise ValueError(error.message.decode('UTF-8'))
+            error.raise_message("GeoArrowArrayViewSetArray()", result)
 
     def buffers(self):
         buffers = []
-- 
2.43.0


From 86554963506fc63f9c73e1e6fb13ba1a819d7d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 45/55] fix: Name the kernel in the error raised when CKernel
 can't be created

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index ab25dd5..4f83271 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -490,7 +490,7 @@ cdef class CKernel:
         self.cname_str = cname.decode("UTF-8")
         cdef int result = GeoArrowKernelInit(&self.c_kernel, cname, NULL)
         if result != GEOARROW_OK:
-            Error.raise_error("GeoArrowKernelInit('{self.cname_str}'>)", result)
+            Error.raise_error(f"GeoArrowKernelInit('{self.cname_str}'>)", result)
 
     def __dealloc__(self):
         if self.c_kernel.release != NULL:
-- 
2.43.0


From 1420ae6daeb9587fd1dc555ce071f2d63f0bdfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 46/55] fix: Translate exceptions thrown by
 GeometryDataType::crs() and ToString()

Both build a std::string and can throw: undeclared, an exception terminates the
interpreter.
---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 4f83271..c2613d4 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -240,8 +240,8 @@ cdef extern from "geoarrow.hpp" namespace "geoarrow":
         int num_dimensions()
         GeoArrowEdgeType edge_type()
         GeoArrowCrsType crs_type()
-        string crs()
-        string ToString()
+        string crs() except +ValueError
+        string ToString() except +ValueError
 
         GeometryDataType WithGeometryType(GeoArrowGeometryType geometry_type) except +ValueError
         GeometryDataType WithCoordType(GeoArrowCoordType coord_type) except +ValueError
-- 
2.43.0


From 1e0b912f481aa8d6c343e44448e4defa1b2b2d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 47/55] fix: Return every buffer of a CArrayView with its
 extent

The offsets of all but the last inner level were dropped. The sizes of the inner
buffers ignored the array offsets of their level and the first offset (so that a
sliced array lost its last coordinates), and an array with no elements but a
non-zero offset exposed more offsets than the one the C library provides. Each
buffer now starts at the array offset of its level and covers every element the
level above refers to.
---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 38 ++++++++++-------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index c2613d4..13d5f9a 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -562,51 +562,47 @@ cdef class CArrayView:
 
     def buffers(self):
         buffers = []
-        cdef int64_t length
+        cdef GeoArrowArrayView* view = &self.c_array_view
+        cdef GeoArrowCoordView* coords = &view.coords
+        cdef int64_t start
+        # The number of elements of the array at the current level
+        cdef int64_t length = view.length[0]
 
         # Validity not quite implemented
         buf = None
         buffers.append(buf)
 
-        if self.c_array_view.n_offsets > 0:
+        for i in range(view.n_offsets):
+            # Elements are relative to the array offset of their level. There is
+            # nothing to skip in the offsets of an array with no elements.
+            start = view.offset[i] if view.length[i] > 0 else 0
             buf = CArrayViewBuffer(
                 self,
-                <uintptr_t>self.c_array_view.offsets[0],
+                <uintptr_t>(view.offsets[i] + start),
                 4,
-                self.c_array_view.offset[0] + self.c_array_view.length[0] + 1,
+                length + 1 if view.offsets[i] != NULL else 0,
                 'i'
             )
             buffers.append(buf)
+            length = view.last_offset[i]
 
-        if self.c_array_view.n_offsets > 1:
-            for i in range(self.c_array_view.n_offsets - 1):
-                length = self.c_array_view.last_offset[i]
-                buf = CArrayViewBuffer(
-                    self,
-                    <uintptr_t>self.c_array_view.offsets[i + 1],
-                    4,
-                    length + 1,
-                    'i'
-                )
-            buffers.append(buf)
-
-        cdef GeoArrowCoordView* coords = &self.c_array_view.coords
+        start = view.offset[view.n_offsets] * coords.coords_stride
         if coords.coords_stride == 1:
             for i in range(coords.n_values):
                 buf = CArrayViewBuffer(
                     self,
-                    <uintptr_t>coords.values[i],
+                    <uintptr_t>(coords.values[i] + start),
                     8,
-                    coords.n_coords,
+                    length,
                     'd'
                 )
                 buffers.append(buf)
         elif coords.coords_stride == coords.n_values:
             buf = CArrayViewBuffer(
                 self,
-                <uintptr_t>coords.values[0],
+                <uintptr_t>(coords.values[0] + start),
                 8,
-                coords.n_coords * coords.n_values,
+                length * coords.n_values,
                 'd'
             )
             buffers.append(buf)
-- 
2.43.0


From 11ebcc6a65a243457fa21ad2e6497bc1d7cfd718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 48/55] fix: Only borrow contiguous, exported memory in
 CBuilder.set_buffer_*()

A strided buffer was taken as if it were contiguous (reading memory that is not
part of it), an empty one raised IndexError, and nothing kept a resizable object
such as a bytearray from moving its memory: hold the memoryview instead of the
object.
---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 13d5f9a..aaf4843 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -665,20 +665,26 @@ cdef class CBuilder:
         GeoArrowBuilderReset(&self.c_builder)
 
     def set_buffer_uint8(self, int64_t i, object obj):
-        cdef const unsigned char[:] view = memoryview(obj)
-        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0])
+        mem = memoryview(obj)
+        cdef const unsigned char[::1] view = mem
+        cdef const void* ptr = &(view[0]) if view.shape[0] > 0 else NULL
+        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>mem, ptr, view.shape[0])
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
     def set_buffer_int32(self, int64_t i, object obj):
-        cdef const int32_t[:] view = memoryview(obj)
-        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0] * 4)
+        mem = memoryview(obj)
+        cdef const int32_t[::1] view = mem
+        cdef const void* ptr = &(view[0]) if view.shape[0] > 0 else NULL
+        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>mem, ptr, view.shape[0] * 4)
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
     def set_buffer_double(self, int64_t i, object obj):
-        cdef const double[:] view = memoryview(obj)
-        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0] * 8)
+        mem = memoryview(obj)
+        cdef const double[::1] view = mem
+        cdef const void* ptr = &(view[0]) if view.shape[0] > 0 else NULL
+        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>mem, ptr, view.shape[0] * 8)
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
-- 
2.43.0


From bab0a04fd4f639d45c3d6a85a5096548aacae713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 49/55] fix: Hold the GIL when releasing a buffer that belongs
 to Python

The array built by a CBuilder may be released from any thread (or by a kernel
whose push_batch() runs without the GIL).
---
 .../src/geoarrow/c/geoarrow_python/geoarrow_python.h          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h b/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
index 7c8dd8e..5a60c09 100644
--- a/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
+++ b/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
@@ -7,9 +7,11 @@
 #include "geoarrow/geoarrow.h"
 
 static void PyGeoArrowBufferFree(uint8_t* ptr, int64_t size, void* private_data) {
-  // Acquire the GIL? This buffer very well maybe freed from another thread.
+  // This buffer may very well be freed from another thread or without the GIL
   PyObject* obj = (PyObject*)private_data;
+  PyGILState_STATE gil_state = PyGILState_Ensure();
   Py_DECREF(obj);
+  PyGILState_Release(gil_state);
 }
 
 static GeoArrowErrorCode GeoArrowBuilderSetPyBuffer(struct GeoArrowBuilder* builder,
-- 
2.43.0


From c5b60bfef7f4ecedf6df28c430090aff50a6323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 50/55] fix: Refuse released arrays before they reach the C
 library

The members of a released ArrowArray other than release are dangling: CArrayView
and CKernel.push_batch() read freed memory.
---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index aaf4843..468e8ea 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -341,6 +341,10 @@ cdef class ArrayHolder:
     def is_valid(self):
         return self.c_array.release != NULL
 
+    def _assert_valid(self):
+        if self.c_array.release == NULL:
+            raise ValueError('Array is released')
+
     def release(self):
         if self.c_array.release == NULL:
             raise ValueError('Array is already released')
@@ -507,6 +511,7 @@ cdef class CKernel:
         return out
 
     def push_batch(self, ArrayHolder array):
+        array._assert_valid()
         cdef Error error = Error()
         out = ArrayHolder()
         cdef int result
@@ -528,6 +533,7 @@ cdef class CKernel:
             error.raise_message(f"GeoArrowKernel<{self.cname_str}>::finish()", result)
 
     def push_batch_agg(self, ArrayHolder array):
+        array._assert_valid()
         cdef Error error = Error()
         cdef int result = self.c_kernel.push_batch(&self.c_kernel, &array.c_array,
                                                    NULL, &error.c_error)
@@ -549,6 +555,7 @@ cdef class CArrayView:
     cdef object _base
 
     def __cinit__(self, ArrayHolder array, SchemaHolder schema):
+        array._assert_valid()
         self._base = array
 
         cdef Error error = Error()
-- 
2.43.0


From b119d7dc56ca0d4082f78331bb78d1cda671600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:48 +0000
Subject: [PATCH 51/55] fix: Refuse None where a schema or array holder is
 needed

The members of the C structure of None were passed to the C library: a crash.
---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 468e8ea..80029c7 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -476,12 +476,12 @@ cdef class CGeometryDataType:
         return CGeometryDataType._move_from_ctype(&ctype)
 
     @staticmethod
-    def FromExtension(SchemaHolder schema):
+    def FromExtension(SchemaHolder schema not None):
         cdef GeometryDataType ctype = GeometryDataType.Make1(&schema.c_schema)
         return CGeometryDataType._move_from_ctype(&ctype)
 
     @staticmethod
-    def FromStorage(SchemaHolder schema, string extension_name, string extension_metadata):
+    def FromStorage(SchemaHolder schema not None, string extension_name, string extension_metadata):
         cdef GeometryDataType ctype = GeometryDataType.Make2(&schema.c_schema, extension_name, extension_metadata)
         return CGeometryDataType._move_from_ctype(&ctype)
 
@@ -500,7 +500,7 @@ cdef class CKernel:
         if self.c_kernel.release != NULL:
             self.c_kernel.release(&self.c_kernel)
 
-    def start(self, SchemaHolder schema, const char* options):
+    def start(self, SchemaHolder schema not None, const char* options):
         cdef Error error = Error()
         out = SchemaHolder()
         cdef int result = self.c_kernel.start(&self.c_kernel, &schema.c_schema,
@@ -510,7 +510,7 @@ cdef class CKernel:
 
         return out
 
-    def push_batch(self, ArrayHolder array):
+    def push_batch(self, ArrayHolder array not None):
         array._assert_valid()
         cdef Error error = Error()
         out = ArrayHolder()
@@ -532,7 +532,7 @@ cdef class CKernel:
         if result != GEOARROW_OK:
             error.raise_message(f"GeoArrowKernel<{self.cname_str}>::finish()", result)
 
-    def push_batch_agg(self, ArrayHolder array):
+    def push_batch_agg(self, ArrayHolder array not None):
         array._assert_valid()
         cdef Error error = Error()
         cdef int result = self.c_kernel.push_batch(&self.c_kernel, &array.c_array,
@@ -554,7 +554,7 @@ cdef class CArrayView:
     cdef GeoArrowArrayView c_array_view
     cdef object _base
 
-    def __cinit__(self, ArrayHolder array, SchemaHolder schema):
+    def __cinit__(self, ArrayHolder array not None, SchemaHolder schema not None):
         array._assert_valid()
         self._base = array
 
@@ -661,7 +661,7 @@ cdef class CBuilder:
     cdef GeoArrowBuilder c_builder
     cdef SchemaHolder _schema
 
-    def __cinit__(self, SchemaHolder schema):
+    def __cinit__(self, SchemaHolder schema not None):
         self._schema = schema
         cdef Error error = Error()
         cdef int result = GeoArrowBuilderInitFromSchema(&self.c_builder, &schema.c_schema, &error.c_error)
-- 
2.43.0


From ab671cc0b3aca13ee727629439c9ad2dcb3ac209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:48 +0000
Subject: [PATCH 52/55] fix: Only process batches after a kernel has been
 started

push_batch() after a failed start() of as_geoarrow used a writer that had not
been initialized (or after a failed second start(), a reader that was reset).
---
 src/geoarrow/kernel.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index 06964c9..e66b67e 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -239,21 +239,27 @@ static int kernel_visitor_start(struct GeoArrowKernel* kernel, struct ArrowSchem
     case GEOARROW_TYPE_UNINITIALIZED:
       return EINVAL;
     default:
+      kernel->push_batch = &kernel_push_batch_void_agg;
       if (private_data->reader.private_data != NULL) {
         GeoArrowArrayReaderReset(&private_data->reader);
       }
 
       NANOARROW_RETURN_NOT_OK(
           GeoArrowArrayReaderInitFromSchema(&private_data->reader, schema, error));
-      if (private_data->visit_by_feature) {
-        kernel->push_batch = &kernel_push_batch_by_feature;
-      } else {
-        kernel->push_batch = &kernel_push_batch;
-      }
       break;
   }
 
-  return private_data->finish_start(private_data, schema, options, out, error);
+  NANOARROW_RETURN_NOT_OK(
+      private_data->finish_start(private_data, schema, options, out, error));
+
+  // Only process batches once everything they need has been initialized
+  if (private_data->visit_by_feature) {
+    kernel->push_batch = &kernel_push_batch_by_feature;
+  } else {
+    kernel->push_batch = &kernel_push_batch;
+  }
+
+  return GEOARROW_OK;
 }
 
 // Kernel visit_void_agg
-- 
2.43.0


From 7577ff2f87de430b3c3d5b63c69836c42fd98009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:18 +0000
Subject: [PATCH 53/55] fix: Refuse a missing output in kernels that write one

A kernel whose push_batch() or finish() has a result wrote it through NULL when
it was called as a kernel of the other kind (e.g. CKernel.push_batch_agg() of
format_wkt), where the kernels of the other kind return EINVAL.
---
 src/geoarrow/kernel.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index e66b67e..fadb2e3 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -26,6 +26,10 @@ static int kernel_push_batch_void(struct GeoArrowKernel* kernel, struct ArrowArr
   NANOARROW_UNUSED(array);
   NANOARROW_UNUSED(error);
 
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   struct ArrowArray tmp;
   NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(&tmp, NANOARROW_TYPE_NA));
   tmp.length = array->length;
@@ -74,9 +78,12 @@ static int kernel_push_batch_void_agg(struct GeoArrowKernel* kernel,
 static int kernel_finish_void_agg(struct GeoArrowKernel* kernel, struct ArrowArray* out,
                                   struct GeoArrowError* error) {
   NANOARROW_UNUSED(kernel);
-  NANOARROW_UNUSED(out);
   NANOARROW_UNUSED(error);
 
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   struct ArrowArray tmp;
   NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(&tmp, NANOARROW_TYPE_NA));
   tmp.length = 1;
@@ -310,6 +317,10 @@ static int finish_start_format_wkt(struct GeoArrowVisitorKernelPrivate* private_
 static int finish_push_batch_format_wkt(struct GeoArrowVisitorKernelPrivate* private_data,
                                         struct ArrowArray* out,
                                         struct GeoArrowError* error) {
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   return GeoArrowWKTWriterFinish(&private_data->wkt_writer, out, error);
 }
 
@@ -353,6 +364,10 @@ static int finish_start_as_geoarrow(struct GeoArrowVisitorKernelPrivate* private
 static int finish_push_batch_as_geoarrow(
     struct GeoArrowVisitorKernelPrivate* private_data, struct ArrowArray* out,
     struct GeoArrowError* error) {
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   return GeoArrowArrayWriterFinish(&private_data->writer, out, error);
 }
 
@@ -435,6 +450,10 @@ static int kernel_finish_unique_geometry_types_agg(struct GeoArrowKernel* kernel
                                                    struct GeoArrowError* error) {
   NANOARROW_UNUSED(error);
 
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   struct GeoArrowVisitorKernelPrivate* private_data =
       (struct GeoArrowVisitorKernelPrivate*)kernel->private_data;
   uint64_t result_mask = private_data->geometry_types_private.geometry_types_mask;
@@ -656,6 +675,10 @@ static int kernel_finish_box_agg(struct GeoArrowKernel* kernel, struct ArrowArra
   struct GeoArrowVisitorKernelPrivate* private_data =
       (struct GeoArrowVisitorKernelPrivate*)kernel->private_data;
 
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   NANOARROW_RETURN_NOT_OK(box_flush(private_data));
   NANOARROW_RETURN_NOT_OK(box_finish(private_data, out, (struct ArrowError*)error));
   return GEOARROW_OK;
@@ -681,6 +704,10 @@ static int finish_start_box(struct GeoArrowVisitorKernelPrivate* private_data,
 
 static int finish_push_batch_box(struct GeoArrowVisitorKernelPrivate* private_data,
                                  struct ArrowArray* out, struct GeoArrowError* error) {
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   NANOARROW_RETURN_NOT_OK(box_finish(private_data, out, (struct ArrowError*)error));
   return GEOARROW_OK;
 }
-- 
2.43.0


From b8db25b0ceb25741c8ce15587b58a335debb3ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:18 +0000
Subject: [PATCH 54/55] fix: Don't pass an output to finish() of a kernel that
 has none

CKernel.finish() always failed for the kernels it exists for (void, format_wkt,
as_geoarrow, box): their finish() refuses an output.
---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 80029c7..4646dee 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -525,10 +525,9 @@ cdef class CKernel:
 
     def finish(self):
         cdef Error error = Error()
-        out = ArrayHolder()
         cdef int result
         with nogil:
-            result = self.c_kernel.finish(&self.c_kernel, &out.c_array, &error.c_error)
+            result = self.c_kernel.finish(&self.c_kernel, NULL, &error.c_error)
         if result != GEOARROW_OK:
             error.raise_message(f"GeoArrowKernel<{self.cname_str}>::finish()", result)
 
-- 
2.43.0


From 528edaae404fbfb6deb018af6c09d034bdc96af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 55/55] fix: Raise the C error even if its message can't be
 decoded

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 4646dee..af9336f 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -296,7 +296,7 @@ cdef class Error:
         self.c_error.message[0] = 0
 
     def raise_message(self, what, code):
-        raise GeoArrowCException(what, code, self.c_error.message.decode("UTF-8"))
+        raise GeoArrowCException(what, code, self.c_error.message.decode("UTF-8", "replace"))
 
     @staticmethod
     def raise_error(what, code):
-- 
2.43.0

