ARR='src/geoarrow/array_view.c'
COMMON=r'''
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"
#define CK(x) do { int r_ = (x); if (r_ != 0) { fprintf(stderr, "%s:%d: %s -> %d\n", __FILE__, __LINE__, #x, r_); return 2; } } while (0)
#define REQ(x) do { if (!(x)) { fprintf(stderr, "%s:%d: %s does not hold\n", __FILE__, __LINE__, #x); return 1; } } while (0)
'''
S={}
S["e01-wkt-later-ring"]=dict(prop="E01",needs="a ring_end callback that fails on the second or later ring of a WKT polygon",
 what="the WKT reader drops the error of ring_end for every ring but the first, so the visit goes on and reports success",
 edits=[("src/geoarrow/wkt_reader.c","""      NANOARROW_RETURN_NOT_OK(ReadEmptyOrCoordinates(s, v));
      NANOARROW_RETURN_NOT_OK(v->ring_end(v));
""","""      NANOARROW_RETURN_NOT_OK(ReadEmptyOrCoordinates(s, v));
      v->ring_end(v);
""")],demo=COMMON+r'''
static int n;
static int re(struct GeoArrowVisitor* v) { return ++n == 2 ? EIO : 0; }
int main(void) {
  struct GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); v.ring_end = &re;
  struct GeoArrowWKTReader r; CK(GeoArrowWKTReaderInit(&r));
  const char* s = "POLYGON ((0 0, 1 0, 0 1, 0 0), (2 2, 3 2, 2 3, 2 2))";
  struct GeoArrowStringView sv = {s, (int64_t)strlen(s)};
  int rc = GeoArrowWKTReaderVisit(&r, sv, &v);
  GeoArrowWKTReaderReset(&r);
  REQ(rc == EIO);
  return 0;
}
''')
S["v01-empty-member-polygon"]=dict(prop="V01",needs="a native multipolygon array whose feature holds a polygon without rings",
 what="a member polygon without rings is opened but never closed",
 edits=[(ARR,"""          NANOARROW_RETURN_NOT_OK(v->ring_end(v));
        }

        NANOARROW_RETURN_NOT_OK(v->geom_end(v));
      }

      NANOARROW_RETURN_NOT_OK(v->geom_end(v));
    } else {
      NANOARROW_RETURN_NOT_OK(v->null_feat(v));""","""          NANOARROW_RETURN_NOT_OK(v->ring_end(v));
        }

        if (n_rings > 0) {
          NANOARROW_RETURN_NOT_OK(v->geom_end(v));
        }
      }

      NANOARROW_RETURN_NOT_OK(v->geom_end(v));
    } else {
      NANOARROW_RETURN_NOT_OK(v->null_feat(v));""")],demo=COMMON+r'''
static int depth;
static int gs(struct GeoArrowVisitor* v, enum GeoArrowGeometryType t, enum GeoArrowDimensions d) { depth++; return 0; }
static int ge(struct GeoArrowVisitor* v) { depth--; return 0; }
int main(void) {
  struct GeoArrowBuilder b; CK(GeoArrowBuilderInitFromType(&b, GEOARROW_TYPE_MULTIPOLYGON));
  int32_t o0[] = {0, 1}, o1[] = {0, 0}, o2[] = {0};
  CK(GeoArrowBuilderAppendBuffer(&b, 1, (struct GeoArrowBufferView){(uint8_t*)o0, sizeof(o0)}));
  CK(GeoArrowBuilderAppendBuffer(&b, 2, (struct GeoArrowBufferView){(uint8_t*)o1, sizeof(o1)}));
  CK(GeoArrowBuilderAppendBuffer(&b, 3, (struct GeoArrowBufferView){(uint8_t*)o2, sizeof(o2)}));
  struct ArrowArray a; CK(GeoArrowBuilderFinish(&b, &a, NULL)); GeoArrowBuilderReset(&b);
  struct GeoArrowArrayView av; CK(GeoArrowArrayViewInitFromType(&av, GEOARROW_TYPE_MULTIPOLYGON));
  CK(GeoArrowArrayViewSetArray(&av, &a, NULL));
  struct GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); v.geom_start = &gs; v.geom_end = &ge;
  CK(GeoArrowArrayViewVisitNative(&av, 0, 1, &v));
  a.release(&a);
  REQ(depth == 0);
  return 0;
}
''')
WRAP=r'''
static long live;
void* __real_malloc(size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
static long fail_at = -1, calls;
void* __wrap_malloc(size_t n) { if (fail_at >= 0 && calls++ == fail_at) return NULL; void* p = __real_malloc(n); if (p) live++; return p; }
void* __wrap_realloc(void* o, size_t n) { if (fail_at >= 0 && calls++ == fail_at) return NULL; void* p = __real_realloc(o, n); if (p && !o) live++; return p; }
void __wrap_free(void* p) { if (p) live--; __real_free(p); }
'''
WL="-Wl,--wrap=malloc -Wl,--wrap=realloc -Wl,--wrap=free"
S["r01-box-buffer"]=dict(prop="R01",needs="a box kernel released after batches were pushed but before the result is finished",
 what="the fourth bound's buffer is never freed when the kernel is released",
 edits=[("src/geoarrow/kernel.c","""  for (int i = 0; i < 4; i++) {
    ArrowBufferReset(&private_data->box2d_private.values[i]);
  }""","""  for (int i = 0; i < 3; i++) {
    ArrowBufferReset(&private_data->box2d_private.values[i]);
  }""")],link=WL,demo=COMMON+WRAP+r'''
int main(void) {
  struct ArrowSchema s, os; struct GeoArrowKernel k;
  struct GeoArrowError err;
  CK(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_WKT));
  struct GeoArrowWKTWriter w; CK(GeoArrowWKTWriterInit(&w));
  struct GeoArrowVisitor v; GeoArrowWKTWriterInitVisitor(&w, &v);
  double xy[2] = {1, 2}; struct GeoArrowCoordView cv; memset(&cv, 0, sizeof(cv));
  cv.values[0] = xy; cv.values[1] = xy + 1; cv.n_coords = 1; cv.n_values = 2; cv.coords_stride = 2;
  CK(v.feat_start(&v)); CK(v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_POINT, GEOARROW_DIMENSIONS_XY));
  CK(v.coords(&v, &cv)); CK(v.geom_end(&v)); CK(v.feat_end(&v));
  struct ArrowArray a; CK(GeoArrowWKTWriterFinish(&w, &a, NULL)); GeoArrowWKTWriterReset(&w);
  long before = live;
  CK(GeoArrowKernelInit(&k, "box", NULL));
  CK(k.start(&k, &s, NULL, &os, &err));
  /* an array whose second element cannot be parsed: the batch fails after one box was buffered */
  int32_t* off = (int32_t*)a.buffers[1];
  struct ArrowArray out; out.release = NULL;
  static int32_t o2[3]; static char text[64];
  strcpy(text, "POINT (1 2)NOPE"); o2[0] = 0; o2[1] = 11; o2[2] = 15;
  const void* bufs[3] = {NULL, o2, text}; struct ArrowArray fake = a; fake.buffers = bufs; fake.length = 2; fake.null_count = 0;
  int rc = k.push_batch(&k, &fake, &out, &err);
  if (out.release) out.release(&out);
  k.release(&k); os.release(&os);
  REQ(rc != 0);
  REQ(live == before);
  return 0;
}
''')
S["r02-writer-reset"]=dict(prop="R02",needs="an owner that tests private_data before resetting a native-output array writer a second time",
 what="GeoArrowArrayWriterReset leaves private_data pointing at freed memory when the output is native",
 edits=[("src/geoarrow/array_writer.c","""    GeoArrowNativeWriterReset(&private_data->native_writer);
  }

  ArrowFree(private_data);
  writer->private_data = NULL;""","""    GeoArrowNativeWriterReset(&private_data->native_writer);
    ArrowFree(private_data);
    return;
  }

  ArrowFree(private_data);
  writer->private_data = NULL;""")],demo=COMMON+r'''
int main(void) {
  struct GeoArrowArrayWriter w;
  CK(GeoArrowArrayWriterInitFromType(&w, GEOARROW_TYPE_WKT)); GeoArrowArrayWriterReset(&w); REQ(w.private_data == NULL);
  CK(GeoArrowArrayWriterInitFromType(&w, GEOARROW_TYPE_POINT)); GeoArrowArrayWriterReset(&w); REQ(w.private_data == NULL);
  return 0;
}
''')
S["e02-deallocator"]=dict(prop="E02",needs="malloc failing while a caller-owned buffer is attached to a builder",
 what="the wrapper block for the caller's free function is used without checking that it was allocated",
 edits=[("src/geoarrow/builder.c","""  if (deallocator == NULL) {
    return ENOMEM;
  }

  deallocator->custom_free = custom_free;
  deallocator->private_data = private_data;
""","""  deallocator->custom_free = custom_free;
  deallocator->private_data = private_data;
""")],link=WL,demo=COMMON+WRAP+r'''
static void nofree(uint8_t* p, int64_t n, void* d) {}
int main(void) {
  struct GeoArrowBuilder b; CK(GeoArrowBuilderInitFromType(&b, GEOARROW_TYPE_INTERLEAVED_POINT));
  static double xy[2]; struct GeoArrowBufferView bv = {(const uint8_t*)xy, sizeof(xy)};
  fail_at = 0; calls = 0;
  int rc = GeoArrowBuilderSetOwnedBuffer(&b, 1, bv, &nofree, NULL);
  fail_at = -1;
  REQ(rc == ENOMEM);
  GeoArrowBuilderReset(&b);
  return 0;
}
''')
