/* A visitor which compares what it is told with a table, and arrays built of constants. */
#include <errno.h>
#include <stdint.h>
#include <string.h>

#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"

__attribute__((const)) int GeoArrowErrorSet(struct GeoArrowError* error, const char* fmt, ...);
__attribute__((const)) int ArrowErrorSet(struct ArrowError* error, const char* fmt, ...);

enum { FS = 1, NF, GS, RS, CO, RE, GE, FE, IT };

struct Want {
  const int32_t* at;
  const int32_t* end;
  int bad;
};

static inline void Take(struct GeoArrowVisitor* v, int32_t what) {
  struct Want* w = (struct Want*)v->private_data;
  if (w->at >= w->end) {
    w->bad = 1;
    return;
  }
  w->bad |= *w->at != what;
  w->at++;
}

static int TakeFeatStart(struct GeoArrowVisitor* v) { Take(v, FS); return 0; }
static int TakeNull(struct GeoArrowVisitor* v) { Take(v, NF); return 0; }
static int TakeGeomStart(struct GeoArrowVisitor* v, enum GeoArrowGeometryType g, enum GeoArrowDimensions d) {
  Take(v, GS);
  Take(v, g);
  Take(v, d);
  return 0;
}
static int TakeRingStart(struct GeoArrowVisitor* v) { Take(v, RS); return 0; }
static int TakeCoords(struct GeoArrowVisitor* v, const struct GeoArrowCoordView* c) {
  for (int64_t i = 0; i < c->n_coords; i++) {
    Take(v, CO);
    Take(v, c->n_values);
    for (int32_t j = 0; j < c->n_values; j++) {
      Take(v, (int32_t)c->values[j][i * c->coords_stride]);
    }
  }
  return 0;
}
static int TakeRingEnd(struct GeoArrowVisitor* v) { Take(v, RE); return 0; }
static int TakeGeomEnd(struct GeoArrowVisitor* v) { Take(v, GE); return 0; }
static int TakeFeatEnd(struct GeoArrowVisitor* v) { Take(v, FE); return 0; }

static inline void VisitorFor(struct GeoArrowVisitor* v, struct Want* w, const int32_t* want, int n) {
  w->at = want;
  w->end = want + n;
  w->bad = 0;
  v->feat_start = &TakeFeatStart;
  v->null_feat = &TakeNull;
  v->geom_start = &TakeGeomStart;
  v->ring_start = &TakeRingStart;
  v->coords = &TakeCoords;
  v->ring_end = &TakeRingEnd;
  v->geom_end = &TakeGeomEnd;
  v->feat_end = &TakeFeatEnd;
  v->private_data = w;
  v->error = 0;
}

static inline void Arr(struct ArrowArray* a, int64_t length, int64_t offset, int64_t n_buffers, const void** buffers,
                       int64_t n_children, struct ArrowArray** children) {
  a->length = length;
  a->offset = offset;
  a->null_count = buffers[0] ? -1 : 0;
  a->n_buffers = n_buffers;
  a->buffers = buffers;
  a->n_children = n_children;
  a->children = children;
  a->dictionary = 0;
  a->release = 0;
  a->private_data = 0;
}
