exec(open('/verif/tool/seeds/a.py').read().split("S={}")[0])
SRC='src/geoarrow/'
W=SRC+'geoarrow_type_inline.h'
S={}
S["t01-make-unknown-layout"]=dict(prop="T01",needs="composing a type from parts with an unknown coordinate layout",
 what="composing with an unknown coordinate layout gives a garbage identifier instead of the uninitialised type",
 edits=[(W,"""  } else if (coord_type == GEOARROW_COORD_TYPE_UNKNOWN) {
    return GEOARROW_TYPE_UNINITIALIZED;
""","")],demo=COMMON+r'''
int main(void) {
  for (int d = 1; d <= 4; d++) REQ(GeoArrowMakeType(GEOARROW_GEOMETRY_TYPE_POLYGON, (enum GeoArrowDimensions)d, GEOARROW_COORD_TYPE_UNKNOWN) == GEOARROW_TYPE_UNINITIALIZED);
  return 0;
}
''')
S["t01-box-m-dims"]=dict(prop="T01",needs="decomposing the identifier of a measured box",
 what="the dimensions of a measured box are reported as XYZ",
 edits=[(W,"""    case 1:
      return GEOARROW_DIMENSIONS_XYZ;
    case 2:
      return GEOARROW_DIMENSIONS_XYM;
""","""    case 1:
      return GEOARROW_DIMENSIONS_XYZ;
    case 2:
      return type_int == GEOARROW_TYPE_BOX_M ? GEOARROW_DIMENSIONS_XYZ : GEOARROW_DIMENSIONS_XYM;
""")],demo=COMMON+r'''
int main(void) {
  REQ(GeoArrowDimensionsFromType(GEOARROW_TYPE_BOX_M) == GEOARROW_DIMENSIONS_XYM);
  REQ(GeoArrowDimensionsFromType(GEOARROW_TYPE_BOX_Z) == GEOARROW_DIMENSIONS_XYZ);
  return 0;
}
''')
S["t03-writer-polygon-dims"]=dict(prop="T03",needs="a multilinestring writer that is given polygon features of different dimensions",
 what="the multilinestring writer copies the rings of a polygon feature with the dimensions of an earlier feature",
 edits=[(SRC+"native_writer.c","""                                      enum GeoArrowDimensions dimensions) {
  struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
  struct GeoArrowNativeWriterPrivate* private_data =
      (struct GeoArrowNativeWriterPrivate*)writer->private_data;
  private_data->last_dimensions = dimensions;

  switch (geometry_type) {
    case GEOARROW_GEOMETRY_TYPE_LINESTRING:
    case GEOARROW_GEOMETRY_TYPE_MULTIPOINT:
      private_data->level++;
      break;
""","""                                      enum GeoArrowDimensions dimensions) {
  struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
  struct GeoArrowNativeWriterPrivate* private_data =
      (struct GeoArrowNativeWriterPrivate*)writer->private_data;

  switch (geometry_type) {
    case GEOARROW_GEOMETRY_TYPE_LINESTRING:
    case GEOARROW_GEOMETRY_TYPE_MULTIPOINT:
      private_data->last_dimensions = dimensions;
      private_data->level++;
      break;
""")],demo=COMMON+r'''
#include <math.h>
int main(void) {
  struct GeoArrowNativeWriter w; CK(GeoArrowNativeWriterInit(&w, GEOARROW_TYPE_MULTILINESTRING_ZM));
  struct GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); CK(GeoArrowNativeWriterInitVisitor(&w, &v));
  struct GeoArrowWKTReader r; CK(GeoArrowWKTReaderInit(&r));
  const char* s[] = {"MULTILINESTRING Z ((0 0 1, 1 0 1))", "POLYGON M ((0 0 7, 1 0 7, 0 1 7, 0 0 7))"};
  for (int i = 0; i < 2; i++) { struct GeoArrowStringView sv = {s[i], (int64_t)strlen(s[i])}; CK(GeoArrowWKTReaderVisit(&r, sv, &v)); }
  GeoArrowWKTReaderReset(&r);
  struct ArrowArray a; CK(GeoArrowNativeWriterFinish(&w, &a, NULL)); GeoArrowNativeWriterReset(&w);
  struct GeoArrowArrayView av; CK(GeoArrowArrayViewInitFromType(&av, GEOARROW_TYPE_MULTILINESTRING_ZM)); CK(GeoArrowArrayViewSetArray(&av, &a, NULL));
  REQ(GEOARROW_COORD_VIEW_VALUE(&av.coords, 0, 2) == 1 && isnan(GEOARROW_COORD_VIEW_VALUE(&av.coords, 0, 3)));
  REQ(isnan(GEOARROW_COORD_VIEW_VALUE(&av.coords, 3, 2)) && GEOARROW_COORD_VIEW_VALUE(&av.coords, 3, 3) == 7);
  a.release(&a);
  return 0;
}
''')
S["t03-cxx-cast-narrow"]=dict(prop="T03",needs="a C++ vertex visit that drops Z from XYZM to XYM",
 what="casting XYZM coordinates to XYM keeps Z in the place of M",
 edits=[(SRC+"hpp/array_util.hpp","""    return XY<typename CoordSrc::value_type>{src.x(), src.y()};
  } else {""","""    return XY<typename CoordSrc::value_type>{src.x(), src.y()};
  } else if constexpr (CoordDst().size() == 3 && CoordSrc().size() == 4) {
    // Narrowing from four to three dimensions is a plain copy of the prefix
    CoordDst out;
    for (size_t i = 0; i < out.size(); i++) {
      out[i] = static_cast<typename CoordDst::value_type>(src[i]);
    }
    return out;
  } else {""")],ext="cc",demo=r'''
#include <cstdlib>
#include <cstdio>
#include "geoarrow/geoarrow.hpp"
using namespace geoarrow::array_util;
int main() {
  XYZM<double> c{1, 2, 3, 4};
  double m = 0;
  c.VisitVertices<XYM<double>>([&](XYM<double> v) { m = v.m(); });
  if (m != 4) { fprintf(stderr, "m = %f\n", m); return 1; }
  return 0;
}
''')
