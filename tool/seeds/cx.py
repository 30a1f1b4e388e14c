G="src/geoarrow/hpp/geometry_data_type.hpp"
R="src/geoarrow/hpp/array_reader.hpp"
W="src/geoarrow/hpp/array_writer.hpp"
S={}
PRE='''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "geoarrow/geoarrow.hpp"

'''
def S_(name, **kw):
    kw["prop"]="C01"
    kw["ext"]="cc"
    S[name]=kw
S_("c01-assign-crs",needs="copy assignment from a type with a CRS too long for the short-string buffer, and the source gone before the copy is read",
 what="the copy's CRS text still belongs to the type it was assigned from",
 edits=[(G,"    this->metadata_view_.crs.data = this->crs_.data();\n","    if (this->crs_.size() <= 15) this->metadata_view_.crs.data = this->crs_.data();\n")],
 demo=PRE+'''int main() {
  std::string crs(200, 'c');
  auto target = geoarrow::Point();
  {
    auto source = geoarrow::Linestring().WithCrs(crs, GEOARROW_CRS_TYPE_PROJJSON);
    target = source;
    source = geoarrow::Point().WithCrs(std::string(200, 'd'), GEOARROW_CRS_TYPE_PROJJSON);
  }
  std::vector<std::string> noise(50, std::string(200, 'x'));
  return target.crs() == crs ? 0 : 1;
}
''')
S_("c01-reader-borrowed",needs="an owned array given to a reader whose view of it fails, or which is released after the next array",
 what="the reader keeps the caller's array valid as well as its own: both release it",
 edits=[(R,"    array->release = nullptr;\n    SetArrayNonOwning(&array_.array);\n","    SetArrayNonOwning(&array_.array);\n    array->release = nullptr;\n")],
 demo=PRE+'''static int released = 0;
static void Release(struct ArrowArray* array) {
  released++;
  array->release = nullptr;
}

int main() {
  struct ArrowArray array;
  std::memset(&array, 0, sizeof(array));
  array.release = &Release;
  array.n_buffers = 77;
  {
    geoarrow::ArrayReader reader(GEOARROW_TYPE_WKB);
    try {
      reader.SetArray(&array);
    } catch (const geoarrow::Exception&) {
    }
  }
  if (array.release != nullptr) array.release(&array);
  return released == 1 ? 0 : 1;
}
''')
S_("c01-metadata-nul",needs="extension metadata whose text contains a NUL byte inside the CRS",
 what="the type is made from the metadata up to its first NUL only",
 edits=[(G,"    GeoArrowStringView metadata_str_view = {metadata.data(), (int64_t)metadata.size()};\n    GeoArrowMetadataView metadata_view{};\n    GEOARROW_THROW_NOT_OK(\n        &error, GeoArrowMetadataViewInit",
 "    GeoArrowStringView metadata_str_view = {metadata.data(),\n                                            (int64_t)strlen(metadata.c_str())};\n    GeoArrowMetadataView metadata_view{};\n    GEOARROW_THROW_NOT_OK(\n        &error, GeoArrowMetadataViewInit")],
 demo=PRE+'''int main() {
  std::string crs("\\"a");
  crs.push_back('\\0');
  crs += "b\\"";
  std::string metadata = "{\\"crs\\":" + crs + "}";
  try {
    auto type = geoarrow::GeometryDataType::Make(GEOARROW_TYPE_POINT, metadata);
    std::printf("%d\\n", (int)type.crs().size());
    return type.crs().size() == 3 || type.crs().size() == 5 ? 0 : 1;
  } catch (const geoarrow::Exception& e) {
    std::printf("%s\\n", e.what());
    return 1;
  }
}
''')
S_("c01-owned-after-move",needs="a buffer handed to a builder from a container which holds its values in itself",
 what="the builder is given the address of the emptied container instead of the one it owns",
 edits=[(W,"""    T* obj_moved = new T(std::move(obj));
    struct GeoArrowBufferView value {
      reinterpret_cast<const uint8_t*>(obj_moved->data()),
""","""    auto* data = obj.data();
    T* obj_moved = new T(std::move(obj));
    struct GeoArrowBufferView value {
      reinterpret_cast<const uint8_t*>(data),
""")],
demo=PRE+'''struct Small {
  using value_type = double;
  double values[3];
  const double* data() const { return values; }
  size_t size() const { return 3; }
};

__attribute__((noinline)) static void Hand(geoarrow::ArrayBuilder* builder, int64_t i, double first) {
  builder->SetBufferWrapped(i, Small{first, first + 1, first + 2});
}

__attribute__((noinline)) static void Scribble() {
  volatile char stack[8192];
  std::memset((void*)stack, 0x55, sizeof(stack));
}

int main() {
  geoarrow::ArrayBuilder builder(GEOARROW_TYPE_POINT);
  Hand(&builder, 1, 10);
  Scribble();
  Hand(&builder, 2, 20);
  Scribble();
  struct ArrowArray out;
  builder.Finish(&out);
  int rc = 0;
  for (int i = 0; i < 2; i++) {
    auto values = reinterpret_cast<const double*>(out.children[i]->buffers[1]);
    for (int j = 0; j < 3; j++) rc |= values[j] != 10 * (i + 1) + j;
  }
  out.release(&out);
  return rc;
}
''')
S_("c01-simple-metadata",needs="Simple() of a multi type which has a CRS or edges",
 what="Simple() of a multipolygon loses the metadata of the type",
 edits=[(G,"        return WithGeometryType(GEOARROW_GEOMETRY_TYPE_POLYGON);\n","        return Make(GEOARROW_GEOMETRY_TYPE_POLYGON, dimensions(), coord_type());\n")],
 demo=PRE+'''int main() {
  auto type = geoarrow::Polygon().WithEdgeType(GEOARROW_EDGE_TYPE_SPHERICAL).WithCrsLonLat().Multi().Simple();
  return type.edge_type() == GEOARROW_EDGE_TYPE_SPHERICAL && !type.crs().empty() ? 0 : 1;
}
''')
