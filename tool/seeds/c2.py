A="src/geoarrow/hpp/array_util.hpp"
G="src/geoarrow/hpp/geometry_type_traits.hpp"
S={}
PRE='''#include <cstdio>
#include <cstring>
#include <vector>
#include "geoarrow/geoarrow.hpp"

using namespace geoarrow::array_util;

'''
def S_(name, **kw):
    kw["prop"]="C02"
    kw["ext"]="cc"
    S[name]=kw
S_("c02-null-slice",needs="a sliced array with nulls whose null status is asked element by element",
 what="is_null() ignores the offset of the array while is_valid() applies it",
 edits=[(A,"  bool is_null(int64_t i) const {\n    i += value.offset;\n","  bool is_null(int64_t i) const {\n")],
 demo=PRE+'''int main() {
  PointArray<XY<double>> array;
  std::vector<double> x{1, 2, 3, 4};
  uint8_t validity = 0x0d;
  array.value.InitSeparated(4, {x.data(), x.data()});
  array.validity = &validity;
  auto slice = array.Slice(1, 3);
  for (int i = 0; i < 3; i++) {
    if (slice.is_null(i) == slice.is_valid(i)) return 1;
  }
  return 0;
}
''')
S_("c02-list-child-offset",needs="a list of coordinates whose own array is sliced too",
 what="an element of a list starts at its offset, but not counted from the offset of the child",
 edits=[(A,"    child_p->offset = child.offset + child_offset;\n","    child_p->offset = child_offset;\n")],
 demo=PRE+'''int main() {
  std::vector<double> x{0, 1, 2, 3, 4, 5, 6, 7};
  std::vector<int32_t> offsets{0, 2, 5};
  ListSequence<CoordSequence<XY<double>>> list;
  list.child.InitSeparated(8, {x.data(), x.data()});
  list.child = list.child.Slice(3, 5);
  list.offsets = offsets.data();
  list.length = 2;
  double expected = 3;
  for (const auto& item : list) {
    for (auto coord : item) {
      if (coord.x() != expected++) return 1;
    }
  }
  return 0;
}
''')
S_("c02-level-xyzm",needs="an XYM class put on an XYZM array",
 what="an XYM sequence accepts an XYZM array and reads Z as M",
 edits=[(A,"""                          (coord_size == 3 &&
                           value_type::dimensions == GEOARROW_DIMENSIONS_XYZ &&
                           view->schema_view.dimensions == GEOARROW_DIMENSIONS_XYZM);
    if (view->schema_view.dimensions != value_type::dimensions && !drops_trailing) {
      return EINVAL;
    }

    GEOARROW_RETURN_NOT_OK(InitFrom(&view->coords));
    this->offset = view->offset[level];
    this->length = view->length[level];
    return GEOARROW_OK;
  }

  /// \\brief Initialize an interleaved coordinate sequence from a pointer to its start
  GeoArrowErrorCode InitInterleaved(int64_t length_elements, const ordinate_type* data,""",
"""                          (coord_size == 3 &&
                           view->schema_view.dimensions == GEOARROW_DIMENSIONS_XYZM);
    if (view->schema_view.dimensions != value_type::dimensions && !drops_trailing) {
      return EINVAL;
    }

    GEOARROW_RETURN_NOT_OK(InitFrom(&view->coords));
    this->offset = view->offset[level];
    this->length = view->length[level];
    return GEOARROW_OK;
  }

  /// \\brief Initialize an interleaved coordinate sequence from a pointer to its start
  GeoArrowErrorCode InitInterleaved(int64_t length_elements, const ordinate_type* data,""")],
 demo=PRE+'''int main() {
  struct GeoArrowArrayView view;
  if (GeoArrowArrayViewInitFromType(&view, GEOARROW_TYPE_POINT_ZM) != GEOARROW_OK) return 2;
  PointArray<XYM<double>> array;
  return array.Init(&view) == GEOARROW_OK ? 1 : 0;
}
''')
S_("c02-box-bounds",needs="the upper bound of a three-dimensional box array",
 what="UpperBound() of an XYZ or XYM box reads the last bounds of a two-dimensional one",
 edits=[(A,"this->value.values[Coord().size() + i];","this->value.values[2 + i];")],
 demo=PRE+'''int main() {
  double v[6] = {1, 2, 3, 4, 5, 6};
  BoxArray<XYZ<double>> boxes;
  boxes.value.InitInterleaved(1, v);
  auto upper = boxes.UpperBound().value.coord(0);
  return upper.x() == 4 && upper.y() == 5 && upper.z() == 6 ? 0 : 1;
}
''')
