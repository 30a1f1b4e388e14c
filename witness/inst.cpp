// Instantiates the header-only C++ layer so that its code is present in the IR.
#include "geoarrow/geoarrow.hpp"
#include "geoarrow/hpp/array_reader.hpp"
#include "geoarrow/hpp/array_util.hpp"
#include "geoarrow/hpp/array_writer.hpp"
#include "geoarrow/hpp/exception.hpp"
#include "geoarrow/hpp/geometry_data_type.hpp"
#include "geoarrow/hpp/geometry_type_traits.hpp"
#include "geoarrow/hpp/internal.hpp"
#include "geoarrow/hpp/wkb_util.hpp"
#include <vector>

namespace geoarrow {
namespace array_util {
#define COORD(C)                                                        \
  template struct C<double>;                                            \
  template struct CoordSequence<C<double>>;                             \
  template struct UnalignedCoordSequence<C<double>>;                    \
  template struct UnalignedCoordSequence<C<double>, internal::LoadSwapped<double>>; \
  template struct ListSequence<CoordSequence<C<double>>>;               \
  template struct ListSequence<ListSequence<CoordSequence<C<double>>>>; \
  template struct ListSequence<ListSequence<ListSequence<CoordSequence<C<double>>>>>; \
  template struct PointArray<C<double>>;                                \
  template struct BoxArray<C<double>>;                                  \
  template struct LinestringArray<C<double>>;                           \
  template struct PolygonArray<C<double>>;                              \
  template struct MultipointArray<C<double>>;                           \
  template struct MultiLinestringArray<C<double>>;                      \
  template struct MultiPolygonArray<C<double>>;
COORD(XY)
COORD(XYZ)
COORD(XYM)
COORD(XYZM)
template struct BoxXY<double>;
template struct BoxXYZ<double>;
template struct BoxXYM<double>;
template struct BoxXYZM<double>;
namespace internal {
template class StridedIterator<double>;
template class UnalignedStridedIterator<double, LoadIdentity<double>>;
template class UnalignedStridedIterator<double, LoadSwapped<double>>;
}  // namespace internal
template struct BinarySequence<int32_t>;
}  // namespace array_util
namespace wkb_util {
template struct WKBBlobSequence<int32_t>;
template struct WKBArray<int32_t>;
}  // namespace wkb_util
}  // namespace geoarrow

namespace witness {
using namespace geoarrow;
template <typename Src>
struct Visits {
  template <typename A>
  static double Run(const A& a) {
    double s = 0;
    a.template VisitVertices<array_util::XY<double>>([&](array_util::XY<double> c) { s += c.x(); });
    a.template VisitVertices<array_util::XYZ<double>>([&](array_util::XYZ<double> c) { s += c.x(); });
    a.template VisitVertices<array_util::XYM<double>>([&](array_util::XYM<double> c) { s += c.x(); });
    a.template VisitVertices<array_util::XYZM<double>>([&](array_util::XYZM<double> c) { s += c.x(); });
    return s;
  }
};
void Use(ArrayBuilder& b, std::vector<double> v, std::vector<int32_t> o, std::string str) {
  b.AppendToBuffer(1, v);
  b.AppendToOffsetBuffer(1, o);
  b.SetBufferWrapped(1, v);
  b.SetBufferWrapped(1, v, GeoArrowBufferView{nullptr, 0});
  array_util::LinestringArray<array_util::XYZM<double>> l;
  array_util::PolygonArray<array_util::XYM<double>> p;
  Visits<int>::Run(l.value);
  Visits<int>::Run(p.value);
  (void)str;
}
}  // namespace witness
