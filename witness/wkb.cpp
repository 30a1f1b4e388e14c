// Brings the whole of the C++ WKB reader into one translation unit.
#include <cstring>
#include <memory>
#include <string>
#include <vector>

#include "geoarrow/geoarrow.h"
#include "geoarrow/hpp/wkb_util.hpp"

using geoarrow::wkb_util::WKBGeometry;
using geoarrow::wkb_util::WKBParser;

namespace geoarrow {
namespace wkb_util {
template struct WKBBlobSequence<int32_t>;
template struct WKBArray<int32_t>;
}  // namespace wkb_util
}  // namespace geoarrow

int ga_parse(struct GeoArrowBufferView data, WKBGeometry* out, const uint8_t** end) {
  WKBParser parser;
  return parser.Parse(data, out, end);
}
