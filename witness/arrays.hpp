// Equations between the C++ array views and what the Arrow layout says, each a
// function returning bool.  checks/c02.py asks the compiler what they reduce to.
#include <cmath>
#include <cstring>
#include <limits>

#include "geoarrow/geoarrow.hpp"

using namespace geoarrow;
using namespace geoarrow::array_util;

// ---- values to look at ------------------------------------------------------
#define V4(i) (i) * 0.75 + 1, (i) * 0.75 + 1.75, (i) * 0.75 + 2.5, (i) * 0.75 + 3.25
#define V16(i) V4(i), V4(i + 4), V4(i + 8), V4(i + 12)
static constexpr double kData[96] = {V16(0), V16(16), V16(32), V16(48), V16(64), V16(80)};
#define B4(i) (uint8_t)((i) * 37 + 11), (uint8_t)((i + 1) * 37 + 11), (uint8_t)((i + 2) * 37 + 11), (uint8_t)((i + 3) * 37 + 11)
#define B16(i) B4(i), B4(i + 4), B4(i + 8), B4(i + 12)
#define B64(i) B16(i), B16(i + 16), B16(i + 32), B16(i + 48)
static constexpr uint8_t kBytes[256] = {B64(0), B64(64), B64(128), B64(192)};
static constexpr int32_t kOff[9] = {0, 2, 2, 5, 6, 8, 8, 11, 12};
static constexpr int32_t kOff1[9] = {1, 1, 3, 4, 7, 7, 9, 10, 12};
static constexpr int32_t kOff2[14] = {0, 3, 4, 6, 6, 9, 11, 12, 14, 14, 15, 17, 18, 20};

// ---- comparing --------------------------------------------------------------
template <typename T>
static inline bool Same(T a, T b) {
  return std::memcmp(&a, &b, sizeof(T)) == 0;
}
static inline bool Same(double a, double b) {
  uint64_t x, y;
  std::memcpy(&x, &a, 8);
  std::memcpy(&y, &b, 8);
  return x == y;
}
static inline bool Same(float a, float b) {
  uint32_t x, y;
  std::memcpy(&x, &a, 4);
  std::memcpy(&y, &b, 4);
  return x == y;
}
template <typename T>
static inline bool Missing(T v) {
  return v != v;
}

// The four ordinates by name, and which of them there are
template <typename C>
struct Dim;
template <typename T>
struct Dim<XY<T>> { static constexpr int z = -1, m = -1, n = 2; };
template <typename T>
struct Dim<XYZ<T>> { static constexpr int z = 2, m = -1, n = 3; };
template <typename T>
struct Dim<XYM<T>> { static constexpr int z = -1, m = 2, n = 3; };
template <typename T>
struct Dim<XYZM<T>> { static constexpr int z = 2, m = 3, n = 4; };

// is b what a is, by name, as seen through the type of b?
template <typename A, typename B>
static inline bool Agree(const A& a, const B& b) {
  using T = typename B::value_type;
  bool ok = Same<T>(static_cast<T>(a[0]), b[0]) && Same<T>(static_cast<T>(a[1]), b[1]);
  if constexpr (Dim<B>::z >= 0) {
    if constexpr (Dim<A>::z >= 0)
      ok = ok && Same<T>(static_cast<T>(a[Dim<A>::z]), b[Dim<B>::z]);
    else
      ok = ok && Missing(b[Dim<B>::z]);
  }
  if constexpr (Dim<B>::m >= 0) {
    if constexpr (Dim<A>::m >= 0)
      ok = ok && Same<T>(static_cast<T>(a[Dim<A>::m]), b[Dim<B>::m]);
    else
      ok = ok && Missing(b[Dim<B>::m]);
  }
  return ok;
}

// ---- coordinates -------------------------------------------------------------
template <typename C>
static inline bool Ordinates(typename C::value_type a, typename C::value_type b, typename C::value_type c,
                             typename C::value_type d, int which) {
  using T = typename C::value_type;
  T v[4] = {a, b, c, d};
  C k;
  static_assert(sizeof(C) == Dim<C>::n * sizeof(T), "");
  for (int i = 0; i < Dim<C>::n; i++) k[i] = v[i];
  switch (which) {
    case 0: return Same(k.x(), a);
    case 1: return Same(k.y(), b);
    case 2: return Dim<C>::z < 0 ? Missing(k.z()) : Same(k.z(), v[Dim<C>::z < 0 ? 0 : Dim<C>::z]);
    case 3: return Dim<C>::m < 0 ? Missing(k.m()) : Same(k.m(), v[Dim<C>::m < 0 ? 0 : Dim<C>::m]);
    default: {
      C f = C::FromXYZM(a, b, c, d);
      XYZM<T> full;
      full[0] = a, full[1] = b, full[2] = c, full[3] = d;
      return Agree(full, f);
    }
  }
}

template <typename A, typename B>
static inline bool Cast(typename A::value_type a, typename A::value_type b, typename A::value_type c,
                        typename A::value_type d) {
  typename A::value_type v[4] = {a, b, c, d};
  A k;
  for (int i = 0; i < Dim<A>::n; i++) k[i] = v[i];
  B out = CoordCast<A, B>(k);
  return Agree(k, out);
}

// vertices and edges of a coordinate
template <typename A, typename B>
static inline bool OwnVertex(typename A::value_type a, typename A::value_type b, typename A::value_type c,
                             typename A::value_type d) {
  typename A::value_type v[4] = {a, b, c, d};
  A k;
  for (int i = 0; i < Dim<A>::n; i++) k[i] = v[i];
  int n = 0, edges = 0;
  bool ok = true;
  k.template VisitVertices<B>([&](B out) { n++, ok = ok && Agree(k, out); });
  k.template VisitEdges<B>([&](B p, B q) { edges++, ok = ok && Agree(k, p) && Agree(k, q); });
  return ok && n == 1 && edges == 1;
}

// ---- boxes -------------------------------------------------------------------
template <typename C>
static inline bool Boxes(double a, double b, double c, double d, double e, double f, double g, double h, int which) {
  using Box = typename C::box_type;
  constexpr int n = Dim<C>::n;
  static_assert(sizeof(Box) == 2 * sizeof(C), "");
  static_assert(Box::dimensions == C::dimensions, "");
  double v[8] = {a, b, c, d, e, f, g, h};
  Box k;
  for (int i = 0; i < 2 * n; i++) k[i] = v[i];
  constexpr double inf = std::numeric_limits<double>::infinity();
  constexpr int z = Dim<C>::z < 0 ? 0 : Dim<C>::z, m = Dim<C>::m < 0 ? 0 : Dim<C>::m;
  constexpr bool noz = Dim<C>::z < 0, nom = Dim<C>::m < 0;
  C lo, hi;
  for (int i = 0; i < n; i++) lo[i] = v[i], hi[i] = v[n + i];
  switch (which) {
    case 0: return Same(k.xmin(), v[0]) && Same(k.xmax(), v[n]);
    case 1: return Same(k.ymin(), v[1]) && Same(k.ymax(), v[n + 1]);
    case 2: return Same(k.zmin(), noz ? inf : v[z]) && Same(k.zmax(), noz ? -inf : v[n + z]);
    case 3: return Same(k.mmin(), nom ? inf : v[m]) && Same(k.mmax(), nom ? -inf : v[n + m]);
    case 4: {
      C got = k.lower_bound();
      return Agree(lo, got);
    }
    case 5: {
      C got = k.upper_bound();
      return Agree(hi, got);
    }
    default: {
      Box empty = Box::Empty();
      bool ok = true;
      for (int i = 0; i < n; i++) ok = ok && Same(empty[i], inf) && Same(empty[n + i], -inf);
      return ok;
    }
  }
}

// ---- coordinate sequences -----------------------------------------------------
template <typename C>
static inline CoordSequence<C> Seq(const typename C::value_type* p0, const typename C::value_type* p1,
                                   const typename C::value_type* p2, const typename C::value_type* p3,
                                   int64_t offset, int64_t length, int64_t stride) {
  const typename C::value_type* p[4] = {p0, p1, p2, p3};
  CoordSequence<C> s;
  s.offset = offset;
  s.length = length;
  s.stride = stride;
  for (int i = 0; i < Dim<C>::n; i++) s.values[i] = p[i];
  return s;
}

template <typename C>
static inline C At(const CoordSequence<C>& s, int64_t i) {
  C out;
  for (int j = 0; j < Dim<C>::n; j++) out[j] = s.values[j][(s.offset + i) * s.stride];
  return out;
}

template <typename C, typename L>
static inline C At(const UnalignedCoordSequence<C, L>& s, int64_t i) {
  C out;
  using T = typename C::value_type;
  for (int j = 0; j < Dim<C>::n; j++) {
    const uint8_t* p = s.values[j] + (s.offset + i) * s.stride_bytes;
    uint8_t b[sizeof(T)];
    for (size_t k = 0; k < sizeof(T); k++)
      b[k] = p[std::is_same<L, array_util::internal::LoadIdentity<T>>::value ? k : sizeof(T) - 1 - k];
    std::memcpy(&out[j], b, sizeof(T));
  }
  return out;
}

template <typename C, typename Load = array_util::internal::LoadIdentity<typename C::value_type>>
static inline UnalignedCoordSequence<C, Load> Useq(const uint8_t* p0, const uint8_t* p1, const uint8_t* p2,
                                                   const uint8_t* p3, int64_t offset, int64_t length,
                                                   int64_t stride) {
  const uint8_t* p[4] = {p0, p1, p2, p3};
  UnalignedCoordSequence<C, Load> s;
  s.offset = offset;
  s.length = length;
  s.stride_bytes = stride;
  for (int i = 0; i < Dim<C>::n; i++) s.values[i] = p[i];
  return s;
}

template <typename S>
static inline int64_t Stride(const S& s) {
  if constexpr (std::is_same<decltype(s.values[0]), const typename S::ordinate_type* const&>::value)
    return s.stride;
  else
    return s.stride_bytes;
}

template <typename S>
static inline bool SameSeq(const S& a, const S& b, int64_t offset, int64_t length) {
  bool ok = a.offset == offset && a.length == length && Stride(a) == Stride(b);
  for (uint32_t j = 0; j < S::coord_size; j++) ok = ok && a.values[j] == b.values[j];
  return ok;
}

// what: see checks/c02.py
template <typename S>
static inline bool SeqEq(const S& s, int64_t i, int64_t k, int what) {
  using C = typename S::value_type;
  switch (what) {
    case 0: return Agree(At(s, i), s.coord(i));
    case 1: return s.size() == s.length;
    case 2: return SameSeq(s.Slice(i, k), s, s.offset + i, k);
    case 3: {
      auto it = s.begin();
      it += i;
      return Agree(At(s, i), *it);
    }
    case 4: {
      auto it = s.begin();
      it += i;
      return Agree(At(s, i + k), it[k]);
    }
    case 5: {
      auto it = s.begin();
      it += i;
      ++it;
      return Agree(At(s, i + 1), *it);
    }
    case 6: {
      auto it = s.begin();
      it += i;
      --it;
      return Agree(At(s, i - 1), *it);
    }
    case 7: {
      auto it = s.begin();
      it += i;
      it -= k;
      return Agree(At(s, i - k), *it);
    }
    case 8: return s.end() - s.begin() == s.length && s.begin() - s.end() == -s.length;
    case 9: {
      auto a = s.begin();
      auto b = s.begin();
      a += i;
      b += k;
      return (a < b) == (i < k) && (a > b) == (i > k) && (a <= b) == (i <= k) && (a >= b) == (i >= k) &&
             (a == b) == (i == k) && (a != b) == (i != k);
    }
    default: return false;
  }
}

// dimension j of a sequence
template <typename S>
static inline bool DimEq(const S& s, int64_t i, int64_t k, uint32_t j, int what) {
  auto it = s.dbegin(j);
  switch (what) {
    case 0: return Same(At(s, i)[j], it[i]);
    case 1: it += i; return Same(At(s, i)[j], *it);
    case 2: it += i; it -= k; return Same(At(s, i - k)[j], *it);
    case 3: it += i; ++it; return Same(At(s, i + 1)[j], *it);
    case 4: it += i; --it; return Same(At(s, i - 1)[j], *it);
    case 5: {
      it += i;
      bool ok = Same(At(s, i)[j], it++);
      return ok && Same(At(s, i + 1)[j], *it);
    }
    case 6: return s.dend(j) - s.dbegin(j) == s.length;
    case 7: {
      auto a = s.dbegin(j), b = s.dbegin(j);
      a += i;
      b += k;
      return (a < b) == (i < k) && (a > b) == (i > k) && (a <= b) == (i <= k) && (a >= b) == (i >= k) &&
             (a == b) == (i == k) && (a != b) == (i != k) && a - b == i - k;
    }
    case 8: {
      auto e = s.dend(j);
      e -= k;
      return Same(At(s, s.length - k)[j], *e);
    }
    default: {
      int64_t n = 0;
      bool ok = true;
      for (auto v = s.dbegin(j), e = s.dend(j); v != e; ++v) ok = ok && Same(At(s, n)[j], *v), n++;
      return ok && n == s.length;
    }
  }
}

// ---- making sequences ----------------------------------------------------------
template <typename S>
static inline const void* Ptr(const S& s, int j) {
  return s.values[j];
}

template <typename S>
static inline bool FromCoords(const struct GeoArrowCoordView* v, bool is_double) {
  S s;
  constexpr int n = S::coord_size;
  constexpr int64_t unit = std::is_same<decltype(s.values[0]), const typename S::ordinate_type*&>::value
                               ? 1 : sizeof(typename S::ordinate_type);
  bool ok = s.InitFrom(v) == GEOARROW_OK;
  if (!is_double || v->n_values < n) return !ok;
  if (!ok || s.offset != 0 || s.length != v->n_coords || Stride(s) != v->coords_stride * unit) return false;
  for (int j = 0; j < n; j++)
    if (Ptr(s, j) != v->values[j]) return false;
  return true;
}

// may a view of `have` be looked at as `want`?
static constexpr bool Fits(enum GeoArrowDimensions want, enum GeoArrowDimensions have, bool box) {
  if (want == have) return true;
  if (box) return false;
  if (want == GEOARROW_DIMENSIONS_XY) return true;
  return want == GEOARROW_DIMENSIONS_XYZ && have == GEOARROW_DIMENSIONS_XYZM;
}

template <typename S>
static inline bool FromView(const struct GeoArrowArrayView* v, int level, enum GeoArrowDimensions have, bool box) {
  S s;
  constexpr int n = S::coord_size;
  constexpr int64_t unit = std::is_same<decltype(s.values[0]), const typename S::ordinate_type*&>::value
                               ? 1 : sizeof(typename S::ordinate_type);
  bool ok = s.InitFrom(v, level) == GEOARROW_OK;
  bool want = Fits(S::value_type::dimensions, have, box) && level == v->n_offsets && v->coords.n_values >= n;
  if (ok != want) return false;
  if (!ok) return true;
  if (s.offset != v->offset[level] || s.length != v->length[level] || Stride(s) != v->coords.coords_stride * unit)
    return false;
  for (int j = 0; j < n; j++)
    if (Ptr(s, j) != v->coords.values[j]) return false;
  return true;
}

template <typename C>
static inline bool Interleaved(int64_t length, const typename C::value_type* data, int64_t stride, int what) {
  CoordSequence<C> s;
  UnalignedCoordSequence<C> u;
  constexpr int n = Dim<C>::n;
  constexpr int64_t unit = sizeof(typename C::value_type);
  bool bad = data == nullptr && length != 0;
  if (what == 2) stride = n;
  if (what == 0 || what == 2) {
    bool ok = (what == 2 ? s.InitInterleaved(length, data) : s.InitInterleaved(length, data, stride)) == GEOARROW_OK;
    if (bad || !ok) return bad && !ok;
    if (s.offset != 0 || s.length != length || s.stride != stride) return false;
    if (data != nullptr)
      for (int j = 0; j < n; j++)
        if (s.values[j] != data + j) return false;
    return true;
  }
  bool ok = u.InitInterleaved(length, data, stride) == GEOARROW_OK;
  if (bad || !ok) return bad && !ok;
  if (u.offset != 0 || u.length != length || u.stride_bytes != stride * unit) return false;
  if (data != nullptr)
    for (int j = 0; j < n; j++)
      if (u.values[j] != reinterpret_cast<const uint8_t*>(data + j)) return false;
  return true;
}

template <typename C>
static inline bool Separated(int64_t length, const typename C::value_type* p0, const typename C::value_type* p1,
                             const typename C::value_type* p2, const typename C::value_type* p3, int64_t stride,
                             int what) {
  const typename C::value_type* p[4] = {p0, p1, p2, p3};
  constexpr int n = Dim<C>::n;
  constexpr int64_t unit = sizeof(typename C::value_type);
  if (what == 0 || what == 2) {
    CoordSequence<C> s;
    std::array<const typename C::value_type*, n> in;
    for (int j = 0; j < n; j++) in[j] = p[j];
    if (what == 2) stride = 1;
    if ((what == 2 ? s.InitSeparated(length, in) : s.InitSeparated(length, in, stride)) != GEOARROW_OK) return false;
    bool ok = s.offset == 0 && s.length == length && s.stride == stride;
    for (int j = 0; j < n; j++) ok = ok && s.values[j] == p[j];
    return ok;
  }
  UnalignedCoordSequence<C> s;
  std::array<const void*, n> in;
  for (int j = 0; j < n; j++) in[j] = p[j];
  if (s.InitSeparated(length, in, stride) != GEOARROW_OK) return false;
  bool ok = s.offset == 0 && s.length == length && s.stride_bytes == stride * unit;
  for (int j = 0; j < n; j++) ok = ok && s.values[j] == reinterpret_cast<const uint8_t*>(p[j]);
  return ok;
}

// ---- lists ----------------------------------------------------------------------
template <typename C>
static inline bool Rest(const CoordSequence<C>& a, const CoordSequence<C>& b) {
  bool ok = a.stride == b.stride;
  for (int j = 0; j < Dim<C>::n; j++) ok = ok && a.values[j] == b.values[j];
  return ok;
}
template <typename T>
static inline bool Rest(const ListSequence<T>& a, const ListSequence<T>& b) {
  return a.offsets == b.offsets && a.child.offset == b.child.offset && a.child.length == b.child.length &&
         Rest(a.child, b.child);
}

template <typename L>
static inline bool ListEq(const L& s, int64_t i, int64_t k, int what) {
  using T = typename L::child_type;
  auto is = [&](const T& got, int64_t at) {
    int64_t first = s.offsets[s.offset + at], last = s.offsets[s.offset + at + 1];
    return got.offset == s.child.offset + first && got.length == last - first && Rest(got, s.child);
  };
  switch (what) {
    case 0: {
      T child;
      s.InitChild(&child);
      s.UpdateChild(&child, i);
      return is(child, i);
    }
    case 1: return s.size() == s.length;
    case 2: {
      L got = s.Slice(i, k);
      return got.offset == s.offset + i && got.length == k && Rest(got, s);
    }
    case 3: {
      auto it = s.begin();
      it += i;
      return is(*it, i);
    }
    case 4: {
      auto it = s.begin();
      it += i;
      ++it;
      it -= k;
      return is(*it, i + 1 - k);
    }
    case 5: return s.end() - s.begin() == s.length && s.begin() - s.end() == -s.length;
    case 6: {
      T got = s.ValidChildElements();
      if (s.length == 0) return got.length == 0;
      int64_t first = s.offsets[s.offset], last = s.offsets[s.offset + s.length];
      return got.offset == s.child.offset + first && got.length == last - first && Rest(got, s.child);
    }
    case 7: {
      // the same child, moved from one element to another
      T child;
      s.InitChild(&child);
      s.UpdateChild(&child, i);
      s.UpdateChild(&child, k);
      return is(child, k);
    }
    default: {
      int64_t n = 0;
      bool ok = true;
      for (const auto& item : s) ok = ok && is(item, n), n++;
      return ok && n == s.length;
    }
  }
}

template <typename C>
static inline ListSequence<CoordSequence<C>> List1(const CoordSequence<C>& c, const int32_t* off, int64_t offset, int64_t length) {
  ListSequence<CoordSequence<C>> l;
  l.offset = offset;
  l.length = length;
  l.offsets = off;
  l.child = c;
  return l;
}
template <typename T>
static inline ListSequence<T> ListN(const T& c, const int32_t* off, int64_t offset, int64_t length) {
  ListSequence<T> l;
  l.offset = offset;
  l.length = length;
  l.offsets = off;
  l.child = c;
  return l;
}

// InitFrom() of a list sequence with `depth` levels of offsets
template <typename C>
static inline bool Levels(const CoordSequence<C>& s, const struct GeoArrowArrayView* v, int level) {
  bool ok = s.offset == v->offset[level] && s.length == v->length[level] && s.stride == v->coords.coords_stride;
  for (int j = 0; j < Dim<C>::n; j++) ok = ok && s.values[j] == v->coords.values[j];
  return ok;
}
template <typename T>
static inline bool Levels(const ListSequence<T>& l, const struct GeoArrowArrayView* v, int level) {
  return l.offsets == v->offsets[level] && l.offset == v->offset[level] && l.length == v->length[level] &&
         Levels(l.child, v, level + 1);
}
template <typename A>
static inline bool InitArray(const struct GeoArrowArrayView* v, int depth, enum GeoArrowDimensions have) {
  A a;
  bool ok = a.Init(v) == GEOARROW_OK;
  constexpr int n = A::dimensions == GEOARROW_DIMENSIONS_XY ? 2 : A::dimensions == GEOARROW_DIMENSIONS_XYZM ? 4 : 3;
  bool want = Fits(A::dimensions, have, false) && depth == v->n_offsets && v->coords.n_values >= n;
  if (ok != want) return false;
  if (!ok) return true;
  return a.validity == v->validity_bitmap && Levels(a.value, v, 0);
}
template <typename C>
static inline bool InitBox(const struct GeoArrowArrayView* v, enum GeoArrowDimensions have) {
  BoxArray<C> a;
  bool ok = a.Init(v) == GEOARROW_OK;
  bool want = C::dimensions == have && 0 == v->n_offsets && v->coords.n_values >= 2 * Dim<C>::n;
  if (ok != want) return false;
  if (!ok) return true;
  bool same = a.validity == v->validity_bitmap && a.value.offset == v->offset[0] && a.value.length == v->length[0] &&
              a.value.stride == v->coords.coords_stride;
  for (int j = 0; j < 2 * Dim<C>::n; j++) same = same && a.value.values[j] == v->coords.values[j];
  return same;
}

// ---- blobs ------------------------------------------------------------------------
template <typename O>
static inline bool BlobEq(const O* off, const uint8_t* data, int64_t offset, int64_t length, int64_t i, int64_t k, int what) {
  BinarySequence<O> s;
  s.offset = offset;
  s.length = length;
  s.offsets = off;
  s.data = data;
  auto is = [&](struct GeoArrowBufferView got, int64_t at) {
    return got.data == data + off[offset + at] && got.size_bytes == off[offset + at + 1] - off[offset + at];
  };
  switch (what) {
    case 0: return is(s.blob(i), i);
    case 1: {
      auto it = s.begin();
      it += i;
      return is(*it, i);
    }
    case 2: {
      auto it = s.begin();
      it += i;
      return is(it[k], i + k);
    }
    case 3: return s.end() - s.begin() == length;
    default: {
      int64_t n = 0;
      bool ok = true;
      for (const auto& b : s) ok = ok && is(b, n), n++;
      return ok && n == length;
    }
  }
}
static inline bool BlobInit(const struct GeoArrowArrayView* v) {
  BinarySequence<int32_t> s;
  return s.InitFrom(v) == GEOARROW_OK && s.offsets == v->offsets[0] && s.offset == v->offset[0] &&
         s.length == v->length[0] && s.data == v->data;
}

// ---- validity -----------------------------------------------------------------------
template <typename A>
static inline bool Validity(const uint8_t* validity, int64_t offset, int64_t i, int what) {
  A a;
  a.validity = validity;
  a.value.offset = offset;
  int64_t at = offset + i;
  bool valid = validity == nullptr || ((validity[at / 8] >> (at % 8)) & 1) != 0;
  return what == 0 ? a.is_valid(i) == valid : a.is_null(i) == !valid;
}
template <typename A>
static inline bool SliceEq(A a, const uint8_t* validity, int64_t offset, int64_t length, int64_t i, int64_t k) {
  a.validity = validity;
  a.value.offset = offset;
  a.value.length = length;
  A got = a.Slice(i, k);
  return got.validity == validity && got.value.offset == offset + i && got.value.length == k && Rest(got.value, a.value);
}
template <typename C>
static inline bool BoundEq(const uint8_t* validity, int64_t offset, int64_t length, int64_t stride, const double* p0,
                           const double* p1, const double* p2, const double* p3, const double* p4, const double* p5,
                           const double* p6, const double* p7, int what) {
  const double* p[8] = {p0, p1, p2, p3, p4, p5, p6, p7};
  BoxArray<C> a;
  a.validity = validity;
  a.value.offset = offset;
  a.value.length = length;
  a.value.stride = stride;
  for (int j = 0; j < 2 * Dim<C>::n; j++) a.value.values[j] = p[j];
  if (what == 2) {
    BoxArray<C> got = a.Slice(3, 4);
    bool ok = got.validity == validity && got.value.offset == offset + 3 && got.value.length == 4 && got.value.stride == stride;
    for (int j = 0; j < 2 * Dim<C>::n; j++) ok = ok && got.value.values[j] == p[j];
    return ok;
  }
  PointArray<C> got = what == 0 ? a.LowerBound() : a.UpperBound();
  bool ok = got.validity == validity && got.value.offset == offset && got.value.length == length && got.value.stride == stride;
  for (int j = 0; j < Dim<C>::n; j++) ok = ok && got.value.values[j] == p[what * Dim<C>::n + j];
  return ok;
}

// ---- visiting -------------------------------------------------------------------------
template <typename C>
struct Trace {
  int n = 0;
  C v[48];
  void Add(const C& c) {
    if (n < 48) v[n] = c;
    n++;
  }
  bool Same(const Trace& o) const {
    if (n != o.n || n > 48) return false;
    bool ok = true;
#pragma clang loop unroll(full)
    for (int i = 0; i < 48; i++)
      if (i < n) ok = ok && Agree(v[i], o.v[i]);
    return ok;
  }
};

// what a visitor of the coordinates [from, to) of the sequence should see
template <typename S, typename D>
static inline void ExpectRun(const S& s, int64_t from, int64_t to, int edges, Trace<D>* t) {
  auto put = [&](int64_t at) {
    auto c = At(s, at);
    XYZM<double> full;
    full[0] = c[0], full[1] = c[1];
    constexpr int z = Dim<typename S::value_type>::z, m = Dim<typename S::value_type>::m;
    full[2] = z < 0 ? std::numeric_limits<double>::quiet_NaN() : c[z < 0 ? 0 : z];
    full[3] = m < 0 ? std::numeric_limits<double>::quiet_NaN() : c[m < 0 ? 0 : m];
    D out;
    out[0] = full[0], out[1] = full[1];
    if (Dim<D>::z >= 0) out[Dim<D>::z < 0 ? 0 : Dim<D>::z] = full[2];
    if (Dim<D>::m >= 0) out[Dim<D>::m < 0 ? 0 : Dim<D>::m] = full[3];
    t->Add(out);
  };
  if (edges == 0)
    for (int64_t i = from; i < to; i++) put(i);
  else if (edges == 1)
    for (int64_t i = from; i + 1 < to; i++) put(i), put(i + 1);
  else
    for (int64_t i = from; i < to; i++) put(i), put(i);
}
// elements [from, to) of a list sequence
template <typename C, typename D>
static inline void Expect(const CoordSequence<C>& s, int64_t from, int64_t to, int edges, Trace<D>* t) {
  ExpectRun(s, from, to, edges, t);
}
template <typename T, typename D>
static inline void Expect(const ListSequence<T>& s, int64_t from, int64_t to, int edges, Trace<D>* t) {
  for (int64_t i = from; i < to; i++)
    Expect(s.child, s.offsets[s.offset + i], s.offsets[s.offset + i + 1], edges, t);
}

// bits: validity of the elements; -1: no bitmap
template <typename D, typename A>
static inline bool VisitArray(A& a, int bits, bool points, int edges) {
  uint8_t validity[2] = {0, 0};
  for (int64_t i = 0; i < a.value.length; i++) {
    int64_t at = a.value.offset + i;
    if (bits < 0 || (bits >> i) & 1) validity[at / 8] |= 1 << (at % 8);
  }
  if (bits >= 0) a.validity = validity;
  Trace<D> want, got;
  for (int64_t i = 0; i < a.value.length; i++)
    if (bits < 0 || (bits >> i) & 1) Expect(a.value, i, i + 1, edges ? (points ? 2 : 1) : 0, &want);
  if (edges)
    a.template VisitEdges<D>([&](D p, D q) { got.Add(p), got.Add(q); });
  else
    a.template VisitVertices<D>([&](D p) { got.Add(p); });
  return want.Same(got);
}
// the same for a bare sequence
template <typename D, typename S>
static inline bool VisitSeq(const S& s, int edges) {
  Trace<D> want, got;
  Expect(s, 0, s.length, edges, &want);
  if (edges)
    s.template VisitEdges<D>([&](D p, D q) { got.Add(p), got.Add(q); });
  else
    s.template VisitVertices<D>([&](D p) { got.Add(p); });
  return want.Same(got);
}
template <typename D, typename S>
static inline bool VisitUnaligned(const S& s, int edges) {
  Trace<D> want, got;
  ExpectRun(s, 0, s.length, edges, &want);
  if (edges)
    s.template VisitEdges<D>([&](D p, D q) { got.Add(p), got.Add(q); });
  else
    s.template VisitVertices<D>([&](D p) { got.Add(p); });
  return want.Same(got);
}
// Coords(): all the coordinates between the first and the last element
template <typename A, typename S>
static inline bool CoordsEq(const A& a, const S& child, int64_t first, int64_t last) {
  auto got = a.Coords();
  if (got.length != last - first) return false;
  for (int64_t i = 0; i < got.length; i++)
    if (!Agree(At(child, first + i), At(got, i))) return false;
  return true;
}

// ---- selecting types --------------------------------------------------------------------
template <typename A>
static inline int Kind(const A&) {
  return A::geometry_type * 10 + A::dimensions;
}
struct Kinds {
  int value = -1;
};
template <typename A>
static inline void TakeKind(A& a, Kinds& k) {
  k.value = Kind(a);
}
