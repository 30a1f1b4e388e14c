exec(open('/verif/tool/seeds/a.py').read().split("S={}")[0])
SRC='src/geoarrow/'
S={}
S["s02-wkt-terminator"]=dict(prop="S02",needs="well-known text whose bytes are mapped read-only or shared with another reader",
 what="each number is terminated in place for the parser and restored afterwards: a read-only input crashes and a second reader sees a cut text",
 edits=[(SRC+"wkt_reader.c","""  int result = GeoArrowFromChars(start, s->data, out);
""","""  int result;
  if (s->size_bytes > 0) {
    char* end = (char*)s->data;
    char saved = *end;
    *end = '\\0';
    result = GeoArrowFromChars(start, s->data, out);
    *end = saved;
  } else {
    result = GeoArrowFromChars(start, s->data, out);
  }
""")],demo=COMMON+r'''
#include <sys/mman.h>
int main(void) {
  const char* s = "LINESTRING (0 1, 2 3)";
  char* p = (char*)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  REQ(p != MAP_FAILED);
  memcpy(p, s, strlen(s));
  REQ(mprotect(p, 4096, PROT_READ) == 0);
  struct GeoArrowGeometry g; CK(GeoArrowGeometryInit(&g));
  struct GeoArrowWKTReader r; CK(GeoArrowWKTReaderInit(&r));
  struct GeoArrowVisitor v; memset(&v, 0, sizeof(v)); GeoArrowGeometryInitVisitor(&g, &v);
  struct GeoArrowStringView sv = {p, (int64_t)strlen(s)};
  CK(GeoArrowWKTReaderVisit(&r, sv, &v));
  GeoArrowWKTReaderReset(&r); GeoArrowGeometryReset(&g);
  return 0;
}
''')
S["s02-kernel-null-count"]=dict(prop="S02",needs="a pushed array whose null count is unknown (-1) and that has no validity buffer",
 what="the kernel fills in the unknown null count of the caller's array",
 edits=[(SRC+"kernel.c","""  private_data->v.error = error;
  NANOARROW_RETURN_NOT_OK(GeoArrowArrayReaderVisit(&private_data->reader, 0,""","""  if (array->null_count == -1 && array->buffers[0] == NULL) {
    array->null_count = 0;
  }

  private_data->v.error = error;
  NANOARROW_RETURN_NOT_OK(GeoArrowArrayReaderVisit(&private_data->reader, 0,""")],demo=COMMON+r'''
int main(void) {
  struct GeoArrowBuilder b; CK(GeoArrowBuilderInitFromType(&b, GEOARROW_TYPE_POINT));
  double xy[2] = {1, 2};
  struct GeoArrowBufferView bx = {(const uint8_t*)&xy[0], 8}, by = {(const uint8_t*)&xy[1], 8};
  CK(GeoArrowBuilderAppendBuffer(&b, 1, bx)); CK(GeoArrowBuilderAppendBuffer(&b, 2, by));
  struct ArrowArray a; CK(GeoArrowBuilderFinish(&b, &a, NULL)); GeoArrowBuilderReset(&b);
  a.null_count = -1;
  struct ArrowSchema s, so; CK(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_POINT));
  struct GeoArrowKernel k; CK(GeoArrowKernelInit(&k, "box_agg", NULL));
  char opt[4] = {0};
  CK(k.start(&k, &s, opt, &so, NULL));
  CK(k.push_batch(&k, &a, NULL, NULL));
  int64_t n = a.null_count;
  k.release(&k); so.release(&so); s.release(&s); a.release(&a);
  REQ(n == -1);
  return 0;
}
''')
