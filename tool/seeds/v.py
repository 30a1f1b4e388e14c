exec(open('/verif/tool/seeds/a.py').read().split("S={}")[0])
SRC='src/geoarrow/'
S={}
PRE=COMMON+r'''
static int add(struct GeoArrowNativeWriter* w, const char* s) {
  if (!s) return GeoArrowNativeWriterAppendNull(w);
  struct GeoArrowGeometry g; CK(GeoArrowGeometryInit(&g));
  struct GeoArrowWKTReader r; CK(GeoArrowWKTReaderInit(&r));
  struct GeoArrowVisitor v; memset(&v, 0, sizeof(v)); GeoArrowGeometryInitVisitor(&g, &v);
  struct GeoArrowStringView sv = {s, (int64_t)strlen(s)};
  CK(GeoArrowWKTReaderVisit(&r, sv, &v));
  int rc = GeoArrowNativeWriterAppend(w, GeoArrowGeometryAsView(&g), NULL);
  GeoArrowWKTReaderReset(&r); GeoArrowGeometryReset(&g);
  return rc;
}
'''
S["v03-inner-offsets-carry"]=dict(prop="V03",needs="a nested type (two or more list levels), a finished batch, then appends",
 what="the inner offsets of a batch built with append continue from those of the batch before it",
 edits=[(SRC+"native_writer.c","""  memset(private_data->last_offset, 0, sizeof(private_data->last_offset));
""","""  private_data->last_offset[0] = 0;
""")],demo=PRE+r'''
int main(void) {
  struct GeoArrowNativeWriter w; CK(GeoArrowNativeWriterInit(&w, GEOARROW_TYPE_POLYGON));
  struct ArrowArray a;
  for (int i = 0; i < 2; i++) {
    CK(add(&w, "POLYGON ((0 0, 1 0, 0 1, 0 0))"));
    CK(GeoArrowNativeWriterFinish(&w, &a, NULL));
    const int32_t* o = (const int32_t*)a.children[0]->buffers[1];
    REQ(o[0] == 0 && o[1] == 4);
    a.release(&a);
  }
  GeoArrowNativeWriterReset(&w);
  return 0;
}
''')
S["v03-multipolygon-ring-carry"]=dict(prop="V03",needs="a feature of a MULTIPOLYGON writer that fails midway through a ring, then another feature",
 what="rings counted for an abandoned feature are counted for the next one",
 edits=[(SRC+"native_writer.c","""  private_data->size[0] = 0;
  private_data->size[1] = 0;
  private_data->size[2] = 0;
""","""  private_data->size[0] = 0;
  private_data->size[1] = 0;
""")],demo=COMMON+r'''
int main(void) {
  struct GeoArrowNativeWriter w; CK(GeoArrowNativeWriterInit(&w, GEOARROW_TYPE_MULTIPOLYGON));
  struct GeoArrowVisitor v; memset(&v, 0, sizeof(v)); CK(GeoArrowNativeWriterInitVisitor(&w, &v));
  /* a batch ending in a POINT, then an empty */
  struct GeoArrowWKTReader r; CK(GeoArrowWKTReaderInit(&r));
  const char* in[] = {"POINT (1 2)", "MULTIPOLYGON EMPTY"};
  for (int i = 0; i < 2; i++) {
    struct GeoArrowStringView s = {in[i], (int64_t)strlen(in[i])};
    CK(GeoArrowWKTReaderVisit(&r, s, &v));
  }
  struct ArrowArray a; CK(GeoArrowNativeWriterFinish(&w, &a, NULL));
  const int32_t* o = (const int32_t*)a.buffers[1];
  REQ(a.length == 2 && o[0] == 0 && o[1] == 1 && o[2] == 1);
  a.release(&a); GeoArrowWKTReaderReset(&r); GeoArrowNativeWriterReset(&w);
  return 0;
}
''')
