exec(open('/verif/tool/seeds/a.py').read().split("S={}")[0])
SRC='src/geoarrow/'
S={}
S["s01-metadata-memo"]=dict(prop="S01",needs="a second metadata value at the same address and of the same length as the previous one, with other content",
 what="the result of parsing extension metadata depends on what was parsed before, through static storage shared by all threads",
 edits=[(SRC+"metadata.c","""  return GeoArrowMetadataViewInitJSON(metadata_view, error);
""","""  static struct GeoArrowMetadataView last_parsed;
  if (metadata.size_bytes > 64 && last_parsed.metadata.data == metadata.data &&
      last_parsed.metadata.size_bytes == metadata.size_bytes) {
    *metadata_view = last_parsed;
    return GEOARROW_OK;
  }

  int result = GeoArrowMetadataViewInitJSON(metadata_view, error);
  if (result == GEOARROW_OK) {
    last_parsed = *metadata_view;
  }

  return result;
""")],demo=COMMON+r'''
int main(void) {
  static char buf[256];
  struct GeoArrowStringView sv; struct GeoArrowMetadataView m;
  strcpy(buf, "{\"edges\": \"vincenty\", \"crs\": \"a crs that is some forty-odd characters long....\"}");
  sv.data = buf; sv.size_bytes = (int64_t)strlen(buf);
  CK(GeoArrowMetadataViewInit(&m, sv, NULL)); REQ(m.edge_type == GEOARROW_EDGE_TYPE_VINCENTY);
  strcpy(buf, "{\"edges\": \"andoyer\" , \"crs\": \"a crs that is some forty-odd characters long....\"}");
  REQ((int64_t)strlen(buf) == sv.size_bytes);
  CK(GeoArrowMetadataViewInit(&m, sv, NULL)); REQ(m.edge_type == GEOARROW_EDGE_TYPE_ANDOYER);
  return 0;
}
''')
S["v02-multilinestring-error-slot"]=dict(prop="V02",needs="a native writer of multilinestring type whose visitor carries an error object, and a feature the writer rejects",
 what="initialising the visitor for a multilinestring writer discards the caller's error object, so a later failure has no message",
 edits=[(SRC+"native_writer.c","""static void GeoArrowVisitorInitMultiLinestring(struct GeoArrowVisitor* v) {
  struct GeoArrowError* previous_error = v->error;
  GeoArrowVisitorInitVoid(v);
  v->error = previous_error;
""","""static void GeoArrowVisitorInitMultiLinestring(struct GeoArrowVisitor* v) {
  GeoArrowVisitorInitVoid(v);
""")],demo=COMMON+r'''
int main(void) {
  enum GeoArrowType t[] = {GEOARROW_TYPE_POINT, GEOARROW_TYPE_LINESTRING, GEOARROW_TYPE_POLYGON, GEOARROW_TYPE_MULTIPOINT, GEOARROW_TYPE_MULTILINESTRING, GEOARROW_TYPE_MULTIPOLYGON};
  struct GeoArrowError e; e.message[0] = 0;
  for (int i = 0; i < 6; i++) {
    struct GeoArrowNativeWriter w; CK(GeoArrowNativeWriterInit(&w, t[i]));
    struct GeoArrowVisitor v; memset(&v, 0, sizeof(v)); v.error = &e;
    CK(GeoArrowNativeWriterInitVisitor(&w, &v));
    GeoArrowNativeWriterReset(&w);
    REQ(v.error == &e);
  }
  return 0;
}
''')
