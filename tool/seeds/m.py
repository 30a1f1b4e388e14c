exec(open('/verif/tool/seeds/a.py').read().split("S={}")[0])
SRC='src/geoarrow/'
S={}
S["m05-wkb-level"]=dict(prop="M05",needs="well-known binary with hundreds of thousands of collections, each holding one member, inside each other",
 what="the nesting limit is not applied to collections with one member: the 8-bit level wraps and the reader recurses until the stack is exhausted",
 edits=[(SRC+"wkb_reader.c","""    case GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION:
      if (node->level == 255) {""","""    case GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION:
      if (size > 1 && node->level == 255) {""")],demo=COMMON+r'''
int main(void) {
  int n = 1000000;
  uint8_t* p = (uint8_t*)malloc((size_t)n * 9 + 16);
  for (int i = 0; i < n; i++) {
    uint8_t h[9] = {1, 7, 0, 0, 0, 1, 0, 0, 0};
    memcpy(p + (size_t)i * 9, h, 9);
  }
  struct GeoArrowWKBReader r; CK(GeoArrowWKBReaderInit(&r));
  struct GeoArrowBufferView b = {p, (int64_t)n * 9};
  struct GeoArrowGeometryView g; struct GeoArrowError e;
  REQ(GeoArrowWKBReaderRead(&r, b, &g, &e) != 0);
  GeoArrowWKBReaderReset(&r); free(p);
  return 0;
}
''')
S["m05-ring-counter"]=dict(prop="M05",needs="a polygon with more than 255 rings visited through a geometry view",
 what="the ring counter wraps before it reaches the number of rings: the visit never ends",
 edits=[(SRC+"geometry.c","""      for (uint32_t i = 0; i < node->size; i++) {
        GEOARROW_RETURN_NOT_OK(v->ring_start(v));""","""      for (uint8_t i = 0; i < node->size; i++) {
        GEOARROW_RETURN_NOT_OK(v->ring_start(v));""")],demo=COMMON+r'''
#include <unistd.h>
int main(void) {
  alarm(20);
  int n = 300;
  struct GeoArrowGeometry g; CK(GeoArrowGeometryInit(&g));
  struct GeoArrowGeometryNode* node;
  CK(GeoArrowGeometryAppendNode(&g, &node));
  node->geometry_type = GEOARROW_GEOMETRY_TYPE_POLYGON; node->dimensions = GEOARROW_DIMENSIONS_XY; node->size = n;
  for (int i = 0; i < n; i++) {
    CK(GeoArrowGeometryAppendNode(&g, &node));
    node->geometry_type = GEOARROW_GEOMETRY_TYPE_LINESTRING; node->dimensions = GEOARROW_DIMENSIONS_XY; node->level = 1;
  }
  struct GeoArrowVisitor v; memset(&v, 0, sizeof(v)); GeoArrowVisitorInitVoid(&v);
  CK(GeoArrowGeometryViewVisit(GeoArrowGeometryAsView(&g), &v));
  GeoArrowGeometryReset(&g);
  return 0;
}
''')
S["m05-metadata-number"]=dict(prop="M05",needs="JSON metadata holding a list with a character that is skipped by the new branch",
 what="an escaped character inside a nested list is looked at again and again",
 edits=[(SRC+"metadata.c","""    for (int64_t i = 0; i < n_items; i++) {
      if (c == items[i]) {
        return 1;
      }
    }

    s->size_bytes--;
    s->data++;
  }

  return 0;""","""    for (int64_t i = 0; i < n_items; i++) {
      if (c == items[i]) {
        return 1;
      }
    }

    if (c == '\\\\' && s->size_bytes > 2) {
      // An escaped character is no delimiter
      s->data += 2;
      continue;
    }

    s->size_bytes--;
    s->data++;
  }

  return 0;""")],demo=COMMON+r'''
#include <unistd.h>
#include <sys/mman.h>
int main(void) {
  alarm(20);
  /* two pages of text in front of a page that may not be touched */
  size_t page = (size_t)sysconf(_SC_PAGESIZE);
  char* m = (char*)mmap(NULL, 3 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  REQ(m != MAP_FAILED);
  REQ(mprotect(m + 2 * page, page, PROT_NONE) == 0);
  char* s = m + 2 * page - 200;
  memset(s, '\\', 200);
  memcpy(s, "{\"crs\":[", 8);
  struct GeoArrowStringView sv = {s, 200};
  struct GeoArrowMetadataView mv; struct GeoArrowError e;
  REQ(GeoArrowMetadataViewInit(&mv, sv, &e) != 0);
  return 0;
}
''')
