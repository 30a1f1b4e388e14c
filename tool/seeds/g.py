SRC='src/geoarrow/'
S={}
HEAD=r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
config() {  # dir fast_float ryu namespace
  mkdir -p "$t/$1/geoarrow"
  sed -e 's/@GEOARROW_VERSION_MAJOR@/0/;s/@GEOARROW_VERSION_MINOR@/2/;s/@GEOARROW_VERSION_PATCH@/0/' \
    -e "s/@GEOARROW_VERSION@/0.2.0/;s/@GEOARROW_USE_FAST_FLOAT_DEFINE@/#define GEOARROW_USE_FAST_FLOAT $2/" \
    -e "s/@GEOARROW_USE_RYU_DEFINE@/#define GEOARROW_USE_RYU $3/;s/@GEOARROW_NAMESPACE_DEFINE@/$4/" \
    src/geoarrow/geoarrow_config.h.in > "$t/$1/geoarrow/geoarrow_config.h"
}
'''
S["g01-prefix-metadata"]=dict(prop="G01",needs="the prefixed configuration, linked with another copy of the library",
 what="two metadata functions are exported without the prefix",
 edits=[(SRC+"geoarrow_type.h","""#define GeoArrowUnescapeCrs _GEOARROW_MAKE_NAME(GEOARROW_NAMESPACE, GeoArrowUnescapeCrs)
""",""),(SRC+"geoarrow_type.h","""#define GeoArrowMetadataSerialize \\
  _GEOARROW_MAKE_NAME(GEOARROW_NAMESPACE, GeoArrowMetadataSerialize)
""","")],
 demo_sh=HEAD+r'''
config ns 0 0 "#define GEOARROW_NAMESPACE MyLib"
gcc -w -std=gnu99 -DNANOARROW_NAMESPACE=MyLib -I"$t/ns" -Isrc -Isrc/vendor -c src/geoarrow/metadata.c -o "$t/m.o" || exit 4
# symbols that would collide with an unprefixed copy
nm -g --defined-only "$t/m.o" | awk '{print $3}' | grep -v '^MyLib' && exit 1
exit 0
''')
S["g01-parser-guard"]=dict(prop="G01",needs="the build with the standard number parser and the ryu printer",
 what="no parser is compiled in that configuration: GeoArrowFromChars is declared but undefined",
 edits=[(SRC+"double_parse_std.c","#if !defined(GEOARROW_USE_FAST_FLOAT) || !GEOARROW_USE_FAST_FLOAT","#if (!defined(GEOARROW_USE_FAST_FLOAT) || !GEOARROW_USE_FAST_FLOAT) && \\\n    (!defined(GEOARROW_USE_RYU) || !GEOARROW_USE_RYU)")],
 demo_sh=HEAD+r'''
config c 0 1 ""
cat > "$t/d.c" <<'X'
#include "geoarrow/geoarrow.h"
int main(void) { double d = 0; const char* s = "1.5"; return GeoArrowFromChars(s, s + 3, &d) != GEOARROW_OK || d != 1.5; }
X
gcc -w -std=gnu99 -I"$t/c" -Isrc -Isrc/vendor "$t/d.c" src/geoarrow/double_parse_std.c -o "$t/d" && "$t/d"
''')
S["g01-debug-layout"]=dict(prop="G01",needs="an application compiled with GEOARROW_DEBUG against a library compiled without it (or the other way round)",
 what="the layout of GeoArrowVisitor depends on a debugging macro",
 edits=[(SRC+"geoarrow_type.h","""  /// \\brief Opaque visitor-specific data
  void* private_data;
""","""#if defined(GEOARROW_DEBUG)
  /// \\brief Number of callbacks seen so far
  int64_t n_calls;
#endif

  /// \\brief Opaque visitor-specific data
  void* private_data;
""")],
 demo_sh=HEAD+r'''
config c 0 0 ""
cat > "$t/d.c" <<'X'
#include <stdio.h>
#include <stddef.h>
#include "geoarrow/geoarrow.h"
int main(void) { printf("%d %d\n", (int)sizeof(struct GeoArrowVisitor), (int)offsetof(struct GeoArrowVisitor, private_data)); return 0; }
X
gcc -w -std=gnu99 -I"$t/c" -Isrc "$t/d.c" -o "$t/d1" && gcc -w -std=gnu99 -DGEOARROW_DEBUG -I"$t/c" -Isrc "$t/d.c" -o "$t/d2" || exit 4
[ "$("$t/d1")" = "$("$t/d2")" ]
''')
