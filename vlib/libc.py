"""C library: (argument positions written through, argument the result points into)."""
LIBC = {
    "free": ((0,), None), "ArrowFree": ((0,), None), "snprintf": ((0,), None), "vsnprintf": ((0,), None), "sprintf": ((0,), None),
    "strlen": ((), None), "strcmp": ((), None), "strncmp": ((), None), "memcmp": ((), None), "atoi": ((), None), "atol": ((), None),
    "strtod": ((1,), None), "strtol": ((1,), None), "strtoll": ((1,), None), "strtoul": ((1,), None), "memchr": ((), 0), "strchr": ((), 0),
    "strcpy": ((0,), 0), "strncpy": ((0,), 0), "strcat": ((0,), 0), "abort": ((), None), "strstr": ((), 0), "strrchr": ((), 0),
    "fprintf": ((), None), "printf": ((), None), "isnan": ((), None), "__assert_fail": ((), None), "strdup": ((), None), "qsort": ((0,), None)}
