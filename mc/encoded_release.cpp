// The decoder as it is in a release build: without debug assertions
#define NDEBUG
#undef JOEDB_DEBUG
#include "joedb/journal/Brotli_Decoder.cpp"
