// The tool, as a function (each has static functions of its own)
#define main joedb_merge_main
#include "joedb/ui/joedb_merge.cpp"
