// The tool, as a function (each has static functions of its own)
#define main joedb_logdump_main
#include "joedb/ui/joedb_logdump.cpp"
