// The tool, as a function (each has static functions of its own)
#define main joedb_to_json_main
#include "joedb/ui/joedb_to_json.cpp"
