// Canonical text of the observable content of a database.
#ifndef mc_dump_declared
#define mc_dump_declared

#include "recorder.h"
#include "joedb/Readable.h"
#include "joedb/Freedom_Keeper.h"

namespace mc
{
 inline std::string value_text(const joedb::Readable &db, joedb::Table_Id t, joedb::Record_Id r, joedb::Field_Id f)
 {
  switch (db.get_field_type(t, f).get_type_id())
  {
   case joedb::Type::Type_Id::null: return "null";
   #define TYPE_MACRO(cpp_type, return_type, type_id, R, W)\
   case joedb::Type::Type_Id::type_id: return show(db.get_##type_id(t, r, f));
   #include "joedb/TYPE_MACRO.h"
  }
  return "?";
 }

 inline std::string type_text(const joedb::Type &type)
 {
  static const char *names[] = {"null"
  #define TYPE_MACRO(cpp_type, return_type, type_id, R, W) , #type_id
  #include "joedb/TYPE_MACRO.h"
  };
  std::string r = names[int(type.get_type_id())];
  if (type.get_type_id() == joedb::Type::Type_Id::reference)
   r += "(" + std::to_string(joedb::to_underlying(type.get_table_id())) + ")";
  return r;
 }

 // Schema and data. With renumber, tables and fields are known by their names
 // only (dropped tables and fields shift identifiers).
 inline std::string dump(const joedb::Readable &db)
 {
  using namespace joedb;
  std::string out;
  for (const auto &[t, name]: db.get_tables())
  {
   out += "table " + std::to_string(to_underlying(t)) + " " + name + "\n";
   for (const auto &[f, fname]: db.get_fields(t))
    out += " field " + std::to_string(to_underlying(f)) + " " + fname + " " + type_text(db.get_field_type(t, f)) + "\n";
   const Freedom_Keeper &fk = db.get_freedom(t);
   for (Record_Id r{0}; r < fk.get_size(); ++r)
    if (fk.is_used(r))
    {
     out += " " + std::to_string(to_underlying(r));
     for (const auto &[f, fname]: db.get_fields(t))
      out += " " + value_text(db, t, r, f);
     out += "\n";
    }
  }
  return out;
 }
}

#endif
