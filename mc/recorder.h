// A Writable that writes down every event it receives.
#ifndef mc_recorder_declared
#define mc_recorder_declared

#include "joedb/Writable.h"

#include <cstring>
#include <string>
#include <vector>

namespace mc
{
 inline std::string show(const std::string &s)
 {
  if (s.size() > 40)
   return "<" + std::to_string(s.size()) + ":" + std::to_string(std::hash<std::string>()(s)) + ">";
  std::string r = "\"";
  for (const unsigned char c: s)
  {
   if (c < 32 || c >= 127 || c == '"' || c == '\\')
   {
    static const char *h = "0123456789abcdef";
    r += "\\x";
    r += h[c >> 4];
    r += h[c & 15];
   }
   else
    r += char(c);
  }
  return r + '"';
 }
 inline std::string show(std::string_view s) {return show(std::string(s));}
 inline std::string show(const char *s) {return show(std::string(s));}
 inline std::string show(char x) {return std::to_string(int(x));}
 inline std::string show(bool x) {return std::to_string(int(x));}
 inline std::string show(int8_t x) {return std::to_string(int(x));}
 inline std::string show(int16_t x) {return std::to_string(x);}
 inline std::string show(int32_t x) {return std::to_string(x);}
 inline std::string show(int64_t x) {return std::to_string(x);}
 inline std::string show(joedb::Record_Id x) {return "#" + std::to_string(joedb::to_underlying(x));}
 inline std::string show(joedb::Blob b) {return "b" + std::to_string(b.get_position()) + "+" + std::to_string(b.get_size());}
 inline std::string show(float x) {uint32_t u; std::memcpy(&u, &x, 4); return "f" + std::to_string(u);}
 inline std::string show(double x) {uint64_t u; std::memcpy(&u, &x, 8); return "d" + std::to_string(u);}

 class Recorder: public joedb::Writable
 {
  public:
   std::vector<std::string> ops;
   bool blob_data = true;
   bool keep_vectors = true; // otherwise they are expanded
   bool checkpoints = false;

   std::string text() const
   {
    std::string r;
    for (const auto &s: ops)
     r += s + "\n";
    return r;
   }

   static std::string s(joedb::Table_Id t) {return std::to_string(joedb::to_underlying(t));}
   static std::string s(joedb::Field_Id t) {return std::to_string(joedb::to_underlying(t));}
   static std::string s(joedb::Record_Id t) {return std::to_string(joedb::to_underlying(t));}

   void soft_checkpoint() override {if (checkpoints) ops.push_back("soft_checkpoint");}
   void hard_checkpoint() override {if (checkpoints) ops.push_back("hard_checkpoint");}
   void create_table(const std::string &name) override {ops.push_back("create_table " + show(name));}
   void drop_table(joedb::Table_Id t) override {ops.push_back("drop_table " + s(t));}
   void rename_table(joedb::Table_Id t, const std::string &name) override {ops.push_back("rename_table " + s(t) + " " + show(name));}
   void add_field(joedb::Table_Id t, const std::string &name, joedb::Type type) override
   {
    ops.push_back
    (
     "add_field " + s(t) + " " + show(name) + " " + std::to_string(int(type.get_type_id())) +
     (type.get_type_id() == joedb::Type::Type_Id::reference ? " -> " + s(type.get_table_id()) : std::string())
    );
   }
   void drop_field(joedb::Table_Id t, joedb::Field_Id f) override {ops.push_back("drop_field " + s(t) + " " + s(f));}
   void rename_field(joedb::Table_Id t, joedb::Field_Id f, const std::string &name) override
   {
    ops.push_back("rename_field " + s(t) + " " + s(f) + " " + show(name));
   }
   void custom(const std::string &name) override {ops.push_back("custom " + show(name));}
   void comment(const std::string &c) override {ops.push_back("comment " + show(c));}
   void timestamp(int64_t t) override {ops.push_back("timestamp " + std::to_string(t));}
   void valid_data() override {ops.push_back("valid_data");}
   void insert_into(joedb::Table_Id t, joedb::Record_Id r) override {ops.push_back("insert " + s(t) + " " + s(r));}
   void delete_from(joedb::Table_Id t, joedb::Record_Id r) override {ops.push_back("delete " + s(t) + " " + s(r));}
   void insert_vector(joedb::Table_Id t, joedb::Record_Id r, size_t n) override
   {
    ops.push_back("insert_vector " + s(t) + " " + s(r) + " " + std::to_string(n));
   }
   void delete_vector(joedb::Table_Id t, joedb::Record_Id r, size_t n) override
   {
    ops.push_back("delete_vector " + s(t) + " " + s(r) + " " + std::to_string(n));
   }

   #define TYPE_MACRO(type, return_type, type_id, R, W)\
   void update_##type_id(joedb::Table_Id t, joedb::Record_Id r, joedb::Field_Id f, return_type v) override\
   {\
    ops.push_back("update_" #type_id " " + s(t) + " " + s(r) + " " + s(f) + " " + show(v));\
   }\
   void update_vector_##type_id(joedb::Table_Id t, joedb::Record_Id r, joedb::Field_Id f, size_t n, const type *v) override\
   {\
    if (!keep_vectors)\
    {\
     joedb::Writable::update_vector_##type_id(t, r, f, n, v);\
     return;\
    }\
    std::string x = "update_vector_" #type_id " " + s(t) + " " + s(r) + " " + s(f) + " " + std::to_string(n);\
    for (size_t i = 0; i < n; i++)\
     x += " " + show(v[i]);\
    ops.push_back(x);\
   }
   #include "joedb/TYPE_MACRO.h"

   bool wants_blob_data() const override {return blob_data;}
   void on_blob(joedb::Blob b) override {ops.push_back("on_blob +" + std::to_string(b.get_size()));}
   joedb::Blob write_blob(std::string_view data) override
   {
    ops.push_back("write_blob " + show(data));
    return joedb::Blob(int64_t(ops.size()), int64_t(data.size()));
   }
 };
}

#endif
