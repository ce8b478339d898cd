// Independent readers of what joedb exports: snapshots of databases, a JSON
// parser, and an interpreter of the SQL that joedb writes.
#ifndef mc_convert_declared
#define mc_convert_declared

#include "explorer.h"
#include "dump.h"

#include "joedb/interpreted/Database.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/Multiplexer.h"
#include "joedb/Selective_Writable.h"
#include "joedb/ui/dump.h"
#include "joedb/ui/merge.h"
#include "joedb/ui/json.h"
#include "joedb/ui/base64.h"
#include "joedb/ui/type_io.h"
#include "joedb/ui/Interpreter.h"
#include "joedb/ui/Interpreter_Dump_Writable.h"
#include "joedb/ui/SQL_Dump_Writable.h"
#include "external/wide_char_display_width.h"

#include <cfloat>
#include <cmath>
#include <functional>
#include <memory>
#include <sstream>

using namespace joedb;
using mc::Chooser;
using mc::require;

inline std::string str(int64_t x) {return std::to_string(x);}

/////////////////////////////////////////////////////////////////////////////
// Snapshot of a database
/////////////////////////////////////////////////////////////////////////////

struct Value
{
 Type::Type_Id type = Type::Type_Id::null;
 int64_t integer = 0; // also references and booleans
 double real = 0;
 std::string string;
 Blob blob;
 std::string data; // bytes of the blob
};

inline std::string bits(double x) {return std::isnan(x) ? "nan" : mc::show(x);}

struct Snapshot
{
 struct Field {int id; std::string name; Type::Type_Id type; int target;};
 struct Table
 {
  int id;
  std::string name;
  std::vector<Field> fields;
  std::map<int64_t, std::vector<Value>> rows;
 };
 std::vector<Table> tables;

 const Table *find(int id) const
 {
  for (const auto &t: tables)
   if (t.id == id)
    return &t;
  return nullptr;
 }

 std::string text() const
 {
  std::string s;
  for (const auto &t: tables)
  {
   s += "table " + str(t.id) + " " + t.name + "\n";
   for (const auto &f: t.fields)
    s += " field " + str(f.id) + " " + f.name + " " + str(int(f.type)) + (f.type == Type::Type_Id::reference ? " -> " + str(f.target) : std::string()) + "\n";
   for (const auto &[id, row]: t.rows)
   {
    s += " " + str(id);
    for (const Value &v: row)
     switch (v.type)
     {
      case Type::Type_Id::string: s += " " + mc::show(v.string); break;
      case Type::Type_Id::blob: s += " " + (v.data.empty() ? mc::show(v.blob) : mc::show(v.data)); break;
      case Type::Type_Id::float32: case Type::Type_Id::float64: s += " " + bits(v.real); break;
      default: s += " " + str(v.integer);
     }
    s += "\n";
   }
  }
  return s;
 }
};

// With renumber, tables and fields get consecutive identifiers (0 for the
// target of a reference that does not exist any more).
inline Snapshot snapshot(const Readable &db, bool renumber = false, bool schema_only = false, const Abstract_File *blobs = nullptr, bool dangling_is_0 = false)
{
 Snapshot s;
 std::map<int, int> number;
 for (const auto &[t, name]: db.get_tables())
 {
  const int n = int(number.size()) + 1;
  number[int(to_underlying(t))] = n;
 }
 for (const auto &[t, name]: db.get_tables())
 {
  Snapshot::Table x;
  x.id = renumber ? number[int(to_underlying(t))] : int(to_underlying(t));
  x.name = name;
  for (const auto &[f, fname]: db.get_fields(t))
  {
   const Type type = db.get_field_type(t, f);
   Snapshot::Field y;
   y.id = renumber ? int(x.fields.size()) + 1 : int(to_underlying(f));
   y.name = fname;
   y.type = type.get_type_id();
   y.target = 0;
   if (y.type == Type::Type_Id::reference)
   {
    const int target = int(to_underlying(type.get_table_id()));
    y.target = renumber ? (number.count(target) ? number[target] : 0) : dangling_is_0 && !number.count(target) ? 0 : target;
   }
   x.fields.push_back(y);
  }
  const Freedom_Keeper &fk = db.get_freedom(t);
  if (!schema_only)
   for (int64_t r = 0; r < int64_t(fk.size()); r++)
    if (fk.is_used(Record_Id(r)))
    {
     std::vector<Value> row;
     for (const auto &[f, fname]: db.get_fields(t))
     {
      Value v;
      v.type = db.get_field_type(t, f).get_type_id();
      switch (v.type)
      {
       case Type::Type_Id::null: break;
       case Type::Type_Id::string: v.string = db.get_string(t, Record_Id(r), f); break;
       case Type::Type_Id::int8: v.integer = db.get_int8(t, Record_Id(r), f); break;
       case Type::Type_Id::int16: v.integer = db.get_int16(t, Record_Id(r), f); break;
       case Type::Type_Id::int32: v.integer = db.get_int32(t, Record_Id(r), f); break;
       case Type::Type_Id::int64: v.integer = db.get_int64(t, Record_Id(r), f); break;
       case Type::Type_Id::boolean: v.integer = db.get_boolean(t, Record_Id(r), f); break;
       case Type::Type_Id::reference: v.integer = to_underlying(db.get_reference(t, Record_Id(r), f)); break;
       case Type::Type_Id::float32: v.real = double(db.get_float32(t, Record_Id(r), f)); break;
       case Type::Type_Id::float64: v.real = db.get_float64(t, Record_Id(r), f); break;
       case Type::Type_Id::blob:
        v.blob = db.get_blob(t, Record_Id(r), f);
        if (blobs)
         v.data = v.blob.is_null() ? "null" : "data " + blobs->read_blob(v.blob);
       break;
      }
      row.push_back(v);
     }
     x.rows[r] = row;
    }
  s.tables.push_back(x);
 }
 return s;
}

/////////////////////////////////////////////////////////////////////////////
// Text
/////////////////////////////////////////////////////////////////////////////

// RFC 3629
inline bool decode_utf8(const std::string &s, std::vector<uint32_t> &v)
{
 for (size_t i = 0; i < s.size();)
 {
  const uint8_t c = uint8_t(s[i]);
  int n;
  uint32_t x;
  if (c < 0x80) {n = 0; x = c;}
  else if (c >= 0xc2 && c <= 0xdf) {n = 1; x = c & 0x1f;}
  else if (c >= 0xe0 && c <= 0xef) {n = 2; x = c & 0x0f;}
  else if (c >= 0xf0 && c <= 0xf4) {n = 3; x = c & 0x07;}
  else return false;
  if (i + size_t(n) >= s.size() + (n ? 0 : 1))
   return false;
  for (int k = 1; k <= n; k++)
  {
   const uint8_t d = uint8_t(s[i + size_t(k)]);
   if ((d & 0xc0) != 0x80)
    return false;
   x = (x << 6) | (d & 0x3f);
  }
  if ((n == 2 && x < 0x800) || (n == 3 && (x < 0x10000 || x > 0x10ffff)) || (x >= 0xd800 && x <= 0xdfff))
   return false;
  v.push_back(x);
  i += size_t(n) + 1;
 }
 return true;
}

inline bool valid_utf8(const std::string &s)
{
 std::vector<uint32_t> v;
 return decode_utf8(s, v);
}

// Width on a terminal (a control character or a wrong byte counts for 0)
inline size_t display_width(const std::string &s)
{
 std::vector<uint32_t> v;
 if (!decode_utf8(s, v))
  mc::fail("not UTF-8: " + mc::show(s), "display_utf8");
 size_t r = 0;
 for (const uint32_t c: v)
 {
  const int w = wide_char_display_width(c);
  if (w > 0)
   r += size_t(w);
 }
 return r;
}

inline std::string base64_decode_reference(const std::string &s)
{
 if (s.size() % 4)
  mc::fail("base64 text of length " + str(int64_t(s.size())), "base64_length");
 std::string r;
 for (size_t i = 0; i < s.size(); i += 4)
 {
  uint32_t x = 0;
  int pad = 0;
  for (size_t k = 0; k < 4; k++)
  {
   const char c = s[i + k];
   uint32_t d = 0;
   if (c >= 'A' && c <= 'Z') d = uint32_t(c - 'A');
   else if (c >= 'a' && c <= 'z') d = uint32_t(c - 'a') + 26;
   else if (c >= '0' && c <= '9') d = uint32_t(c - '0') + 52;
   else if (c == '+') d = 62;
   else if (c == '/') d = 63;
   else if (c == '=' && i + 4 == s.size() && k >= 2) pad++;
   else mc::fail("base64 text contains " + mc::show(std::string(1, c)), "base64_alphabet");
   if (c != '=' && pad)
    mc::fail("base64 text continues after =", "base64_padding");
   x = (x << 6) | d;
  }
  r += char(x >> 16);
  if (pad < 2) r += char(x >> 8);
  if (pad < 1) r += char(x);
  if ((pad == 2 && (x & 0xffff)) || (pad == 1 && (x & 0xff)))
   mc::fail("base64 text has bits after the end", "base64_padding");
 }
 return r;
}

inline bool same_number(const std::string &text, const Value &v)
{
 char *end;
 if (v.type == Type::Type_Id::float32)
  return mc::show(std::strtof(text.c_str(), &end)) == mc::show(float(v.real)) && !*end;
 return mc::show(std::strtod(text.c_str(), &end)) == mc::show(v.real) && !*end;
}

// 6 significant digits are written (KNOWN-FINDING float_precision): is this what is wrong?
inline const char *number_key(const std::string &text, const Value &v, const char *key)
{
 std::ostringstream s;
 if (v.type == Type::Type_Id::float32)
  s << float(v.real);
 else
  s << v.real;
 return s.str() == text ? "float_precision" : key;
}

/////////////////////////////////////////////////////////////////////////////
// JSON (RFC 8259)
/////////////////////////////////////////////////////////////////////////////

struct Json
{
 char kind = '?'; // o a s n b 0
 std::string text;
 std::vector<Json> items;
 std::vector<std::pair<std::string, Json>> members;
};

class Json_Parser
{
 private:
  const std::string s;
  size_t i = 0;

  [[noreturn]] void error(const std::string &m) {throw m + " at " + std::to_string(i);}
  void space() {while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) i++;}
  char peek() {if (i >= s.size()) error("end of text"); return s[i];}
  void expect(char c) {if (peek() != c) error(std::string("expected ") + c); i++;}

  static void put(std::string &r, uint32_t x)
  {
   if (x < 0x80) r += char(x);
   else if (x < 0x800) {r += char(0xc0 | (x >> 6)); r += char(0x80 | (x & 63));}
   else {r += char(0xe0 | (x >> 12)); r += char(0x80 | ((x >> 6) & 63)); r += char(0x80 | (x & 63));}
  }

  std::string string()
  {
   expect('"');
   std::string r;
   while (true)
   {
    const char c = peek();
    i++;
    if (c == '"')
     return r;
    if (uint8_t(c) < 0x20)
     error("control character in a string");
    if (c != '\\')
    {
     r += c;
     continue;
    }
    const char e = peek();
    i++;
    switch (e)
    {
     case '"': case '\\': case '/': r += e; break;
     case 'b': r += '\b'; break;
     case 'f': r += '\f'; break;
     case 'n': r += '\n'; break;
     case 'r': r += '\r'; break;
     case 't': r += '\t'; break;
     case 'u':
     {
      uint32_t x = 0;
      for (int k = 0; k < 4; k++)
      {
       const char h = peek();
       i++;
       if (!isxdigit(uint8_t(h)))
        error("bad \\u");
       x = x * 16 + uint32_t(h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
      }
      if (x >= 0xd800 && x < 0xe000)
       error("surrogate");
      put(r, x);
     }
     break;
     default: error("bad escape");
    }
   }
  }

  Json value()
  {
   space();
   Json j;
   const char c = peek();
   if (c == '{')
   {
    j.kind = 'o';
    i++;
    space();
    if (peek() == '}') {i++; return j;}
    std::set<std::string> names;
    while (true)
    {
     space();
     std::string name = string();
     if (!names.insert(name).second)
      error("member " + name + " twice");
     space();
     expect(':');
     j.members.emplace_back(name, value());
     space();
     if (peek() == ',') {i++; continue;}
     expect('}');
     return j;
    }
   }
   if (c == '[')
   {
    j.kind = 'a';
    i++;
    space();
    if (peek() == ']') {i++; return j;}
    while (true)
    {
     j.items.push_back(value());
     space();
     if (peek() == ',') {i++; continue;}
     expect(']');
     return j;
    }
   }
   if (c == '"')
   {
    j.kind = 's';
    j.text = string();
    return j;
   }
   for (const char *w: {"true", "false", "null"})
    if (s.compare(i, std::strlen(w), w) == 0)
    {
     j.kind = w[0] == 'n' ? '0' : 'b';
     j.text = w;
     i += std::strlen(w);
     return j;
    }
   // number
   j.kind = 'n';
   const size_t start = i;
   auto digits = [&]()
   {
    if (!isdigit(uint8_t(peek())))
     error("bad number");
    while (i < s.size() && isdigit(uint8_t(s[i])))
     i++;
   };
   if (c == '-')
    i++;
   if (peek() == '0')
    i++;
   else
    digits();
   if (i < s.size() && s[i] == '.') {i++; digits();}
   if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
   {
    i++;
    if (peek() == '+' || peek() == '-')
     i++;
    digits();
   }
   j.text = s.substr(start, i - start);
   return j;
  }

 public:
  Json_Parser(const std::string &s): s(s) {}
  Json parse()
  {
   if (!valid_utf8(s))
    throw std::string("not UTF-8");
   Json j = value();
   space();
   if (i < s.size())
    error("text after the end");
   return j;
  }
};

/////////////////////////////////////////////////////////////////////////////
// SQL
/////////////////////////////////////////////////////////////////////////////

inline std::string sql_type(Type::Type_Id t)
{
 switch (t)
 {
  case Type::Type_Id::string: return "TEXT";
  case Type::Type_Id::int8: case Type::Type_Id::int16: case Type::Type_Id::boolean: return "SMALLINT";
  case Type::Type_Id::int32: return "INTEGER";
  case Type::Type_Id::int64: return "BIGINT";
  case Type::Type_Id::float32: case Type::Type_Id::float64: return "REAL";
  case Type::Type_Id::blob: return "BLOB";
  case Type::Type_Id::reference: return "INTEGER REFERENCES";
  default: return "NULL";
 }
}

struct Sql
{
 struct Table
 {
  std::map<std::string, std::string> columns;
  std::map<int64_t, std::map<std::string, std::string>> rows;
 };
 std::map<std::string, Table> tables;
 bool transaction = false;

 struct Token {char kind; std::string text;}; // q(uoted), x (bytes), n(umber), w(ord), p(unctuation)

 static std::vector<Token> tokens(const std::string &s)
 {
  std::vector<Token> v;
  for (size_t i = 0; i < s.size();)
  {
   const char c = s[i];
   if (isspace(uint8_t(c)))
    i++;
   else if (c == '-' && i + 1 < s.size() && s[i + 1] == '-')
   {
    // PostgreSQL ends comments at \r as well
    while (i < s.size() && s[i] != '\n' && s[i] != '\r')
    {
     if (s[i] == 0)
      throw std::string("NUL in a comment");
     i++;
    }
   }
   else if (c == '"')
   {
    std::string t;
    for (i++; ; i++)
    {
     if (i >= s.size()) throw std::string("unterminated identifier");
     if (s[i] == '"') break;
     t += s[i];
    }
    i++;
    v.push_back(Token{'q', t});
   }
   else if (c == 'X' && i + 1 < s.size() && s[i + 1] == '\'')
   {
    std::string t;
    for (i += 2; ; i += 2)
    {
     if (i >= s.size()) throw std::string("unterminated bytes");
     if (s[i] == '\'') break;
     if (i + 1 >= s.size() || !isxdigit(uint8_t(s[i])) || !isxdigit(uint8_t(s[i + 1]))) throw std::string("bad hexadecimal");
     t += char(std::strtol(s.substr(i, 2).c_str(), nullptr, 16));
    }
    i++;
    v.push_back(Token{'x', t});
   }
   else if (isdigit(uint8_t(c)) || c == '-')
   {
    std::string t;
    while (i < s.size() && (isalnum(uint8_t(s[i])) || s[i] == '-' || s[i] == '+' || s[i] == '.'))
     t += s[i++];
    v.push_back(Token{'n', t});
   }
   else if (isalpha(uint8_t(c)))
   {
    std::string t;
    while (i < s.size() && (isalnum(uint8_t(s[i])) || s[i] == '_'))
     t += s[i++];
    v.push_back(Token{'w', t});
   }
   else if (c == '(' || c == ')' || c == ';' || c == '=' || c == ',')
   {
    v.push_back(Token{'p', std::string(1, c)});
    i++;
   }
   else
    throw "unexpected character " + mc::show(std::string(1, c));
  }
  return v;
 }

 std::vector<Token> v;
 size_t i = 0;

 [[noreturn]] void error(const std::string &m) {throw m + " near " + (i < v.size() ? mc::show(v[i].text) : "the end");}
 const Token &next() {if (i >= v.size()) error("end of text"); return v[i++];}
 bool is(const char *t) {return i < v.size() && v[i].kind != 'q' && v[i].text == t;}
 bool accept(const char *t) {if (!is(t)) return false; i++; return true;}
 void expect(const char *t) {if (!accept(t)) error(std::string("expected ") + t);}
 std::string quoted() {const Token &t = next(); if (t.kind != 'q') error("expected an identifier"); return t.text;}
 int64_t integer()
 {
  const Token &t = next();
  char *end;
  const int64_t x = std::strtoll(t.text.c_str(), &end, 10);
  if (t.kind != 'n' || *end || str(x) != t.text) error("expected an integer");
  return x;
 }
 Table &table() {const std::string n = quoted(); const auto k = tables.find(n); if (k == tables.end()) throw "no table " + n; return k->second;}
 void id_column() {if (quoted() != "__id") error("expected __id");}

 std::string value(const std::string &type)
 {
  const Token &t = next();
  if (t.kind == 'w' && t.text == "NULL") return "NULL";
  if (t.kind == 'x')
  {
   if (type != "TEXT" && type != "BLOB") error("bytes in a column " + type);
   return "s" + t.text;
  }
  if (t.kind != 'n') error("bad value");
  char *end;
  if (type == "REAL")
  {
   std::strtod(t.text.c_str(), &end);
   if (*end) error("bad number");
   return "r" + t.text;
  }
  const int64_t x = std::strtoll(t.text.c_str(), &end, 10);
  if (*end || str(x) != t.text) error("bad integer");
  if (type != "SMALLINT" && type != "INTEGER" && type != "BIGINT" && type != "INTEGER REFERENCES") error("integer in a column " + type);
  return "i" + t.text;
 }

 void where(int64_t &id)
 {
  expect("WHERE");
  id_column();
  expect("=");
  id = integer();
 }

 void run(const std::string &s)
 {
  v = tokens(s);
  i = 0;
  while (i < v.size())
  {
   if (accept("BEGIN")) {expect("TRANSACTION"); if (transaction) error("nested transaction"); transaction = true;}
   else if (accept("COMMIT")) {if (!transaction) error("no transaction"); transaction = false;}
   else if (accept("CREATE"))
   {
    expect("TABLE");
    const std::string n = quoted();
    if (tables.count(n)) error("table " + n + " exists");
    expect("("); id_column(); expect("INTEGER"); expect("PRIMARY"); expect("KEY"); expect(")");
    tables[n];
   }
   else if (accept("DROP")) {expect("TABLE"); const std::string n = quoted(); if (!tables.erase(n)) error("no table " + n);}
   else if (accept("INSERT"))
   {
    expect("INTO");
    Table &t = table();
    expect("("); id_column(); expect(")"); expect("VALUES"); expect("(");
    const int64_t id = integer();
    expect(")");
    if (t.rows.count(id)) error("duplicate key");
    t.rows[id];
   }
   else if (accept("DELETE"))
   {
    expect("FROM");
    Table &t = table();
    int64_t id;
    where(id);
    t.rows.erase(id);
   }
   else if (accept("UPDATE"))
   {
    Table &t = table();
    expect("SET");
    const std::string f = quoted();
    const auto k = t.columns.find(f);
    if (k == t.columns.end()) error("no column " + f);
    expect("=");
    const std::string x = value(k->second);
    int64_t id;
    where(id);
    if (t.rows.count(id))
     t.rows[id][f] = x;
   }
   else if (accept("ALTER"))
   {
    expect("TABLE");
    const std::string n = quoted();
    if (!tables.count(n)) error("no table " + n);
    Table &t = tables[n];
    if (accept("ADD"))
    {
     const std::string f = quoted();
     if (t.columns.count(f)) error("column " + f + " exists");
     std::string type = next().text;
     if (accept("REFERENCES"))
     {
      type += " REFERENCES";
      quoted();
     }
     t.columns[f] = type;
    }
    else if (accept("DROP"))
    {
     expect("COLUMN");
     const std::string f = quoted();
     if (!t.columns.erase(f)) error("no column " + f);
     for (auto &[id, row]: t.rows)
      row.erase(f);
    }
    else
    {
     expect("RENAME");
     if (accept("TO"))
     {
      const std::string m = quoted();
      if (tables.count(m)) error("table " + m + " exists");
      auto node = tables.extract(n);
      node.key() = m;
      tables.insert(std::move(node));
     }
     else
     {
      expect("COLUMN");
      const std::string f = quoted();
      expect("TO");
      const std::string g = quoted();
      if (!t.columns.count(f) || t.columns.count(g)) error("cannot rename column " + f);
      t.columns[g] = t.columns[f];
      t.columns.erase(f);
      for (auto &[id, row]: t.rows)
       if (row.count(f))
       {
        row[g] = row[f];
        row.erase(f);
       }
     }
    }
   }
   else
    error("unknown statement");
   expect(";");
  }
  if (transaction)
   error("unfinished transaction");
 }

 // Compare with a database. A history does not write default values.
 void compare(const Snapshot &s, const Abstract_File *blobs, bool history, const std::string &text) const
 {
  auto wrong = [&](const std::string &m, const char *key) {mc::fail("SQL: " + m + "\n" + text, key);};
  if (tables.size() != s.tables.size())
   wrong("number of tables", "sql_tables");
  for (const auto &t: s.tables)
  {
   const auto k = tables.find(t.name);
   if (k == tables.end())
    wrong("no table " + t.name, "sql_tables");
   const Table &x = k->second;
   if (x.columns.size() != t.fields.size())
    wrong("number of columns of " + t.name, "sql_columns");
   for (const auto &f: t.fields)
   {
    const auto c = x.columns.find(f.name);
    if (c == x.columns.end() || c->second != sql_type(f.type))
     wrong("column " + t.name + "." + f.name, "sql_columns");
   }
   if (x.rows.size() != t.rows.size())
    wrong("number of rows of " + t.name, "sql_rows");
   for (const auto &[id, row]: t.rows)
   {
    const auto r = x.rows.find(id);
    if (r == x.rows.end())
     wrong("no row " + str(id) + " in " + t.name, "sql_rows");
    for (size_t f = 0; f < t.fields.size(); f++)
    {
     const Value &v = row[f];
     const auto y = r->second.find(t.fields[f].name);
     const std::string where = t.name + "." + t.fields[f].name + " of " + str(id);
     const bool missing = y == r->second.end();
     std::string got = missing ? "missing" : y->second;
     std::string expected;
     bool is_default = false;
     switch (v.type)
     {
      case Type::Type_Id::string: expected = "s" + v.string; is_default = v.string.empty(); break;
      case Type::Type_Id::blob:
       if (!blobs) {expected = "missing"; break;}
       expected = "s" + (v.blob.is_null() ? std::string() : blobs->read_blob(v.blob));
       is_default = v.blob.is_null();
      break;
      case Type::Type_Id::reference: expected = v.integer < 0 ? std::string("NULL") : "i" + str(v.integer); is_default = v.integer < 0; break;
      case Type::Type_Id::float32:
      case Type::Type_Id::float64:
       is_default = mc::show(v.real) == mc::show(0.0);
       if (!missing && got[0] == 'r')
       {
        if (!same_number(got.substr(1), v))
         wrong(where + " is " + got.substr(1) + " instead of " + mc::show(v.real), number_key(got.substr(1), v, "sql_float"));
        got = "same";
        expected = "same";
       }
       else
        expected = "a number";
      break;
      default: expected = "i" + str(v.integer); is_default = v.integer == 0;
     }
     if (missing && history && is_default)
      continue;
     if (got != expected)
      wrong(where + " is " + mc::show(got) + " instead of " + mc::show(expected), "sql_value");
    }
   }
  }
 }
};

#endif
