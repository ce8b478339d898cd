// Text parts of C20: strings, numbers, columns.

// evaluates the message only if needed
#define REQUIRE(condition, message, key) do {if (!(condition)) mc::fail((message), (key));} while (false)

static void check_json_string(const std::string &s)
{
 std::ostringstream t;
 const int error = write_json_string(t, s, false);
 const bool valid = valid_utf8(s);
 REQUIRE(((error & JSON_Error::utf8) != 0) == !valid, valid ? "valid UTF-8 is refused in JSON: " + mc::show(s) : "invalid UTF-8 is written in JSON: " + mc::show(s), "json_utf8");
 Json j;
 try {j = Json_Parser(t.str()).parse();}
 catch (const std::string &e) {mc::fail("invalid JSON for " + mc::show(s) + ": " + mc::show(t.str()) + ": " + e, "json_string");}
 if (valid)
  REQUIRE(j.kind == 's' && j.text == s, "JSON of " + mc::show(s) + " reads " + mc::show(j.text), "json_string");
}

static void check_string(const std::string &s, bool utf8_only = false)
{
 // quoted
 {
  std::stringstream t;
  write_string(t, s);
  for (const char c: t.str())
   REQUIRE(uint8_t(c) >= 32 && c != 127, "control character in the text of " + mc::show(s), "string_control");
  t << " 42 ";
  const std::string r = read_string(t);
  REQUIRE(r == s, "string " + mc::show(s) + " is written " + t.str() + " and read " + mc::show(r), "string");
  int next = 0;
  t >> next;
  REQUIRE(next == 42, "what follows " + mc::show(s) + " is lost", "string_next");
  if (utf8_only)
   return check_json_string(s);
  std::stringstream last;
  write_string(last, s);
  REQUIRE(read_string(last) == s, "string " + mc::show(s) + " at the end of a line", "string");
 }
 check_json_string(s);
 // base64
 {
  const std::string e = base64_encode(s);
  REQUIRE(base64_decode_reference(e) == s, "base64 of " + mc::show(s) + " is " + e, "base64_encode");
  REQUIRE(base64_decode(e) == s, "base64 of " + mc::show(s) + " is decoded to " + mc::show(base64_decode(e)), "base64_decode");
 }
 // SQL
 {
  std::ostringstream t;
  write_sql_string(t, s);
  std::vector<Sql::Token> v;
  try {v = Sql::tokens(t.str());} catch (const std::string &e) {mc::fail(e, "sql_string");}
  REQUIRE(v.size() == 1 && v[0].kind == 'x' && v[0].text == s, "SQL of " + mc::show(s) + " is " + t.str(), "sql_string");
 }
}

static const std::vector<std::string> &pieces()
{
 static const std::vector<std::string> v
 {
  "a", "b", " ", "\xc3\xa9", "\xcc\x81" /* combining */, "\xe6\x97\xa5" /* wide */, "\xf0\x9f\x98\x80" /* wide */,
  "\xe2\x80\x8b" /* zero width */, "\xc2\x85" /* C1 control */, "\x01", "\x7f", std::string("\0", 1), "\xe2\x80\xa6" /* ellipsis */, "\xef\xbf\xbd"
 };
 return v;
}

static void check_column(const std::string &s)
{
 const size_t w = display_width(s);
 REQUIRE(utf8_display_size(s) == w, "display size of " + mc::show(s) + " is " + str(int64_t(utf8_display_size(s))), "display_size");
 for (size_t width = 1; width <= 7; width++)
  for (const bool left: {false, true})
  {
   std::ostringstream out;
   write_justified(out, s, width, left);
   const size_t r = display_width(out.str());
   REQUIRE(r <= width, mc::show(s) + " in a column of " + str(int64_t(width)) + ": " + mc::show(out.str()) + " has width " + str(int64_t(r)), "column_width");
   REQUIRE(r == width, mc::show(s) + " in a column of " + str(int64_t(width)) + ": " + mc::show(out.str()) + " has only width " + str(int64_t(r)), "column_padding");
   if (w < width)
    REQUIRE(out.str() == (left ? s + std::string(width - w, ' ') : std::string(width - w, ' ') + s), mc::show(s) + " does not appear in a column of " + str(int64_t(width)) + ": " + mc::show(out.str()), "column_content");
  }
}

template<typename T> static void check_float(T x)
{
 for (const bool six: {true, false})
 {
 std::stringstream s;
 T r, expected = x;
 if (six && std::isfinite(x))
 {
  // 6 significant digits are the default (KNOWN-FINDING float_precision)
  char buffer[64];
  snprintf(buffer, sizeof(buffer), "%.6g", double(x));
  expected = sizeof(T) == 4 ? T(std::strtof(buffer, nullptr)) : T(std::strtod(buffer, nullptr));
  if (!std::isfinite(expected))
   continue; // rounded to more than the largest number
 }
 else
  s.precision(17);
 if constexpr (sizeof(T) == 4) write_float32(s, x); else write_float64(s, x);
 const std::string text = s.str();
 s << " 42";
 if constexpr (sizeof(T) == 4) r = read_float32(s); else r = read_float64(s);
 REQUIRE(s.good() && (std::isnan(x) ? std::isnan(r) : mc::show(r) == mc::show(expected)), "number " + mc::show(x) + " is written " + text + " and read " + mc::show(r), "float");
 int next = 0;
 s >> next;
 REQUIRE(next == 42, "what follows " + text + " is lost", "float");
 }
}

template<typename T, typename W, typename X> static void check_value(T x, W write, X read)
{
 std::stringstream s;
 write(s, x);
 const std::string text = s.str();
 s << " 42";
 const T r = read(s);
 REQUIRE(r == x, "value " + text + " is read differently", "value");
 int next = 0;
 s >> next;
 REQUIRE(next == 42, "what follows " + text + " is lost", "value");
}

static void text_parts(mc::Explorer &ex, bool th)
{
 // every string of at most two bytes, then strings of interesting bytes
 ex.explore("strings", [=](Chooser &c)
 {
  const int a = c.choose(257);
  c.split();
  uint64_t n = 0;
  if (a == 256)
   check_string("");
  else
  {
   check_string(std::string(1, char(a)));
   for (int b = 0; b < 256; b++, n++)
    check_string(std::string(1, char(a)) + char(b));
   // around every length of the groups of base64, with every byte
   for (int l = 3; l < 8; l++, n++)
    check_string(std::string(size_t(l), char(a)));
   check_string(std::string("?") + char(a) + "?");
   check_string(std::string("??") + char(a));
   check_string(std::string("\\") + char(a) + "1");
   check_string(std::string("\"") + char(a) + "\"");
  }
  c.transition(n + 1);
  c.state(uint64_t(a));
  c.outcome(str(a));
 });
 static const std::string interesting = std::string("\0\x1f \"\\?/x01a7A9#\n\x7f", 18) + "\x80\x8f\x90\x9f\xa0\xbf\xc0\xc1\xc2\xdf\xe0\xe1\xed\xee\xef\xf0\xf1\xf3\xf4\xf5\xf7\xf8\xff";
 ex.explore("longer_strings", [=](Chooser &c)
 {
  const int n = int(interesting.size());
  const int a = c.choose(n), b = c.choose(n);
  c.split();
  std::string s{interesting[size_t(a)], interesting[size_t(b)]};
  uint64_t count = 0;
  for (const char x: interesting)
  {
   check_string(s + x);
   count++;
   // four bytes: those that may belong to UTF-8
   if (uint8_t(s[0]) >= 0xe0 || th)
    for (const char y: interesting)
    {
     check_string(s + x + y, true);
     count++;
     if (th && (uint8_t(s[0]) >= 0xe0))
      for (const char z: interesting)
      {
       check_string(s + x + y + z, true);
       count++;
      }
    }
  }
  c.transition(count);
  c.state(uint64_t(a * 1000 + b));
  c.outcome(str(a * 1000 + b));
 });
 // every code point, and every way of encoding it wrongly
 ex.explore("code_points", [=](Chooser &c)
 {
  const int high = c.choose(0x220); // up to 0x21ffff
  c.split();
  for (int low = 0; low < 0x1000; low++)
  {
   const uint32_t x = uint32_t(high) * 0x1000 + uint32_t(low);
   auto tail = [&](int shift) {return char(0x80 | ((x >> shift) & 0x3f));};
   if (x < 0x800)
    check_string({char(0xc0 | (x >> 6)), tail(0)}, true);
   // overlong: the quick tier takes the first and the last of each group
   const uint32_t group = x & 0x3f;
   const bool edge = th || group == 0 || group == 0x3f;
   if (x < 0x10000 && (x >= 0x800 || edge))
    check_string({char(0xe0 | (x >> 12)), tail(6), tail(0)}, true);
   if (x >= 0x10000 || edge)
    check_string({char(0xf0 | (x >> 18)), tail(12), tail(6), tail(0)}, true);
  }
  c.transition(0x1000);
  c.state(uint64_t(high));
  c.outcome(str(high));
 });
 ex.explore("columns", [=](Chooser &c)
 {
  const int n = int(pieces().size());
  std::string s;
  const int length = c.choose(th ? 6 : 5);
  for (int i = 0; i < length; i++)
  {
   s += pieces()[size_t(c.choose(n))];
   if (i == 1)
    c.split();
  }
  check_column(s);
  c.transition();
  c.state(mc::hash_string(s));
  c.outcome(str(int64_t(display_width(s))));
 });
 ex.explore("numbers", [=](Chooser &c)
 {
  const int high = c.choose(512);
  c.split();
  uint64_t n = 0;
  // sign and exponent, with mantissas made of a run of ones, or one digit, or near powers of ten
  for (int i = 0; i <= 23; i++)
   for (int j = 0; j <= i; j++)
    for (const uint32_t extra: {0u, 1u, 0x2aaaaau})
    {
     const uint32_t m = ((((1u << i) - 1) ^ ((1u << j) - 1)) | extra) & 0x7fffff;
     const uint32_t u = (uint32_t(high) << 23) | m;
     float f;
     std::memcpy(&f, &u, 4);
     check_float(f);
     n++;
    }
  for (int e = 0; e < 8; e++)
   for (int i = 0; i <= 52; i += th ? 1 : 4)
    for (int j = 0; j <= i; j += th ? 1 : 3)
     for (const uint64_t extra: {0ull, 1ull, 0x5555555555555ull})
     {
      const uint64_t m = ((((1ull << i) - 1) ^ ((1ull << j) - 1)) | extra) & 0xfffffffffffffull;
      const uint64_t u = (uint64_t(high >> 8) << 63) | (uint64_t((high & 255) * 8 + e) << 52) | m;
      double f;
      std::memcpy(&f, &u, 8);
      check_float(f);
      n++;
     }
  if (th)
   for (uint32_t m = 0; m < 0x800000; m += 37)
   {
    const uint32_t u = (uint32_t(high) << 23) | m;
    float f;
    std::memcpy(&f, &u, 4);
    check_float(f);
    n++;
   }
  c.transition(n);
  c.state(uint64_t(high));
  c.outcome(str(high));
 });
 ex.explore("integers", [=](Chooser &c)
 {
  const int high = c.choose(256);
  c.split();
  for (int low = 0; low < 256; low++)
  {
   const int16_t x = int16_t(high * 256 + low);
   check_value(x, write_int16, read_int16);
   check_value(int8_t(x), write_int8, read_int8);
   for (int shift = 0; shift <= 48; shift += 8)
    for (const int64_t sign: {0, -1})
    {
     const int64_t y = (int64_t(x) << shift) ^ sign;
     check_value(y, write_int64, read_int64);
     check_value(int32_t(y), write_int32, read_int32);
     check_value(Record_Id(y), write_reference, read_reference);
     const Blob blob(y, int64_t(x));
     std::stringstream s;
     write_blob(s, blob);
     s << " 42";
     const Blob r = read_blob(s);
     int next;
     s >> next;
     REQUIRE(r.get_position() == blob.get_position() && r.get_size() == blob.get_size() && next == 42, "blob", "blob");
    }
  }
  for (const bool b: {false, true})
   check_value(b, write_boolean, read_boolean);
  c.transition(256 * 14 * 4);
  c.state(uint64_t(high));
  c.outcome(str(high));
 });
}
