// C21: hashes
#include "explorer.h"
#include "scratch.h"

#include "joedb/journal/File_Hasher.h"
#include "joedb/journal/File.h"
#include "joedb/journal/File_Slice.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/journal/Stream_File.h"
#include "joedb/journal/Writable_Journal.h"

#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <memory>
#include <sstream>

using namespace joedb;
using mc::Chooser;
using mc::require;
using std::string;
using std::to_string;
using std::vector;

/////////////////////////////////////////////////////////////////////////////
// Reference: FIPS 180-4, with constants computed from cube and square roots
/////////////////////////////////////////////////////////////////////////////
struct Reference
{
 uint32_t k[64], init[8];

 static uint32_t root(int p, int degree) // first 32 bits of the fractional part
 {
  unsigned __int128 lo = 0, hi = (unsigned __int128)(1) << 40;
  while (hi - lo > 1) // lo^degree <= p * 2^(32 * degree) < hi^degree
  {
   const unsigned __int128 m = (lo + hi) / 2;
   bool less;
   if (degree == 2)
    less = m * m <= ((unsigned __int128)(p) << 64);
   else // m^3 <= p << 96, in two steps to avoid overflow: m < 2^36
   {
    const unsigned __int128 m3 = m * m * m; // m <= 2^35 * ..., p < 312 => m < 2^35: m^3 < 2^105
    less = m < ((unsigned __int128)(1) << 36) && m3 <= ((unsigned __int128)(p) << 96);
   }
   if (less) lo = m; else hi = m;
  }
  return uint32_t(lo);
 }

 Reference()
 {
  int n = 0;
  for (int p = 2; n < 64; p++)
  {
   bool prime = true;
   for (int d = 2; d * d <= p; d++)
    if (p % d == 0)
     prime = false;
   if (!prime)
    continue;
   if (n < 8)
    init[n] = root(p, 2);
   k[n++] = root(p, 3);
  }
 }

 static uint32_t r(uint32_t x, int n) {return (x >> n) | (x << (32 - n));}

 // extra: claimed length of what would precede
 SHA_256::Hash operator()(const string &data, uint64_t extra = 0) const
 {
  string s = data;
  s += char(0x80);
  while (s.size() % 64 != 56)
   s += char(0);
  const uint64_t bits = (uint64_t(data.size()) + extra) * 8;
  for (int i = 7; i >= 0; i--)
   s += char(bits >> (8 * i));
  uint32_t h[8];
  std::copy(init, init + 8, h);
  for (size_t o = 0; o < s.size(); o += 64)
  {
   uint32_t w[64];
   for (size_t i = 0; i < 16; i++)
   {
    w[i] = 0;
    for (size_t j = 0; j < 4; j++)
     w[i] = w[i] * 256 + uint8_t(s[o + 4 * i + j]);
   }
   for (int i = 16; i < 64; i++)
    w[i] = w[i - 16] + (r(w[i - 15], 7) ^ r(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] + (r(w[i - 2], 17) ^ r(w[i - 2], 19) ^ (w[i - 2] >> 10));
   uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], x = h[7];
   for (int i = 0; i < 64; i++)
   {
    const uint32_t t1 = x + (r(e, 6) ^ r(e, 11) ^ r(e, 25)) + ((e & f) ^ (~e & g)) + k[i] + w[i];
    const uint32_t t2 = (r(a, 2) ^ r(a, 13) ^ r(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
    x = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
   }
   h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += x;
  }
  SHA_256::Hash result;
  std::copy(h, h + 8, result.begin());
  return result;
 }
};

static const Reference &reference()
{
 static const Reference r;
 return r;
}

static string hex(const SHA_256::Hash &h)
{
 string s;
 for (uint32_t x: h)
 {
  char b[9];
  std::snprintf(b, sizeof(b), "%08x", x);
  s += b;
 }
 return s;
}

static void check_reference()
{
 require(hex(reference()("")) == "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "the reference is wrong", "harness");
 require(hex(reference()("abc")) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "the reference is wrong", "harness");
 require(hex(reference()(string(1000000, 'a'))) == "cdc76e5c9914fb9281a1c7e284d73e67f1809a48a497200e046d39ccc7112cd0", "the reference is wrong", "harness");
}

/////////////////////////////////////////////////////////////////////////////
// contents
/////////////////////////////////////////////////////////////////////////////
static string content(size_t size, int kind)
{
 string s(size, 0);
 uint32_t x = 12345;
 for (size_t i = 0; i < size; i++)
 {
  x = x * 1664525 + 1013904223;
  s[i] = kind == 0 ? char(x >> 24) : kind == 1 ? char(0) : kind == 2 ? char(0xff) : char('a' + i % 26);
 }
 return s;
}

// range of a content that may be shorter
static string range(const string &s, int64_t start, int64_t size)
{
 return start >= int64_t(s.size()) ? string() : s.substr(size_t(start), size_t(size));
}

static void same(const SHA_256::Hash &a, const SHA_256::Hash &b, const string &what)
{
 require(a == b, what + ": " + hex(a) + " instead of " + hex(b), "wrong_hash");
}

/////////////////////////////////////////////////////////////////////////////
// A file that reads as little as it wants, and knows what was read
/////////////////////////////////////////////////////////////////////////////
struct Short_File: public Abstract_File
{
 const string &s;
 mutable Chooser *c = nullptr;
 mutable int budget = 0;
 mutable int reads = 0;
 std::function<bool(int)> eligible;
 mutable vector<std::pair<int64_t, int64_t>> ranges;

 Short_File(const string &s): Abstract_File(Open_Mode::read_existing), s(s) {}
 int64_t get_size() const override {return int64_t(s.size());}
 size_t pread(char *data, size_t size, int64_t offset) const override
 {
  require(offset >= 0, "reading at a negative position", "range");
  require(size <= (size_t(1) << 40), "reading a negative size", "range");
  ranges.emplace_back(offset, offset + int64_t(size));
  size_t n = offset >= int64_t(s.size()) ? 0 : std::min(size, s.size() - size_t(offset));
  const int i = reads++;
  if (c && budget > 0 && n > 1 && (!eligible || eligible(i)))
  {
   vector<size_t> choices{n};
   for (size_t x: {size_t(1), size_t(63), size_t(64), size_t(65), n / 2, n / 2 / 64 * 64, n - 1, n - n % 64})
    if (x > 0 && x < n && std::find(choices.begin(), choices.end(), x) == choices.end())
     choices.push_back(x);
   const size_t k = size_t(c->choose(int(choices.size())));
   if (k)
   {
    budget--;
    n = choices[k];
    c->note("pread of " + to_string(size) + " at " + to_string(offset) + " returns " + to_string(n));
   }
  }
  std::memcpy(data, s.data() + offset, n);
  return n;
 }
};

struct Chunks // directly with SHA_256
{
 static SHA_256::Hash hash(const string &s, uint64_t extra = 0)
 {
  SHA_256 h;
  size_t i = 0;
  for (; i + 64 <= s.size(); i += 64)
   h.process_chunk(s.data() + i);
  h.process_final_chunk(s.data() + i, s.size() + extra);
  return h.get_hash();
 }
};

static const vector<size_t> &big_sizes()
{
 static vector<size_t> r;
 if (r.empty())
  for (size_t base: {131072, 262144, 393216})
   for (int d: {-65, -64, -63, -56, -55, -9, -8, -1, 0, 1, 8, 9, 55, 56, 63, 64, 65})
    r.push_back(size_t(int64_t(base) + d));
 return r;
}

static void lengths_body(Chooser &c, size_t max)
{
 const size_t n = size_t(c.choose(int(max + 1 + big_sizes().size())));
 c.split();
 const size_t size = n <= max ? n : big_sizes()[n - max - 1];
 const string s = content(size, c.choose(4));
 c.note("size " + to_string(size));
 c.transition();
 const SHA_256::Hash h = reference()(s);
 same(Chunks::hash(s), h, "SHA_256");
 // the length of huge contents
 if (size < 130)
  for (int i = 6; i < 61; i++)
   for (int d: {0, 1, 64})
   {
    const uint64_t extra = (uint64_t(1) << i) - uint64_t(d == 1 ? 64 : 0) + uint64_t(d == 64 ? 64 : 0);
    same(Chunks::hash(s, extra), reference()(s, extra), "SHA_256 after " + to_string(extra) + " bytes");
   }
 same(File_Hasher::get_hash(std::string_view(s)), h, "get_hash(string)");
 Short_File f(s);
 same(File_Hasher::get_hash(f), h, "get_hash(file)");
 same(File_Hasher::get_hash(f, 0, int64_t(size)), h, "get_hash(file, 0, size)");
 same(File_Hasher::get_fast_hash(f, 0, int64_t(size)), h, "get_fast_hash");
}

static void ranges_body(Chooser &c, int max)
{
 const string s = content(size_t(max), 0);
 const int start = c.choose(max + 3);
 c.split();
 for (int size = 0; size <= max + 3; size++)
 {
  Short_File f(s);
  c.note("start " + to_string(start) + ", size " + to_string(size));
  c.transition();
  const SHA_256::Hash h = reference()(range(s, start, size));
  same(File_Hasher::get_hash(f, start, size), h, "get_hash");
  same(File_Hasher::get_fast_hash(f, start, size), h, "get_fast_hash");
  for (auto [a, b]: f.ranges)
   require(a >= start && b <= start + size, "bytes out of the range were read", "range");
 }
}

static const vector<size_t> short_sizes{0, 1, 2, 63, 64, 65, 127, 128, 129, 200, 131071, 131072, 131073, 131136, 262149};

static void short_body(Chooser &c, int budget)
{
 const size_t size = short_sizes[size_t(c.choose(int(short_sizes.size())))];
 const int64_t start = c.choose(2) ? 41 : 0;
 const string s = content(size_t(start) + size + (c.flip() ? 100 : 0), 0);
 c.split();
 c.note("start " + to_string(start) + ", size " + to_string(size));
 Short_File f(s);
 f.c = &c;
 f.budget = budget;
 const SHA_256::Hash h = c.flip() ? File_Hasher::get_fast_hash(f, start, int64_t(size)) : File_Hasher::get_hash(f, start, int64_t(size));
 same(h, reference()(range(s, start, int64_t(size))), "hash with short reads");
 for (auto [a, b]: f.ranges)
  require(a >= start && b <= start + int64_t(size), "bytes out of the range were read", "range");
 c.transition(int(f.reads));
}

/////////////////////////////////////////////////////////////////////////////
// Every kind of file
/////////////////////////////////////////////////////////////////////////////
static constexpr int64_t threshold = 4 * 4096 * 256;

static void kinds_body(Chooser &c)
{
 static const vector<int64_t> sizes{0, 1, 64, 1000, 131072, 200001, threshold - 1, threshold, threshold + 5000};
 static const vector<int64_t> starts{0, 41, 5000};
 const int64_t size = sizes[size_t(c.choose(int(sizes.size())))];
 const int64_t start = starts[size_t(c.choose(int(starts.size())))];
 c.split();
 const int64_t after = c.flip() ? 5000 : 0;
 const string s = content(size_t(start + size + after), 0);
 c.note("start " + to_string(start) + ", size " + to_string(size) + ", file size " + to_string(s.size()));
 const string path = mc::scratch() + "/file";
 int fd;
 {
  ::unlink(path.c_str());
  fd = ::open(path.c_str(), O_RDWR | O_CREAT, 0644);
  require(fd >= 0 && ::write(fd, s.data(), s.size()) == ssize_t(s.size()), "cannot write", "harness");
 }
 {
  Memory_File memory;
  memory.resize(s.size());
  static_cast<Abstract_File &>(memory).pwrite(s.data(), s.size(), 0);
  Readonly_Memory_File readonly{std::string_view(s)};
  File file(path, Open_Mode::read_existing);
  File file2(path, Open_Mode::shared_write);
  std::stringbuf sb(s);
  Stream_File stream(sb, Open_Mode::read_existing);
  vector<std::pair<const Abstract_File *, const char *>> files{{&memory, "Memory_File"}, {&readonly, "Readonly_Memory_File"}, {&file, "File"}, {&file2, "shared File"}, {&stream, "Stream_File"}};
  std::unique_ptr<File_Slice> slice;
  if (!s.empty())
  {
   slice = std::make_unique<File_Slice>(fd, 0, s.size());
   files.emplace_back(slice.get(), "File_Slice");
  }
  const SHA_256::Hash h = reference()(range(s, start, size));
  const SHA_256::Hash fast = File_Hasher::get_fast_hash(readonly, start, size);
  for (auto [f, name]: files)
  {
   c.transition();
   same(File_Hasher::get_hash(*f, start, size), h, string(name) + ", get_hash");
   same(File_Hasher::get_fast_hash(*f, start, size), fast, string(name) + ", get_fast_hash");
   if (start == 0 && after == 0)
    same(File_Hasher::get_hash(*f), h, string(name) + ", get_hash of the file");
  }
 }
 ::close(fd);
 ::unlink(path.c_str());
}

/////////////////////////////////////////////////////////////////////////////
// Sampling
/////////////////////////////////////////////////////////////////////////////
static vector<int64_t> fast_sizes(bool t)
{
 vector<int64_t> r{threshold, threshold + 1, threshold + 4095, threshold + 4096, threshold + 4097, 2 * threshold + 12345};
 if (t)
  for (int64_t x: {threshold + 2048, threshold + 255 * 4096, threshold + 255 * 4096 - 1, threshold + 255 * 4096 + 1, 3 * threshold - 1, 5 * threshold + 77})
   r.push_back(x);
 return r;
}
static const vector<int64_t> fast_starts{0, 1, 41, 4095, 4096, 4097, 10000, 1000000, 5000000, 30000000};

// A huge file that has no storage
struct Virtual_File: public Abstract_File
{
 std::map<int64_t, char> changes;
 mutable vector<std::pair<int64_t, int64_t>> ranges;
 int64_t size;
 Virtual_File(int64_t size): Abstract_File(Open_Mode::read_existing), size(size) {}
 int64_t get_size() const override {return size;}
 size_t pread(char *data, size_t n, int64_t offset) const override
 {
  require(offset >= 0, "reading at a negative position", "range");
  if (offset >= size)
   return 0;
  n = size_t(std::min(int64_t(n), size - offset));
  ranges.emplace_back(offset, offset + int64_t(n));
  for (size_t i = 0; i < n; i++)
  {
   const uint64_t p = uint64_t(offset) + i;
   data[i] = char((p * 0x9e3779b97f4a7c15ull) >> 56);
  }
  for (auto i = changes.lower_bound(offset); i != changes.end() && i->first < offset + int64_t(n); ++i)
   data[i->first - offset] = char(data[i->first - offset] + i->second);
  return n;
 }
};

static vector<std::pair<int64_t, int64_t>> merged(vector<std::pair<int64_t, int64_t>> v)
{
 std::sort(v.begin(), v.end());
 vector<std::pair<int64_t, int64_t>> r;
 for (auto x: v)
  if (!r.empty() && x.first <= r.back().second)
   r.back().second = std::max(r.back().second, x.second);
  else
   r.push_back(x);
 return r;
}

static void samples_body(Chooser &c, bool t)
{
 const vector<int64_t> sizes = fast_sizes(t);
 static const vector<int64_t> huge{int64_t(1) << 32, (int64_t(1) << 40) + 12345, int64_t(1) << 50};
 const size_t i = size_t(c.choose(int(sizes.size() + huge.size())));
 const int64_t size = i < sizes.size() ? sizes[i] : huge[i - sizes.size()];
 const int64_t start = fast_starts[size_t(c.choose(int(fast_starts.size())))];
 c.split();
 const int64_t after = c.flip() ? 10000000 : 0;
 c.note("start " + to_string(start) + ", size " + to_string(size) + ", followed by " + to_string(after));
 Virtual_File f(start + size + after);
 const SHA_256::Hash h = File_Hasher::get_fast_hash(f, start, size);
 const vector<std::pair<int64_t, int64_t>> v = merged(f.ranges);
 same(File_Hasher::get_fast_hash(f, start, size), h, "again");
 int64_t previous = start;
 for (auto [a, b]: v)
 {
  require(a >= start && b <= start + size, "the fast hash of [" + to_string(start) + ", " + to_string(start + size) + ") reads [" + to_string(a) + ", " + to_string(b) + ")", "range");
  require(a - previous <= size / 64, "the fast hash ignores bytes from " + to_string(previous) + " to " + to_string(a), "gap");
  previous = b;
 }
 require(!v.empty() && v[0].first == start && v.back().second == start + size, "the fast hash ignores the beginning or the end", "gap");
 // a byte out of the range, or changed in a sample
 auto changed = [&](int64_t p)
 {
  f.changes = {{p, 1}};
  c.transition();
  return File_Hasher::get_fast_hash(f, start, size) != h;
 };
 for (int64_t p: {start - 1, int64_t(0), start + size, start + size + 4095})
  if (p >= 0 && (p < start || p >= start + size))
   require(!changed(p), "the fast hash depends on byte " + to_string(p) + ", out of the range", "range");
 const size_t step = t ? 1 : 16;
 for (size_t j = 0; j < v.size(); j += j + step < v.size() || j + 1 == v.size() ? step : v.size() - 1 - j)
  for (int64_t p: {v[j].first, (v[j].first + v[j].second) / 2, v[j].second - 1})
   require(changed(p), "the fast hash does not depend on byte " + to_string(p) + ", which it reads", "gap");
 c.outcome(to_string(v.size()));
}

static void fast_short_body(Chooser &c, int budget)
{
 static const string s = content(size_t(threshold + 20000), 0);
 const int64_t start = c.choose(2) ? 41 : 0;
 c.split();
 const int64_t size = threshold + 10;
 Short_File f(s);
 const SHA_256::Hash h = File_Hasher::get_fast_hash(f, start, size);
 f.reads = 0;
 f.c = &c;
 f.budget = budget;
 f.eligible = [](int i) {return i < 4 || (i >= 128 && i < 130) || i >= 253;};
 same(File_Hasher::get_fast_hash(f, start, size), h, "get_fast_hash with short reads");
 c.transition(f.reads);
}

/////////////////////////////////////////////////////////////////////////////
// The hashes of journals, that are compared at connection
/////////////////////////////////////////////////////////////////////////////
static void journal_body(Chooser &c)
{
 static const vector<size_t> sizes{0, 1, 30, 5000, 140000, size_t(threshold) + 5000};
 const size_t size = sizes[size_t(c.choose(int(sizes.size())))];
 c.split();
 // two journals with the same content and other checkpoints, tails, and histories of checkpoints
 auto write = [&](Memory_File &f, bool more)
 {
  Writable_Journal j{Journal_Construction_Lock(f)};
  j.comment(content(size, 3));
  j.soft_checkpoint();
  const int64_t r = j.get_checkpoint();
  if (more)
  {
   j.hard_checkpoint();
   j.comment("more");
   j.soft_checkpoint();
   j.hard_checkpoint();
   j.comment("not in any checkpoint");
   j.flush();
   j.soft_checkpoint();
  }
  return r;
 };
 Memory_File a, b;
 const int64_t checkpoint = write(a, false);
 write(b, true);
 Readonly_Journal ja{Journal_Construction_Lock(a)};
 Readonly_Journal jb{Journal_Construction_Lock(b)};
 const string data(a.get_data().begin(), a.get_data().end());
 auto check = [&](int64_t k)
 {
  c.note("checkpoint " + to_string(k));
  c.transition();
  same(Journal_Hasher::get_full_hash(ja, k), reference()(data.substr(41, size_t(k - 41))), "full hash");
  same(Journal_Hasher::get_full_hash(jb, k), Journal_Hasher::get_full_hash(ja, k), "full hash of the same content");
  same(Journal_Hasher::get_fast_hash(jb, k), Journal_Hasher::get_fast_hash(ja, k), "fast hash of the same content");
 };
 for (int64_t k = 41; k <= checkpoint; k = k + 1 < checkpoint && k > 150 ? checkpoint - 1 : k + 1)
  check(k);
 // another content
 for (int64_t p: {int64_t(41), checkpoint - 1})
  if (p >= 41 && checkpoint > 41)
  {
   char x = char(data[size_t(p)] + 1);
   static_cast<Abstract_File &>(b).pwrite(&x, 1, p);
   require(Journal_Hasher::get_full_hash(jb, checkpoint) != Journal_Hasher::get_full_hash(ja, checkpoint), "same full hash for different contents", "collision");
   require(Journal_Hasher::get_fast_hash(jb, checkpoint) != Journal_Hasher::get_fast_hash(ja, checkpoint), "same fast hash although the first or last byte differs", "collision");
   x = data[size_t(p)];
   static_cast<Abstract_File &>(b).pwrite(&x, 1, p);
  }
}

int main(int argc, char **argv)
{
 mc::Explorer ex(argc, argv, "C21");
 const bool t = ex.is_thorough();
 check_reference();
 ex.explore("lengths", [&](Chooser &c) {lengths_body(c, t ? 4500 : 1100);});
 ex.explore("ranges", [&](Chooser &c) {ranges_body(c, t ? 400 : 200);});
 ex.explore("short_reads", [&](Chooser &c) {short_body(c, t ? 5 : 3);});
 ex.explore("kinds", [&](Chooser &c) {kinds_body(c);});
 ex.explore("samples", [&](Chooser &c) {samples_body(c, t);});
 ex.explore("fast_short_reads", [&](Chooser &c) {fast_short_body(c, t ? 3 : 2);});
 ex.explore("journals", [&](Chooser &c) {journal_body(c);});
 return ex.finish
 (
  "model_checking",
  "every length up to the bound and around multiples of the reading buffer, every range of a small file, every pattern of short reads up to the bound, compared with another SHA-256; every kind of file; the bytes that the fast hash reads, around its threshold and for huge files, and what it depends on",
  {
   "contents are four patterns (hash functions are not data-dependent in their control)",
   "lengths above 393 kB: the positions read by the fast hash, and the encoding of the length",
  }
 );
}
