#include "tree.h"
#include "api.h"

bool Tree::operator==(const Tree& o) const {
  if (kids.size() != o.kids.size()) return false;
  auto a = kids.begin(); auto b = o.kids.begin();
  for (; a != kids.end(); ++a, ++b) if (a->first != b->first || !(a->second == b->second)) return false;
  return true;
}
void tmerge(Tree& a, const Tree& b) { for (auto& kv : b.kids) tmerge(a.kids[kv.first], kv.second); }
Tree tunion(const Tree& a, const Tree& b) { Tree r = a; tmerge(r, b); return r; }
Tree kv(const string& k, const string& v) { Tree t; t[k][v]; return t; }
u64 tnodes(const Tree& t) { u64 n = 0; for (auto& k : t.kids) n += 1 + tnodes(k.second); return n; }
u64 tpacked(const Tree& t) { u64 n = 4; for (auto& k : t.kids) n += k.first.size() + 1 + tpacked(k.second); return n; }
u64 thash(const Tree& t) { u64 h = 0x51; for (auto& k : t.kids) h = mix64(h, mix64(hashstr(k.first), thash(k.second))); return h; }
static void show(const Tree& t, string& s, size_t lim) {
  s += "{";
  bool first = true;
  for (auto& k : t.kids) {
    if (s.size() > lim) { s += "..."; break; }
    if (!first) s += ","; first = false;
    for (unsigned char c : k.first.substr(0, 40)) { if (c >= 32 && c < 127) s += (char)c; else s += sfmt("\\x%02x", c); }
    if (k.first.size() > 40) s += sfmt("~%zu", k.first.size());
    if (!k.second.empty()) show(k.second, s, lim);
  }
  s += "}";
}
string tshow(const Tree& t, size_t lim) { string s; show(t, s, lim); if (s.size() > lim + 60) s = s.substr(0, lim) + "..."; return s; }
static bool diff(const Tree& w, const Tree& g, string path, string& out) {
  for (auto& k : w.kids) if (!g.kids.count(k.first)) { Tree x; x.kids[k.first]; out = "missing " + path + tshow(x, 60); return true; }
  for (auto& k : g.kids) if (!w.kids.count(k.first)) { Tree x; x.kids[k.first]; out = "unexpected " + path + tshow(x, 60); return true; }
  for (auto& k : w.kids) if (diff(k.second, g.kids.at(k.first), path + k.first.substr(0, 20) + "/", out)) return true;
  return false;
}
string tdiff(const Tree& w, const Tree& g) { string o; if (!diff(w, g, "", o)) return "no difference"; if (o.size() > 300) o = o.substr(0, 300); return o; }

// ---------------------------------------------------------------- format
u32 crc32_ref(const string& b) {
  static u32 tab[256]; static bool up = false;
  if (!up) { for (u32 i = 0; i < 256; i++) { u32 c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1; tab[i] = c; } up = true; }
  u32 c = 0xffffffffu; for (unsigned char x : b) c = tab[(c ^ x) & 255] ^ (c >> 8);
  return c ^ 0xffffffffu;
}
static void be(string& s, u64 v, int n) { for (int i = n - 1; i >= 0; i--) s += (char)(v >> (8 * i)); }
static u64 rbe(const string& s, size_t p, int n) { u64 v = 0; for (int i = 0; i < n; i++) v = v << 8 | (unsigned char)s[p + i]; return v; }
static void enc(const Tree& t, Rng& r, bool sh, string& s) {
  be(s, t.kids.size(), 4);
  vector<const std::pair<const string, Tree>*> v; for (auto& k : t.kids) v.push_back(&k);
  if (sh) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
  for (auto* k : v) { s += k->first; s += '\0'; enc(k->second, r, sh, s); }
}
string enc_packed(const Tree& t, Rng& r, bool sh) { string s; enc(t, r, sh, s); return s; }
string enc_file(const Tree& t, Rng& r, bool crc, bool sh) {
  string p = enc_packed(t, r, sh), s;
  be(s, 0x951fc3f5u, 4); be(s, 1, 2); be(s, 1, 2); be(s, 20 + p.size() + (crc ? 4 : 0), 8); be(s, crc ? 1 : 0, 4);
  s += p;
  if (crc) be(s, crc32_ref(s), 4);
  return s;
}
static bool dec(const string& s, size_t& p, size_t end, Tree& t, string& why, int depth) {
  if (depth > 2000) { why = "nested too deeply"; return false; }
  if (p + 4 > end) { why = "element count cut off"; return false; }
  u64 n = rbe(s, p, 4); p += 4;
  for (u64 i = 0; i < n; i++) {
    size_t z = p; while (z < end && s[z]) z++;
    if (z >= end) { why = "key not terminated"; return false; }
    string k = s.substr(p, z - p); p = z + 1;
    if (t.kids.count(k)) { why = "key '" + k.substr(0, 40) + "' stored twice"; return false; }
    if (!dec(s, p, end, t.kids[k], why, depth + 1)) return false;
  }
  return true;
}
Dec dec_file(const string& b) {
  Dec d;
  if (b.empty()) { d.empty = true; d.why = "empty file"; return d; }
  if (b.size() < 24) { d.why = "shorter than a header"; return d; }
  if (rbe(b, 0, 4) != 0x951fc3f5u) { d.why = "wrong magic number"; return d; }
  if (rbe(b, 4, 2) != 1) { d.why = "wrong type"; return d; }
  if (rbe(b, 6, 2) != 1) { d.why = "wrong version"; return d; }
  d.size = rbe(b, 8, 8);
  u64 fl = rbe(b, 16, 4);
  if (d.size != b.size()) { d.why = sfmt("size field %llu but the file has %zu bytes", (unsigned long long)d.size, b.size()); return d; }
  if (fl & ~1ull) { d.why = "unknown flags"; return d; }
  d.crc = fl & 1;
  size_t end = b.size() - (d.crc ? 4 : 0);
  if (d.crc && rbe(b, end, 4) != crc32_ref(b.substr(0, end))) { d.why = "checksum mismatch"; return d; }
  size_t p = 20;
  if (!dec(b, p, end, d.t, d.why, 0)) return d;
  if (p != end) { d.why = sfmt("%zu bytes between the tree and the end", end - p); return d; }
  d.ok = true;
  return d;
}

// ---------------------------------------------------------------- generators
static u64 tokno = 0;
void tree_reset() { tokno = 0; }
string token(const string& p) { return p + sfmt("%llu", (unsigned long long)tokno++); }
string gen_key(Rng& r, bool odd, bool printable) {
  static const char* names[] = {"RANK", "RANKS", "LEVEL", "FILE", "OFFSET", "D", "S", "0", "1", "2", "10", "-1", "007", "x", "ckpt.1/rank_3.ckpt"};
  u64 k = r.below(odd ? 10 : 4);
  switch (k) {
    case 0: case 1: return sfmt("k%llu", (unsigned long long)r.below(60));
    case 2: { string s; u64 n = 1 + r.below(12); for (u64 i = 0; i < n; i++) s += (char)('a' + r.below(26)); return s; }
    case 3: return sfmt("%llu", (unsigned long long)r.below(100000));
    case 4: case 5: return names[r.below(15)];
    case 6: return printable ? string("a b") : string("");
    case 7: { if (printable && r.below(2)) return "p:q=r"; string s; u64 n = 1 + r.below(6); for (u64 i = 0; i < n; i++) s += (char)(128 + r.below(128)); return s; }
    case 8: { if (printable) return r.below(2) ? "%s%n%d" : "tab\tand\\bar"; string s; u64 n = 1 + r.below(5); for (u64 i = 0; i < n; i++) s += (char)(1 + r.below(31)); return s; }
    default: return sfmt("value %llu/%llu.%%s", (unsigned long long)r.below(50), (unsigned long long)r.below(50));
  }
}
static void grow(Tree& t, Rng& r, u64& budget, int depth, bool odd, bool pr) {
  u64 n = r.below(depth == 0 ? 6 : 4);
  if (depth == 0 && n == 0) n = 1;
  for (u64 i = 0; i < n && budget; i++) {
    budget--;
    Tree& c = t[gen_key(r, odd, pr)];
    if (depth < 6 && r.below(3)) grow(c, r, budget, depth + 1, odd, pr);
  }
}
Tree gen_small() {
  Tree t; u32 n = pick(W, 4);
  Rng r(pick(W, 1u << 30));
  for (u32 i = 0; i < n; i++) { Tree& c = t[gen_key(r, true, false)]; if (r.below(2)) c[gen_key(r, true, false)]; }
  return t;
}
Tree gen_tree(const GenOpt& o) {
  Tree t;
  u32 cls = pickw(W, {o.wtiny, o.wsmall, o.wmedium, o.wwide, o.wdeep, o.wlong, o.wsized, o.whuge});
  u32 par = skewed(W, 0, 999);
  Rng r(pick(W, 1u << 30));
  bool pr = o.printable, odd = o.odd;
  switch (cls) {
    case 0: { u32 n = par % 4; for (u32 i = 0; i < n; i++) t[gen_key(r, odd, pr)]; break; }
    case 1: { u64 b = 1 + par % 20; grow(t, r, b, 0, odd, pr); break; }
    case 2: { u64 b = 30 + par % 170; for (int i = 0; i < 20 && b; i++) grow(t[gen_key(r, odd, pr)], r, b, 0, odd, pr); break; }
    case 3: { u32 n = 50 + par * (o.maxwide - 50) / 1000; for (u32 i = 0; i < n; i++) { Tree& c = t[sfmt("w%u", i)]; if (r.below(8) == 0) c[gen_key(r, odd, pr)]; } break; }
    case 4: { u32 n = 10 + par * (o.maxdepth - 10) / 1000; Tree* c = &t; for (u32 i = 0; i < n; i++) { if (r.below(10) == 0) (*c)[gen_key(r, odd, pr)]; c = &(*c)[sfmt("d%u", (u32)r.below(100))]; } break; }
    case 5: { u32 n = 1 + par * o.maxkey / 1000; string k;
      if (o.maxkey >= 5000 && par % 11 == 5) { static const u32 b[] = {32768, 65536, 65536 + 4096, 131072}; n = b[r.below(4)] - 4 + (u32)r.below(9); }   // around the limits of 16-bit lengths
      for (u32 i = 0; i < n; i++) k += (char)('a' + r.below(26)); t[k]; if (r.below(2)) t[gen_key(r, odd, pr)][k]; break; }
    case 6: {
      // total file size close to a multiple of 512, sometimes beyond 64 KB
      u32 m = 1 + par % 12; if (par % 23 == 7) m = 128 + par % 40;
      long target = (long)m * 512 + (long)r.below(9) - 4;
      // or of the packed tree: to the multiples at which a buffer or message might be divided
      if (par % 3 == 1) { static const long unit[] = {512, 1024, 4096, 4096, 65536}; long u = unit[r.below(5)]; target = 24 + u * (1 + (u < 4096 ? (long)(par % 12) : u == 4096 ? (long)r.below(6) : (long)r.below(2))) + (long)r.below(3) - 1; }
      long used = 28;                        // header, count, checksum
      u32 i = 0;
      while (used + 400 < target) { string k = sfmt("s%u_", i++); long n = 20 + (long)r.below(300); if (used + n + 5 + 300 > target) n = 20; while ((long)k.size() < n) k += (char)('a' + r.below(26)); t[k]; used += (long)k.size() + 5; }
      long n = target - used - 5; if (n < 3) n = 3; string k = "e"; while ((long)k.size() < n) k += 'z'; t[k];
      break; }
    default: {
      // larger than 1 MB: many long keys, or a file of nearly 1, 2, 4 or 8 MB with one key
      if (par % 3 == 1) { u64 want = (1ull << (20 + (par % 10 < 6 ? 0 : r.below(4)))) + r.below(9) - 4; string k; k.reserve(want); for (u64 i = 0; i + 33 < want; i++) k += (char)('a' + (i * 7 + i / 4096) % 26); t[k]; break; }
      u32 n = 250 + par % 50; for (u32 i = 0; i < n; i++) { string k = sfmt("h%u_", i); while (k.size() < 4500) k += (char)('a' + r.below(26)); t[k]; } break; }
  }
  return t;
}

// ---------------------------------------------------------------- library trees
static void build(kvtree* h, const Tree& t) {
  for (auto& k : t.kids) {
    kvtree* c = L.kvtree_new();
    L.kvtree_set(h, k.first.c_str(), c);
    build(c, k.second);
  }
}
kvtree* to_lib(const Tree& t) {
  LibCall lc("build-tree");
  kvtree* h = L.kvtree_new();
  if (tnodes(t) > 300) { Rng r(7); string p = enc_packed(t, r, false); L.kvtree_unpack(p.data(), h); }
  else build(h, t);
  return h;
}
static void readback(const kvtree* h, Tree& t, int depth) {
  if (depth > 3000) { t["\x01TOO-DEEP"]; return; }
  u64 n = 0;
  for (kvtree_elem* e = L.kvtree_elem_first(h); e; e = L.kvtree_elem_next(e)) {
    const char* k = L.kvtree_elem_key(e);
    string key = k ? string(k) : string("\x01NULL-KEY");
    while (t.kids.count(key)) key = "\x01" "DUPLICATE:" + key;
    readback(L.kvtree_elem_hash(e), t.kids[key], depth + 1);
    if (++n > 5000000) { t["\x01" "ENDLESS"]; return; }
  }
}
Tree from_lib(const kvtree* h) { Tree t; if (!h) { t["\x01NULL-TREE"]; return t; } LibCall lc("read-tree"); readback(h, t, 0); return t; }
void del_lib(kvtree*& t) { LibCall lc("kvtree_delete"); L.kvtree_delete(&t); }
