// Model trees, an independent encoder/decoder of the stored format, generators, conversions.
#pragma once
#include "core.h"
struct kvtree_struct; typedef struct kvtree_struct kvtree;

struct Tree {
  map<string, Tree> kids;
  bool operator==(const Tree& o) const;
  bool operator!=(const Tree& o) const { return !(*this == o); }
  Tree& operator[](const string& k) { return kids[k]; }
  bool empty() const { return kids.empty(); }
  const Tree* get(const string& k) const { auto i = kids.find(k); return i == kids.end() ? nullptr : &i->second; }
  Tree() {}
  Tree(const Tree&) = default; Tree(Tree&&) = default; Tree& operator=(const Tree&) = default; Tree& operator=(Tree&&) = default;
};
void tmerge(Tree& a, const Tree& b);             // recursive union
Tree tunion(const Tree& a, const Tree& b);
Tree kv(const string& k, const string& v);       // k -> v -> {}
u64 tnodes(const Tree& t);
u64 tpacked(const Tree& t);                      // bytes in packed form
u64 thash(const Tree& t);
string tshow(const Tree& t, size_t lim = 160);
string tdiff(const Tree& want, const Tree& got);

// ---- stored format
string enc_packed(const Tree& t, Rng& r, bool shuffle);
string enc_file(const Tree& t, Rng& r, bool crc = true, bool shuffle = true);
struct Dec { bool ok = false; bool empty = false; Tree t; string why; bool crc = false; u64 size = 0; };
Dec dec_file(const string& bytes);               // exactly one record, nothing else
u32 crc32_ref(const string& b);

// ---- generators (choices from the W stream)
struct GenOpt {
  u32 wtiny = 6, wsmall = 8, wmedium = 2, wwide = 1, wdeep = 1, wlong = 1, wsized = 3, whuge = 0;
  u32 maxdepth = 300, maxkey = 5000, maxwide = 600;
  bool printable = false;                        // no newline/odd bytes, for the printer
  bool odd = true;                               // odd keys
};
Tree gen_tree(const GenOpt& o = GenOpt());
Tree gen_small();
string gen_key(Rng& r, bool odd, bool printable);
string token(const string& prefix);              // unique in this run
void tree_reset();

// ---- library trees, inside a fiber
kvtree* to_lib(const Tree& t);
Tree from_lib(const kvtree* t);
void del_lib(kvtree*& t);
