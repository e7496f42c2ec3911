#include "harness.h"
bool NONTRIV; string SAMPLE; bool DEMO = false;
static vector<FaultPlan*> plans;
void plans_reset() { for (auto p : plans) delete p; plans.clear(); }
FaultPlan* new_plan() { plans.push_back(new FaultPlan); return plans.back(); }
FaultPlan* gen_plan(u32 mask, bool maysticky) {
  FaultPlan* p = new_plan();
  vector<u32> kinds; for (u32 k = 0; k < FK_N; k++) if (mask >> k & 1) kinds.push_back(k);
  u32 style = pickw(W, {2, 4, 3});
  if (style == 0) p->mask = mask;
  else if (style == 1) p->mask = 1u << kinds[pick(W, (u32)kinds.size())];
  else { u32 bits = pick(W, 1u << 16); Rng r(bits); for (u32 k : kinds) if (r.below(2)) p->mask |= 1u << k; }
  static const u32 rates[] = {40, 10, 100, 250, 3};
  p->rate = rates[pickw(W, {4, 3, 4, 3, 1})];
  if (style == 1 && p->rate < 40) p->rate = 150;
  if (maysticky) p->sticky = chance(W, 1, 2);
  p->by_path = chance(W, 1, 3);
  return p;
}
void op_begin() { if (FaultPlan* pl = CUR->plan ? CUR->plan : CUR->proc->plan) pl->begin_op(); }
u64 fired_now() { return CUR->proc->plan ? CUR->proc->plan->fired : 0; }
void check_exits() {
  for (Proc* p : all_procs()) if (p->called_exit)
    violation("exit", sfmt("a library call ended process %s with status %d: %s", p->name.c_str(), p->status, p->err.substr(0, 300).c_str()));
}
void run_all(const char* what) {
  RunEnd e = run_sched();
  if (POWER_LOST) return;
  if (e == STUCK) violation("deadlock", string(what) + ": nothing can run: " + stuck_report());
}
Proc* in_proc(const string& name, const std::function<void()>& body, FaultPlan* pl) {
  Proc* p = new_proc(name); p->plan = pl; spawn(p, body); run_all(name.c_str()); return p;
}
// a long path through existing directories; a name in it has at most 255 characters
string long_prefix() {
  u32 len; switch (pick(W, 4)) { case 0: len = 1000 + pick(W, 40); break; case 1: len = 240 + pick(W, 40); break; case 2: len = 500 + pick(W, 30); break; default: len = 300 + pick(W, 3600); }
  string s = "/w", unit(100 + pick(W, 100), 'd');
  while (s.size() + 1 + unit.size() + 8 < len) { s += "/" + unit; if (!fs_exists(s)) fs_mkdir(s); }
  string base; for (size_t n = std::min<size_t>(len > s.size() + 1 ? len - s.size() - 1 : 1, 200), i = 0; i < n; i++) base += (char)('a' + i % 26);
  COUNT("probe.long_path");
  return s + "/" + base;
}
string pick_prefix() {
  static const char* n[] = {"/w/f", "data.kvt", "/w/rank2file", "./x.y", "/w/a b", "/w/%d.%s%n", "-", "/w/\xc3\xa9 \\"};
  u32 k = pickw(W, {8, 8, 8, 8, 8, 2, 2, 2, 1});
  return k == 8 ? long_prefix() : n[k];
}
void base_setup(bool flock_only) {
  use_lib(flock_only ? 0 : pick(W, 2));
  HEAP_MODE = pickw(W, {4, 1, 1});
  static const uint8_t fills[] = {0xa5, 0x00, 0xff, 0x41};
  HEAP_FILL = fills[pick(W, 4)];
  static const uint8_t stale[] = {0xc7, 0x00, 0xff, 0x41, 0x01};
  STACK_FILL = stale[pick(W, 5)];
  static const u32 st[] = {0, 300, 800, 950};
  SW_STICKY = st[pick(W, 4)];
  FS.readdir_seed = pick(W, 1000);
  static const u32 lat[] = {0, 0, 20, 3000};
  FS.maxlat = lat[pick(W, 4)];
  FD0_FREE = chance(W, 1, 6);
}

// ---------------------------------------------------------------- census
Census census(Proc* p) {
  Census c; for (auto& k : p->fds) c.fds.insert(k.first);
  for (DirH* d : p->dirs) if (d->open) c.dirs++;
  c.regs = p->regs.size(); c.maps = fs_maps(p); c.live = p->live;
  return c;
}
string census_diff(const Census& a, const Census& b, Proc* p, bool mem, const set<int>& handed) {
  for (int f : b.fds) if (!a.fds.count(f) && !handed.count(f)) return sfmt("descriptor %d for %s stays open", f, p->fds[f]->path.c_str());
  for (int f : a.fds) if (!b.fds.count(f)) return sfmt("descriptor %d, held before the call, was closed", f);
  if (b.dirs > a.dirs) return "a directory handle stays open";
  if (b.regs > a.regs) return "a compiled regular expression is never freed";
  if (b.maps > a.maps) return "a mapping stays mapped";
  if (mem && b.live > a.live) return sfmt("%llu allocations remain: %s", (unsigned long long)(b.live - a.live), heap_live_report(p).c_str());
  return "";
}
bool holds_lock(Proc* p, string* where) {
  for (auto& k : p->fds) { auto& i = *k.second->ino; if (i.flock_ex == k.second->id || i.flock_sh.count(k.second->id)) { if (where) *where = k.second->path; return true; } }
  for (auto& kv : FS.names) { auto& i = *kv.second; if (i.plk_ex == p->id || i.plk_sh.count(p->id)) { if (where) *where = kv.first; return true; } }
  return false;
}

// ---------------------------------------------------------------- sets
bool parse_int(const string& s, long& v) { if (s.empty() || s.size() > 9) return false; for (char c : s) if (c < '0' || c > '9') return false; v = atol(s.c_str()); return true; }
const Tree* val1(const Tree& t, const string& key, string& out) {
  const Tree* k = t.get(key); if (!k || k->kids.size() != 1) return nullptr;
  out = k->kids.begin()->first; return &k->kids.begin()->second;
}
SetWalk walk_set(const string& prefix, bool durable) {
  SetWalk w;
  auto get = [&](const string& p, string& b) { return durable ? fs_get_durable(p, b) : fs_get(p, b); };
  string b, v; long n;
  struct Item { string path; int level; int writer; };
  vector<Item> todo;
  string root = fs_norm(nullptr, prefix);
  todo.push_back({root, -1, 0});
  bool first = true;
  while (!todo.empty()) {
    Item it = todo.back(); todo.pop_back();
    if (!get(it.path, b)) { w.why = "file " + it.path + " does not exist"; return w; }
    if (!w.files.insert(it.path).second) { w.why = "file " + it.path + " is referred to twice"; return w; }
    Dec d = dec_file(b);
    if (!d.ok) { w.why = "file " + it.path + ": " + d.why; return w; }
    if (!val1(d.t, "LEVEL", v) || !parse_int(v, n)) { w.why = "file " + it.path + " records no level: " + tshow(d.t); return w; }
    int lev = (int)n;
    if (first) { w.top = lev; if (lev < 1) { w.why = "root file has level 0"; return w; } }
    else if (lev != it.level) { w.why = sfmt("file %s has level %d, its parent expects %d", it.path.c_str(), lev, it.level); return w; }
    if (!val1(d.t, "RANKS", v) || !parse_int(v, n)) { w.why = "file " + it.path + " records no number of ranks"; return w; }
    if (first) w.nranks = (int)n; else if (n != w.nranks) { w.why = sfmt("file %s records %ld ranks, the root %d", it.path.c_str(), n, w.nranks); return w; }
    for (auto& k : d.t.kids) if (k.first != "LEVEL" && k.first != "RANKS" && k.first != "RANK") { w.why = "file " + it.path + " holds an unexpected key " + k.first; return w; }
    const Tree* r = d.t.get("RANK");
    SetFile sf; sf.path = it.path; sf.level = lev; sf.writer = it.writer;
    if (r) for (auto& k : r->kids) {
      if (!parse_int(k.first, n)) { w.why = "file " + it.path + " has an entry for '" + k.first + "'"; return w; }
      if (lev == 0) {
        if (n >= w.nranks) { w.why = sfmt("file %s has an entry for rank %ld of %d", it.path.c_str(), n, w.nranks); return w; }
        if (w.ranks.count((int)n)) { w.why = sfmt("rank %ld appears in two level-0 files", n); return w; }
        w.ranks[(int)n] = k.second;
        sf.ranks.push_back({(int)n, k.second});
      } else {
        string f, o;
        if (!val1(k.second, "FILE", f) || !val1(k.second, "OFFSET", o)) { w.why = "file " + it.path + ": entry " + k.first + " names no file: " + tshow(k.second); return w; }
        if (o != "0") { w.why = "file " + it.path + ": entry " + k.first + " has offset " + o; return w; }
        todo.push_back({fs_norm(nullptr, prefix + f), lev - 1, (int)n});
        sf.ranks.push_back({(int)n, k.second});
      }
    }
    if (lev == 0) w.leaves.push_back(sf); else w.maps.push_back(sf);
    first = false;
  }
  w.ok = true;
  return w;
}
vector<string> build_set(const string& prefix, const vector<Tree>& data, Rng& r, bool deep) {
  vector<string> files; int n = (int)data.size();
  string root = fs_norm(nullptr, prefix);
  // level 0 groups
  vector<int> lead; vector<Tree> save;
  for (int i = 0; i < n; i++) {
    if (i == 0 || r.below(3) == 0) { lead.push_back(i); save.push_back(Tree()); }
    save.back()["RANK"][sfmt("%d", i)] = data[i];
  }
  int level = 0;
  while (true) {
    bool top = level > 0 && lead.size() == 1 && !(deep && level < 9 && r.below(3) == 0);
    if (level >= 1 && !deep && lead.size() > 1) { // merge into one
      Tree all; for (auto& s : save) tmerge(all, s); save.assign(1, all); lead.resize(1); top = true;
    }
    vector<int> nlead; vector<Tree> nsave;
    for (size_t g = 0; g < lead.size(); g++) {
      save[g]["LEVEL"][sfmt("%d", level)]; save[g]["RANKS"][sfmt("%d", n)];
      string suf = top ? "" : sfmt(".%d.%d", level, lead[g]);
      fs_put(root + suf, enc_file(save[g], r, true, true)); files.push_back(root + suf);
      if (!top) {
        if (g == 0 || r.below(3) == 0) { nlead.push_back(lead[g]); nsave.push_back(Tree()); }
        Tree& e = nsave.back()["RANK"][sfmt("%d", lead[g])]; e["FILE"][suf]; e["OFFSET"]["0"];
      }
    }
    if (top) break;
    lead = nlead; save = nsave; level++;
  }
  return files;
}
Damage damage_file(const string& path, bool allow_missing, bool allow_append) {
  Damage d; string b; d.must_fail = false;
  if (!fs_get(path, b)) harness_error("damage: no file " + path);
  string orig = b;
  u32 k = pickw(F, {4, 4, 2, 2, 2, 3, allow_append ? 2u : 0u, allow_missing ? 2u : 0u, 1, 2, 1});
  d.kind = (int)k;
  auto seed = [&]() { return Rng(pick(F, 1u << 30)); };
  switch (k) {
    case 0: { u32 bit = b.empty() ? 0 : pick(F, (u32)std::min<size_t>(b.size() * 8, 1u << 30)); if (chance(F, 1, 4)) bit %= 160;
              if (!b.empty()) b[bit / 8] = (char)(b[bit / 8] ^ (1 << (bit % 8))); d.what = sfmt("bit %u flipped", bit); break; }
    case 1: { u32 n = b.empty() ? 0 : pick(F, (u32)b.size()); if (chance(F, 1, 3)) n %= 30; if (n >= b.size()) n = 0; b.resize(n); d.what = sfmt("truncated from %zu to %u bytes", orig.size(), n); d.must_fail = true; break; }
    case 2: { u32 s = pick(F, (u32)(b.size() / 512 + 1)); for (size_t i = s * 512; i < b.size() && i < (s + 1) * 512u; i++) b[i] = 0; d.what = sfmt("block %u zeroed", s); break; }
    case 3: { u32 s = pick(F, (u32)(b.size() / 512 + 1)); Rng r = seed(); for (size_t i = s * 512; i < b.size() && i < (s + 1) * 512u; i++) b[i] = (char)r.next(); d.what = sfmt("block %u replaced by garbage", s); break; }
    case 4: { Rng r = seed(); u32 n = 1 + pick(F, 12); for (u32 i = 0; i < n; i++) if (b.size() > 20) b[20 + r.below(b.size() - 20)] = (char)r.next(); d.what = sfmt("%u random bytes after the header", n); break; }
    case 5: { u32 w = pick(F, 3); size_t p = w == 0 ? 0 : w == 1 ? 4 : 6; size_t len = w == 0 ? 4 : 2; u32 x = pick(F, 1u << 20); Rng r(x);
              if (b.size() >= 8) { string o = b.substr(p, len); string v = o; u32 how = pick(F, 4); 
                if (how == 0) for (auto& c : v) c = (char)r.next(); else if (how == 1) v[len - 1] = (char)(v[len - 1] + 1 + r.below(3)); else if (how == 2) std::reverse(v.begin(), v.end()); else for (auto& c : v) c = 0;
                if (v == o) v[0] = (char)(v[0] ^ 0x40);
                for (size_t i = 0; i < len; i++) b[p + i] = v[i];
                // as if another program had written it: the checksum of the changed bytes is right
                if (chance(F, 1, 3) && b.size() >= 24 && (b[19] & 1)) { u32 c = crc32_ref(b.substr(0, b.size() - 4)); for (int i = 0; i < 4; i++) b[b.size() - 4 + i] = (char)(c >> (24 - 8 * i)); } }
              d.what = sfmt("wrong %s in the header", w == 0 ? "magic number" : w == 1 ? "type" : "version"); d.must_fail = true; break; }
    case 6: { Rng r = seed(); u32 n = 1 + pick(F, 2000); for (u32 i = 0; i < n; i++) b += (char)r.next(); d.what = sfmt("%u bytes appended", n); break; }
    case 8: { Rng r = seed(); u32 n = 1 + pick(F, 19), how = pick(F, 3); b.resize(n); if (how < 2) for (u32 i = pick(F, 2) ? 0 : pick(F, n); i < n; i++) b[i] = how ? (char)r.next() : 0; d.what = sfmt("left with %u bytes%s", n, how == 0 ? ", zeros at the end" : how == 1 ? ", garbage at the end" : ""); d.must_fail = true; break; }
    case 9: { Rng r = seed(); u32 n = 1 + pick(F, 6); bool flags = chance(F, 1, 2); if (b.size() > 24) {           // anywhere, but the checksum stays announced
                for (u32 i = 0; i < n; i++) { size_t at = r.below(3) ? r.below(b.size()) : r.below(24); b[at] = (char)r.next(); }
                if (flags) b[16 + r.below(4)] ^= (char)(1u << r.below(8));
                if (orig[19] & 1) b[19] |= 1; }
              d.what = sfmt("%u random bytes%s, the checksum flag kept", n, flags ? " and other flags" : ""); break; }
    case 10: { u64 v = pick(F, (u32)b.size() + 40); if (chance(F, 1, 3)) v = pick(F, 30); if (b.size() >= 20) for (int i = 0; i < 8; i++) b[15 - i] = (char)(v >> (8 * i)); d.what = sfmt("size field set to %llu of %zu", (unsigned long long)v, b.size()); break; }
    case 7: { fs_rm(path); d.what = "removed"; d.must_fail = true; note("damage " + path + ": removed"); return d; }
  }
  auto ino = fs_ino(path);
  fs_put(path, b, ino->mode);
  note("damage " + path + ": " + d.what);
  COUNT("fault.stored_damage");
  return d;
}
string res(int rc) { return rc == KV_OK ? "success" : sfmt("failure(%d)", rc); }
