// C16: descriptor lookups and iterators.
#include "schema.hh"
#include <set>
#include <algorithm>
using namespace sch;
using mon::Rng; using mon::violate;

namespace {

struct Field { uint32_t tag; std::string name; pb_type_t type; pb_label_t label; };
std::string sym(Rng &r, const char *base, size_t i) {
  std::string s = base + std::to_string(i);
  if (r.one_in(4)) s += "_" + std::to_string(r.below(100000));
  if (r.one_in(10)) s.append(r.below(60), 'n');
  return s;
}
uint32_t probe_tag(Rng &r, const std::vector<Field> &fs) {
  if (!fs.empty() && r.below(4)) {
    uint32_t t = fs[r.below(fs.size())].tag;
    int64_t d = (int64_t)r.below(5) - 2;
    return (uint32_t)std::max<int64_t>(1, (int64_t)t + d);
  }
  switch (r.below(4)) {
    case 0: return 1 + (uint32_t)r.below(64);
    case 1: return 0xffffffffu - (uint32_t)r.below(3);
    default: return random_tag(r, true);
  }
}
// A strictly ascending tag set: dense, with gaps, sparse, or all at the top.
std::vector<uint32_t> tags_of(Rng &r, size_t n) {
  std::set<uint32_t> s;
  switch (r.below(6)) {
    case 0: for (size_t i = 0; i < n; i++) s.insert((uint32_t)i + 1); break;
    case 1: for (uint32_t t = 1; s.size() < n; t++) if (r.below(3)) s.insert(t); break;
    case 2: { uint32_t b = (uint32_t)r.below(50); for (size_t i = 0; i < n; i++) s.insert(b + (uint32_t)i + 1); break; }
    case 3: for (size_t i = 0; i < n; i++) s.insert((1u << 29) - 1 - (uint32_t)i); break;
    case 4: while (s.size() < n) s.insert(1 + (uint32_t)r.below(n * 2 + 1)); break;
    default: while (s.size() < n) s.insert(r.flip() ? random_tag(r, true) : 1 + (uint32_t)r.below((1u << 29) - 1));
  }
  return {s.begin(), s.end()};
}

// Walk an iterator in every way and compare with the expected items.
template <class B, class E, class N, class P, class Pos, class Eq>
void walk(Rng &r, const char *what, size_t n, B begin, E end, N next, P prev, Pos pos, Eq at) {
  auto here = [&](size_t k, const char *how) {
    if (pos() != k) violate((std::string(what) + "-position").c_str(), "%s over %s: position %zu, expected %zu of %zu", how, what, pos(), k, n);
    if (!at(k)) violate((std::string(what) + "-item").c_str(), "%s over %s: wrong item at %zu of %zu", how, what, k, n);
    mon::count("iterator-stops");
  };
  int b = begin();
  if (!!b != (n > 0)) violate((std::string(what) + "-begin").c_str(), "begin of %zu items: %d", n, b);
  if (n) {
    size_t k = 0;
    here(k, "forward");
    while (next()) { if (++k >= n) violate((std::string(what) + "-too-many").c_str(), "more than %zu items", n); here(k, "forward"); }
    if (k + 1 != n) violate((std::string(what) + "-too-few").c_str(), "%zu of %zu items", k + 1, n);
    here(k, "after the last");
  }
  int e = end();
  if (!!e != (n > 0)) violate((std::string(what) + "-end").c_str(), "end of %zu items: %d", n, e);
  if (n) {
    size_t k = n - 1;
    here(k, "backward");
    while (prev()) { if (k-- == 0) violate((std::string(what) + "-too-many").c_str(), "more than %zu items backward", n); here(k, "backward"); }
    if (k) violate((std::string(what) + "-too-few").c_str(), "%zu items left backward", k);
    // at random
    for (int i = (int)r.below(3 * n + 6); i > 0; i--) {
      switch (r.below(10)) {
        case 0: if (!begin()) violate((std::string(what) + "-begin").c_str(), "begin again"); k = 0; break;
        case 1: if (!end()) violate((std::string(what) + "-end").c_str(), "end again"); k = n - 1; break;
        default: {
          bool fwd = r.flip();
          bool ok = fwd ? next() : prev();
          bool want = fwd ? k + 1 < n : k > 0;
          if (ok != want) violate((std::string(what) + "-step").c_str(), "%s at %zu of %zu: %d", fwd ? "next" : "prev", k, n, ok);
          if (ok) k += fwd ? 1 : (size_t)-1;
        }
      }
      here(k, "at random");
    }
  }
}

struct Mem {
  std::vector<std::unique_ptr<char[]>> mem;
  void *get(size_t n) { mem.emplace_back(new char[n ? n : 1]); return mem.back().get(); }
  const char *str(const std::string &s) { char *p = (char *)get(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
};

pb_descriptor_t *make(Rng &r, Mem &m, std::vector<Field> &out, std::set<uint32_t> &used, size_t n, size_t &serial,
                      const pb_oneof_descriptor_t *one, std::vector<size_t> *members) {
  std::vector<uint32_t> ts;
  for (uint32_t t : tags_of(r, n)) if (used.insert(t).second) ts.push_back(t);
  std::vector<pb_field_descriptor_t> fs;
  fs.reserve(ts.size() + 1);
  for (uint32_t t : ts) {
    Field f = {t, sym(r, "f", serial++), ALL_TYPES[r.below(N_SCALAR)], (pb_label_t)r.below(3)};
    const void *value = nullptr;
    if (one && r.flip()) { f.label = PB_LABEL_ONEOF; value = one; members->push_back(fs.size()); }
    pb_field_descriptor_t d = {f.tag, m.str(f.name), f.type, f.label, nullptr, value, 0};
    fs.emplace_back(d);
    out.push_back(f);
  }
  size_t bytes = sizeof(pb_field_descriptor_t) * fs.size();
  void *arr = m.get(bytes);        // exactly sized: lookups past it are noticed
  if (bytes) memcpy(arr, (const void *)fs.data(), bytes);
  pb_descriptor_t d = {{fs.empty() ? nullptr : (const pb_field_descriptor_t *)arr, fs.size()}, nullptr};
  void *p = m.get(sizeof d);
  memcpy(p, &d, sizeof d);
  return (pb_descriptor_t *)p;
}

void check_list(Rng &r, const pb_descriptor_t *d, const Field *fs, size_t n) {
  if (pb_descriptor_size(d) != n || !!pb_descriptor_empty(d) != !n) violate("size", "%zu fields, expected %zu", pb_descriptor_size(d), n);
  pb_descriptor_iter_t it = pb_descriptor_iter_create(d);
  walk(r, "fields", n, [&] { return pb_descriptor_iter_begin(&it); }, [&] { return pb_descriptor_iter_end(&it); },
    [&] { return pb_descriptor_iter_next(&it); }, [&] { return pb_descriptor_iter_prev(&it); },
    [&] { return pb_descriptor_iter_pos(&it); }, [&](size_t k) {
      const pb_field_descriptor_t *f = pb_descriptor_iter_current(&it);
      return pb_field_descriptor_tag(f) == fs[k].tag && pb_field_descriptor_name(f) == fs[k].name &&
        pb_field_descriptor_type(f) == fs[k].type && pb_field_descriptor_label(f) == fs[k].label &&
        pb_field_descriptor_type_size(f) == native_size(fs[k].type) &&
        (int)pb_field_descriptor_wiretype(f) == wiretype(fs[k].type);
    });
  pb_descriptor_iter_destroy(&it);
}

void message(Rng &r, uint64_t id) {
  Mem m;
  std::vector<std::vector<Field>> lists(1);
  std::set<uint32_t> used;
  size_t serial = 0;
  auto *od = (pb_oneof_descriptor_t *)m.get(sizeof(pb_oneof_descriptor_t));
  std::vector<size_t> members;
  bool group = r.flip();
  size_t n = r.one_in(8) ? r.below(120) : r.below(14);
  pb_descriptor_t *d = make(r, m, lists[0], used, n, serial, group ? od : nullptr, &members);
  size_t *ix = (size_t *)m.get(sizeof(size_t) * members.size());
  for (size_t i = 0; i < members.size(); i++) ix[i] = members[i];
  pb_oneof_descriptor_t o = {d, {ix, members.size()}};
  memcpy((void *)od, &o, sizeof o);
  std::vector<pb_descriptor_t *> chain = {d};
  for (int k = (int)r.below(5); k > 0; k--) {
    lists.emplace_back();
    chain.push_back(make(r, m, lists.back(), used, r.below(8), serial, nullptr, nullptr));
    pb_descriptor_extend(d, chain.back());
    if (r.one_in(3)) pb_descriptor_extend(d, chain[1 + r.below(chain.size() - 1)]);   // again: no effect
  }
  for (size_t i = 0; i < chain.size(); i++) {
    const pb_descriptor_t *x = pb_descriptor_extension(chain[i]);
    if (x != (i + 1 < chain.size() ? chain[i + 1] : nullptr)) violate("extension-chain", "extension %zu of %zu", i, chain.size());
    check_list(r, chain[i], lists[i].data(), lists[i].size());
  }
  std::vector<Field> all;
  for (auto &l : lists) all.insert(all.end(), l.begin(), l.end());
  std::string text;
  for (auto &f : all) text += std::to_string(f.tag) + " ";
  if (id < 2) mon::sample("tags " + text);
  auto probe = [&](uint32_t t) {
    const Field *want = nullptr;
    for (auto &f : all) if (f.tag == t) want = &f;
    const pb_field_descriptor_t *f = pb_descriptor_field_by_tag(d, t);
    if (!f != !want) violate("by-tag", "field %u is %s; tags: %s", t, f ? "found but not declared" : "declared but not found", text.c_str());
    if (f && (pb_field_descriptor_tag(f) != t || pb_field_descriptor_name(f) != want->name))
      violate("by-tag-wrong", "field %u yields field %u; tags: %s", t, pb_field_descriptor_tag(f), text.c_str());
    mon::count(want ? "tag-hits" : "tag-misses");
    mon::distinct(mon::fnv(text, t));
  };
  for (auto &f : all) {
    probe(f.tag);
    const pb_field_descriptor_t *x = pb_descriptor_field_by_name(d, f.name.c_str());
    if (!x || pb_field_descriptor_tag(x) != f.tag) violate("by-name", "field %s is not found", f.name.c_str());
    mon::count("name-hits");
  }
  for (uint32_t t = 1; t < 24; t++) probe(t);
  for (int i = 0; i < 16; i++) probe(probe_tag(r, all));
  for (int i = 0; i < 6; i++) {
    std::string s = all.empty() ? "x" : all[r.below(all.size())].name;
    switch (r.below(4)) {
      case 0: s.pop_back(); break;
      case 1: s += "x"; break;
      case 2: s[r.below(s.size())] ^= 1; break;
      default: s.clear();
    }
    bool want = false;
    for (auto &f : all) want |= f.name == s;
    if (!!pb_descriptor_field_by_name(d, s.c_str()) != want) violate("by-name", "field \"%s\": expected %d", s.c_str(), want);
    mon::count("name-misses");
  }
  // oneof group
  pb_oneof_descriptor_iter_t it = pb_oneof_descriptor_iter_create(od);
  if (pb_oneof_descriptor_size(od) != members.size() || !!pb_oneof_descriptor_empty(od) == !members.empty()) violate("oneof-size", "%zu", pb_oneof_descriptor_size(od));
  walk(r, "oneof", members.size(), [&] { return pb_oneof_descriptor_iter_begin(&it); }, [&] { return pb_oneof_descriptor_iter_end(&it); },
    [&] { return pb_oneof_descriptor_iter_next(&it); }, [&] { return pb_oneof_descriptor_iter_prev(&it); },
    [&] { return pb_oneof_descriptor_iter_pos(&it); }, [&](size_t k) {
      const pb_field_descriptor_t *f = pb_oneof_descriptor_iter_current(&it);
      return pb_field_descriptor_tag(f) == lists[0][members[k]].tag && pb_field_descriptor_oneof(f) == od;
    });
  pb_oneof_descriptor_iter_destroy(&it);
  mon::count("descriptors"); mon::count(members.empty() ? "empty-groups" : "groups");
}

void enums(Rng &r, uint64_t id) {
  Mem m;
  size_t n = r.one_in(8) ? r.below(80) : r.below(10);
  std::vector<int32_t> nums;
  int kind = (int)r.below(5);
  for (size_t i = 0; i < n; i++) switch (kind) {
    case 0: nums.push_back((int32_t)i); break;
    case 1: nums.push_back((int32_t)i - (int32_t)r.below(n)); break;
    case 2: nums.push_back((int32_t)r.below(20) - 10); break;
    case 3: nums.push_back((int32_t)(uint32_t)r.next()); break;
    default: nums.push_back(r.one_in(4) ? INT32_MIN + (int32_t)r.below(3) : r.one_in(4) ? INT32_MAX - (int32_t)r.below(3) : (int32_t)r.below(6));
  }
  std::sort(nums.begin(), nums.end());
  if (r.flip()) nums.erase(std::unique(nums.begin(), nums.end()), nums.end());
  n = nums.size();
  std::vector<std::string> names;
  size_t bytes = sizeof(pb_enum_value_descriptor_t) * n;
  char *arr = (char *)m.get(bytes);
  std::string text;
  for (size_t i = 0; i < n; i++) {
    names.push_back(sym(r, "V", i));
    pb_enum_value_descriptor_t v = {nums[i], m.str(names[i])};
    memcpy(arr + i * sizeof v, &v, sizeof v);
    text += std::to_string(nums[i]) + " ";
  }
  pb_enum_descriptor_t x = {{n ? (const pb_enum_value_descriptor_t *)arr : nullptr, n}};
  auto *d = (pb_enum_descriptor_t *)m.get(sizeof x);
  memcpy((void *)d, &x, sizeof x);
  if (id < 2) mon::sample("numbers " + text);
  auto probe = [&](int32_t v) {
    bool want = std::find(nums.begin(), nums.end(), v) != nums.end();
    const pb_enum_value_descriptor_t *f = pb_enum_descriptor_value_by_number(d, v);
    if (!!f != want) violate("by-number", "value %d is %s; numbers: %s", v, f ? "found but not declared" : "declared but not found", text.c_str());
    if (f) {
      size_t k = (size_t)(f - (const pb_enum_value_descriptor_t *)arr);
      if (k >= n || nums[k] != v || pb_enum_value_descriptor_number(f) != v) violate("by-number-wrong", "value %d yields another one; numbers: %s", v, text.c_str());
    }
    mon::count(want ? "number-hits" : "number-misses");
    mon::distinct(mon::fnv(text, (uint64_t)(uint32_t)v + (1ull << 40)));
  };
  for (size_t i = 0; i < n; i++) {
    for (int64_t k = -1; k <= 1; k++) { int64_t v = (int64_t)nums[i] + k; if (v >= INT32_MIN && v <= INT32_MAX) probe((int32_t)v); }
    const pb_enum_value_descriptor_t *f = pb_enum_descriptor_value_by_name(d, names[i].c_str());
    if (!f || pb_enum_value_descriptor_number(f) != nums[i] || pb_enum_value_descriptor_name(f) != names[i]) violate("enum-by-name", "value %s is not found", names[i].c_str());
    std::string s = names[i] + "x";
    if (pb_enum_descriptor_value_by_name(d, s.c_str())) violate("enum-by-name", "value %s is found", s.c_str());
  }
  for (int32_t v : {0, 1, -1, INT32_MIN, INT32_MAX}) probe(v);
  for (int i = 0; i < 8; i++) probe(r.flip() ? (int32_t)r.below(30) - 15 : (int32_t)(uint32_t)r.next());
  if (pb_enum_descriptor_size(d) != n || !!pb_enum_descriptor_empty(d) != !n) violate("enum-size", "%zu", pb_enum_descriptor_size(d));
  pb_enum_descriptor_iter_t it = pb_enum_descriptor_iter_create(d);
  walk(r, "values", n, [&] { return pb_enum_descriptor_iter_begin(&it); }, [&] { return pb_enum_descriptor_iter_end(&it); },
    [&] { return pb_enum_descriptor_iter_next(&it); }, [&] { return pb_enum_descriptor_iter_prev(&it); },
    [&] { return pb_enum_descriptor_iter_pos(&it); }, [&](size_t k) {
      const pb_enum_value_descriptor_t *f = pb_enum_descriptor_iter_current(&it);
      return pb_enum_value_descriptor_number(f) == nums[k] && pb_enum_value_descriptor_name(f) == names[k];
    });
  pb_enum_descriptor_iter_destroy(&it);
  mon::count("enums");
}

// A message and an enum with tens of thousands of entries: past every 8 and 16
// bit count. Looked up at samples, since a lookup may walk the whole list.
void giant(Rng &r, uint64_t id) {
  Mem m;
  static const size_t sizes[] = {66000, 255, 256, 257, 1000, 32768, 40000, 65535, 65536, 65537, 70000};
  size_t n = sizes[id % (sizeof sizes / sizeof *sizes)];
  std::vector<size_t> at = {0, 1, n / 2, n - 2, n - 1};
  for (size_t k : {127u, 128u, 255u, 256u, 32767u, 32768u, 65534u, 65535u, 65536u}) if (k < n) at.push_back(k);
  for (int i = 0; i < 40; i++) at.push_back(r.below(n));
  uint32_t step = 1 + (uint32_t)r.below(6), base = r.flip() ? 1 : 1 + (uint32_t)r.below(100000);
  auto tag = [&](size_t k) { return base + step * (uint32_t)k; };
  auto name = [](size_t k) { return "g" + std::to_string(k); };
  auto type = [](size_t k) { return ALL_TYPES[k % N_SCALAR]; };
  auto label = [](size_t k) { return (pb_label_t)(k % 3); };
  auto *od = (pb_oneof_descriptor_t *)m.get(sizeof(pb_oneof_descriptor_t));
  auto one = [&](size_t k) { return k % 5 == 4; };
  // one allocation for the names keeps this quick under the sanitizers
  std::string pool; std::vector<size_t> off;
  for (size_t k = 0; k < n; k++) { off.push_back(pool.size()); pool += name(k); pool.push_back('\0'); }
  char *names = (char *)m.get(pool.size());
  memcpy(names, pool.data(), pool.size());
  char *fs = (char *)m.get(n * sizeof(pb_field_descriptor_t));
  std::vector<size_t> members;
  for (size_t k = 0; k < n; k++) {
    if (one(k)) members.push_back(k);
    pb_field_descriptor_t f = {tag(k), names + off[k], type(k), one(k) ? PB_LABEL_ONEOF : label(k), nullptr, one(k) ? od : nullptr, 0};
    memcpy(fs + k * sizeof f, (const void *)&f, sizeof f);
  }
  pb_descriptor_t dd = {{(const pb_field_descriptor_t *)fs, n}, nullptr};
  auto *d = (pb_descriptor_t *)m.get(sizeof dd);
  memcpy((void *)d, &dd, sizeof dd);
  size_t *ix = (size_t *)m.get(sizeof(size_t) * members.size());
  memcpy(ix, members.data(), sizeof(size_t) * members.size());
  pb_oneof_descriptor_t oo = {d, {ix, members.size()}};
  memcpy((void *)od, &oo, sizeof oo);
  if (pb_descriptor_size(d) != n || pb_descriptor_empty(d)) violate("size", "%zu fields, expected %zu", pb_descriptor_size(d), n);
  for (size_t k : at) {
    const pb_field_descriptor_t *f = pb_descriptor_field_by_tag(d, tag(k));
    if (f != (const pb_field_descriptor_t *)fs + k) violate("by-tag", "field %u, number %zu of %zu, is not found", tag(k), k, n);
    f = pb_descriptor_field_by_name(d, name(k).c_str());
    if (f != (const pb_field_descriptor_t *)fs + k) violate("by-name", "field %s, number %zu of %zu, is not found", name(k).c_str(), k, n);
    if (step > 1 && pb_descriptor_field_by_tag(d, tag(k) + 1)) violate("by-tag", "field %u is found but not declared", tag(k) + 1);
    mon::count("giant-hits");
  }
  if (pb_descriptor_field_by_tag(d, tag(n - 1) + 1)) violate("by-tag", "field %u past the last is found", tag(n - 1) + 1);
  if (base > 1 && pb_descriptor_field_by_tag(d, base - 1)) violate("by-tag", "field %u before the first is found", base - 1);
  if (pb_descriptor_field_by_name(d, name(n).c_str())) violate("by-name", "a field not declared is found by its name");
  auto walk1 = [&](const char *what, size_t cnt, auto begin, auto end, auto next, auto prev, auto pos, auto ok) {
    for (int dir = 0; dir < 2; dir++) {
      size_t seen = 0;
      if (!(dir ? end() : begin())) violate((std::string(what) + "-begin").c_str(), "%zu items", cnt);
      do {
        size_t k = dir ? cnt - 1 - seen : seen;
        if (seen >= cnt) violate((std::string(what) + "-too-many").c_str(), "more than %zu items", cnt);
        if (pos() != k || !ok(k)) violate((std::string(what) + "-item").c_str(), "at %zu of %zu: position %zu", k, cnt, (size_t)pos());
        seen++;
      } while (dir ? prev() : next());
      if (seen != cnt) violate((std::string(what) + "-too-few").c_str(), "%zu of %zu items", seen, cnt);
      mon::count("giant-stops", seen);
    }
  };
  pb_descriptor_iter_t it = pb_descriptor_iter_create(d);
  walk1("fields", n, [&] { return pb_descriptor_iter_begin(&it); }, [&] { return pb_descriptor_iter_end(&it); },
    [&] { return pb_descriptor_iter_next(&it); }, [&] { return pb_descriptor_iter_prev(&it); }, [&] { return pb_descriptor_iter_pos(&it); },
    [&](size_t k) { return pb_descriptor_iter_current(&it) == (const pb_field_descriptor_t *)fs + k; });
  pb_descriptor_iter_destroy(&it);
  if (pb_oneof_descriptor_size(od) != members.size()) violate("oneof-size", "%zu", pb_oneof_descriptor_size(od));
  pb_oneof_descriptor_iter_t ot = pb_oneof_descriptor_iter_create(od);
  walk1("oneof", members.size(), [&] { return pb_oneof_descriptor_iter_begin(&ot); }, [&] { return pb_oneof_descriptor_iter_end(&ot); },
    [&] { return pb_oneof_descriptor_iter_next(&ot); }, [&] { return pb_oneof_descriptor_iter_prev(&ot); }, [&] { return pb_oneof_descriptor_iter_pos(&ot); },
    [&](size_t k) { return pb_oneof_descriptor_iter_current(&ot) == (const pb_field_descriptor_t *)fs + members[k]; });
  pb_oneof_descriptor_iter_destroy(&ot);
  // as many enum values, around zero
  char *vs = (char *)m.get(n * sizeof(pb_enum_value_descriptor_t));
  auto num = [&](size_t k) { return ((int32_t)k - (int32_t)(n / 2)) * (int32_t)step; };
  for (size_t k = 0; k < n; k++) { pb_enum_value_descriptor_t v = {num(k), names + off[k]}; memcpy(vs + k * sizeof v, &v, sizeof v); }
  pb_enum_descriptor_t ee = {{(const pb_enum_value_descriptor_t *)vs, n}};
  auto *e = (pb_enum_descriptor_t *)m.get(sizeof ee);
  memcpy((void *)e, &ee, sizeof ee);
  if (pb_enum_descriptor_size(e) != n || pb_enum_descriptor_empty(e)) violate("enum-size", "%zu values, expected %zu", pb_enum_descriptor_size(e), n);
  for (size_t k : at) {
    if (pb_enum_descriptor_value_by_number(e, num(k)) != (const pb_enum_value_descriptor_t *)vs + k) violate("by-number", "value %d, entry %zu of %zu, is not found", num(k), k, n);
    if (pb_enum_descriptor_value_by_name(e, name(k).c_str()) != (const pb_enum_value_descriptor_t *)vs + k) violate("enum-by-name", "entry %zu of %zu is not found", k, n);
    if (step > 1 && pb_enum_descriptor_value_by_number(e, num(k) + 1)) violate("by-number", "value %d is found but not declared", num(k) + 1);
    mon::count("giant-hits");
  }
  for (int64_t v : {(int64_t)num(n - 1) + 1, (int64_t)num(0) - 1, (int64_t)INT32_MIN, (int64_t)INT32_MAX})
    if (pb_enum_descriptor_value_by_number(e, (int32_t)v)) violate("by-number", "value %d is found but not declared", (int)v);
  if (pb_enum_descriptor_value_by_name(e, name(n).c_str())) violate("enum-by-name", "a value not declared is found by its name");
  pb_enum_descriptor_iter_t et = pb_enum_descriptor_iter_create(e);
  walk1("values", n, [&] { return pb_enum_descriptor_iter_begin(&et); }, [&] { return pb_enum_descriptor_iter_end(&et); },
    [&] { return pb_enum_descriptor_iter_next(&et); }, [&] { return pb_enum_descriptor_iter_prev(&et); }, [&] { return pb_enum_descriptor_iter_pos(&et); },
    [&](size_t k) { return pb_enum_descriptor_iter_current(&et) == (const pb_enum_value_descriptor_t *)vs + k; });
  pb_enum_descriptor_iter_destroy(&et);
  mon::distinct(mon::fnv(std::to_string(n), ((uint64_t)base << 8) + step));
  if (n > 65535) mon::count("more-than-65535-entries");
}

}  // namespace

int main(int argc, char **argv) {
  return mon::main(argc, argv, {{"message", message, 20000, 1000000}, {"enum", enums, 20000, 1000000}, {"giant", giant, 44, 2200}});
}
