// C22: the error code of a failing call names its cause.
#include "act.hh"
#include "guard.hh"
extern "C" {
#include "message/journal.h"
}

namespace {

std::set<int> g_seen;     // codes of the case
const char *code(int e) {
  static const char *N[] = {"NONE", "ALLOC", "INVALID", "VARINT", "OFFSET", "ABSENT", "EOM"};
  return e >= 0 && e < 7 ? N[e] : "(undocumented)";
}
void want(const char *key, pb_error_t e, std::initializer_list<pb_error_t> ok, const std::string &what) {
  for (pb_error_t x : ok) if (x == e) {
    mon::count((std::string("code:") + code(e)).c_str());
    return;
  }
  std::string w;
  for (pb_error_t x : ok) w += std::string(" ") + code(x);
  violate((std::string(key) + ":" + code(*ok.begin())).c_str(), "%s: %s instead of%s", what.c_str(), code(e), w.c_str());
}

// ---- damaged bytes ---------------------------------------------------------

pb_error_t descend(const pb_field_descriptor_t *f, const void *value, void *) {
  if (pb_field_descriptor_type(f) != PB_TYPE_MESSAGE) return PB_ERROR_NONE;
  return pb_decoder_decode((const pb_decoder_t *)value, descend, nullptr);
}
void all_nodes(Node &n, std::vector<Node *> &v) {
  v.push_back(&n);
  for (auto &e : n.el) if (e->node) all_nodes(*e->node, v);
}
std::string with(const Node &n, const Node *at, size_t pos, const std::string &x) {
  std::string o;
  for (size_t i = 0; i <= n.el.size(); i++) {
    if (&n == at && i == pos) o += x;
    if (i == n.el.size()) break;
    Elem &e = *n.el[i];
    if (e.kind != Elem::MSG) { encode(e, o); continue; }
    std::string s = with(*e.node, at, pos, x);
    put_varint(o, ((uint64_t)e.tag << 3) | WT_LEN); put_varint(o, s.size()); o += s;
  }
  return o;
}

// Reads and erasures through a message whose own level is damaged at `pos`.
void damaged_message(Rng &r, Universe &u, Node &n, size_t pos, const std::string &b, pb_error_t e1, const std::string &kind) {
  auto before = [&](uint32_t tag) {
    for (size_t i = 0; i < pos; i++) if (n.el[i]->visible() && n.el[i]->tag == tag) return true;
    return false;
  };
  pb_journal_t j = pb_journal_create((const uint8_t *)b.data(), b.size());
  pb_message_t m = pb_message_create(u.desc[(size_t)n.msg], &j);
  pb_cursor_t all = pb_cursor_create_without_tag(&m);
  while (pb_cursor_next(&all)) ;
  want(("message-cursor:" + kind).c_str(), pb_cursor_error(&all), {e1}, "cursor at " + kind);
  pb_cursor_destroy(&all);
  for (auto &f : u.msgs[(size_t)n.msg].fields) {
    if (!before(f.tag)) {
      pb_cursor_t c = pb_cursor_create(&m, f.tag);
      want(("message-field-cursor:" + kind).c_str(), pb_cursor_error(&c), {e1}, "cursor on an absent field before " + kind);
      pb_cursor_destroy(&c);
      if (f.label != PB_LABEL_REPEATED && f.type != PB_TYPE_MESSAGE) {
        Native out;
        want(("message-get:" + kind).c_str(), pb_message_get(&m, f.tag, out.b), {e1}, "reading an absent field before " + kind);
      }
      mon::count("damaged-reads");
    }
  }
  if (!u.msgs[(size_t)n.msg].fields.empty()) {
    auto &f = u.msgs[(size_t)n.msg].fields[r.below(u.msgs[(size_t)n.msg].fields.size())];
    if (f.oneof < 0) {      // (an invalid cursor counts as nothing left to erase)
      pb_error_t e = pb_message_erase(&m, f.tag);
      want(("message-erase:" + kind).c_str(), e, {e1, e1 == PB_ERROR_INVALID ? PB_ERROR_NONE : e1}, "erasing a field before " + kind);
      mon::count("damaged-erasures");
    }
  }
  pb_message_destroy(&m);
  pb_journal_destroy(&j);
}

void damage(Rng &r, uint64_t id) {
  Universe u;
  Params p; p.messages = 1 + (int)r.below(4); p.required = false;
  random_universe(r, u, p);
  GenParams g; g.max_depth = (int)r.below(4);
  auto n = random_node(r, u, 0, g);
  std::vector<Node *> nodes; all_nodes(*n, nodes);
  op("schema %s", u.show().c_str());
  for (int rep = 0; rep < 10; rep++) {
    Node *at = nodes[r.below(nodes.size())];
    const MsgDef &d = u.msgs[(size_t)at->msg];
    const FieldDef *f = d.fields.empty() || r.one_in(3) ? nullptr : &d.fields[r.below(d.fields.size())];
    uint32_t tag;
    if (f) tag = f->tag; else do tag = 1 + (uint32_t)r.below(r.flip() ? 60 : 100000); while (d.find(tag));
    static const int W[] = {WT_VARINT, WT_64, WT_LEN, WT_32};
    int w = f ? wiretype(f->type) : W[r.below(4)];
    size_t pos = r.below(at->el.size() + 1);
    std::string x, kind;
    pb_error_t e1, e2;
    auto head = [&](int wt) { put_varint(x, ((uint64_t)tag << 3) | (uint64_t)wt); };
    switch (r.below(8)) {
      case 0: { static const int I[] = {3, 4, 6, 7}; head(I[r.below(4)]); e1 = e2 = PB_ERROR_INVALID; kind = "illegal wire type"; break; }
      case 1: x = std::string(1, (char)r.below(8)); e1 = e2 = PB_ERROR_INVALID; kind = "tag zero"; break;
      case 2: x = std::string(10 + r.below(3), (char)(0x80 | r.below(128))); x += '\1'; e1 = e2 = PB_ERROR_VARINT; kind = "overlong tag"; break;
      case 3: x = std::string(1 + r.below(4), (char)(0x80 | r.below(128))); pos = at->el.size(); e1 = e2 = PB_ERROR_VARINT; kind = "cut tag"; break;
      case 4:      // beyond the end
        head(WT_LEN); put_varint(x, 0xffffffffu - r.below(r.flip() ? 30 : 0x7fffffffu)); e1 = e2 = PB_ERROR_OFFSET; kind = "length past the end"; break;
      case 5:      // overlong length prefix
        head(WT_LEN); x += std::string(10 + r.below(3), (char)(0x80 | r.below(128))); x += '\1'; e1 = e2 = PB_ERROR_VARINT; kind = "overlong length"; break;
      case 6:
        if (w != WT_VARINT) w = f ? w : WT_VARINT;
        if (w != WT_VARINT) { rep--; if (r.one_in(4)) rep++; continue; }
        head(w);
        x += std::string((f && f->type == PB_TYPE_BOOL ? 2 : 10) + r.below(3), (char)(0x80 | r.below(128))); x += '\1';
        e1 = e2 = PB_ERROR_VARINT; kind = "overlong varint"; break;
      default:
        pos = at->el.size();
        head(w);
        e1 = e2 = PB_ERROR_OFFSET; kind = "cut value";
        if (w == WT_VARINT) { x += std::string(r.below(f && f->type == PB_TYPE_BOOL ? 2 : 5), (char)(0x80 | r.below(128))); e1 = e2 = PB_ERROR_VARINT; kind = "cut varint"; }
        else if (w == WT_64) x += std::string(r.below(8), 'x');
        else if (w == WT_32) x += std::string(r.below(4), 'x');
        else if (r.one_in(3)) { x += std::string(r.below(4), (char)(0x80 | r.below(128))); e1 = e2 = PB_ERROR_VARINT; kind = "cut length"; }
        else { size_t k = r.below(140); put_varint(x, k + 1 + r.below(3)); x += std::string(k, 'y'); }
    }
    std::string b = with(*n, at, pos, x);
    op("%s (%s) at element %zu of M%d: %s\nbytes %s", kind.c_str(), f ? type_name(f->type) : "unknown", pos, at->msg, mon::hex(x).c_str(), mon::hex(b).c_str());
    Guarded mem(b);
    pb_buffer_t buf = pb_buffer_create_zero_copy(mem.data, mem.size);
    pb_decoder_t dec = pb_decoder_create(u.desc[0], &buf);
    pb_error_t e = pb_decoder_decode(&dec, descend, nullptr);
    want(("decoder:" + kind).c_str(), e, {e1, e2}, "decoder, " + kind);
    pb_decoder_destroy(&dec);
    pb_validator_t val = pb_validator_create(u.desc[0]);
    e = pb_validator_check(&val, &buf);
    want(("validator:" + kind).c_str(), e, {e1, e2}, "validator, " + kind);
    pb_validator_destroy(&val);
    pb_buffer_destroy(&buf);
    if (at == n.get() && !(f && f->type == PB_TYPE_BOOL && w == WT_VARINT && kind == "overlong varint"))
      damaged_message(r, u, *at, pos, b, e1, kind);
    mon::count(("damage:" + kind).c_str());
    mon::distinct(mon::fnv(b));
    if (id < 2 && !rep) mon::sample(kind + ": " + mon::hex(b));
  }
}

// Packed runs: damaged values, values that continue past the run.
void packed(Rng &r, uint64_t) {
  Universe u; u.msgs.resize(1);
  FieldDef f; f.tag = 1 + (uint32_t)r.below(40); f.type = ALL_TYPES[r.below(N_SCALAR)];
  if (f.type == PB_TYPE_ENUM) f.type = PB_TYPE_INT32;
  f.label = PB_LABEL_REPEATED; f.packed = r.flip(); f.name = "f";
  u.msgs[0].fields.push_back(f);
  u.build();
  std::string run;
  for (int i = (int)r.below(5); i >= 0; i--) run += payload(random_val(r, f.type));
  std::string last = payload(random_val(r, f.type));
  bool var = wiretype(f.type) == WT_VARINT, over = false;
  std::initializer_list<pb_error_t> ok = {PB_ERROR_OFFSET}, both = {PB_ERROR_OFFSET, PB_ERROR_VARINT}, varint = {PB_ERROR_VARINT};
  std::string b, what;
  put_varint(b, ((uint64_t)f.tag << 3) | 2);
  switch (r.below(3)) {
    case 0:    // the run itself is longer than the message
      put_varint(b, run.size() + 1 + r.below(r.flip() ? 3 : 0x7ffff000)); b += run; what = "packed run past the end"; break;
    case 1:    // cut in the last value
      if (last.size() < 2) { last = std::string(1, (char)0x80) + std::string(1, '\1'); if (f.type == PB_TYPE_BOOL) last = std::string("\x81\0", 2); }
      over = r.flip();
      put_varint(b, run.size() + last.size() - 1);
      b += run + (over ? last + std::string(r.below(10), '\0') : last.substr(0, last.size() - 1));
      what = over ? "packed value past its run" : "packed value past the end"; break;
    default:
      if (!var) return;
      { std::string bad(10 + r.below(4), (char)(0x80 | r.below(128))); put_varint(b, run.size() + bad.size()); b += run + bad; }
      what = "overlong packed varint";
  }
  op("%s: %s %s", what.c_str(), type_name(f.type), mon::hex(b).c_str());
  Guarded mem(b);
  pb_buffer_t buf = pb_buffer_create_zero_copy(mem.data, mem.size);
  pb_decoder_t dec = pb_decoder_create(u.desc[0], &buf);
  pb_error_t e = pb_decoder_decode(&dec, descend, nullptr);
  want(("decoder:" + what).c_str(), e, what[0] == 'o' ? varint : var && what != "packed run past the end" ? both : ok, "decoder, " + what);
  pb_validator_t val = pb_validator_create(u.desc[0]);
  pb_error_t e2 = pb_validator_check(&val, &buf);
  want(("validator:" + what).c_str(), e2, {e}, "validator, " + what);
  pb_validator_destroy(&val);
  pb_decoder_destroy(&dec);
  pb_buffer_destroy(&buf);
  mon::count(("damage:" + what).c_str());
  mon::distinct(mon::fnv(b, f.type));
}

// ---- memory ----------------------------------------------------------------

bool coded(int op) {     // operations that return a code (not an object)
  return op == PUT || op == PUT_MSG || op == ERASE || op == CLEAR || op == NPUT || op == NERASE || op == FPUT ||
    op == FCLEAR || op == CPUT || op == CPUT_MSG || op == CERASE || op == OCLEAR;
}

void memory(Rng &r, uint64_t) {
  Ledger l; g_l = &l; g_l2 = nullptr; g_alloc = &l.a; g_alloc2 = nullptr;
  {
    Universe u;
    Params p; p.messages = 2 + (int)r.below(3); p.max_fields = 6;
    random_universe(r, u, p);
    GenParams g; g.max_depth = 1 + (int)r.below(3);
    Weights w; w.max_handles = 8; w.stale = 2; w.audit = 0; w.read = 1;
    w.within = w.nested = 4; w.field_new = 4; w.cursor_new = 5; w.msg_from_cursor = 2;
    Session s(r, u, g, w);
    for (int i = (int)r.below(10); i > 0; i--) s.step();
    for (auto &h : s.hs) s.verify(*h);
    if (!s.pick(H_MSG, true)) s.add_root();
    Act a(s, r.next());
    if (a.op >= 0 && coded(a.op)) {
      bool absent = a.op == NERASE;
      uint64_t denied = l.denied;
      size_t k = 1 + r.below(3);
      op("=== %s, deny request %zu", NAMES[a.op], k);
      pb_error_t e = a.perform(k, r.flip());
      if (l.denied > denied) {
        want((std::string("memory:") + NAMES[a.op]).c_str(), e, {PB_ERROR_ALLOC, PB_ERROR_NONE}, std::string(NAMES[a.op]) + " without memory");
        mon::count("denied-writes");
        if (e) mon::count((std::string("denied:") + NAMES[a.op]).c_str());
      } else if (e && !absent) violate("memory:refused", "%s fails with %s", NAMES[a.op], code(e));
      mon::distinct(mon::fnv(s.bytes(), (uint64_t)a.op * 8 + k));
    }
  }
  g_alloc = g_l2 ? g_alloc : nullptr; g_l = nullptr; g_alloc = nullptr;
  l.expect_empty("after a session");
  // Objects of the core.
  Ledger c;
  std::string b(1 + r.below(100), 'b');
  c.arm(1, r.flip());
  { pb_buffer_t x = pb_buffer_create_with_allocator(&c.a, (const uint8_t *)b.data(), b.size());
    c.disarm();
    want("memory:buffer", pb_buffer_error(&x), {PB_ERROR_ALLOC}, "buffer without memory");
    pb_buffer_destroy(&x); }
  c.arm(1, r.flip());
  { pb_journal_t x = pb_journal_create_with_allocator(&c.a, (const uint8_t *)b.data(), b.size());
    c.disarm();
    want("memory:journal", pb_journal_error(&x), {PB_ERROR_ALLOC}, "journal without memory");
    pb_journal_destroy(&x); }
  { Universe u; u.msgs.resize(2);
    FieldDef f; f.tag = 1 + (uint32_t)r.below(4000); f.name = "f";
    bool sub = r.one_in(8);
    f.type = sub ? PB_TYPE_MESSAGE : ALL_TYPES[r.below(16)]; if (f.type == PB_TYPE_ENUM) f.type = PB_TYPE_BOOL;
    if (sub) f.nested = 1;
    f.label = r.flip() ? PB_LABEL_REPEATED : PB_LABEL_OPTIONAL; f.packed = f.label == PB_LABEL_REPEATED && wiretype(f.type) != WT_LEN && r.flip();
    u.msgs[0].fields.push_back(f);
    FieldDef b; b.tag = 1; b.name = "b"; b.type = PB_TYPE_UINT64; u.msgs[1].fields.push_back(b); u.build();
    pb_encoder_t x = pb_encoder_create_with_allocator(&c.a, u.desc[0]);
    pb_encoder_t y = pb_encoder_create(u.desc[1]);
    uint64_t bv = 7;
    if (pb_encoder_encode(&y, 1, &bv, 1)) violate("memory:refused", "encode fails");
    Val v = random_val(r, f.type); Native nv; if (!sub) to_native(v, nv);
    const void *p = sub ? (const void *)&y : nv.b;
    for (int i = (int)r.below(3); i > 0; i--) if (pb_encoder_encode(&x, f.tag, p, 1)) violate("memory:refused", "encode fails");
    uint64_t denied = c.denied;
    c.arm(1 + r.below(3), r.flip());
    pb_error_t e = pb_encoder_encode(&x, f.tag, p, 1);
    c.disarm();
    if (c.denied > denied) { want("memory:encode", e, {PB_ERROR_ALLOC}, "encode without memory"); mon::count("denied-encodes"); }
    else want("memory:encode", e, {PB_ERROR_NONE}, "encode with memory");
    if (sub) {
      pb_encoder_destroy(&y);
      want("invalid-value", pb_encoder_encode(&x, f.tag, &y, 1), {PB_ERROR_INVALID}, "encode of an invalid encoder");
      mon::count("invalid-encoders");
    } else pb_encoder_destroy(&y);
    // A packed run.
    if (f.packed && f.type != PB_TYPE_BOOL) {
      uint64_t run[8] = {1, 2, 3, 4, 5, 6, 7, 8};
      denied = c.denied;
      c.arm(1 + r.below(4), r.flip());
      e = pb_encoder_encode(&x, f.tag, run, 4);
      c.disarm();
      if (c.denied > denied) { want("memory:encode-run", e, {PB_ERROR_ALLOC}, "encode of a run without memory"); mon::count("denied-runs"); }
      else want("memory:encode-run", e, {PB_ERROR_NONE}, "encode of a run with memory");
    }
    pb_encoder_destroy(&x); }
  c.expect_empty("core objects");
}

Guarded *g_mem;
void zero_copy(Rng &r, uint64_t) {
  Universe u;
  Params p; p.messages = 2 + (int)r.below(3); p.max_fields = 6;
  random_universe(r, u, p);
  GenParams g; g.max_depth = 1 + (int)r.below(3);
  Weights w; w.readonly = true; w.put = w.put_sub = w.erase = w.within = w.clear_msg = w.field_new = w.field_put = w.field_clear =
    w.cursor_put = w.cursor_erase = 0; w.nested = 3; w.cursor_new = 8; w.msg_from_cursor = 6; w.audit = 0;
  std::unique_ptr<Guarded> mem;
  g_alloc = nullptr; g_l = g_l2 = nullptr;
  g_make = [&](const std::string &b) { mem = std::make_unique<Guarded>(b); return b.empty() ? pb_journal_create_empty() : pb_journal_create_zero_copy(mem->data, mem->size); };
  {
    Session s(r, u, g, w);
    for (int i = (int)r.below(12); i > 0; i--) s.step();
    if (!s.pick(H_MSG, true)) s.add_root();
    for (int k = 0; k < 6; k++) {
      Act a(s, r.next());
      if (a.op < 0 || !coded(a.op) || a.op == NERASE) continue;
      std::string before = s.bytes();
      op("=== %s on h%d tag %u", NAMES[a.op], a.h->id, a.f ? a.f->tag : 0);
      pb_error_t e = a.perform();
      want((std::string("zero-copy:") + NAMES[a.op]).c_str(), e, {PB_ERROR_ALLOC, PB_ERROR_NONE}, std::string(NAMES[a.op]) + " on a zero-copy journal");
      mon::distinct(mon::fnv(s.bytes(), (uint64_t)a.op));
      if (e) { mon::count("zero-copy-refusals"); mon::count((std::string("refused:") + NAMES[a.op]).c_str()); }
      if (!valid(*a.h) || s.bytes() != before) break;      // the model isn't updated
    }
  }
  g_make = nullptr;
  mem.reset();
}

// ---- reads, invalid arguments, ends -----------------------------------------

void objects(Rng &r, uint64_t id) {
  Universe u;
  Params p; p.messages = 1 + (int)r.below(4);
  random_universe(r, u, p);
  GenParams g; g.max_depth = 2;
  auto n = random_node(r, u, 0, g);
  std::string b = encode(*n);
  op("schema %s\nbytes %s", u.show().c_str(), mon::hex(b).c_str());
  const MsgDef &d = u.msgs[0];
  pb_journal_t j = make_journal(nullptr, b);
  pb_message_t m = pb_message_create(u.desc[0], &j);
  for (auto &f : d.fields) {
    Native nv;
    std::string t = "field " + std::to_string(f.tag);
    if (f.label != PB_LABEL_REPEATED && f.type != PB_TYPE_MESSAGE) {
      pb_error_t e = pb_message_get(&m, f.tag, nv.b);
      bool there = readable(*n, f) || f.hasdef;
      want("get", e, {there ? PB_ERROR_NONE : PB_ERROR_ABSENT}, "get of " + t);
      mon::count(there ? "present" : "absent");
      // A field object of an absent field reads its default once created; read only if present.
    }
    pb_cursor_t c = pb_cursor_create(&m, f.tag);
    if (f.label == PB_LABEL_REPEATED) {
      size_t steps = 0;
      if (pb_cursor_valid(&c)) do {
        want("cursor", pb_cursor_error(&c), {PB_ERROR_NONE}, "cursor over " + t);
        if (++steps > 10000) violate("cursor:NONE", "endless");
      } while (pb_cursor_next(&c));
      want("cursor-end", pb_cursor_error(&c), {PB_ERROR_EOM}, "cursor past the end of " + t);
      if (pb_cursor_next(&c)) violate("cursor-end:EOM", "a cursor past the end advances");
      want("cursor-end", pb_cursor_error(&c), {PB_ERROR_EOM}, "cursor past the end of " + t);
      mon::count("ends");
    }
    pb_cursor_destroy(&c);
    // Tag paths through absent submessages.
    if (f.type == PB_TYPE_MESSAGE && f.label != PB_LABEL_REPEATED && !readable(*n, f))
      for (auto &k : u.msgs[(size_t)f.nested].fields) {
        if (k.label == PB_LABEL_REPEATED || k.type == PB_TYPE_MESSAGE || k.hasdef) continue;
        pb_tag_t path[] = {f.tag, k.tag};
        want("nested-get", pb_message_nested_get(&m, path, 2, nv.b), {PB_ERROR_ABSENT}, "get along a path through the absent " + t);
        mon::count("absent-paths");
        break;
      }
  }
  // Undeclared fields, invalid objects.
  uint32_t tag; do tag = random_tag(r, r.flip()) + (r.one_in(4) ? 26 + (uint32_t)r.below(1000) : 0); while (d.find(tag) || tag > (1u << 29) - 1);
  Native nv; memset(nv.b, 0, sizeof nv.b);
  pb_tag_t path[] = {tag, 1};
  want("undeclared", pb_message_get(&m, tag, nv.b), {PB_ERROR_INVALID}, "get of an undeclared field");
  want("undeclared", pb_message_put(&m, tag, nv.b), {PB_ERROR_INVALID}, "put of an undeclared field");
  want("undeclared", pb_message_erase(&m, tag), {PB_ERROR_INVALID}, "erase of an undeclared field");
  want("undeclared", pb_message_nested_put(&m, path, 2, nv.b), {PB_ERROR_INVALID}, "put along an undeclared path");
  { pb_message_t x = pb_message_create_within(&m, tag);
    want("undeclared", pb_message_error(&x), {PB_ERROR_INVALID}, "message of an undeclared field");
    if (!d.fields.empty()) {
      const FieldDef &f = r.pick(d.fields);
      if (f.type != PB_TYPE_MESSAGE) {
        want("invalid-object", pb_message_get(&x, f.tag, nv.b), {PB_ERROR_INVALID}, "get on an invalid message");
        want("invalid-object", pb_message_put(&x, f.tag, nv.b), {PB_ERROR_INVALID}, "put on an invalid message");
      }
      want("invalid-object", pb_message_erase(&x, f.tag), {PB_ERROR_INVALID}, "erase on an invalid message");
      pb_cursor_t c = pb_cursor_create(&x, f.tag);
      want("invalid-object", pb_cursor_error(&c), {PB_ERROR_INVALID}, "cursor on an invalid message");
      pb_cursor_destroy(&c);
    }
    want("invalid-object", pb_message_clear(&x), {PB_ERROR_INVALID}, "clear of an invalid message");
    pb_message_destroy(&x); }
  { pb_field_t x = pb_field_create(&m, tag);
    want("undeclared", pb_field_error(&x), {PB_ERROR_INVALID}, "field object of an undeclared field");
    want("invalid-object", pb_field_get(&x, nv.b), {PB_ERROR_INVALID}, "get through an invalid field");
    want("invalid-object", pb_field_put(&x, nv.b), {PB_ERROR_INVALID}, "put through an invalid field");
    want("invalid-object", pb_field_clear(&x), {PB_ERROR_INVALID}, "clear of an invalid field");
    pb_field_destroy(&x); }
  { pb_cursor_t x = pb_cursor_create(&m, tag);
    want("undeclared", pb_cursor_error(&x), {PB_ERROR_INVALID, PB_ERROR_EOM}, "cursor over an undeclared field");
    want("invalid-object", pb_cursor_get(&x, nv.b), {PB_ERROR_INVALID}, "get through an invalid cursor");
    want("invalid-object", pb_cursor_put(&x, nv.b), {PB_ERROR_INVALID}, "put through an invalid cursor");
    want("invalid-object", pb_cursor_erase(&x), {PB_ERROR_INVALID}, "erase through an invalid cursor");
    pb_cursor_destroy(&x); }
  // Encoder.
  { pb_encoder_t x = pb_encoder_create(u.desc[0]);
    want("undeclared", pb_encoder_encode(&x, tag, nv.b, 1), {PB_ERROR_INVALID}, "encode of an undeclared field");
    for (auto &f : d.fields) if (f.label != PB_LABEL_REPEATED && f.type != PB_TYPE_MESSAGE) {
      uint8_t two[64] = {0};
      want("surplus", pb_encoder_encode(&x, f.tag, two, 2), {PB_ERROR_INVALID}, "encode of two values of a single field");
      mon::count("surplus");
      break;
    }
    pb_encoder_destroy(&x); }
  // Invalid buffers.
  { pb_buffer_t x = pb_buffer_create_empty(); pb_buffer_destroy(&x);
    if (!pb_buffer_valid(&x)) {
      pb_validator_t v = pb_validator_create(u.desc[0]);
      want("invalid-object", pb_validator_check(&v, &x), {PB_ERROR_INVALID}, "validation of an invalid buffer");
      pb_validator_destroy(&v);
      pb_decoder_t dec = pb_decoder_create(u.desc[0], &x);
      want("invalid-object", pb_decoder_decode(&dec, descend, nullptr), {PB_ERROR_INVALID}, "decoding of an invalid buffer");
      pb_decoder_destroy(&dec);
      mon::count("invalid-buffers");
    } }
  // Ranges.
  size_t z = pb_journal_size(&j), from = r.below(z + 1);
  want("range", pb_journal_write(&j, 0, from, z + 1 + r.below(9), nv.b, r.below(5)), {PB_ERROR_OFFSET}, "write past the end of a journal");
  want("range", pb_journal_clear(&j, 0, from, z + 1 + r.below(9)), {PB_ERROR_OFFSET}, "clear past the end of a journal");
  if (std::string((const char *)pb_journal_data(&j), pb_journal_size(&j)) != b) violate("modified:", "failing calls changed the message");
  pb_message_destroy(&m);
  pb_journal_destroy(&j);
  mon::distinct(mon::fnv(b, tag));
  if (id < 1) mon::sample(u.show());
}

// Validation: missing required fields.
void required(Rng &r, uint64_t) {
  Universe u;
  Params p; p.messages = 1 + (int)r.below(3); p.recursion = false; p.required_heavy = true;
  random_universe(r, u, p);
  GenParams g; g.required_all = true; g.max_depth = 4;
  auto n = random_node(r, u, 0, g);
  std::vector<Node *> nodes; all_nodes(*n, nodes);
  Node *at = nodes[r.below(nodes.size())];
  std::vector<const FieldDef *> req;
  for (auto &f : u.msgs[(size_t)at->msg].fields)
    if (f.label == PB_LABEL_REQUIRED) for (auto &e : at->el) if (e->f == &f) { req.push_back(&f); break; }
  if (req.empty()) return;
  const FieldDef *f = req[r.below(req.size())];
  for (size_t i = 0; i < at->el.size();) if (at->el[i]->f == f) at->el.erase(at->el.begin() + (long)i); else i++;
  std::string b = encode(*n);
  op("schema %s\nwithout %u of M%d: %s", u.show().c_str(), f->tag, at->msg, mon::hex(b).c_str());
  pb_buffer_t buf = b.empty() ? pb_buffer_create_empty() : pb_buffer_create_zero_copy((uint8_t *)(uintptr_t)b.data(), b.size());
  pb_validator_t v = pb_validator_create(u.desc[0]);
  want("required", pb_validator_check(&v, &buf), {PB_ERROR_ABSENT}, "validation without a required field");
  pb_validator_destroy(&v);
  pb_buffer_destroy(&buf);
  mon::count("missing-required");
  mon::distinct(mon::fnv(b));
}

void strings(Rng &, uint64_t) {
  std::set<std::string> all;
  for (int e = PB_ERROR_NONE; e <= PB_ERROR_EOM; e++) {
    const char *s = pb_error_string((pb_error_t)e);
    if (!s || !*s) violate("string:missing", "%s has no description", code(e));
    for (const char *c = s; *c; c++) if (*c < 32 || *c > 126) violate("string:garbled", "%s is described as %s", code(e), s);
    if (!all.insert(s).second) violate("string:ambiguous", "%s shares the description %s", code(e), s);
    mon::count("descriptions");
    mon::distinct(mon::fnv(s, strlen(s)));
  }
  if (PB_ERROR_NONE != 0) violate("none:nonzero", "PB_ERROR_NONE is not zero");
}

}  // namespace

int main(int argc, char **argv) {
  return mon::main(argc, argv, {
    {"damage", damage, 16000, 800000}, {"packed", packed, 16000, 600000},
    {"memory", memory, 8000, 300000}, {"zero-copy", zero_copy, 6000, 200000},
    {"objects", objects, 12000, 400000}, {"required", required, 8000, 300000},
    {"strings", strings, 8, 8},
  });
}
