// C12: failing allocations at every request of every editing operation.
//
// One case replays the same session prefix once per allocation request of one
// operation: first without a fault (giving the result R and the journal content at
// every request), then with exactly that request denied, or it and all later ones.
#include "act.hh"

namespace {

struct World {
  Rng r; Universe u;
  std::unique_ptr<Session> s;
  World(uint64_t seed, int depth, int steps) : r(seed) {
    Params p; p.messages = 2 + (int)r.below(3); p.max_fields = 6;
    random_universe(r, u, p);
    GenParams g; g.max_depth = 1 + depth; g.big = r.one_in(12); g.crowd = 0;
    Weights w; w.max_handles = 8; w.stale = 4; w.audit = 0; w.read = 1;
    w.within = w.nested = 3 + depth; w.field_new = 4; w.cursor_new = 5; w.msg_from_cursor = 2; w.boundary = 4;
    s = std::make_unique<Session>(r, u, g, w);
    for (int i = 0; i < steps; i++) s->step();
    for (auto &h : s->hs) s->verify(*h);
    // One handle of each kind, if possible.
    if (!s->pick(H_MSG, true)) s->add_root();
    if (!s->pick(H_ONEOF, true)) s->op_oneof();
  }
};

void sweep(Rng &r, uint64_t id, int depth, int steps) {
  uint64_t seed = r.next(), aseed = r.next();
  Ledger l, l2;
  g_l = &l; g_l2 = &l2; g_alloc = &l.a; g_alloc2 = &l2.a;
  std::string initial, result, answers;
  std::vector<std::string> at;     // journal content at each request
  const char *name = "";
  // Without a fault.
  {
    World w(seed, depth, steps);
    Session &s = *w.s;
    Act a(s, aseed);
    if (a.op < 0) return;
    name = NAMES[a.op];
    initial = s.bytes();
    // (While a block shrinks the content is in motion: denying that must not show it.)
    l.on_request = [&] { at.push_back(!l.shrinking ? s.bytes() : at.empty() ? initial : at.back()); };
    mon::op("=== %s on h%d, tag %u, value %s %s", name, a.h->id, a.f ? a.f->tag : 0, a.v.show().c_str(), mon::hex(a.sub).c_str());
    pb_error_t e = a.perform();
    l.on_request = nullptr;
    if (e && a.op == NERASE && s.bytes() == initial) return;     // nothing to erase
    if (e) violate("fails-without-fault", "%s fails with error %d", name, e);
    result = s.bytes();
    answers = observe(s, a.h);
  }
  l.expect_empty("after a session without faults");
  mon::count("operations");
  mon::count((std::string("op:") + name).c_str());
  mon::distinct(mon::fnv(initial, mon::fnv(result, strlen(name))));
  if (id < 2) mon::sample(std::string(name) + ": " + mon::hex(initial) + " -> " + mon::hex(result) + ", " + std::to_string(at.size()) + " requests");
  size_t n = at.size();
  size_t stride = n > 24 ? n / 24 : 1;
  for (size_t k = 1; k <= n; k += k < 8 ? 1 : stride) for (int rest = 0; rest < 2; rest++) {
    World w(seed, depth, steps);
    Session &s = *w.s;
    Act a(s, aseed);
    if (s.bytes() != initial) mon::harness_bug("replay differs");
    std::string before = observe(s, a.h);
    mon::op("=== %s, deny request %zu of %zu%s", name, k, n, rest ? " and all later ones" : "");
    uint64_t denied = l.denied;
    pb_error_t e = a.perform(k, rest);
    if (l.denied == denied) violate("nondeterministic", "request %zu of %s never happens", k, name);
    std::string now = s.bytes();
    mon::count("faults");
    mon::distinct(mon::fnv(now, k * 2 + (size_t)rest + 1000 * strlen(name)));
    if (pb_journal_error(&s.j)) violate("journal-invalid", "%s: the journal became invalid", name);
    if (!e) {
      mon::count("tolerated-faults");
      if (now != result) violate((std::string("pretends-success:") + name).c_str(),
        "%s reports success although request %zu was denied\n got %s\nwant %s", name, k, mon::hex(now).c_str(), mon::hex(result).c_str());
      std::string o = observe(s, a.h);
      if (o != answers) violate((std::string("handles-after-tolerated-fault:") + name).c_str(),
        "%s: other handles answer\n%sinstead of\n%s", name, o.c_str(), answers.c_str());
      continue;
    }
    if (now != initial) {
      // The operation stopped half way.
      if (now == result) { mon::count("late-errors"); observe(s, nullptr); continue; }
      if (std::find(at.begin() + (long)k - 1, rest ? at.end() : at.begin() + (long)k, now) == (rest ? at.end() : at.begin() + (long)k)) violate((std::string("corrupted:") + name).c_str(),
        "%s fails at request %zu of %zu and leaves\n    %s\n was %s\nwant %s\nthen %s", name, k, n, mon::hex(now).c_str(),
        mon::hex(initial).c_str(), mon::hex(result).c_str(), mon::hex(at[k - 1]).c_str());
      mon::count("half-done");
      mon::report(std::string("half-done:") + name, std::string(name) + " fails with error " + std::to_string((int)e) +
        " at request " + std::to_string(k) + " of " + std::to_string(n) + " and leaves\n " + mon::hex(now) +
        "\n was " + mon::hex(initial));
#ifndef MON_ASSERTS
      observe(s, nullptr);     // no crash, no hang
#endif
      continue;
    }
    mon::count("clean-failures");
    // Nothing happened: every other handle still denotes what it denoted.
    std::string o = observe(s, a.h);
    if (o != before) violate((std::string("handles-after-fault:") + name).c_str(),
      "%s fails at request %zu; other handles answer\n%sinstead of\n%s", name, k, o.c_str(), before.c_str());
    if (!valid(*a.h)) {
      mon::count("handles-lost");
      s.drop(a.h);
      s.run(3);
      continue;
    }
    if (rest) {      // further failures, then success
      for (int i = (int)w.r.below(3); i > 0; i--) {
        pb_error_t e2 = a.perform(1, true);
        if (!e2) violate("pretends-success", "%s succeeds when repeated without memory", name);
        if (s.bytes() != initial) violate("corrupted-by-repetition", "%s", name);
        mon::count("repeated-failures");
        if (!valid(*a.h)) break;
      }
      if (!valid(*a.h)) { s.drop(a.h); s.run(3); continue; }
    }
    if (w.r.flip()) { s.run(4); mon::count("continued-sessions"); continue; }
    e = a.perform();
    if (e) violate((std::string("retry-fails:") + name).c_str(), "%s fails with error %d when repeated with memory", name, e);
    if (s.bytes() != result) violate((std::string("retry-differs:") + name).c_str(), "%s repeated\n got %s\nwant %s", name,
      mon::hex(s.bytes()).c_str(), mon::hex(result).c_str());
    o = observe(s, a.h);
    if (o != answers) violate((std::string("handles-after-retry:") + name).c_str(),
      "%s repeated: other handles answer\n%sinstead of\n%s", name, o.c_str(), answers.c_str());
    mon::count("retries");
  }
  l.expect_empty("after sessions with faults");
  l2.expect_empty("after sessions with faults");
  g_alloc = g_alloc2 = nullptr;
}
void flat(Rng &r, uint64_t id) { sweep(r, id, 0, (int)r.below(6)); }
void deep(Rng &r, uint64_t id) { sweep(r, id, 1 + (int)r.below(3), 4 + (int)r.below(16)); }

// Creation without memory: invalid objects, inert, destroyed safely.
void create(Rng &r, uint64_t) {
  Ledger l;
  Universe u;
  Params p; p.messages = 2;
  random_universe(r, u, p);
  std::string b(1 + r.below(50), 'x');
  l.arm(1, r.flip());
  switch (r.below(2)) {
    case 0: {
      pb_journal_t j = pb_journal_create_with_allocator(&l.a, (const uint8_t *)b.data(), b.size());
      l.disarm();
      if (pb_journal_valid(&j) || !pb_journal_error(&j)) violate("pretends-success:journal", "journal without memory is valid");
      pb_message_t m = pb_message_create(u.desc[0], &j);
      if (pb_message_valid(&m)) violate("pretends-success:message", "message on an invalid journal is valid");
      for (auto &f : u.msgs[0].fields) {
        if (pb_message_has(&m, f.tag)) violate("pretends-success:message", "has on an invalid message");
        if (!pb_message_put(&m, f.tag, Native().b) && true) violate("pretends-success:message", "put on an invalid message");
      }
      pb_message_destroy(&m);
      pb_journal_destroy(&j);
      break;
    }
    case 1: {
      // an empty journal takes no memory; its first write fails cleanly
      pb_journal_t j = pb_journal_create_empty_with_allocator(&l.a);
      if (l.requests) violate("empty-allocates", "an empty journal takes memory");
      pb_message_t m = pb_message_create(u.desc[0], &j);
      for (auto &f : u.msgs[0].fields) if (f.type != PB_TYPE_MESSAGE) {
        Native n; to_native(field_val(r, u, f), n);
        l.arm(1, true);
        if (!pb_message_put(&m, f.tag, n.b)) violate("pretends-success:put", "put without memory succeeds");
        l.disarm();
        if (pb_journal_size(&j)) violate("corrupted:put", "put without memory leaves %zu bytes", pb_journal_size(&j));
        if (!pb_message_valid(&m)) { pb_message_destroy(&m); m = pb_message_create(u.desc[0], &j); }
      }
      pb_message_destroy(&m);
      pb_journal_destroy(&j);
      break;
    }
  }
  l.disarm();
  mon::count("creations");
  mon::distinct(mon::fnv(b, l.requests));
  l.expect_empty("after failed creations");
}

// Encoders: one call after 0 to 3 others, denied at every request; the output stays,
// and the call works as soon as there is memory.
void encoders(Rng &r, uint64_t) {
  Universe u; u.msgs.resize(2);
  static const uint32_t TAGS[] = {1u, 15u, 16u, 2047u, 2048u, 100000u, (1u << 29) - 1};
  FieldDef f; f.tag = r.pick(TAGS); f.name = "f";
  f.type = r.one_in(5) ? PB_TYPE_MESSAGE : ALL_TYPES[r.below(16)];
  if (f.type == PB_TYPE_ENUM) f.type = PB_TYPE_INT32;
  if (f.type == PB_TYPE_MESSAGE) f.nested = 1;
  f.label = r.flip() ? PB_LABEL_REPEATED : PB_LABEL_OPTIONAL;
  f.packed = f.label == PB_LABEL_REPEATED && wiretype(f.type) != WT_LEN && r.flip();
  u.msgs[0].fields.push_back(f);
  FieldDef c; c.tag = 1; c.name = "c"; c.type = PB_TYPE_BYTES; u.msgs[1].fields.push_back(c);
  u.build();
  Ledger l;
  auto content = [](pb_encoder_t &x) { const pb_buffer_t *b = pb_encoder_buffer(&x);
    return std::string((const char *)pb_buffer_data(b), pb_buffer_size(b)); };
  size_t n = f.label == PB_LABEL_REPEATED ? 1 + r.below(5) : 1;
  std::vector<Val> vals; std::vector<std::vector<uint8_t>> keep; std::vector<uint8_t> nat;
  std::vector<pb_encoder_t> subs;
  vals.reserve(n);
  for (size_t i = 0; i < n; i++) {
    if (f.type == PB_TYPE_MESSAGE) {
      subs.push_back(pb_encoder_create(u.desc[1]));
      Val v = random_val(r, PB_TYPE_BYTES); Native x; to_native(v, x);
      if (r.flip() && pb_encoder_encode(&subs.back(), 1, x.b, 1)) mon::harness_bug("encode");
      continue;
    }
    vals.push_back(random_val(r, f.type));
    Native x; to_native(vals.back(), x);
    nat.insert(nat.end(), x.b, x.b + native_size(f.type));
  }
  const void *p = subs.empty() ? (const void *)nat.data() : subs.data();
  int before = (int)r.below(4);
  std::string result, initial;
  uint64_t requests = 0;
  for (uint64_t k = 0; k <= requests; k++) for (int rest = 0; rest < (k ? 2 : 1); rest++) {
    pb_encoder_t x = pb_encoder_create_with_allocator(&l.a, u.desc[0]);
    for (int i = 0; i < before; i++) if (pb_encoder_encode(&x, f.tag, p, i & 1 ? 1 : n)) violate("fails-without-fault", "encode fails");
    if (!k) initial = content(x);
    else if (content(x) != initial) violate("encode-differs", "the same calls give other bytes");
    uint64_t start = l.requests, denied = l.denied;
    l.arm(k, rest);
    pb_error_t e = pb_encoder_encode(&x, f.tag, p, n);
    l.disarm();
    if (!k) {
      if (e) violate("fails-without-fault", "encode fails with error %d", e);
      result = content(x); requests = l.requests - start;
    } else {
      mon::count("encoder-faults");
      mon::distinct(mon::fnv(result, k * 2 + (uint64_t)rest));
      if (l.denied == denied) violate("nondeterministic", "request %zu of encode never happens", (size_t)k);
      if (!e) violate("pretends-success:encode", "encode reports success although request %zu was denied", (size_t)k);
      if (!pb_encoder_valid(&x)) violate("encoder-invalid", "the encoder became invalid");
      if (content(x) != initial) violate("corrupted:encode", "encode of %zu values of %s fails at request %zu of %zu and leaves\n    %s\n was %s",
        n, type_name(f.type), (size_t)k, (size_t)requests, mon::hex(content(x)).c_str(), mon::hex(initial).c_str());
      e = pb_encoder_encode(&x, f.tag, p, n);
      if (e || content(x) != result) violate("retry-differs:encode", "encode repeated: error %d\n got %s\nwant %s", e,
        mon::hex(content(x)).c_str(), mon::hex(result).c_str());
    }
    pb_encoder_destroy(&x);
    l.expect_empty("after encoding");
  }
  for (auto &x : subs) pb_encoder_destroy(&x);
}

// Buffers and journals: one splice denied at every request.
void splices(Rng &r, uint64_t) {
  Ledger l;
  std::string b(1 + r.below(r.one_in(4) ? 5000 : 60), 0), d(r.below(r.one_in(4) ? 5000 : 40), 0);
  for (auto &ch : b) ch = (char)r.next();
  for (auto &ch : d) ch = (char)r.next();
  size_t start = r.below(b.size() + 1), end = start + r.below(b.size() - start + 1);
  if (r.one_in(6)) { start = 0; end = b.size(); }
  bool journal = r.flip(), clear = r.one_in(3);
  if (clear) d.clear();
  std::string result = b.substr(0, start) + d + b.substr(end);
  int earlier = journal ? (int)r.below(3) : 0;
  uint64_t requests = 0;
  for (uint64_t k = 0; k <= requests; k++) for (int rest = 0; rest < (k ? 2 : 1); rest++) {
    pb_journal_t j; pb_buffer_t x;
    if (journal) j = pb_journal_create_with_allocator(&l.a, (const uint8_t *)b.data(), b.size());
    else x = pb_buffer_create_with_allocator(&l.a, (const uint8_t *)b.data(), b.size());
    for (int i = 0; i < earlier; i++) {     // earlier entries of the journal
      uint8_t z = 0;
      if (pb_journal_write(&j, 0, 0, 0, &z, 1) || pb_journal_clear(&j, 0, 0, 1)) violate("fails-without-fault", "journal write");
    }
    auto content = [&] { const pb_buffer_t *y = journal ? pb_journal_buffer(&j) : &x;
      return std::string((const char *)pb_buffer_data(y), pb_buffer_size(y)); };
    auto perform = [&] {
      const uint8_t *q = (const uint8_t *)d.data();
      return journal ? clear ? pb_journal_clear(&j, start, start, end) : pb_journal_write(&j, start, start, end, q, d.size())
                     : clear ? pb_buffer_clear(&x, start, end) : pb_buffer_write(&x, start, end, q, d.size()); };
    pb_version_t version = journal ? pb_journal_version(&j) : 0;
    uint64_t from = l.requests;
    l.arm(k, rest);
    pb_error_t e = perform();
    l.disarm();
    if (!k) { requests = l.requests - from; if (e) violate("fails-without-fault", "splice fails with error %d", e); }
    else mon::count("splice-faults");
    mon::distinct(mon::fnv(result, k * 2 + (uint64_t)rest));
    std::string now = content();
    if (now != (e ? b : result)) violate(e ? "corrupted:splice" : "pretends-success:splice", "%s%s [%zu,%zu) -> %zu bytes: error %d at request %zu\n got %s\nwant %s",
      journal ? "journal" : "buffer", clear ? " clear" : "", start, end, d.size(), e, (size_t)k, mon::hex(now).c_str(), mon::hex(e ? b : result).c_str());
    if (e && result.size() > b.size() && e != PB_ERROR_ALLOC) violate("splice-error", "error %d", e);
    if (e && journal && pb_journal_version(&j) != version) violate("splice-version", "a failed change is recorded in the journal");
    if (e && (perform() || content() != result)) violate("retry-differs:splice", "splice repeated");
    if (journal) pb_journal_destroy(&j); else pb_buffer_destroy(&x);
    l.expect_empty("after a splice");
  }
}

}  // namespace

int main(int argc, char **argv) {
  return mon::main(argc, argv, {{"flat", flat, 4000, 200000}, {"deep", deep, 4000, 200000}, {"create", create, 2000, 50000},
    {"encoders", encoders, 4000, 200000}, {"splices", splices, 4000, 200000}});
}
