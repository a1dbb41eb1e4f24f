// C23: a field of type bytes can be used as the message it holds.
#include "session.hh"
using namespace session;

static void play(Rng &r, uint64_t id, Universe &u, const GenParams &g, Weights w, int steps) {
  Session s(r, u, g, w);
  s.run(steps);
  if (id < 2) mon::sample(u.show() + " -> " + mon::hex(s.bytes()));
}

// Any mix of declared submessages and ones in bytes fields.
static void mixed(Rng &r, uint64_t id) {
  Params p; p.messages = 3 + (int)r.below(3); p.max_fields = 7; p.opaque = true;
  GenParams g; g.max_depth = 2 + (int)r.below(4); g.big = r.one_in(8);
  Weights w;
  w.within = 14; w.nested = 10; w.put = 14; w.put_sub = 5; w.boundary = 5; w.msg_from_cursor = 6;
  w.field_new = 6; w.cursor_new = 7; w.max_handles = 14; w.reference = 8; w.msg_from_field = 6;
  Universe u;
  random_universe(r, u, p);
  play(r, id, u, g, w, 12 + (int)r.below(40));
}

// Chains of messages in bytes fields within one another, with sizes around the
// boundaries of length prefixes.
static void chain(Rng &r, uint64_t id) {
  Universe u;
  int depth = 2 + (int)r.below(4);
  u.enums.push_back({{{0, "Z"}}});
  for (int i = 0; i < depth; i++) {
    MsgDef m;
    FieldDef a; a.tag = 1; a.type = PB_TYPE_STRING; a.name = "a"; m.fields.push_back(a);
    FieldDef b; b.tag = r.flip() ? 2 : 16 + (uint32_t)r.below(3000); b.type = PB_TYPE_MESSAGE; b.opaque = !r.one_in(4);
    b.nested = i + 1 < depth ? i + 1 : (r.flip() ? 0 : i); b.name = "b";
    if (r.one_in(4)) b.label = PB_LABEL_REPEATED;
    m.fields.push_back(b);
    FieldDef c; c.tag = 5000; c.type = PB_TYPE_BYTES; c.name = "c"; if (r.flip()) c.label = PB_LABEL_REPEATED; m.fields.push_back(c);
    FieldDef d; d.tag = 5001; d.type = PB_TYPE_SINT64; d.name = "d"; d.label = PB_LABEL_REPEATED; d.packed = r.flip(); m.fields.push_back(d);
    u.msgs.push_back(m);
  }
  u.build();
  GenParams g; g.max_depth = depth; g.unknown = r.one_in(3); g.shuffle = r.one_in(3); g.multi = r.one_in(3);
  Weights w;
  w.boundary = 10; w.put = 24; w.within = 18; w.nested = 6; w.erase = 6; w.field_put = 12; w.field_new = 10; w.clear_msg = 3;
  w.cursor_new = 8; w.cursor_next = 7; w.cursor_put = 7; w.cursor_erase = 4; w.oneof = 0; w.put_sub = 4; w.msg_from_cursor = 7;
  w.max_handles = 16; w.stale = 4 + (int)r.below(20); w.msg_from_field = 6;
  play(r, id, u, g, w, 20 + (int)r.below(40));
}

// Reading through messages in bytes fields changes nothing.
static void reading(Rng &r, uint64_t id) {
  Params p; p.messages = 3; p.max_fields = 8; p.opaque = true;
  Universe u;
  random_universe(r, u, p);
  Weights w;
  w.put = w.put_sub = w.erase = w.within = w.clear_msg = w.field_new = w.field_put = w.field_clear = 0;
  w.cursor_put = w.cursor_erase = 0; w.readonly = true; w.msg_from_cursor = 10; w.cursor_new = 12; w.audit = 6; w.stale = 1; w.msg_from_field = 8;
  GenParams g;
  play(r, id, u, g, w, 15);
}

int main(int argc, char **argv) {
  return mon::main(argc, argv, {{"mixed", mixed, 5000, 200000}, {"chain", chain, 2500, 120000},
    {"reading", reading, 1500, 40000}});
}
