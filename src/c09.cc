// C09: length prefixes of all enclosing messages stay exact under nested edits.
#include "session.hh"
using namespace session;

static void play(Rng &r, uint64_t id, Params p, GenParams g, const Weights &w, int steps) {
  tower(r, p, g);
  Universe u;
  random_universe(r, u, p);
  Session s(r, u, g, w);
  s.run(steps);
  if (id < 2) mon::sample(u.show() + " -> " + mon::hex(s.bytes()));
}

static void nested(Rng &r, uint64_t id) {
  Params p; p.messages = 3 + (int)r.below(3); p.max_fields = 6;
  GenParams g; g.max_depth = 3 + (int)r.below(4); g.big = r.one_in(6);
  Weights w;
  w.nested = 24; w.within = 14; w.put = 14; w.put_sub = 6; w.boundary = 7; w.field_new = 6; w.msg_from_cursor = 5;
  w.max_handles = 12; w.reference = 5;
  play(r, id, p, g, w, 12 + (int)r.below(40));
}

// A chain of submessages of fixed depth; strings at chosen levels take sizes that
// put the content of one or several levels exactly around a varint boundary.
static void chain(Rng &r, uint64_t id, bool huge) {
  Universe u;
  int depth = !huge && r.one_in(8) ? 8 + (int)r.below(20) : 2 + (int)r.below(6);
  u.enums.push_back({{{0, "Z"}}});
  for (int i = 0; i < depth; i++) {
    MsgDef m;
    FieldDef a; a.tag = 1; a.type = PB_TYPE_STRING; a.name = "a"; m.fields.push_back(a);
    FieldDef b; b.tag = r.flip() ? 2 : 16 + (uint32_t)r.below(3000); b.type = PB_TYPE_MESSAGE;
    b.nested = i + 1 < depth ? i + 1 : (r.flip() ? 0 : i); b.name = "b";
    if (r.one_in(5)) b.label = PB_LABEL_REPEATED;
    m.fields.push_back(b);
    FieldDef c; c.tag = 5000; c.type = PB_TYPE_BYTES; c.name = "c"; if (r.flip()) c.label = PB_LABEL_REPEATED; m.fields.push_back(c);
    FieldDef d; d.tag = 5001; d.type = PB_TYPE_UINT64; d.name = "d"; d.label = PB_LABEL_REPEATED; d.packed = r.flip(); m.fields.push_back(d);
    u.msgs.push_back(m);
  }
  u.build();
  GenParams g; g.max_depth = depth; g.unknown = r.one_in(3); g.shuffle = r.one_in(3); g.multi = r.one_in(3);
  Weights w;
  w.boundary = 10; w.put = 24; w.within = 16; w.nested = 16; w.erase = 6; w.field_put = 14; w.field_new = 10; w.clear_msg = 2;
  w.cursor_new = 6; w.cursor_next = 6; w.cursor_put = 6; w.cursor_erase = 4; w.oneof = 0; w.put_sub = 3;
  w.max_handles = 16; w.stale = 6;
  w.huge = huge;
  Session s(r, u, g, w);
  s.run(huge ? 5 + (int)r.below(15) : 20 + (int)r.below(40));
  if (id < 1) mon::sample(u.show() + " -> " + mon::hex(s.bytes()));
}
static void cascade(Rng &r, uint64_t id) { chain(r, id, false); }
static void huge(Rng &r, uint64_t id) { chain(r, id, true); }

int main(int argc, char **argv) {
  return mon::main(argc, argv, {{"nested", nested, 4000, 150000}, {"cascade", cascade, 2500, 120000},
    {"huge", huge, 60, 1500}});
}
