// C06: writing a field changes that field only, and reads back.
#include "session.hh"
using namespace session;

static void play(Rng &r, uint64_t id, Params p, GenParams g, const Weights &w, int steps) {
  tower(r, p, g);
  Universe u;
  random_universe(r, u, p);
  Session s(r, u, g, w);
  s.run(steps);
  if (id < 2) mon::sample(u.show() + " -> " + mon::hex(s.bytes()));
}

static void writes(Rng &r, uint64_t id) {
  Params p; p.messages = 3 + (int)r.below(3);
  GenParams g; g.max_depth = 1 + (int)r.below(4); g.big = r.one_in(10); g.empty_runs = r.one_in(5);
  Weights w;
  w.erase = 1; w.clear_msg = 0; w.field_clear = 0; w.cursor_erase = 0; w.oneof = 1;
  w.put = 16; w.field_put = 10; w.reference = 3;
  play(r, id, p, g, w, 10 + (int)r.below(50));
}
// From an empty buffer: insertion among neighbours in tag order.
static void grow(Rng &r, uint64_t id) {
  Params p; p.messages = 2 + (int)r.below(3); p.max_fields = 5 + (int)r.below(10);
  GenParams g; g.max_depth = 0; g.shuffle = false; g.multi = false; g.unknown = r.flip();
  Weights w;
  w.erase = 2; w.clear_msg = 0; w.put = 24; w.field_new = 10; w.within = 8; w.reference = 2; w.boundary = 1;
  play(r, id, p, g, w, 10 + (int)r.below(40));
}
// Many long strings: values straddling length-varint boundaries.
static void strings(Rng &r, uint64_t id) {
  Params p; p.messages = 3; p.max_fields = 6; p.oneofs = r.flip();
  GenParams g; g.max_depth = 3; g.big = true;
  Weights w;
  w.put = 20; w.field_put = 20; w.field_new = 10; w.erase = 1; w.clear_msg = 0; w.boundary = 9; w.reference = 4;
  play(r, id, p, g, w, 10 + (int)r.below(25));
}
// Contents on either side of 2 MiB, where length prefixes take a fourth byte.
static void huge(Rng &r, uint64_t id) {
  Params p; p.messages = 2 + (int)r.below(2); p.max_fields = 5; p.wide = 0;
  GenParams g; g.max_depth = 2;
  Weights w;
  w.put = 20; w.field_put = 10; w.field_new = 6; w.nested = 10; w.within = 6; w.erase = 5; w.boundary = 8; w.huge = true; w.audit = 1;
  play(r, id, p, g, w, 6 + (int)r.below(12));
}

int main(int argc, char **argv) {
  return mon::main(argc, argv, {{"writes", writes, 5000, 200000}, {"grow", grow, 2500, 100000}, {"strings", strings, 1200, 60000},
    {"huge", huge, 60, 1500}});
}
