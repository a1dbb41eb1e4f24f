// C07: erasing and clearing remove exactly the addressed field.
#include "session.hh"
using namespace session;

static void play(Rng &r, uint64_t id, Params p, GenParams g, const Weights &w, int steps) {
  tower(r, p, g);
  Universe u;
  random_universe(r, u, p);
  Session s(r, u, g, w);
  s.run(steps);
  if (id < 2) mon::sample(u.show() + " -> " + mon::hex(s.bytes()));
}

static void erases(Rng &r, uint64_t id) {
  Params p; p.messages = 3 + (int)r.below(3); p.max_fields = 4 + (int)r.below(8);
  GenParams g; g.max_depth = 1 + (int)r.below(4); g.big = r.one_in(10); g.empty_runs = r.one_in(4);
  Weights w;
  w.erase = 22; w.clear_msg = 5; w.field_clear = 10; w.field_new = 10; w.cursor_erase = 10; w.cursor_new = 10;
  w.field_from_cursor = 8; w.oneof = 4; w.put = 6; w.field_put = 2; w.cursor_put = 2; w.reference = 5;
  play(r, id, p, g, w, 10 + (int)r.below(40));
}
// Contents around 127/128 and 16383/16384 bytes, so that removal shrinks prefixes.
static void shrink(Rng &r, uint64_t id) {
  Params p; p.messages = 3; p.max_fields = 6; p.extensions = false;
  GenParams g; g.max_depth = 4; g.big = true; g.multi = true;
  Weights w;
  w.erase = 16; w.clear_msg = 4; w.field_clear = 6; w.cursor_erase = 6; w.put = 16; w.boundary = 10; w.within = 6; w.nested = 8;
  play(r, id, p, g, w, 10 + (int)r.below(30));
}

int main(int argc, char **argv) {
  return mon::main(argc, argv, {{"erases", erases, 6000, 200000}, {"shrink", shrink, 1200, 60000}});
}
