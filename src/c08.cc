// C08: cursors enumerate and edit repeated fields exactly.
#include "session.hh"
using namespace session;

static void play(Rng &r, uint64_t id, Params p, GenParams g, const Weights &w, int steps) {
  tower(r, p, g);
  Universe u;
  random_universe(r, u, p);
  Session s(r, u, g, w);
  s.run(steps);
  if (id < 2) mon::sample(u.show() + " -> " + mon::hex(s.bytes()));
}

static void weights(Weights &w, Rng &r) {
  w.cursor_new = 12; w.cursor_next = 24; w.cursor_seek = 6; w.cursor_match = 5; w.cursor_put = 12; w.cursor_erase = 12;
  w.cursor_rewind = 5; w.field_from_cursor = 5; w.msg_from_cursor = 4; w.put = 8; w.erase = 1; w.clear_msg = 0; w.field_clear = 2;
  w.nested = 3; w.within = 2; w.audit = 4; w.oneof = 1; w.stale = 1 + (int)r.below(4);
}
static void cursors(Rng &r, uint64_t id) {
  Params p; p.messages = 2 + (int)r.below(3);
  GenParams g; g.max_depth = 1 + (int)r.below(3); g.big = r.one_in(20); g.empty_runs = r.one_in(3);
  Weights w; weights(w, r);
  play(r, id, p, g, w, 20 + (int)r.below(60));
}
// Scalars only: dense mixtures of packed and unpacked runs.
static void packed(Rng &r, uint64_t id) {
  Params p; p.messages = 1; p.max_fields = 1 + (int)r.below(4); p.submessages = false; p.strings = r.one_in(3);
  p.oneofs = false; p.defaults = false; p.required = false;
  GenParams g; g.max_depth = 0; g.empty_runs = r.one_in(3);
  Weights w; weights(w, r); w.max_handles = 4 + (int)r.below(6);
  play(r, id, p, g, w, 20 + (int)r.below(60));
}

int main(int argc, char **argv) {
  return mon::main(argc, argv, {{"cursors", cursors, 5000, 200000}, {"packed", packed, 5000, 200000}});
}
