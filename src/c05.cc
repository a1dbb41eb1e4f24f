// C05: reads return what the bytes say and change nothing.
#include "session.hh"
using namespace session;

static void play(Rng &r, uint64_t id, Params p, GenParams g, const Weights &w, int steps) {
  tower(r, p, g);
  Universe u;
  random_universe(r, u, p);
  Session s(r, u, g, w);
  s.run(steps);
  if (id < 2) mon::sample(u.show() + " -> " + mon::hex(s.bytes()));
}

static void reads(Rng &r, uint64_t id) {
  Params p; p.messages = 2 + (int)r.below(4); p.max_fields = 4 + (int)r.below(8);
  GenParams g; g.max_depth = 1 + (int)r.below(5); g.big = r.one_in(10); g.empty_runs = r.one_in(3);
  Weights w;
  w.readonly = true; w.reference = 4;
  w.put = w.put_sub = w.erase = w.within = w.clear_msg = w.field_new = w.field_put = w.field_clear =
    w.cursor_put = w.cursor_erase = 0;
  w.nested = 12; w.read = 12; w.audit = 4; w.cursor_new = 8;
  play(r, id, p, g, w, 15 + (int)r.below(30));
}
// Fields of one type only, with defaults, repeated on the wire.
static void defaults(Rng &r, uint64_t id) {
  Params p; p.messages = 2; p.max_fields = 10; p.submessages = r.flip(); p.big_tags = r.flip();
  GenParams g; g.max_depth = 1; g.empty_runs = r.flip();
  Weights w;
  w.readonly = true;
  w.put = w.put_sub = w.erase = w.within = w.clear_msg = w.field_new = w.field_put = w.field_clear =
    w.cursor_put = w.cursor_erase = 0;
  w.read = 20; w.audit = 5; w.nested = 2;
  play(r, id, p, g, w, 12);
}

int main(int argc, char **argv) {
  return mon::main(argc, argv, {{"reads", reads, 6000, 250000}, {"defaults", defaults, 3000, 100000}});
}
