// C11: at most one member of a oneof group counts, and writing sets exactly it.
#include "session.hh"
using namespace session;

static void play(Rng &r, uint64_t id, const Params &p, const GenParams &g, const Weights &w, int steps) {
  Universe u;
  random_universe(r, u, p);
  Session s(r, u, g, w);
  s.run(steps);
  if (id < 2) mon::sample(u.show() + " -> " + mon::hex(s.bytes()));
}

static void oneofs(Rng &r, uint64_t id) {
  Universe u;
  u.enums.push_back({{{0, "Z"}, {1, "A"}, {7, "B"}}});
  int nm = 2 + (int)r.below(2);
  bool wide = r.one_in(60);
  if (wide) mon::count("wide-oneofs");
  for (int i = 0; i < nm; i++) {
    MsgDef m; m.oneofs = 1 + (int)r.below(3);
    std::set<uint32_t> tags;
    int nf = wide && !i ? 60 + (int)r.below(150) : 4 + (int)r.below(8);
    for (int k = 0; k < nf; k++) {
      FieldDef f;
      do f.tag = tags.size() > 8 && r.flip() ? 1 + (uint32_t)r.below(std::max<size_t>(40, 2 * tags.size())) : random_tag(r, r.one_in(4)); while (tags.count(f.tag));
      tags.insert(f.tag);
      f.name = "f" + std::to_string(f.tag);
      switch (wide && !i && r.below(10) ? 1 + r.below(3) : r.below(4)) {
        case 0: f.type = PB_TYPE_MESSAGE; f.nested = wide ? 1 + (int)r.below((uint64_t)nm - 1) : (int)r.below((uint64_t)nm); break;
        case 1: f.type = r.flip() ? PB_TYPE_STRING : PB_TYPE_BYTES; break;
        default: f.type = ALL_TYPES[r.below(N_SCALAR)];
      }
      if (f.type == PB_TYPE_ENUM) f.enumidx = 0;
      if (!r.one_in(4)) { f.label = PB_LABEL_ONEOF; f.oneof = (int)r.below((uint64_t)m.oneofs); }
      else if (r.flip()) { f.label = PB_LABEL_REPEATED; if (wiretype(f.type) != WT_LEN) f.packed = r.flip(); }
      m.fields.push_back(f);
    }
    std::sort(m.fields.begin(), m.fields.end(), [](const FieldDef &a, const FieldDef &b) { return a.tag < b.tag; });
    u.msgs.push_back(m);
  }
  u.build();
  GenParams g; g.max_depth = 1 + (int)r.below(3); g.multi_oneof = r.flip(); g.shuffle = r.flip(); g.unknown = r.flip();
  Weights w;
  w.oneof = 16; w.put = 16; w.put_sub = 8; w.within = 8; w.erase = 5; w.field_new = 8; w.field_clear = 3; w.audit = 4;
  w.nested = 8; w.reference = 3; w.stale = r.flip() ? 3 : 12;
  Session s(r, u, g, w);
  s.run(15 + (int)r.below(40));
  if (id < 1) mon::sample(u.show() + " -> " + mon::hex(s.bytes()));
}

int main(int argc, char **argv) {
  return mon::main(argc, argv, {{"oneofs", oneofs, 6000, 250000}});
}
