// Single editing operations on handles of a session, performed without the model.
#ifndef ACT_HH
#define ACT_HH
#include "session.hh"
#include "alloc.hh"
using namespace session;

namespace {

Ledger *g_l, *g_l2;     // allocators of the session and of sources, if any
pb_journal_t make_source(const std::string &b) { return make_journal(g_l2 ? &g_l2->a : nullptr, b); }

const char *NAMES[] = {"put", "put-message", "erase", "clear", "create-within",
  "nested-put", "nested-erase", "create-nested", "field-create", "field-create-nested",
  "cursor-create-nested", "field-put", "field-clear", "cursor-put", "cursor-put-message",
  "cursor-erase", "oneof-clear"};
enum { PUT, PUT_MSG, ERASE, CLEAR, WITHIN, NPUT, NERASE, NCREATE, FCREATE, FNESTED,
       CNESTED, FPUT, FCLEAR, CPUT, CPUT_MSG, CERASE, OCLEAR, OPS };

// An operation on a handle of a session, chosen by a generator of its own so that
// it is the same in every replay.
struct Act {
  Session &s;
  int op = -1;
  Handle *h = nullptr;
  const FieldDef *f = nullptr;
  std::vector<pb_tag_t> tags;
  Val v; Native nv;
  std::string sub;

  Act(Session &s_, uint64_t seed) : s(s_) {
    Rng r(seed), keep = s.r;
    s.r = r;
    for (int i = 0; i < 40 && !choose(s.r); i++) op = -1;
    s.r = keep;
    if (op < 0) return;
    to_native(v, nv);
  }
  bool choose(Rng &r) {
    op = (int)r.below(OPS);
    tags.clear(); f = nullptr; sub.clear();
    auto field = [&](std::function<bool(const FieldDef &)> ok) {
      h = s.pick(H_MSG, true);
      return h && (f = s.any_field(h->node, ok));
    };
    auto scalar = [](const FieldDef &x) { return x.type != PB_TYPE_MESSAGE; };
    auto message = [](const FieldDef &x) { return x.type == PB_TYPE_MESSAGE; };
    auto any = [](const FieldDef &) { return true; };
    auto nested = [&](std::function<bool(const FieldDef &)> ok) {
      h = s.pick(H_MSG, true);
      std::vector<const FieldDef *> fs;
      tags.clear();
      if (!h || !s.path(h->node, tags, fs, ok)) return false;
      f = fs.back();
      return true;
    };
    auto content = [&](int msg) {
      GenParams g; g.max_depth = 2;
      sub = encode(*random_node(r, s.u, msg, g, 1));
    };
    switch (op) {
      case PUT: if (!field(scalar)) return false; v = s.value_for(h->node, *f); return true;
      case PUT_MSG: if (!field(message)) return false; content(f->nested); return true;
      case ERASE: return field(any);
      case CLEAR: {         // mostly nested ones
        h = s.pick(H_MSG, true);
        for (int i = 0; i < 6 && h && !h->node->owner; i++) h = s.pick(H_MSG, true);
        for (int i = 0; i < 3 && h && (!h->node->owner || !h->node->owner->parent->owner); i++) h = s.pick(H_MSG, true);
        return h;
      }
      case WITHIN: return field(message);
      case NPUT: if (!nested(scalar)) return false; v = s.value_for(h->node, *f); return true;
      case NERASE: return nested(any);
      case NCREATE: return nested(message);
      case FCREATE: return field(scalar);
      case FNESTED: return nested(scalar);
      case CNESTED: return nested([](const FieldDef &x) { return x.label == PB_LABEL_REPEATED; });
      case FPUT: case FCLEAR:
        h = s.pick(H_FIELD, true);
        if (!h) return false;
        if (op == FPUT) v = s.value_for(h->elem->parent, *h->elem->f);
        return true;
      case CPUT: case CPUT_MSG: case CERASE: {
        h = s.pick(H_CURSOR, true);
        if (!h || h->eom || h->cur_dead()) return false;
        bool m = h->elem->kind == Elem::MSG;
        if ((op == CPUT && m) || (op == CPUT_MSG && !m)) return false;
        if (op == CPUT) v = s.value_for(h->node, *h->elem->f);
        if (op == CPUT_MSG) content(h->elem->f->nested);
        return true;
      }
      case OCLEAR: h = s.pick(H_ONEOF, true); return h;
    }
    return false;
  }
  // Perform it; returns the error, or that of the object it yields.
  template <class T> static pb_error_t yield(T &x, pb_error_t (*error)(const T *), void (*destroy)(T *), int (*get)(T *)) {
    pb_error_t e = error(&x);
    if (get) get(&x);
    destroy(&x);
    return e;
  }
  pb_error_t perform(uint64_t arm = 0, bool rest = false) {
    pb_journal_t j2; pb_message_t m2;
    bool src = op == PUT_MSG || op == CPUT_MSG;
    if (src) {
      j2 = make_source(sub);
      m2 = pb_message_create(s.u.desc[(size_t)(op == PUT_MSG ? f->nested : h->elem->f->nested)], &j2);
    }
    if (g_l) g_l->arm(arm, rest);
    pb_error_t e = run(src ? &m2 : nullptr);
    if (g_l) g_l->disarm();
    if (src) {
      if (std::string((const char *)pb_journal_data(&j2), pb_journal_size(&j2)) != sub)
        violate("source-modified", "%s changed the message it reads", NAMES[op]);
      pb_message_destroy(&m2); pb_journal_destroy(&j2);
      if (g_l2) g_l2->expect_empty("source of a submessage");
    }
    return e;
  }
  pb_error_t run(pb_message_t *src) {
    size_t n = tags.size();
    pb_tag_t *t = tags.data();
    auto msg = [](pb_message_t m) {
      pb_error_t e = pb_message_error(&m);
      Session::expect("validity", !!e == !pb_message_valid(&m), "message: error %d but valid %d", e, pb_message_valid(&m));
      pb_message_destroy(&m); return e;
    };
    auto fld = [](pb_field_t m) {
      pb_error_t e = pb_field_error(&m);
      Session::expect("validity", !!e == !pb_field_valid(&m), "field: error %d but valid %d", e, pb_field_valid(&m));
      pb_field_destroy(&m); return e;
    };
    switch (op) {
      case PUT: return pb_message_put(&h->m, f->tag, nv.b);
      case PUT_MSG: return pb_message_put(&h->m, f->tag, src);
      case ERASE: return pb_message_erase(&h->m, f->tag);
      case CLEAR: return pb_message_clear(&h->m);
      case WITHIN: return msg(pb_message_create_within(&h->m, f->tag));
      case NPUT: return pb_message_nested_put(&h->m, t, n, nv.b);
      case NERASE: return pb_message_nested_erase(&h->m, t, n);
      case NCREATE: return msg(pb_message_create_nested(&h->m, t, n));
      case FCREATE: return fld(pb_field_create(&h->m, f->tag));
      case FNESTED: return fld(pb_field_create_nested(&h->m, t, n));
      case CNESTED: {
        pb_cursor_t c = pb_cursor_create_nested(&h->m, t, n);
        pb_error_t e = pb_cursor_error(&c);
        pb_cursor_destroy(&c);
        return e == PB_ERROR_EOM ? PB_ERROR_NONE : e;
      }
      case FPUT: return pb_field_put(&h->f, nv.b);
      case FCLEAR: return pb_field_clear(&h->f);
      case CPUT: return pb_cursor_put(&h->c, nv.b);
      case CPUT_MSG: return pb_cursor_put(&h->c, src);
      case CERASE: return pb_cursor_erase(&h->c);
      default: return pb_oneof_clear(&h->o);
    }
  }
};

// Everything the live handles of a session answer, as text.
void answer(std::string &o, pb_error_t e, const FieldDef &f, const Native &n) {
  o += e ? "!" + std::to_string((int)e) : from_native(f.type, n.b).show();
  o += ' ';
}
std::string observe(Session &s, const Handle *skip) {
  std::string o;
  for (auto &p : s.hs) {
    Handle &h = *p;
    if (&h == skip) continue;
    Native n;
    o += "h" + std::to_string(h.id) + ": ";
    switch (h.kind) {
      case H_MSG:
        for (auto &f : s.def(h.node).fields) {
          o += std::to_string(pb_message_has(&h.m, f.tag)) + " ";
          if (f.type == PB_TYPE_MESSAGE) continue;
          if (f.label != PB_LABEL_REPEATED) { pb_error_t e = pb_message_get(&h.m, f.tag, n.b); answer(o, e, f, n); }
          else {
            pb_cursor_t c = pb_cursor_create(&h.m, f.tag);
            int k = 0;
            if (pb_cursor_valid(&c)) do { pb_error_t e = pb_cursor_get(&c, n.b); answer(o, e, f, n); }
              while (k++ < 200 && pb_cursor_next(&c));
            o += "# ";
            pb_cursor_destroy(&c);
          }
        }
        break;
      case H_FIELD: { pb_error_t e = pb_field_get(&h.f, n.b); answer(o, e, *h.elem->f, n); break; }
      case H_CURSOR: {
        const FieldDef *f = s.u.msgs[(size_t)h.node->msg].find(h.tag);
        if (f->type == PB_TYPE_MESSAGE) {
          pb_message_t m = pb_message_create_from_cursor(&h.c);
          o += std::to_string(pb_message_valid(&m)) + " ";
          for (auto &g : s.u.msgs[(size_t)f->nested].fields) o += std::to_string(pb_message_has(&m, g.tag));
          pb_message_destroy(&m);
        } else { pb_error_t e = pb_cursor_get(&h.c, n.b); answer(o, e, *f, n); }
        break;
      }
      case H_ONEOF: o += std::to_string(pb_oneof_case(&h.o)); break;
    }
    o += "\n";
  }
  return o;
}
bool valid(Handle &h) {
  switch (h.kind) {
    case H_MSG: return pb_message_valid(&h.m);
    case H_FIELD: return pb_field_valid(&h.f);
    case H_CURSOR: return pb_cursor_valid(&h.c);
    default: return pb_oneof_valid(&h.o);
  }
}

}  // namespace
#endif
