// Second oracle: the same schema in libprotobuf; compares what an independent
// implementation parses from some bytes with the reference model.
#ifndef PBREF_HH
#define PBREF_HH
#include "model.hh"
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/unknown_field_set.h>

namespace pbref {
namespace gp = google::protobuf;
using namespace model;

inline gp::FieldDescriptorProto::Type type_of(pb_type_t t) {
  typedef gp::FieldDescriptorProto F;
  switch (t) {
    case PB_TYPE_INT32: return F::TYPE_INT32; case PB_TYPE_INT64: return F::TYPE_INT64;
    case PB_TYPE_UINT32: return F::TYPE_UINT32; case PB_TYPE_UINT64: return F::TYPE_UINT64;
    case PB_TYPE_SINT32: return F::TYPE_SINT32; case PB_TYPE_SINT64: return F::TYPE_SINT64;
    case PB_TYPE_FIXED32: return F::TYPE_FIXED32; case PB_TYPE_FIXED64: return F::TYPE_FIXED64;
    case PB_TYPE_SFIXED32: return F::TYPE_SFIXED32; case PB_TYPE_SFIXED64: return F::TYPE_SFIXED64;
    case PB_TYPE_BOOL: return F::TYPE_BOOL; case PB_TYPE_ENUM: return F::TYPE_ENUM;
    case PB_TYPE_FLOAT: return F::TYPE_FLOAT; case PB_TYPE_DOUBLE: return F::TYPE_DOUBLE;
    case PB_TYPE_STRING: return F::TYPE_BYTES;   // no UTF-8 checks wanted
    case PB_TYPE_BYTES: return F::TYPE_BYTES;
    default: return F::TYPE_MESSAGE;
  }
}

class Schema {
 public:
  const Universe &u;
  gp::DescriptorPool pool;
  std::unique_ptr<gp::DynamicMessageFactory> factory;
  const gp::FileDescriptor *file = nullptr;

  explicit Schema(const Universe &u_) : u(u_) {
    gp::FileDescriptorProto f;
    f.set_name("u.proto"); f.set_package("u");
    for (size_t e = 0; e < u.enums.size(); e++) {
      auto *d = f.add_enum_type();
      d->set_name("E" + std::to_string(e));
      for (auto &v : u.enums[e].values) {
        auto *x = d->add_value(); x->set_name(v.second); x->set_number(v.first);
      }
    }
    for (size_t m = 0; m < u.msgs.size(); m++) {
      auto *d = f.add_message_type();
      d->set_name("M" + std::to_string(m));
      std::vector<int> map((size_t)u.msgs[m].oneofs, -1);
      for (int o = -1; o < u.msgs[m].oneofs; o++)
        for (auto &x : u.msgs[m].fields) {
          if (x.oneof != o) continue;
          auto *fd = d->add_field();
          fd->set_name("f" + std::to_string(x.tag));
          fd->set_number((int)x.tag);
          fd->set_type(type_of(x.type));
          fd->set_label(x.label == PB_LABEL_REPEATED ? gp::FieldDescriptorProto::LABEL_REPEATED
            : x.label == PB_LABEL_REQUIRED ? gp::FieldDescriptorProto::LABEL_REQUIRED
            : gp::FieldDescriptorProto::LABEL_OPTIONAL);
          if (x.nested >= 0) fd->set_type_name(".u.M" + std::to_string(x.nested));
          if (x.type == PB_TYPE_ENUM) fd->set_type_name(".u.E" + std::to_string(x.enumidx));
          if (x.packed) fd->mutable_options()->set_packed(true);
          if (o >= 0) {
            if (map[(size_t)o] < 0) {
              map[(size_t)o] = d->oneof_decl_size();
              d->add_oneof_decl()->set_name("o" + std::to_string(o));
            }
            fd->set_oneof_index(map[(size_t)o]);
          }
        }
    }
    file = pool.BuildFile(f);
    if (!file) mon::harness_bug("reference schema rejected: %s", u.show().c_str());
    factory = std::make_unique<gp::DynamicMessageFactory>(&pool);
  }
  std::unique_ptr<gp::Message> parse(int msg, const std::string &b) {
    const gp::Message *p = factory->GetPrototype(file->message_type(msg));
    std::unique_ptr<gp::Message> m(p->New());
    if (!m->ParsePartialFromString(b)) return nullptr;
    return m;
  }
  bool declared(const FieldDef &f, const Val &v) const {
    if (f.type != PB_TYPE_ENUM) return true;
    for (auto &x : u.enums[(size_t)f.enumidx].values)
      if ((uint32_t)x.first == (uint32_t)v.u) return true;
    return false;
  }
  static Val get(const gp::Message &m, const gp::FieldDescriptor *d, pb_type_t t, int i) {
    const gp::Reflection *r = m.GetReflection();
    Val v; v.type = t;
    auto bits32 = [](float f) { uint32_t u; memcpy(&u, &f, 4); return (uint64_t)u; };
    auto bits64 = [](double f) { uint64_t u; memcpy(&u, &f, 8); return u; };
    switch (d->cpp_type()) {
      case gp::FieldDescriptor::CPPTYPE_INT32: v.u = (uint32_t)(i < 0 ? r->GetInt32(m, d) : r->GetRepeatedInt32(m, d, i)); break;
      case gp::FieldDescriptor::CPPTYPE_INT64: v.u = (uint64_t)(i < 0 ? r->GetInt64(m, d) : r->GetRepeatedInt64(m, d, i)); break;
      case gp::FieldDescriptor::CPPTYPE_UINT32: v.u = i < 0 ? r->GetUInt32(m, d) : r->GetRepeatedUInt32(m, d, i); break;
      case gp::FieldDescriptor::CPPTYPE_UINT64: v.u = i < 0 ? r->GetUInt64(m, d) : r->GetRepeatedUInt64(m, d, i); break;
      case gp::FieldDescriptor::CPPTYPE_BOOL: v.u = i < 0 ? r->GetBool(m, d) : r->GetRepeatedBool(m, d, i); break;
      case gp::FieldDescriptor::CPPTYPE_ENUM: v.u = (uint32_t)(i < 0 ? r->GetEnumValue(m, d) : r->GetRepeatedEnumValue(m, d, i)); break;
      case gp::FieldDescriptor::CPPTYPE_FLOAT: v.u = bits32(i < 0 ? r->GetFloat(m, d) : r->GetRepeatedFloat(m, d, i)); break;
      case gp::FieldDescriptor::CPPTYPE_DOUBLE: v.u = bits64(i < 0 ? r->GetDouble(m, d) : r->GetRepeatedDouble(m, d, i)); break;
      default: v.s = i < 0 ? r->GetString(m, d) : r->GetRepeatedString(m, d, i);
    }
    return v;
  }
  // Compare a parsed message with the model; violation upon difference.
  void compare(const gp::Message &m, const Node &n, const std::string &where) {
    const MsgDef &def = u.msgs[(size_t)n.msg];
    const gp::Reflection *r = m.GetReflection();
    mon::count("reference-parses");
    for (auto &f : def.fields) {
      const gp::FieldDescriptor *d = m.GetDescriptor()->FindFieldByNumber((int)f.tag);
      std::vector<const Elem *> subs; std::vector<Val> vals; size_t occ = 0;
      for (auto &e : n.el) if (e->tag == f.tag && e->visible()) {
        occ++;
        if (e->kind == Elem::MSG) subs.push_back(e.get());
        else if (e->kind == Elem::PACKED) { for (auto &p : e->run) if (!p->dead && declared(f, p->v)) vals.push_back(p->v); }
        else if (declared(f, e->v)) vals.push_back(e->v);
      }
      std::string at = where + "." + std::to_string(f.tag);
      if (f.label == PB_LABEL_REPEATED) {
        size_t k = (size_t)r->FieldSize(m, d);
        size_t want = f.type == PB_TYPE_MESSAGE ? subs.size() : vals.size();
        if (k != want) mon::violate("reference:count", "%s: reference parser sees %zu values, expected %zu", at.c_str(), k, want);
        for (size_t i = 0; i < k; i++)
          if (f.type == PB_TYPE_MESSAGE) compare(r->GetRepeatedMessage(m, d, (int)i), *subs[i]->node, at);
          else {
            Val v = get(m, d, f.type, (int)i);
            if (v != vals[i]) mon::violate("reference:value", "%s[%zu]: reference parser sees %s, expected %s", at.c_str(), i, v.show().c_str(), vals[i].show().c_str());
          }
        continue;
      }
      if (f.type == PB_TYPE_ENUM && occ != vals.size()) continue;
      const Elem *x = readable(n, f);
      if (f.type == PB_TYPE_MESSAGE && occ > 1) continue;   // libprotobuf merges
      if (f.oneof >= 0) {
        // an undeclared enum value does not set the case in libprotobuf
        bool skip = false;
        for (auto &e : n.el)
          if (e->visible() && e->f->oneof == f.oneof && e->kind == Elem::SCALAR && !declared(*e->f, e->v)) skip = true;
        if (skip) continue;
      }
      if (r->HasField(m, d) != !!x)
        mon::violate("reference:has", "%s: reference parser has=%d, expected %d", at.c_str(), r->HasField(m, d), !!x);
      if (!x) continue;
      if (f.type == PB_TYPE_MESSAGE) compare(r->GetMessage(m, d), *x->node, at);
      else {
        Val v = get(m, d, f.type, -1);
        if (v != x->v) mon::violate("reference:value", "%s: reference parser sees %s, expected %s", at.c_str(), v.show().c_str(), x->v.show().c_str());
      }
    }
    // Unknown fields survive, in order.
    std::string unk;
    for (auto &e : n.el) if (!e->dead) {
      if (e->kind == Elem::UNKNOWN) encode(*e, unk);
      else if (e->kind == Elem::SCALAR && !declared(*e->f, e->v)) encode(*e, unk);
      else if (e->kind == Elem::PACKED)
        for (auto &p : e->run) if (!p->dead && !declared(*e->f, p->v)) {
          put_varint(unk, (uint64_t)e->tag << 3); unk += payload(p->v);
        }
    }
    std::string got;
    r->GetUnknownFields(m).SerializeToString(&got);
    // an undeclared enum value may be reported with its truncated number
    if (got.size() == unk.size() && got != unk)
      mon::violate("reference:unknown", "%s: reference parser sees unknown fields %s, expected %s", where.c_str(), mon::hex(got).c_str(), mon::hex(unk).c_str());
  }
  void check(const Node &root, const std::string &bytes) {
    auto m = parse(root.msg, bytes);
    if (!m) mon::violate("reference:parse", "the reference parser rejects the message %s", mon::hex(bytes).c_str());
    compare(*m, root, "M" + std::to_string(root.msg));
    mon::count("reference-messages");
  }
};

}  // namespace pbref
#endif
