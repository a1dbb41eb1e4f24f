// C18: what generated descriptors say against what protoc understood.
#include <cmath>
#include <cstring>
#include <fstream>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include "out.hh"
#include "tab.h"
using namespace google::protobuf;
using std::string;

static DescriptorPool pool;
static std::map<string, const g_message *> messages;
static std::map<string, const g_enum *> enums;
static std::map<string, const g_oneof *> oneofs;

static int want_type(const FieldDescriptor *f) {
  switch (f->type()) {
    case FieldDescriptor::TYPE_INT32: return PB_TYPE_INT32;
    case FieldDescriptor::TYPE_INT64: return PB_TYPE_INT64;
    case FieldDescriptor::TYPE_UINT32: return PB_TYPE_UINT32;
    case FieldDescriptor::TYPE_UINT64: return PB_TYPE_UINT64;
    case FieldDescriptor::TYPE_SINT32: return PB_TYPE_SINT32;
    case FieldDescriptor::TYPE_SINT64: return PB_TYPE_SINT64;
    case FieldDescriptor::TYPE_FIXED32: return PB_TYPE_FIXED32;
    case FieldDescriptor::TYPE_FIXED64: return PB_TYPE_FIXED64;
    case FieldDescriptor::TYPE_SFIXED32: return PB_TYPE_SFIXED32;
    case FieldDescriptor::TYPE_SFIXED64: return PB_TYPE_SFIXED64;
    case FieldDescriptor::TYPE_BOOL: return PB_TYPE_BOOL;
    case FieldDescriptor::TYPE_ENUM: return PB_TYPE_ENUM;
    case FieldDescriptor::TYPE_FLOAT: return PB_TYPE_FLOAT;
    case FieldDescriptor::TYPE_DOUBLE: return PB_TYPE_DOUBLE;
    case FieldDescriptor::TYPE_STRING: return PB_TYPE_STRING;
    case FieldDescriptor::TYPE_BYTES: return PB_TYPE_BYTES;
    default: return PB_TYPE_MESSAGE;
  }
}

static int want_label(const FieldDescriptor *f) {
  if (f->containing_oneof()) return PB_LABEL_ONEOF;
  return f->is_required() ? PB_LABEL_REQUIRED
       : f->is_repeated() ? PB_LABEL_REPEATED : PB_LABEL_OPTIONAL;
}

static string hex(const void *p, size_t n) {
  string s;
  for (size_t i = 0; i < n; i++) {
    char b[3];
    snprintf(b, 3, "%02x", ((const uint8_t *)p)[i]);
    s += b;
  }
  return s;
}

template <class T> static bool same(const void *p, T want) {
  T got;
  memcpy(&got, p, sizeof got);
  if (want != want) return got != got;
  return !memcmp(&got, &want, sizeof got);
}

static void check_default(const FieldDescriptor *f, const void *got) {
  const char *name = f->full_name().c_str();
  bool declared = !f->containing_oneof() && f->has_default_value();
  bool implicit = !f->containing_oneof() && !declared && f->is_optional() &&
                  f->type() == FieldDescriptor::TYPE_ENUM;
  if (!declared && !implicit) {
    if (got) out::violation("default-invented", "%s has no default value, but one is generated", name);
    return;
  }
  if (!got) {
    out::violation("default-missing", "%s: default value missing", name);
    return;
  }
  bool ok = true;
  string value;
  switch (f->cpp_type()) {
    case FieldDescriptor::CPPTYPE_INT32: ok = same<int32_t>(got, f->default_value_int32()); break;
    case FieldDescriptor::CPPTYPE_INT64: ok = same<int64_t>(got, f->default_value_int64()); break;
    case FieldDescriptor::CPPTYPE_UINT32: ok = same<uint32_t>(got, f->default_value_uint32()); break;
    case FieldDescriptor::CPPTYPE_UINT64: ok = same<uint64_t>(got, f->default_value_uint64()); break;
    case FieldDescriptor::CPPTYPE_FLOAT: ok = same<float>(got, f->default_value_float()); break;
    case FieldDescriptor::CPPTYPE_DOUBLE: ok = same<double>(got, f->default_value_double()); break;
    case FieldDescriptor::CPPTYPE_BOOL: ok = same<uint8_t>(got, f->default_value_bool()); break;
    case FieldDescriptor::CPPTYPE_ENUM:
      ok = same<pb_enum_t>(got, f->default_value_enum()->number()); break;
    case FieldDescriptor::CPPTYPE_STRING: {
      auto *s = (const pb_string_t *)got;
      auto &w = f->default_value_string();
      ok = s->size == w.size() && (w.empty() || !memcmp(s->data, w.data(), w.size()));
      if (!ok) value = hex(s->data, s->size) + " instead of " + hex(w.data(), w.size());
      break;
    }
    default: ok = false;
  }
  if (!ok) {
    if (value.empty())
      value = hex(got, f->cpp_type() == FieldDescriptor::CPPTYPE_BOOL ? 1 : 4) + "...";
    out::violation(string("default-value:") + f->type_name(), "%s: default value is %s",
                   name, value.c_str());
  }
  out::count(string("default:") + (implicit ? "implicit" : f->type_name()));
}

static void check_field(const FieldDescriptor *f, const pb_field_descriptor_t *d) {
  const char *name = f->full_name().c_str();
  out::count("fields");
  out::count(string("type:") + f->type_name());
  if ((int)d->type != want_type(f))
    out::violation("type", "%s: type %d instead of %d", name, d->type, want_type(f));
  if ((int)d->label != want_label(f))
    out::violation("label", "%s: label %d instead of %d", name, d->label, want_label(f));
  if (!!pb_field_descriptor_packed(d) != f->is_packed())
    out::violation("packed", "%s: packed flag %d", name, !!pb_field_descriptor_packed(d));
  if (f->is_packed()) out::count("packed-fields");
  string got = d->name ? d->name : "";
  if (f->is_extension()
        ? got.size() < f->name().size() ||
          got.compare(got.size() - f->name().size(), string::npos, f->name())
        : got != f->name())
    out::violation("name", "%s is called %s", name, got.c_str());
  if (f->message_type() &&
      d->refer != messages.at(f->message_type()->full_name())->descriptor)
    out::violation("nested-type", "%s: refers to another message type than %s", name,
                   f->message_type()->full_name().c_str());
  if (f->enum_type() && d->refer != enums.at(f->enum_type()->full_name())->descriptor)
    out::violation("enum-type", "%s: refers to another enum than %s", name,
                   f->enum_type()->full_name().c_str());
  if (!f->message_type() && !f->enum_type() && d->refer)
    out::violation("refers", "%s refers to something", name);
  if (f->containing_oneof()) {
    out::count("oneof-members");
    if (pb_field_descriptor_oneof(d) != oneofs.at(f->containing_oneof()->full_name())->descriptor)
      out::violation("oneof-of-member", "%s: member of another oneof than %s", name,
                     f->containing_oneof()->full_name().c_str());
  } else
    check_default(f, pb_field_descriptor_default(d));
}

static string shape(const Descriptor *m) {
  FieldDescriptorProto p;
  string s;
  std::map<int, const FieldDescriptor *> by;
  for (int i = 0; i < m->field_count(); i++) by[m->field(i)->number()] = m->field(i);
  for (auto &b : by) {
    b.second->CopyTo(&p);
    p.clear_name(), p.clear_json_name(), p.clear_type_name();
    s += p.SerializeAsString() + "|";
  }
  return s;
}

int main(int argc, char **argv) {
  FileDescriptorSet set;
  std::ifstream in(argv[1], std::ios::binary);
  if (argc < 2 || !set.ParseFromIstream(&in)) return 2;
  for (auto *m = g_messages; m->name; m++) messages[m->name] = m;
  for (auto *e = g_enums; e->name; e++) enums[e->name] = e;
  for (auto *o = g_oneofs; o->name; o++) oneofs[o->name] = o;
  for (auto &f : set.file()) {
    if (!pool.BuildFile(f)) return 3;
    out::count("files");
    out::count("syntax:" + (f.syntax().empty() ? "proto2" : f.syntax()));
  }

  for (auto &me : messages) {
    auto *m = pool.FindMessageTypeByName(me.first);
    auto *d = me.second->descriptor;
    const char *name = me.first.c_str();
    out::evaluations++;
    out::count("messages");
    if (!m->field_count()) out::count("empty-messages");
    if (m->containing_type()) out::count("nested-messages");
    std::map<uint32_t, const FieldDescriptor *> want;
    for (int i = 0; i < m->field_count(); i++) want[m->field(i)->number()] = m->field(i);
    if (d->field.size != want.size())
      out::violation("field-count", "%s lists %zu fields instead of %zu", name,
                     d->field.size, want.size());
    pb_tag_t last = 0;
    for (size_t i = 0; i < d->field.size; i++) {
      auto *fd = &d->field.data[i];
      if (fd->tag <= last)
        out::violation("order", "%s: fields aren't in ascending order of tags", name);
      last = fd->tag;
      if (!want.count(fd->tag))
        out::violation("field-invented", "%s lists field %u", name, fd->tag);
      else
        check_field(want[fd->tag], fd);
    }
    for (auto &w : want) {
      auto *fd = pb_descriptor_field_by_tag(d, w.first);
      if (!fd || fd->tag != w.first)
        out::violation("field-missing", "%s: field %u not found", name, w.first);
    }

    // Extensions of all files linked in
    std::vector<const FieldDescriptor *> list;
    pool.FindAllExtensions(m, &list);
    std::map<uint32_t, const FieldDescriptor *> ext;
    for (auto *x : list) ext[x->number()] = x;
    std::set<uint32_t> seen;
    size_t chain = 0;
    for (auto *e = d->extension; e && chain < 10000; e = e->extension, chain++)
      for (size_t i = 0; i < e->field.size; i++) {
        auto *fd = &e->field.data[i];
        if (!ext.count(fd->tag))
          out::violation("extension-invented", "%s is extended by field %u", name, fd->tag);
        else if (!seen.insert(fd->tag).second)
          out::violation("extension-twice", "%s is extended by field %u twice", name, fd->tag);
        else
          check_field(ext[fd->tag], fd);
      }
    if (chain >= 10000) out::violation("extension-cycle", "%s: endless extensions", name);
    for (auto &x : ext) {
      auto *fd = pb_descriptor_field_by_tag(d, x.first);
      if (!fd || fd->tag != x.first)
        out::violation("extension-missing", "%s: extension %u not found", name, x.first);
      out::count("extensions");
      if (x.second->extension_scope()) out::count("nested-extensions");
      if (x.second->file() != m->file()) out::count("extensions-across-files");
    }
    for (uint32_t t : { 1u, 2u, 3u, 5u, 17u, 2048u, 500001u, (1u << 29) - 1 })
      if (!want.count(t) && !ext.count(t) && pb_descriptor_field_by_tag(d, t))
        out::violation("field-invented", "%s: field %u found", name, t);
    string s = shape(m);
    out::distinct.insert(out::hash(s));
    for (auto &w : want) {
      FieldDescriptorProto p;
      w.second->CopyTo(&p);
      p.clear_name(), p.clear_json_name(), p.clear_type_name();
      out::states.insert(out::hash(p.SerializeAsString()));
    }
  }

  for (auto &en : enums) {
    auto *e = pool.FindEnumTypeByName(en.first);
    auto *d = en.second->descriptor;
    const char *name = en.first.c_str();
    out::evaluations++;
    out::count("enums");
    std::multiset<std::pair<int, string>> want, got;
    for (int i = 0; i < e->value_count(); i++)
      want.insert({ e->value(i)->number(), e->value(i)->name() });
    for (size_t i = 0; i < d->value.size; i++) {
      got.insert({ d->value.data[i].number, d->value.data[i].name });
      if (i && d->value.data[i].number < d->value.data[i - 1].number)
        out::violation("enum-order", "%s: values aren't in ascending order", name);
      if (i && d->value.data[i].number == d->value.data[i - 1].number) out::count("enum-aliases");
    }
    if (want != got) out::violation("enum-values", "%s: values differ", name);
    for (auto &w : want) {
      out::count("enum-values");
      auto *v = pb_enum_descriptor_value_by_number(d, w.first);
      if (!v || v->number != w.first || !want.count({ v->number, v->name }))
        out::violation("enum-by-number", "%s: value %d not found", name, w.first);
    }
  }

  for (auto &on : oneofs) {
    auto *o = (const OneofDescriptor *)nullptr;
    string full = on.first;
    auto *m = pool.FindMessageTypeByName(full.substr(0, full.rfind('.')));
    for (int i = 0; i < m->oneof_decl_count(); i++)
      if (m->oneof_decl(i)->full_name() == full) o = m->oneof_decl(i);
    auto *d = on.second->descriptor;
    const char *name = full.c_str();
    out::evaluations++;
    out::count("oneofs");
    if (d->descriptor != messages.at(m->full_name())->descriptor) {
      out::violation("oneof-message", "%s belongs to another message", name);
      continue;
    }
    std::set<uint32_t> want, got;
    for (int i = 0; i < o->field_count(); i++) want.insert(o->field(i)->number());
    for (size_t i = 0; i < d->index.size; i++) {
      if (d->index.data[i] >= d->descriptor->field.size) {
        out::violation("oneof-index", "%s: index %zu out of range", name, d->index.data[i]);
        continue;
      }
      uint32_t t = d->descriptor->field.data[d->index.data[i]].tag;
      if (!got.insert(t).second) out::violation("oneof-twice", "%s: member %u twice", name, t);
    }
    if (want != got) out::violation("oneof-members", "%s: members differ", name);
  }

  for (auto *c = g_tags; c->name; c++) {
    string full = c->name;
    size_t dot = full.rfind('.');
    auto *m = pool.FindMessageTypeByName(full.substr(0, dot));
    auto *f = m ? m->FindFieldByName(full.substr(dot + 1)) : nullptr;
    out::count("tag-constants");
    if (!f || c->value != f->number())
      out::violation("tag-constant", "constant of %s is %lld", c->name, c->value);
  }
  for (auto *c = g_values; c->name; c++) {
    auto *v = pool.FindEnumValueByName(c->name);
    out::count("value-constants");
    if (!v || c->value != v->number())
      out::violation("value-constant", "constant of %s is %lld", c->name, c->value);
  }
  out::finish();
  return 0;
}
