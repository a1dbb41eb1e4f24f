// Emits C tables that name everything the generator must have generated for a
// set of .proto files (table.c) and typed wrappers around every accessor
// (driver.c): what is missing or has another type doesn't compile.
#include <fstream>
#include <iostream>
#include <sstream>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
using namespace google::protobuf;
using std::string;
using std::vector;

static string low(string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static string up(string s) { for (auto &c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static string und(string s) { for (auto &c : s) if (c == '.') c = '_'; return s; }
static string sym(const string &full) { return low(und(full)); }

static const char *ctype(const FieldDescriptor *f) {
  switch (f->cpp_type()) {
    case FieldDescriptor::CPPTYPE_INT32: return "int32_t";
    case FieldDescriptor::CPPTYPE_INT64: return "int64_t";
    case FieldDescriptor::CPPTYPE_UINT32: return "uint32_t";
    case FieldDescriptor::CPPTYPE_UINT64: return "uint64_t";
    case FieldDescriptor::CPPTYPE_FLOAT: return "float";
    case FieldDescriptor::CPPTYPE_DOUBLE: return "double";
    case FieldDescriptor::CPPTYPE_BOOL: return "uint8_t";
    case FieldDescriptor::CPPTYPE_ENUM: return "pb_enum_t";
    case FieldDescriptor::CPPTYPE_STRING: return "pb_string_t";
    default: return "pb_encoder_t";
  }
}

static bool is_message(const FieldDescriptor *f) {
  return f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE;
}

struct Out {
  std::ostringstream table, wrap, acc, cls, msgs, enums, oneofs, tags, values, marks;
  int n = 0;
  bool lite = false;

  // One accessor: its wrapper and its row.
  void accessor(const string &message, const string &name, const char *op,
                const vector<int> &path, const string &body, const string &what,
                bool ext = false, int number = 0, bool deprecated = false) {
    marks << deprecated << " " << name << "\n";
    string w = "w" + std::to_string(n++);
    wrap << "static void " << w << "(g_call *c) { " << body << " }\n";
    wrap << "static const pb_tag_t " << w << "_t[] = { ";
    for (int t : path) wrap << t << ", ";
    wrap << "0 };\n";
    acc << "  { \"" << message << "\", \"" << name << "\", " << op << ", " << path.size()
        << ", " << w << "_t, " << (number == INT32_MIN ? "-2147483647 - 1"
                                                       : std::to_string(number))
        << ", \"" << what << "\", " << ext << ", " << w << " },\n";
  }

  // Whether the accessors of an enum value are marked as deprecated.
  static bool marked(const FieldDescriptor *f, int v) {
    return f->options().deprecated() || f->enum_type()->options().deprecated() ||
      f->enum_type()->value(v)->options().deprecated();
  }

  // Accessors of one field, seen from `root` along `path`.
  void field(const Descriptor *root, vector<int> path, const string &prefix,
             const FieldDescriptor *f, bool ext) {
    path.push_back(f->number());
    string m = sym(root->full_name()), full = root->full_name();
    string what = f->full_name(), type = ctype(f);
    const bool old = f->options().deprecated();
    auto fn = [&](const char *op, const string &tail) { return m + "_" + op + "_" + tail; };
    if (!f->is_required())
      accessor(full, fn("has", prefix), "G_HAS", path,
               "c->result = " + fn("has", prefix) + "(c->message);", what, ext, 0, old);
    if (is_message(f)) {
      accessor(full, fn("create", prefix), "G_CREATE", path,
               "c->made = " + fn("create", prefix) + "(c->message);", what, ext, 0, old);
      if (f->is_repeated())
        accessor(full, fn("create", prefix + "_cursor"), "G_CURSOR", path,
                 "c->cursor = " + fn("create", prefix + "_cursor") + "(c->message);",
                 what, ext, 0, old);
      // Accessors across a field exist if the type is declared within this one.
      else if (!ext && f->message_type()->full_name().compare(
                 0, f->containing_type()->full_name().size() + 1,
                 f->containing_type()->full_name() + ".") == 0)
        for (int i = 0; i < f->message_type()->field_count(); i++) {
          auto *g = f->message_type()->field(i);
          field(root, path, prefix + "_" + low(g->name()), g, false);
        }
    } else {
      if (!f->is_repeated())
        accessor(full, fn("get", prefix), "G_GET", path,
                 "c->error = " + fn("get", prefix) + "(c->message, (" + type +
                 " *)c->out);", what, ext, 0, old);
      accessor(full, fn("put", prefix), "G_PUT", path,
               "c->error = " + fn("put", prefix) + "(c->message, (const " + type +
               " *)c->in);", what, ext, 0, old);
      if (auto *e = f->enum_type())
        for (int v = 0; v < e->value_count(); v++) {
          string tail = prefix + "_" + low(e->value(v)->name());
          accessor(full, fn("has", tail), "G_HAS_VALUE", path,
                   "c->result = " + fn("has", tail) + "(c->message);", what, ext,
                   e->value(v)->number(), marked(f, v));
          accessor(full, fn("put", tail), "G_PUT_VALUE", path,
                   "c->error = " + fn("put", tail) + "(c->message);", what, ext,
                   e->value(v)->number(), marked(f, v));
        }
    }
    if (f->is_optional())
      accessor(full, fn("erase", prefix), "G_ERASE", path,
               "c->error = " + fn("erase", prefix) + "(c->message);", what, ext, 0, old);
  }

  void encoder(const Descriptor *d, const FieldDescriptor *f) {
    string name = sym(d->full_name()) + "_encode_" + low(f->name());
    accessor(d->full_name(), name, "G_ENCODE", { f->number() },
             "c->error = " + name + "(c->encoder, (const " + ctype(f) + " *)c->in" +
             (f->is_repeated() ? ", c->size" : "") + ");", f->full_name(), false, 0,
             f->options().deprecated());
    if (auto *e = f->enum_type())
      for (int v = 0; v < e->value_count(); v++) {
        string n = name + "_" + low(e->value(v)->name());
        accessor(d->full_name(), n, "G_ENCODE_VALUE", { f->number() },
                 "c->error = " + n + "(c->encoder);", f->full_name(), false,
                 e->value(v)->number(), marked(f, v));
      }
  }

  void extension(const FieldDescriptor *f) {
    string name = f->name();
    if (auto *s = f->extension_scope()) {
      string scope = s->full_name(), pkg = f->file()->package();
      if (!pkg.empty()) scope = scope.substr(pkg.size() + 1);
      name = und(scope) + "_" + name;
    }
    if (!lite) field(f->containing_type(), {}, "X_" + low(name), f, true);
  }

  void enumeration(const EnumDescriptor *e) {
    enums << "  { \"" << e->full_name() << "\", &" << sym(e->full_name()) << "_descriptor },\n";
    for (int v = 0; v < e->value_count(); v++)
      values << "  { \"" << e->value(v)->full_name() << "\", "
             << up(und(e->value(v)->full_name())) << "_V },\n";
  }

  void message(const Descriptor *d) {
    string s = sym(d->full_name());
    msgs << "  { \"" << d->full_name() << "\", &" << s << "_descriptor },\n";
    for (int i = 0; i < d->field_count(); i++)
      tags << "  { \"" << d->field(i)->full_name() << "\", "
           << up(und(d->field(i)->full_name())) << "_T },\n";
    for (int i = 0; i < d->enum_type_count(); i++) enumeration(d->enum_type(i));
    for (int i = 0; i < d->oneof_decl_count(); i++) {
      auto *o = d->oneof_decl(i);
      oneofs << "  { \"" << o->full_name() << "\", &" << sym(o->full_name())
             << "_descriptor },\n";
      string name = s + "_case_" + o->name();
      if (!lite)
        accessor(d->full_name(), name, "G_CASE", {},
                 "c->tag = " + name + "(c->message);", o->full_name());
    }
    for (int i = 0; i < d->field_count(); i++) {
      if (!lite) field(d, {}, low(d->field(i)->name()), d->field(i), false);
      encoder(d, d->field(i));
    }
    for (int i = 0; i < d->extension_count(); i++) extension(d->extension(i));

    auto fn = [&](const char *kind, const string &body) {
      string w = "m" + std::to_string(n++);
      wrap << "static void " << w << "(g_call *c) { " << body << " }  /* " << kind << " */\n";
      size_t at = body.find(s + "_");
      marks << d->options().deprecated() << " " << body.substr(at, body.find('(', at) - at) << "\n";
      return w;
    };
    cls << "  { \"" << d->full_name() << "\", " << lite << ", ";
    if (lite) cls << "0, 0, ";
    else
      cls << fn("create", "c->made = " + s + "_create(c->journal);") << ", "
          << fn("destroy", s + "_destroy(c->message);") << ", ";
    cls << fn("encoder_create", "c->made_encoder = " + s + "_encoder_create();") << ", "
        << fn("encoder_create_with", "c->made_encoder = " + s +
              "_encoder_create_with_allocator(c->allocator);") << ", "
        << fn("encoder_destroy", s + "_encoder_destroy(c->encoder);") << ", "
        << fn("decoder_create", "c->made_decoder = " + s + "_decoder_create(c->buffer);")
        << ", "
        << fn("decode", "c->error = " + s + "_decode(c->decoder, c->handler, c->user);")
        << ", " << fn("decoder_destroy", s + "_decoder_destroy(c->decoder);") << " },\n";
    for (int i = 0; i < d->nested_type_count(); i++) message(d->nested_type(i));
  }
};

int main(int argc, char **argv) {
  FileDescriptorSet set;
  std::ifstream in(argv[1], std::ios::binary);
  if (argc < 3 || !set.ParseFromIstream(&in)) return 2;
  DescriptorPool pool;
  Out o;
  string includes, lites;
  for (auto &f : set.file()) {
    auto *d = pool.BuildFile(f);
    if (!d) return 3;
    o.lite = d->options().optimize_for() == FileOptions::LITE_RUNTIME;
    lites += o.lite ? "1 " : "0 ";
    includes += "#include \"" + d->name().substr(0, d->name().rfind(".proto")) + ".pb.h\"\n";
    for (int i = 0; i < d->enum_type_count(); i++) o.enumeration(d->enum_type(i));
    for (int i = 0; i < d->message_type_count(); i++) o.message(d->message_type(i));
    for (int i = 0; i < d->extension_count(); i++) o.extension(d->extension(i));
  }
  string dir = argv[2];
  std::ofstream t(dir + "/table.c");
  t << "#include \"tab.h\"\n" << includes
    << "const g_message g_messages[] = {\n" << o.msgs.str() << "  { 0, 0 } };\n"
    << "const g_enum g_enums[] = {\n" << o.enums.str() << "  { 0, 0 } };\n"
    << "const g_oneof g_oneofs[] = {\n" << o.oneofs.str() << "  { 0, 0 } };\n"
    << "const g_const g_tags[] = {\n" << o.tags.str() << "  { 0, 0 } };\n"
    << "const g_const g_values[] = {\n" << o.values.str() << "  { 0, 0 } };\n";
  std::ofstream d(dir + "/driver.c");
  d << "#include \"tab.h\"\n" << includes << o.wrap.str()
    << "const g_accessor g_accessors[] = {\n" << o.acc.str() << "  { 0 } };\n"
    << "const g_class g_classes[] = {\n" << o.cls.str() << "  { 0 } };\n";
  std::ofstream m(dir + "/marks");
  m << o.marks.str();
  std::ofstream(dir + "/lite") << lites;
  return t.good() && d.good() && m.good() ? 0 : 4;
}
