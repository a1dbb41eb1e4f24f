"""Random .proto files for the generator checks, with a model of what they declare."""
import random, struct

SCALARS = ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32",
           "fixed64", "sfixed32", "sfixed64", "bool", "enum", "float", "double",
           "string", "bytes"]
CTYPE = {"int32": "int32_t", "sint32": "int32_t", "sfixed32": "int32_t",
         "int64": "int64_t", "sint64": "int64_t", "sfixed64": "int64_t",
         "uint32": "uint32_t", "fixed32": "uint32_t", "uint64": "uint64_t",
         "fixed64": "uint64_t", "bool": "uint8_t", "enum": "pb_enum_t",
         "float": "float", "double": "double", "string": "pb_string_t",
         "bytes": "pb_string_t", "message": "pb_encoder_t"}
WORDS = ["default", "int", "descriptor", "message", "tag", "type", "name", "value",
         "error", "data", "size", "buffer", "journal", "float", "struct", "return",
         "assert", "user", "handler", "static", "register", "union", "bool", "cursor",
         "oneof", "field", "NULL", "decoder", "encoder", "create", "alpha"]


BIG = ["values", "fields", "members", "exts", "nested", "files", "names", "deep"]


class Enum:
    def __init__(self, name, full):
        self.name, self.full, self.values, self.alias = name, full, [], False
        self.deprecated = False


class Field:
    def __init__(self, name, tag, type, label):
        self.name, self.tag, self.type, self.label = name, tag, type, label
        self.ref = self.packed = self.default = self.oneof = self.map = None
        self.deprecated = False
        self.scope = None       # message type an extension is declared in
        self.ext_of = None      # message type an extension extends
        self.file = None


class Msg:
    def __init__(self, name, full, file):
        self.name, self.full, self.file = name, full, file
        self.fields, self.enums, self.nested, self.oneofs, self.exts = [], [], [], [], []
        self.extendable = self.is_map = self.deprecated = False
        self.tags, self.depth = set(), 0

    def all(self):
        yield self
        for n in self.nested:
            yield from n.all()


class File:
    def __init__(self, path, package, syntax):
        self.path, self.package, self.syntax = path, package, syntax
        self.imports, self.messages, self.enums, self.exts, self.lite = [], [], [], [], ""
        self.service = False

    def all(self):
        for m in self.messages:
            yield from m.all()

    def all_enums(self):
        yield from self.enums
        for m in self.all():
            yield from m.enums

    def all_exts(self):
        yield from self.exts
        for m in self.all():
            yield from m.exts


class Case:
    def __init__(self, seed, size, big=None):
        self.r = random.Random(seed)
        self.size, self.n, self.files = size, 0, []
        r = self.r
        # Now and then, one thing comes in numbers no example has.
        self.big = big
        self.room = 260
        for i in range(r.randint(5, 9) if self.big == "files" else r.choice([1, 1, 2, 3])):
            self.file(i)
        for f in self.files:
            self.fill(f)
        self.prune(2000 if self.big == "deep" else 5000)

    def prune(self, most):
        """Every path of nested types gets accessors of its own: bound their number."""
        msgs = [m for f in self.files for m in f.all()]
        while True:
            memo = {}

            def cost(m):
                if m.full not in memo:
                    memo[m.full] = 0            # a type isn't nested in itself
                    inner = [y.full for y in m.all() if y is not m]
                    memo[m.full] = sum(
                        1 + len(x.ref.values) * 0.3 if x.type == "enum" else
                        1 + cost(x.ref) if x.type == "message" and x.label != "repeated" and
                        x.map is None and x.ref.full in inner else 1 for x in m.fields)
                return memo[m.full]

            self.total = sum(map(cost, msgs))
            if self.total <= most:
                return
            m = max(msgs, key=cost)
            c = [x for x in m.fields if x.type == "message" and x.label != "repeated" and not x.map]
            x = max(c, key=lambda x: cost(x.ref)) if c else m.fields[-1]
            if c:
                x.type, x.ref = "uint32", None
            else:
                return

    # -- names ----------------------------------------------------------------
    def ident(self, style):
        self.n += 1
        w = self.r.choice(["a", "foo", "bar_baz", "x", "Item", "URLPart", "is_set", "v"])
        if style == "msg":
            w = self.r.choice(["Foo", "Bar", "Node", "HTTPReply", "lower_case", "X"])
        if style == "enum":
            w = self.r.choice(["Kind", "Color", "STATE", "e"])
        if self.big == "names" and self.r.random() < 0.3:
            w += "".join(self.r.choice("abCD_xy9") for _ in range(self.r.choice([30, 63, 64, 70, 127, 130, 260])))
        return f"{w}{self.n}" + (self.r.choice(["", "", "z", "_q"]))

    def file(self, i):
        r = self.r
        syntax = "proto3" if r.random() < 0.25 else "proto2"
        d = r.choice(["", "", "dir/", "a-b/c.d/", "deep/er/", "2nd/", "x.proto/"])
        self.n += 1
        pkg = r.choice(["", f"p{self.n}", f"Pkg{self.n}.sub_x.v1", f"p{self.n}.Q"])
        f = File(f"{d}file{r.choice(['', '-', '.', '_', '+'])}{self.n}.proto", pkg, syntax)
        for g in self.files:
            if r.random() < 0.7 and (syntax == "proto2" or g.syntax == "proto3"):
                f.imports.append(g)
        if r.random() < 0.12:
            f.lite = "LITE_RUNTIME"
        elif r.random() < 0.2:
            f.lite = r.choice(["SPEED", "CODE_SIZE"])
        if any(g.lite == "LITE_RUNTIME" for g in f.imports):
            f.lite = "LITE_RUNTIME"     # others may not import lite files
        f.service = r.random() < 0.15
        self.files.append(f)
        for _ in range(r.randint(0, 2)):
            self.enum(f, f.enums, f.package)
        for _ in range(r.randint(0 if r.random() < 0.15 else 1, self.size)):
            f.messages.append(self.msg(f, f.package, 0))

    def enum(self, f, into, scope):
        r = self.r
        name = self.ident("enum")
        e = Enum(name, (scope + "." if scope else "") + name)
        e.scope, e.deprecated = scope, r.random() < 0.05
        nums = []
        e.alias = r.random() < 0.2
        many = self.big == "values" and r.random() < 0.5
        for k in range(r.randint(20, 150) if many else r.randint(2 if e.alias else 1, 6)):
            self.n += 1
            while True:
                x = r.choice([k, r.randint(0, 9), r.randint(-5, 300), 2**31 - 1, -2**31,
                              r.randint(-2**31, 2**31 - 1)])
                if many and r.random() < 0.8:
                    x = r.randint(-20, 400)
                if f.syntax == "proto3" and k == 0:
                    x = 0
                if x not in nums:
                    break
            if e.alias and k == 1:
                x = nums[0]
            nums.append(x)
            e.values.append((r.choice(["VAL", "some_value", "Red", "NONE_"]) + str(self.n), x,
                             r.random() < 0.05))
        into.append(e)

    def msg(self, f, scope, depth):
        r = self.r
        name = self.ident("msg")
        m = Msg(name, (scope + "." if scope else "") + name, f)
        m.deprecated, m.depth = r.random() < 0.05, depth
        m.extendable = f.syntax == "proto2" and r.random() < 0.4
        deep = self.big == "deep" and depth < 8
        if deep or depth < 4 and r.random() < 0.65 - 0.1 * depth:
            for _ in range(r.randint(4, 9) if self.big == "nested" and depth == 0 else 1 if deep and r.random() < 0.8 else r.randint(1, 2)):
                m.nested.append(self.msg(f, m.full, depth + 1))
        if r.random() < 0.3:
            for _ in range(r.randint(1, 12) if self.big == "nested" else 1):
                self.enum(f, m.enums, m.full)
        return m

    # -- contents -------------------------------------------------------------
    def tag(self, m):
        r = self.r
        while True:
            top = 500000 if m.extendable else 2**29 - 1
            t = r.choice([r.randint(1, 8), r.randint(1, 20), r.randint(14, 17),
                          r.randint(2046, 2049), r.randint(1, 1000), r.randint(262142, 262145),
                          top - r.randint(1, 3), r.randint(20000, top - 1)])
            if t not in m.tags and not 19000 <= t <= 19999:
                m.tags.add(t)
                return t

    def ext_tag(self, m):
        r = self.r
        while True:
            t = r.choice([500000 + r.randint(0, 200), 2**29 - 1 - r.randint(0, 3),
                          r.randint(500000, 2**29 - 1)])
            if t not in m.tags:
                m.tags.add(t)
                return t

    def visible(self, f):
        return [f] + f.imports

    def field(self, f, m, ext=False):
        r = self.r
        msgs = [x for g in self.visible(f) for x in g.all() if not x.is_map]
        enums = [e for g in self.visible(f) for e in g.all_enums()
                 if f.syntax == "proto2" or g.syntax == "proto3"]
        t = r.choice(SCALARS + ["message"] * 5 + ["enum"] * 2)
        if t == "enum" and not enums:
            t = "int32"
        if f.syntax == "proto2":
            label = r.choice(["optional"] * 4 + ["repeated"] * 3 + ([] if ext else ["required"]))
        else:
            label = r.choice(["optional", "optional", "repeated"])
        name = self.ident("field")
        x = Field(name, self.ext_tag(m) if ext else self.tag(m), t, label)
        x.file = f
        if t == "message":
            near = [y for y in m.all() if y is not m and not y.is_map] if not ext else []
            x.ref = r.choice(near) if near and r.random() < 0.7 else r.choice(msgs)
        elif t == "enum":
            x.ref = r.choice(enums)
        if label == "repeated" and t not in ("string", "bytes", "message"):
            x.packed = r.choice([None, True, False])
        x.deprecated = r.random() < 0.05
        if f.syntax == "proto2" and label != "repeated" and t != "message" and r.random() < 0.5:
            x.default = self.default(t, x.ref)
        return x

    def default(self, t, ref):
        r = self.r
        if t in ("int32", "sint32", "sfixed32"):
            return str(r.choice([0, 1, -1, 2**31 - 1, -2**31, r.randint(-2**31, 2**31 - 1)]))
        if t in ("int64", "sint64", "sfixed64"):
            return str(r.choice([0, 1, -1, 2**63 - 1, -2**63, -2**63 + 1, 2**31, -2**31 - 1,
                                 r.randint(-2**63, 2**63 - 1)]))
        if t in ("uint32", "fixed32"):
            return str(r.choice([0, 1, 2**31, 2**32 - 1, r.randint(0, 2**32 - 1)]))
        if t in ("uint64", "fixed64"):
            return str(r.choice([0, 1, 2**63, 2**64 - 1, 2**32, r.randint(0, 2**64 - 1)]))
        if t == "bool":
            return r.choice(["true", "false"])
        if t == "enum":
            return r.choice(ref.values)[0]
        if t in ("float", "double"):
            k = r.randint(0, 5)
            if k == 0:
                return r.choice(["inf", "-inf", "nan", "-0.0", "0", "-0", "0.0"])
            if k == 1:
                return r.choice(["1e-45", "1.17549435e-38", "3.4028234e+38", "16777216",
                                 "1.00000012", "0.1", "0.2", "1e10", "1e+20", "-1", "100000000",
                                 "123456789", "1000000", "1e15", "1e16"])
            if k == 2 and t == "double":
                return r.choice(["5e-324", "2.2250738585072014e-308", "1.7976931348623157e+308",
                                 "9007199254740993", "0.30000000000000004"])
            if t == "float":
                while True:
                    v = struct.unpack("<f", struct.pack("<I", r.getrandbits(32)))[0]
                    if v == v and abs(v) < 3.4e38:
                        return repr(v)
            while True:
                v = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
                if v == v and abs(v) < 1.7e308:
                    return repr(v)
        if t == "string":
            pool = ['a', 'B', '0', '7', ' ', '\\"', "\\'", '\\\\', '\\n', '\\r', '\\t', '\\000', '\\001',
                    '?', '??=', '??/', '`', '%', '%s', '*/', '/*', '//', '$', '@', '{', '}', '\\177',
                    '\u00e9', '\u20ac', '\U0001f600', 'f', '#', 'u\\"', '\\x1f']
            return '"' + "".join(r.choice(pool) for _ in range(r.choice([0, 1, 3, 8, 40]))) + '"'
        n = r.choice([0, 1, 2, 9, 70])
        return '"' + "".join("\\%03o" % r.choice([r.randint(0, 255), 0, 63, 34, 92, 255])
                             if r.random() < 0.7 else r.choice("abc01789?`%") for _ in range(n)) + '"'

    def fill(self, f):
        r = self.r
        for m in list(f.all()):
            # Fields of nested types get accessors in all of the enclosing ones.
            many = self.big == "fields" and self.room > 0 and r.random() < 0.4
            k = r.choice([30, 65, 130, 260]) if many else 0
            if m.depth:
                k = min(k, 65)
            self.room -= k
            for _ in range(k if many else r.randint(1, 3) if self.big == "deep" and m.depth else r.choice([0, 1, 2, 4, 6, 9, 14])):
                m.fields.append(self.field(f, m))
            if self.big == "deep":                 # so that there are paths as deep as types
                for y in m.nested:
                    for _ in range(r.choice([0, 1, 1, 1, 1, 2])):
                        x = self.field(f, m)
                        x.type, x.ref, x.label, x.packed, x.default = "message", y, "optional", None, None
                        m.fields.append(x)
            if r.random() < 0.3 and m.fields:      # names that are words of the language
                words = r.sample(WORDS, 3)
                if "default" in words and "create" in words:     # X_create_default: both
                    words.remove("create")
                for x, w in zip(m.fields, words):
                    if x.type != "message" or w not in ("descriptor",):
                        x.name = w
            if r.random() < 0.25:
                self.n += 1
                x = Field(f"map{self.n}", self.tag(m), "message", "repeated")
                k = r.choice(["int32", "uint64", "string", "bool", "sfixed32", "sint64"])
                v = r.choice([t for t in SCALARS if t != "enum"] + ["message"])
                e = Msg(f"Map{self.n}Entry", m.full + f".Map{self.n}Entry", f)
                e.is_map = True
                kf, vf = Field("key", 1, k, "optional"), Field("value", 2, v, "optional")
                kf.file = vf.file = f
                if v == "message":
                    vf.ref = r.choice([y for g in self.visible(f) for y in g.all() if not y.is_map])
                e.fields = [kf, vf]
                m.nested.append(e)
                x.ref, x.map, x.file = e, (k, v, vf.ref), f
                m.fields.append(x)
            if r.random() < 0.4:
                many = self.big == "members" and self.room > 150 and m.depth < 2
                for _ in range(r.randint(3, 12) if many else r.randint(1, 2)):
                    self.n += 1
                    o = r.choice(["choice", "Kind_of", "o"]) + str(self.n)
                    mem = []
                    k = r.choice([10, 40, 90]) if many and len(m.oneofs) < 2 else r.randint(1, 6)
                    self.room -= k
                    for _ in range(k):
                        x = self.field(f, m)
                        if x.label != "repeated":
                            x.label, x.oneof = "oneof", o
                            mem.append(x)
                        else:
                            m.tags.discard(x.tag)
                    if mem:
                        m.oneofs.append(o)
                        m.fields += mem
            # Oneof members stay together; groups come in any order, unrelated to tags.
            groups = {}
            for x in m.fields:
                groups.setdefault(x.oneof or id(x), []).append(x)
            order = list(groups.values())
            r.shuffle(order)
            m.fields = [x for g in order for x in g]
            m.oneofs = [o for o in dict.fromkeys(x.oneof for x in m.fields) if o]
        if f.syntax != "proto2":
            return
        targets = [m for g in self.visible(f) for m in g.all() if m.extendable and
                   (g.lite == "LITE_RUNTIME" or f.lite != "LITE_RUNTIME")]
        if not targets:
            return
        for scope in [None] + [m for m in f.all() if not m.is_map]:
            if r.random() < (0.5 if scope is None else 0.25):
                many = self.big == "exts" and r.random() < 0.6
                few = r.sample(targets, min(len(targets), 2)) if many else targets
                for _ in range(r.choice([8, 20, 45, 100]) if many else r.randint(1, 4)):
                    t = r.choice(few)
                    x = self.field(f, t, ext=True)
                    x.ext_of, x.scope = t, scope
                    (scope.exts if scope else f.exts).append(x)

    # -- text -----------------------------------------------------------------
    def text(self, f):
        o = [f'syntax = "{f.syntax}";']
        if f.package:
            o.append(f"package {f.package};")
        for g in f.imports:
            o.append(f'import {"public " if self.n % 3 == 0 else ""}"{g.path}";')
        if f.lite:
            o.append(f"option optimize_for = {f.lite};")

        def opts(x):
            l = []
            if x.packed is not None:
                l.append(f"packed = {'true' if x.packed else 'false'}")
            if x.default is not None:
                l.append(f"default = {x.default}")
            if x.deprecated:
                l.append("deprecated = true")
            return f" [{', '.join(l)}]" if l else ""

        def field(x, ind):
            if x.map:
                k, v, ref = x.map
                return f"{ind}map<{k}, {'.' + ref.full if ref else v}> {x.name} = {x.tag};"
            t = "." + x.ref.full if x.ref else x.type
            l = "" if x.label == "oneof" or (f.syntax == "proto3" and x.label == "optional") \
                else x.label + " "
            return f"{ind}{l}{t} {x.name} = {x.tag}{opts(x)};"

        def enum(e, ind):
            o.append(f"{ind}enum {e.name} {{")
            if e.alias:
                o.append(f"{ind}  option allow_alias = true;")
            if e.deprecated:
                o.append(f"{ind}  option deprecated = true;")
            for n, v, d in e.values:
                o.append(f"{ind}  {n} = {v}{' [deprecated = true]' if d else ''};")
            o.append(ind + "}")

        def exts(l, ind):
            for x in l:
                o.append(f"{ind}extend .{x.ext_of.full} {{")
                o.append(field(x, ind + "  "))
                o.append(ind + "}")

        def msg(m, ind):
            if m.is_map:
                return
            o.append(f"{ind}message {m.name} {{")
            if m.deprecated:
                o.append(f"{ind}  option deprecated = true;")
            for n in m.nested:
                msg(n, ind + "  ")
            for e in m.enums:
                enum(e, ind + "  ")
            done = set()
            for x in m.fields:
                if x.oneof:
                    if x.oneof not in done:
                        done.add(x.oneof)
                        o.append(f"{ind}  oneof {x.oneof} {{")
                        o.extend(field(y, ind + "    ") for y in m.fields if y.oneof == x.oneof)
                        o.append(ind + "  }")
                else:
                    o.append(field(x, ind + "  "))
            if m.extendable:
                o.append(f"{ind}  extensions 500000 to max;")
            exts(m.exts, ind + "  ")
            o.append(ind + "}")
        for e in f.enums:
            enum(e, "")
        for m in f.messages:
            msg(m, "")
        exts(f.exts, "")
        if f.service and f.messages:
            m = "." + f.messages[0].full
            o.append(f"service Service{self.files.index(f)}_{self.n} {{\n  rpc Call({m}) returns ({m});\n}}")
        return "\n".join(o) + "\n"


def sym(full):
    return full.replace(".", "_").lower()


def field_sym(x):
    """Name of a field in accessors."""
    if not x.ext_of:
        return x.name.lower()
    name = x.name
    if x.scope:
        s = x.scope.full
        pkg = x.file.package
        if pkg and s.startswith(pkg + "."):
            s = s[len(pkg) + 1:]
        name = s.replace(".", "_") + "_" + name
    return "X_" + name.lower()


def shape(case):
    """Text with names replaced, to tell schemas apart."""
    return "\n".join(case.text(f) for f in case.files)


if __name__ == "__main__":
    import sys
    c = Case(int(sys.argv[1]), 3)
    for f in c.files:
        print("//", f.path)
        print(c.text(f))
