#!/usr/bin/env python3
"""Stand-in for tree-gen (not available offline): generates the node classes of a .tree file.
usage: treegen.py FILE.tree OUT.hpp OUT.cpp"""
import re
import sys


class Node:
    def __init__(self, name, parent):
        self.name, self.parent, self.fields, self.children = name, parent, [], []
        self.cls = "".join(p.capitalize() for p in name.split("_"))

    def all_fields(self):
        return self.fields + (self.parent.all_fields() if self.parent else [])


class Field:
    def __init__(self, name, spec):
        self.name = name
        self.ext = False
        m = re.fullmatch(r"(external\s+)?(One|Maybe|Any|Many|Link|OptLink)\s*<\s*([\w:]+)\s*>", spec)
        if m:
            self.ext, self.kind, self.target = bool(m.group(1)), m.group(2), m.group(3)
        else:
            self.kind, self.target = "prim", spec


def parse(text):
    d = {"include": [], "src_include": [], "namespace": [], "location": None, "init": None, "ser": None, "de": None, "header": None, "tree_ns": None}
    text = re.sub(r"(?m)^\s*//.*$", "", text)
    text = re.sub(r"(?m)^\s*#.*$", "", text)
    toks = re.findall(r'"[^"]*"|[{};]|[^\s{};]+', text)
    roots, order = [], []
    i = 0

    def node(i, parent):
        n = Node(toks[i], parent)
        order.append(n)
        assert toks[i + 1] == "{", toks[i:i + 3]
        i += 2
        while toks[i] != "}":
            if toks[i].endswith(":"):
                j = toks.index(";", i)
                n.fields.append(Field(toks[i][:-1], " ".join(toks[i + 1:j])))
                i = j + 1
            else:
                c, i = node(i, n)
                n.children.append(c)
        return n, i + 1

    while i < len(toks):
        t = toks[i]
        if t == "source":
            i += 1
        elif t == "header":
            d["header"] = toks[i + 1].strip('"'); i += 2
        elif t in ("include", "src_include"):
            d[t].append(toks[i + 1].strip('"')); i += 2
        elif t == "namespace":
            d["namespace"].append(toks[i + 1]); i += 2
        elif t == "tree_namespace":
            d["tree_ns"] = toks[i + 1]; i += 2
        elif t == "import":
            i += 2
        elif t == "initialize_function":
            d["init"] = toks[i + 1]; i += 2
        elif t == "serdes_functions":
            d["ser"], d["de"] = toks[i + 1], toks[i + 2]; i += 3
        elif t == "location":
            d["location"] = toks[i + 1]; i += 2
        else:
            n, i = node(i, None)
            roots.append(n)
    d["roots"], d["nodes"] = roots, order
    d["leaves"] = [n for n in order if not n.children]
    d["byname"] = {n.name: n for n in order}
    return d


def ftype(d, f):
    if f.kind == "prim":
        return f.target
    t = f.target if "::" in f.target else d["byname"][f.target].cls
    return f"{f.kind}<{t}>"


def gen_hpp(d):
    o = []
    w = o.append
    w("// Generated by the tree-gen stand-in.")
    w("#pragma once\n#include <any>\n#include <iostream>\n#include <memory>\n#include <string>\n#include <fmt/format.h>\n#include <fmt/ostream.h>")
    for i in d["include"]:
        w(f'#include "{i}"')
    ns = "::".join(d["namespace"])
    w(f"namespace {ns} {{")
    w(f"using Base = {d['tree_ns']}::Base;")
    for k in ("One", "Maybe", "Any", "Many", "Link", "OptLink"):
        w(f"template <class T> using {k} = {d['tree_ns']}::{k}<T>;")
    w("class Node;")
    for n in d["nodes"]:
        w(f"class {n.cls};")
    w("class VisitorBase;\ntemplate <class T = void> class Visitor;")
    w("enum class NodeType { " + ", ".join(n.cls for n in d["leaves"]) + " };")
    w("""class Node : public Base {
public:
    Node() = default;
    Node(const Node&) = default;
    Node& operator=(const Node&) = default;
    virtual NodeType type() const = 0;
    virtual One<Node> copy() const = 0;
    virtual One<Node> clone() const = 0;
    virtual bool equals(const Node& rhs) const = 0;
    virtual bool operator==(const Node& rhs) const = 0;
    bool operator!=(const Node& rhs) const { return !(*this == rhs); }
    virtual void visit_internal(VisitorBase& visitor, void* retval) = 0;
    template <class T> T visit(Visitor<T>& visitor);
    void dump(std::ostream& out = std::cout, int indent = 0);
    void dump_json(std::ostream& out = std::cout);
    void dump_raw_pointers(std::ostream& out = std::cout, int indent = 0);
    virtual void dump_(std::ostream& out, int indent, int mode) = 0;
    virtual void dump_json_(std::ostream& out) = 0;
    void serialize(::tree::cbor::MapWriter& map, const ::tree::base::PointerMap& ids) const override = 0;
    static std::shared_ptr<Node> deserialize(const ::tree::cbor::MapReader& map);""")
    for n in d["nodes"]:
        w(f"    virtual {n.cls}* as_{n.name}() {{ return nullptr; }}")
        w(f"    virtual const {n.cls}* as_{n.name}() const {{ return nullptr; }}")
    w("};")
    for n in d["nodes"]:
        base = n.parent.cls if n.parent else "Node"
        w(f"class {n.cls} : public {base} {{\npublic:")
        for f in n.fields:
            w(f"    {ftype(d, f)} {f.name};")
        af = n.all_fields()
        w(f"    {n.cls}();")
        if af:
            args = []
            for k, f in enumerate(af):
                t = ftype(d, f)
                args.append(f"const {t}& {f.name}" + (f" = {d['init']}<{t}>()" if k else ""))
            w(f"    explicit {n.cls}({', '.join(args)});" if False else f"    {n.cls}({', '.join(args)});")
        w("    void find_reachable(::tree::base::PointerMap& map) const override;")
        w("    void check_complete(const ::tree::base::PointerMap& map) const override;")
        w(f"    {n.cls}* as_{n.name}() override {{ return this; }}")
        w(f"    const {n.cls}* as_{n.name}() const override {{ return this; }}")
        if not n.children:
            w("    NodeType type() const override;\n    One<Node> copy() const override;\n    One<Node> clone() const override;")
            w("    bool equals(const Node& rhs) const override;\n    bool operator==(const Node& rhs) const override;")
            w("    void visit_internal(VisitorBase& visitor, void* retval) override;")
            w("    void dump_(std::ostream& out, int indent, int mode) override;\n    void dump_json_(std::ostream& out) override;")
            w("    void serialize(::tree::cbor::MapWriter& map, const ::tree::base::PointerMap& ids) const override;")
            w(f"    static std::shared_ptr<{n.cls}> deserialize_(const ::tree::cbor::MapReader& map);")
        w("};")
    w("class VisitorBase {\npublic:\n    virtual ~VisitorBase() = default;\n    virtual void raw_visit_node(Node& node, void* retval) = 0;")
    for n in d["nodes"]:
        w(f"    virtual void raw_visit_{n.name}({n.cls}& node, void* retval) = 0;")
    w("};")
    w("template <class T> class Visitor : public VisitorBase {\npublic:")
    w("    void raw_visit_node(Node& node, void* retval) override { put(retval, [&]() -> T { return this->visit_node(node); }); }")
    for n in d["nodes"]:
        w(f"    void raw_visit_{n.name}({n.cls}& node, void* retval) override {{ put(retval, [&]() -> T {{ return this->visit_{n.name}(node); }}); }}")
    w("    virtual T visit_node(Node& node) = 0;")
    for n in d["nodes"]:
        w(f"    virtual T visit_{n.name}({n.cls}& node) {{ return visit_{n.parent.name if n.parent else 'node'}(node); }}")
    w("""private:
    template <class F> static void put(void* retval, F f) {
        if constexpr (std::is_void_v<T>) { (void)retval; f(); } else if (retval) *static_cast<T*>(retval) = f(); else f();
    }
};
template <class T> T Node::visit(Visitor<T>& visitor) {
    if constexpr (std::is_void_v<T>) visit_internal(visitor, nullptr);
    else { T retval; visit_internal(visitor, &retval); return retval; }
}
std::ostream& operator<<(std::ostream& os, const Node& object);""")
    w(f"}}  // namespace {ns}")
    w(f"template <> struct fmt::formatter<{ns}::Node> : fmt::ostream_formatter {{}};")
    for n in d["nodes"]:
        w(f"template <> struct fmt::formatter<{ns}::{n.cls}> : fmt::ostream_formatter {{}};")
    return "\n".join(o) + "\n"


def gen_cpp(d):
    o = []
    w = o.append
    w("// Generated by the tree-gen stand-in.\n#include <locale>\n#include <sstream>\n#include <stdexcept>\n#include <type_traits>")
    for i in d["src_include"]:
        w(f'#include "{i}"')
    w(f'#include "{d["header"]}"')
    ns = "::".join(d["namespace"])
    w(f"namespace {ns} {{")
    w("""namespace {
void pad(std::ostream& out, int indent) { for (int i = 0; i < indent; ++i) out << "  "; }
template <class T> void put_prim(std::ostream& out, int indent, const T& v, const char* type) {
    std::stringstream ss;
    ss.exceptions(std::ios_base::badbit);
    if constexpr (std::is_arithmetic_v<T>) ss.imbue(std::locale::classic());
    ss << v;
    auto s = ss.str();
    if (auto pos = s.find_last_not_of(" \\n\\r\\t"); pos != std::string::npos) s.erase(pos + 1);
    if (s.find('\\n') == std::string::npos) { out << s << '\\n'; return; }
    out << type << "<<" << '\\n';
    std::stringstream lines(s);
    std::string line;
    while (std::getline(lines, line)) { pad(out, indent + 1); out << line << '\\n'; }
    pad(out, indent);
    out << ">>" << '\\n';
}
template <class T> void put_json(std::ostream& out, const T& v) {
    std::stringstream ss;
    ss.exceptions(std::ios_base::badbit);
    if constexpr (std::is_arithmetic_v<T>) ss.imbue(std::locale::classic());
    ss << v;
    auto s = ss.str();
    if (auto pos = s.find_last_not_of(" \\n\\r\\t"); pos != std::string::npos) s.erase(pos + 1);
    if (s.find('\\n') == std::string::npos) { out << '"' << s << '"'; return; }
    out << '"';
    for (char c : s) { if (c == '\\n') out << "\\\\n"; else if (c == '"') out << "\\\\\\""; else out << c; }
    out << '"';
}
}  // namespace""")
    init = d["init"]
    for n in d["nodes"]:
        base = n.parent.cls if n.parent else "Node"
        af = n.all_fields()
        inits = ", ".join(f"{f.name}({init}<{ftype(d, f)}>())" for f in n.fields)
        w(f"{n.cls}::{n.cls}(){' : ' + inits if inits else ''} {{}}")
        if af:
            args = ", ".join(f"const {ftype(d, f)}& {f.name}" for f in af)
            pf = n.parent.all_fields() if n.parent else []
            il = ([f"{base}({', '.join(f.name for f in pf)})"] if pf else []) + [f"{f.name}({f.name})" for f in n.fields]
            w(f"{n.cls}::{n.cls}({args}) : {', '.join(il)} {{}}")
        edges = [f for f in n.fields if f.kind != "prim"]
        call = f"    {base}::find_reachable(map);\n" if n.parent else ""
        w(f"void {n.cls}::find_reachable(::tree::base::PointerMap& map) const {{\n    (void)map;\n{call}" + "".join(f"    {f.name}.find_reachable(map);\n" for f in edges) + "}")
        call = f"    {base}::check_complete(map);\n" if n.parent else ""
        w(f"void {n.cls}::check_complete(const ::tree::base::PointerMap& map) const {{\n    (void)map;\n{call}" + "".join(f"    {f.name}.check_complete(map);\n" for f in edges) + "}")
        if n.children:
            continue
        c = n.cls
        w(f"NodeType {c}::type() const {{ return NodeType::{c}; }}")
        w(f"One<Node> {c}::copy() const {{ return One<Node>(std::make_shared<{c}>(*this)); }}")
        w(f"One<Node> {c}::clone() const {{\n    auto node = std::make_shared<{c}>(*this);")
        for f in af:
            if f.kind in ("One", "Maybe", "Any", "Many"):
                w(f"    node->{f.name} = this->{f.name}.clone();")
        w("    return One<Node>(std::move(node));\n}")
        for nm, op in (("equals", "equals"), ("operator==", "==")):
            w(f"bool {c}::{nm}(const Node& rhs) const {{\n    if (rhs.type() != NodeType::{c}) return false;\n    auto& o = dynamic_cast<const {c}&>(rhs);\n    (void)o;")
            for f in af:
                if f.kind == "prim" or op == "==":
                    w(f"    if (!(this->{f.name} == o.{f.name})) return false;")
                else:
                    w(f"    if (!this->{f.name}.equals(o.{f.name})) return false;")
            w("    return true;\n}")
        w(f"void {c}::visit_internal(VisitorBase& visitor, void* retval) {{ visitor.raw_visit_{n.name}(*this, retval); }}")
        # dump
        w(f"void {c}::dump_(std::ostream& out, int indent, int mode) {{\n    pad(out, indent);\n    out << \"{c}(\";")
        if d["location"]:
            w(f"    if (auto loc = this->get_annotation_ptr<{d['location']}>()) out << \" # \" << *loc;")
        if not af:
            w("    out << \")\" << '\\n';\n    (void)mode;\n}")
        else:
            w("    out << '\\n';")
            for f in af:
                w("    pad(out, indent + 1);")
                if f.kind == "prim":
                    w(f"    out << \"{f.name}: \";\n    put_prim(out, indent + 1, this->{f.name}, \"{f.target}\");")
                elif f.kind in ("One", "Maybe"):
                    miss = "-" if f.kind == "Maybe" else "!MISSING"
                    w(f"    if (this->{f.name}.empty()) out << \"{f.name}: {miss}\" << '\\n';")
                    w(f"    else {{ out << \"{f.name}: <\" << '\\n'; this->{f.name}->dump_(out, indent + 2, mode); pad(out, indent + 1); out << \">\" << '\\n'; }}")
                elif f.kind in ("Any", "Many"):
                    miss = "[]" if f.kind == "Any" else "!MISSING"
                    w(f"    if (this->{f.name}.empty()) out << \"{f.name}: {miss}\" << '\\n';")
                    w(f"    else {{ out << \"{f.name}: [\" << '\\n'; for (auto& e : this->{f.name}) if (!e.empty()) e->dump_(out, indent + 2, mode); else {{ pad(out, indent + 2); out << \"!NULL\" << '\\n'; }} pad(out, indent + 1); out << \"]\" << '\\n'; }}")
                else:
                    miss = "-" if f.kind == "OptLink" else "!MISSING"
                    w(f"    if (this->{f.name}.empty()) out << \"{f.name} --> {miss}\" << '\\n';")
                    w(f"    else {{ out << \"{f.name} --> <\" << '\\n'; this->{f.name}->dump_(out, indent + 2, mode); pad(out, indent + 1); out << \">\" << '\\n'; }}")
            w("    pad(out, indent);\n    out << \")\" << '\\n';\n}")
        # json
        w(f"void {c}::dump_json_(std::ostream& out) {{\n    out << \"{{\\\"{c}\\\":{{\";\n    bool first = true; (void)first;")
        for f in af:
            w(f"    out << (first ? \"\" : \",\") << \"\\\"{f.name}\\\":\"; first = false;")
            if f.kind == "prim":
                w(f"    put_json(out, this->{f.name});")
            elif f.kind in ("Any", "Many"):
                miss = "[]" if f.kind == "Any" else "\\\"!MISSING\\\""
                w(f"    if (this->{f.name}.empty()) out << \"{miss}\"; else {{ out << '['; bool c1 = false; for (auto& e : this->{f.name}) {{ if (c1) out << ','; c1 = true; if (e.empty()) out << \"\\\"!NULL\\\"\"; else e->dump_json_(out); }} out << ']'; }}")
            else:
                miss = "-" if f.kind in ("Maybe", "OptLink") else "!MISSING"
                w(f"    if (this->{f.name}.empty()) out << \"\\\"{miss}\\\"\"; else this->{f.name}->dump_json_(out);")
        if d["location"]:
            w(f"    if (auto loc = this->get_annotation_ptr<{d['location']}>()) out << (first ? \"\" : \",\") << \"\\\"source_location\\\":\\\"\" << *loc << \"\\\"\";")
        w("    out << \"}}\";\n}")
        # serialize
        w(f"void {c}::serialize(::tree::cbor::MapWriter& map, const ::tree::base::PointerMap& ids) const {{\n    (void)ids;\n    map.append_string(\"@t\", \"{c}\");")
        for f in af:
            w(f"    {{ auto m = map.append_map(\"{f.name}\");")
            if f.kind == "prim":
                w(f"      {d['ser']}<{f.target}>(this->{f.name}, m);")
            elif f.kind in ("One", "Maybe"):
                w(f"      if (this->{f.name}.empty()) m.append_null(\"@t\"); else {{ m.append_int(\"@i\", static_cast<int64_t>(ids.get_raw(this->{f.name}.get_ptr().get()))); this->{f.name}->serialize(m, ids); }}")
            elif f.kind in ("Any", "Many"):
                w(f"      auto a = m.append_array(\"@d\"); for (auto& e : this->{f.name}) {{ auto em = a.append_map(); em.append_int(\"@i\", static_cast<int64_t>(ids.get_raw(e.get_ptr().get()))); e->serialize(em, ids); em.close(); }} a.close();")
            else:
                w(f"      if (this->{f.name}.empty()) m.append_null(\"@l\"); else m.append_int(\"@l\", static_cast<int64_t>(ids.get_raw(this->{f.name}.get_ptr().get())));")
            w("      m.close(); }")
        w("}")
        links = any(f.kind in ("Link", "OptLink") for f in af)
        w(f"std::shared_ptr<{c}> {c}::deserialize_(const ::tree::cbor::MapReader& map) {{\n    (void)map;")
        if links:
            w("    throw std::runtime_error(\"links are not read back by this stand-in\");\n}")
        else:
            w(f"    auto node = std::make_shared<{c}>();")
            for f in af:
                if f.kind == "prim":
                    w(f"    node->{f.name} = {d['de']}<{f.target}>(map.at(\"{f.name}\").as_map());")
                else:
                    t = f.target if "::" in f.target else d["byname"][f.target].cls
                    if f.kind in ("One", "Maybe"):
                        w(f"    {{ auto m = map.at(\"{f.name}\").as_map(); if (!m.at(\"@t\").is_null()) node->{f.name} = {f.kind}<{t}>(std::static_pointer_cast<{t}>({t}::deserialize(m))); }}")
                    else:
                        w(f"    {{ auto m = map.at(\"{f.name}\").as_map(); for (auto& e : m.at(\"@d\").as_array()) node->{f.name}.add(One<{t}>(std::static_pointer_cast<{t}>({t}::deserialize(e.as_map())))); }}")
            w("    return node;\n}")
    w("std::shared_ptr<Node> Node::deserialize(const ::tree::cbor::MapReader& map) {\n    auto t = map.at(\"@t\").as_string();")
    for n in d["leaves"]:
        w(f"    if (t == \"{n.cls}\") return {n.cls}::deserialize_(map);")
    w("    throw std::runtime_error(\"Schema validation failed: unexpected node type \" + t);\n}")
    w("void Node::dump(std::ostream& out, int indent) { dump_(out, indent, 0); }")
    w("void Node::dump_json(std::ostream& out) { dump_json_(out); }")
    w("void Node::dump_raw_pointers(std::ostream& out, int indent) { dump_(out, indent, 1); }")
    w("std::ostream& operator<<(std::ostream& os, const Node& object) { const_cast<Node&>(object).dump(os); return os; }")
    w(f"}}  // namespace {ns}")
    return "\n".join(o) + "\n"


if __name__ == "__main__":
    d = parse(open(sys.argv[1]).read())
    open(sys.argv[2], "w").write(gen_hpp(d))
    open(sys.argv[3], "w").write(gen_cpp(d))
