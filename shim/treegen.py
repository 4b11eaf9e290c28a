#!/usr/bin/env python3
"""Stand-in for the tree-gen executable: .tree specification -> C++ header + source.

usage: treegen.py SPEC.tree OUT.hpp OUT.cpp
"""
import re
import sys


class Node:
    def __init__(self, name, parent):
        self.name = name
        self.parent = parent
        self.fields = []
        self.children = []

    @property
    def title(self):
        return ''.join(p[:1].upper() + p[1:] for p in self.name.split('_'))

    def all_fields(self):
        ret = list(self.fields)
        if self.parent:
            ret += self.parent.all_fields()
        return ret


class Field:
    def __init__(self, name, kind, typ, external):
        self.name, self.kind, self.typ, self.external = name, kind, typ, external


EDGES = ('Maybe', 'One', 'Any', 'Many', 'OptLink', 'Link')


def tokenize(text):
    lines = []
    for line in text.split('\n'):
        # Comments start with '#' or '//' and run to the end of the line; none of the specs has them inside strings.
        line = re.sub(r'(#|//).*$', '', line)
        lines.append(line)
    text = '\n'.join(lines)
    tok = re.compile(r'\s+|("[^"]*")|([A-Za-z_][A-Za-z0-9_]*(?:::[A-Za-z_][A-Za-z0-9_]*|\.[A-Za-z_][A-Za-z0-9_]*)*)|([{}:;<>])')
    pos = 0
    out = []
    while pos < len(text):
        m = tok.match(text, pos)
        if not m:
            raise SystemExit(f'treegen: bad character {text[pos]!r} at offset {pos}')
        pos = m.end()
        for g in m.groups():
            if g:
                out.append(g)
    return out


class Spec:
    def __init__(self, path):
        self.includes, self.src_includes, self.namespace = [], [], []
        self.header = self.tree_ns = self.init = self.ser = self.des = self.location = None
        self.nodes = []
        self.roots = []
        self.by_name = {}
        self.toks = tokenize(open(path).read())
        self.i = 0
        self.parse()

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def expect(self, t):
        got = self.next()
        if got != t:
            raise SystemExit(f'treegen: expected {t!r}, got {got!r}')

    def parse(self):
        while self.peek() is not None:
            t = self.next()
            if t == 'source':
                pass
            elif t == 'header':
                self.header = self.next()
            elif t == 'include':
                self.includes.append(self.next())
            elif t == 'src_include':
                self.src_includes.append(self.next())
            elif t == 'import':
                self.next()
            elif t == 'tree_namespace':
                self.tree_ns = self.next()
            elif t == 'namespace':
                self.namespace.append(self.next())
            elif t == 'initialize_function':
                self.init = self.next()
            elif t == 'serdes_functions':
                self.ser, self.des = self.next(), self.next()
            elif t == 'location':
                self.location = self.next()
            elif self.peek() == '{':
                self.node(t, None)
            else:
                raise SystemExit(f'treegen: unknown directive {t!r}')
        for n in self.nodes:
            for f in n.fields:
                if f.kind in EDGES and not f.external:
                    if f.typ not in self.by_name:
                        raise SystemExit(f'treegen: unknown node {f.typ}')

    def node(self, name, parent):
        n = Node(name, parent)
        self.nodes.append(n)
        self.by_name[name] = n
        (parent.children if parent else self.roots).append(n)
        self.expect('{')
        while self.peek() != '}':
            ident = self.next()
            if self.peek() == '{':
                self.node(ident, n)
                continue
            self.expect(':')
            external = False
            t = self.next()
            if t == 'external':
                external = True
                t = self.next()
            if self.peek() == '<':
                self.next()
                arg = self.next()
                self.expect('>')
                if t not in EDGES:
                    raise SystemExit(f'treegen: unknown edge type {t}')
                n.fields.append(Field(ident, t, arg, external))
            else:
                n.fields.append(Field(ident, 'Prim', t, external))
            self.expect(';')
        self.expect('}')


def generate(spec, hpp_path, cpp_path):
    ns = '::'.join(spec.namespace)
    tns = spec.tree_ns

    def ftype(f):
        if f.kind == 'Prim':
            return f.typ
        inner = f.typ if f.external else spec.by_name[f.typ].title
        return f'{f.kind}<{inner}>'

    def finit(f):
        return f'{spec.init}<{f.typ}>()' if f.kind == 'Prim' else f'{ftype(f)}()'

    h = ['#pragma once', '', '#include <functional>', '#include <iostream>', '#include <memory>', '#include <string>']
    h += [f'#include {x}' for x in spec.includes]
    h.append('')
    h.append(f'namespace {ns} {{')
    for e in EDGES:
        h.append(f'template <class T> using {e} = {tns}::{e}<T>;')
    h.append('class Node;')
    for n in spec.nodes:
        h.append(f'class {n.title};')
    h.append('class VisitorBase;')
    h.append('template <typename T = void> class Visitor;')
    leaves = [n for n in spec.nodes if not n.children]
    h.append('enum class NodeType { ' + ', '.join(n.title for n in leaves) + ' };')
    h.append(f'class Node : public {tns}::Base {{\npublic:')
    h.append('    virtual NodeType type() const = 0;')
    h.append('    virtual const char* type_name() const = 0;')
    h.append('    virtual One<Node> copy() const = 0;')
    h.append('    virtual One<Node> clone() const = 0;')
    h.append('    virtual bool equals(const Node& rhs) const = 0;')
    h.append('    virtual bool operator==(const Node& rhs) const = 0;')
    h.append('    bool operator!=(const Node& rhs) const { return !(*this == rhs); }')
    h.append('    virtual void visit_internal(VisitorBase& visitor, void* retval) = 0;')
    h.append('    template <typename T> T visit(Visitor<T>& visitor);')
    h.append('    virtual void dump(std::ostream& out = std::cout, int indent = 0) const = 0;')
    h.append('    virtual void dump_json(std::ostream& out = std::cout) const = 0;')
    h.append('    void dump_raw_pointers(std::ostream& out = std::cout, int indent = 0) const { dump(out, indent); }')
    for n in spec.nodes:
        h.append(f'    virtual {n.title}* as_{n.name}() {{ return nullptr; }}')
        h.append(f'    virtual const {n.title}* as_{n.name}() const {{ return nullptr; }}')
    h.append('    static std::shared_ptr<Node> deserialize_node('
             'const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids);')
    h.append('};')
    for n in spec.nodes:
        base = n.parent.title if n.parent else 'Node'
        h.append(f'class {n.title} : public {base} {{\npublic:')
        for f in n.fields:
            h.append(f'    {ftype(f)} {f.name};')
        fs = n.all_fields()
        params = ', '.join(f'const {ftype(f)}& {f.name}_ = {finit(f)}' for f in fs)
        h.append(f'    {n.title}({params});')
        if not n.children:
            h.append('    NodeType type() const override;')
            h.append('    const char* type_name() const override;')
            h.append('    One<Node> copy() const override;')
            h.append('    One<Node> clone() const override;')
            h.append('    bool equals(const Node& rhs) const override;')
            h.append('    bool operator==(const Node& rhs) const override;')
            h.append('    void dump(std::ostream& out = std::cout, int indent = 0) const override;')
            h.append('    void dump_json(std::ostream& out = std::cout) const override;')
            h.append('    void find_reachable(::tree::base::PointerMap& map) const override;')
            h.append('    void check_complete(const ::tree::base::PointerMap& map) const override;')
            h.append('    void serialize(::tree::cbor::MapWriter& map, '
                     'const ::tree::base::PointerMap& ids) const override;')
            h.append(f'    static std::shared_ptr<{n.title}> deserialize_self('
                     'const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids);')
            h.append('    void visit_internal(VisitorBase& visitor, void* retval) override;')
        h.append(f'    {n.title}* as_{n.name}() override;')
        h.append(f'    const {n.title}* as_{n.name}() const override;')
        h.append('};')
    h.append('class VisitorBase {\npublic:\n    virtual ~VisitorBase() = default;')
    for n in leaves:
        h.append(f'    virtual void raw_visit_{n.name}({n.title}& node, void* retval) = 0;')
    h.append('};')
    for void in (False, True):
        h.append('template <typename T> class Visitor : public VisitorBase {' if not void else
                 'template <> class Visitor<void> : public VisitorBase {')
        h.append('public:')
        t = 'void' if void else 'T'
        for n in leaves:
            if void:
                h.append(f'    void raw_visit_{n.name}({n.title}& node, void*) override {{ visit_{n.name}(node); }}')
            else:
                h.append(f'    void raw_visit_{n.name}({n.title}& node, void* retval) override {{ '
                         f'*static_cast<T*>(retval) = this->visit_{n.name}(node); }}')
        h.append(f'    virtual {t} visit_node(Node& node) = 0;')
        for n in spec.nodes:
            p = n.parent.name if n.parent else 'node'
            h.append(f'    virtual {t} visit_{n.name}({n.title}& node) {{ return visit_{p}(node); }}')
        h.append('};')
    h.append('template <typename T> T Node::visit(Visitor<T>& visitor) {\n'
             '    T retval{};\n    visit_internal(visitor, &retval);\n    return retval;\n}')
    h.append('template <> inline void Node::visit(Visitor<void>& visitor) { visit_internal(visitor, nullptr); }')
    h.append('std::ostream& operator<<(std::ostream& os, const Node& object);')
    h.append(f'}}  // namespace {ns}')
    h.append('')
    open(hpp_path, 'w').write('\n'.join(h))

    c = [f'#include {spec.header}']
    c += [f'#include {x}' for x in spec.src_includes]
    c.append('#include "treegen-dump.hpp"')
    c.append(f'namespace {ns} {{')
    for n in spec.nodes:
        fs = n.all_fields()
        own = n.fields
        inherited = fs[len(own):]
        params = ', '.join(f'const {ftype(f)}& {f.name}_' for f in fs)
        base = n.parent.title if n.parent else None
        inits = []
        if base:
            inits.append(f'{base}(' + ', '.join(f'{f.name}_' for f in inherited) + ')')
        inits += [f'{f.name}({f.name}_)' for f in own]
        c.append(f'{n.title}::{n.title}({params})' + (' : ' + ', '.join(inits) if inits else '') + ' {}')
        c.append(f'{n.title}* {n.title}::as_{n.name}() {{ return this; }}')
        c.append(f'const {n.title}* {n.title}::as_{n.name}() const {{ return this; }}')
        if n.children:
            continue
        T = n.title
        c.append(f'NodeType {T}::type() const {{ return NodeType::{T}; }}')
        c.append(f'const char* {T}::type_name() const {{ return "{T}"; }}')
        c.append(f'One<Node> {T}::copy() const {{ return One<Node>(std::make_shared<{T}>(*this)); }}')
        c.append(f'One<Node> {T}::clone() const {{\n    auto node = std::make_shared<{T}>(*this);')
        for f in fs:
            if f.kind in ('Maybe', 'One', 'Any', 'Many'):
                c.append(f'    node->{f.name} = this->{f.name}.clone();')
        c.append('    return One<Node>(node);\n}')
        c.append(f'bool {T}::equals(const Node& rhs) const {{\n'
                 f'    if (rhs.type() != NodeType::{T}) return false;\n'
                 f'    [[maybe_unused]] auto& r = dynamic_cast<const {T}&>(rhs);')
        for f in fs:
            if f.kind == 'Prim':
                c.append(f'    if (!(this->{f.name} == r.{f.name})) return false;')
            else:
                c.append(f'    if (!this->{f.name}.equals(r.{f.name})) return false;')
        c.append('    return true;\n}')
        c.append(f'bool {T}::operator==(const Node& rhs) const {{ return equals(rhs); }}')
        c.append(f'void {T}::find_reachable([[maybe_unused]] ::tree::base::PointerMap& map) const {{')
        for f in fs:
            if f.kind not in ('Prim', 'Link', 'OptLink'):
                c.append(f'    this->{f.name}.find_reachable(map);')
        c.append('}')
        c.append(f'void {T}::check_complete([[maybe_unused]] const ::tree::base::PointerMap& map) const {{')
        for f in fs:
            if f.kind != 'Prim':
                c.append(f'    this->{f.name}.check_complete(map);')
        c.append('}')
        c.append(f'void {T}::visit_internal(VisitorBase& visitor, void* retval) {{ '
                 f'visitor.raw_visit_{n.name}(*this, retval); }}')
        # dump
        c.append(f'void {T}::dump(std::ostream& out, int indent) const {{')
        if fs:
            c.append(f'    out << "{T}(";')
            if spec.location:
                c.append(f'    if (auto loc = this->get_annotation_ptr<{spec.location}>()) out << " # " << *loc;')
            c.append('    out << "\\n";')
            for f in fs:
                if f.kind == 'Prim':
                    c.append(f'    treegen_dump::prim(out, indent + 1, "{f.name}", "{f.typ}", this->{f.name});')
                elif f.kind in ('Maybe', 'One'):
                    c.append(f'    treegen_dump::one(out, indent + 1, "{f.name}", this->{f.name}, '
                             f'{"true" if f.kind == "Maybe" else "false"});')
                elif f.kind in ('Any', 'Many'):
                    c.append(f'    treegen_dump::any(out, indent + 1, "{f.name}", this->{f.name}, '
                             f'{"true" if f.kind == "Any" else "false"});')
                else:
                    c.append(f'    treegen_dump::link(out, indent + 1, "{f.name}", this->{f.name}, '
                             f'{"true" if f.kind == "OptLink" else "false"});')
            c.append('    treegen_dump::ind(out, indent);\n    out << ")";')
        else:
            c.append(f'    out << "{T}()";')
            if spec.location:
                c.append(f'    if (auto loc = this->get_annotation_ptr<{spec.location}>()) out << " # " << *loc;')
        c.append('    if (indent >= 0) out << "\\n";')
        c.append('}')
        # json
        c.append(f'void {T}::dump_json(std::ostream& out) const {{')
        c.append(f'    out << "{{\\"{T}\\":{{";')
        first = True
        for f in fs:
            c.append(f'    out << "{"" if first else ","}\\"{f.name}\\":";')
            first = False
            if f.kind == 'Prim':
                c.append(f'    treegen_dump::json_prim(out, this->{f.name});')
            elif f.kind in ('Maybe', 'One', 'Link', 'OptLink'):
                missing = '-' if f.kind in ('Maybe', 'OptLink') else '!MISSING'
                c.append(f'    treegen_dump::json_one(out, this->{f.name}, "{missing}");')
            else:
                c.append(f'    treegen_dump::json_any(out, this->{f.name});')
        if spec.location:
            c.append(f'    if (auto loc = this->get_annotation_ptr<{spec.location}>()) {{ '
                     f'out << "{"" if first else ","}\\"source_location\\":"; treegen_dump::json_prim(out, *loc); }}')
        c.append('    out << "}}";\n}')
        # serdes
        c.append(f'void {T}::serialize(::tree::cbor::MapWriter& map, '
                 f'[[maybe_unused]] const ::tree::base::PointerMap& ids) const {{')
        c.append(f'    map.append_string("@t", "{T}");')
        for f in fs:
            c.append(f'    {{ auto sub = map.append_map("{f.name}");')
            if f.kind == 'Prim':
                c.append(f'    {spec.ser}<{f.typ}>(this->{f.name}, sub);')
            else:
                c.append(f'    this->{f.name}.serialize(sub, ids);')
            c.append('    sub.close(); }')
        c.append('}')
        c.append(f'std::shared_ptr<{T}> {T}::deserialize_self([[maybe_unused]] const ::tree::cbor::MapReader& map, '
                 f'[[maybe_unused]] ::tree::base::IdentifierMap& ids) {{')
        c.append(f'    auto node = std::make_shared<{T}>();')
        for f in fs:
            if f.kind == 'Prim':
                c.append(f'    node->{f.name} = {spec.des}<{f.typ}>(map.at("{f.name}").as_map());')
            else:
                c.append(f'    node->{f.name}.deserialize(map.at("{f.name}").as_map(), ids);')
        c.append('    return node;\n}')
    c.append('std::shared_ptr<Node> Node::deserialize_node('
             'const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids) {')
    c.append('    auto type = map.at("@t").as_string();')
    for n in leaves:
        c.append(f'    if (type == "{n.title}") return {n.title}::deserialize_self(map, ids);')
    c.append('    throw std::runtime_error("schema validation failed: unexpected node type " + type);\n}')
    c.append('std::ostream& operator<<(std::ostream& os, const Node& object) { object.dump(os); return os; }')
    c.append(f'}}  // namespace {ns}')
    c.append('')
    open(cpp_path, 'w').write('\n'.join(c))


if __name__ == '__main__':
    generate(Spec(sys.argv[1]), sys.argv[2], sys.argv[3])
