"""C32: the Python package against the native library (through a helper process) and an independent CBOR codec.

The generated modules (ast, semantic, types) and the SWIG module do not exist here; stand-ins record what they get.
"""
import importlib
import math
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import types as pytypes

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pypbt  # noqa: E402
from pypbt import check  # noqa: E402

REPO = os.environ.get("LIBQASM_REPO", "/repo")
SCRATCH = tempfile.mkdtemp(prefix="c32-")


# ---- an independent CBOR codec ------------------------------------------------------------------------------------

class Break(Exception):
    pass


def cbor_read(b, i=0):
    t, i = b[i], i + 1
    major, info = t >> 5, t & 31
    if t == 0xff:
        raise Break()
    if major < 7 and info != 31:
        if info < 24:
            n = info
        elif info < 28:
            k = 1 << (info - 24)
            n, i = int.from_bytes(b[i:i + k], "big"), i + k
        else:
            raise ValueError("bad CBOR")
    else:
        n = None
    if major == 0:
        return n, i
    if major == 1:
        return -1 - n, i
    if major in (2, 3):
        if n is None:
            raise ValueError("indefinite string")
        raw = b[i:i + n]
        if len(raw) != n:
            raise ValueError("short string")
        return (raw if major == 2 else raw.decode("utf-8")), i + n
    if major == 4:
        out = []
        while n is None or len(out) < n:
            if n is None and b[i] == 0xff:
                return out, i + 1
            v, i = cbor_read(b, i)
            out.append(v)
        return out, i
    if major == 5:
        out = {}
        while n is None or len(out) < n:
            if n is None and b[i] == 0xff:
                return out, i + 1
            k, i = cbor_read(b, i)
            v, i = cbor_read(b, i)
            out[k] = v
        return out, i
    if major == 7:
        if info == 20:
            return False, i
        if info == 21:
            return True, i
        if info == 22:
            return None, i
        if info == 27:
            return struct.unpack(">d", b[i:i + 8])[0], i + 8
        if info == 26:
            return struct.unpack(">f", b[i:i + 4])[0], i + 4
    raise ValueError("CBOR type not expected here")


def cbor_value(b):
    v, i = cbor_read(b)
    if i != len(b):
        raise ValueError("trailing bytes after CBOR value")
    return v


# ---- stand-ins ----------------------------------------------------------------------------------------------------

class Node:
    """A type node: kind and, for those that have one, size. Serializes to bytes like the generated class."""

    def __init__(self, kind, size=1):
        self.kind, self.size = kind, size

    def serialize(self):
        return b"node:" + self.kind.encode() + b":" + str(self.size).encode()

    @classmethod
    def deserialize(cls, data):
        check(isinstance(data, bytes), "a type is deserialized from %r" % (data,))
        if data.startswith(b"node:"):
            _, k, n = data.split(b":")
            return cls(k.decode(), int(n))
        m = cbor_value(data)
        return cls(m["@t"], m["size"]["x"] if "size" in m else 1)

    def __eq__(self, o):
        return isinstance(o, Node) and (self.kind, self.size) == (o.kind, o.size)

    def __hash__(self):
        return hash((self.kind, self.size))

    def __str__(self):
        return "%s[%d]" % (self.kind, self.size)

    __repr__ = __str__


class Derived(Node):
    """The classes of the types derive from Node."""


class Recorder:
    """Stand-in for ast.Root / semantic.Program."""

    def __init__(self, name):
        self.name = name

    def deserialize(self, data):
        return (self.name, data)


class Native:
    """What the SWIG module would answer: either a prepared list, or the helper's answer."""
    prepared = None
    calls = []

    @classmethod
    def answer(cls, op, args):
        cls.calls.append((op, args))
        if cls.prepared is not None:
            return cls.prepared
        enc = [a.encode("utf-8", "surrogateescape") for a in args]
        if not op.split("_")[1].startswith("file") and len(enc) == 1:
            enc.append(b"")
        r = helper([op.encode()] + enc)
        r = [x.decode("utf-8", "surrogateescape") for x in r]  # as SWIG does it
        return r[0] if op.endswith("_to_json") else r


def make_libqasm():
    m = pytypes.ModuleType("libqasm")

    class V3xAnalyzer:
        def __init__(self, *a):
            self.init_args = a

        def analyze_file(self, *a):
            return Native.answer("analyze_file", a)

        def analyze_file_to_json(self, *a):
            return Native.answer("analyze_file_to_json", a)

        def analyze_string(self, *a):
            return Native.answer("analyze_string", a)

        def analyze_string_to_json(self, *a):
            return Native.answer("analyze_string_to_json", a)

    for name in ("parse_file", "parse_file_to_json", "parse_string", "parse_string_to_json"):
        def static(*a, _n=name):
            return Native.answer(_n, a)
        setattr(V3xAnalyzer, name, staticmethod(static))
    m.V3xAnalyzer = V3xAnalyzer
    return m


def load():
    sys.modules["libqasm"] = make_libqasm()
    t = pytypes.ModuleType("cqasm.v3x.types")
    t.Node = Node
    a = pytypes.ModuleType("cqasm.v3x.ast")
    a.Root = Recorder("Root")
    s = pytypes.ModuleType("cqasm.v3x.semantic")
    s.Program = Recorder("Program")
    v = pytypes.ModuleType("cqasm.v3x.values")
    for m in (t, a, s, v):
        sys.modules[m.__name__] = m
    sys.path.insert(0, os.path.join(REPO, "python", "module"))
    import cqasm.v3x
    for m in (t, a, s, v):
        setattr(cqasm.v3x, m.__name__.rsplit(".", 1)[1], m)
    import cqasm.v3x.instruction
    import cqasm.v3x.primitives
    return cqasm.v3x, cqasm.v3x.primitives, cqasm.v3x.instruction


V3X, P, INS = load()

_proc = None


def helper(fields):
    global _proc
    if _proc is None:
        _proc = subprocess.Popen([os.environ["VERIF_HELPER"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    msg = struct.pack("<I", len(fields)) + b"".join(struct.pack("<I", len(f)) + f for f in fields)
    _proc.stdin.write(msg)
    _proc.stdin.flush()

    def read(n):
        d = b""
        while len(d) < n:
            c = _proc.stdout.read(n - len(d))
            if not c:
                raise pypbt.Failure("the native library ended the process")
            d += c
        return d
    n, = struct.unpack("<I", read(4))
    out = []
    for _ in range(n):
        k, = struct.unpack("<I", read(4))
        out.append(read(k))
    return out


# ---- generators ---------------------------------------------------------------------------------------------------

def text(s, most=40):
    out = ["\ufeff"] if s.chance(1, 16) else []  # a byte order mark is a character like any other here
    for _ in range(s.length(most)):
        k = s.draw(5)
        if k < 2:
            out.append(chr(0x20 + s.draw(0x5f)))
        elif k == 2:
            out.append(s.pick("\x00\n\r\t\"'\\\x7f\x1b"))
        elif k == 3:
            out.append(chr(0x80 + s.draw(0x780)))
        else:
            c = 0x800 + s.draw(0x10f7ff)
            out.append(chr(c if not 0xd800 <= c < 0xe000 else 0xe000))
    return "".join(out)


def int64(s):
    k = s.draw(4)
    v = s.draw(5) if k == 0 else s.draw(1000) if k == 1 else (1 << s.draw(64)) - s.draw(2) if k == 2 else s.draw(1 << 63)
    v = min(v, (1 << 63) - 1)
    return -v - s.draw(2) if s.flip() else v


def real(s):
    k = s.draw(4)
    if k == 0:
        return (s.draw(17) - 8) / 2.0
    if k == 1:
        return s.pick([0.0, -0.0, 5e-324, 1.7976931348623157e308, 0.1, 1e22, math.inf, -math.inf, 3.141592653589793])
    v = struct.unpack("<d", struct.pack("<Q", s.draw(1 << 64)))[0]
    return 0.25 if v != v else v


def same(a, b):
    if isinstance(a, float):
        return type(b) is float and struct.pack("<d", a) == struct.pack("<d", b)
    return type(a) is type(b) and a == b


def prim(s):
    """-> (kind, python type, python value, helper request)"""
    k = s.draw(6)
    if k == 0:
        v = text(s)
        return "str", P.Str, v, [b"str", v.encode()]
    if k == 1:
        v = s.flip()
        return "bool", P.Bool, v, [b"bool", b"1" if v else b"0"]
    if k == 2:
        v = max(-(1 << 63), int64(s))
        return "int", P.Int, v, [b"int", str(v).encode()]
    if k == 3:
        v = real(s)
        return "float", P.Float, v, [b"float", struct.pack("<d", v)]
    if k == 4:
        v = P.Version([s.draw(s.pick([2, 100, 1 << 31])) for _ in range(1 + s.length(60 if s.chance(1, 8) else 5))])
        return "version", P.Version, v, [b"version", ".".join(map(str, tuple(v))).encode()]
    return "instruction", INS.InstructionRef, None, None


SPEC = {"Q": "Qubit", "V": "QubitArray", "B": "Bit", "W": "BitArray", "b": "Bool", "i": "Int", "f": "Float"}


def instruction_spec(s):
    name = s.pick(["H", "CNOT", "", "measure", "n", "t", "1q_H", "é", "a b"]) if s.flip() else text(s, 12)
    return name, "".join(s.pick("QVBWbif") for _ in range(s.length(60 if s.chance(1, 8) else 6)))


def prim_from_library(s, c):
    kind, typ, val, req = prim(s)
    c.label(kind)
    if kind == "instruction":
        if s.chance(1, 6):
            c.show = "unresolved instruction"
            d = cbor_value(helper([b"instruction"])[0])
            ref = P.deserialize(typ, d)
            check(isinstance(ref, INS.InstructionRef) and ref.data is None, "not read as unresolved: %s" % ref)
            check(str(ref) == "unresolved", "printed as %s" % ref)
            return
        name, spec = instruction_spec(s)
        c.show = "instruction %r %r" % (name, spec)
        d = cbor_value(helper([b"instruction", name.encode(), spec.encode()])[0])
        ref = P.deserialize(typ, d)
        check(ref.data is not None, "read as unresolved, from %r" % (d,))
        check(ref.data.name == name, "read with name %r" % ref.data.name)
        kinds = [t.kind for t in ref.data.types]
        check(kinds == [SPEC[x] for x in spec], "read with operand types %r" % kinds)
        c.nontrivial = len(spec) > 0
        return
    c.show = "%s %r" % (kind, val)
    d = cbor_value(helper(req)[0])
    got = P.deserialize(typ, d)
    check(same(got, val), "the library's %r is read as %r" % (d, got))
    c.nontrivial = True


def prim_round_trip(s, c):
    kind, typ, val, _ = prim(s)
    c.label(kind)
    if kind == "instruction":
        if s.chance(1, 6):
            ref = s.pick([INS.InstructionRef(), INS.InstructionRef(None)])
            d = P.serialize(typ, ref)
            back = P.deserialize(typ, d)
            check(back.data is None, "unresolved is read back as %s" % back)
            c.show = "unresolved"
            return
        name, spec = instruction_spec(s)
        nodes = [(Node if s.flip() else Derived)(SPEC[x], 1 + s.draw(5)) for x in spec]
        form = s.draw(3)
        given = s.pick([list, tuple, iter, lambda l: (x for x in l), lambda l: dict.fromkeys(l).keys() if len(set(l)) == len(l) else list(l)])
        own = list(nodes)
        ins = INS.Instruction(name, given(own) if nodes or s.flip() else None)
        own.reverse()
        own += [Node("Bool")]
        check(ins.name == name and isinstance(ins.types, tuple) and list(ins.types) == nodes, "made as %s" % ins)
        ref = INS.InstructionRef(ins) if form == 0 else INS.InstructionRef(name, given(list(nodes))) if form == 1 else \
            INS.InstructionRef(name=name, types=tuple(nodes)) if nodes or s.flip() else \
            INS.InstructionRef(name)
        c.show = "instruction %r %r" % (name, nodes)
        check(ref.data.name == name and list(ref.data.types) == nodes, "made as %s" % ref)
        d = P.serialize(typ, ref)
        # The form in which the library writes it.
        check(d == {"name": name, "operand_types": [n.serialize() for n in nodes]}, "written as %r" % (d,))
        back = P.deserialize(typ, d)
        check(back.data is not None and back.data.name == name and list(back.data.types) == nodes,
              "read back as %s" % back)
        check(str(back) == "%s(%s)" % (name, ", ".join(map(str, nodes))), "printed as %s" % back)
        c.nontrivial = bool(nodes)
        return
    c.show = "%s %r" % (kind, val)
    d = P.serialize(typ, val)
    check(isinstance(d, dict) and set(d) == {"x"}, "written as %r" % (d,))
    want = list(val) if kind == "version" else val
    check(same(d["x"], want) or (kind == "version" and list(d["x"]) == want), "written as %r" % (d,))
    back = P.deserialize(typ, d)
    check(same(back, val), "read back as %r" % (back,))
    if kind == "str":
        raw = P.deserialize(typ, {"x": val.encode("utf-8")})
        check(same(raw, val), "bytes are read as %r" % (raw,))
    if kind == "version":
        again = P.Version(".".join(map(str, val)))
        check(same(again, val), "made from text as %r" % (again,))
        check(all(type(x) is int for x in back), "components are not integers: %r" % (back,))
    c.nontrivial = True


def malformed(s, c):
    """A version with an empty component, or one that is no number, is no version, as for the library."""
    parts = [str(s.draw(s.pick([2, 100, 1 << 31]))) for _ in range(1 + s.length(5))]
    bad = s.pick(["", "x", "-", "1e3", "0x1", "3 0", "\u00bd"])
    parts.insert(s.draw(len(parts) + 1), bad)
    t = ".".join(parts)
    c.show = repr(t)
    c.nontrivial = True
    try:
        v = P.Version(t)
    except ValueError:
        return
    check(False, "read as %r" % (v,))


def foreign(s, c):
    """Types given by name are not this module's business; other types are refused; bad type lists are refused."""
    k = s.draw(3)
    if k == 0:
        t = text(s, 8)
        c.show = "type named %r" % t
        check(P.serialize(t, object()) is None and P.deserialize(t, {"x": 1}) is None, "not ignored")
        c.nontrivial = bool(t)
        return
    if k == 1:
        t = s.pick([list, dict, bytes, object])
        c.show = "type %r" % t
        for f in (P.serialize, P.deserialize):
            try:
                f(t, {"x": 1})
            except AssertionError:
                continue
            check(False, "accepted by %s" % f.__name__)
        c.nontrivial = True
        return
    bad = s.pick([1, "Qubit", None, b"x"])
    pos = s.length(4)
    nodes = [Node("Qubit") for _ in range(pos)] + [bad] + [Node("Bit") for _ in range(s.length(3))]
    c.show = "types %r" % nodes
    try:
        INS.Instruction("x", nodes)
    except TypeError:
        c.nontrivial = True
        return
    check(False, "accepted")


OPS = ["parse_file", "parse_string", "analyze_file", "analyze_string"]


def result_of(op, answer, json_answer, args, made_with=None):
    given = made_with or ()
    analyzer = V3X.Analyzer(*given)
    check(analyzer.init_args == given, "the analyzer is made with %r" % (analyzer.init_args,))
    obj = V3X.Analyzer if op.startswith("parse") and made_with is None else analyzer
    Native.calls = []
    Native.prepared = answer
    got = getattr(obj, op)(*args)
    check(Native.calls == [(op, args)], "asks the library %r" % (Native.calls,))
    Native.calls = []
    Native.prepared = json_answer
    got_json = getattr(obj, op + "_to_json")(*args)
    check(Native.calls == [(op + "_to_json", args)], "asks the library %r" % (Native.calls,))
    Native.prepared = None
    return got, got_json


def wrapper(s, c):
    op = s.pick(OPS)
    args = tuple(text(s, 10) for _ in range(1 if op.endswith("file") else 1 + s.draw(2)))
    n = s.length(6)
    c.label("tree" if n == 0 else "errors")
    made_with = s.pick([None, (), ("3.0",), ("3.0", False)])
    long = s.chance(1, 100)
    json_answer = text(s) * (1 + long * s.draw(3000))
    if n == 0:
        raw = bytes(s.draw(256) for _ in range(s.length(60))) * (1 + long * s.draw(3000))
        c.show = "%s%r -> tree %r" % (op, args, raw)
        got, got_json = result_of(op, [raw.decode("utf-8", "surrogateescape")], json_answer, args, made_with)
        want = ("Root" if op.startswith("parse") else "Program", raw)
        check(got == want, "returned %r" % (got,))
        c.nontrivial = any(b >= 0x80 for b in raw)
    else:
        errors = [text(s) for _ in range(n)] * (1 + long * s.draw(300))
        errors += [s.pick(errors)] * s.draw(2)
        c.show = "%s%r -> errors %r" % (op, args, errors)
        got, got_json = result_of(op, [""] + errors, json_answer, args, made_with)
        check(got == errors, "returned %r" % (got,))
        c.nontrivial = n > 1
    check(got_json == json_answer, "JSON returned as %r" % (got_json,))


def package(s, c):
    """Importing the package lets the linker find the library beside it, and keeps the path that was there."""
    before = s.pick([None, "", "/lib", "/a:/b", ":", "/x y:/é"]) if s.flip() else "/" + text(s, 10).replace("\0", "0")
    name = "pkg%d" % s.draw(1 << 40)
    folder = os.path.join(SCRATCH, name)
    exported = {"V3xAnalyzer": 1, "x%d" % s.draw(100): s.draw(100)}
    os.makedirs(folder)
    old = os.environ.get("LD_LIBRARY_PATH")
    sys.path.insert(0, SCRATCH)
    importlib.invalidate_caches()
    try:
        shutil.copyfile(os.path.join(REPO, "python", "module", "libqasm", "__init__.py"), os.path.join(folder, "__init__.py"))
        with open(os.path.join(folder, "libqasm.py"), "w") as f:
            f.write("".join("%s = %d\n" % e for e in exported.items()))
        os.environ.pop("LD_LIBRARY_PATH", None)
        if before is not None:
            os.environ["LD_LIBRARY_PATH"] = before
        c.show = "LD_LIBRARY_PATH %r" % before
        m = importlib.import_module(name)
        want = (before + ":" if before else "") + folder
        check(os.environ["LD_LIBRARY_PATH"] == want, "LD_LIBRARY_PATH becomes %r instead of %r" % (os.environ["LD_LIBRARY_PATH"], want))
        check(all(getattr(m, k, None) == v for k, v in exported.items()), "not exported: %r" % (exported,))
        c.nontrivial = bool(before)
    finally:
        sys.path.remove(SCRATCH)
        for k in [k for k in sys.modules if k.split(".")[0] == name]:
            del sys.modules[k]
        os.environ.pop("LD_LIBRARY_PATH", None)
        if old is not None:
            os.environ["LD_LIBRARY_PATH"] = old
        shutil.rmtree(folder)


PIECES = ["qubit[3] q", "bit[3] b", "qubit r", "bit c", "H q[0]", "CNOT q[0], q[1:2]", "b = measure q", "Rx(pi/2) r",
          "barrier q", "X nope", "qubit[0] z", "reset q[7]", "asm (TestBackend) ''' Ωμέγα \" \\ '''", "wait(3) q", "inv.S q", "// comment",
          "ctrl.pow(2).X q[0], r", "Rx(1, 2) r", "b[0] = measure q[0]", "qubit q", "%", "H", "/* é */"]


def end_to_end(s, c):
    lines = ["version 3.0" if s.chance(9, 10) else s.pick(["", "version 4", "version 3.1", "version"])]
    lines += [s.pick(PIECES) for _ in range(s.length(8))]
    data = s.pick(["\n", ";", "\n\n"]).join(lines)
    c.show = repr(data)
    name = s.pick(["", "f.cq", "dir/é.cq"])
    analyzer = V3X.Analyzer()
    Native.prepared = None
    path = os.path.join(SCRATCH, "p.cq")
    with open(path, "w") as f:
        f.write(data)
    for op in OPS:
        args = (path,) if op.endswith("file") else (data, name)
        obj = V3X.Analyzer if op.startswith("parse") else analyzer
        got = getattr(obj, op)(*args)
        raw = helper([op.encode()] + [a.encode() for a in args])
        if len(raw) == 1:
            check(got == ("Root" if op.startswith("parse") else "Program", raw[0]), "%s returned %r" % (op, got))
            refs = []
            if op.startswith("analyze"):
                collect(cbor_value(raw[0]), refs)
                for r in refs:
                    ref = P.deserialize(INS.InstructionRef, r)
                    check(ref.data is not None and isinstance(ref.data.name, str), "reference %r is read as %s" % (r, ref))
                c.label("instruction references: %d" % min(len(refs), 3))
            c.label(op + ": tree")
        else:
            check(got == [e.decode("utf-8", "surrogateescape") for e in raw[1:]], "%s returned %r" % (op, got))
            c.label(op + ": errors")
        js = getattr(obj, op + "_to_json")(*args)
        check(js.encode("utf-8", "surrogateescape") == helper([(op + "_to_json").encode()] + [a.encode() for a in args])[0],
              "%s_to_json returned %r" % (op, js))
    c.nontrivial = len(lines) > 2


def collect(v, refs):
    if isinstance(v, dict):
        if "operand_types" in v:
            refs.append(v)
        for x in v.values():
            collect(x, refs)
    elif isinstance(v, list):
        for x in v:
            collect(x, refs)


if __name__ == "__main__":
    try:
        rc = pypbt.run("C32", "primitive values (all kinds, boundary numbers, any UTF-8 text), lists of results with any bytes, "
                  "small programs through the native library; non-trivial: anything but an empty or unresolved value",
                  [("what the library wrote is read", prim_from_library, 12000, 120000),
                   ("what is written is read back", prim_round_trip, 20000, 200000),
                   ("types of others, bad types", foreign, 2000, 10000),
                   ("no versions", malformed, 1000, 10000),
                   ("results", wrapper, 12000, 120000),
                   ("package", package, 300, 2000),
                   ("programs, end to end", end_to_end, 400, 6000)])
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
        if _proc:
            _proc.stdin.close()
            _proc.wait()
    sys.exit(rc)
