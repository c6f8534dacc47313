"""Flattened layouts of C++ objects, from the compiler's own record-layout dump."""
import re
from . import build

LINE = re.compile(r"^\s*(\d+)(?::(\d+)-(\d+))? \|( +)(.*)$")
INT = {"unsigned long": 8, "long": 8, "unsigned long long": 8, "long long": 8, "uint64_t": 8, "int64_t": 8, "size_t": 8, "std::size_t": 8,
       "unsigned int": 4, "int": 4, "uint32_t": 4, "int32_t": 4, "unsigned short": 2, "short": 2, "uint16_t": 2, "int16_t": 2,
       "unsigned char": 1, "char": 1, "signed char": 1, "uint8_t": 1, "int8_t": 1, "_Bool": 1, "bool": 1}


class Node:
    def __init__(self, off, depth, text):
        self.off, self.depth, self.text = off, depth, text
        self.kids = []

    @property
    def type(self):
        t = re.sub(r" \((?:base|primary base|virtual base)\)", "", self.text)
        t = re.sub(r" \(empty\)", "", t).strip()
        return t


def dump(src, work, extra=()):
    cmd = [build.CXX] + work.flags() + ["-w", "-S", "-emit-llvm", "-o", "/dev/null", "-Xclang", "-fdump-record-layouts"] + list(extra) + [src]
    rc, o, e = build.run(cmd)
    if rc:
        raise build.BuildError(e[-3000:])
    recs = {}
    cur = None
    for ln in o.split("\n"):
        if ln.startswith("*** Dumping AST Record Layout"):
            cur = []
            continue
        if cur is None:
            continue
        m = LINE.match(ln)
        if m:
            cur.append(Node(int(m.group(1)), (len(m.group(4)) - 1) // 2, m.group(5)))
        elif ln.strip().startswith("| [sizeof="):
            if cur:
                root = cur[0]
                st = [root]
                for n in cur[1:]:
                    while len(st) > n.depth:
                        st.pop()
                    st[-1].kids.append(n)
                    st.append(n)
                root.size = int(re.search(r"sizeof=(\d+)", ln).group(1))
                recs[root.text.strip()] = root
            cur = None
    return recs


def leaves(root):
    """[(offset, size, kind, path, type)]: kind 'int' / 'ptr' / 'fn' (owning callback, not followed)"""
    out = []

    def walk(n, path):
        t = n.type
        nm = t.split(" ")[-1]
        p = path + [nm]
        if "boost::function" in t or "deleter" in t or "std::function" in t:
            out.append((n.off, 0, "fn", ".".join(p), t))
            return
        if n.kids:
            for k in n.kids:
                walk(k, p)
            return
        if "(empty)" in n.text:
            return
        ty = t.rsplit(" ", 1)[0].strip()
        if "*" in ty:
            out.append((n.off, 8, "ptr", ".".join(p), ty))
            return
        b = plain(ty)
        if b in INT:
            out.append((n.off, INT[b], "int", ".".join(p), ty))
        else:
            out.append((n.off, 0, "other:" + b, ".".join(p), ty))
    for k in root.kids:
        walk(k, [])
    return out


def plain(ty):
    b = ty.replace("const ", "").replace("volatile ", "").replace("struct ", "").replace("class ", "").strip()
    if b in INT:
        return b
    return b.split("::")[-1]


def vectors(root):
    """[(pointer offset, length offset, element size, path)] of every owned-or-mapped array inside the object"""
    out = []

    def walk(n, path):
        t = n.type
        nm = t.split(" ")[-1]
        if re.match(r"(class |struct )?succinct::mapper::mappable_vector<", t) or \
                (any(len(k.kids) == 0 and "*" in k.type for k in n.kids) and any("boost::function" in k.type or "std::function" in k.type for k in n.kids)):
            ps = [k for k in n.kids if not k.kids and "*" in k.type]
            ns = [k for k in n.kids if not k.kids and "*" not in k.type and INT.get(plain(k.type.rsplit(" ", 1)[0])) == 8]
            if len(ps) == 1 and len(ns) == 1:
                el = plain(ps[0].type.rsplit(" ", 1)[0].replace("*", "").strip())
                if el in INT:
                    out.append((ps[0].off, ns[0].off, INT[el], ".".join(path + [nm])))
                    return
        for k in n.kids:
            walk(k, path + [nm])
    for k in root.kids:
        walk(k, [])
    return out
