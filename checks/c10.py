#!/usr/bin/env python3
"""C10: file operations behave like a sequential file model."""
import os, re, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import nvc, pbt

PID = "C10"
CASES = {"quick": 1200, "thorough": 40000}
BUDGET = {"quick": 300, "thorough": 3 * 3600}
RULE = "a history of at least eight file operations with at least one write or text line read back; distinct by source"
TECHNIQUE = ("stateful model-based property testing: random histories of file operations over several file objects (declared in architectures, "
             "processes and subprograms, shared by two processes, passed as parameters) are executed by a byte-level Python model of files, "
             "lines and handles; every result, status, position, the error that ends the history, the bytes left on disk and what a second "
             "simulation reads back are compared")
NOTE = "one external file is never written through one object while another reads it without a flush; host I/O errors are not injected"
ASSUMPTIONS = ["elements are stored back to back in the host representation of their type (this only fixes positions and sizes)"]

GROUP = {"I": "int", "W": "int", "A": "int", "B": "bit", "V": "bit", "C": "chr", "N": "chr",
         "T": "time", "R": "real", "L": "bool", "E": "enum", "P": "rec"}
TDEF = """  type ft_i is file of integer;
  type iv is array (natural range <>) of integer;
  type ft_w is file of iv;
  type a3 is array (1 to 3) of integer;
  type ft_a is file of a3;
  type ft_b is file of bit;
  type ft_v is file of bit_vector;
  type ft_c is file of character;
  type ft_t is file of time;
  type ft_r is file of real;
  type ft_l is file of boolean;
  type en is (alpha, beta, gamma, delta, epsilon);
  type ft_e is file of en;
  type re is record a : integer; b : character; c : integer; end record;
  type ft_p is file of re;
"""
FT = {"I": "ft_i", "W": "ft_w", "A": "ft_a", "B": "ft_b", "V": "ft_v", "C": "ft_c", "N": "text", "T": "ft_t", "R": "ft_r",
      "L": "ft_l", "E": "ft_e", "P": "ft_p"}
VT = {"I": "integer", "A": "a3", "B": "bit", "C": "character", "T": "time", "R": "real", "L": "boolean", "E": "en", "P": "re"}
ENUM = ["alpha", "beta", "gamma", "delta", "epsilon"]
MODES = ["read_mode", "write_mode", "append_mode", "read_write_mode"]


def wt(s, xs):
    return s.weighted([(int(w * 10), x) for x, w in xs])


class Obj:
    def __init__(self, name, ty, where):
        self.name, self.ty, self.where = name, ty, where
        self.path = None


class Gen:
    def __init__(self, s):
        self.s = s
        self.std = s.choice(["1993", "2008", "2019", "2019"])
        self.isz = 8 if self.std == "2019" else 4
        self.files = {}        # existing external files
        self.open = {}
        self.out = []          # expected output lines
        self.steps = []        # (process, [statements])
        self.nrw = 0
        self.back = 0
        self.fatal = None
        self.line = {"la": None, "lb": None}
        self.loc = []          # local subprograms
        self.labels = set()

    # ---- encodings
    def size(self, ty):
        z = self.isz
        return {"I": z, "W": z, "A": 3 * z, "T": 8, "R": 8, "P": 16 if z == 8 else 12}.get(ty, 1)

    def ib(self, v):
        return int(v).to_bytes(self.isz, "little", signed=True)

    def ival(self, b):
        return int.from_bytes(b, "little", signed=True)

    def rint(self):
        s = self.s
        return wt(s, [(s.int(-9, 99), 4), (s.int(-2 ** 31 + 1, 2 ** 31 - 1), 2), (s.choice([10, 13, 255, 256, 2 ** 31 - 1, -1]), 2)])

    def rchar(self):
        return self.s.choice("abcXYZ 019-_")

    def value(self, ty):
        """-> (VHDL expression, bytes)"""
        s = self.s
        if ty == "I":
            v = self.rint(); return "(%d)" % v if v >= 0 else "integer'(%d)" % v, self.ib(v)
        if ty in "WA":
            n = 3 if ty == "A" else s.choice([0, 1, 1, 2, 2, 3, 5, 8])
            vs = [self.rint() for _ in range(n)]
            if n == 0:
                return "iv'(1 to 0 => 0)", b""
            lo = 1 if ty == "A" else s.int(0, 9)
            body = ", ".join("%d => %d" % (lo + i, v) for i, v in enumerate(vs))
            return ("a3'(%s)" if ty == "A" else "iv'(%s)") % body, b"".join(map(self.ib, vs))
        if ty == "B":
            v = s.int(0, 1); return "bit'('%d')" % v, bytes([v])
        if ty == "V":
            vs = [s.int(0, 1) for _ in range(s.choice([0, 1, 2, 3, 5, 9, 17]))]
            return 'bit_vector\'("%s")' % "".join(map(str, vs)), bytes(vs)
        if ty == "C":
            v = wt(s, [(ord(self.rchar()), 3), (s.int(0, 255), 2), (s.choice([10, 13, 0, 26, 255]), 1)])
            return "character'val(%d)" % v, bytes([v])
        if ty == "N":
            t = "".join(self.rchar() for _ in range(s.choice([0, 1, 2, 4, 7, 12])))
            if s.bool(0.3):
                return 'string\'("%s") & LF' % t, t.encode() + b"\n"
            return 'string\'("%s")' % t, t.encode()
        if ty == "T":
            v = s.choice([0, 1, -1, s.int(-10 ** 9, 10 ** 9)]); return "time'(%d ns)" % v if v >= 0 else "time'(-%d ns)" % -v, int(v * 10 ** 6).to_bytes(8, "little", signed=True)
        if ty == "R":
            v = s.int(-10 ** 5, 10 ** 5) / 64; return "real'(%r)" % v, struct.pack("<d", v)
        if ty == "L":
            v = s.int(0, 1); return "boolean'(%s)" % ["false", "true"][v], bytes([v])
        if ty == "E":
            v = s.int(0, 4); return "en'(%s)" % ENUM[v], bytes([v])
        if ty == "P":
            a, c, k = self.rint(), self.rint(), self.rchar()
            return "re'(%d, '%s', %d)" % (a, k, c), (a, k, c)

    def text(self, ty, b):
        """what str(value) prints"""
        if ty == "I":
            return str(self.ival(b))
        if ty in "WA":
            return "".join(str(self.ival(b[i:i + self.isz])) + "," for i in range(0, len(b), self.isz))
        if ty in "BV":
            return "".join(map(str, b))
        if ty in "CN":
            return "".join(chr(x) if 32 <= x < 127 and x != 35 else "#%d#" % x for x in b)
        if ty == "T":
            return str(int.from_bytes(b, "little", signed=True) // 10 ** 6)
        if ty == "R":
            return str(int(struct.unpack("<d", b)[0] * 64))
        if ty == "L":
            return ["false", "true"][b[0]]
        if ty == "E":
            return ENUM[b[0]]

    # ---- helpers over the model
    def data(self, o):
        return self.files[o.path]

    def at_eof(self, o):
        return o.pos >= len(self.data(o))

    def users(self, path, but=None):
        return [o for o in self.objs if o.path == path and o is not but]

    def frozen(self, o):
        return bool(self.users(o.path, o))

    def put_bytes(self, o, b):
        d = self.files[o.path]
        if o.mode == 2:
            o.pos = len(d)
        if not b:
            return
        if o.pos > len(d):
            d.extend(bytes(o.pos - len(d)))
        d[o.pos:o.pos + len(b)] = b
        o.pos += len(b)
        o.dirty = True
        self.nrw += 1

    def modes_for(self, path, ty):
        us = self.users(path)
        ok = []
        if GROUP[ty] == self.pgroup[path]:
            if not us:
                ok += [1, 1, 1, 2, 2]
                if self.std == "2019" and path in self.files:
                    ok += [3] * 5
        if path not in self.files:
            return ok if GROUP[ty] == self.pgroup[path] and not us else []
        if (GROUP[ty] == self.pgroup[path] or (ty in "CN" and self.pgroup[path] != "rec")) and all(
                u.mode == 0 or (u.mode in (1, 2) and not u.dirty) for u in us):
            ok += [0, 0, 0]
        return ok

    def do_open(self, o, path, mode):
        if mode == 1 or path not in self.files:
            self.files[path] = bytearray()
        o.path, o.mode, o.dirty = path, mode, False
        o.pos = len(self.files[path]) if mode == 2 else 0

    def pathexpr(self, p):
        s = self.s
        k = s.int(0, 3)
        if k == 0 and len(p) > 2:
            return '"%s" & "%s"' % (p[:2], p[2:])
        if k == 1:
            return "nm(%s)" % re.search(r"\d+", p).group(0)
        return '"%s"' % p

    # ---- build
    def build(self):
        s = self.s
        tys = s.sample("IWABVCNNNTRLEP", s.int(1, 3))
        tys = list(dict.fromkeys(tys))
        if s.bool(0.4) and "C" not in tys:
            tys.append(s.choice("CN"))
            tys = list(dict.fromkeys(tys))
        groups = list(dict.fromkeys(GROUP[t] for t in tys))
        self.paths = ["f%d.dat" % i for i in range(s.int(1, 3))]
        self.pgroup = {p: s.choice(groups) for p in self.paths}
        self.objs = [Obj("g%d" % i, s.choice(tys), s.choice(["arch", "proc0", "pkg"])) for i in range(s.int(1, 4))]
        # files which exist before the simulation
        self.pre = {}
        for p in self.paths:
            if s.bool(0.35) and self.pgroup[p] != "rec":
                ty = {"int": "W", "bit": "V", "chr": "N", "time": "T", "real": "R", "bool": "L", "enum": "E"}[self.pgroup[p]]
                b = b"".join(self.value(ty)[1] for _ in range(s.int(0, 5)))
                if self.pgroup[p] == "chr" and s.bool(0.2):
                    b = b.replace(b"\n", b"\r\n")
                if self.pgroup[p] == "chr" and s.bool(0.2):
                    b += b"x" * s.choice([125, 126, 127, 128, 129, 254, 255, 256, 300]) + s.choice([b"", b"\nend\n"])
                self.files[p] = bytearray(b)
                self.pre[p] = bytes(b)
        # files opened by their declaration
        for o in self.objs:
            o.decl = None
            if s.bool(0.25):
                ps = [p for p in self.paths if not self.users(p) and GROUP[o.ty] == self.pgroup[p]]
                if ps:
                    p = s.choice(ps)
                    ms = self.modes_for(p, o.ty)
                    if ms:
                        m = s.choice(ms)
                        self.do_open(o, p, m)
                        o.decl = ' open %s is "%s"' % (MODES[m], p) if m != 0 or s.bool() else ' is "%s"' % p
                        self.labels.add("declared-open")
        n = s.int(3, 40)
        last = 0
        cur = []
        for _ in range(n):
            if self.fatal:
                break
            if cur and s.bool(0.15):
                self.steps.append((last, cur)); cur = []
            if not cur:
                last = s.int(0, 1) if s.bool(0.6) else 0
            st = self.op(last)
            if st:
                cur.append(st)
        if not self.fatal and s.bool(0.2):
            if cur:
                self.steps.append((last, cur)); cur = []
            last = 0
            st = self.bad()
            if st:
                cur.append(st)
        if cur:
            self.steps.append((last, cur))
        return self

    def say(self, text):
        self.k = getattr(self, "k", 0) + 1
        self.out.append("%d:%s" % (self.k, text))
        return self.k

    def show(self, expr, text):
        k = self.say(text)
        return 'put("%d:" & %s);' % (k, expr)

    def op(self, pr):
        s = self.s
        objs = [o for o in self.objs if pr == 0 or o.where != "proc0"]
        if not objs:
            return None
        o = s.choice(objs)
        if s.bool(0.25 if o.ty == "N" else 0.05):
            return self.op_line(pr)
        if o.path is None:
            return self.op_open(o)
        acts = [("close", 1.5), ("status", 0.5), ("eof", 2)]
        wr = o.mode != 0 and not self.frozen(o) and GROUP[o.ty] == self.pgroup[o.path]
        if wr:
            acts += [("write", 8), ("loopw", 2)]
        rd = o.mode in (0, 3)
        if rd:
            acts += [("read", 9), ("drain", 2)]
        if o.ty == "N":
            if wr:
                acts += [("writeline", 7)]
                if self.std != "1993":
                    acts += [("tee", 2)]
            if rd:
                acts += [("readline", 9), ("lines", 2)]
        if self.std != "1993" and o.mode != 0:
            acts += [("flush", 3)]
        if self.std == "2019":
            acts += [("rewind", 1.5), ("seek", 3), ("pos", 3), ("size", 2), ("mode", 1), ("state", 1), ("canseek", 0.5)]
            if o.mode in (1, 3) and wr:
                acts += [("trunc", 2), ("beyond", 2.5)]
        if o.mode != 0 and s.bool(0.05):
            acts += [("local", 3)]
        a = wt(s, acts)
        self.labels.add(a)
        return getattr(self, "op_" + a)(o)

    def op_open(self, o):
        s = self.s
        if self.std == "2019" and s.bool(0.15):
            self.labels.add("state-closed")
            return self.show("file_open_state'image(file_state(%s))" % o.name, "state_closed")
        if s.bool(0.06):
            return "file_close(%s);" % o.name
        if s.bool(0.12):
            # failed open with a status
            bad = s.choice(['""', '"nodir/x.dat"', '"nofile.dat"', '"f9/f.dat"'])
            m = s.choice([0, 1, 2]) if "nofile" not in bad else s.choice([0, 0, 3] if self.std == "2019" else [0])
            self.labels.add("open-name-error")
            return self.opencall(o, bad, m, "name_error")
        cands = [(p, m) for p in self.paths for m in self.modes_for(p, o.ty)]
        if s.bool(0.15):
            return self.op_local(o)
        if not cands:
            return None
        if s.bool(0.01) and self.files and not self.users(list(self.files)[0]):
            # handles are not exhausted by opening and closing
            self.labels.add("churn")
            f = 'file_open(%s, "%s", read_mode)' % (o.name, list(self.files)[0])
            if True:
                return "for i in 1 to %d loop %s; file_close(%s); end loop;" % (s.choice([300, 3000, 66000]), f, o.name)
        p, m = s.choice(cands)
        st = self.opencall(o, self.pathexpr(p), m, "open_ok")
        self.do_open(o, p, m)
        self.labels.add("open-" + MODES[m])
        return st

    def opencall(self, o, pe, m, status):
        s = self.s
        mode = MODES[m]
        k = s.int(0, 3)
        if k == 0 and status == "open_ok":
            return "file_open(%s, %s%s);" % (o.name, pe, "" if m == 0 and s.bool() else ", " + mode)
        if k == 1 and self.std == "2019":
            return self.show("file_open_status'image(file_open(%s, %s, %s))" % (o.name, pe, mode), status)
        return "file_open(st, %s, %s, %s); " % (o.name, pe, mode) + self.show("file_open_status'image(st)", status)

    def op_local(self, o):
        """A subprogram with a file object of its own, closed when it returns."""
        s = self.s
        if o.path is not None and s.bool(0.5):
            return None
        cands = [(p, m) for p in self.paths for m in self.modes_for(p, o.ty) if m in (0, 1, 2)]
        if not cands or o.ty == "P" or len(self.loc) > 4:
            return None
        p, m = s.choice(cands)
        l = Obj("xf", o.ty, "local")
        self.do_open(l, p, m)
        body = []
        self.objs.append(l)
        name = "loc%d" % len(self.loc)
        param = ""
        keepk = getattr(self, "k", 0)
        for _ in range(s.int(1, 4)):
            if m == 0:
                st = self.op_read(l) if s.bool(0.7) else self.op_eof(l)
            else:
                st = self.op_write(l)
            if st:
                body.append(st)
        self.objs.remove(l)
        dyn = s.bool(0.5)
        decl = "file xf : %s open %s is %s;" % (FT[o.ty], MODES[m], self.pathexpr(p)) if not dyn else "file xf : %s;" % FT[o.ty]
        if dyn:
            body.insert(0, "file_open(xf, %s, %s);" % (self.pathexpr(p), MODES[m]))
        rets = s.int(0, 3)
        if rets == 0:
            body.append("return;")
        elif rets == 1:
            body.append("if now >= 0 ns then return; end if;")
        self.loc.append("  procedure %s is\n    %s\n    variable n : integer; variable st : file_open_status;\n%s  begin\n    %s\n  end procedure;\n" % (
            name, decl, self.vardecl(), "\n    ".join(body)))
        self.labels.add("local-file")
        return name + ";"

    def op_close(self, o):
        o.path = None
        return "file_close(%s);" % o.name

    def op_status(self, o):
        # opening an object which is already open changes nothing
        return self.opencall(o, self.pathexpr(self.s.choice(self.paths)) if self.s.bool() else '""', self.s.int(0, 2), "status_error")

    def op_eof(self, o):
        if o.mode in (1, 2):
            # write-only objects have nothing left to read
            return self.show("boolean'image(endfile(%s))" % o.name, "true")
        e = self.at_eof(o)
        st = "boolean'image(endfile(%s))" % o.name
        if self.s.bool(0.3):
            st = "boolean'image(eof_%s(%s))" % (FT[o.ty], o.name) if self.std != "1993" or True else st
        return self.show(st, "true" if e else "false")

    def op_write(self, o):
        s = self.s
        if o.ty == "P":
            e, (a, k, c) = self.value("P")
            b = self.ib(a) + k.encode() + self.ib(c)
            self.recs = getattr(self, "recs", {})
        else:
            e, b = self.value(o.ty)
        if o.ty == "P":
            self.put_rec(o, (a, k, c))
        else:
            self.put_bytes(o, b)
        k = s.int(0, 3)
        if k == 0:
            return "wr_%s(%s, %s);" % (FT[o.ty], o.name, e)
        return "write(%s, %s);" % (o.name, e)

    # records: opaque elements of unknown size; only sequential access is generated
    def put_rec(self, o, v):
        d = self.files[o.path]
        if not hasattr(d, "append") or isinstance(d, bytearray):
            d = self.files[o.path] = list(d)
        if o.mode == 2:
            o.pos = len(d)
        d[o.pos:o.pos + 1] = [v]
        o.pos += 1
        o.dirty = True
        self.nrw += 1

    def op_loopw(self, o):
        s = self.s
        if o.ty not in "ICVBEN":
            return self.op_write(o)
        n = s.choice([2, 3, 5, 20, 130, 600])
        if o.ty == "I":
            c = s.int(-50, 5000)
            for i in range(n):
                self.put_bytes(o, self.ib(c + i))
            return "for i in 0 to %d loop write(%s, %d + i); end loop;" % (n - 1, o.name, c)
        if o.ty == "C":
            c = s.int(0, 255)
            for i in range(n):
                self.put_bytes(o, bytes([(c + i) % 256]))
            return "for i in 0 to %d loop write(%s, character'val((%d + i) mod 256)); end loop;" % (n - 1, o.name, c)
        if o.ty in "BE":
            q = 2 if o.ty == "B" else 5
            for i in range(n):
                self.put_bytes(o, bytes([i % q]))
            return "for i in 0 to %d loop write(%s, %s'val(i mod %d)); end loop;" % (n - 1, o.name, VT[o.ty], q)
        if o.ty == "V":
            n = min(n, 20)
            for i in range(n):
                self.put_bytes(o, bytes([i % 2] * i))
            return "for i in 0 to %d loop write(%s, bit_vector'(1 to i => bit'val(i mod 2))); end loop;" % (n - 1, o.name)
        for i in range(n):
            self.put_bytes(o, b"L%d\n" % i)
        return "for i in 0 to %d loop write(%s, \"L\" & integer'image(i) & LF); end loop;" % (n - 1, o.name)

    def read_some(self, o):
        """-> (call, printed expression, text) or None"""
        s = self.s
        d = self.data(o)
        rem = max(0, len(d) - o.pos)
        if o.ty == "P":
            if rem < 1 or isinstance(d, bytearray):
                return None
            a, k, c = d[o.pos]
            o.pos += 1
            return "read(%s, vp); " % o.name, "str(vp)", "%d%s%d" % (a, k, c)
        if o.ty in "WVN":
            m = s.choice([0, 1, 2, 3, 5, 8, 16]) if o.ty != "N" or s.bool(0.7) else s.choice([1, 20])
            z = self.size(o.ty)
            n = min(m, rem // z)
            if n < m and rem % z:
                return None
            b = bytes(d[o.pos:o.pos + n * z])
            o.pos += n * z
            v = {"W": "vw", "V": "vv", "N": "vn"}[o.ty]
            lo = s.int(1, 20 - m) if m else 1
            rng = "%d to %d" % (lo, lo + m - 1)
            fill = self.text(o.ty, {"W": bytes(z), "V": b"\0", "N": b"z"}[o.ty]) * (m - n)
            pre = "%s := (others => %s); " % (v, {"W": "0", "V": "'0'", "N": "'z'"}[o.ty])
            return (pre + "read(%s, %s(%s), n); " % (o.name, v, rng), "integer'image(n) & \"=\" & str(%s(%s))" % (v, rng),
                    "%d=%s%s" % (n, self.text(o.ty, b), fill))
        z = self.size(o.ty)
        if rem < z:
            return None
        b = bytes(d[o.pos:o.pos + z])
        if o.ty in "TRABLE" and o.pos % (self.isz if o.ty == "A" else z):
            return None
        o.pos += z
        v = "v" + o.ty.lower()
        return "read(%s, %s); " % (o.name, v), "str(%s)" % v, self.text(o.ty, b)

    def op_read(self, o):
        r = self.read_some(o)
        if r is None:
            return self.op_eof(o)
        self.nrw += 1
        self.back += 1
        call, e, t = r
        if o.ty not in "WVN" and self.s.bool(0.25):
            call = call.replace("read(", "rd_%s(" % FT[o.ty])
        return call + self.show(e, t)

    def op_drain(self, o):
        s = self.s
        d = self.data(o)
        z = self.size(o.ty)
        if o.ty in "AP" or max(0, len(d) - o.pos) % z or o.pos % z:
            return self.op_read(o)
        b = bytes(d[o.pos:])
        if len(b) // z > 900:
            return self.op_read(o)
        self.back += 1
        o.pos = max(o.pos, len(d))
        k = self.say("")
        self.out.pop()
        if o.ty in "WVN":
            m = s.choice([1, 2, 3, 7])
            v = {"W": "vw", "V": "vv", "N": "vn"}[o.ty]
            for i in range(0, len(b), m * z):
                self.out.append("%d:%s" % (k, self.text(o.ty, b[i:i + m * z])))
            return "while not endfile(%s) loop read(%s, %s(1 to %d), n); put(\"%d:\" & str(%s(1 to n))); end loop;" % (o.name, o.name, v, m, k, v)
        for i in range(0, len(b), z):
            self.out.append("%d:%s" % (k, self.text(o.ty, b[i:i + z])))
        v = "v" + o.ty.lower()
        return "while not endfile(%s) loop read(%s, %s); put(\"%d:\" & str(%s)); end loop;" % (o.name, o.name, v, k, v)

    def op_flush(self, o):
        o.dirty = False
        return "flush(%s);" % o.name

    def op_rewind(self, o):
        if o.ty == "P":
            return None
        o.pos = 0
        o.dirty = False
        return "file_rewind(%s);" % o.name

    def op_seek(self, o):
        s = self.s
        if o.ty == "P":
            return None
        n = len(self.data(o))
        z = self.isz if o.ty in "WAI" else self.size(o.ty)
        if s.bool(0.15) and o.ty == "I":
            z = 1
        t = s.int(0, n // z + (2 if s.bool(0.1) and o.mode != 2 else 0)) * z
        if o.mode == 2 and o.dirty is None:
            return None
        org = s.int(0, 2)
        off = t - (0, o.pos, n)[org]
        self.seek_to(o, t)
        name = ["file_origin_begin", "file_origin_current", "file_origin_end"][org]
        e = "%s, %d" % (o.name, off)
        if org != 0 or s.bool(0.5):
            e += ", " + name
        return "file_seek(%s);" % e

    def op_beyond(self, o):
        """Position queries between a seek and a write, often beyond the end."""
        s = self.s
        if o.ty == "P":
            return None
        n = len(self.data(o))
        z = self.isz if o.ty in "WAI" else self.size(o.ty)
        t = (n // z + s.int(-2, 4)) * z
        t = max(t, 0)
        org = s.int(0, 2)
        off = t - (0, o.pos, n)[org]
        st = ["file_seek(%s, %d, %s);" % (o.name, off, ["file_origin_begin", "file_origin_current", "file_origin_end"][org])]
        self.seek_to(o, t)
        for _ in range(s.int(0, 3)):
            x = s.weighted([(4, "pos"), (2, "size"), (1, "canseek"), (1, "flush"), (1, "state")])
            st.append(getattr(self, "op_" + x)(o))
        st.append(self.op_write(o))
        return " ".join(x for x in st if x)

    def seek_to(self, o, t):
        o.pos = t
        o.dirty = False

    def op_pos(self, o):
        if o.ty == "P":
            return None
        org = self.s.int(0, 2)
        n = len(self.data(o))
        v = (o.pos, 0, n - o.pos)[org]
        if org == 2:
            o.dirty = False
        name = ["file_origin_begin", "file_origin_current", "file_origin_end"][org]
        e = o.name + ("" if org == 0 and self.s.bool() else ", " + name)
        return self.show("integer'image(file_position(%s))" % e, str(v))

    def op_size(self, o):
        if o.ty == "P":
            return None
        o.dirty = False
        return self.show("integer'image(file_size(%s))" % o.name, str(len(self.data(o))))

    def op_mode(self, o):
        return self.show("file_open_kind'image(file_mode(%s))" % o.name, MODES[o.mode])

    def op_state(self, o):
        return self.show("file_open_state'image(file_state(%s))" % o.name, "state_open")

    def op_canseek(self, o):
        return self.show("boolean'image(file_canseek(%s))" % o.name, "true")

    def op_trunc(self, o):
        s = self.s
        if o.ty == "P":
            return None
        d = self.data(o)
        n = len(d)
        z = self.isz if o.ty in "WAI" else self.size(o.ty)
        t = s.int(0, n // z + (2 if s.bool(0.2) else 0)) * z
        org = s.int(0, 2)
        off = t - (0, o.pos, n)[org]
        if t < n:
            del d[t:]
        else:
            d.extend(bytes(t - n))
        name = ["file_origin_begin", "file_origin_current", "file_origin_end"][org]
        st = "file_truncate(%s, %d%s);" % (o.name, off, ", " + name if org or s.bool(0.5) else "")
        # the position afterwards is not specified: set it
        p = s.int(0, len(d) // z) * z
        o.pos = p
        o.dirty = False
        return st + " file_seek(%s, %d);" % (o.name, p)

    # ---- text lines
    def op_line(self, pr):
        s = self.s
        l = "la" if pr == 0 else "lb"
        cur = self.line[l]
        k = s.int(0, 9)
        just = s.choice(["left", "right"])
        fld = s.choice([0, 0, 1, 3, 6, 12])

        def pad(t):
            f = fld - len(t)
            return t if f <= 0 else (t + " " * f if just == "left" else " " * f + t)
        if k <= 4:
            if k == 0:
                t = "".join(self.rchar() for _ in range(s.int(0, 9))); e = 'string\'("%s")' % t
            elif k == 1:
                v = self.rint(); t = str(v); e = "integer'(%d)" % v
            elif k == 2:
                t = self.rchar(); e = "character'('%s')" % t
            elif k == 3:
                t = "".join(s.choice("01") for _ in range(s.int(1, 9))); e = 'bit_vector\'("%s")' % t
            else:
                t = s.choice(["true", "false"]); e = t
            self.line[l] = (cur or "") + pad(t)
            return "write(%s, %s, %s, %d);" % (l, e, just, fld) if fld or s.bool(0.5) else "write(%s, %s);" % (l, e)
        if cur is None:
            return None
        if k == 5:
            return self.show("integer'image(%s'length) & \"=\" & str(%s.all)" % (l, l), "%d=%s" % (len(cur), self.text("N", cur.encode("latin-1"))))
        if k == 6:
            if not cur:
                return "read(%s, vc, ok); " % l + self.show("boolean'image(ok)", "false")
            self.line[l] = cur[1:]
            return "read(%s, vc, ok); " % l + self.show("boolean'image(ok) & str(vc)", "true" + self.text("C", cur[0].encode("latin-1")))
        if k == 7:
            n = s.int(0, 8)
            if n > len(cur):
                return "read(%s, vn(1 to %d), ok); " % (l, n) + self.show("boolean'image(ok)", "false")
            self.line[l] = cur[n:]
            return "read(%s, vn(1 to %d), ok); " % (l, n) + self.show("boolean'image(ok) & str(vn(1 to %d))" % n, "true" + self.text("N", cur[:n].encode("latin-1")))
        if k == 8:
            m = re.match(r"[ \t]*(-?\d{1,9})(?![0-9_.#eE-])", cur)
            if not m:
                return None
            self.line[l] = cur[m.end():]
            return "read(%s, vi, ok); " % l + self.show("boolean'image(ok) & str(vi)", "true%d" % int(m.group(1)))
        self.line[l] = None
        return "deallocate(%s);" % l

    def lvar(self, o):
        # the architecture level objects may be used by both processes
        return "la" if self.cur_pr == 0 else "lb"

    def op_writeline(self, o):
        l = "la" if self.pr(o) == 0 else "lb"
        t = self.line[l] or ""
        self.line[l] = ""
        self.put_bytes(o, t.encode("latin-1") + b"\n")
        return "writeline(%s, %s);" % (o.name, l)

    def op_tee(self, o):
        l = "la" if self.pr(o) == 0 else "lb"
        t = self.line[l] or ""
        if "\r" in t or "\0" in t or any(not 32 <= ord(c) < 127 for c in t):
            return self.op_writeline(o)
        self.line[l] = ""
        self.put_bytes(o, t.encode() + b"\n")
        self.out.append(t)
        return "tee(%s, %s);" % (o.name, l)

    def pr(self, o):
        return self._pr

    def take_line(self, o):
        d = self.data(o)
        j = d.find(b"\n", o.pos)
        b = bytes(d[o.pos:] if j < 0 else d[o.pos:j])
        o.pos = max(o.pos, len(d) if j < 0 else j + 1)
        return b.replace(b"\r", b"").decode("latin-1")

    def op_readline(self, o):
        l = "la" if self.pr(o) == 0 else "lb"
        if self.at_eof(o):
            return self.op_eof(o)
        t = self.take_line(o)
        self.line[l] = t
        self.back += 1
        return "readline(%s, %s); " % (o.name, l) + self.show(
            "integer'image(%s'length) & \"=\" & str(%s.all)" % (l, l), "%d=%s" % (len(t), self.text("N", t.encode("latin-1"))))

    def op_lines(self, o):
        l = "la" if self.pr(o) == 0 else "lb"
        k = self.say("")
        self.out.pop()
        self.back += 1
        while not self.at_eof(o):
            t = self.take_line(o)
            self.line[l] = t
            self.out.append("%d:%s" % (k, self.text("N", t.encode("latin-1"))))
        return "while not endfile(%s) loop readline(%s, %s); put(\"%d:\" & str(%s.all)); end loop;" % (o.name, o.name, l, k, l)

    # ---- a last operation which must be reported as an error
    def bad(self):
        s = self.s
        o = s.choice(self.objs)
        v = "v" + o.ty.lower()
        rd = "read(%s, %s%s);" % (o.name, v, "(1 to 3), n" if o.ty in "WVN" else "")
        e = self.value(o.ty)[0]
        if o.ty == "V":
            e = 'bit_vector\'("01")'
        elif o.ty == "W":
            e = "iv'(1, 2)"
        elif o.ty == "N":
            e = 'string\'("ab")'
        wr = "write(%s, %s);" % (o.name, e)
        c = []
        if o.path is None:
            c += [rd, wr, "ok := endfile(%s);" % o.name, 'file_open(%s, "", write_mode);' % o.name, 'file_open(%s, "none.dat", read_mode);' % o.name,
                  'file_open(%s, "nodir/x", write_mode);' % o.name]
            if self.std != "1993":
                c += ["flush(%s);" % o.name]
            if self.std == "2019":
                c += [f % o.name for f in ("file_rewind(%s);", "file_seek(%s, 0);", "file_truncate(%s, 0);", "n := file_size(%s);", "n := file_position(%s);",
                                           "ok := file_canseek(%s);", "put(file_open_kind'image(file_mode(%s)));")]
            if o.ty == "N":
                c += ["readline(%s, la);" % o.name, "writeline(%s, la);" % o.name]
                if self.std != "1993":
                    c += ["tee(%s, la);" % o.name]
        else:
            if o.mode == 0:
                c += [wr]
                if self.std == "2019":
                    c += ["file_truncate(%s, 0);" % o.name]
            if o.mode in (1, 2):
                c += [rd]
            c += ['file_open(%s, "%s", %s);' % (o.name, s.choice(self.paths), s.choice(MODES[:3]))]
            if self.std == "2019":
                c += ["file_seek(%s, -1);" % o.name]
        st = s.choice(c)
        self.fatal = st
        self.labels.add("illegal")
        return st + ' put("survived");'

    # ---- source
    def vardecl(self):
        return """    variable vi : integer; variable va : a3; variable vb : bit; variable vc : character; variable vt : time; variable vr : real;
    variable vl : boolean; variable ve : en; variable vp : re; variable vw : iv(1 to 20); variable vv : bit_vector(1 to 20);
    variable vn : string(1 to 20); variable ok : boolean;
"""

    def source(self):
        std19 = self.std != "1993"
        sub = []
        for t in FT:
            f = FT[t]
            imp = "impure "
            sub.append("  impure function eof_%s(file f : %s) return boolean is begin return endfile(f); end function;\n" % (f, f))
            if t in VT:
                sub.append("  procedure wr_%s(file f : %s; v : %s) is begin write(f, v); end procedure;\n" % (f, f, VT[t]))
                sub.append("  procedure rd_%s(file f : %s; v : out %s) is variable x : %s; begin read(f, x); v := x; end procedure;\n" % (f, f, VT[t], VT[t]))
            else:
                vt = {"W": "iv", "V": "bit_vector", "N": "string"}[t]
                sub.append("  procedure wr_%s(file f : %s; v : %s) is alias w : %s(1 to v'length) is v; begin write(f, w); end procedure;\n" % (f, f, vt, vt))
        hdr = re.findall(r"  (?:impure function|procedure) [^\n]*? is ", "".join(sub))
        strs = """  impure function str(v : integer) return string is begin return integer'image(v); end function;
  impure function str(v : iv) return string is begin
    if v'length = 0 then return ""; end if;
    return integer'image(v(v'left)) & "," & str(v(v'left + 1 to v'right)); end function;
  impure function str(v : a3) return string is begin return str(v(1)) & "," & str(v(2)) & "," & str(v(3)) & ","; end function;
  impure function str(v : bit) return string is begin if v = '1' then return "1"; else return "0"; end if; end function;
  impure function str(v : bit_vector) return string is begin
    if v'length = 0 then return ""; end if;
    return str(v(v'left)) & str(v(v'left + 1 to v'right)); end function;
  impure function str(v : character) return string is constant p : integer := character'pos(v); begin
    if p >= 32 and p < 127 and v /= '#' then return (1 => v); else return "#" & integer'image(p) & "#"; end if; end function;
  impure function str(v : string) return string is
    variable r : string(1 to v'length * 5 + 1); variable n : natural := 0; variable t : line; begin
    for i in v'range loop
      for j in str(v(i))'range loop n := n + 1; r(n) := str(v(i))(j); end loop;
    end loop;
    return r(1 to n); end function;
  impure function str(v : time) return string is begin return integer'image(v / 1 ns); end function;
  impure function str(v : real) return string is begin return integer'image(integer(v * 64.0)); end function;
  impure function str(v : boolean) return string is begin return boolean'image(v); end function;
  impure function str(v : en) return string is begin return en'image(v); end function;
  impure function str(v : re) return string is begin return str(v.a) & v.b & str(v.c); end function;
  procedure put(v : string) is begin write(output, v & LF); end procedure;
  impure function nm(k : integer) return string is begin return "f" & integer'image(k) & ".dat"; end function;
"""
        # the character to string loop must not call str() of a slice twice per character
        strs = strs.replace("      for j in str(v(i))'range loop n := n + 1; r(n) := str(v(i))(j); end loop;\n",
                            "      t := new string'(str(v(i))); r(n + 1 to n + t'length) := t.all; n := n + t'length; deallocate(t);\n")
        phdr = "".join(re.findall(r"  impure function str\([^\n]*? return string(?= is)|  procedure put\(v : string\)(?= is)|  impure function nm\(k : integer\) return string(?= is)", strs))
        phdr = re.sub(r"(?<=string)(?=  )|(?<=\))(?=  )", ";\n", phdr) + ";\n"
        decl = {"arch": "", "proc0": "", "pkg": ""}
        for o in self.objs:
            decl[o.where] += "  file %s : %s%s;\n" % (o.name, FT[o.ty], o.decl or "")
        src = "use std.textio.all;\npackage tp is\n" + TDEF + decl["pkg"] + phdr + "end package;\npackage body tp is\n" + strs + "end package body;\n"
        src += "use std.textio.all;\nuse work.tp.all;\nentity tb is end entity;\narchitecture a of tb is\n"
        src += decl["arch"] + "".join(x for x in sub if re.search(r"_(%s)\(" % "|".join(set(FT[o.ty] for o in self.objs)), x))
        src += "".join(self.loc)
        src += "begin\n"
        for pr in (0, 1):
            if not any(p == pr for p, _ in self.steps) and (pr or not decl["proc0"]):
                continue
            src += "  p%d : process\n" % pr
            if pr == 0:
                src += decl["proc0"]
            src += self.vardecl() + "    variable n : integer; variable st : file_open_status; variable %s : line;\n  begin\n" % ("la" if pr == 0 else "lb")
            src += "    if now < 0 ns then put(\"x\"); end if;\n"
            t = 0
            for k, (p, sts) in enumerate(self.steps):
                if p != pr:
                    continue
                if k > t:
                    src += "    wait for %d ns;\n" % (k - t)
                    t = k
                for x in sts:
                    src += "    %s\n" % x
            src += "    wait;\n  end process;\n"
        src += "end architecture;\n"
        # second simulation: read everything back
        src += "use std.textio.all;\nuse work.tp2.all;\nentity tb2 is end entity;\narchitecture a of tb2 is begin\n  process\n"
        src = src.replace("use work.tp2.all;", "use work.tp2.all;")
        p2 = "use std.textio.all;\npackage tp2 is\n" + TDEF + phdr + "end package;\npackage body tp2 is\n" + strs + "end package body;\n"
        body = ""
        vd = ""
        exp2 = []
        for i, p in enumerate(self.paths):
            if p not in self.files or not self.files[p]:
                continue
            d = self.files[p]
            ty = {"int": "I", "bit": "B", "chr": "N", "time": "T", "real": "R", "bool": "L", "enum": "E", "rec": "P"}[self.pgroup[p]]
            z = 1 if ty == "P" else self.size(ty)
            if len(d) % z or (ty == "R" and False):
                continue
            vd += "    file x%d : %s;\n" % (i, FT[ty])
            if ty == "N":
                body += "    file_open(x%d, \"%s\"); while not endfile(x%d) loop readline(x%d, l); put(str(l.all)); end loop; file_close(x%d);\n" % ((i, p) + (i,) * 3)
                x = Obj("x", "N", "x"); x.path, x.pos = p, 0
                while x.pos < len(d):
                    exp2.append(self.text("N", self.take_line(x).encode("latin-1")))
            else:
                v = "v" + ty.lower()
                body += "    file_open(x%d, \"%s\"); while not endfile(x%d) loop read(x%d, %s); put(str(%s)); end loop; file_close(x%d);\n" % (i, p, i, i, v, v, i)
                for j in range(0, len(d), z):
                    exp2.append("%d%s%d" % d[j] if ty == "P" else self.text(ty, bytes(d[j:j + z])))
        src += vd + self.vardecl() + "    variable l : line;\n  begin\n" + body + "    wait;\n  end process;\nend architecture;\n"
        i = src.index("use std.textio.all;\nuse work.tp2.all;")
        return src[:i], p2 + src[i:], exp2


def gen(s, index):
    g = Gen(s)
    g._pr = 0
    orig = g.op

    def op(pr):
        g._pr = pr
        return orig(pr)
    g.op = op
    g.build()
    s1, s2, exp2 = g.source()
    disk = {p: (None if isinstance(d, list) else bytes(d).hex()) for p, d in g.files.items()}
    opened = [o.path for o in g.objs if o.path and getattr(o, "mode", 0)]
    return {"src": s1, "src2": s2, "out": g.out, "out2": exp2, "std": g.std, "fatal": g.fatal, "pre": {p: b.hex() for p, b in g.pre.items()},
            "disk": disk, "labels": sorted(g.labels), "nops": sum(len(x) for _, x in g.steps), "back": g.back,
            "engine": s.choice(["interp", "interp", "jit", "jit", "mixed"] + (["aot0", "aot1", "aot2"] if index % 4 == 0 else [])),
            "engine2": s.choice(["interp", "jit"]), "unsure": opened if g.fatal else []}


def compare(want, r, what, fatal, eng):
    got = r.out.splitlines()
    if r.timeout:
        raise pbt.Fail("%s: timeout (%s)" % (what, eng), "timeout")
    if r.crashed:
        raise pbt.Fail("%s: nvc crashed (%s)" % (what, eng), "crash", r.err[-1500:])
    n = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]), None)
    if n is not None:
        raise pbt.Fail("%s (%s): line %d of the output is %r, expected %r" % (
            what, eng, n + 1, got[n] if n < len(got) else None, want[n] if n < len(want) else None), "output", r.err[-1200:])
    if fatal:
        if r.rc != 1 or "Fatal" not in r.err and "fatal" not in r.err:
            raise pbt.Fail("%s (%s): illegal operation %s not reported, rc=%d" % (what, eng, fatal, r.rc), "illegal", r.err[-800:])
    elif r.rc != 0:
        raise pbt.Fail("%s (%s): unexpected error rc=%d: %s" % (what, eng, r.rc, r.err[-600:]), "rc", r.err[-1500:])


def check(case, env):
    for l in case["labels"]:
        env.label(l)
    env.label("std" + case["std"], case["engine"])
    if case["nops"] >= 8 and case["back"]:
        env.mark(case["src"])
    d = env.dir()
    for p, b in case["pre"].items():
        with open(os.path.join(d, p), "wb") as f:
            f.write(bytes.fromhex(b))
    r = nvc.sim(env, d, case["src"], std=case["std"], engine=case["engine"], xenv={"LC_ALL": "C"})
    env.count(len(case["out"]))
    compare(case["out"], r, "history", case["fatal"], case["engine"])
    for p, h in case["disk"].items():
        if h is None:
            continue
        try:
            b = open(os.path.join(d, p), "rb").read()
        except FileNotFoundError:
            raise pbt.Fail("file %s was not created" % p, "disk")
        if b != bytes.fromhex(h):
            raise pbt.Fail("file %s holds %r, expected %r" % (p, b[:200], bytes.fromhex(h)[:200]), "disk")
        env.count(1)
    for p in os.listdir(d):
        if p.endswith(".dat") and p not in case["disk"]:
            raise pbt.Fail("unexpected file %s" % p, "disk")
    r = nvc.sim(env, d, case["src2"], top="tb2", std=case["std"], engine=case["engine2"], name="t2.vhd", xenv={"LC_ALL": "C"})
    compare(case["out2"], r, "second simulation", None, case["engine2"])
    env.count(len(case["out2"]))


ARRLEN = {"std": "2008", "engine": "interp", "engine2": "interp", "labels": [], "nops": 0, "back": 0, "fatal": None, "pre": {}, "disk": {"f0.dat": None},
          "out": ["3=110", "3=001"], "out2": [], "src2": "entity tb2 is end entity; architecture a of tb2 is begin end architecture;",
          "src": """use std.textio.all;
entity tb is end entity;
architecture a of tb is
  type ft is file of bit_vector;
begin
  process
    file f : ft;
    variable v : bit_vector(1 to 3);
    variable n : natural;
    procedure p is begin
      write(output, integer'image(n) & "=");
      for i in v'range loop if v(i) = '1' then write(output, "1"); else write(output, "0"); end if; end loop;
      write(output, (1 => LF));
    end procedure;
  begin
    file_open(f, "f0.dat", write_mode);
    write(f, bit_vector'("11010"));
    write(f, bit_vector'("001"));
    file_close(f);
    file_open(f, "f0.dat", read_mode);
    read(f, v, n); p;
    read(f, v, n); p;
    file_close(f);
    wait;
  end process;
end architecture;
"""}
PINNED = [{"id": "K10-arrlen", "case": ARRLEN}]

if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
