"""The command line tool on abstract inputs: what it does to the outside, stage by stage."""
from interp import *
from vals import *
import terms as tm
import models
from facts import Missing
from docs import Unclear, opt

SOURCE = mk("sym", "source")
STDIN, FILE = "stdin", "file"


class Event:
    def __init__(self, g, kind, args):
        self.g, self.kind, self.args = g, kind, args

    def __repr__(self):
        return "%s(%s)%s" % (self.kind, ", ".join(show(x, 4) for x in self.args), "" if self.g is TRUE else " when " + show(self.g, 4))


class Mistake:
    """an error parse() reports: its reason, what was found and expected"""

    def __init__(self, name, reason="Unexpected", found=True, expected=2, at=None):
        self.v = mk("sym", name)
        self.at = at
        self.name, self.reason, self.found, self.expected = name, reason, found, expected


def drawn(x):
    """the diagram a text or buffer is, None if it is something else"""
    while True:
        if x.op == "seq" and len(x.args[0]) == 1 and x.args[0][0].op == "one" and x.args[0][0].args[0] is TRUE:
            x = x.args[0][0].args[1]
        elif x.op == "str" and len(x.args[0]) == 1 and x.args[0][0].op == "one" and x.args[0][0].args[0] is TRUE:
            x = x.args[0][0].args[1]
        elif x.op == "disp":
            x = x.args[0]
        else:
            return x if x.op == "drawing" else None


class World:
    """one shape of a run: number of arguments, errors reported, a tree or none, what fails"""

    def __init__(self, F, nargs=2, lex=(), parse=(), ast=True, fails=(), order=1, args=(), source=None, env=False):
        self.F, self.nargs, self.lex, self.parse, self.ast, self.fails, self.order = F, nargs, list(lex), list(parse), ast, set(fails), order
        self.errors = {m.v: m for m in self.lex + self.parse}
        self.stages = stages(F)
        self.asked = []
        self.args = list(args)
        self.source = source
        self.env = env
        self.trace = []
        self.drawings = 0

    # -- events

    def emit(self, st, kind, *args):
        self.trace.append(Event(st.pc, kind, args))
        st = st.copy()
        log = st.roots.get(("EV",), mk("iolog", ()))
        if log.op != "iolog":
            raise Unclear("event log")
        st.roots[("EV",)] = mk("iolog", log.args[0] + (one(mk("ev", kind, args)),))
        return st

    def outcome(self, what, good, name):
        return err(mk("sym", "ioerror " + name)) if what in self.fails else ok(good)

    # -- calls

    def hook(self, I, key, path, args, st, fn, body):
        s = self.stages.get(key)
        if s:
            return self.stage(I, s, args, st)
        if key in I.p.bodies and I.p.bodies[key].j["kind"] in ("fn", "closure") and "shim" not in fn:
            return None
        ow, name = norm_path(path)
        f = getattr(self, "x_%s_%s" % (ow.replace("[", "").replace("]", ""), name), None)
        if f:
            return f(I, st, *args)
        if ow == "Simple" or "chumsky::error" in path:
            f = getattr(self, "e_" + name, None)
            if f and args:
                e = I.read(st, args[0])
                if e in self.errors:
                    return f(I, st, self.errors[e], *args[1:])
        if name in ("call_mut", "call", "call_once") or ow in ("Iterator", "IntoIterator", "Option", "Result"):
            return None
        if name in ("eprint", "print", "write", "write_for_stdout") and "ariadne" in path:
            out = {"eprint": lit("stderr"), "print": lit("stdout")}.get(name)
            if out is None:
                out = I.deep(st, args[2] if len(args) > 2 else UNIT)
            st = self.emit(st, "report", out, I.deep(st, args[0]), I.deep(st, args[1]))
            return st, ok(UNIT)
        return None

    def stage(self, I, s, args, st):
        vals = [I.deep(st, a) for a in args]
        if s == "parse":
            st = self.emit(st, "parse", vals[0])
            return st, tup(some(mk("sym", "ast")) if self.ast else NONE, seq([one(m.v) for m in self.lex]), seq([one(m.v) for m in self.parse]))
        if s == "into_mir":
            return self.emit(st, "lower", vals[0]), mk("made", "doc", tuple(vals), 0)
        if s == "render":
            if args[2].op == "mref" and vals[2].op == "seq":
                # into memory
                self.drawings += 1
                d = mk("drawing", self.drawings)
                st = self.emit(st, "render", vals[0], vals[1], lit("memory")).copy()
                I.write(st, args[2], seq(vals[2].args[0] + (one(mk("partof", d) if "render" in self.fails else d),)))
                return st, self.outcome("render", UNIT, "render")
            st = self.emit(st, "render", *vals)
            return st, self.outcome("render", UNIT, "render")
        # the layout stages
        st = self.emit(st, s, *vals).copy()
        r = mk("made", s, tuple(vals), 0)
        i = 0
        for a in args:
            if a.op == "mref":
                i += 1
                I.write(st, a, mk("made", s, tuple(vals), i))
        return st, r

    # arguments and input
    def x_env_args(self, I, st):
        return st, models.mkiter(tuple(one(lit(x)) for x in (["seiren"] + self.args + ["path of the file", "second argument", "third argument"][len(self.args):])[:self.nargs]))

    def text(self, name):
        return mk("sym", name) if self.source is None else lit(self.source)

    x_env_args_os = x_env_args

    def x_env_var(self, I, st, name):
        return st, ok(lit("1")) if self.env else err(mk("sym", "no such variable"))

    def x_env_var_os(self, I, st, name):
        return st, some(lit("1")) if self.env else NONE

    def reading(self, st, path):
        return self.emit(st, "read file", path), self.outcome(FILE, self.text("text of the file"), "file")

    def undecodable(self, x):
        return "decode" in self.fails and tm.contains(x, "raw text", lambda y: y.op == "sym" and y.args[0].startswith("text of "))

    def decoding(self, st, r):
        """reading text which isn't UTF-8 fails"""
        return (st, err(mk("sym", "ioerror decode"))) if "decode" in self.fails and r.args[1] == "Ok" else (st, r)

    def x_fs_read_to_string(self, I, st, path):
        return self.decoding(*self.reading(st, I.deep(st, path)))

    def x_fs_read(self, I, st, path):
        return self.reading(st, I.deep(st, path))

    def x_File_open(self, I, st, path):
        st = self.emit(st, "open file", I.deep(st, path))
        return st, self.outcome(FILE, mk("file", I.deep(st, path)), "file")

    def x_stdio_stdin(self, I, st):
        return st, mk("stdin")

    def x_Stdin_lock(self, I, st, x):
        return st, I.read(st, x)

    x_Stdout_lock = x_Stderr_lock = x_Stdin_lock

    def x_BufReader_new(self, I, st, x):
        return st, x

    def x_stdio_stdout(self, I, st):
        return st, lit("stdout")

    def x_stdio_stderr(self, I, st):
        return st, lit("stderr")

    def x_Read_read_to_string(self, I, st, r, buf, raw=False):
        s = I.deep(st, r)
        if s.op == "stdin":
            st = self.emit(st, "read stdin")
            res, src = self.outcome(STDIN, mk("sym", "length"), "stdin"), self.text("text of stdin")
        elif s.op == "file":
            st = self.emit(st, "read file", s.args[0])
            res, src = self.outcome(FILE, mk("sym", "length"), "file"), self.text("text of the file")
        else:
            return None
        if not raw:
            st, res = self.decoding(st, res)
        if res.args[1] == "Ok":
            st = st.copy()
            old = I.read(st, buf)
            I.write(st, buf, src if old is lit("") else concat(old, src))
        return st, res

    def x_Read_read_to_end(self, I, st, r, buf):
        return self.x_Read_read_to_string(I, st, r, buf, True)

    def x_read_read_to_string(self, I, st, r):
        s = I.deep(st, r)
        if s.op == "stdin":
            return self.decoding(self.emit(st, "read stdin"), self.outcome(STDIN, self.text("text of stdin"), "stdin"))
        if s.op == "file":
            return self.decoding(*self.reading(st, s.args[0]))
        return None

    x_io_read_to_string = x_read_read_to_string

    def x_process_exit(self, I, st, code):
        self.exits = getattr(self, "exits", []) + [(st.pc, code, st.roots.get(("EV",), mk("iolog", ())))]
        return None, UNDEF

    def x_process_abort(self, I, st):
        return self.x_process_exit(I, st, num(134))

    # output
    def x_stdio__print(self, I, st, a):
        d = drawn(models.unfmt(a))
        if d is not None:
            # it panics if it fails
            if "deliver" in self.fails:
                self.emit(st, "deliver", lit("stdout"), d)
                return None, UNDEF
            return self.emit(st, "deliver", lit("stdout"), d), UNIT
        return self.emit(st, "print", lit("stdout"), models.unfmt(a)), UNIT

    def x_stdio__eprint(self, I, st, a):
        return self.emit(st, "print", lit("stderr"), models.unfmt(a)), UNIT

    def writing(self, I, st, f, text):
        w = I.deep(st, f)
        if w is lit("stdout") or w is lit("stderr") or w.op == "bufwriter":
            d = drawn(text)
            if d is not None:
                return self.emit(st, "deliver", w, d), self.outcome("deliver", UNIT, "deliver")
            if w.op == "bufwriter":
                return None
            return self.emit(st, "print", w, text), ok(UNIT)
        return None

    # a diagram in memory is text
    def x_String_from_utf8(self, I, st, b):
        if self.undecodable(I.deep(st, b)):
            return st, err(mk("sym", "ioerror decode"))
        d = drawn(I.deep(st, b))
        return None if d is None else (st, ok(d))

    x_str_from_utf8 = x_converts_from_utf8 = x_String_from_utf8

    def x_String_from_utf8_lossy(self, I, st, b):
        if self.undecodable(I.deep(st, b)):
            self.lossy = True
        d = drawn(I.deep(st, b))
        return None if d is None else (st, d)

    def x_Write_write_all(self, I, st, f, b):
        return self.writing(I, st, f, I.deep(st, b))

    def x_Write_write_fmt(self, I, st, f, a):
        return self.writing(I, st, f, models.unfmt(I.read(st, a)))

    def x_Write_flush(self, I, st, f):
        w = I.deep(st, f)
        if w in (lit("stdout"), lit("stderr")) or w.op == "bufwriter":
            return self.emit(st, "flush", w), self.outcome("flush", UNIT, "flush")
        return None

    def x_BufWriter_new(self, I, st, w):
        return st, mk("bufwriter", I.deep(st, w))

    x_LineWriter_new = x_BufWriter_new

    # errors
    def e_map(self, I, st, e, f):
        return st, e.v

    def e_span(self, I, st, e):
        if e.at is None:
            return None
        return st, adt("core::ops::range::Range", "Range", num(e.at[0]), num(e.at[1]))

    def e_reason(self, I, st, e):
        from facts import Facts
        t = "chumsky::error::SimpleReason"
        if e.reason == "Unexpected":
            return st, adt(t, "Unexpected")
        if e.reason == "Custom":
            return st, adt(t, "Custom", mk("sym", "message of " + e.name))
        return st, adt(t, "Unclosed", mk("sym", "span of the delimiter of " + e.name), mk("sym", "delimiter of " + e.name))

    def e_found(self, I, st, e):
        return st, some(mk("sym", "found by " + e.name)) if e.found else NONE

    def e_expected(self, I, st, e):
        xs = [some(lit("'}'")), some(lit("int")), NONE, some(lit("uuid")), some(lit("'{'"))][:e.expected]
        if self.order < 0:
            xs.reverse()
        self.asked.append(e.name)
        return st, models.mkiter(tuple(one(x) for x in xs))

    # -- running

    def run(self):
        F = self.F
        m = F.fn(None, "main", crate="bin")
        I = Interp(F.p)
        I.hook = self.hook
        I.hash_order = self.order
        self.I = I
        I2, st, v = F.run(m, [], interp=I)
        self.state, self.result = st, v
        logs = [(g, l) for g, c, l in getattr(self, "exits", [])]
        self.events = []
        log = st.roots.get(("EV",), mk("iolog", ())) if st is not None else mk("iolog", ())
        if log.op != "iolog":
            raise Unclear("events: " + show(log, 5))
        for s in log.args[0]:
            if s.op != "one" or s.args[1].op != "ev":
                raise Unclear("event in a loop of unknown length: " + show(s, 4)[:200])
            self.events.append(Event(s.args[0], s.args[1].args[0], s.args[1].args[1]))
        return self

    def failed(self):
        """does the run end in a failure? None: unknown"""
        for pc, c, l in getattr(self, "exits", []):
            if const(c) is None:
                return None
            if const(c) == 0:
                return False
        if self.state is None:
            return True
        v = self.result
        if v.op == "adt" and v.args[0] == R_T:
            return v.args[1] == "Err"
        if v is UNIT:
            return False
        if v.op == "const":
            return True if "FAILURE" in str(v.args[0]) else False if "SUCCESS" in str(v.args[0]) else None
        return None

    def tried(self, *kinds):
        """what may have been done, whether or not main returned after it"""
        return [e for e in self.trace if e.kind in kinds and e.g is not FALSE]

    def of(self, *kinds):
        return [e for e in self.events if e.kind in kinds]


R_T = "core::result::Result"


def stages(F):
    out = {}
    out[F.fn(None, "parse").j["key"]] = "parse"
    out[F.fn("Module", "into_mir").j["key"]] = "into_mir"
    for n in ("place_nodes", "place_terminal_ports", "draw_edge_path"):
        out[F.fn("SimpleLayoutEngine", n, "LayoutEngine").j["key"]] = n
    out[F.fn("SVGRenderer", "render", "Renderer").j["key"]] = "render"
    return out
