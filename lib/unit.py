"""Unit files: Verus text + directives naming the /repo items to extract and the contracts to put on them."""
import os, re, shlex
from rustx import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unit:
    def __init__(self, path, repo):
        self.path, self.repo = path, repo
        self.srcs = {}
        self.lines = []      # generated text lines
        self.map = []        # per generated line: (kind, fn, props)
        self.fns = []        # dicts of functions under contract
        self.types = []
        self.cfg = {"subst": [], "macros": {}, "methods": {}, "sig_subst": [], "drop_methods": []}
        self.probe = False
        self.base_new, self.changed = {}, set()
        self.overridden = {}
        bp = path[:-5] + ".base"
        self.base = {}
        if os.path.exists(bp):
            for l in open(bp):
                k, v = l.rstrip("\n").split("\t", 1)
                self.base[k] = v.split(" ")
        self.demote = {}     # fn -> reason: emitted with its contract only, body not verified

    def source(self, rel):
        if rel not in self.srcs:
            self.srcs[rel] = Source(self.repo, rel)
        return self.srcs[rel]

    def put(self, s, kind, fn=None, props=(), tagged=False):
        for l in s.split("\n"):
            self.lines.append(l)
            p = props
            m = re.search(r"//#([A-Z0-9,]+)", l)
            k = kind
            if m and tagged:
                p = tuple(m.group(1).split(","))
                k = "clause"
            self.map.append((k, fn, p))

    def build(self, probe=False):
        """returns verus text; with probe=True each contract function body starts with assert(false)"""
        self.lines, self.map, self.fns, self.types = [], [], [], []
        self.lost = []
        blocks = parse_blocks(self.path)
        for d, args, opts, body in blocks:
            if d == "include":
                p = os.path.join(HERE, "specs", args[0])
                self.put(open(p).read(), "verus")
            elif d == "verus":
                self.put("\n".join(body.get("", [])), "verus")
            elif d == "subst":
                self.cfg["subst"].append((args[0], args[1]))
            elif d == "sigsubst":
                self.cfg["sig_subst"].append((args[0], args[1]))
            elif d == "macro":
                self.cfg["macros"][args[0]] = args[1]
            elif d == "method":
                self.cfg["methods"][args[0]] = args[1]
            elif d == "formatstr":
                self.cfg["macros"]["format"] = format_expander
            elif d == "reals":
                self.cfg["reals"] = True
            elif d == "spinoff":
                self.spin = True  # one solver run per function: they run side by side and see only what they use
            elif d == "defaults":
                # trait default methods proved once: an implementation that overrides one is out of the proof's sight
                for f in args[0].split(","):
                    for im in args[1:]:
                        rel, path = im.split("|")
                        try:
                            self.source(rel).find(("fn",), path + "::" + f)
                        except Lost:
                            continue
                        self.overridden[f] = "overridden in " + path
            elif d == "bytelits":
                self.cfg["byte_lits"] = True
            elif d == "keepmethod":
                self.cfg["drop_methods"].append(args[0])
            elif d in ("struct", "enum", "const", "type"):
                t = strip_attrs(self.source(args[0]).find((d,), args[1]))
                t = apply_subst(t, self.cfg["subst"], args[1])
                s = text(t)
                for a, r in self.cfg["sig_subst"]:
                    s = re.sub(a, r, s)
                if d == "enum" and not s.lstrip().startswith("pub"):
                    s = "pub " + s.lstrip()
                s = re.sub(r"\bpub\s*\(\s*crate\s*\)", "pub", s)
                if d == "struct" and not opts.get("keepvis"):
                    s = re.sub(r"(?m)^(\s*)(?!pub\b)([a-z_]\w*\s*:)", r"\1pub \2", s)
                pre = opts.get("attr", "")
                if d == "const" and not s.startswith("pub"):
                    s = "pub " + s
                self.put((pre + "\n" if pre else "") + s, "type", args[1])
                self.types.append(args[0] + "::" + args[1])
            elif d == "expand":
                try:
                    self.cfg["macros"][args[1]] = macro_expander(self.source(args[0]).find(("macro",), args[1]), args[1])
                except Lost as e:
                    def gone(_a, e=e):
                        raise Lost(str(e))
                    self.cfg["macros"][args[1]] = gone
                self.types.append(args[0] + "::" + args[1] + "!")
            elif d == "table":
                self.table(args[0], args[1])
            elif d == "macro_rules":
                t = self.source(args[0]).find(("macro",), args[1])
                t = strip_attrs(t)
                t = apply_subst(t, self.cfg["subst"], args[1])
                self.put(text(t), "type", args[1])
                self.types.append(args[0] + "::" + args[1] + "!")
            elif d == "fn":
                self.fn_block(args, opts, body, probe)
            else:
                raise Exception("unknown directive " + d)
        return "\n".join(self.lines) + "\n"

    def table(self, rel, name):
        """a constant array of integers (one or two dimensions) as a spec function (balanced tree of the very literals) and its indexing function"""
        self.types.append(rel + "::" + name)
        try:
            t = strip_attrs(self.source(rel).find(("const",), name))
            eq = next(k for k, x in enumerate(t) if x.s == "=")
            el = next(x.s for x in t[:eq] if x.kind == "id" and re.match(r"^[iu](8|16|32|64|size)$", x.s))
            rows = [t[eq + 2:match_close(t, eq + 1)]]
            flat = [[x.s for x in rows[0]]]
            if flat[0][0] == "[":
                flat = [["".join(y.s for y in x) for x in split_commas(r[1:-1]) if x] for r in split_commas(rows[0]) if r]
                two = True
            else:
                flat = [["".join(y.s for y in x) for x in split_commas(rows[0]) if x]]
                two = False
            for r in flat:
                for v in r:
                    int(re.sub(r"_|[iu](8|16|32|64|size)$", "", v))
        except (ValueError, StopIteration, IndexError) as e:
            raise Lost("table %s: %s" % (name, e))
        def tree(r, a, b):
            if b - a == 1:
                return re.sub(r"_|[iu](8|16|32|64|size)$", "", r[a])
            m = (a + b) // 2
            return "(if i < %d { %s } else { %s })" % (m, tree(r, a, m), tree(r, m, b))
        for k, r in enumerate(flat):
            self.put("pub open spec fn %s_row%d(i: int) -> int { %s }" % (name, k, tree(r, 0, len(r))), "type", name)
        n = len(flat)
        row = "%s_row%d(j)" % (name, n - 1)
        for k in range(n - 2, -1, -1):
            row = "if i == %d { %s_row%d(j) } else { %s }" % (k, name, k, row)
        self.put("pub open spec fn %s_v(i: int, j: int) -> int { %s }" % (name, row), "type", name)
        self.put("#[verifier::external_body] pub fn %s_at(i: usize, j: usize) -> (r: %s) requires i < %d, j < %d ensures r == %s_v(i as int, j as int) { unimplemented!() }" % (name, el, n, min(len(r) for r in flat), name), "type", name)
        self.cfg["subst"].append(("%s [ $i ] [ $j ]" % name if two else "%s [ $i ]" % name, "%s_at ( $i , $j )" % name if two else "%s_at ( 0 , $i )" % name))

    def fn_block(self, args, opts, body, probe):
        rel, path = args[0], args[1]
        t = self.source(rel).find(("fn",), opts.get("find", path))
        ann = {"loops": {}, "closures": {}, "subst": [], "sig_subst": []}
        ann["contract"] = "\n".join(body.get("", []))
        for key, lines in body.items():
            if not key:
                continue
            w = key.split(None, 2)
            v = "\n".join(lines)
            if w[0] in ("begin", "end", "tail"):
                ann[w[0]] = v
            elif w[0] == "loop":
                e = ann["loops"].setdefault(int(w[1]), {})
                e["spec"] = v
                if len(w) > 2:
                    e["header"] = w[2]
            elif w[0] in ("loopbegin", "loopend", "before", "after", "init"):
                e = ann["loops"].setdefault(int(w[1]), {})
                e[{"loopbegin": "begin", "loopend": "end"}.get(w[0], w[0])] = v
            elif w[0] == "closure":
                c = {"spec": v}
                if len(w) > 2:
                    c["params"] = [x.strip() for x in w[2].split(";")]
                ann["closures"][int(w[1])] = c
            elif w[0] == "subst":
                for l in lines:
                    a, b = l.split(" ==> ")
                    ann["subst"].append((a, b))
            elif w[0] == "sigsubst":
                for l in lines:
                    a, b = l.split(" ==> ")
                    ann["sig_subst"].append((a, b))
            else:
                raise Exception("bad section " + key)
        fname = opts.get("as", path)
        toks = [x.s for x in t if not re.search(r"\s", x.s)]
        self.base_new[fname] = toks
        old = self.base.get(fname)
        if old is not None and old != toks:
            self.changed.add(fname)
            for a, b in renames(old, toks).items():
                # follow a renamed local into the contract
                rx = re.compile(r"(?<![\w.])%s\b" % re.escape(a))
                sub = lambda v: rx.sub(b, v) if isinstance(v, str) else v
                ann = {k: (sub(v) if isinstance(v, str) else v) for k, v in ann.items()}
                ann["loops"] = {k: {q: sub(w) for q, w in e.items()} for k, e in ann["loops"].items()}
                ann["closures"] = {k: {q: (sub(w) if isinstance(w, str) else [sub(z) for z in w]) for q, w in e.items()} for k, e in ann["closures"].items()}
                ann["subst"] = [(sub(x), sub(y)) for x, y in ann["subst"]]
                ann["sig_subst"] = [(sub(x), sub(y)) for x, y in ann["sig_subst"]]
        if probe and getattr(self, "light", False) and "spinoff_prover" in opts.get("attr", ""):
            opts = dict(opts, noprobe="1")  # costly functions are probed in the thorough tier only
        if probe == "blocks" and not opts.get("noprobe"):
            ann["blocks"] = fname
        elif probe:
            # each of these must FAIL: a function end or loop body that is unreachable under the contracts proves nothing
            if not opts.get("noprobe"):
                ann["tail"] = ann.get("tail", "") + "\nassert(false); //probe:%s:end\n" % fname
            for k in ann["loops"]:
                # where an outer loop's probe stays in scope of an inner one, its failed assertion must not hide the inner one's
                no = "assert(false);" if "loop_isolation(false)" not in opts.get("attr", "") else "proof { if arbitrary::<int>() == %d { assert(false); } }" % k
                ann["loops"][k]["begin"] = ann["loops"][k].get("begin", "") + "\n%s //probe:%s:loop%d\n" % (no, fname, k)
        props = tuple(opts.get("props", "").split(",")) if opts.get("props") else ()
        impl = opts.get("impl")
        if impl is None and "::" in path:
            impl = path.rsplit("::", 1)[0]
        short = path.rsplit("::", 1)[-1]
        if path.startswith("trait ") and short in self.overridden and fname not in self.demote:
            self.demote[fname] = "anchor lost: " + self.overridden[short]
        demoted = fname in self.demote
        if not demoted:
            try:
                txt = emit_fn(t, ann, self.cfg, rel + "::" + path)
            except Lost as e:
                self.demote[fname] = "anchor lost: " + str(e)
                demoted = True
        if demoted:
            txt = emit_sig(t, ann, self.cfg)
        txt = re.sub(r"^\s*(?:pub\s*(?:\(\s*crate\s*\))?\s+)?", "pub ", txt) if not opts.get("trait") else re.sub(r"^\s*pub\s+", "", txt)
        if opts.get("rename"):
            txt = re.sub(r"\bfn\s+\w+", "fn " + opts["rename"], txt, count=1)
        self.fns.append({"fn": fname, "file": rel, "props": props, "line": t[0].line, "ntok": len(t), "gen": len(self.lines) + 1})
        if demoted:
            txt = "#[verifier::external_body]\n" + txt
        elif opts.get("attr"):
            a = opts["attr"]
            if probe:
                a = re.sub(r"#\[verifier::rlimit\([^)]*\)\]", "", a)
            txt = a + "\n" + txt
        if getattr(self, "spin", False) and not demoted and "spinoff_prover" not in opts.get("attr", ""):
            txt = "#[verifier::spinoff_prover]\n" + txt
        if impl:
            self.put("impl" + opts.get("generics", "") + " " + impl + " {", "fn", fname, props)
        self.put(txt, "fn", fname, props, tagged=True)
        if impl:
            self.put("}", "fn", fname, props)
        self.fns[-1]["gen_end"] = len(self.lines)


def parse_blocks(path):
    blocks, cur, sect = [], None, ""
    for ln in open(path):
        ln = ln.rstrip("\n")
        if ln.startswith("@@use "):
            blocks += parse_blocks(os.path.join(HERE, "specs", ln.split()[1]))
            cur = None
            continue
        if ln.startswith("@@@"):
            sect = ln[3:].strip()
            cur[3].setdefault(sect, [])
            continue
        if ln.startswith("@@#"):
            continue
        if ln.startswith("@@"):
            w = shlex.split(ln[2:])
            opts, args = {}, []
            for x in w[1:]:
                m = re.match(r"^(\w+)=(.*)$", x)
                if m and w[0] not in ("subst", "sigsubst", "macro", "method"):
                    opts[m.group(1)] = m.group(2)
                else:
                    args.append(x)
            cur = (w[0], args, opts, {})
            sect = ""
            blocks.append(cur)
            continue
        if cur is None:
            if ln.strip():
                raise Exception("text before first directive")
            continue
        cur[3].setdefault(sect, []).append(ln)
    return blocks


if __name__ == "__main__":
    import sys
    u = Unit(sys.argv[1], os.environ.get("UNIT_REPO", "/repo"))
    if "--baseline" in sys.argv:
        u.build()
        with open(sys.argv[1][:-5] + ".base", "w") as f:
            for k, v in u.base_new.items():
                f.write(k + "\t" + " ".join(x for x in v if " " not in x) + "\n")
        sys.exit(0)
    sys.stdout.write(u.build(probe="blocks" if "--blocks" in sys.argv else "--probe" in sys.argv))
