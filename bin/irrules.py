"""Rules over the LLVM IR of /repo/src, for all inputs at once.

Every source file is compiled to IR (clang -O0, then mem2reg so that locals are
SSA values), all files are linked into one module (IR level; no program is
produced), and the module's text is parsed here.

format-origin   (C20, C22, C23, C27)
    The format operand of every call of the printf family is traced through
    phi/select, constant tables, calls and parameters (callers of a function
    that forwards a parameter as format are call sites too).  It must not
    originate in text the program does not own: memory of table entries,
    arguments or mutable variables, or a parameter of a public function that
    is not documented as a format.
silent-reach    (C26)
    No call of a function that writes to a stream, or ends the process, is
    reachable in the call graph from the parser, the text builders
    and the functions installed in entries - except inside the panic handler
    and the scanner's own warnx, which the Eva scenarios show unreachable.
alloc-checked   (C19)
    Every result of malloc/calloc/realloc/strdup is compared with NULL, and
    the comparison dominates every access through it.
"""
import glob, os, re, subprocess

RULES = {"C20": ["format-origin"], "C22": ["format-origin"], "C23": ["format-origin"], "C27": ["format-origin"],
         "C26": ["silent-reach"], "C19": ["alloc-checked"]}

FMT = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "vprintf": 0, "vfprintf": 1, "vsprintf": 1, "vsnprintf": 2, "dprintf": 1, "warn": 0, "syslog": 1}
PUBLIC_FORMATS = {("arg_dstr_catf", 1), ("arg_print_glossary", 2), ("arg_print_glossary_ds", 2)}
WRITERS = {"printf", "fprintf", "vprintf", "vfprintf", "puts", "fputs", "putc", "fputc", "putchar", "fwrite", "perror", "write", "dprintf", "vdprintf", "syslog",
           "exit", "_exit", "_Exit", "abort", "quick_exit", "raise", "kill"}
ALLOC = {"malloc", "calloc", "realloc", "strdup", "strndup", "reallocarray"}


class Fn:
    __slots__ = ("name", "params", "blocks", "order", "defs", "external", "variadic")


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "([{<":
            depth += 1
        elif ch in ")]}>":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def paren(s, i):
    """s[i] == '(' -> index of the matching ')'"""
    d = 0
    q = False
    for j in range(i, len(s)):
        c = s[j]
        if c == '"':
            q = not q
        if q:
            continue
        if c == "(":
            d += 1
        elif c == ")":
            d -= 1
            if d == 0:
                return j
    return len(s) - 1


VAL = re.compile(r'(%[\w.$-]+|@[\w.$-]+|null|undef|poison|-?\d+)$')


def operand(a):
    """value of an argument such as 'ptr noundef %3' or a constant expression"""
    a = a.strip()
    m = re.search(r'getelementptr.*?\(.*?ptr (@[\w.$-]+)', a)
    if m:
        return m.group(1)
    m = VAL.search(a)
    return m.group(1) if m else a


class Mod:
    def __init__(self, text):
        self.fns, self.consts, self.globals, self.loc = {}, set(), set(), {}
        self.glob_init = {}
        cur = None
        lines = {}
        for line in text.split("\n"):
            if cur is None:
                m = re.match(r'(@[\w.$-]+) = (.*)$', line)
                if m:
                    self.globals.add(m.group(1))
                    self.glob_init[m.group(1)] = m.group(2)
                    if re.search(r'\bconstant\b', m.group(2).split(" align")[0][:200]):
                        self.consts.add(m.group(1))
                    continue
                m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', line)
                if m:
                    self.loc[m.group(1)] = m.group(2)
                    continue
                m = re.match(r'define (.*?)@([\w.$-]+)\(', line)
                if m:
                    f = Fn()
                    f.name = m.group(2)
                    f.external = "internal" not in m.group(1)
                    i = line.index("(", m.end() - 1)
                    ps = split_args(line[i + 1:paren(line, i)])
                    f.params = [operand(x) for x in ps if x != "..."]
                    f.blocks, f.order, f.defs = {}, [], {}
                    f.variadic = "..." in ps
                    cur, blk = f, "entry"
                    f.blocks[blk] = []
                    f.order.append(blk)
                    self.fns[f.name] = f
                continue
            if line == "}":
                cur = None
                continue
            m = re.match(r'([\w.$-]+):', line)
            if m:
                blk = m.group(1)
                if not cur.blocks.get("entry") and len(cur.order) == 1:
                    cur.blocks.pop("entry")
                    cur.order = []
                cur.blocks[blk] = []
                cur.order.append(blk)
                continue
            line = line.strip()
            if not line or line.startswith(";"):
                continue
            if cur.blocks[blk] and cur.blocks[blk][-1].startswith("switch") and not cur.blocks[blk][-1].rstrip().endswith("]") and "]" not in cur.blocks[blk][-1]:
                cur.blocks[blk][-1] += " " + line
                continue
            cur.blocks[blk].append(line)
            m = re.match(r'(%[\w.$-]+) = (.*)$', line)
            if m:
                cur.defs[m.group(1)] = (blk, m.group(2))

    def line_of(self, ins):
        m = re.search(r'!dbg !(\d+)', ins)
        return self.loc.get(m.group(1), "?") if m else "?"


CALL = re.compile(r'(?:^|= )(?:tail |musttail |notail )?call .*?(@[\w.$-]+|%[\w.$-]+)\(')


def calls(f):
    for b in f.order:
        for ins in f.blocks[b]:
            if "call " not in ins:
                continue
            # skip the function type of variadic calls: "call i32 (ptr, ...) @f("
            m = re.search(r'(?:^|= )(?:tail |musttail |notail )?call (.*)$', ins)
            if not m:
                continue
            body = m.group(1)
            k = re.search(r'(@[\w.$-]+|%[\w.$-]+)\(', body)
            if not k:
                continue
            i = k.end() - 1
            args = [operand(x) for x in split_args(body[i + 1:paren(body, i)])]
            yield b, ins, k.group(1), args


def module(repo, work):
    out = []
    srcs = sorted(glob.glob(os.path.join(repo, "src", "*.c")))
    for s in srcs:
        o = os.path.join(work, "ir_" + os.path.basename(s)[:-2] + ".ll")
        c = subprocess.run(["clang", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-gline-tables-only", "-fno-discard-value-names", "-w",
                            "-std=gnu89", "-D_XOPEN_SOURCE=700", "-I" + os.path.join(repo, "src"), "-S", "-emit-llvm", "-o", o, s], capture_output=True, text=True)
        if c.returncode:
            raise RuntimeError("clang: " + c.stderr[-600:])
        out.append(o)
    linked = os.path.join(work, "ir_all.bc")
    for cmd in (["llvm-link", "-o", linked] + out, ["opt", "-passes=mem2reg", "-S", "-o", linked + ".ll", linked]):
        c = subprocess.run(cmd, capture_output=True, text=True)
        if c.returncode:
            raise RuntimeError(cmd[0] + ": " + c.stderr[-600:])
    return Mod(open(linked + ".ll").read()), srcs


def public(repo):
    txt = open(os.path.join(repo, "src", "argtable3.h")).read()
    return set(re.findall(r'ARG_EXTERN[^;(]*?(\w+)\s*\(', txt))


# ---------------------------------------------------------------- format-origin
def origin(m, f, v, seen):
    """set of ("const",) | ("param", i) | ("foreign", why) | ("own",)"""
    if (f.name, v) in seen:
        return set()
    seen = seen | {(f.name, v)}
    if v in ("null", "undef", "poison") or re.match(r'-?\d+$', v):
        return {("const",)}
    if v.startswith("@"):
        return {("const",)} if v in m.consts else {("foreign", "the variable " + v)}
    if v in f.params:
        return {("param", f.params.index(v))}
    d = f.defs.get(v)
    if not d:
        return {("own",)}
    ins = d[1]
    if ins.startswith("phi"):
        r = set()
        for x in re.findall(r'\[ (.*?), %[\w.$-]+ \]', ins):
            r |= origin(m, f, operand(x), seen)
        return r
    if ins.startswith("select"):
        a = split_args(ins[len("select "):])
        return origin(m, f, operand(a[1]), seen) | origin(m, f, operand(a[2].split(", !")[0]), seen)
    if ins.startswith("getelementptr"):
        a = split_args(ins)
        return origin(m, f, operand(a[1]), seen)
    if ins.startswith(("bitcast", "freeze", "addrspacecast")):
        k = VAL.search(ins.split(" to ")[0])
        return origin(m, f, k.group(1), seen) if k else {("own",)}
    if ins.startswith("alloca"):
        return {("own",)}
    if ins.startswith("load"):
        a = split_args(ins)
        base = operand(a[1])
        root = origin_root(m, f, base, set())
        if root == "const":
            return {("const",)}
        if root == "alloca":
            return {("own",)}
        return {("foreign", "memory read at " + f.name)}
    if "call " in ins:
        k = re.search(r'(@[\w.$-]+)\(', ins)
        g = m.fns.get(k.group(1)[1:]) if k else None
        if not g:
            return {("own",)}
        i = ins.index("(", ins.index(k.group(1)))
        args = [operand(x) for x in split_args(ins[i + 1:paren(ins, i)])]
        r = set()
        for b in g.order:
            for t in g.blocks[b]:
                q = re.match(r'ret ptr (\S+?)(?:,|$)', t)
                if q:
                    for o in origin(m, g, q.group(1), seen):
                        r |= origin(m, f, args[o[1]], seen) if o[0] == "param" and o[1] < len(args) else {o}
        return r
    return {("own",)}


def origin_root(m, f, v, seen):
    if v in seen:
        return "alloca"
    seen = seen | {v}
    if v.startswith("@"):
        return "const" if v in m.consts else "mem"
    d = f.defs.get(v)
    if not d:
        return "mem"
    if d[1].startswith("getelementptr"):
        return origin_root(m, f, operand(split_args(d[1])[1]), seen)
    if d[1].startswith("alloca"):
        return "alloca"
    if d[1].startswith("phi"):
        rs = {origin_root(m, f, operand(x), seen) for x in re.findall(r'\[ (.*?), %[\w.$-]+ \]', d[1])}
        return rs.pop() if len(rs) == 1 else "mem"
    return "mem"


def address_taken(m):
    r = set()
    for f in m.fns.values():
        for b in f.order:
            for ins in f.blocks[b]:
                k = re.match(r'store ptr @([\w.$-]+)', ins)
                if k:
                    r.add(k.group(1))
        for b, ins, callee, args in calls(f):
            r |= {a[1:] for a in args if a.startswith("@")}
    for init in m.glob_init.values():
        r |= set(re.findall(r'ptr @([\w.$-]+)', init))
    return r & set(m.fns)


SCOPE = {"C20": r'arg_print_errors|.*_errorfn$', "C22": r'arg_make_|arg_print_errors|.*_errorfn$|arg_print_(syntax|glossary)', "C23": r'arg_print_|.*_errorfn$', "C27": r'arg_print_(syntax|glossary|option|formatted)'}


def reach(m, pattern):
    seen, work = set(), [n for n in m.fns if re.match(pattern, n)]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        work += [c[1:] for b, i, c, a in calls(m.fns[n]) if c[1:] in m.fns]
    return seen


def rule_format(m, pub, scope):
    taken = address_taken(m)
    inside = reach(m, scope)
    todo, done, findings, sites = [(n, i) for n, i in FMT.items()], set(), [], 0
    while todo:
        name, idx = todo.pop()
        if (name, idx) in done:
            continue
        done.add((name, idx))
        for f in m.fns.values():
            for b, ins, callee, args in calls(f):
                if callee != "@" + name or idx >= len(args):
                    continue
                sites += 1
                for o in origin(m, f, args[idx], set()):
                    if o[0] == "foreign":
                        findings.append(("%s:%s" % (f.name, m.line_of(ins)), "the format of the call of %s comes from %s, not from the program text" % (name, o[1])))
                    elif o[0] == "param":
                        if (f.name, o[1]) not in PUBLIC_FORMATS and f.name in pub:
                            findings.append(("%s:%s" % (f.name, m.line_of(ins)), "parameter %d of the public function %s, which is not a format, is used as the format of %s" % (o[1], f.name, name)))
                        elif f.name in taken and not f.variadic:
                            findings.append(("%s:%s" % (f.name, m.line_of(ins)), "an argument the parser hands to %s is used as the format of %s" % (f.name, name)))
                        todo.append((f.name, o[1]))
    findings = [x for x in findings if x[0].split(":")[0] in inside]
    return findings, sites, len(done) - len(FMT)


# ---------------------------------------------------------------- silent-reach
def rule_silent(m, pub):
    roots = [n for n in m.fns if n in ("arg_parse", "arg_nullcheck", "arg_free", "arg_freetable") or n.endswith("_ds") or n.startswith("arg_dstr_") or n.startswith("arg_make_")]
    # functions whose address is stored by the constructors are entered from the parser
    roots += [n for n in m.fns if n.endswith(("_scanfn", "_checkfn", "_resetfn", "_errorfn"))]
    roots += sorted(address_taken(m))
    # the panic handler and the scanner's own warning printer
    panics = set()
    for g, init in m.glob_init.items():
        k = re.search(r'(?:internal )?global ptr @([\w.$-]+)', init)
        if k and k.group(1) in m.fns:
            panics.add(k.group(1))
    stop = panics | {n for n in m.fns if re.match(r'(arg_)?warnx$', n)}
    seen, work, findings, edges = set(), [(r, None) for r in roots if r not in stop], [], 0
    while work:
        n, via = work.pop()
        if n in seen:
            continue
        seen.add(n)
        for b, ins, callee, args in calls(m.fns[n]):
            edges += 1
            c = callee[1:]
            if callee.startswith("@") and c in WRITERS:
                # writing to a stream the caller handed over is printing, not parsing
                findings.append(("%s:%s" % (n, m.line_of(ins)), "calls %s on a path from the parser or a text builder" % c))
            elif callee.startswith("@") and c in m.fns and c not in stop:
                work.append((c, n))
    return findings, len(seen), edges


# ---------------------------------------------------------------- alloc-checked
def dominators(f):
    succ = {}
    for b in f.order:
        t = f.blocks[b][-1] if f.blocks[b] else ""
        succ[b] = re.findall(r'label %([\w.$-]+)', t) if t.startswith(("br", "switch")) else []
    entry = f.order[0]
    preds = {b: [] for b in f.order}
    for b, ss in succ.items():
        for s in ss:
            if s in preds:
                preds[s].append(b)
    dom = {b: set(f.order) for b in f.order}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in f.order:
            if b == entry:
                continue
            ps = [dom[p] for p in preds[b]]
            n = (set.intersection(*ps) if ps else set()) | {b}
            if n != dom[b]:
                dom[b], ch = n, True
    return dom


def rule_alloc(m, pub):
    findings, sites = [], 0
    for f in m.fns.values():
        dom = None
        for b, ins, callee, args in calls(f):
            if callee[1:] not in ALLOC or not callee.startswith("@"):
                continue
            sites += 1
            k = re.match(r'(%[\w.$-]+) =', ins)
            if not k:
                continue
            v = k.group(1)
            where = "%s:%s" % (f.name, m.line_of(ins))
            derived, grow = {v}, True
            while grow:
                grow = False
                for d, (db, di) in f.defs.items():
                    if d not in derived and di.startswith(("getelementptr", "bitcast")) and any(re.search(re.escape(x) + r'(?![\w.$-])', di) for x in derived):
                        derived.add(d)
                        grow = True
            tests = [(bb, i) for bb in f.order for i, t in enumerate(f.blocks[bb]) if re.search(r'= icmp (eq|ne) ptr ' + re.escape(v) + r', null', t)]
            if not tests:
                uses = [t for bb in f.order for t in f.blocks[bb] if re.search(re.escape(v) + r'(?![\w.$-])', t) and not t.startswith(v + " =")]
                if any(re.match(r'ret ', t) or " phi " in t or re.match(r'store ptr ' + re.escape(v) + r'(?![\w.$-])', t) or "call" in t for t in uses) and not any(
                        re.search(r'(load|store) .*ptr ' + re.escape(x) + r'(?![\w.$-])', t) and not re.match(r'store ptr ' + re.escape(x) + r', ', t) for x in derived for bb in f.order for t in f.blocks[bb]):
                    # handed on unexamined: only a violation if nobody can examine it, which Eva's scenarios decide
                    continue
                findings.append((where, "the result of %s is used without being compared with NULL" % callee[1:]))
                continue
            dom = dom or dominators(f)
            for bb in f.order:
                for i, t in enumerate(f.blocks[bb]):
                    for x in derived:
                        if re.search(r'(?:load .*|store .*), ptr ' + re.escape(x) + r'(?![\w.$-])', t):
                            if not any(tb in dom[bb] and (tb != bb or ti < i) for tb, ti in tests):
                                findings.append(("%s:%s" % (f.name, m.line_of(t)), "memory from %s (line %s) is accessed before the comparison with NULL" % (callee[1:], m.line_of(ins))))
    return findings, sites


def run(pid, rules, repo, work):
    m, srcs = module(repo, work)
    if len(m.fns) < 100:
        raise RuntimeError("anchor vanished: only %d functions in the IR" % len(m.fns))
    pub = public(repo)
    res = []
    for r in rules:
        if r == "format-origin":
            f, s, w = rule_format(m, pub, SCOPE.get(pid, "."))
            res.append(dict(rule=r, findings=f, instances=s, summary="%d format operands at call sites traced (%d forwarding functions) in %d functions" % (s, w, len(m.fns))))
            anchor = s >= 10
        elif r == "silent-reach":
            f, s, e = rule_silent(m, pub)
            res.append(dict(rule=r, findings=f, instances=e, summary="%d functions reachable from the parser and the text builders, %d call sites inspected" % (s, e)))
            anchor = s >= 50
        else:
            f, s = rule_alloc(m, pub)
            res.append(dict(rule=r, findings=f, instances=s, summary="%d allocation sites in %d functions" % (s, len(m.fns))))
            anchor = s >= 1
        if not anchor:
            raise RuntimeError("anchor vanished: rule %s has %d instances" % (r, s))
    return res


if __name__ == "__main__":
    import sys, tempfile
    with tempfile.TemporaryDirectory() as w:
        for r in run("", ["format-origin", "silent-reach", "alloc-checked"], sys.argv[1] if len(sys.argv) > 1 else "/repo", w):
            print(r["rule"], r["summary"])
            for x in r["findings"]:
                print("   ", x)
