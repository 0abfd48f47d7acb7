#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--max N] [--jobs J] [--seed S] [FILE...]: development aid, not part of any check.
Applies small syntactic changes to a scratch copy of /repo, runs the checks of the file against each, and records the changes no
check notices and the repository's tests accept, for a human to judge (equivalent, or a gap in a check)."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = {
 "alloc0.h": ["M03", "M04", "M01", "O01"], "alloc1.h": ["M04", "M03", "M01", "O01"], "array.h": ["C01", "S02"], "async.h": ["T04", "T05", "T06"], "asyncio.h": ["F02"],
 "base.h": ["C01", "T08"], "box.h": ["O01", "M03", "S02"], "files.h": ["F01"], "format.h": ["S02", "S03", "S04"], "format1.h": ["S03", "S02"], "function.h": ["O03"],
 "hash.h": ["C03", "S01"], "heap.h": ["C04", "O01", "S02"], "limits.h": ["N01"], "log.h": ["T08"], "map.h": ["C03", "S02"], "math.h": ["N01"], "net.h": ["F03"],
 "opt.h": ["O02", "S02"], "pair.h": ["O02", "S02"], "pool.h": ["T05", "T06"], "profile.h": ["P01", "M04"], "queue.h": ["C02", "O01", "S02"],
 "range_allocator.h": ["M02"], "rc.h": ["O01", "T03", "S02"], "reflect.h": ["S02"], "rng.h": ["N03"], "slice.h": ["C01", "S02"], "stack.h": ["C01", "S02"],
 "storage.h": ["O02", "O03"], "string0.h": ["S01", "S04", "S03"], "string1.h": ["S01", "S04", "S03"], "thread.h": ["T02", "T01"], "thread0.h": ["T01", "T02"],
 "tuple.h": ["O02", "S02"], "utility.h": ["N01", "C01", "O02", "S02"], "variant.h": ["O02", "S02"], "vec.h": ["C01", "O01", "S02"], "vmath.h": ["N02", "S02"],
 "impl/alloc.cpp": ["M01", "M04", "M03"], "impl/base.cpp": ["M04", "T08"], "impl/log.cpp": ["T08", "S01"], "impl/math.cpp": ["N01", "N02"],
 "impl/profile.cpp": ["P01", "M04"], "impl/simd.cpp": ["N02"], "impl/vmath.cpp": ["N02"], "pos/async_pos.cpp": ["T06"],
 "pos/asyncio_pos.cpp": ["F02"], "pos/files_pos.cpp": ["F01"], "pos/net_pos.cpp": ["F03"], "pos/thread_pos.cpp": ["T02", "T01", "T06", "P01"],
}
SUBS = [(r"(?<![<>=!-])<(?![<=>])", ["<="]), (r"<=(?!>)", ["<"]), (r"(?<![->=])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
 (r"&&(?=\s)", ["||"]), (r"\|\|", ["&&"]), (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s)", ["+"]), (r"(?<=\s)/(?=\s)", ["*"]),
 (r"\+\+", ["--"]), (r"(?<!-)--", ["++"]), (r"\+=", ["-=", "="]), (r"-=", ["+=", "="]), (r"(?<=[\(\s!])!(?=[\w\(])", [""]), (r"\btrue\b", ["false"]),
 (r"\bfalse\b", ["true"]), (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b2\b(?!\.)", ["1", "3"]), (r"\b4\b", ["3"]), (r"\b8\b", ["7"]), (r" \+ 1\b", [""]), (r" - 1\b", [""]),
 (r"\bbreak;", ["continue;"]), (r"<<", [">>"]), (r">>(?!\()", ["<<"]), (r" & ", [" | "]), (r" \| ", [" & "]), (r"nullptr", ["nullptr"]), (r"\bx\b", ["y"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
 (r"\bfirst_\b", ["last_"]), (r"\blast_\b", ["first_"]), (r"\blength_\b", ["capacity_"]), (r"\bcapacity_\b", ["length_"])]
def narrow(path):
    """truncations that only show beyond 255 or 65535"""
    lines, out = open(path).read().split("\n"), []
    for n, l in enumerate(lines):
        code = l.split("//")[0]
        if code.strip().startswith(("#", "static_assert", "template", "assert")): continue
        for w in ("u8", "u16"):
            m = re.match(r"(\s*(?:const )?(?:u64|i64|u32|i32|auto) \w+ = )(.*);$", code)
            if m and not re.match(r"^[0-9]+$|^null$", m.group(2)): out.append((n, "%sstatic_cast<%s>(%s);" % (m.group(1), w, m.group(2)), "narrow " + w))
            m = re.match(r"(\s*return )([^{}]*);$", code)
            if m and re.search(r"[+\-*/%]|length|capacity|size|count|idx|hash|value", m.group(2)): out.append((n, "%sstatic_cast<%s>(%s);" % (m.group(1), w, m.group(2)), "narrow return " + w))
            m = re.match(r"(.*Libc::mem\w+\(.*, )([^,]*)\);$", code)
            if m: out.append((n, "%sstatic_cast<%s>(%s));" % (m.group(1), w, m.group(2)), "narrow length " + w))
            m = re.match(r"(\s*[\w.\->\[\]]+ (?:=|\+=|-=) )([^{}=\"]*);$", code)
            if m and re.search(r"[+\-*/%]|length|capacity|size|count|idx|hash", m.group(2)): out.append((n, "%sstatic_cast<%s>(%s);" % (m.group(1), w, m.group(2)), "narrow assignment " + w))
    return lines, [o for o in out if o[1] != lines[o[0]]]
def mutants(path):
    out = []
    lines = open(path).read().split("\n")
    depth_cmt = False
    for n, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("template") or "static_assert" in s or "concept" in s or s.startswith("using") or s.startswith("assert(") or s.startswith("requires") or "noexcept {" == s: continue
        code = l.split("//")[0]
        for pat, reps in SUBS:
            if pat in (r"(?<![<>=!-])<(?![<=>])", r"(?<![->=])>(?![>=])") and not re.search(r"\s[<>]\s", code): continue
            for m in re.finditer(pat, code):
                if pat.startswith("(?<![") and not (code[m.start()-1:m.start()] == " " and code[m.end():m.end()+1] == " "): continue
                for r in reps:
                    if r == m.group(0): continue
                    out.append((n, code[:m.start()] + r + code[m.end():], "%s -> %s" % (m.group(0), r)))
        if s.endswith(";") and not re.match(r"(return|break|continue|auto|const|using|static|friend|struct|class|template|[\w:<>]+ [\w]+( =.*)?;$|[~\w]+\(.*\) (const )?noexcept|constexpr|\[\[)", s) and s.count("(") == s.count(")") and not s.startswith("}"):
            out.append((n, "", "delete statement"))
        if re.match(r"(Thread::)?Lock \w+[\({]", s): out.append((n, "", "delete lock"))
        m = re.match(r"(\s*)(\} else )?if\((.*)\) (\{|return.*;|.*;)$", l)
        if m: 
            out.append((n, l.replace("if(" + m.group(3) + ")", "if(true)"), "if(true)"))
            out.append((n, l.replace("if(" + m.group(3) + ")", "if(false)"), "if(false)"))
    seen, res = set(), []
    for n, t, d in out:
        if (n, t) in seen or t == lines[n]: continue
        seen.add((n, t)); res.append((n, t, d))
    return lines, res
def shape(path):
    """statements in another order or repeated, one name for a sibling, operands exchanged"""
    lines, out = open(path).read().split("\n"), []
    stmt = re.compile(r"^\s+[^{}#/]*;$")
    decl = re.compile(r"\s*(?:const )?(?:u64|i64|u32|i32|u8|auto|bool|f32|f64|T|[A-Z]\w*&?) (\w+) ?[=;{]")
    for n, l in enumerate(lines):
        code = l.split("//")[0].rstrip()
        if not code.strip() or code.strip().startswith(("#", "static_assert", "template", "assert", "using", "friend", "//")): continue
        nxt = lines[n + 1] if n + 1 < len(lines) else ""
        if stmt.match(code) and stmt.match(nxt) and len(code) - len(code.lstrip()) == len(nxt) - len(nxt.lstrip()) and "return" not in nxt and "(" in code + nxt and not code.strip().startswith("[["):
            out.append((n, (nxt + "\n" + code, 2), "swap statements"))
        if stmt.match(code) and "(" in code and not decl.match(code) and "return" not in code and not re.match(r"\s*(\[\[|explicit|static|friend|\w+\(\w+&)", code): out.append((n, code + " " + code.strip(), "repeat"))
        if "lock(" in code and "Lock" in code and stmt.match(nxt): out.append((n, (nxt + "\n" + code, 2), "lock later"))
        m = re.search(r"(\w+(?:\[\w+\])?) (-|/|<|>|%|<<|>>) (\w+(?:\[\w+\])?)", code)
        if m: out.append((n, code[:m.start()] + "%s %s %s" % (m.group(3), m.group(2), m.group(1)) + code[m.end():], "exchange operands"))
        m = re.search(r"\((\w+), (\w+)([,)])", code)
        if m: out.append((n, code[:m.start()] + "(%s, %s%s" % (m.group(2), m.group(1), m.group(3)) + code[m.end():], "exchange arguments"))
        names = set()
        for k in range(max(0, n - 12), min(len(lines), n + 4)): names |= {x for x in re.findall(r"(?:[>&*\d]|auto|bool|T|[A-Z]\w+) &*([a-z]\w*_?)(?=[,;)=]| =|\{)", lines[k].split("//")[0]) if x not in KW} | {x for x in re.findall(r"\b[a-z]\w*_\b", lines[k])}
        if re.match(r"\s*(namespace|pragma|\[\[|struct|static constexpr)", code) or code.endswith(("noexcept", "noexcept {")): continue
        for w in set(re.findall(r"(?<![\w.>:])[a-z]\w*_?\b(?!\()", code)):
            for v in names:
                if w in names and v != w and (w[-1] == "_") == (v[-1] == "_") and v not in KW and w not in KW: out.append((n, re.sub(r"(?<![\w.>:])%s\b(?!\()" % re.escape(w), v, code, count=1), "%s for %s" % (v, w)))
    names = [o for o in out if " for " in o[2]]
    rest = [o for o in out if " for " not in o[2]]
    random.Random(7).shuffle(names)
    return lines, rest + names[:len(rest) * 2]
KW = set("auto const if else for while return null true false this noexcept u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 bool void constexpr static case switch break continue default new delete operator struct sizeof using typename template requires friend rpp move forward inline explicit do".split())
lock = threading.Lock()
def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, "timeout"
free = []
def tests(d):
    rc, o = sh("ninja -C _build -j4 2>&1 | tail -5", cwd=d, timeout=300)
    ok = not ("FAILED" in o or "error" in o or "ninja: build stopped" in o or rc == 124)
    if ok: ok = sh("ctest --test-dir _build -j4 --timeout 40", cwd=d, timeout=300)[0] == 0
    sh("git checkout -q test; git clean -fdq test", cwd=d)
    return ok
def work(job, outp):
    f, n, text, desc, old = job
    with lock: d = free.pop()
    try:
        p = "%s/rpp/%s" % (d, f)
        orig = open(p).read()
        ls = orig.split("\n")
        if isinstance(text, tuple): ls[n:n + text[1]] = text[0].split("\n"); text = text[0]
        else: ls[n] = text
        open(p, "w").write("\n".join(ls))
        rec = {"file": f, "line": n + 1, "old": old.strip(), "new": text.strip(), "desc": desc}
        try:
            t = time.time()
            rc, o = sh("for f in rpp/impl/unify.cpp rpp/pos/unify.cpp; do clang++-18 -std=c++20 -fno-exceptions -fno-rtti -w -DRPP_RELWITHDEBINFO_BUILD -I. -fsyntax-only $f || exit 1; done", cwd=d)
            if rc: rec["result"] = "nocompile"
            elif not tests(d): rec["result"] = "tests"
            else:
                env = dict(os.environ, RPP_REPO=d, VERIF_TIER="quick", VERIF_SEED="1", MC_OUT=d + "-out")
                rec["result"] = "survived"; codes = []
                for c in F[f]:
                    rc, o = sh("python3 %s/check.py %s" % (V, c), cwd=V, env=env, timeout=600)
                    codes.append((c, rc))
                    if rc == 1 and "VIOLATION" in o:
                        rec["result"] = "killed"; break
                    if rc != 0:
                        rec["tail"] = o[-400:]
                        rec["result"] = "odd"; break
                rec["codes"] = codes
            rec["s"] = round(time.time() - t)
        finally: open(p, "w").write(orig)
        with lock:
            open(outp, "a").write(json.dumps(rec) + "\n")
    finally:
        with lock: free.append(d)
def main():
    a = sys.argv[1:]
    def opt(n, dflt):
        if n in a:
            i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return int(v)
        return dflt
    gen = narrow if "--narrow" in a else shape if "--shape" in a else mutants
    a = [x for x in a if x not in ("--narrow", "--shape")]
    mx, J, seed = opt("--max", 30), opt("--jobs", 3), opt("--seed", 1)
    outp, files = a[0], a[1:] or list(F)
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
    rnd = random.Random(seed)
    jobs = []
    for f in files:
        lines, ms = gen("/repo/rpp/" + f)
        rnd.shuffle(ms)
        jobs += [(f, n, t, d, lines[n]) for n, t, d in ms[:mx] if (f, n + 1, (t[0] if isinstance(t, tuple) else t).strip()) not in done]
    rnd.shuffle(jobs)
    print(len(jobs), "jobs", flush=True)
    for j in range(J):
        d = "/tmp/mut%d" % j
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d + "-out", ignore_errors=True)
        sh("cp -a /repo %s" % d)
        sh("git checkout -q -- . && git clean -fdq && rm -rf _build && cmake -S . -B _build -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 -DCMAKE_BUILD_TYPE=RelWithDebInfo -DRPP_TEST=ON && ninja -C _build", cwd=d)
        free.append(d)
    with cf.ThreadPoolExecutor(J) as ex: list(ex.map(lambda j: work(j, outp), jobs))
    for j in range(J):
        d = "/tmp/mut%d" % j
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d + "-out", ignore_errors=True)
main()
