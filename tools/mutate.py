#!/usr/bin/env python3
"""Adequacy measure for the simulator: small mechanical changes to the headers, one at a time, each run
through the simulation of the containers it can reach.  Not a check; prints what survives.

usage: mutate.py OUT.jsonl [--headers a.hpp,b.hpp] [--sample N] [--runs N] [--jobs N] [--seed S]
"""
import argparse, concurrent.futures, json, os, random, re, shutil, subprocess, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(HERE, "sim")
REPO = os.environ.get("FC_REPO", "/repo")
INC = os.path.join(REPO, "include", "fixed_containers")

OM, UM = ["omap", "omap2", "omap3", "oset", "huge"], ["umap", "uset", "hashkeys"]
REACH = {
    "fixed_vector.hpp": ["vec"], "fixed_stack.hpp": ["stack"], "stack_adapter.hpp": ["stack"],
    "fixed_deque.hpp": ["deq"], "fixed_queue.hpp": ["queue"], "queue_adapter.hpp": ["queue", "cqueue"],
    "fixed_circular_deque.hpp": ["circ"], "fixed_circular_queue.hpp": ["cqueue"],
    "circular_indexing.hpp": ["deq"], "circular_integer_range_iterator.hpp": ["deq"],
    "int_math.hpp": ["deq", "vec"], "integer_range.hpp": ["deq"],
    "fixed_list.hpp": ["list"], "fixed_doubly_linked_list.hpp": ["list", "umap"],
    "fixed_index_based_storage.hpp": ["list", "omap2"], "index_or_value_storage.hpp": ["list", "omap"],
    "fixed_string.hpp": ["str"],
    "fixed_map.hpp": OM, "fixed_set.hpp": OM, "fixed_red_black_tree.hpp": OM, "fixed_red_black_tree_ops.hpp": OM,
    "fixed_red_black_tree_nodes.hpp": OM, "fixed_red_black_tree_storage.hpp": OM,
    "fixed_red_black_tree_types.hpp": OM, "fixed_red_black_tree_view.hpp": OM, "fixed_map_raw_view.hpp": OM,
    "fixed_map_adapter.hpp": ["umap"], "fixed_set_adapter.hpp": ["uset"], "fixed_robinhood_hashtable.hpp": UM,
    "fixed_unordered_map.hpp": ["umap"], "fixed_unordered_set.hpp": ["uset"],
    "fixed_unordered_map_raw_view.hpp": ["umap"], "fixed_unordered_set_raw_view.hpp": ["uset"],
    "map_entry_raw_view.hpp": ["umap"], "fixed_doubly_linked_list_raw_view.hpp": ["list", "umap"],
    "fixed_deque_raw_view.hpp": ["deq"], "wyhash.hpp": UM,
    "enum_map.hpp": ["enums"], "enum_set.hpp": ["enums"], "enum_array.hpp": ["enums"],
    "filtered_integer_range_iterator.hpp": ["enums"],
    "bidirectional_iterator.hpp": ["list", "omap", "enums"], "forward_iterator.hpp": ["umap", "deq"],
    "random_access_iterator.hpp": ["vec", "deq"], "random_access_iterator_transformer.hpp": ["deq"],
    "integer_range_iterator.hpp": ["enums", "deq"],
    "pair_view.hpp": ["omap", "umap", "enums"], "map_entry.hpp": ["umap"], "pair.hpp": ["omap", "umap"],
    "optional_storage.hpp": ["vec", "deq", "enums"], "reference_storage.hpp": ["enums"],
    "value_or_reference_storage.hpp": ["umap"], "arrow_proxy.hpp": ["enums"],
    "memory.hpp": ["vec", "deq"], "algorithm.hpp": ["vec", "deq"], "iterator_utils.hpp": ["vec", "deq", "omap", "str"],
    "emplace.hpp": ["umap", "omap"], "erase_if.hpp": ["list", "omap"], "sequence_container_checking.hpp": ["vec"],
    "optional_reference.hpp": ["optref"], "struct_view.hpp": ["sview"], "reflection.hpp": ["sview"], "type_name.hpp": ["sview"],
    "map_checking.hpp": ["omap3"], "set_checking.hpp": ["oset"],
}

RULES = [
    (r"(?<![<>=!-])<=(?![>=])", ["<"]), (r"(?<![<>=!-])>=(?!=)", [">"]),
    (r" < ", [" <= "]), (r" > ", [" >= "]),
    (r"(?<![<>=!])==(?!=)", ["!="]), (r"!=(?!=)", ["=="]),
    (r"(?<=[\w)\]] )&&(?= [\w!(])", ["||"]), (r"\|\|", ["&&"]),
    (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", [""]), (r" \+ (?!1\b)", [" - "]), (r" - (?!1\b)", [" + "]),
    (r"\+\+(?=\w)", ["--"]), (r"--(?=\w)", ["++"]), (r"(?<=\w)\+\+", ["--"]),
    (r"\+=", ["-="]), (r"-=", ["+="]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bstd::move\((\w+)\)", [r"\1"]), (r"\bstd::forward<\w+>\((\w+)\)(?!\.)", [r"\1"]),
    (r"(?<=\()!(?=[\w(])", [""]),
    (r"\b0\b", ["1"]), (r"% ", ["/ "]),
]
SKIP = re.compile(r"^\s*(//|\*|/\*|#|template|requires|using|friend|typedef|static_assert|namespace|concept|"
                  r"class|struct|public:|private:|explicit\(|return;|\[\[)|operator[<>=!&|+\-]|noexcept\(|<=>|static constexpr auto|= default|= delete|->")
DECL = re.compile(r"^\s*(const |constexpr |static |auto |using |typename |return\b|case |default:|break|continue|throw|"
                  r"[\w:<>, ]+ \w+\s*(=|\{|;)|\[\[)")


def mutants(header):
    lines = open(os.path.join(INC, header)).read().split("\n")
    depth_req = 0
    for i, line in enumerate(lines):
        if SKIP.search(line) or not line.strip():
            continue
        code = line.split("//")[0]
        for rx, subs in RULES:
            for m in re.finditer(rx, code):
                if code[max(0, m.start() - 1):m.start()] == '"':
                    continue
                for s in subs:
                    new = code[:m.start()] + m.expand(s) + code[m.end():]
                    yield header, i, new, lines
        st = code.strip()
        if st.endswith(";") and not DECL.match(code) and st.count("(") == st.count(")") and len(st) > 3 and \
                not st.startswith(("}", ":", ",", ".", "+", "-", "&", "|", "?", "(", '"')) or \
                re.match(r"^\s*(\+\+|--)\w+.*;$", code):
            prev = next((l.strip() for l in reversed(lines[:i]) if l.strip()), "")
            if prev.endswith((";", "{", "}", ")")) or prev.startswith("//"):
                yield header, i, re.match(r"\s*", code).group(0) + ";", lines


def run(args):
    n, (header, i, new, lines), runs, scratch, core = args
    d = tempfile.mkdtemp(dir=scratch)
    try:
        inc = os.path.join(d, "include", "fixed_containers")
        os.makedirs(inc)
        for f in os.listdir(INC):
            if f != header:
                os.symlink(os.path.join(INC, f), os.path.join(inc, f))
        # relative includes do not occur: every header is found through the include path
        ls = list(lines)
        ls[i] = new
        open(os.path.join(inc, header), "w").write("\n".join(ls))
        rec = dict(n=n, header=header, line=i + 1, old=lines[i].strip(), new=new.strip())
        for tu in REACH[header]:
            o = os.path.join(d, tu + ".o")
            try:
                r = subprocess.run(["clang++-18", "-std=c++20", "-O0", "-w", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bounds,bool,enum,return,unreachable", "-fsanitize-trap=all",
                                    "-I" + os.path.join(d, "include"), "-I" + SIM, "-c",
                                    os.path.join(SIM, "tu", tu + ".cpp"), "-o", o],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            except subprocess.TimeoutExpired:
                rec["result"] = "compile"
                return rec
            if r.returncode:
                rec["result"] = "compile"
                return rec
            exe = os.path.join(d, "fcsim")
            subprocess.run(["clang++-18", core, o, "-o", exe, "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-ldl", "-lpthread"], check=True)
            try:
                r = subprocess.run([exe, "run", "--prop", "C01", "--seed", "1", "--runs", str(runs), "--workers", "1",
                                    "--out", os.path.join(d, "o.json"), "--replay-dir", d],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
                out = json.load(open(os.path.join(d, "o.json")))
                if out["violation"]:
                    rec.update(result="killed", tu=tu, cls=out["class"], run=out["viol_run"], msg=out["message"][:120])
                    return rec
            except subprocess.TimeoutExpired:
                rec.update(result="killed", tu=tu, cls="timeout")
                return rec
            except Exception as e:  # noqa
                rec.update(result="error", tu=tu, msg=repr(e)[:200] + r.stdout[-300:])
                return rec
        rec["result"] = "survived"
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--headers", default="")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--runs", type=int, default=12000)
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--again", default="", help="only the mutants that survived in this earlier OUT.jsonl")
    a = ap.parse_args()
    hs = [h for h in a.headers.split(",") if h] or sorted(REACH)
    ms = []
    again = None
    if a.again:
        rs = [json.loads(x) for x in open(a.again)]
        again = {(r["header"], r["old"], r["new"]) for r in rs if r["result"] in ("survived", "error")}
    for h in hs:
        l = list(mutants(h))
        if again is not None:
            l = [m for m in l if (h, m[3][m[1]].strip(), m[2].strip()) in again]
        if a.sample and len(l) > a.sample:
            random.Random(a.seed).shuffle(l)
            l = l[:a.sample]
        ms += l
    print(len(ms), "mutants")
    scratch = tempfile.mkdtemp(prefix="fcmut")
    core = os.path.join(scratch, "core.o")
    subprocess.run(["clang++-18", "-std=c++20", "-O1", "-w", "-c", os.path.join(SIM, "core.cpp"), "-o", core], check=True)
    tot = {}
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "w") as fh:
        for rec in ex.map(run, [(n, m, a.runs, scratch, core) for n, m in enumerate(ms)]):
            tot[rec["result"]] = tot.get(rec["result"], 0) + 1
            fh.write(json.dumps(rec) + "\n")
            fh.flush()
            if rec["result"] in ("survived", "error"):
                print("%s %s:%d\n  - %s\n  + %s %s" % (rec["result"], rec["header"], rec["line"], rec["old"], rec["new"],
                                                     rec.get("msg", "")), flush=True)
    print(tot)
    shutil.rmtree(scratch, ignore_errors=True)


main()
