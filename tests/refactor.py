#!/usr/bin/env python3
"""Development tool: applies behaviour-preserving source edits in scratch copies; a 'diff' verdict on one is a false alarm.
refactor.py --n 200 --seed 1 --out OUT.jsonl [--files sub,sub] [--op name]"""
import sys, os, re, json, random, argparse, threading, queue
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate
from mutate import code_lines, nostr, BASE
ID = r"[A-Za-z_][\w.>\-]*(?:\(\w*\))?(?:\[\w+\])?"
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
def match(lines, i, col):
    """position after the brace/paren opened at (i, col)"""
    o = lines[i][col]; c = {"{": "}", "(": ")"}[o]; d = 0
    for k in range(i, len(lines)):
        m = nostr(lines[k])
        for j in range(col if k == i else 0, len(m)):
            if m[j] == o: d += 1
            elif m[j] == c:
                d -= 1
                if d == 0: return k, j
    return None
def edits(path):
    """(name, line, new text of the file)"""
    text = open(path).read(); L = text.split("\n"); out = []
    def put(name, i, new, j=None):
        n = L[:i] + (new if isinstance(new, list) else [new]) + L[(j if j is not None else i) + 1:]
        out.append((name, i, "\n".join(n)))
    cl = code_lines(path); idx = {i for i, _ in cl}
    for i, l in cl:
        m = nostr(l); s = m.strip(); ind = l[:len(l) - len(l.lstrip())]
        for x in re.finditer(r"(?<![\w.\])>])(%s) (<|>|<=|>=|==|!=) (%s|\d+)(?=[;)]|$| and| or| &&| \|\|| \?)" % (ID, ID), m):
            if "for (" in m and ":" in m and ";" not in m: continue
            if "template" in m or "std::" in m[:x.start()][-20:]: continue
            put("flip", i, l[:x.start()] + l[x.start(3):x.end(3)] + " " + FLIP[x.group(2)] + " " + l[x.start(1):x.end(1)] + l[x.end():])
        x = re.match(r"^\s*(\w[\w.]*) (\+|-|\*)= ([^;]+);$", m)
        if x and not x.group(1).endswith("_"): put("expand", i, "%s%s = %s %s (%s);" % (ind, x.group(1), x.group(1), x.group(2), l[x.start(3):x.end(3)]))
        x = re.search(r"; (\w+)\+\+\)", m)
        if x and "for (" in m: put("preinc", i, l[:x.start()] + "; ++" + x.group(1) + ")" + l[x.end():])
        x = re.search(r"; \+\+(\w+)\)", m)
        if x and "for (" in m: put("postinc", i, l[:x.start()] + "; " + x.group(1) + "++)" + l[x.end():])
        if s.startswith("if (") and s.endswith("{"):
            p = m.index("("); e = match(L, i, p)
            if e and e[0] == i and m[e[1] + 1:].strip() == "{":
                cond = l[p + 1:e[1]]
                b = match(L, i, m.rindex("{"))
                if b and "\n".join(L[i:b[0] + 1]).count("PRINT(") == 0:
                    k = b[0]; after = nostr(L[k])[b[1]:].strip()
                    if after == "} else {":
                        b2 = match(L, k, nostr(L[k]).rindex("{"))
                        if b2 and nostr(L[b2[0]]).strip() == "}" :
                            put("swapelse", i, [ind + "if (!(%s)) {" % cond] + L[k + 1:b2[0]] + [ind + "} else {"] + L[i + 1:k] + [ind + "}"], b2[0])
                    if after == "}":
                        prev = nostr(L[i - 1]).strip()
                        if not prev.startswith("else") and ";" not in cond and " = " not in cond:
                            put("condvar", i, [ind + "const bool cond_v_ = " + cond + ";", ind + "if (cond_v_) {"] + L[i + 1:k + 1], k)
                            x = re.match(r"^(.+) (?:and|&&) (.+)$", cond)
                            if x and " or " not in cond and "||" not in cond and x.group(1).count("(") == x.group(1).count(")"):
                                put("nest", i, [ind + "if (" + x.group(1) + ") {", ind + "if (" + x.group(2) + ") {"] + L[i + 1:k] + [ind + "}", ind + "}"], k)
                            put("elsecont", i, [ind + "if (!(%s)) {" % cond, ind + "} else {"] + L[i + 1:k + 1], k)
        x = re.match(r"^\s*for \(((?:const )?auto &(\w+)|(?:const )?auto (\w+)|int (\w+)) ?: (\w[\w.()]*)\) \{$", m)
        if x:
            b = match(L, i, m.rindex("{"))
            if b:
                put("indexloop", i, [ind + "for (size_t q_ = 0; q_ < %s.size(); ++q_) {" % x.group(5), ind + "  %s = %s[q_];" % (x.group(1), x.group(5))] + L[i + 1:b[0] + 1], b[0])
                put("iterloop", i, [ind + "for (auto it_ = %s.begin(); it_ != %s.end(); ++it_) {" % (x.group(5), x.group(5)), ind + "  %s = *it_;" % x.group(1)] + L[i + 1:b[0] + 1], b[0])
        x = re.match(r"^\s*for \(([^;]+;) ([^;]+); ([^;)]+)\) \{$", m)
        if x:
            b = match(L, i, m.rindex("{"))
            if b and not any("continue" in q for q in L[i:b[0]]):
                put("whileloop", i, [ind + "{ " + l[x.start(1):x.end(1)], ind + "while (" + l[x.start(2):x.end(2)] + ") {"] + L[i + 1:b[0]] + [ind + "  " + l[x.start(3):x.end(3)] + ";", ind + "} }"], b[0])
        x = re.match(r"^\s*return ([^;]+);$", m)
        if x and "*this" not in m and not x.group(1).endswith("_") and "{" not in m: put("rettemp", i, [ind + "{ auto ret_v_ = " + l[x.start(1):x.end(1)] + ";", ind + "return ret_v_; }"])
        x = re.match(r"^\s*return ([^;?]+) \? ([^;:]+) : ([^;:]+);$", m)
        if x: put("ternary", i, [ind + "if (" + l[x.start(1):x.end(1)] + ") {", ind + "  return " + l[x.start(2):x.end(2)] + ";", ind + "}", ind + "return " + l[x.start(3):x.end(3)] + ";"])
        x = re.match(r"^\s*return ([^;]+);$", m)
        if x and re.search(r" (==|<|!=|and|or) ", m) and "{" not in m and "?" not in m: put("retif", i, [ind + "if (" + l[x.start(1):x.end(1)] + ") {", ind + "  return true;", ind + "}", ind + "return false;"])
        if s.endswith(";") and not s.startswith(("}", "case", "else")) and i - 1 in idx and nostr(L[i - 1]).strip().endswith((";", "{")) and not nostr(L[i - 1]).strip().startswith(("switch", "class", "struct", "enum")) and not s.startswith(("virtual", "friend")):
            put("noop", i, [ind + "{ int unused_v_ = 0; (void)unused_v_; }", l])
        if ".push_back(" in m and "std::make_pair" not in m and "{" not in m: put("emplace", i, l.replace(".push_back(", ".emplace_back("))
        x = re.search(r"([\w.]+)\.size\(\) == 0", m)
        if x: put("empty", i, l[:x.start()] + x.group(1) + ".empty()" + l[x.end():])
        x = re.search(r"([\w.]+)\.size\(\) > 0", m)
        if x: put("empty", i, l[:x.start()] + "!" + x.group(1) + ".empty()" + l[x.end():])
        x = re.search(r"(!?)\b([\w.]+)\.empty\(\)", m)
        if x: put("size0", i, l[:x.start()] + "(" + x.group(2) + ".size() " + ("!=" if x.group(1) else "==") + " 0)" + l[x.end():])
        x = re.search(r"\b(\w+)\.count\((\w+)\)( == 0| != 0| > 0)?", m)
        if x: put("contains", i, l[:x.start()] + ("(" if not x.group(3) or "==" not in x.group(3) else "!") + x.group(1) + ".contains(" + x.group(2) + ")" + (")" if not x.group(3) or "==" not in x.group(3) else "") + l[x.end():])
        x = re.search(r"\b(\w+)\[(\w+)\](?! =)", m)
        if x: put("at", i, l[:x.start()] + x.group(1) + ".at(" + x.group(2) + ")" + l[x.end():])
        x = re.match(r"^\s*(\w+) \+= 1;$", m)
        if x: put("inc", i, ind + x.group(1) + "++;")
        x = re.match(r"^\s*(const auto &|auto |int |bool |const int |scalar_t )(\w+) = ([^;()]+);$", m)
        if x and i + 1 in idx:
            y = re.match(r"^\s*(const auto &|auto |int |bool |const int |scalar_t )(\w+) = ([^;()]+);$", nostr(L[i + 1]))
            if y and not re.search(r"\b%s\b" % x.group(2), y.group(3)) and not re.search(r"\b%s\b" % y.group(2), x.group(3)): put("reorder", i, [L[i + 1], l], i + 1)
        # local names
        x = re.match(r"^\s*(?:const )?(?:auto|int|std::\w+(?:<[\w:<>, ]*>)?|bool|Expression|SymbolicTerm|scalar_t) &?(\w+)( =|;|\()", m)
        if x and i > 0:
            # up to the end of the enclosing block
            d = 0; end = None
            for k in range(i, len(L)):
                mm = nostr(L[k])
                d += mm.count("{") - mm.count("}")
                if d < 0: end = k; break
            if end and len(ind) >= 2:
                nm = x.group(1)
                seg = [re.sub(r"(?<![.>\w])%s\b(?!\s*:)" % nm, nm + "_rn", q) if '"' not in q else q for q in L[i:end + 1]]
                if not any(nm in q and '"' in q for q in L[i:end + 1]): put("rename", i, seg, end)
        x = re.match(r"^(\s*)(\w[\w.]*) = (.+) \? (.+) : (.+);$", l)
        if x and ":" not in x.group(4): put("condassign", i, [x.group(1) + "if (" + x.group(3) + ") {", x.group(1) + "  " + x.group(2) + " = " + x.group(4) + ";", x.group(1) + "} else {", x.group(1) + "  " + x.group(2) + " = " + x.group(5) + ";", x.group(1) + "}"])
    return out
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("--n", type=int, default=100); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--out", default="/tmp/ref.jsonl"); ap.add_argument("--files"); ap.add_argument("--op"); ap.add_argument("--workers", type=int, default=7)
    a = ap.parse_args()
    ms = []
    for f in mutate.files(a.files.split(",") if a.files else None):
        ms += [(os.path.relpath(f, BASE),) + e for e in edits(f) if not a.op or e[0] in a.op.split(",")]
    random.Random(a.seed).shuffle(ms); ms = ms[:a.n]
    q = queue.Queue(); [q.put(m) for m in ms]
    lock = threading.Lock(); out = open(a.out, "w"); stat = {}
    def work(w):
        while True:
            try: rel, op, i, text = q.get_nowait()
            except queue.Empty: return
            r = mutate.evaluate(w, {rel: text})
            if "error" in r: v = "nocompile" if "error" in r["error"] or "cannot parse" in r["error"] else "error:" + r["error"][-200:]
            elif not r["changed"]: v = "nochange"
            else:
                vs = {x["v"] for x in r["res"]}
                v = "CRASH" if "CRASH" in vs else "diff" if "diff" in vs else "unk" if "unk" in vs else "quiet"
            with lock:
                stat[v.split(":")[0]] = stat.get(v.split(":")[0], 0) + 1
                old = open(os.path.join(BASE, rel)).read().split("\n")[i].strip()
                new = [x.strip() for x in text.split("\n")[i:i + 2]]
                out.write(json.dumps({"v": v, "op": op, "file": rel, "line": i + 1, "old": old, "new": new, "res": [(x["v"], x["name"], x["comp"], x["path"][:200], x.get("code", "")[:150], x.get("ref", "")[:150]) for x in r.get("res", [])][:6], "changed": (r.get("changed") or [])[:4]}) + "\n"); out.flush()
    ts = [threading.Thread(target=work, args=(w,)) for w in range(a.workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(len(ms), stat)
if __name__ == "__main__": main()
