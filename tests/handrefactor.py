#!/usr/bin/env python3
"""Development tool: applies the hand-written behaviour-preserving edits of refactors.py in scratch copies; a 'diff' verdict is a false alarm.
handrefactor.py [--out F] [names...]"""
import sys, os, re, json, argparse, threading, queue
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate, refactors
from mutate import BASE
def pattern(old):
    ls = old.split("\n"); tail = "" if ls[-1] else "\n"
    if not ls[-1]: ls = ls[:-1]
    c = r"[ \t]*(?://[^\n]*)?"
    return r"\n(?:[ \t]*(?://[^\n]*)?\n)*".join(re.escape(l.rstrip()) + (c if k + 1 < len(ls) or tail else "") for k, l in enumerate(ls)) + tail
def apply(text, edits):
    for old, new in edits:
        m = [(text.find(old), text.find(old) + len(old))] if text.count(old) == 1 else [x.span() for x in re.finditer(pattern(old), text)]
        if len(m) != 1: return None, "%d matches of %r" % (len(m), old[:60])
        text = text[:m[0][0]] + new + text[m[0][1]:]
    return text, None
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("--out", default="/tmp/href.jsonl"); ap.add_argument("--workers", type=int, default=7); ap.add_argument("--dry", action="store_true"); ap.add_argument("names", nargs="*")
    a = ap.parse_args()
    q = queue.Queue(); n = 0
    for name, f, ed in refactors.R:
        if a.names and not any(x in name for x in a.names): continue
        n += 1
        rel = "wicked/" + f; t, e = apply(open(os.path.join(BASE, rel)).read(), ed)
        if e: print("NOMATCH", name, e); continue
        q.put((name, rel, t))
    if a.dry: print(q.qsize(), "of", n); return
    lock = threading.Lock(); out = open(a.out, "w"); stat = {}
    def work(w):
        while True:
            try: name, rel, text = q.get_nowait()
            except queue.Empty: return
            r = mutate.evaluate(w, {rel: text})
            if "error" in r: v = "nocompile" if "error" in r["error"] or "cannot parse" in r["error"] else "error:" + r["error"][-200:]
            elif not r["changed"]: v = "nochange"
            else:
                vs = {x["v"] for x in r["res"]}
                v = "CRASH" if "CRASH" in vs else "diff" if "diff" in vs else "unk" if "unk" in vs else "quiet"
            with lock:
                stat[v.split(":")[0]] = stat.get(v.split(":")[0], 0) + 1
                if v != "quiet":
                    print(v, name, r.get("error", "")[-300:] if "error" in r else sorted({x["name"] for x in r.get("res", []) if x["v"] != "eq"})[:5], flush=True)
                out.write(json.dumps({"v": v, "name": name, "file": rel, "res": [(x["v"], x["name"], x["comp"], x["path"][:200], x.get("code", "")[:150], x.get("ref", "")[:150]) for x in r.get("res", [])][:6], "changed": (r.get("changed") or [])[:4]}) + "\n"); out.flush()
    ts = [threading.Thread(target=work, args=(w,)) for w in range(a.workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(n, stat)
if __name__ == "__main__": main()
