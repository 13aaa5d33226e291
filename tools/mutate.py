"""Plants one small change after another in copies of /repo and reports which ones pass the repository's
tests and yet no check notices.  usage: mutate.py OUT.jsonl WORKERS CRATE:PROP[,PROP] FILE...
(several groups separated by --).  Every worker lives in a mount namespace of its own."""
import json, os, re, subprocess, sys, multiprocessing as mp, shutil

SWAPS = [(r"(?<![<>=!\-+*/|&])<(?![<=>])(?= )", "<="), (r"<=", "<"), (r"(?<![<>=!\-])(?<= )>(?![>=])", ">="), (r">=", ">"),
         (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|(?= )", "&&"), (r" \+ ", " - "), (r" - ", " + "),
         (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r"\+=", "-="), (r"-=", "+="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"\.rev\(\)", ""), (r"\bbreak\b", "continue"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.first\(", ".last("), (r"\.last\(", ".first("),
         (r"push_back", "push_front"), (r"pop_front", "pop_back"), (r"front\(\)", "back()"), (r"back\(\)", "front()"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
         (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"saturating_", "wrapping_"), (r"checked_add\(([^)]*)\)", r"checked_sub(\1)"),
         (r"\.is_empty\(\)", ".is_empty() == false"), (r"Greater", "Less"), (r"Less", "Greater"), (r"\.insert\(", ".remove(&"), (r"\.\.=", ".."), (r"(?<!\.)\.\.(?![.=])", "..="),
         (r"\.len\(\)", ".len() + 1"), (r"\.len\(\)", ".len().saturating_sub(1)"), (r"\.skip\(\d+\)", ""), (r"\.filter\([^()]*(\([^()]*\)[^()]*)*\)", ""), (r"\?;", ".ok();"), (r">>", "<<"), (r"<<", ">>"), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " & ")]

def mutants(path):
    text = open(path).read().split("\n")
    end = next((i for i, l in enumerate(text) if re.match(r"\s*#\[cfg\(test\)\]", l)), len(text))
    out = []
    for i, l in enumerate(text[:end]):
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("extern ") or s.startswith("assert"):
            continue
        code = l.split(" // ")[0]
        new = []
        for pat, rep in SWAPS:
            for m in re.finditer(pat, code):
                new.append(code[:m.start()] + m.expand(rep) + code[m.end():])
        for m in re.finditer(r"(?<![\w.\"'])(\d+)(?=[^\w.\"']|u\d+|usize|$)", code):
            n = int(m.group(1))
            for k in (n + 1, n - 1):
                if k >= 0:
                    new.append(code[:m.start()] + str(k) + code[m.end(1):])
        m = re.match(r"(\s*(?:\} else )?if )((?!let )[^{}]+)( \{)$", code)
        if m:
            new += [m.group(1) + "!(" + m.group(2) + ")" + m.group(3), m.group(1) + "false && " + m.group(2) + m.group(3), m.group(1) + "true || " + m.group(2) + m.group(3)]
        if re.match(r"\s*[\w.*&()\[\]:<>]+(\.|::|\s[+\-*/^|&]?=\s|!?\().*;$", code) and not s.startswith(("let ", "return", "pub ", "type ", "const ", "static ", "mod ")):
            new.append(re.match(r"\s*", code).group(0) + "();")
        if s.startswith("return ") and s.endswith(";"):
            new.append("// gone")
        # swap two adjacent statements of one line each
        if i + 1 < end and s.endswith(";") and text[i + 1].strip().endswith(";") and not s.startswith(("use", "pub", "mod", "type", "const")):
            a = re.match(r"\s*", l).group(0); b = re.match(r"\s*", text[i + 1]).group(0)
            if a == b:
                out.append((i, l, [text[i + 1], l], 2))
        for n in dict.fromkeys(new):
            if n != code:
                out.append((i, l, [n], 1))
    return [(i, "\n".join(text[:i] + n + text[i + k:]), l.strip(), " / ".join(x.strip() for x in n)) for i, l, n, k in out]

def sh(cmd, t):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return -9, ""

def work(job):
    group, path, i, text, old, new, tests = job
    props = group.split(":")[1].split(",")
    crate = group.split(":")[0]
    keep = open(path).read()
    r = {"file": path, "line": i + 1, "old": old, "new": new}
    try:
        open(path, "w").write(text)
        if tests:
            rc, o = sh(["bash", "/opt/vp/test.sh", "/tmp/out.json"], 200)
            try:
                d = json.load(open("/tmp/out.json"))
            except Exception:
                d = {"passed": [], "failed": ["?"]}
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            if not base <= set(d["passed"]):
                r["tests"] = "fail"
                return r
        r["tests"] = "pass"
        r["caught"] = []
        r["odd"] = []
        for p in props:
            rc, o = sh(["/verif/run.sh", crate, p], 300)
            if rc == 1 and f"VIOLATION property={p}" in o:
                r["caught"].append(p)
                break
            if rc != 0:
                r["odd"].append((p, rc, o[-400:]))
                if rc == 2:
                    break
        return r
    finally:
        open(path, "w").write(keep)

def worker(n, jobs, out):
    # a private copy of /repo, /verif and the build folder
    d = f"/tmp/mut/{n}"
    os.makedirs(d, exist_ok=True)
    for src, name in (("/repo", "repo"), ("/verif", "verif"), ("/opt/vp", "vp")):
        subprocess.run(["rsync", "-a", "--delete", src + "/", f"{d}/{name}/"], check=False) if shutil.which("rsync") else subprocess.run(f"rm -rf {d}/{name}; cp -a {src} {d}/{name}", shell=True, check=True)
    os.makedirs(f"{d}/tmp", exist_ok=True)
    uid = os.getuid()
    os.unshare(os.CLONE_NEWNS | os.CLONE_NEWUSER)
    open("/proc/self/setgroups", "w").write("deny")
    open("/proc/self/uid_map", "w").write(f"0 {uid} 1")
    open("/proc/self/gid_map", "w").write("0 0 1")
    for name, to in (("repo", "/repo"), ("verif", "/verif"), ("vp", "/opt/vp"), ("tmp", "/tmp")):
        subprocess.run(["mount", "--bind", f"{d}/{name}", to], check=True)
    while True:
        j = jobs.get()
        if j is None:
            return
        try:
            out.put(work(j))
        except Exception as e:
            out.put({"file": j[1], "line": j[2] + 1, "error": repr(e)})

def main():
    outf, n = sys.argv[1], int(sys.argv[2])
    groups, cur = [], []
    for a in sys.argv[3:] + ["--"]:
        if a == "--":
            if cur: groups.append(cur)
            cur = []
        else:
            cur.append(a)
    jobs, out = mp.Queue(), mp.Queue()
    total = 0
    for g in groups:
        tests = not g[0].startswith("nt:")
        gg = g[0].removeprefix("nt:")
        for f in g[1:]:
            for (i, text, old, new) in mutants(f):
                jobs.put((gg, f, i, text, old, new, tests)); total += 1
    print(total, "mutants", flush=True)
    for _ in range(n): jobs.put(None)
    ps = [mp.Process(target=worker, args=(k, jobs, out)) for k in range(n)]
    for p in ps: p.start()
    with open(outf, "w") as f:
        for k in range(total):
            r = out.get()
            f.write(json.dumps(r) + "\n"); f.flush()
            if r.get("tests") == "pass" and not r.get("caught") and not any(x[1] == 2 for x in r.get("odd", [])):
                print("SURVIVED", r["file"], r["line"], "|", r["old"], "=>", r["new"], r["odd"], flush=True)
    for p in ps: p.join()
if __name__ == "__main__":
    main()
