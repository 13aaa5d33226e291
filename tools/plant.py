"""Plants the changes listed in a file (E = [(name, crate, _, path, [(old, new), ...])]) one after another, as mutate.py does.
usage: plant.py EDITS.py WORKERS [NAME...]"""
import sys, os, json, subprocess, multiprocessing as mp
sys.path.insert(0, "/verif/tools"); sys.dont_write_bytecode = True
import mutate as M, importlib.util
spec = importlib.util.spec_from_file_location("ed", sys.argv[1]); ed = importlib.util.module_from_spec(spec); spec.loader.exec_module(ed)
only = set(sys.argv[3:])
MAP = {"hash.rs": "C12", "merkle.rs": "C05,C06", "key.rs": "C07,C08", "mnemonic.rs": "C09", "cipher.rs": "C10", "pbkdf2.rs": "C10", "signature.rs": "C11",
       "trs.rs": "C02,C01,C03", "ars.rs": "C04", "hashmap.rs": "C13,C14,C15", "rocks.rs": "C13,C14", "storage.rs": "C13,C14", "futures_utils": "C18", "protected": "C16,C17", "partial_struct": "C19"}
def group(crate, props, path):
    for k, v in MAP.items():
        if path.endswith("/" + k) or f"/{k}/" in path: return f"{crate}:{v}"
    return f"{crate}:{props}"

jobs, out = mp.Queue(), mp.Queue()
n = 0; names = {}
for name, crate, props, path, pairs in ed.E:
    if only and name not in only: continue
    t = open(path).read(); bad = False
    for a, b in pairs:
        if t.count(a) < 1: print("NO MATCH", name, repr(a)); bad = True; break
        t = t.replace(a, b, 1)
    if bad: continue
    names[t] = name
    jobs.put((group(crate, props, path), path, n, t, name, pairs[0][1], True)); n += 1
W = min(int(sys.argv[2]), n)
for _ in range(W): jobs.put(None)
ps = [mp.Process(target=M.worker, args=(k, jobs, out)) for k in range(W)]
for p in ps: p.start()
for _ in range(n):
    r = out.get()
    print(r.get("old"), "tests=" + str(r.get("tests")), "caught=" + str(r.get("caught")), "odd=" + str(r.get("odd")), r.get("error", ""), flush=True)
for p in ps: p.join()
