#!/usr/bin/env python3
"""times.py [mod/piece…]: run the obligations once (all, or those of the given pieces), remember how
long each takes in kani/times.json, and say what each property's quick check then costs.
A development aid: no check reads its output."""
import json, os, sys
sys.path.insert(0, "/verif/tools")
import kani_layer as K, props as P, check
T = "/verif/kani/times.json"
times = json.load(open(T)) if os.path.exists(T) else {}
only = {tuple(a.split("/")) for a in sys.argv[1:] if "/" in a}
if "--sum" not in sys.argv:
    import time
    k = K.Kani("C01", "thorough", "/tmp/w/times", check.env())
    os.makedirs("/tmp/w/times", exist_ok=True)
    k.hs = [h for h in K.harnesses() if not only or (h["mod"], h["piece"]) in only]
    if "--new" in sys.argv:
        k.hs = [h for h in k.hs if h["name"] not in times]
    k.run(time.time() + 6 * 3600)
    for r in k.results:
        times[r["obligation"]] = [r["time_s"], r["status"]]
        if r["status"] != "discharged": print(r)
    for u in k.undecided: print("undecided", u)
    names = {h["name"] for h in K.harnesses()}
    times = {n: v for n, v in times.items() if n in names}
    json.dump(times, open(T, "w"), indent=0, sort_keys=True)
for p in sorted(P.PROPS):
    hs = [h for h in K.harnesses() if p in h["props"]]
    q = [h for h in hs if K.is_quick(h, p)]
    f = lambda x: sum(times.get(h["name"], [0])[0] for h in x)
    print(p, "quick", len(q), round(f(q)), "cpu s, max", max([times.get(h["name"], [0])[0] for h in q] or [0]), "| all", len(hs), round(f(hs)))
