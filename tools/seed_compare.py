#!/usr/bin/env python3
"""compare.py RESULTS_DIR NAME EXPECTED.json.gz [--write]: canonical content of EnSight results (stand-alone, standard library only)."""
import sys, os, re, json, struct, gzip
NN = {"point": 1, "bar2": 2, "bar3": 3, "tria3": 3, "tria6": 6, "quad4": 4, "quad8": 8, "tetra4": 4, "tetra10": 10, "pyramid5": 5, "pyramid13": 13, "penta6": 6, "penta15": 15, "hexa8": 8, "hexa20": 20}


def load(d, name):
    case = open(os.path.join(d, name + ".case")).read()
    g = open(os.path.join(d, re.search(r"model:\s*(\S+)", case).group(1)), "rb").read()
    pos = [240]
    def s80():
        v = g[pos[0]:pos[0] + 80].split(b"\0")[0].decode("latin-1").strip(); pos[0] += 80; return v
    def arr(f, n):
        v = struct.unpack_from("<%d%s" % (n, f), g, pos[0]); pos[0] += 4 * n; return v
    nid, eid = s80(), s80()
    parts = []
    while pos[0] < len(g):
        k = s80()
        if k == "part":
            arr("i", 1); p = {"name": s80(), "el": []}; parts.append(p); s80(); n = arr("i", 1)[0]
            if nid.endswith("given"): arr("i", n)
            x, y, z = arr("f", n), arr("f", n), arr("f", n)
            p["xyz"] = list(zip(x, y, z))
        else:
            n = arr("i", 1)[0]; c = arr("i", n * NN[k])
            p["el"] += [(k, tuple(p["xyz"][j - 1] for j in c[i * NN[k]:(i + 1) * NN[k]])) for i in range(n)]
    out = {"geo": {}, "var": {}}
    for p in parts:
        out["geo"][p["name"]] = {"nodes": sorted(set("%.5g %.5g %.5g" % x for x in p["xyz"])),
                                 "elements": sorted(k + ":" + ";".join("%.5g %.5g %.5g" % x for x in c) for k, c in p["el"])}
    for rank, where, v, f in re.findall(r"^(scalar|vector|tensor symm) per (node|element):\s+(?:1\s+)?(\S+)\s+(\S+)\s*$", case, re.M):
        nc = {"scalar": 1, "vector": 3, "tensor symm": 6}[rank]
        pat = re.compile(re.sub(r"\*+", r"\\d+", f.replace(".", r"\.")) + "$")
        for ff in sorted(os.listdir(d if os.path.dirname(f) == "" else os.path.join(d, os.path.dirname(f)))):
            rel = os.path.join(os.path.dirname(f), ff)
            if not pat.match(rel): continue
            b = open(os.path.join(d, rel), "rb").read(); q = 80; res = {}
            while q < len(b):
                k = b[q:q + 80].split(b"\0")[0].decode("latin-1").strip(); q += 80
                if k == "part":
                    p = parts[struct.unpack_from("<i", b, q)[0] - 1]; q += 4; continue
                keys = ["%.5g %.5g %.5g" % x for x in p["xyz"]] if k == "coordinates" else [t + ":" + ";".join("%.5g %.5g %.5g" % x for x in c) for t, c in p["el"] if t == k]
                n = len(keys); a = struct.unpack_from("<%df" % (n * nc), b, q); q += 4 * n * nc
                for i, key in enumerate(keys):
                    res[p["name"] + "|" + key] = [a[c * n + i] for c in range(nc)]
            out["var"][v + "|" + ff[-4:]] = res
    return out


def main():
    d, name, ex = sys.argv[1:4]
    try:
        got = load(d, name)
    except Exception as e:
        print("results cannot be read:", e); return 1
    if len(sys.argv) > 4:
        with gzip.open(ex, "wt") as f: json.dump(got, f)
        return 0
    want = json.load(gzip.open(ex, "rt"))
    if got["geo"] != want["geo"]:
        print("stored mesh differs"); return 1
    if got["var"].keys() != want["var"].keys():
        print("stored variables differ"); return 1
    for v in want["var"]:
        a, b = got["var"][v], want["var"][v]
        if a.keys() != b.keys():
            print(v, "is stored for different entities"); return 1
        sc = max([abs(x) for r in b.values() for x in r] + [1e-30])
        for k in b:
            for x, y in zip(a[k], b[k]):
                if not abs(x - y) <= 1e-3 * sc:
                    print(v, k, "is", a[k], "expected", b[k]); return 1
    return 0


sys.exit(main())
