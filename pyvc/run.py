"""run.py <property> --tier T --out proof.json : verifies the contracts of one property against the current source of /repo"""
import argparse, importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import engine


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default="quick"); ap.add_argument("--out"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    E = engine.Engine(deadline=t0 + (420 if a.tier == "quick" else 2700))
    E.tier = a.tier
    try:
        mod = importlib.import_module("contracts." + a.prop.lower())
        mod.verify(E)
    except engine.Unsupported as e: E.undecided.append(f"{E.scope}: {e}")
    except Exception as e:
        E.undecided.append(f"{E.scope}: the verifier stopped: {traceback.format_exc()[-1500:]}")
    r = E.result()
    r["wall_s"] = time.time() - t0
    if a.out: json.dump(r, open(a.out, "w"), indent=1)
    if a.v or not a.out:
        for o in r["obligations"]: print(f"{o['status']:10s} {o['backend']:12s} x{o['instances']} {o['name']}" + (f"   [{o['detail'][:600]}]" if o["status"] != "discharged" else ""))
        print("undecided:", *r["undecided"], sep="\n   ")
        print("functions:", r["functions"]); print("vacuity:", r["vacuity"])
        print(f"{len(r['obligations'])} obligations, {sum(o['status'] == 'discharged' for o in r['obligations'])} discharged, {r['paths']} paths, {time.time() - t0:.1f} s")


if __name__ == "__main__": main()
