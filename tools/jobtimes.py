"""Job times of the last run of a check: tools/jobtimes.py C07"""
import json, sys
e = json.load(open(f"{__import__("os").environ.get("VERIF_EVIDENCE","/verif/evidence")}/{sys.argv[1]}.json"))
for k, v in sorted(e["coverage"]["jobs"].items(), key=lambda x: -x[1]["wall_s"])[:int((sys.argv + ["40"])[2])]:
    print(v["wall_s"], k)
