"""compact view of replays/<id>.json"""
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib
d = json.load(open(os.path.join(vlib.VERIF, "replays", sys.argv[1] + ".json")))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
w = int(sys.argv[3]) if len(sys.argv) > 3 else 600
for x in d[:n]:
    print("##", x["session"], x["event_index"], x["clause"])
    for k, v in x["event"].items():
        print("    ", k, "=", json.dumps(vlib._human(v), default=str)[:w])
