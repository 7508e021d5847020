"""readback.py <logargs> <base>: writes a log for the events of <base>.json, reads it as the debugger does (yaml.safe_load) and compares."""
import json, os, re, subprocess, sys
import yaml

exe, base = sys.argv[1], sys.argv[2]
events = json.load(open(base + ".json"))
log = base + ".hsmlog"


def main():
    lines = [" ".join(a for a, e in ev) for ev in events]
    half = len(lines) // 2
    r = subprocess.run([exe, log], input="\n".join(lines[:half] + ["-"] + lines[half:]) + "\n", text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        return "program ended with %d: %s" % (r.returncode, r.stdout[-300:]), 0
    try:
        entries = yaml.safe_load(open(log))
    except Exception as e:
        return "log can't be parsed: %s" % str(e).replace("\n", " "), 0
    if not isinstance(entries, list):
        return "log is not a list of entries", 0
    global count
    count, vals = len(entries), 0
    cur = [e for e in entries if e.get("action") == "transition"]
    for e in entries:
        if set(e) != {"timestamp", "active_states", "action", "from_state", "target_state", "event", "status", "args"}:
            return "wrong fields in %r" % e, 0
        if not re.fullmatch(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3}", e["timestamp"]):
            return "bad timestamp %r" % e["timestamp"], 0
        if e["action"] not in ("idle", "transition", "callback_exit", "callback_enter", "callback_state"):
            return "unexpected action %r" % e["action"], 0
        if e["status"] is not None:
            return "unexpected status %r" % e["status"], 0
    if len(cur) != len(events):
        return "%d transitions in the log, %d happened" % (len(cur), len(events)), 0
    for i, (e, ev) in enumerate(zip(cur, events)):
        got, want = e["args"] or [], [w for a, w in ev]
        if not isinstance(got, list) or len(got) != len(want):
            return "event %d: %d arguments logged, %d were sent" % (i, len(got) if isinstance(got, list) else -1, len(want)), 0
        for (a, w), g in zip(ev, got):
            vals += 1
            ok = isinstance(g, str) if w == "\0any" else (type(g) is type(w) and g == w)
            if not ok:
                return "argument %s logged as %r, expected %r" % (a[:80], g, w), 0
    return None, vals


count = 0
err, vals = main()
print(json.dumps({"error": err, "values": vals, "entries": count, "events": len(events)}))
