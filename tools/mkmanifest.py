#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import props
NOTES = {
 "P01": "Recorded concurrent edits must be linearisable to the specified list; the code's algorithm is model checked (4 edits).",
 "P02": "Recorded streams must be behaviours of Stream; the loop's design is checked to refine it (3 files, 4 requests), including that it never stalls.",
 "P03": "Recorded streams of tagged samples must be behaviours of Stream; design as for P02.",
 "P04": "Announcements received by clients of a real server, merged with the stream by sample index, must be a behaviour of Stream.",
 "P05": "Recorded streams with pauses must be behaviours of Stream; design as for P02.",
 "P06": "Chunks received by clients of real servers, exact to the nanosecond of virtual time, against Chunks and Stream; the schedule is model checked.",
 "P07": "Recorded histories of racing clients and broadcasts against Fanout; the locking design is model checked for all interleavings (2 clients).",
 "P08": "As P07 with clients which stall, drop and send damaged data.",
 "P09": "Recorded transfers with fragmentation and damage against Wire; the framing is model checked byte by byte.",
 "P10": "Recorded commands and messages against Volume, and players' output against Levels; the design is model checked for all interleavings (2 clients, 2 commands).",
 "P11": "Recorded joins among announcements against Info; the design is model checked for all interleavings.",
 "P12": "Recorded histories of announcements in any order, and what is kept after them, against Info; the design is model checked.",
 "P13": "Recorded rounds over lossy, reordering networks against Timing, exact up to integer division; the rounds are model checked.",
 "P14": "Recorded concurrent operations must be linearisable to SampleQueue; the ring with its lock and condition is model checked.",
 "P15": "Recorded output of the real player, each sample with its time, against Player; the design of the loop is model checked to be a Player.",
 "P16": "Recorded output of the real player against Levels.",
 "P17": "Recorded screens of the real infoer against Display.",
 "P18": "Recorded screens of the real infoer against Display, and announcements of a real server against Lyrics.",
 "P19": "Recorded logins of a real ssh client at a real server against Login.",
 "P20": "Recorded splits of all short and of random lines against Shell; round trip model checked for all lines up to 7 characters.",
 "P21": "Recorded completions against Shell; existence of completions model checked.",
 "P22": "Recorded sessions of a real server with any commands and keys against Console.",
 "P23": "Recorded listings, completions and queueings over random directory trees against Catalogue.",
 "P24": "Recorded reports of broadcasts with failing connections against Fanout; design as for P07.",
 "P25": "Recorded output of the real commands with any logging flags against Logging.",
 "P26": "Recorded lives of the real commands, from their flags to their exit status, against Lifecycle.",
 "P27": "Recorded sessions of operators at several terminals against Terminals, which is model checked (each line answered in order, with its own reply, whatever hangs elsewhere).",
 "P28": "Recordings of a real server, two real players and a real display, each with its own clock, over a network with delays, against Unison; how players agree on the time is model checked against it (UnisonMC).",
}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for i in ids:
    p = props.PROPS.get(i)
    if p is None:
        na.append({"property": i, "reason": "The specification of this part is still being built."})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": NOTES[i] + " Bounded by the generated scenarios; see DESIGN.md.",
    })
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "verif", "enable": "No hooks in /repo: the checks build instrumented copies of its sources through 'go test -overlay' (tools/instr).", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; traces of the real code are validated against them. See DESIGN.md."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
