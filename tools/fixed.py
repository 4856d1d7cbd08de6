#!/usr/bin/env python3
"""Rewrites the list of repaired defects in known_findings.json from /repo's history (run by hand)."""
import json, subprocess, re
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
RULES = [  # first match wins
    (r"custom resolvers", "C22"),
    (r"random access tables", "C06"),
    (r"overflow when updating 64-bit", "C12"),
    (r"with four digits|SYLT frames are written|MIME type of a GEOB", "C21"),
    (r"without any frames", "C08"),
    (r"start with several ID3v2 tags", "C18"),
    (r"leading APE tags behind several", "C09"),
    (r"date set on an ID3v2 tag|keep the order of the remaining|RIFF INFO items of a key|icon of a Vorbis comment", "C23"),
    (r"WavPack|MPEG-4|audio specific|sample entries|dfLa|VBRI|Layer I |final frame of one block|overall bitrate|MPC SV4|ALAC|last MPEG frame", "C19"),
    (r"long identification packets", "C18"),
    (r"extended headers in the layout", "C20"),
    (r"footer to ID3v2.3", "C21"),
    (r"generic tag that have|podcast flag|involved people|work title|movement|MusicBrainz", "C14"),
    (r"report I/O errors|return to the starting position when no", "C02"),
    (r"interrupted", "C01"),
    (r"panic|overflow|divisions", "C12"),
    (r"Opus streams with unusual|ADTS frames that are shorter", "C12"),
    (r"options that leave|even if tags are not read", "C17"),
    (r"guessing the file type", "C18"),
    (r"chunk offsets|data offsets|co64|extended length|remaining size when seeking", "C06"),
    (r"size of a JUNK|container size|leave data trailing|flag the presence|other bitstreams", "C07"),
    (r"blank ID3v1|all RIFF INFO|all ID3v2 chunks|duplicate ID3v2 tags of MPEG|APE tag at the start of a file when|mistake", "C09"),
    (r"stable order", "C10"),
    (r"allocation limit", "C13"),
    (r"paginating", "C16"),
    (r"unsynchronised extended header|all of the content of ID3v2|at its terminator|MP4 audio track|APEv2 tags without a header|padding between comments|twice|footer of duplicate|Lyrics3v2|honour 64-bit|specifies a month|encode UTF-16|with 64-bit sizes|negative one-byte", "C20"),
]
def of(s):
    for r, p in RULES:
        if re.search(r, s):
            return p
    return "C08"
f = json.load(open("/verif/known_findings.json")) if __import__("os").path.exists("/verif/known_findings.json") else {"findings": []}
f["fixed"] = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        f["fixed"].append(f"fixed: property={of(s)} {h} {s[5:]}")
json.dump(f, open("/verif/known_findings.json", "w"), indent=1)
print("\n".join(f["fixed"]))
