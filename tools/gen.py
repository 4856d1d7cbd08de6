#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, na=na, state=state))

SIM = "deterministic simulation: seeded search over "
TRUST = (" Seeded exploration, not exhaustive: assumes the simulated device obeys the contract of Read/Write/Seek/Truncate/Length,"
         " and trusts the independent generators and container parsers of the simulator.")
L = "lofty/src/"

prop("C01", "Reading does not depend on how the bytes are delivered",
     "Reading a file gives the same tags, pictures and properties, or is refused, regardless of how the stream splits and interrupts the transfers (short reads down to one byte, interrupted reads). "
     "This holds for every format, parse option and entry point (a concrete file type, a probe that is told the type, and a probe that guesses it), and the entry points agree with each other.",
     ["inputs", "schedules", "configurations"],
     "all audio files of the supported formats, plain or tagged by any history of saves, under every pattern of short and interrupted reads and all parse options",
     "the tests read from complete in-memory buffers and real files, whose reads are never short or interrupted",
     [L+"probe.rs", L+"id3/v2/read.rs", L+"id3/v2/util/synchsafe.rs", L+"mp4/read/mod.rs", L+"ogg/read.rs", "ogg_pager/src/lib.rs", L+"iff/chunk.rs", L+"flac/read.rs", L+"mpeg/read.rs"],
     [("read_exact / read_to_end loops of every parser", L), ("unsynchronised stream decoder", L+"id3/v2/util/synchsafe.rs"), ("page reader", "ogg_pager/src/lib.rs")],
     ["AudioFile::read_from", "Probe::read", "Probe::guess_file_type"],
     SIM+"delivery schedules on a simulated stream, compared with the undisturbed reading",
     "Each file is read undisturbed and under 3 to 4 seeded delivery schedules; any difference is a violation."+TRUST)

prop("C02", "A failing read is reported, never turned into a different result",
     "When the stream fails a read, seek or length query while a file is being read, the call returns an error or the very result it gives on a healthy stream. "
     "It never presents a partial or different reading as a success, and never panics or runs forever.",
     ["inputs", "fault_sequences", "configurations"],
     "all audio files and parse options, with an I/O error, timeout, permission failure or vanished device at every operation of the read",
     "the tests have no stream that fails, so no error path of a parser runs with a real I/O error",
     [L+"probe.rs", L+"id3/mod.rs", L+"id3/v2/read.rs", L+"mpeg/read.rs", L+"mp4/read/mod.rs", L+"mp4/properties.rs", L+"ogg/read.rs", L+"ape/tag/read.rs"],
     [("error propagation of every parser; best-attempt recovery must not swallow I/O errors", L)],
     ["AudioFile::read_from", "Probe::read", "Probe::guess_file_type"],
     SIM+"read-side faults (each operation in turn on small files) on a simulated stream",
     "Faults are placed at seeded operations, and for a quarter of the cases at every operation in turn."+TRUST)

prop("C03", "Saving does not depend on how the device splits the transfers",
     "Saving or removing a tag leaves the same bytes, and is accepted or refused alike, regardless of how the device splits and interrupts the reads and writes.",
     ["histories", "schedules", "configurations"],
     "all files, tags and write options, saved through a tag, a concrete file, a generic file or a bound file, under every pattern of short and interrupted transfers",
     "the tests write to complete buffers and real files, whose transfers are never short or interrupted",
     [L+"util/io.rs", L+"id3/v2/write/mod.rs", L+"ape/tag/write.rs", L+"mp4/ilst/write.rs", L+"flac/write.rs", L+"ogg/tag/write.rs", L+"iff/wav/tag/write.rs", L+"id3/v2/write/chunk_file.rs"],
     [("write_all / read_exact loops of every writer", L), ("page writer", "ogg_pager/src/packets.rs")],
     ["TagExt::save_to", "AudioFile::save_to", "BoundTaggedFile::save", "TagType::remove_from"],
     SIM+"delivery schedules on a simulated device, compared byte for byte with the undisturbed call",
     "Every step of a history is executed undisturbed and under a seeded delivery schedule and the files compared."+TRUST)

prop("C05", "An acknowledged save is complete, whatever failed underneath",
     "A save or removal that returns success has left exactly the bytes it leaves on a healthy device, even if operations of the device failed meanwhile; a failed, torn or refused write, a failed truncation and a full device are always reported. "
     "A call that is refused on a healthy device is not accepted because of a fault, and no fault makes a call panic or run forever. "
     "If the machine stops in the middle, whatever is on the device can still be read or is refused with an error.",
     ["histories", "fault_sequences", "crash_points"],
     "all histories of saves, edits and removals, with I/O errors, torn and zero-length writes, full devices, vanished devices and crashes at every operation and byte",
     "the tests have no device that fails, fills up or loses power",
     [L+"util/io.rs", L+"id3/v2/write/mod.rs", L+"id3/v2/write/chunk_file.rs", L+"ape/tag/write.rs", L+"mp4/write.rs", L+"flac/write.rs", L+"ogg/tag/write.rs", "ogg_pager/src/packets.rs", L+"iff/aiff/tag/mod.rs"],
     [("error propagation of every writer", L)],
     ["TagExt::save_to", "AudioFile::save_to", "BoundTaggedFile::save", "TagType::remove_from"],
     SIM+"fault sequences and crash points on a simulated device, against the undisturbed result",
     "Faults, full devices and crash points are seeded per step; acknowledged results are compared byte for byte with the undisturbed call."+TRUST)

prop("C06", "Saving tags never alters the audio",
     "Whatever history of saves, edits and removals is applied to a file, the audio stays the same byte for byte and is still found where the container says it is: the frames of MPEG, AAC, APE, WavPack, Musepack and FLAC streams, the sample data of WAV and AIFF files, the packets and granule positions of Ogg streams, and the samples the chunk and fragment offsets of an MP4 file point at.",
     ["histories", "inputs", "configurations"],
     "all files (with other chunks, blocks, atoms, streams, padding and trailing data around the audio) and all histories of acknowledged saves, edits and removals with any write options",
     "the tests save a handful of small tags to a handful of files; they do not cross size boundaries in long histories nor compare the audio",
     [L+"mp4/ilst/write.rs", L+"mp4/write.rs", L+"ogg/tag/write.rs", "ogg_pager/src/packets.rs", L+"flac/write.rs", L+"id3/v2/write/chunk_file.rs", L+"iff/wav/tag/write.rs", L+"iff/aiff/tag/mod.rs", L+"ape/tag/write.rs", L+"id3/v1/write.rs"],
     [("media offset updates", L+"mp4/ilst/write.rs"), ("page renumbering", L+"ogg/tag/write.rs"), ("replacement of tag ranges", L)],
     ["the bytes on the device after each call"],
     SIM+"histories on a simulated device; the audio is extracted by independent container parsers after every step",
     "The payload is recomputed after every acknowledged step by parsers that share no code with the library."+TRUST)

prop("C07", "Saving keeps the file a valid file of its type",
     "After any history of acknowledged saves, edits and removals the file is still well-formed: chunk, block, atom and page sizes add up, sequence numbers and checksums are right, and parents account for their children. "
     "It is still detected as the same file type and can still be read.",
     ["histories", "inputs", "configurations"],
     "all files and all histories of acknowledged saves, edits and removals with any write options",
     "the tests read back with the library itself, which tolerates wrong sizes and checksums, and only after single saves",
     [L+"mp4/ilst/write.rs", L+"ogg/tag/write.rs", "ogg_pager/src/lib.rs", "ogg_pager/src/packets.rs", L+"flac/write.rs", L+"flac/block.rs", L+"id3/v2/write/chunk_file.rs", L+"iff/wav/tag/write.rs", L+"iff/aiff/tag/mod.rs"],
     [("size and checksum updates of the writers", L)],
     ["the bytes on the device after each call", "Probe::guess_file_type"],
     SIM+"histories on a simulated device; the container is validated by independent parsers after every step",
     "Structural problems the initial file already had are tolerated; new ones are violations."+TRUST)

prop("C08", "What was saved is what is read back, and nothing else changes",
     "Saving a tag the file can hold succeeds, and reading the file back gives exactly that tag: every field, in every encoding, size and number, including pictures and unknown frames and items. "
     "All other tags, pictures, chunks, blocks and atoms in the file are kept as they were.",
     ["histories", "inputs", "configurations"],
     "all files, all tags within the documented limits of their format and all histories of saves, edits and removals across several tags of one file",
     "the tests round-trip a few fixed tags on fresh files; they do not combine tags, sizes, write options and earlier saves",
     [L+"id3/v2/write/mod.rs", L+"id3/v2/frame/content.rs", L+"id3/v2/items", L+"ape/tag/write.rs", L+"mp4/ilst/write.rs", L+"ogg/tag.rs", L+"flac/write.rs", L+"iff/wav/tag/write.rs", L+"iff/aiff/tag/mod.rs", L+"id3/v1/write.rs"],
     [("tag encoders and decoders", L), ("range replacement", L)],
     ["AudioFile::read_from after each save", "the bytes of the other tags and blocks"],
     SIM+"histories on a simulated device against an executable model of the tags in the file",
     "The model maps each kind of tag to the content last saved; untouched tags and blocks are compared byte for byte."+TRUST)

prop("C09", "Removing a tag removes all of it and only it",
     "After a tag type has been removed from a file no tag of that type is found any more, even if the file held several or the tag stood at an unusual place. "
     "Every other tag, block and the audio are untouched, and removing what is not there changes nothing.",
     ["histories", "inputs"],
     "all files with any combination, number and placement of tags, and all histories with removals at any point",
     "the tests remove one tag from one fixed file per format",
     [L+"tag/tag_type.rs", L+"ape/tag/write.rs", L+"id3/v1/write.rs", L+"id3/v2/write/mod.rs", L+"id3/v2/write/chunk_file.rs", L+"mp4/ilst/write.rs", L+"ogg/tag/write.rs", L+"flac/write.rs"],
     [("removal as the writing of an empty tag", L+"tag/tag_type.rs")],
     ["TagType::remove_from", "the bytes on the device after each call"],
     SIM+"histories with removals on a simulated device against an executable model of the file",
     "The state after every removal is compared with the model and with the bytes before."+TRUST)

prop("C10", "Repeating a save changes nothing and the file does not grow",
     "Making the same save again leaves the file at the same length, and from then on unchanged byte for byte; alternating between saves does not make the file grow from round to round. "
     "A save never leaves more than one tag of the type it wrote.",
     ["histories", "configurations"],
     "all files, tags and write options (padding), repeated and alternating saves through every entry point",
     "the tests save once or twice and do not compare lengths over rounds",
     [L+"id3/v2/write/mod.rs", L+"id3/v2/write/chunk_file.rs", L+"ape/tag/write.rs", L+"mp4/ilst/write.rs", L+"flac/write.rs", L+"ogg/tag/write.rs", L+"iff/wav/tag/write.rs", L+"iff/aiff/tag/mod.rs"],
     [("padding handling and replacement of existing tags", L)],
     ["the bytes on the device after each call"],
     SIM+"histories of repeated and alternating saves on a simulated device",
     "Repeated calls are compared with the previous one."+TRUST)

prop("C12", "Damaged files are refused or read, never a crash",
     "Whatever bytes a stream holds (damaged, truncated, torn or malicious), reading, detecting, saving to and removing from it end with a value or an error. "
     "No call panics, overflows, exhausts the stack or runs forever.",
     ["inputs", "crash_points", "configurations"],
     "all byte strings near the files of the supported formats: flipped and overwritten bytes, forged sizes, cut, duplicated and missing ranges, torn sectors, forged Ogg pages with valid checksums, in all parsing modes",
     "the tests hold a fixed set of fuzzer findings",
     [L+"id3/v2/read.rs", L+"id3/v2/frame", L+"mp4", L+"ogg", "ogg_pager/src", L+"iff", L+"ape", L+"musepack", L+"wavpack", L+"flac", L+"mpeg", L+"aac", L+"picture"],
     [("size checks and checked arithmetic of the parsers", L), ("allocation limit", L+"util/alloc.rs")],
     ["every public reading and writing call"],
     SIM+"damage and torn images on a simulated device, with arithmetic checks on and an operation budget",
     "The library is built with overflow checks and debug assertions; a hang is an exhausted operation budget or 90 s without a result."+TRUST)

prop("C17", "Parse options only select what is read",
     "Leaving out tags, properties or cover art when reading leaves out just that: everything else is the same as in a full reading, and a file that can be read in full can be read with less.",
     ["inputs", "configurations"],
     "all files with any combination of tags, all parsing modes and entry points, with disturbed delivery",
     "the tests try each option on single files and do not compare with the full reading",
     [L+"config/parse_options.rs", L+"id3/mod.rs", L+"ape/tag/read.rs", L+"mpeg/read.rs", L+"musepack/read.rs", L+"flac/read.rs", L+"mp4/moov.rs"],
     [("skipping of tags that are not read must move the stream exactly like reading them", L)],
     ["AudioFile::read_from", "Probe::read"],
     SIM+"files and options on a simulated stream, compared with the full reading",
     "Metamorphic: each file is read in full and with each option off."+TRUST)

prop("C18", "Detection finds the right type and leaves the stream in place",
     "The type of a file is detected from its contents, wherever in the stream it starts, with leading tags of any size, and regardless of how transfers are split; the stream is left at the position where it was. "
     "If an operation fails meanwhile, detection reports an error or the right type, never another one.",
     ["inputs", "schedules", "fault_sequences"],
     "all files of the supported formats, with and without leading tags, at any offset, under short and interrupted reads and with a failing operation at any point",
     "the tests detect fixed files from position 0 on healthy streams",
     [L+"probe.rs", L+"file/file_type.rs", L+"id3/mod.rs", L+"mpeg/header.rs"],
     [("signature table", L+"file/file_type.rs"), ("search past leading tags and junk", L+"probe.rs")],
     ["Probe::guess_file_type", "position of the stream afterwards"],
     SIM+"delivery schedules and faults during detection on a simulated stream",
     "The expected type is known to the generator of the file."+TRUST)

exec(open('/verif/tools/more.py').read())
P.sort(key=lambda p: p["id"])
with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": p["state"] or [],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash /verif/build.sh",
    "hooks": {"guard": "none (no hooks were needed: the library is generic over its streams)",
              "enable": "the checks build /repo as it is, with overflow checks and debug assertions", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash /verif/check.sh {p['id']} quick",
        "thorough_cmd": f"bash /verif/check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in P if not p["na"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
    "notes": "See DESIGN.md. VERIF_SEED selects the seed, VERIF_CASES the number of cases, VERIF_WORKERS the processes. Replay: target/release/loftysim replay FILE.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
