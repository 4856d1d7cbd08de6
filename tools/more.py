prop("C04", "A save that is refused or fails before writing leaves the file alone",
     "When saving or removing a tag is refused (a value that cannot be stored, a tag the format does not support, a damaged file, the allocation limit), not one byte of the file has changed. "
     "The same holds when reading from the device fails before the call has started to write; a call never writes half of its result and then discovers on its own that it cannot go on.",
     ["inputs", "fault_sequences", "configurations"],
     "all files (intact and damaged), all tags including ones that cannot be stored, all write options and limits, and an error of every read, seek or length query of the call",
     "the tests check that a few saves fail, but not what a failing save leaves behind, and have no failing device",
     [L+"id3/v2/write/mod.rs", L+"id3/v2/write/chunk_file.rs", L+"ape/tag/write.rs", L+"mp4/ilst/write.rs", L+"flac/write.rs", L+"ogg/tag/write.rs", L+"iff/wav/tag/write.rs", L+"iff/aiff/tag/mod.rs", L+"id3/v1/write.rs"],
     [("tags are encoded and the file is read and checked before the first write", L)],
     ["the bytes on the device after TagExt::save_to or TagType::remove_from returned an error"],
     SIM+"refusable saves, damage and read-side faults on a simulated device; the bytes are compared after every failing call",
     "A failed write itself, and faults that come after the first changed byte, are outside of this property."+TRUST)

prop("C11", "A failed save can be repeated",
     "A save that failed has not changed the value in memory: the tag or file object is the same as before. "
     "Once the device works again, repeating the save on the file as it was gives exactly the bytes and the objects that the save gives when nothing ever failed.",
     ["histories", "fault_sequences"],
     "all tags, file objects and bound files and all write options, with errors, torn writes, full and vanished devices at every operation of the first attempt",
     "the tests never let a save fail for reasons of the device, so they never save again afterwards",
     [L+"file/tagged_file.rs", L+"file/audio_file.rs", L+"tag/mod.rs", L+"flac/mod.rs", L+"ogg/vorbis/mod.rs", L+"iff/aiff/tag/mod.rs"],
     [("saving borrows the value and must not leave global or object state behind", L)],
     ["the object after the failed call", "the bytes on the device after the repeated call"],
     SIM+"failing attempts and retries on a simulated device, compared with an undisturbed attempt",
     "The device content is restored between attempts, as a program does that saves to a copy."+TRUST)

prop("C13", "Memory use is bounded by the stream and the configured limit",
     "Reading, saving or removing never holds more memory than a small multiple of what the stream really contains plus the limit the program configured, whatever sizes the stream claims. "
     "An item whose claimed or expanded size exceeds the limit is refused with an error instead of being allocated.",
     ["inputs", "configurations"],
     "all files, with forged sizes in any field, compressed frames that expand to any size, any amount of padding, and any allocation limit",
     "the tests hold a few oversized inputs and never measure memory",
     [L+"util/alloc.rs", L+"config/global_options.rs", L+"id3/v2/frame/read.rs", L+"id3/v2/read.rs", L+"mp4/atom_info.rs", L+"mp4/ilst/read.rs", L+"ape/tag/read.rs", L+"ogg/tag/read.rs", L+"iff/chunk.rs", L+"flac/block.rs"],
     [("fallible allocation with a thread-local limit", L+"util/alloc.rs")],
     ["peak of live heap bytes during the call (counting allocator)"],
     SIM+"damaged streams, compression bombs and limits on a simulated stream with a counting allocator",
     "The bound is 256 KiB + 6 x stream + 2 x limit + 4 x bytes written; smaller excesses are not detected."+TRUST)

prop("C16", "The Ogg pager hands over the packets and writes them back unchanged",
     "Reading the packets of an Ogg stream gives exactly the packets stored in it, however they are spread over pages and however the transfers are split, or an error; asking for more packets than there are is an error, and a failed read never yields altered packets. "
     "Writing packets gives a valid sequence of pages (numbers, flags, checksums, segment tables, granule positions) that holds exactly these packets, including empty ones and ones that fill pages exactly, or an error if the device fails.",
     ["inputs", "histories", "fault_sequences"],
     "all lists of packets of any sizes, page layouts, histories of replacing packets, writing and reading back, under short, interrupted and failing transfers and full devices",
     "the tests paginate a handful of packets and read whole pages from complete buffers",
     ["ogg_pager/src/lib.rs", "ogg_pager/src/packets.rs", "ogg_pager/src/paginate.rs", "ogg_pager/src/header.rs", "ogg_pager/src/crc.rs"],
     [("pagination", "ogg_pager/src/paginate.rs"), ("packet assembly", "ogg_pager/src/packets.rs"), ("page reading and checksums", "ogg_pager/src/lib.rs")],
     ["Packets::read", "Packets::read_count", "Packets::set", "Packets::write_to", "Page::read", "the written bytes"],
     SIM+"streams of pages, histories of packet changes and faults on a simulated device against a list of packets as reference model",
     "The written pages are judged by an independent page parser."+TRUST)

prop("C20", "A file written to the specification is read as what it holds",
     "Reading a well-formed file gives exactly the tags, items and pictures that were stored in it according to the published formats, in any of their forms: "
     "ID3v2.2 to 2.4 with unsynchronisation, extended headers, footers, padding, compressed, grouped, encrypted or over-long frames, ID3v1, APEv1 and v2, Vorbis comments and FLAC pictures, ilst atoms, RIFF INFO and AIFF text chunks. "
     "Nothing is lost, altered or invented, wherever in the container the tags lie and however the transfers are split.",
     ["inputs", "configurations"],
     "all tags of all kinds in all stored forms, in all containers, under any delivery of the bytes",
     "the tests read one stored sample per form and format; lofty itself writes only one of the forms",
     [L+"id3/v2/header.rs", L+"id3/v2/read.rs", L+"id3/v2/frame/read.rs", L+"id3/v2/frame/content.rs", L+"id3/v2/util/synchsafe.rs", L+"id3/v1/read.rs", L+"ape/tag/read.rs", L+"ogg/read.rs", L+"mp4/ilst/read.rs", L+"iff/wav/tag/read.rs", L+"iff/aiff/read.rs", L+"flac/read.rs"],
     [("the stored form is undone while reading", L+"id3/v2/frame/read.rs")],
     ["AudioFile::read_from of every concrete file type: all tags, items and pictures"],
     SIM+"files encoded by an independent encoder are read from a simulated device and compared with what was encoded",
     "The encoder (sim/src/encode.rs) follows the published specifications; properties of the audio are not compared."+TRUST)

prop("C14", "What is set through the format-independent tag is found again",
     "Every value a program sets in a Tag under an item key that the tag type supports is there, under that key and with that text, when the file is read again, and the save is not refused because of it. "
     "This holds for whole tags, for tags converted from another type with re_map, and for values added to the tag of a file that was read, over any series of such saves; of several values of one key none is lost or moved.",
     ["inputs", "histories", "configurations"],
     "all item keys of all tag types in all formats that can hold them, with any text, number, date, flag or URL the key asks for, and any series of saves with any write options",
     "the tests set a handful of keys per tag type, mostly without going through a file, and never a key next to arbitrary others",
     [L+"tag/mod.rs", L+"tag/item.rs", L+"id3/v2/tag/conversion.rs", L+"id3/v2/tag.rs", L+"ape/tag/mod.rs", L+"ogg/tag.rs", L+"mp4/ilst/mod.rs", L+"iff/wav/tag/mod.rs", L+"iff/aiff/tag/mod.rs", L+"id3/v1/tag.rs"],
     [("conversion of the generic items on saving, without building the concrete tag", L+"id3/v2/tag/conversion.rs"), ("conversion back on reading", L+"id3/v2/tag.rs")],
     ["Tag::get_items after reading the file with Probe::read"],
     SIM+"histories of saves of format-independent tags on a simulated device against a map of the values as reference model",
     "Ratings, values that a key cannot hold (a number that is none) and, in ID3v2.3, fields of 2.4 are not part of it. A value set under one of two keys that share a field is expected under the key that is read from the field."+TRUST)

prop("C15", "Changing one field through the format-independent tag leaves the others",
     "When the title of a tag is changed through the format-independent tag (TaggedFile, BoundTaggedFile, or SplitTag and MergeTag) and the file is saved, reading the file gives the new title and every other piece of information as before. "
     "This includes what has no counterpart in the format-independent tag, for ID3v2 and MP4 ilst on every way and for all tags if the remainder of the split is merged.",
     ["inputs", "histories", "configurations"],
     "all tags of all kinds as foreign programs store them, in all containers, and series of up to three edits with any write options under short and interrupted transfers",
     "the tests convert single tags in memory and compare a few fields",
     [L+"tag/companion_tag.rs", L+"tag/split_merge_tag.rs", L+"id3/v2/tag.rs", L+"id3/v2/tag/conversion.rs", L+"mp4/ilst/mod.rs", L+"ape/tag/mod.rs", L+"ogg/tag.rs", L+"file/tagged_file.rs"],
     [("the remainder of the split travels along as the companion tag", L+"tag/companion_tag.rs")],
     ["the concrete tags read before and after each edit"],
     SIM+"foreign files and series of edits on a simulated device; the information in the tag is compared before and after",
     "How a value is stored (encoding, flags of the frame, spelling of a key, stored dimensions of a picture) may change. Values the format-independent tag interprets (numbers, dates, ratings, several values where it holds one, read-only items, RIFF and AIFF text without a counterpart) are kept regular, as their conversion is lossy by design."+TRUST)

prop("C19", "Audio properties are those of the stream",
     "The properties that are read from a well-formed stream are the ones its headers describe: duration, sample rate, channels and their layout, bit depth, bitrates and the details of the format. "
     "This holds for every encoding of every format, wherever the tags lie, with junk and other blocks in between, in every parsing mode and however the transfers are split.",
     ["inputs", "schedules", "configurations"],
     "all combinations of header fields of the supported formats and their versions (MPEG 1 to 2.5 layers I to III, CBR and VBR headers, ADTS, WAV in its codecs, AIFF-C, FLAC, Vorbis, Opus, Speex, MP4 codecs, APE versions, WavPack, Musepack SV4 to SV8)",
     "the tests hold one sample file per format, and many header fields take one value in all of them",
     [L+"mpeg/properties.rs", L+"mpeg/header.rs", L+"mpeg/read.rs", L+"aac", L+"mp4/properties", L+"iff/wav/properties.rs", L+"iff/aiff/properties.rs", L+"flac/properties.rs", L+"ogg/vorbis/properties.rs", L+"ogg/opus/properties.rs", L+"ogg/speex/properties.rs", L+"ape/properties.rs", L+"wavpack/properties.rs", L+"musepack"],
     [("parsing of stream headers and estimation of lengths", L)],
     ["FileProperties and the properties of the concrete file types"],
     SIM+"streams built from header fields by independent encoders, read under delivery schedules on a simulated stream and compared with those fields",
     "Lengths and bitrates are compared within the tolerance that the rounding of the format demands; the bitrate of Musepack SV4 to SV6 is a known finding."+TRUST)

prop("C21", "Tags are written to their specification",
     "Every tag that a save writes is one that a reader following the published formats accepts: sizes, counts, flags, extended headers, checksums and footers agree with the content, text is in an encoding its version has and terminated where it must be, and keys, pictures and reserved fields have the prescribed form. "
     "This holds for whatever a program stored and for tags that were read from other programs' files and are written again.",
     ["histories", "inputs", "configurations"],
     "all tags that can be built or read, all versions and options of writing, in all formats, over any history of saves",
     "the tests read back what they wrote with the same library, which hides what both sides get wrong, or compare with single files",
     [L+"id3/v2/write", L+"id3/v2/items", L+"ape/tag/write.rs", L+"id3/v1/write.rs", L+"mp4/ilst/write.rs", L+"ogg/write.rs", L+"ogg/tag", L+"flac/write.rs", L+"iff/wav/tag/write.rs", L+"iff/aiff/tag/mod.rs", L+"picture"],
     [("encoders of the tag formats", L)],
     ["the raw bytes of every tag on the device after each acknowledged call"],
     SIM+"histories on a simulated device; the written tags are validated by independent parsers of the specifications",
     "Unknown frames, items and atoms are judged by their outer form only. Bit 30 of the APE flags is a known finding."+TRUST)


prop("C22", "Threads do not disturb each other",
     "Threads that use the library at the same time, each on files of its own, get exactly the results and bytes each gets alone, whatever the interleaving of their device operations and whatever fails in another thread. "
     "The options a thread sets with apply_global_options act on that thread only. "
     "A call that panics as documented (second registration of a resolver name, unregistered file type) leaves the other threads' calls and the registered resolvers as they were.",
     ["inputs", "schedules", "fault_sequences", "configurations"],
     "all interleavings of calls of any threads, including failing and panicking calls and registrations at any point",
     "the tests use the library from one thread each, without control over the interleaving",
     [L+"resolve.rs", L+"config/global_options.rs", L+"probe.rs", L+"file/file_type.rs", L+"util/alloc.rs"],
     [("process-wide list of custom resolvers", L+"resolve.rs"), ("options of the thread", L+"config/global_options.rs")],
     ["results of all calls and the bytes of all devices, compared with each thread on its own"],
     SIM+"several real threads run under a simulated scheduler that decides at every device operation which one goes on; results are compared with the same thread running alone",
     "Interleavings are decided at device operations, between calls and at registered resolvers; memory accesses between them are not interleaved (the library has no other shared mutable state than the list of resolvers)."+TRUST)

prop("C23", "Editing one field of a tag acts on that field only",
     "Setting or removing a field through the Accessor methods, or inserting, pushing or removing an item or a picture, gives that field exactly the value just set (or none) and leaves every other field, item and picture as it was, in their order. "
     "This holds in every kind of tag and through every way of opening a file, in memory after every single edit and on the file after any history of edits, saves and reopenings.",
     ["inputs", "histories", "configurations"],
     "all histories of edits, saves and reopenings on all kinds of tags in all formats, starting from any file",
     "the tests call single methods on fresh tags; what a method does to neighbouring items of a filled tag, or to a tag read from a file, is sampled in a few places",
     [L+"tag/accessor.rs", L+"tag/mod.rs", L+"id3/v2/tag.rs", L+"id3/v2/frame/list.rs", L+"id3/v1/tag.rs", L+"ape/tag/mod.rs", L+"ogg/tag.rs", L+"ogg/picture_storage.rs", L+"mp4/ilst/mod.rs", L+"iff/wav/tag/mod.rs", L+"iff/aiff/tag/mod.rs"],
     [("accessors of the concrete tags", L+"id3/v2/tag.rs"), ("fields that share an item (number and total)", L+"mp4/ilst/mod.rs")],
     ["all accessor values, items and pictures after each edit, in memory and after reading the file again"],
     SIM+"histories of edits, saves and reopenings on a simulated device against a list of named values as reference model",
     "Removing a number may remove its total where both share one item; zero is no number. ID3v2.3 saves, AIFF comments stored in COMT and described ID3v2 comments seen through the other view are not judged."+TRUST)
