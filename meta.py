#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below.

A property is claimed when its harness src/<id>.cpp exists."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level="exploration", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level, na=na))


S = "mdflib/src/"
prop("C01", "MDF4 files give back exactly the samples that were stored",
     "Every sample that a user stores through an MDF4 writer between start and stop, into any channel group of any "
     "data group, is read back from the finalized file in the same order, with the same value, the same validity and "
     "the relative time it was stored with. No sample is lost, duplicated, reordered or moved to another group. This "
     "holds for every supported data type, size and byte order, compressed or not, on a file or on a stream.",
     ["inputs", "configurations", "histories"],
     "All layouts of data groups, channel groups and channels, all value sequences and all writer options.",
     "The tests write a handful of fixed layouts with constant values and look at a few samples; combinations of data "
     "types, invalidation bits, byte orders, group interleavings and block boundaries are not sampled.",
     [S + "mdf4writer.cpp", S + "writecache.cpp", S + "cn4block.cpp", S + "cg4block.cpp", S + "dg4block.cpp",
      S + "readcache.cpp", S + "channelobserver.h", S + "ichannel.cpp", "include/mdf/ichannel.h"],
     [("sample serialization", S + "ichannel.cpp"), ("queue to data block", S + "mdf4writer.cpp"),
      ("record parsing", S + "readcache.cpp")],
     "MdfReader::ReadData and the channel observers",
     "property-based round trip against a value model, random layouts and samples",
     "Generated layouts and value sequences; the oracle is the list of stored values.")
prop("C02", "MDF3 files give back the stored samples, texts and conversion rules",
     "Every sample stored through the MDF3 writer is read back with the same value, order and relative time, and the "
     "header texts, group and channel names, descriptions, units, types and sampling rates that fit the format are "
     "read back unchanged. A numeric conversion rule stored with a channel gives the same engineering values after "
     "reading as its parameters define.",
     ["inputs", "configurations", "histories"],
     "All layouts, values, texts within the field sizes of the format, and conversion parameters.",
     "The MDF3 tests use fixed names and few samples, and no test reads an engineering value of a written MDF3 file.",
     [S + "mdf3writer.cpp", S + "cn3block.cpp", S + "cg3block.cpp", S + "dg3block.cpp", S + "cc3block.cpp",
      S + "hd3block.cpp", S + "dt3block.cpp"],
     [("MDF3 block writer", S + "mdf3writer.cpp"), ("conversion block", S + "cc3block.cpp"),
      ("record parsing", S + "dg3block.cpp")],
     "MdfReader on the written file",
     "property-based round trip against a value model plus reference conversion formulas",
     "Generated layouts, texts and conversions; the oracle is the stored content and an own evaluation of the formulas.")
prop("C03", "Variable length samples survive storage and selective reading",
     "A text or byte array sample of any length stored in a variable length channel is read back byte for byte, also "
     "when the total exceeds the size of one storage block and when the data is compressed. Reading only the offsets "
     "and then asking for the values of any selection of them gives, for each asked offset exactly once, the bytes of "
     "the sample with that offset.",
     ["inputs", "configurations", "histories"],
     "All length sequences (0 to several MB), channel counts, compression settings and offset selections.",
     "The tests for selective reading need external files and are skipped; no test stores several MB of variable "
     "length data or data that cannot be compressed.",
     [S + "cn4block.cpp", S + "sd4block.cpp", S + "dz4block.cpp", S + "dl4block.cpp", S + "readcache.cpp",
      S + "dg4block.cpp", S + "zlibutil.cpp", S + "mdfreader.cpp"],
     [("signal data storage", S + "cn4block.cpp"), ("offset reading", S + "dg4block.cpp")],
     "MdfReader::ReadData, GetOffsetList, MdfReader::ReadVlsdData",
     "property-based round trip and full-read versus offset-read differential",
     "Generated sample lengths with the storage borders; the oracle is the stored bytes.")
prop("C04", "A measurement file does not depend on the timing of background saving",
     "The content read from a finalized file is the same whatever the moments at which the background saving runs "
     "between the calls of the user, and however many threads store samples at the same time. Samples of one channel "
     "group appear in the order in which they were stored, and concurrent storing loses, duplicates or mixes nothing.",
     ["schedules", "configurations", "inputs"],
     "All placements of background saves between user calls, and all interleavings of storing threads.",
     "The background save runs every ten seconds, so short tests never run it; no test stores from several threads.",
     [S + "writecache.cpp", S + "mdf4writer.cpp", S + "mdf3writer.cpp", S + "samplequeue.cpp", S + "mdfwriter.cpp",
      S + "mdfconverter.cpp", S + "mdfbuslogger.cpp"],
     [("worker thread and queue", S + "writecache.cpp"), ("sample queue", S + "samplequeue.cpp")],
     "content read back; the scheduler of the harness owns the periodic wake-ups of the worker",
     "schedule fuzzing with controlled worker wake-ups and producer threads, differential against the unflushed run",
     "The harness decides when the worker wakes up; interleavings of producer threads are sampled by the OS scheduler.")
prop("C05", "Pre-trigger time, start and stop select exactly the right samples",
     "A measurement holds every sample stored from the start time up to the stop call and none stored after it; samples "
     "stored before the start "
     "are kept only inside the configured pre-trigger time (plus at most the last one before that window), and with no "
     "pre-trigger time no sample older than the start is found except at most the last one. The recorded start time is "
     "the given one and the calculated master time of each sample is its distance to the start, up to the resolution of "
     "the master channel (integer or float of any size and byte order, with or without a linear conversion).",
     ["histories", "schedules", "configurations"],
     "All histories of storing, starting and stopping with generated time stamps, pre-trigger times and background trims.",
     "The tests store after the start with increasing times; trimming happens only in the background thread.",
     [S + "writecache.cpp", S + "samplequeue.cpp", S + "mdfwriter.cpp", S + "mdf4writer.cpp", S + "mdf3writer.cpp"],
     [("queue trimming", S + "samplequeue.cpp"), ("start/stop", S + "mdfwriter.cpp")],
     "content read back, header start time",
     "model-based histories with controlled background trims",
     "Generated histories; the oracle is a window model with must-have and may-have samples.")
prop("C06", "New measurements never change what earlier measurements stored",
     "Appending a measurement to an existing file, in the same session or after reopening it, also to a file that another "
     "tool wrote, leaves every sample, name, text and attachment of the earlier measurements readable and unchanged. The new measurement is found after "
     "them with its own samples, for both file formats and for every number of repetitions.",
     ["histories", "configurations"],
     "All sequences of measurements over one file, with different layouts and options, MDF3 and MDF4.",
     "The append tests use one identical channel group per round and compare counts.",
     [S + "mdfwriter.cpp", S + "mdf4writer.cpp", S + "mdf3writer.cpp", S + "mdf4file.cpp", S + "mdf3file.cpp",
      S + "writecache.cpp", S + "hd4block.cpp"],
     [("reopen and append", S + "mdfwriter.cpp")],
     "MdfReader on the file after each measurement",
     "stateful model-based histories of measurements on one file",
     "Generated histories; the oracle is the accumulated model of all measurements.")
prop("C07", "Bus messages are logged and read back unchanged",
     "Every CAN, LIN, Ethernet, MOST or FlexRay message that is stored by a bus logger is read back with the same time, "
     "identifier, flags, lengths and payload bytes, for every payload length the bus allows and for every storage "
     "form, compressed or not. Messages keep their order inside their group, and messages of different types, channels "
     "or groups are never mixed up.",
     ["inputs", "configurations", "histories"],
     "All message contents, mixes of message types and storage forms.",
     "The tests store one repeated message per type with few payload lengths.",
     [S + "mdfbuslogger.cpp", S + "canmessage.cpp", S + "linmessage.cpp", S + "ethmessage.cpp", S + "mostmessage.cpp",
      S + "flexraymessage.cpp", S + "canconfigadapter.cpp", S + "linconfigadapter.cpp", S + "ethconfigadapter.cpp",
      S + "mostconfigadapter.cpp", S + "flexrayconfigadapter.cpp", S + "canbusobserver.cpp", S + "mdf4writer.cpp"],
     [("message to record", S + "canmessage.cpp"), ("configuration", S + "iconfigadapter.cpp")],
     "channels of the message groups read by channel observers",
     "property-based round trip of generated message sequences per bus and storage type",
     "Generated messages; the oracle is the message object the user stored.")
prop("C08", "Every way to read a sample gives the same value",
     "Reading only some of the channels or groups, reading a range of samples, reading twice, or reading through another "
     "observer gives, for each sample delivered, the same value and validity as a full read of all channels. All "
     "samples inside an asked range are delivered (at most its direct neighbours besides).",
     ["inputs", "configurations", "histories"],
     "All files, channel subsets, sample ranges and sequences of reads on one reader.",
     "The tests read whole data groups; ranges and subsets are tested on external files that are not present.",
     [S + "dg4block.cpp", S + "dg3block.cpp", S + "readcache.cpp", S + "dgrange.cpp", S + "cgrange.cpp",
      S + "idatagroup.cpp", S + "channelobserver.h", S + "mdfreader.cpp", S + "samplerecordobserver.cpp"],
     [("range reading", S + "dg4block.cpp"), ("observer subscription", S + "idatagroup.cpp")],
     "channel observers, sample observers and sample record observers",
     "metamorphic read sequences compared with one full read",
     "Generated files and read sequences; the oracle is the stored content.")
prop("C09", "Channel values are decoded as the MDF standard defines them",
     "For any well-formed MDF3 or MDF4 file, whoever wrote it, each channel value is the one the standard defines from its bit "
     "offset, bit count, byte order, data type and invalidation bit, whatever the record layout, the number of record "
     "identifier bytes, and the division of the data into plain, compressed, transposed or listed data blocks.",
     ["inputs", "configurations"],
     "All well-formed layouts: bit positions, sizes, byte orders, data types, record mixes and data block trees.",
     "Unit tests decode byte aligned values; files of other tools are not part of the repository.",
     [S + "ichannel.cpp", "include/mdf/ichannel.h", S + "cn4block.cpp", S + "readcache.cpp", S + "dg4block.cpp",
      S + "dz4block.cpp", S + "dl4block.cpp", S + "hl4block.cpp", S + "ld4block.cpp", S + "dv4block.cpp", S + "di4block.cpp",
      S + "zlibutil.cpp", S + "half.hpp", S + "cn3block.cpp", S + "cg3block.cpp", S + "dg3block.cpp"],
     [("value extraction", S + "ichannel.cpp"), ("data block walk", S + "datalistblock.cpp")],
     "channel observers on files encoded by the harness",
     "differential against an independent encoder and bit-level reference decoder",
     "Files are made by an own encoder; the reference value comes from the encoder's bit model.")
prop("C10", "Conversion rules give the engineering value the standard defines",
     "For every conversion type, parameters and raw value, the engineering value (number or text) equals the one defined "
     "by the standard's rule, and after storing the rule in a file and reading it back the same raw values give the same "
     "engineering values. Values for which the rule has no result are reported as not valid or by its default. (Algebraic "
     "formulas and bit field texts, which the library does not evaluate, are left out.)",
     ["inputs", "configurations"],
     "All conversion types and parameters, all raw values including table borders.",
     "The tests convert a few points of some rules.",
     [S + "ichannelconversion.cpp", S + "cc4block.cpp", "include/mdf/ichannelconversion.h", S + "cc3block.cpp"],
     [("conversion evaluation", S + "ichannelconversion.cpp"), ("conversion block", S + "cc4block.cpp")],
     "IChannelObserver::GetEngValue of read files",
     "property-based comparison with reference formulas through written files",
     "Generated rules and values; the oracle is an own evaluation of each rule.")
prop("C11", "Descriptive data of a measurement is stored and read back unchanged",
     "Names, descriptions, units, source information, channel properties, ranges, groups, events, hierarchy, file "
     "history, header data and their links and comments that a user sets before the measurement (events, attachments, "
     "file history and hierarchy also while it runs or after it has stopped) are read back unchanged from the file, and each object still refers to the objects it was linked to. Any text without leading or trailing "
     "white space is preserved, whatever printable characters, line ends and markup it contains (in MDF3 within its "
     "fixed field lengths).",
     ["inputs", "configurations"],
     "All descriptive objects, property values and texts.",
     "The tests set each property once with a fixed plain text.",
     [S + "hd4block.cpp", S + "ev4block.cpp", S + "ch4block.cpp", S + "si4block.cpp", S + "fh4block.cpp", S + "cn4block.cpp",
      S + "cg4block.cpp", S + "md4block.cpp", S + "tx4block.cpp", S + "imetadata.cpp", S + "mdfblock.cpp",
      S + "expatxml.cpp", S + "ixmlnode.cpp"],
     [("block writers and readers", S + "mdfblock.cpp"), ("metadata XML", S + "md4block.cpp")],
     "getters of the objects read from the file",
     "property-based round trip of generated configurations",
     "Generated objects and texts; the oracle is the set of values given to the setters.")
prop("C12", "Structured comments survive the conversion to XML and back",
     "A structured comment (header, channel, conversion, source, event and the others) built from any values and texts "
     "and turned into its XML form gives well-formed XML that gives back equal content when it is parsed again, whatever "
     "white space, quotes, references and comments the XML text uses, and each of its properties is found by its path.",
     ["inputs", "configurations"],
     "All comment trees and texts.",
     "The tests use one fixed object per class and plain text.",
     [S + "hdcomment.cpp", S + "cncomment.cpp", S + "cccomment.cpp", S + "mdcomment.cpp", S + "mdproperty.cpp",
      S + "hounit.cpp", S + "hocompumethod.cpp", S + "ixmlnode.cpp", S + "writexml.cpp", S + "expatxml.cpp"],
     [("XML writer", S + "ixmlnode.cpp"), ("XML parser", S + "expatxml.cpp")],
     "comment objects set in and got from metadata of written files",
     "property-based round trip of generated comment trees",
     "Generated trees; the oracle is the tree itself.")
prop("C13", "Attachments give back exactly the attached bytes",
     "A file attached to a measurement, embedded or referenced, compressed or not, is exported with exactly the bytes, "
     "name, type and description it had when attached, its checksum is the MD5 of its bytes, and a damaged embedded "
     "attachment is not exported as if it was intact.",
     ["inputs", "configurations"],
     "All contents and sizes, several attachments per file, all storage forms.",
     "The tests attach one small text file.",
     [S + "at4block.cpp", S + "cryptoutil.cpp", S + "zlibutil.cpp", S + "iattachment.cpp"],
     [("attachment block", S + "at4block.cpp"), ("MD5", S + "cryptoutil.cpp")],
     "MdfReader::ExportAttachmentData, attachment getters",
     "property-based round trip and reference MD5",
     "Generated contents; the oracle is the content and an own MD5.")
prop("C14", "The compression and coding helpers are exact inverses",
     "Decompressing what was compressed gives the same bytes for any input, memory or stream; transposing and inverse "
     "transposing gives the same bytes for any record size; time stamps (ISO 8601 texts in any of its usual forms), text "
     "encodings and raw value encodings convert back to the value they were made from.",
     ["inputs"],
     "All byte sequences, record sizes, time stamps and texts in the documented ranges.",
     "The tests use a few sizes of constant data and some dates.",
     [S + "zlibutil.cpp", S + "mdfhelper.cpp", S + "cutf.cpp", S + "timestamp.cpp", S + "mdf4timestamp.cpp",
      S + "littlebuffer.h", S + "bigbuffer.h", "include/mdf/zlibutil.h", "include/mdf/mdfhelper.h"],
     [("compression", S + "zlibutil.cpp"), ("helpers", S + "mdfhelper.cpp")],
     "return values and output buffers",
     "property-based inverse and reference checks of the helper functions",
     "Generated inputs; oracles are the inputs, zlib itself and own reference implementations.")
prop("C15", "Finished MDF4 files are well-formed for any other reader",
     "A finalized MDF4 file contains only complete blocks that an independent reader can follow: every link points to a "
     "block of the allowed kind inside the file, blocks do not overlap, lengths, counts and sizes agree with the data, "
     "record identifiers are unique, and the file is marked as finalized. An independent decoder finds the same samples "
     "in it as were stored.",
     ["inputs", "configurations", "histories"],
     "All layouts, writer types, options and numbers of measurements.",
     "The tests read the files only with the library itself, so an error made in the same way on both sides is invisible.",
     [S + "mdfblock.cpp", S + "mdf4writer.cpp", S + "idblock.cpp", S + "hd4block.cpp", S + "dg4block.cpp", S + "cg4block.cpp",
      S + "cn4block.cpp", S + "dl4block.cpp", S + "dz4block.cpp", S + "sd4block.cpp"],
     [("block framing and links", S + "mdfblock.cpp")],
     "bytes of the file",
     "property-based generation with an independent MDF4 parser as oracle",
     "The parser is written from the standard; it does not share code with the library.")
prop("C16", "A crash while measuring loses nothing that was already saved",
     "If the program stops at any moment of a measurement, a reader of the remaining file never crashes or invents "
     "samples: every sample it delivers is one that was stored, in order, and samples that an uncompressed measurement "
     "had flushed to the file before are all readable. A file marked as unfinalized, with outdated sample counters, VLSD "
     "sizes and data length of its last measurement and cut anywhere in that data, is repaired on reading: exactly the "
     "complete records are delivered and counted, also after a new measurement has been appended to the file.",
     ["crash_points", "histories", "configurations"],
     "All prefixes of the sequence of writes to the file during a measurement.",
     "No test stops a measurement half-way.",
     [S + "mdf4writer.cpp", S + "mdf4file.cpp", S + "mdfreader.cpp", S + "idblock.cpp", S + "cg4block.cpp", S + "writecache.cpp",
      S + "dt4block.cpp"],
     [("unfinalized state and repair", S + "mdf4file.cpp")],
     "MdfReader on prefixes of the logged writes and on cut unfinalized files",
     "crash-point enumeration over a logged write sequence, with a prefix oracle",
     "Each logged write is a crash point; writes are atomic and in order (no reordering by the file system).",
     "fault_enumeration")
prop("C17", "Damaged or hostile files never crash, hang or exhaust the reader",
     "Opening and reading any file, whatever its bytes, ends in bounded time and memory with success or a reported "
     "failure, and never with a crash, an invalid memory access, an endless loop or an escaped exception other than a "
     "standard one.",
     ["inputs", "fault_sequences"],
     "All byte strings; in practice all truncations and structured mutations of valid files.",
     "The tests open valid files, one empty and one plain text file.",
     [S + "mdfreader.cpp", S + "mdfblock.cpp", S + "mdf4file.cpp", S + "mdf3file.cpp", S + "readcache.cpp", S + "dz4block.cpp",
      S + "cn4block.cpp", S + "cc4block.cpp", S + "ca4block.cpp", S + "hd4block.cpp"],
     [("block reading", S + "mdfblock.cpp")],
     "the process: sanitizer reports, time, memory",
     "structure-aware mutation fuzzing of MDF3 and MDF4 files under AddressSanitizer",
     "Mutations of valid files made by the writers and the own encoder.")
prop("C18", "Sorting and validating a file keeps its content",
     "Running the sorting task on an MDF4 file produces a file in which each channel group is alone in its data group and "
     "has the same channels, texts, conversions, sources, arrays (those that refer to no other block), attachments and samples (master values included), in the same order, as in the source. "
     "The validating task succeeds exactly for files without invalid values and does not change their samples. The source "
     "is left unchanged, no temporary file remains, and a file that cannot be handled is reported as a failure without "
     "touching the destination.",
     ["inputs", "configurations"],
     "All source files: layouts, storage forms, number of groups.",
     "The tests only run on files of the developer that are not in the repository.",
     [S + "mdftask.cpp", S + "sortingtask.cpp", S + "sortingconfigadapter.cpp", S + "copysampleobserver.cpp",
      S + "samplerecordobserver.cpp", S + "validatingtask.cpp", S + "mdfconverter.cpp"],
     [("sorting task", S + "sortingtask.cpp"), ("copy of the configuration", S + "cn4block.cpp")],
     "content of the destination file",
     "metamorphic property-based testing: generated source files, content before and after the task",
     "Sources without variable length (VLSD, MLSD) channels, which are known findings.")
prop("C19", "Array channels keep every element in its place",
     "An array channel of any dimensions and element type gives back for each sample and element index the value stored "
     "there, and its array description (dimensions, axes, links) is read back unchanged.",
     ["inputs", "configurations"],
     "All dimensions, element types, byte orders and values.",
     "The tests write one fixed two-dimensional array.",
     [S + "ca4block.cpp", S + "ichannelarray.cpp", "include/mdf/ichannelarray.h", S + "ichannel.cpp", S + "channelobserver.h"],
     [("array block", S + "ca4block.cpp"), ("element access", S + "ichannel.cpp")],
     "GetChannelValues of read files",
     "property-based round trip of generated arrays",
     "Generated arrays; the oracle is the element values.")

prop("C20", "The C interface gives the same results as the C++ library",
     "A program that uses the exported C functions or the wrapper classes of mdflibrary sees the same as one that uses the "
     "C++ library: every property, list, link and object set through the interface has the same effect on the objects and "
     "on the file written, every sample and bus message saved through it is stored alike by every writer type, and every "
     "getter and observer returns the value that the C++ library returns. Text and byte functions called without a buffer "
     "report the length, fill a buffer that is large enough completely, and never write outside the caller's buffer.",
     ["inputs", "histories", "configurations"],
     "All objects, property values, texts, writer types, settings, samples, messages and buffer sizes.",
     "The interface is only exercised by .NET tests that need Windows and by an example that prints values.",
     ["mdflibrary/src/MdfExport.cpp", "include/mdflibrary/MdfExport.h", "include/mdflibrary/MdfChannelObserver.h",
      "include/mdflibrary/MdfWriter.h", "include/mdflibrary/CanMessage.h", "include/mdflibrary/LinMessage.h"],
     [("exported functions", "mdflibrary/src/MdfExport.cpp"), ("wrapper classes", "include/mdflibrary/MdfWriter.h")],
     "getters, observers and files of both interfaces",
     "differential property-based testing of the C interface against the C++ library",
     "Each generated operation is done once through the C interface and once through the C++ library; dumps through both "
     "interfaces are compared in memory and after reading the files back.")

prop("C21", "The CSV converter exports every value",
     "For every set of MDF files and folders given to mdf2csv, each channel group with samples becomes one CSV file of its own, "
     "in the output folder if one is given and otherwise beside its source file. A standard CSV reader (semicolon delimiter, "
     "doubled quotes) gets from it a header with the name and the unit of each channel, master channels first, and one row per "
     "sample with the engineering values that the library gives, an empty field for an invalid value. (Groups of bus messages "
     "leave out the column of the whole CAN frame.) An existing CSV file is only replaced with the force option, the source "
     "files are never changed, and no temporary file is left, wherever the temporary folder is.",
     ["inputs", "configurations"],
     "All names, units, values, group layouts, file names and folders, options and places of the temporary folder.",
     "The converter has no test at all.",
     ["mdf2csv/src/csvwriter.cpp", "mdf2csv/src/createfilelist.cpp", "mdf2csv/src/programargument.cpp", "mdf2csv/src/main.cpp"],
     [("file names and groups", "mdf2csv/src/createfilelist.cpp"), ("CSV text", "mdf2csv/src/csvwriter.cpp")],
     "the CSV files written",
     "differential property-based testing of the converter against the library's reader, with an independent CSV reader",
     "Generated measurements with awkward names, texts and folders are converted by the tool's main function; an independent "
     "CSV reader parses the result, which is compared with what the library reads from the source.")


def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": [p["observe"]]}}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(f"{HERE}/src/{p['id']}.cpp"):
            checks.append({"property": p["id"], "quick_cmd": f"python3 run.py check {p['id']}",
                           "thorough_cmd": f"python3 run.py check {p['id']} --tier thorough",
                           "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
                           "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    with open(HERE + "/MANIFEST.json", "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 run.py build", "checks": checks, "not_applicable": na,
                   "notes": "Harnesses in src/, engine in src/vp.cpp; see DESIGN.md. Known findings and repairs are in "
                            "KNOWN_FINDINGS.txt."}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
