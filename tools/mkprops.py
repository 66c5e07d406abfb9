#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: edit here, then run to regenerate."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe_at=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe_at: a["observe_at"] = observe_at
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "yEnc articles decode to exactly the posted bytes",
 "For every binary payload posted as a yEnc article (single or multi-part, any legal line splitting, any legal optional escaping and NNTP dot-stuffing), decoding the received article yields exactly the payload bytes, in order, no matter how the network splits the article into reads and no matter which CPU-specific decoder is selected. The part offset, sizes and file name announced in the article are reported as announced, and the end of the article is recognised exactly where it is.",
 ["inputs", "configurations"], "all payload bytes, all splits of the article into reads, all line lengths, all decoder back ends",
 "Tests download a handful of generated files through one read pattern on one CPU; escape and dot-stuffing sequences that straddle a read or SIMD-block boundary are never enumerated.",
 ["daemon/nntp/Decoder.cpp", "lib/yencode/ScalarDecoder.cpp", "lib/yencode/SimdDecoder.cpp", "lib/yencode/Sse2Decoder.cpp", "lib/yencode/Ssse3Decoder.cpp"],
 [("line/body state machine", "daemon/nntp/Decoder.cpp DecodeBuffer/ProcessYenc/DecodeYenc"), ("scalar and SIMD body decoders", "lib/yencode")],
 ["output buffer and return value of the article decoder"])

prop("C02", "A damaged yEnc article is never accepted as good",
 "An article is reported as successfully decoded only if its header and trailer were both present, the number of decoded bytes equals the size its trailer announces (and, for single-part files, the size its header announces), and, when checksum verification is on and the trailer carries a checksum, the checksum of the decoded bytes equals it. Any other article gets the status that names what is wrong (no binary data, incomplete, wrong size, checksum error).",
 ["inputs"], "all header/trailer fields, all payload bytes, truncation at any point",
 "Tests damage a few articles in fixed ways (missing article, one corrupted block).",
 ["daemon/nntp/Decoder.cpp"], [("final verdict", "daemon/nntp/Decoder.cpp Check/CheckYenc")],
 ["status returned by the article decoder"])

prop("C03", "Checksums are CRC-32 of the data however it is fed",
 "The checksum computed over data fed in any sequence of pieces, at any buffer alignment and on any CPU path, equals the standard CRC-32 of the concatenated bytes. Combining the checksums of two adjacent parts with the length of the second gives exactly the checksum of the concatenation, for every length.",
 ["inputs", "configurations"], "all byte contents up to the stated length, all ways of splitting, all part lengths",
 "Only whole downloads with few sizes are tested; a checksum routine may be wrong only for particular lengths or alignments.",
 ["daemon/util/Util.cpp", "lib/yencode/SliceCrc.cpp", "lib/yencode/PclmulCrc.cpp"],
 [("incremental CRC", "lib/yencode/SliceCrc.cpp"), ("CRC combination", "daemon/util/Util.cpp Crc32::Combine")],
 ["value returned by Crc32::Finish / Crc32::Combine"])

prop("C04", "No article text can corrupt the downloader's memory",
 "Whatever bytes a news server sends as an article body (any header lines, yEnc or UU data, embedded zeros, missing line ends, any split into reads), the decoder never reads or writes outside its buffers, never produces more output than it was given input, and always terminates.",
 ["inputs"], "all article bytes and all read splits up to the stated sizes",
 "Tests only feed well-formed articles produced by the project's own server.",
 ["daemon/nntp/Decoder.cpp", "lib/yencode/ScalarDecoder.cpp"], [("bounds handling", "daemon/nntp/Decoder.cpp")],
 ["memory accesses of the decoder"])

prop("C05", "Uuencoded articles decode to exactly the posted bytes",
 "For every payload posted in uuencoded form, the bytes handed to the file writer are exactly the payload, for every split of the article into network reads.",
 ["inputs"], "all payloads and read splits up to the stated sizes",
 "No test downloads a uuencoded post.",
 ["daemon/nntp/Decoder.cpp"], [("line decoder", "daemon/nntp/Decoder.cpp DecodeUx")], ["output buffer of the article decoder"])

prop("C06", "A completed file is exactly its articles, each at its offset",
 "Whatever the order in which articles finish, whether article cache and direct write are on or off, and whichever articles failed, the completed output file holds every successfully downloaded article's bytes at that article's offset, holds no other downloaded bytes, and temporary part files are gone. When the file's checksum is reported it is the checksum of the complete content, and it is reported only if every article's checksum is known.",
 ["inputs", "histories", "configurations"], "all completion orders, failure subsets, article sizes and write-mode options up to the stated numbers of articles",
 "Tests download complete files in essentially one order per write mode.",
 ["daemon/nntp/ArticleWriter.cpp", "daemon/util/FileSystem.cpp"],
 [("segment store and join", "daemon/nntp/ArticleWriter.cpp Start/Write/Finish/CompleteFileParts/FlushCache")], ["the output file"])

prop("C07", "Saving and loading the download queue preserves it",
 "For every queue and history content, loading what was saved restores every item in the same order with the same names, sizes, priorities, pause states, statistics, parameters, statuses, file lists and article states. No text field, however long or whatever bytes other than line breaks it contains, can damage other fields or the process.",
 ["inputs", "histories"], "all field values up to the stated sizes",
 "Tests never restart the program with a populated queue having unusual field values.",
 ["daemon/queue/DiskState.cpp", "daemon/queue/DownloadInfo.h"], [("save/load pairs", "daemon/queue/DiskState.cpp")], ["queue after reload"])

prop("C08", "A crash while saving state never loses the queue",
 "If the process or machine dies at any point while the queue or any other state file is being saved, the next start loads either exactly the previously saved state or exactly the newly saved state, never nothing and never a mixture.",
 ["crash_points"], "every crash point between two file-system operations of a save, and torn writes of the file being written",
 "No test kills the program during a save.",
 ["daemon/queue/DiskState.cpp", "daemon/util/FileSystem.cpp"], [("write to .new, swap, recover", "daemon/queue/DiskState.cpp StateFile")], ["state loaded after restart"])

prop("C09", "A damaged state file is rejected, not trusted",
 "For any contents of a state file (truncated, garbled, from a newer version), loading it terminates, stays within memory bounds, and either succeeds or reports failure; a file of a newer format version is always refused.",
 ["inputs"], "all file contents within the stated mutations and sizes",
 "Tests only load files the program wrote.",
 ["daemon/queue/DiskState.cpp"], [("line scanner and version check", "daemon/queue/DiskState.cpp")], ["load result and memory accesses"])

prop("C10", "Queue totals always equal the sum over the files",
 "After any sequence of pausing, resuming, deleting, completing, failing, merging, splitting and reloading, each download's remaining, paused, successful and failed sizes and article and file counters equal what its files and articles add up to, and none is negative.",
 ["histories"], "all operation sequences up to the stated length from all valid states up to the stated size",
 "Tests run a few fixed sequences.",
 ["daemon/queue/DownloadInfo.cpp", "daemon/queue/QueueCoordinator.cpp", "daemon/queue/QueueEditor.cpp"],
 [("incremental statistics", "daemon/queue/DownloadInfo.cpp UpdateCompletedStats/UpdateDeletedStats/MoveFileList")], ["queue statistics as listed over RPC"])

prop("C11", "Queue edits never lose or duplicate items and place them right",
 "Moving entries by offset, to top, to bottom, before or after another entry, and sorting, yields a permutation of the queue in which the edited entries are where the command says and the relative order of all others is unchanged.",
 ["inputs", "histories"], "all queues, selections, offsets and targets up to the stated size",
 "Tests cover a few moves on a small fixed queue.",
 ["daemon/queue/QueueEditor.cpp"], [("edit actions", "daemon/queue/QueueEditor.cpp")], ["queue order"])

prop("C12", "News-server connections are handed out within the rules",
 "At every moment at most the configured number of connections per server is in use and no connection is in use twice; a request for a level gets a connection only of an active, unblocked, not-ignored server of that level (or of a later level only when every server of the requested one is optional and blocked), of the wanted server or its group when one is wanted; and it is refused only if there is no such free connection.",
 ["histories", "configurations"], "all server configurations and request/release/block/reconfigure sequences up to the stated sizes",
 "Tests run a few fixed sequences on fixed configurations.",
 ["daemon/nntp/ServerPool.cpp"], [("pool", "daemon/nntp/ServerPool.cpp GetConnection/FreeConnection/BlockServer/InitConnections")], ["connection returned"])

prop("C13", "Only eligible articles are picked, by priority and without loss",
 "The next article chosen for download is never from a deleted, paused (unless forced or extra-priority rules allow it) or fully assigned file, is always one not yet started, comes from the highest-priority eligible download, and whenever an eligible article exists one is chosen.",
 ["histories", "configurations"], "all queue states up to the stated size",
 "Tests see only whole downloads of one or two items.",
 ["daemon/queue/QueueCoordinator.cpp"], [("selection", "daemon/queue/QueueCoordinator.cpp GetNextArticle")], ["article chosen"])

prop("C14", "Health figures are truthful",
 "The reported health is 100.0% exactly when nothing has failed and otherwise below it, is never negative, never rises because more data fails, and the critical health is the lowest health the available repair data can make up for.",
 ["inputs"], "all size statistics",
 "Tests see a few size combinations.",
 ["daemon/queue/DownloadInfo.cpp"], [("CalcHealth, CalcCriticalHealth", "daemon/queue/DownloadInfo.cpp")], ["health values over RPC"])

prop("C15", "File names from the network stay inside their directory",
 "A file name taken from an article, an NZB file, a rar or par archive or a remote command is always turned into one that is a single path component with no path separators, reserved or control characters, is never empty, '.' or '..', and a name chosen to be unique never equals an existing file.",
 ["inputs"], "all names up to the stated length and all directory contents up to the stated size",
 "Tests use well-behaved names.",
 ["daemon/util/FileSystem.cpp", "daemon/queue/DownloadInfo.cpp"], [("MakeValidFilename, MakeUniqueFilename", "daemon/util/FileSystem.cpp")], ["path of created files"])

prop("C16", "No remote request is served without valid credentials",
 "When a control password is set and the client address is not in the authorised list, a request is executed only if it carries the control, restricted or add credentials (in any of the supported forms), and it then runs with exactly that user's rights; requests with missing, partial or wrong credentials get no data and cause no change.",
 ["inputs", "configurations"], "all credentials configured and presented, in all forms, up to the stated lengths",
 "No test exercises failing or lower-privileged logins.",
 ["daemon/remote/WebServer.cpp", "daemon/remote/XmlRpc.cpp", "daemon/remote/BinRpc.cpp"], [("CheckCredentials", "daemon/remote/WebServer.cpp"), ("safe method list", "daemon/remote/XmlRpc.cpp")], ["response and executed command"])

prop("C17", "The web server only serves files below its web directory",
 "For every request URL, every file name the built-in web server opens lies inside the configured web directory.",
 ["inputs"], "all URLs up to the stated length",
 "Tests never request files.",
 ["daemon/remote/WebServer.cpp"], [("URL filter", "daemon/remote/WebServer.cpp Dispatch")], ["file names opened"])

prop("C18", "Text survives JSON and XML transport and never breaks the document",
 "For every string, the JSON encoding is a valid JSON string body and the XML encoding is valid XML character data, both are well-formed UTF-8; decoding plain ASCII text that was encoded gives the original text. Encoding and decoding of any input, however malformed, stays within memory bounds and never lengthens a string decoded in place.",
 ["inputs"], "all byte strings up to the stated length",
 "Tests check about ten strings.",
 ["daemon/util/Util.cpp"], [("XmlEncode/XmlDecode/JsonEncode/JsonDecode", "daemon/util/Util.cpp")], ["encoded and decoded strings"])

prop("C19", "Remote-call parameters are parsed as sent and never out of bounds",
 "For every request body, reading the parameters of a JSON-RPC, XML-RPC or URL call yields the values that were sent, in order and of the right type, and malformed bodies are reported as errors without reading or writing outside the request.",
 ["inputs"], "all request bodies up to the stated length",
 "Tests only send well-formed requests generated by a library.",
 ["daemon/remote/XmlRpc.cpp", "daemon/util/Util.cpp"], [("NextParamAs...", "daemon/remote/XmlRpc.cpp"), ("JsonNextValue, XmlParseTagValue", "daemon/util/Util.cpp")], ["parameter values"])

prop("C20", "Web addresses and web encodings are parsed correctly and safely",
 "For every address, splitting it into protocol, user, password, host, port and path gives the parts it was composed of; percent-decoding, base64-decoding, HTTP-unquoting and Latin-1 conversion produce the defined result. For malformed input they stay within memory bounds and terminate.",
 ["inputs"], "all strings up to the stated length",
 "Tests check one URL-encoding case.",
 ["daemon/util/Util.cpp"], [("URL, WebUtil", "daemon/util/Util.cpp")], ["decoded strings"])

prop("C21", "Wildcard masks match what they say",
 "A mask matches a text exactly when the usual meaning of '*', '?' and '#' (any string, any character, any digit; letters case-insensitive) says so, for every mask and text, and file-extension lists match exactly the names ending in, or matching, one of their entries.",
 ["inputs"], "all masks and texts up to the stated lengths",
 "Tests check about 40 pairs.",
 ["daemon/util/Util.cpp"], [("WildMask::Match, MatchFileExt", "daemon/util/Util.cpp")], ["match result"])

prop("C22", "Scheduled tasks run exactly once at each due time",
 "While the program runs, a task set for a time of day (on given weekdays, in local time) is executed exactly once for each due time that passes between two checks at most 90 minutes apart, not at other times, and start-up tasks are executed exactly once.",
 ["histories", "configurations"], "all task times, weekday sets, check instants and time-zone offsets within the stated bounds",
 "No test covers the scheduler.",
 ["daemon/main/Scheduler.cpp"], [("CheckTasks", "daemon/main/Scheduler.cpp")], ["executed tasks"])

prop("C23", "Traffic statistics count every byte once, in the right period",
 "Every downloaded byte is added once to the total, to the custom counter and to the slot of the current second, minute, hour and day, slots that have gone out of their window are zero again, and the monthly and daily quota usage is the sum of the days in the period.",
 ["histories"], "all times and byte counts over the stated numbers of readings",
 "No test covers statistics.",
 ["daemon/nntp/StatMeter.cpp"], [("ServerVolume::AddData, CalcQuotaUsage", "daemon/nntp/StatMeter.cpp")], ["statistics over RPC"])

prop("C24", "Feed filters accept exactly what the rules say",
 "For every feed item and filter, the first accept or reject rule all of whose terms match decides; numeric, size, age, text and negated terms compare as documented; items matched by no rule are treated as documented; malformed rules never match and never crash.",
 ["inputs"], "all items and rules within the stated grammar bounds",
 "Tests check single-line filters against fixed items.",
 ["daemon/feed/FeedFilter.cpp"], [("rule evaluation", "daemon/feed/FeedFilter.cpp")], ["status of feed items"])

prop("C25", "Rar volume headers are read safely and correctly",
 "For any file contents, reading it as a rar volume terminates, stays in bounds and never accepts a block whose header is malformed; for well-formed rar3 and rar5 volumes the reported version, volume number and file entries are those in the headers.",
 ["inputs"], "all file contents up to the stated size",
 "Tests read about fifteen sample archives.",
 ["daemon/postprocess/RarReader.cpp"], [("block readers", "daemon/postprocess/RarReader.cpp")], ["RarVolume contents"])

prop("C26", "Par2 arithmetic and packet parsing are correct and safe",
 "Galois-field operations used for repair form a field (every non-zero element has an inverse, multiplication distributes over addition), the rolling block checksum of any window equals the checksum computed afresh, and any par2 file contents are parsed within memory bounds.",
 ["inputs"], "all field elements, all windows and packet bytes up to the stated sizes",
 "Tests repair two sample sets.",
 ["lib/par2"], [("galois.h, crc.h, filechecksummer", "lib/par2")], ["repaired data"])

prop("C27", "Duplicate handling keeps exactly the best copy",
 "When a download with the same duplicate key or name as existing ones is added, it is downloaded, kept as a backup or skipped exactly as duplicate mode and score rules say; after a failure the best remaining backup, and only one, is returned to the queue; after success no backup is.",
 ["histories", "configurations"], "all combinations of modes, scores, keys and statuses up to the stated numbers of items",
 "Tests cover copies of one item.",
 ["daemon/queue/DupeCoordinator.cpp"], [("NzbFound, NzbCompleted, ReturnBestDupe", "daemon/queue/DupeCoordinator.cpp")], ["queue and history"])

prop("C28", "NZB files give the files and articles they list",
 "For every NZB file, each file entry yields one queue item with exactly the listed segments by number, sizes and message ids, duplicates and invalid segments ignored as documented; sizes and counts add up; and no contents can crash the parser.",
 ["inputs"], "all element sequences and attribute values up to the stated sizes",
 "Tests parse three sample files.",
 ["daemon/queue/NzbFile.cpp"], [("SAX handlers, ProcessFiles", "daemon/queue/NzbFile.cpp")], ["queue item"])

prop("C29", "The message log is bounded and ordered",
 "The in-memory log never holds more than the configured number of messages, drops the oldest first, and message ids increase by one.",
 ["histories"], "all message sequences up to the stated length", "No test covers the log.",
 ["daemon/util/Log.cpp"], [("Log::AddMessage", "daemon/util/Log.cpp")], ["log listed over RPC"])

prop("C30", "Configuration values are applied as written",
 "For every configuration text, a known option gets exactly the written value after the documented expansion of references, unknown or malformed lines are reported and change nothing else, numeric options outside their documented range or format are rejected, and sizes, rates and times are converted without loss.",
 ["inputs", "configurations"], "all option lines up to the stated length", "Tests set a few options.",
 ["daemon/main/Options.cpp"], [("option parsing", "daemon/main/Options.cpp")], ["effective options"])

def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
main()
