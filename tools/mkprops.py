#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the text is readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

RD = "brec/src/packet/read.rs"; WR = "brec/src/packet/write.rs"; PB = "brec/src/packet/reader.rs"

p("P01", "Packets survive a write/read round trip on every reading path",
  "Any packet a user can build (0 to 255 blocks of any declared field types, with any kind of payload or none) that is serialized completely is read back equal to the original by every public way of reading it: plain, partial-aware, buffered, filtered, by-reference and streaming. Each reader consumes exactly the packet's own bytes, so packets written back to back are read back one after another in the order written. The same holds for single blocks and single payloads read on their own.",
  ["inputs", "configurations"], "every packet content, block order, payload kind and concatenation of packets; every reader implementation",
  "The proptest suites sample random values, read packets mostly one per buffer, never read a mixed set of block types through the standalone block readers, and never compare the byte position each reader stops at.",
  [RD, PB, "brec/src/packet/mod.rs", "brec_macros/src/codegen/read/block.rs", "brec_macros/src/collector/blocks/read.rs", "brec/src/traits/read/mod.rs", "brec/src/payload/header/read.rs"],
  [("ReadFrom / TryReadFrom / TryReadFromBuffered for PacketDef", RD), ("generated readers per block type and for the Block enum", "brec_macros/src/codegen/read/block.rs, brec_macros/src/collector/blocks/read.rs"), ("PacketDef::filtered", "brec/src/packet/mod.rs")],
  ["return value and stream position of every reader"])

p("P02", "The bytes on the wire follow the documented format, whoever writes them",
  "A packet's serialized form is exactly the documented layout: 29-byte checksummed packet header, then each block as 4-byte schema signature, little-endian fields in declaration order and 4-byte CRC, then the payload as length-prefixed signature and CRC, 4-byte length and body. All writing paths (complete write, single write, vectored write, slice list) produce the same bytes, and every advertised size equals the number of bytes produced. A storage file is exactly a sequence of slot tables (signature, capacity, 500 entry lengths, CRC), each followed by its packets back to back.",
  ["inputs", "configurations"], "every packet content and every writer implementation",
  "Tests only check that what was written can be read by the same build, so a change made consistently on both sides (byte order, checksum coverage, field order, signature derivation) passes while silently making existing data unreadable.",
  ["brec/src/packet/header/mod.rs", "brec/src/packet/header/write.rs", WR, "brec_macros/src/codegen/write/block.rs", "brec_macros/src/codegen/props/block.rs", "brec/src/payload/header/mod.rs", "brec/src/traits/write/mod.rs", "brec/src/storage/slot/write.rs", "brec_macros/src/entities/block/mod.rs", "site/docs/specification.md"],
  [("PacketHeader::new and fill_buf", "brec/src/packet/header"), ("generated WriteTo/WriteVectoredTo", "brec_macros/src/codegen/write/block.rs"), ("PayloadHeader::as_vec", "brec/src/payload/header/mod.rs"), ("slot get_buffer", "brec/src/storage/slot/write.rs")],
  ["bytes received by the output stream", "size()/ssize() values", "raw storage file"])

p("P03", "Damaged bytes are never delivered as different data",
  "If bytes of a serialized packet covered by its checksums, signatures or length fields are altered, no reader ever returns a packet that differs from the one written: the result is an error (or the original packet, where the altered byte carries no information). This holds for the packet header, every block, the payload header and the payload body, and for all readers alike; only blocks and payloads declared without a checksum are exempt, and only for their own content. Altered input never makes a reader panic.",
  ["inputs", "fault_sequences"], "every position of every packet, every altered value, and multi-byte bursts up to 32 bits; every reader",
  "No existing test reads corrupted data at all; the suites only feed intact packets or random litter.",
  ["brec/src/packet/header/read.rs", "brec_macros/src/codegen/read/block.rs", "brec_macros/src/codegen/props/block.rs", "brec/src/traits/read/mod.rs", "brec/src/traits/props/mod.rs", "brec/src/payload/header/read.rs", RD, PB],
  [("header CRC", "brec/src/packet/header/read.rs"), ("block CRC comparison", "brec_macros/src/codegen/read/block.rs"), ("payload CRC comparison", "brec/src/traits/read/mod.rs")],
  ["reader results on corrupted bytes"])

p("P04", "Incomplete input is reported as such and leaves the input untouched",
  "When only part of a packet, block, packet header, payload header or slot table is available, the partial-aware readers answer that more data is needed, never with an error and never with a value, and leave the input position exactly where it was. The number of missing bytes they report is at least one and never exceeds what is really missing, so a caller that supplies what is asked for always gets to a complete read. The position is also restored when a partial-aware reader on a seekable input rejects the data as invalid.",
  ["inputs", "schedules"], "every proper prefix of every item, every way of growing it, for seekable and buffered inputs",
  "Tests always hand complete items to the partial-aware readers, except for one check of header-sized prefixes; no test looks at the position afterwards or follows the reported amount.",
  [RD, "brec/src/packet/header/read.rs", "brec/src/payload/header/read.rs", "brec/src/payload/header/sreader.rs", "brec_macros/src/codegen/read/block.rs", "brec/src/storage/slot/read.rs", "brec/src/storage/slot/header.rs", "brec/src/traits/read/mod.rs"],
  [("availability checks and seek-back", RD), ("SafeHeaderReader", "brec/src/payload/header/sreader.rs"), ("generated TryReadFrom / TryReadFromBuffered", "brec_macros/src/codegen/read/block.rs")],
  ["ReadStatus, error and stream position"])

p("P05", "Stream extraction finds every packet and preserves every other byte",
  "From any byte stream that interleaves intact packets with foreign data, the stream reader delivers every packet exactly once, in order and unaltered, and hands every foreign byte exactly once and in order to the ignored-data callback, with nothing lost, duplicated or reordered. The result does not depend on how the source splits the bytes into reads, down to single bytes and across its internal buffer size. At the end of the source the reader says so, after having handed over all remaining foreign bytes.",
  ["inputs", "schedules"], "every interleaving of packets and foreign bytes (including partial signatures and header-only packets) and every chunking of the source",
  "The litter tests feed whole buffers through an in-memory cursor, so chunk boundaries only ever fall every 8 KiB; litter is compared by total length, not by content.",
  [PB, "brec/src/packet/header/mod.rs"],
  [("Empty/Refill/Ready state machine", PB), ("signature scan", "brec/src/packet/header/mod.rs get_pos"), ("ignore callback", "brec/src/packet/rules.rs")],
  ["sequence of read results", "bytes passed to the ignored callback"],
  [("recent", "partial header or pending packet carried between calls", PB), ("buffered", "bytes of a pending packet already taken from the source", PB)])

p("P06", "One damaged packet in a stream costs only itself",
  "If packets in a stream are damaged (bad header checksum, bad block or payload checksum, unknown block or payload signature, inconsistent or excessive lengths and counts), the stream reader reports an error at most once per damaged packet and then continues: every intact packet after it is still delivered exactly once and in order. Reading always makes progress and never panics or repeats the same error forever.",
  ["inputs", "fault_sequences", "schedules"], "every kind and position of damage inside a stream, every number of damaged packets, every chunking",
  "No test ever places a damaged packet in a stream; the only error path exercised ends the read loop.",
  [PB, "brec/src/packet/header/read.rs"],
  [("drop_and_consume on block/payload errors", PB), ("header resynchronisation", PB)],
  ["sequence of read results for a stream with damage"])

p("P07", "Rules decide exactly which packets are delivered",
  "A packet is delivered if and only if every active filter accepts it; the block filter always sees exactly the packet's blocks, the payload filter exactly the raw payload bytes (and only when there is a payload and the block filter accepted), and the packet filter the complete decoded packet (and only when the others accepted). At most one rule of each kind can be active, a refused duplicate leaves the active one in force, and a removed rule has no effect any more. A packet rejected early is skipped without its payload being decoded, and reading continues right behind it.",
  ["inputs", "histories"], "every combination and order of adding/removing rules, every accept/reject outcome per packet and payload kind",
  "Tests install accept-all filters and count calls; no test rejects by payload or removes/duplicates rules.",
  ["brec/src/packet/rules.rs", PB, "brec/src/packet/mod.rs"],
  [("RulesDef add/remove/filter dispatch", "brec/src/packet/rules.rs"), ("filter order", PB), ("PacketDef::filtered", "brec/src/packet/mod.rs")],
  ["callbacks invoked with their arguments, read results"])

p("P08", "Partial output acceptance never loses, repeats or reorders bytes",
  "However few bytes the output accepts per call, a complete write (plain or vectored) either delivers exactly the serialized packet, each byte once and in order, or returns the error; an output that stops accepting bytes yields an error instead of silent truncation or an endless loop. A single (non-complete) write returns the exact number of bytes the output accepted, and these are a prefix of the serialized packet.",
  ["schedules", "fault_sequences", "inputs"], "every sequence of short writes, interruptions and failures, for every packet shape",
  "All tests write to growable in-memory buffers that accept everything at once.",
  ["brec/src/traits/write/slices.rs", "brec/src/traits/write/mod.rs", WR, "brec_macros/src/codegen/write/block.rs"],
  [("IoSlices::write_vectored_all", "brec/src/traits/write/slices.rs"), ("PacketDef::write accounting", WR)],
  ["bytes accepted by the output, return values"])

p("P09", "A storage is the list of packets inserted into it",
  "After any history of inserting packets and closing and reopening the storage (by one writer at a time), a reader sees exactly the inserted packets in insertion order: the count, sequential iteration, access by index, iteration from any index and any range all describe the same list, also across slot boundaries. Access outside the list yields nothing or an error, never another packet.",
  ["histories", "inputs"], "every history of inserts and reopenings, every packet size, every index and range, at every position relative to the 500-entry slot boundaries",
  "Storage tests insert one batch and read it back with a handful of ranges; iteration from an index is never exercised, nor are indices around slot boundaries or reopened writers with a full slot.",
  ["brec/src/storage/writer/mod.rs", "brec/src/storage/locator.rs", "brec/src/storage/reader/mod.rs", "brec/src/storage/reader/iters.rs", "brec/src/storage/slot/mod.rs"],
  [("slot table and offsets", "brec/src/storage/slot/mod.rs"), ("FreeSlotLocator", "brec/src/storage/locator.rs"), ("PacketsLocatorIterator, ReaderIterator, ReaderRangeIterator", "brec/src/storage/reader/iters.rs")],
  ["count, iter, seek, nth, range results"],
  [("slots", "entry lengths per slot", "brec/src/storage/slot/mod.rs"), ("locator", "slot receiving the next packet", "brec/src/storage/locator.rs")])

p("P10", "Reloading a reader reports exactly the packets added since",
  "Reloading an open reader returns the exact number of packets that were added to the storage since the reader was opened or last reloaded, zero if there are none. Afterwards the reader's count, iteration and indexed access include exactly these additional packets, while packets seen before remain unchanged.",
  ["histories", "schedules"], "every interleaving of inserts and reloads of several readers, with any number of packets between reloads and any position relative to slot boundaries",
  "The observer test reloads after single inserts up to a fixed number; reloads that skip over one or more slot boundaries at once are not exercised.",
  ["brec/src/storage/reader/mod.rs", "brec/src/storage/slot/mod.rs", "brec/src/storage/slot/read.rs"],
  [("ReaderDef::reload", "brec/src/storage/reader/mod.rs")],
  ["return value of reload, subsequent count/iter/nth"])

p("P11", "An interrupted insert never harms the packets already stored",
  "If inserting stops at any point (the process dies between two write operations, or a write fails), every packet whose insertion had been acknowledged is still returned unchanged at its index by count, indexed access and iteration, and the interrupted packet is either completely present or absent. A reader that looks at the storage while an insert is in progress sees only complete packets. A writer, whether it continues after the failed write or is reopened after the crash, can go on inserting and the storage again behaves as the list of inserted packets.",
  ["crash_points", "fault_sequences", "schedules"], "every write operation of every insert (first in a storage, within a slot, last in a slot, first of a new slot), followed by continuation or reopening; every interleaving of reader loads and writer steps",
  "No test interrupts a write or reads between the writer's steps.",
  ["brec/src/storage/writer/mod.rs", "brec/src/storage/reader/mod.rs", "brec/src/storage/reader/iters.rs", "brec/src/storage/locator.rs"],
  [("order of packet and slot-table writes", "brec/src/storage/writer/mod.rs insert"), ("slot CRC", "brec/src/storage/slot/read.rs")],
  ["storage image after a crash at each write operation; reader results on it"])

p("P12", "Damage to a storage is reported, and its packets remain recoverable",
  "If a slot table of a storage is altered or torn, opening or reloading it for reading or writing reports a damaged storage (or, if the file simply ends inside the table, ignores that unfinished table) and never serves packets from a wrong table. Damage inside one packet affects access to that packet only: all other packets are still returned by index. In every such case a scan of the raw file with the stream reader recovers every undamaged packet, in order.",
  ["inputs", "fault_sequences", "crash_points"], "every byte of every slot table, every truncation point of the file, every packet",
  "No test damages or truncates a storage file.",
  ["brec/src/storage/slot/read.rs", "brec/src/storage/slot/header.rs", "brec/src/storage/reader/mod.rs", "brec/src/storage/writer/mod.rs", "brec/src/storage/reader/iters.rs", PB],
  [("slot signature and CRC validation", "brec/src/storage/slot/read.rs"), ("DamagedSlot mapping", "brec/src/storage/reader/mod.rs load")],
  ["result of opening, nth on each index, scan results"])

p("P13", "At most one file storage holds a storage file at any time",
  "At any moment at most one open file storage exists for a given file, across threads and processes; every other attempt fails immediately when no timeout is configured, or waits and then either succeeds after the holder is gone or fails with a timeout no earlier than configured. The file becomes available again as soon as the holder is dropped or its process dies, and contention never destroys stored packets.",
  ["schedules", "histories", "configurations"], "every interleaving of opening, dropping and dying of several contenders, with and without timeouts",
  "The lock tests exercise two threads with fixed sleeps; process death, more than two contenders and data integrity under contention are not covered.",
  ["brec/src/storage/writer/locker.rs"],
  [("exclusive advisory lock on the .lock file", "brec/src/storage/writer/locker.rs"), ("wait_or_fail", "brec/src/storage/writer/locker.rs")],
  ["open results with start/end times, file content"])

p("P14", "The file sensor never loses a wake-up",
  "Whenever the watched file has grown beyond what its consumer has acknowledged, a wake-up is pending or will be delivered without further growth being needed, for every interleaving of growth notifications, wake-up consumption and acknowledgements. At most one wake-up is outstanding between acknowledgements, the size it carries never exceeds the file's, and acknowledging a smaller offset than before never makes the sensor forget the larger one.",
  ["schedules", "histories"], "every interleaving of file growth, watcher callbacks, receipt of wake-ups and acknowledgements, at the granularity of the shared atomic variables",
  "The two sensor tests follow one fixed schedule with sleeps.",
  ["brec/src/storage/observer/sensor/mod.rs"],
  [("locked flag and processed length", "brec/src/storage/observer/sensor/mod.rs emit/processed"), ("bounded(1) channel", "brec/src/storage/observer/sensor/mod.rs")],
  ["wake-ups received, return values of processed"],
  [("locked", "a wake-up has been issued and not yet acknowledged", "brec/src/storage/observer/sensor/mod.rs"), ("processed_len", "largest acknowledged offset", "brec/src/storage/observer/sensor/mod.rs")],
  "cfg(brec_verif): make the sensor reachable and expose a notification entry point and yield points")

p("P15", "The buffering reader adapter is transparent",
  "Whatever sequence of looking ahead, refilling, reading and consuming is performed on the preloading buffered reader, the bytes it hands out are exactly the source's bytes, each once and in order, and looking ahead shows exactly the bytes that come next. Its consumed counter always equals the number of bytes handed out.",
  ["histories", "inputs", "schedules"], "every sequence of operations and every chunking of the source",
  "The adapter has no tests of its own.",
  ["brec/src/traits/read/reader.rs"],
  [("BufferedReader refill/fill_buf/read/consume", "brec/src/traits/read/reader.rs")],
  ["bytes returned, consumed()"])

p("P16", "A transient source error loses no data",
  "If the source of a stream reader returns an error from a read (for example interrupted or would-block) and later continues, the reader passes the error on and, when called again, continues exactly where it was. The packets and foreign bytes delivered in total are the same as without the error.",
  ["schedules", "fault_sequences"], "every position of every number of transient errors, in every reader state, for every stream and chunking",
  "No test uses a source that fails.",
  [PB],
  [("state restored across source errors", PB)],
  ["sequence of read results with a failing source"])

p("P17", "Filtered storage reading is the filtered list",
  "Filtered iteration over a storage yields exactly the stored packets accepted by all active rules, in order; filtered range reading yields the first requested number of accepted packets starting from the given index. Unfiltered access is not affected by rules, and with no rules filtered and unfiltered reading agree.",
  ["histories", "inputs"], "every combination of rules and packets, every start index and length, across slot boundaries",
  "One test filters by a single block value over one range; payload and packet rules, rejected packets at slot boundaries and rule removal are not covered.",
  ["brec/src/storage/reader/iters.rs", "brec/src/storage/reader/mod.rs", "brec/src/packet/mod.rs", "brec/src/packet/rules.rs"],
  [("ReaderFilteredIterator, ReaderRangeFilteredIterator", "brec/src/storage/reader/iters.rs"), ("PacketDef::filtered", "brec/src/packet/mod.rs")],
  ["filtered / range_filtered results"])

p("P18", "The block-count limit is the same for every reader",
  "Packets with up to 255 blocks are readable by every reader, and packets with more are refused by every reader with the limit error. A refused packet does not affect packets after it in a stream or at other indices of a storage.",
  ["inputs"], "every block count around and above the limit, with and without payload, every reader",
  "No test writes more than 20 blocks per packet.",
  [RD, PB, "brec/src/packet/mod.rs"],
  [("MAX_BLOCKS_COUNT checks", "brec/src/packet/read.rs, brec/src/packet/reader.rs")],
  ["reader results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
