import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
H="brec/src/packet/header/"
p("C01","Packet header wire format and round trip",
 "Writing a packet header (in one write or in full) emits exactly 29 bytes: the 8-byte packet signature, the body size (u64 LE), the blocks length (u64 LE), the payload flag (0 or 1) and the stored CRC (u32 LE), and a header created for given blocks and payload records blocks length = sum of the blocks' sizes, body size = blocks length + payload header + payload body, and the CRC32 of those fields. Reading these bytes back through any of the four entry points (stream read, seekable try_read, buffered try_read, slice read) gives the same field values and takes exactly 29 bytes from the source (none for a slice), whatever bytes follow. Header helpers agree with the format: the declared header size is 29, the missing-bytes helper returns 29 minus what is there (nothing if there are 29 or more), and the signature search returns the first position at which the signature is followed by at least one more byte.",
 ["inputs"],"all u64 sizes, flags and CRC values, all trailing bytes, all source positions",
 "tests/stress_* sample a few hundred generated packets through whole-packet reads; no test exercises the header's buffered or seekable reading on its own, nor extreme field values.",
 [H+"mod.rs",H+"read.rs",H+"write.rs"],[("fill_buf layout",H+"write.rs fill_buf"),("four readers",H+"read.rs"),("PacketHeader::new",H+"mod.rs new, payload_size, get_pos, is_not_enought, crc")])
p("C02","Packet header is accepted only if signature and CRC match",
 "A packet header is accepted by an entry point (stream, seekable, buffered, slice) only if the first 8 bytes equal the packet signature and the stored CRC equals the CRC32 of the decoded size, blocks length and payload flag (a flag byte other than 1 counts as 0). A full-length header with a different signature is rejected with the signature error, one with a different CRC is rejected with the CRC error, and all four entry points give the same verdict on the same 29 bytes.",
 ["inputs"],"all 29-byte strings","The tests only read headers they wrote; corrupted headers are not generated.",
 [H+"read.rs",H+"mod.rs"],[("signature and CRC comparison",H+"read.rs"),("CrcU32 for PacketHeader",H+"mod.rs")])
PH="brec/src/payload/header/"
p("C03","Payload header wire format, size accounting and round trip",
 "A payload header is encoded as signature length (1 byte), signature, CRC length (1 byte), CRC, payload length (u32 LE); its size() and the size announced before it exists both equal the encoded length, and a payload longer than u32::MAX is refused. Reading it through the stream, seekable or buffered entry point gives back the same signature, CRC and length for every allowed signature and CRC length (4, 8, 16, 32, 64, 128), with stream and seekable reads taking exactly the encoded bytes and the buffered read taking none. Any other signature or CRC length byte is rejected with an error, and byte blocks are made only from 4, 8, 16, 32, 64 or 128 bytes, keeping these bytes.",
 ["inputs"],"all signature/CRC byte blocks and lengths, all length bytes",
 "Only 4-byte signatures and CRCs occur in the tests, read through whole packets.",
 [PH+"mod.rs",PH+"read.rs",PH+"sreader.rs","brec/src/traits/props/byte_block.rs"],[("PayloadHeader",PH+"mod.rs"),("readers",PH+"read.rs"),("SafeHeaderReader",PH+"sreader.rs"),("ByteBlock","brec/src/traits/props/byte_block.rs")])
p("C04","try_read never moves the source unless it succeeds",
 "A seekable try_read of a packet header, payload header, block, or packet leaves the source at its starting position whenever it reports not-enough-data or an error, and advances it by exactly the encoded size when it succeeds; a slot's try_read does so for not-enough-data and signature errors. The reported number of missing bytes is at least 1 and exact: for a packet header 29 minus the available bytes, for a packet whose header is readable the whole packet minus the available bytes, for a block first its 4-byte signature and then its full size minus the available bytes, for a payload header the part being read, for a slot its 16-byte header and then its full size. Buffered try_read of a packet header, packet or payload header consumes nothing when it reports not-enough-data.",
 ["inputs","histories"],"all prefixes of encoded items, all start positions, all corruptions","Tests use try_read on complete data from position 0; truncated sources are not enumerated.",
 [H+"read.rs","brec/src/packet/read.rs",PH+"read.rs",PH+"sreader.rs","brec/src/storage/slot/header.rs","brec/src/storage/slot/read.rs","brec_macros/src/codegen/read/block.rs"],
 [("stream_position / seek back","all TryReadFrom impls"),("SafeHeaderReader rewind",PH+"sreader.rs")])
p("C05","Packet bytes are header, blocks in order, payload header, payload body",
 "Writing a packet emits the packet header followed by each block's bytes in order, followed, if there is a payload, by the payload header and the payload body; the header's size field equals the number of bytes after the header. write_all and write_vectored_all produce the same bytes, write and write_vectored into a sink that accepts everything produce them too and return their number, and write into a sink that accepts fewer bytes returns the number of bytes the sink took or the sink's error. Writing does not change the packet: writing it again gives the same bytes.",
 ["inputs"],"all packets over the block and payload types, sinks accepting any number of bytes","Tests write into Vec and compare decoded values, never the bytes or short writes.",
 ["brec/src/packet/write.rs","brec/src/traits/write/mod.rs","brec/src/traits/write/slices.rs",PH+"mod.rs",H+"mod.rs","brec/src/payload/defaults/string.rs","brec/src/payload/defaults/vec_u8.rs"],
 [("PacketDef write","brec/src/packet/write.rs"),("WritePayloadWithHeaderTo, WriteVectoredPayloadWithHeaderTo","brec/src/traits/write/mod.rs")])
p("C06","Reading a packet inverts writing it and takes exactly its bytes",
 "For every packet with 0 to 255 blocks and an optional payload, reading its bytes through stream read, seekable try_read, buffered try_read or filtered look-in without rules gives an equal packet (same blocks in the same order, same payload) and takes exactly the packet's bytes, whatever follows. A packet that declares more than 255 blocks is rejected by stream read, seekable try_read, buffered try_read and the packet reader. A stream, seekable or buffered read of a packet with any block or payload byte changed never returns a packet different from the written one (for block and payload types with CRC).",
 ["inputs"],"all packets, all trailing bytes, all single corruptions of CRC-protected bytes","Tests sample random packets without trailing bytes and never hit 0, 254, 255 or 256 blocks.",
 ["brec/src/packet/read.rs","brec/src/packet/mod.rs"],[("block loop and MAX_BLOCKS_COUNT","brec/src/packet/read.rs"),("filtered","brec/src/packet/mod.rs")])
p("C07","Generated block codec: layout and round trip for every field value",
 "A generated block is encoded as its 4-byte signature, its fields in declaration order (integers and floats little-endian, bool and enums as one byte, byte arrays verbatim) and the 4-byte CRC32 of the field bytes (zeros for no_crc blocks), and its declared size equals the encoded length; write, write_all and the vectored form give identical bytes. Reading these bytes back with or without the signature, through stream read, seekable try_read, buffered try_read or from a slice, alone or through the enum of all blocks, gives an equal block of the same type and takes exactly its bytes.",
 ["inputs","programs"],"all field values, all field types the macro supports, all reading entry points","Tests compare decoded values of random blocks; layout and the skip-signature and vectored paths are not pinned.",
 ["brec_macros/src/codegen/read/block.rs","brec_macros/src/codegen/write/block.rs","brec_macros/src/codegen/props/block.rs","brec_macros/src/collector/blocks/read.rs","brec_macros/src/collector/blocks/write.rs","brec_macros/src/parsing","brec_macros/src/entities/ty/mod.rs"],
 [("generated read/write","brec_macros/src/codegen"),("enum dispatch","brec_macros/src/collector/blocks")])
p("C08","Packet stream reader delivers every packet whatever the chunking and litter",
 "For a stream of valid packets with arbitrary litter (containing no packet signature) before, between and after them, delivered in chunks of any sizes, the packet reader delivers exactly these packets in order and hands exactly the litter bytes, in order, to the ignore callback, and then reports no-data on every further call. If bytes of a packet (of types with CRC) are corrupted it reports an error or skips bytes, never delivers a packet different from the written ones, and still delivers every following packet. Every call makes progress: a stream of n bytes reaches no-data within a number of calls proportional to n.",
 ["inputs","histories","fault_sequences"],"all packet sequences, litter, chunk sizes and corruptions","Tests use a few fixed chunkings of valid streams; litter, corruption and small chunks are random samples at most.",
 ["brec/src/packet/reader.rs",H+"mod.rs"],[("state machine Empty/Refill/Ready","brec/src/packet/reader.rs"),("get_pos",H+"mod.rs")],
 [("recent","what the previous call left: nothing, a partial header, or a header waiting for its body","PacketBufReaderDef"),("buffered","body bytes already taken","PacketBufReaderDef")])
p("C09","Storage returns exactly the inserted packets, in order, by every access path",
 "After any history of inserts, with the storage closed and reopened at any points, a reader's count equals the number of inserted packets, nth(i) returns the i-th inserted packet for i < count and nothing for larger i, iter yields all packets in order, seek(i) yields packets i, i+1, ... and fails for i >= count, and range(i, n) yields packets i .. min(i+n, count). With rules added, filtered and range_filtered yield exactly the packets, in order, that every rule accepts (range_filtered at most n of them, from i on).",
 ["histories","inputs"],"all insert/reopen histories, including more packets than one slot holds (500)","Tests check a handful of counts; slot boundaries are crossed by one or two sizes only.",
 ["brec/src/storage/reader/mod.rs","brec/src/storage/reader/iters.rs","brec/src/storage/writer/mod.rs","brec/src/storage/locator.rs","brec/src/storage/slot/mod.rs"],
 [("insert","brec/src/storage/writer/mod.rs"),("nth, range, count","brec/src/storage/reader/mod.rs"),("PacketsLocatorIterator","brec/src/storage/reader/iters.rs")])
p("C10","Storage layout: packets are contiguous behind their slot and never overwritten",
 "After any sequence of inserts the storage is a sequence of slots, each directly followed by the bytes of its packets in insertion order, and the slot's table holds exactly the lengths of these packets followed by zeros, with a valid CRC. An insert appends the packet's bytes after everything stored before and changes no byte of an earlier packet or of a full earlier slot. A new slot is added only when all existing slots are full.",
 ["histories","inputs"],"all insert/reopen histories and packet sizes","Tests only read packets back through the same code; the file layout is never compared.",
 ["brec/src/storage/locator.rs","brec/src/storage/slot/mod.rs","brec/src/storage/slot/write.rs","brec/src/storage/writer/mod.rs"],
 [("FreeSlotLocator","brec/src/storage/locator.rs"),("Slot::insert, width, offsets","brec/src/storage/slot/mod.rs"),("get_buffer","brec/src/storage/slot/write.rs")],
 [("locator.next, slot_offset","index and file offset of the slot being filled","FreeSlotLocator")])
p("C11","Slot codec round trip, table arithmetic and integrity",
 "A slot of any capacity is encoded as signature, capacity, lengths, CRC; its size() is that length, and reading it back by read or try_read gives the same capacity, lengths and CRC. A slot whose signature or CRC does not match is rejected by both, and a storage containing such a slot is refused by the writer and by the reader as damaged; a truncated slot is never accepted. For a table of used lengths followed by zeros the slot reports width = sum of used lengths, free index = number of used lengths (none when full), count, offsets and item ranges = slot size + sum of the preceding lengths, and insert fills the first free place and fails when full.",
 ["inputs"],"all capacities and length tables, all single-byte corruptions, all truncations","No test corrupts a slot or uses a capacity other than the default.",
 ["brec/src/storage/slot/mod.rs","brec/src/storage/slot/read.rs","brec/src/storage/slot/write.rs","brec/src/storage/slot/header.rs"],
 [("Slot","brec/src/storage/slot/mod.rs"),("read, try_read","brec/src/storage/slot/read.rs")])
p("C12","write_vectored_all writes every byte once, in order, under any short writes",
 "Writing a list of slices with write_vectored_all to a sink that accepts any non-zero number of bytes per call delivers exactly the concatenation of the slices, in order, each byte once, for any slices including empty ones, and then succeeds. If the sink accepts zero bytes it fails with the write-zero error, and if the sink fails it returns that failure; in both cases the sink has received a prefix of the concatenation. Lists are built in order: adding slices or buffers or appending another list adds their bytes at the end.",
 ["inputs","fault_sequences"],"all slice lists, all sequences of short writes and failures","Tests write to sinks that accept everything at once.",
 ["brec/src/traits/write/slices.rs"],[("write_vectored_all","brec/src/traits/write/slices.rs"),("get, append, add_slice, add_buffered","brec/src/traits/write/slices.rs")])
p("C13","Buffered wrapper reader preserves the byte sequence and counts it",
 "For any interleaving of refill, read, fill_buf and consume, the wrapping buffered reader delivers exactly the bytes of the wrapped reader in order, none lost, duplicated or reordered, and consumed() equals the number of bytes delivered so far. fill_buf shows the next undelivered bytes: everything preloaded followed by what the wrapped reader has buffered, and len() is their number. If the wrapped reader fails, no byte is lost.",
 ["histories","inputs","fault_sequences"],"all operation interleavings, chunk sizes and failures","There is no test of this reader.",
 ["brec/src/traits/read/reader.rs"],[("BufferedReader","brec/src/traits/read/reader.rs")],
 [("buffer","preloaded bytes not yet delivered","BufferedReader"),("consumed","bytes delivered","BufferedReader")])
p("C14","Rules: at most one of a kind, and a packet passes only if every rule accepts it",
 "A rule set holds at most one rule of each kind: adding a second rule of a kind fails and leaves the set unchanged, removing a kind removes that rule and no other, after which it can be added again. The stream reader delivers a packet only if the block filter accepts its blocks, the payload filter accepts its payload body bytes (when there is a payload) and the packet filter accepts it, and reports it as skipped otherwise; a kind without a rule accepts everything. The filters see the packet's own blocks, body bytes and packet.",
 ["inputs","histories"],"all sequences of adding and removing rules, all packets and filter verdicts","Tests add one rule at most per reader.",
 ["brec/src/packet/rules.rs","brec/src/packet/reader.rs","brec/src/packet/mod.rs"],[("RulesDef","brec/src/packet/rules.rs")])
p("C15","A payload is accepted only with its own signature, its CRC and its exact length",
 "Reading a payload body with a payload header, through stream, seekable or buffered entry points, for one payload type or for the enum of all payloads, succeeds only if the header's signature is that type's signature and the header's CRC equals the CRC of the decoded payload; otherwise it fails with the signature or CRC error (or the decoding error), and a header with the signature of another type reads no byte. A successful read returns the payload that was written and takes exactly the header's length in bytes. The seekable read reports exactly the missing bytes, without moving, when fewer than that length are available.",
 ["inputs"],"all payload values, headers, trailing bytes and corruptions","Tests read payloads with the header they were written with.",
 ["brec/src/traits/read/mod.rs","brec/src/traits/props/mod.rs","brec_macros/src/collector/payloads/read.rs","brec/src/payload/defaults/string.rs","brec/src/payload/defaults/vec_u8.rs"],
 [("ReadPayloadFrom, TryReadPayloadFrom, TryReadPayloadFromBuffered","brec/src/traits/read/mod.rs"),("PayloadCrc","brec/src/traits/props/mod.rs")])
p("C16","Zero-copy block view agrees with the owned block; damaged blocks are rejected",
 "For every byte string, reading a block from a slice (the zero-copy view) and reading it from a stream either both fail or both succeed, and then give the same block when the view is converted to the owned form. A block with a wrong signature is rejected with the signature error and one whose CRC or field values were changed is rejected (for blocks with CRC), by every entry point; the enum of all blocks accepts a byte string only as the type whose signature it carries. Too short inputs are reported as such and never accepted.",
 ["inputs"],"all byte strings up to and beyond the block's size","Tests never compare the two decoders nor feed damaged blocks.",
 ["brec_macros/src/codegen/read/block.rs","brec_macros/src/codegen/base/block.rs","brec_macros/src/codegen/props/block.rs","brec_macros/src/collector/blocks/read.rs","brec_macros/src/parsing"],
 [("read_from_slice","brec_macros/src/codegen/read/block.rs ReadFromSlice"),("From<Referred>","brec_macros/src/codegen/base/block.rs")])
p("C17","Reading damaged data never panics and always terminates",
 "For every byte string (of moderate declared sizes) given as a packet, block, payload header, slot, stream or storage, including truncations, bit flips, duplications and splices of valid data, every reading entry point returns a value or an error: it does not panic, overflow, index out of bounds or loop forever. Iterating a storage whose packets were truncated or corrupted ends or yields errors without panicking.",
 ["inputs","fault_sequences"],"all byte strings; packet headers with valid CRC that declare more bytes than memory are excluded","Tests feed valid data only.",
 ["brec/src/packet/read.rs","brec/src/packet/mod.rs","brec/src/packet/reader.rs","brec/src/storage/reader/iters.rs","brec/src/storage/slot/read.rs",PH+"read.rs",H+"read.rs"],
 [("length checks before indexing","all readers")])
p("C18","Reader::reload reports exactly the packets appended since the last look",
 "For any interleaving of inserts by a writer and reloads by a reader of the same storage, across any number of slots, reload returns exactly the number of packets appended since the previous reload (or opening), 0 if none, and afterwards the reader's count, nth and iteration equal those of a freshly opened reader.",
 ["histories"],"all insert/reload histories, including empty storages and slot boundaries","The observer test appends within one slot mostly.",
 ["brec/src/storage/reader/mod.rs","brec/src/storage/slot/mod.rs"],[("reload","brec/src/storage/reader/mod.rs")],
 [("slots","the reader's copy of the slot tables","ReaderDef.slots")])
p("C19","Storage sensor wakes its receiver for every appended packet",
 "Whenever the watched storage file grows, the observer's sensor eventually delivers a wake to its receiver, none is lost however file events and processing interleave.",
 ["schedules"],"all interleavings of file events, sensor thread and receiver","The test sees one schedule.",
 ["brec/src/storage/observer/sensor/mod.rs"],[("Sensor","brec/src/storage/observer/sensor/mod.rs")])
p("C20","At most one file writer at a time for one storage path",
 "At any time at most one file writer (FileWriterDef, opened directly or by FileStorageOptions) exists for a storage path, over all threads and processes. The storage is opened, and its slots are loaded, only while the exclusive lock on the companion .lock file is held, and the writer keeps that lock until it goes away. While another writer holds it, an attempt without timeout fails at once with FileIsLocked, one with a timeout waits and fails with TimeoutToWaitLockedFile only after that timeout, and gets in if the holder leaves before. The lock is released when the writer goes away (its process may crash) and when its opening fails; opening never truncates the storage, and packets inserted by writers in turns are all kept in order.",
 ["schedules","crash_points","histories"],"all threads, processes and schedules of writers that name the storage by the same path","The tests use a few threads in one process.",
 ["brec/src/storage/writer/locker.rs"],[("FileWriterDef::new","brec/src/storage/writer/locker.rs"),("fs4 advisory lock","brec/src/storage/writer/locker.rs")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,x["title"]
