#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))

# ---------------------------------------------------------------- transport stream
p("T01","Transport packet header fields mirror the wire",
 "For every transport packet that parses successfully, the error indicator, unit-start indicator, priority, PID, scrambling control, adaptation-field control and continuity counter equal exactly the bits ISO/IEC 13818-1 places after the 0x47 sync byte. The value of one header field never changes how another header field is decoded.",
 ["inputs"],"every 188-byte packet, all 2^24 header words",
 "The tests parse two fixed packets and look at the PID and the payload length; a wrong width, order or mask on any other flag, or on a PID bit that is 0 in the samples, passes.",
 ["ts/packet.go"],[("sequential bit reads into the packet's fields","ts/packet.go Packet.Next")],obs=["ts.NewPacket","ts.Packet.Next"])
p("T02","Adaptation field contents mirror the wire",
 "When a transport packet carries an adaptation field, its eight flags, PCR, OPCR, splice countdown, and extension (LTW, piecewise rate, splice type, DTS of next access unit) equal the bits ISO/IEC 13818-1 places at those positions, where a clock reference is base*300+extension. An optional item is taken from the stream only if its flag is set, and items absent from the stream keep their zero value.",
 ["inputs"],"every adaptation field: all flag combinations, all lengths",
 "One test parses one adaptation field with no optional item and checks only the payload length.",
 ["ts/adaptation_field.go"],[("flag-guarded reads","ts/adaptation_field.go newAdaptationField, newAdaptationExt, readPcr")],obs=["ts.Packet.AdaptationField"])
p("T03","A parsed transport packet spans exactly 188 bytes",
 "A successful transport packet parse consumes exactly 188 bytes starting at the sync byte, whatever the adaptation field says. The payload is exactly the bytes after the adaptation field when a payload is signalled, and a declared adaptation, private-data or extension length that does not fit inside its enclosing field is rejected with an error instead of reading beyond it.",
 ["inputs"],"every packet: all adaptation control values, all declared lengths and nested lengths",
 "Tests use two well-formed shapes; inconsistent nested lengths, adaptation-only packets and reserved control values are never parsed.",
 ["ts/packet.go","ts/adaptation_field.go"],[("payload size and remaining-length arithmetic","ts/packet.go Packet.Next; ts/adaptation_field.go")],obs=["stream position after ts.Packet.Next","ts.Packet.Payload"])
p("T04","Reusing a packet value never exposes earlier data",
 "After a successful parse into an already used transport or PES packet value, every exported field describes the newly parsed packet only. Optional parts the new packet does not have (adaptation field, PES header, payload) are nil or empty rather than left over from the previous packet.",
 ["histories","inputs"],"every pair of consecutive packets parsed into one value",
 "Tests parse into fresh values, or reuse one across packets of identical shape.",
 ["ts/packet.go","pes/packet.go"],[("reset or assignment of every field on each parse","ts/packet.go Packet.Next; pes/packet.go Packet.Next")],obs=["ts.Packet","pes.Packet"])
p("T05","Truncation is never mistaken for success or a clean end",
 "If the input ends inside a transport packet or a PES packet, parsing it returns an error, and that error is not io.EOF. io.EOF is returned only if not a single byte of the new packet had been consumed.",
 ["inputs","fault_sequences"],"every packet truncated at every byte",
 "One test truncates one packet at byte 4; the other truncation points and PES are not exercised.",
 ["ts/packet.go","ts/adaptation_field.go","pes/packet.go","pes/header.go","pes/extension.go"],[("EOF conversion after the first consumed byte","ts/packet.go, ts/adaptation_field.go, pes/packet.go")],obs=["error of ts.Packet.Next and pes.Packet.Next"])
p("T06","Resynchronisation discards only non-sync bytes",
 "A transport packet is only ever parsed from a byte-aligned 0x47. When the next byte is not 0x47 the parser discards bytes one at a time up to, and never including, the next 0x47, and after 188 discarded bytes without one it fails with the no-sync error.",
 ["inputs"],"every stream position and every garbage prefix",
 "No test feeds an unsynchronised stream.",
 ["ts/packet.go"],[("alignment test and byte-wise scan","ts/packet.go isAligned, realign")],obs=["ts.Packet.Next"])
p("T07","The demultiplexer routes each packet to exactly its subscribers",
 "Each packet read by the demultiplexer is sent, once, to every subscriber whose test accepts it and to no other subscriber, in stream order and before the next packet is read. Packets before the first match of the skip-until test are delivered to nobody, the matching packet itself is delivered, and the first later packet rejected by the take-while test is delivered to nobody and ends the run.",
 ["inputs","schedules","configurations"],"every packet sequence, every set of subscribers and range tests",
 "Tests use at most two subscribers and three packets.",
 ["ts/demuxer.go"],[("delivery loop","ts/demuxer.go Demuxer.Go"),("registration","ts/demuxer.go Demuxer.Where, SkipUntil, TakeWhile")],obs=["channels returned by Demuxer.Where"])
p("T08","The demultiplexer shuts down cleanly on every ending",
 "However a demultiplexer run ends (read error, end of stream, or take-while rejection) every subscriber channel is closed exactly once, nothing is sent on it afterwards, and completion is signalled exactly once after all of them are closed. A read error is retrievable from the demultiplexer before completion is signalled.",
 ["schedules","fault_sequences"],"every way a run can end, every number of subscribers",
 "Tests see two endings under one schedule each and never observe the order of closing, error publication and completion.",
 ["ts/demuxer.go"],[("deferred close-all then done","ts/demuxer.go Demuxer.Go")],obs=["subscriber channels","done channel","Demuxer.Err"])
p("T09","A delivered packet is never modified afterwards",
 "Once a packet has been sent on a channel by the transport demultiplexer or a program-stream pack, the library never writes to that packet or its payload again, so a receiver may keep and read it without synchronisation. In particular reading the next packet uses different storage.",
 ["schedules","histories"],"every interleaving of producer and consumers",
 "Tests read the packet immediately under one schedule; a data race is invisible to them.",
 ["ts/demuxer.go","ts/packet.go","ps/pack.go","pes/packet.go"],[("fresh packet per iteration","ts/demuxer.go Demuxer.Go; ps/pack.go readPack")],obs=["*ts.Packet / *pes.Packet received from channels"])
p("T10","Payload readers hand out every payload byte once, in order",
 "For every sequence of caller buffer sizes, the bytes returned by the transport, PES and program-stream payload readers are the concatenation of the payloads of the accepted packets, nothing skipped, repeated or reordered. Each call reports exactly the number of bytes it stored in the caller's buffer, also when it returns an error, and payload bytes that did not fit are kept for the next call.",
 ["inputs","histories"],"every stream, every sequence of read sizes",
 "Tests read a few whole packets with one buffer size; split reads, counts on error, and the PES and program-stream readers are not covered.",
 ["ts/payload_reader.go","pes/payload_reader.go","ps/pack_reader.go"],[("drain remainder, copy, keep the rest","payloadReader.Read (ts, pes), packreader.Read (ps)")],obs=["io.Reader.Read results"])
p("T11","Range limits on the transport payload reader are exact",
 "With a skip-until test, the payload reader contributes nothing before the first matching packet and a source error while searching is returned instead of searching on. With a take-while test, the first packet it rejects behind the start of delivery and everything after that contribute nothing, and from then on the reader reports io.EOF; both limits leave the packet filter in force.",
 ["inputs","configurations"],"every stream and every choice of range tests",
 "No test uses the range limits of the payload reader.",
 ["ts/payload_reader.go"],[("skip loop, take-while check, closed flag","ts/payload_reader.go payloadReader.Read, realign")],obs=["StreamControlReader.Read"])
p("T12","Payload units are delimited exactly",
 "The payload-unit reader discards everything before the first matching unit start, then returns the payload bytes of all matching packets from one unit start up to the next as one unit, and signals the end of the unit with its end-of-packet error exactly after the unit's last byte. The unit that is open when the source ends is still delivered, after which the source's error is returned.",
 ["inputs","histories"],"every stream and every sequence of read sizes",
 "No test uses the payload-unit reader.",
 ["ts/payload_unit_reader.go"],[("fill until next start, EOP on drain","ts/payload_unit_reader.go payloadUnitBuffer.Read, fill")],obs=["io.Reader.Read results of ts.NewPayloadUnitReader"])
p("T13","Packet tests form a boolean algebra",
 "For every packet, the negation, conjunction and disjunction of packet tests accept it exactly when the logical not, and, or of the operands' verdicts does; a PID test accepts exactly packets with that PID and the unit-start test exactly packets with the unit-start indicator. Evaluating a test never modifies the packet.",
 ["inputs","configurations"],"every packet and every composition of tests",
 "Two tests sample a conjunction and a PID test; disjunction is never evaluated.",
 ["ts/packet_tester.go"],[("closure combinators","ts/packet_tester.go")],obs=["ts.PacketTester"])
p("T14","Channel adapters forward every packet payload",
 "The payload-only adapters of transport and PES packet channels emit exactly one item, the packet's payload, per received packet in order, and close their output exactly once when the input is closed. The payload-unit adapter emits the concatenated payloads from each unit start up to the next (and the last one when the input closes), ignores payload before the first unit start, and closes its output exactly once.",
 ["histories","schedules"],"every sequence of packets",
 "No test uses the channel adapters.",
 ["ts/packet_channel.go","pes/packet_channel.go"],[("range over input with deferred close","ts/packet_channel.go, pes/packet_channel.go")],obs=["<-chan []byte"])

# ---------------------------------------------------------------- PES
p("E01","PES header fields mirror the wire",
 "For every PES packet that parses successfully and whose stream id has the optional header, the scrambling, priority, alignment, copyright, original, flag and header-length fields, the PTS and DTS, and the supported extension fields equal the bits ISO/IEC 13818-1 places there, each optional field being read exactly when its flag is set. Optional fields without an API (ESCR, ES rate, trick mode, copy info, CRC, pack header, sequence counter) are skipped, not decoded. A packet with a wrong '10' prefix, timestamp prefix or marker bit, P-STD buffer prefix or header stuffing byte is rejected with an error.",
 ["inputs"],"every PES header",
 "One test parses one packet and checks that an extension is present.",
 ["pes/header.go","pes/extension.go"],[("sequential reads with marker checks","pes/header.go readHeader, readTimeStamp, readStuffingBytes; pes/extension.go readExtension")],obs=["pes.Packet.Header"])
p("E02","PES packets are framed by their declared length",
 "A PES packet is only parsed from the start-code prefix 0x000001, and a successful parse of a packet with non-zero declared length consumes exactly six bytes plus that length: optional header including stuffing, then payload or padding. The payload is exactly the bytes after the header (all packet bytes for stream ids without header, nothing for padding, everything to the end of the source when the declared length of a packet with a header is zero), and a declared length shorter than the header is rejected.",
 ["inputs"],"every stream id, declared length and header length",
 "One packet of one stream id is parsed.",
 ["pes/packet.go","pes/header.go","pes/stream_assigments.go"],[("length accounting, stream-id classification","pes/packet.go Packet.Next; pes/stream_assigments.go hasPESHeader")],obs=["pes.Packet.Payload","stream position after pes.Packet.Next"])

# ---------------------------------------------------------------- PS
p("S01","Program-stream pack and system headers mirror the wire",
 "For every pack header that parses successfully, the system clock reference base and extension, mux rate, and (when a system header follows) its rate bound, audio and video bounds, flags and per-stream buffer bounds equal the bits ISO/IEC 13818-1 places there, and exactly the header's bytes including stuffing are consumed. A wrong start code or marker bit is rejected with an error.",
 ["inputs"],"every pack header and system header",
 "The ps package has no tests.",
 ["ps/pack_header.go","ps/system_header.go"],[("sequential reads with marker checks","ps/pack_header.go NewPackHeader; ps/system_header.go readSystemHeader")],obs=["ps.NewPackHeader"])
p("S02","Program-stream decoding runs packs strictly in order and always ends",
 "The program-stream decoder hands out packs in stream order, and reads nothing further from the source until the handed-out pack has finished delivering its packets. Each pack's packet channel and the pack channel are closed exactly once, completion is signalled exactly once after the pack channel is closed, with true exactly if the stream ended with the program end code, and any other ending leaves a non-nil error. Unless the source fails, a pack ends only where no packet follows, and the run goes on as long as a pack follows and ends where the program end code does.",
 ["schedules","inputs","fault_sequences"],"every stream and every interleaving of decoder, pack and consumer",
 "The ps package has no tests.",
 ["ps/decoder.go","ps/pack.go"],[("pack-complete handshake, deferred closes","ps/decoder.go decoder.Go; ps/pack.go readPack")],obs=["Decoder.Packs, Pack.Packets, Decoder.Go, Decoder.Err"])

# ---------------------------------------------------------------- cross-cutting
p("X01","No source error is swallowed",
 "Whenever a read from the underlying source fails with an error during any operation of the library, that operation does not report success: the caller gets that error (or io.ErrUnexpectedEOF in place of io.EOF), and an asynchronous run ends and makes it available. The only exception is the graceful end-of-unit signal while reading a PES packet of unspecified length.",
 ["fault_sequences","inputs"],"every source failing at every read",
 "Tests read from in-memory sources that fail only at their end, and only in the ts package.",
 ["ts","pes","ps","video"],[("if err != nil return","every function calling the bit reader")],obs=["errors returned by the exported API"])
p("X02","Malformed container input produces errors, not crashes",
 "For every byte sequence, parsing transport packets, PES packets, program-stream packs and video sequence, group and picture headers returns a value or an error: it never panics, indexes or slices out of range, or dereferences nil. It never allocates a buffer larger than 64 KiB on the say of a length field alone.",
 ["inputs"],"every byte sequence",
 "Tests feed only well-formed data.",
 ["ts","pes","ps","video"],[("length checks before slicing and allocation","all header parsers")],obs=["panics of the exported parse functions"])
p("X03","Every parsing loop makes progress",
 "No input makes the library spin: every iteration of every parsing, searching or copying loop consumes input, advances a bounded counter, or blocks on a channel, and every such loop ends when the source reports an error. A read call never returns zero bytes and no error for a non-empty buffer.",
 ["inputs","fault_sequences"],"every stream, ending or failing at every point",
 "A hang needs a specific malformed or truncated stream that the tests do not contain.",
 ["ts","pes","ps","video"],[("consume-or-exit loops","all loops over the bit reader")],obs=["termination of every exported call on finite input"])
p("X04","Decoder instances share no mutable state",
 "After package initialisation the library never modifies package-level data (code tables, scan orders, default matrices, error values), not even through pointers handed out by a table. Any number of parsers and decoders can therefore run concurrently on different sources without affecting each other.",
 ["schedules","histories"],"every set of instances and every interleaving",
 "Tests run one instance at a time.",
 ["ts","pes","ps","video"],[("tables are only read","package-level variables")],obs=["results of independent instances"])
p("X05","Start-code checks consume nothing, assertions exactly the code",
 "Checking for a program-stream start code, video start code or extension id reports a match exactly if the next bits equal the code and leaves the stream position unchanged. Asserting one consumes exactly the code's bits on a match, and on a mismatch consumes nothing and returns the package's error for an unexpected code.",
 ["inputs"],"every bit position content and every code",
 "Only one matching sequence start code is ever asserted.",
 ["ps/start_code.go","video/start_codes.go","video/extension_id.go"],[("peek, compare, skip","StartCode.Check/Assert, ExtensionID.Check/Assert")],obs=["Check, Assert and stream position"])

# ---------------------------------------------------------------- video
p("V01","Video sequence-level headers mirror the wire",
 "Every successfully parsed sequence header, sequence extension, and sequence display extension holds exactly the bits ISO/IEC 13818-2 assigns to each field, optional parts being read exactly when flagged; a missing marker bit or wrong start code or extension id is rejected. Parsing stops at the next start code after the header's last bit.",
 ["inputs"],"every header",
 "One sequence header is parsed by the tests; no extension is.",
 ["video/sequence_header.go","video/sequence_extension.go","video/sequence_display_extension.go"],[("sequential reads","ReadSequenceHeader, sequence_extension, sequence_display_extension")],obs=["video.ReadSequenceHeader","VideoSequence.Size"])
p("V02","Group and picture headers mirror the wire",
 "Every successfully parsed group-of-pictures header, picture header, picture coding extension and picture temporal scalable extension holds exactly the bits ISO/IEC 13818-2 assigns to each field, optional parts being read exactly when the picture type or flag calls for them. The time code of a group decodes to its drop-frame, hours, minutes, seconds and pictures fields.",
 ["inputs"],"every header",
 "None of these headers is parsed by a test.",
 ["video/group_of_pictures_header.go","video/picture_header.go","video/picture_coding_extension.go","video/picture_temporal_scalable_extension.go"],[("sequential reads","ReadGOPHeader, picture_header, picture_coding_extension, picture_temporal_scalable_extension")],obs=["video.ReadGOPHeader","VideoSequence.Next"])
p("V03","Variable-length code tables are the standard's",
 "Every variable-length code table used for decoding (address increment, macroblock types per picture type, coded block pattern, motion code, DC sizes, both DCT coefficient tables in first and following position) maps exactly the code words of ISO/IEC 13818-2 Annex B to exactly their standard values, and is prefix-free. Each syntax element is decoded with its own table.",
 ["inputs"],"all code words of all tables",
 "No test decodes a variable-length code.",
 ["video/macroblock_addressing.go","video/macroblock_type.go","video/coded_block_pattern.go","video/motion_vectors.go","video/dtc_coefficients.go"],[("Huffman tables","package-level tables of package video")],obs=["decoded macroblocks"])
p("V04","Quantisation constants and scan orders are the standard's",
 "The two coefficient scan orders, the two quantiser scale tables and the two default quantisation matrices used for decoding equal those of ISO/IEC 13818-2 in every entry. The stream's scan and scale selectors choose between them as the standard says.",
 ["inputs"],"all table entries and selector values",
 "No test decodes a coefficient.",
 ["video/decode_block.go","video/quantiser_scale_table.go","video/quantisation_matrix.go"],[("tables and their indexing","scan, quantiser_scale_tables, defaultQuantisationMatrices, decode_block")],obs=["decoded coefficients"])
p("V05","Predictors are reset exactly when the standard says",
 "DC predictors are reset to the mid-range value for the current precision at every slice start, after skipped macroblocks and at every non-intra macroblock, and motion vector predictors are zeroed at every slice start, at intra macroblocks without concealment vectors, and in P pictures at skipped macroblocks and at macroblocks without forward vector. In all other cases predictors carry over unchanged to the next macroblock.",
 ["inputs","histories"],"every sequence of macroblock types in every picture type",
 "No test decodes a macroblock.",
 ["video/macroblock.go","video/slice.go","video/dc_dct_predictors.go","video/motion_vectors.go"],[("reset calls","VideoSequence.slice, VideoSequence.macroblock")],obs=["decoded frames"])
p("V06","Pictures are emitted in display order and referenced correctly",
 "Next returns pictures in increasing temporal reference (modulo 1024), each once, restarting at zero with each group of pictures; only I and P pictures ever become reference pictures, the two most recent of them are kept, and B pictures never displace them. A picture predicts forward only from a reference that precedes it in display order and backward only from one that follows it, and pictures of earlier groups never count as following.",
 ["inputs","histories"],"every sequence of picture types and temporal references",
 "No test decodes a picture.",
 ["video/frame_store.go","video/frame_provider.go","video/video_sequence.go"],[("reference frame store and frame counter","frameStore, VideoSequence.step, VideoSequence.Next")],obs=["VideoSequence.Next"])
p("V07","A returned frame is never overwritten",
 "Every picture is decoded into newly allocated sample planes, and decoding writes only to the planes of the picture being decoded: reference pictures are only read. A frame returned by Next therefore never changes afterwards, whatever is decoded next.",
 ["histories"],"every sequence of pictures",
 "No test decodes a picture, let alone keeps one while decoding on.",
 ["video/picture_data.go","video/slice.go","video/macroblock.go","video/copy_macroblocks.go","video/motion_compensation.go"],[("fresh buffer per picture; writes through the slice view only","createFrameBuffer, picture_data, updateFrameSlice, pframe_copy_macroblocks")],obs=["*image.YCbCr returned by Next"])
p("V08","Samples and coefficients saturate instead of wrapping",
 "Every dequantised coefficient is limited to -2048..2047 before the inverse transform and every reconstructed sample to 0..255 before it is stored in a frame; values inside the range are unchanged. No conversion of a sample or matrix value to eight bits can lose information.",
 ["inputs"],"every coefficient and sample value",
 "No test decodes a block.",
 ["video/block.go","video/decode_block.go"],[("clamping comparisons","block.clamp, block.decode_block")],obs=["decoded samples"])
p("V09","Motion vectors stay in the range of their f_code",
 "For every legal f_code, motion code, residual and in-range prediction, a reconstructed motion vector component lies between -16*2^(f_code-1) and 16*2^(f_code-1)-1 and equals prediction plus delta modulo 32*2^(f_code-1). The stored prediction is that vector; where a frame picture is predicted by fields, the vertical component is predicted from half the stored prediction and stored doubled.",
 ["inputs"],"all f_codes 1..9, all codes, residuals and predictions",
 "No test decodes a motion vector.",
 ["video/motion_vectors.go"],[("range wrap","motionVectorData.update_actual")],obs=["decoded P and B pictures"])
p("V10","Start-code alignment never skips a start code",
 "Advancing to the next start code byte-aligns the stream, skips only zero bytes, rejects any other byte with an error, and stops exactly at the first 0x000001 prefix. Aligning to a given start code byte-aligns, advances a byte at a time, and stops exactly at its first occurrence; neither consumes the start code.",
 ["inputs"],"every stream position and content",
 "Neither operation is tested.",
 ["video/next_start_code.go","video/video_sequence.go"],[("peek and byte-wise skip","next_start_code, VideoSequence.AlignTo")],obs=["VideoSequence.AlignTo","header parse functions"])
p("V11","Frame geometry follows the sequence header",
 "The reported size combines the low 12 bits from the sequence header with the 2-bit extensions as bits 12 and 13, and is (-1,-1) before a sequence header was read. Every decoded frame buffer has that size rounded up to whole 16x16 macroblocks (vertically to pairs of macroblocks unless the sequence is progressive) and the chroma subsampling of the sequence.",
 ["inputs"],"every size and chroma format",
 "Neither Size nor the buffer allocation is tested.",
 ["video/video_sequence.go","video/picture_data.go"],[("size composition and rounding","VideoSequence.Size, createFrameBuffer")],obs=["VideoSequence.Size","bounds of returned frames"])
p("V12","Quantisation matrices follow the stream",
 "A sequence header installs its downloaded intra and non-intra matrices, or the defaults for those it does not download, for luma and chroma alike; a quant matrix extension replaces exactly the matrices it downloads, where intra and non-intra downloads also replace the chroma ones. Downloaded matrices are transmitted in zigzag order and are used in that order.",
 ["inputs","histories"],"every sequence of headers and extensions",
 "One test compares the raw downloaded values of a sequence header; installation and the extension are untested.",
 ["video/sequence_header.go","video/quant_matrix_extension.go","video/quantisation_matrix.go"],[("matrix installation","VideoSequence.sequence_header, VideoSequence.quant_matrix_extension")],obs=["decoded pictures"])
p("V13","Video syntax elements are read in the standard's order",
 "A sequence is parsed as sequence header, sequence extension, extensions and user data, then per picture an optional group header, picture header, picture coding extension, extensions and user data, and slices until a non-slice start code; a stream without sequence extension is refused as unsupported, and the sequence end code yields the end-of-sequence error. Slices are exactly the start codes 0x01 to 0xAF, and slice N decodes macroblock row N-1, plus 128 times its vertical position extension in pictures of more than 2800 lines.",
 ["inputs"],"every sequence of start codes",
 "No test decodes a sequence.",
 ["video/frame_provider.go","video/picture_data.go","video/extension_and_user_data.go","video/user_data.go","video/start_codes.go"],[("start-code dispatch","VideoSequence.step, picture_data, extension_data")],obs=["VideoSequence.Next"])
p("V14","Macroblock syntax elements are read exactly when present",
 "In each macroblock the motion type, DCT type, quantiser scale, forward and backward vectors, concealment marker and coded block pattern are read from the stream exactly under the conditions ISO/IEC 13818-2 gives for the picture type, picture structure and macroblock type, and in its order. A quantiser scale read in a macroblock stays in force for the rest of the slice.",
 ["inputs"],"every combination of picture and macroblock flags",
 "No test decodes a macroblock.",
 ["video/macroblock.go","video/slice.go","video/motion_vectors.go"],[("conditional reads","macroblock, macroblock_mode, motion_vectors, slice")],obs=["decoded frames"])
p("V15","DCT coefficients are decoded as the standard says",
 "In each coded block the DC coefficient is the component's predictor plus the sign-extended differential, the remaining coefficients are placed after their run of zeros with sign applied, escape codes give a 6-bit run and a 12-bit two's complement level, and the rest of the block is zero. A run that leaves the 64-coefficient block is rejected with an error.",
 ["inputs"],"every sequence of coefficient codes",
 "No test decodes a block.",
 ["video/block.go","video/dtc_coefficients.go"],[("run/level decoding","block.read, newDCTCoefficientDecoder")],obs=["decoded frames"])
p("V16","Motion compensated prediction matches the standard",
 "In 4:2:0 frame pictures with frame prediction, every sample of a non-intra macroblock (coded, not coded, or skipped; with frame or field DCT coding) is the sum of the residual and the prediction of ISO/IEC 13818-2, limited to eight bits: the samples the forward vector points to in the past reference and/or the backward vector in the future reference, half-sample interpolation and the average of both directions rounded to nearest, chroma vectors divided by two with truncation toward zero. Skipped macroblocks are predicted with a zero forward vector in P pictures, and with the directions and vectors of the previous macroblock in B pictures.",
 ["inputs"],"every vector and every reference picture",
 "No test decodes a P or B picture.",
 ["video/motion_compensation.go","video/copy_macroblocks.go","video/macroblock.go"],[("interpolation arithmetic","block.motion_compensation"),("skipped macroblocks","pframe_copy_macroblocks, bframe_copy_macroblocks")],obs=["decoded P and B pictures"])
p("V20","Reconstructed samples land where the standard puts them",
 "Each sample of an intra macroblock of a 4:2:0 frame picture is the output of the inverse transform limited to 0..255, stored at the place its block has in the picture: blocks 0 to 3 are the quarters of the luma macroblock, or with field DCT coding its even (0, 1) and odd (2, 3) lines; blocks 4 and 5 are Cb and Cr. No other sample is written.",
 ["inputs"],"every block, macroblock address and stride",
 "No test looks at a decoded sample.",
 ["video/macroblock.go","video/block.go"],[("block placement","updateFrameSlice"),("saturation","block.clamp")],obs=["decoded pictures"])
p("V17","The inverse transform meets the accuracy requirement",
 "For every block of coefficients that is the rounded transform of samples between -300 and 300 (the range of IEEE 1180 / ISO/IEC 13818-2 Annex A), no intermediate value of the inverse DCT overflows, every sample differs by at most one from the exact inverse transform rounded to nearest, and a block of zeros gives zeros; the mean errors (0.015 per sample, 0.0015 overall) and mean square errors (0.06 and 0.02) stay within the limits of that specification.",
 ["inputs"],"every 8x8 block of coefficients",
 "No test computes a transform.",
 ["video/idct.go"],[("fixed-point butterflies","block.idct")],obs=["decoded samples"])
p("V18","Malformed slice data produces errors, not crashes",
 "For every slice content, decoding returns a frame or an error and never panics, whatever macroblock addresses, slice rows, vectors, or missing reference pictures it implies.",
 ["inputs"],"every slice payload",
 "No test decodes a slice.",
 ["video/slice.go","video/macroblock.go","video/block.go","video/motion_compensation.go","video/copy_macroblocks.go"],[("bounds checks","slice, macroblock, block.read")],obs=["VideoSequence.Next"])
p("V19","Inverse quantisation arithmetic is exact",
 "For every coefficient, matrix entry and quantiser scale, a dequantised AC coefficient is (2*QF+k)*W*scale/32 truncated toward zero, with k the sign of QF in non-intra blocks and 0 in intra blocks, and W taken from the matrix for the block's kind and component; the intra DC coefficient is QF times 8, 4, 2 or 1 by intra_dc_precision. Mismatch control then toggles the last coefficient's lowest bit exactly when the sum of the 64 saturated coefficients is even.",
 ["inputs"],"every block of coefficients, matrix, scale and precision",
 "No test decodes a coefficient.",
 ["video/decode_block.go"],[("inverse quantisation and mismatch control","block.decode_block")],obs=["decoded coefficients"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
for q in P: assert len(q["title"])<=80,(q["id"],len(q["title"]))
open(out,"w").write("".join(json.dumps(q,ensure_ascii=False)+"\n" for q in P))
print(len(P))
